package ai

// Collect drops unreachable objects and facts about numbers and keys that nothing reachable mentions,
// except those made before base. Facts on dropped numbers are projected out when that is cheap.
func (st *State) Collect(base int) {
	objs, atoms, syms, bools := map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
	lin := func(l Lin) {
		for _, t := range l.T {
			atoms[t.A] = true
		}
	}
	var visit func(v Val)
	var cond func(c Cond)
	var obj func(id int)
	cond = func(c Cond) {
		switch x := c.(type) {
		case CLe:
			lin(x.L)
		case CEq:
			lin(x.L)
		case CAtom:
			bools[x.ID] = true
		case COrd:
			syms[x.A], syms[x.B] = true, true
		case CNot:
			cond(x.C)
		case CAnd:
			cond(x.A)
			cond(x.B)
		case CNil:
			syms[x.ID] = true
		}
	}
	obj = func(id int) {
		if objs[id] {
			return
		}
		objs[id] = true
		o := st.heap[id]
		if o == nil {
			return
		}
		if o.Arr != nil {
			lin(o.Arr.Len)
			for _, c := range o.Arr.Cells {
				lin(c.Idx)
				visit(c.V)
			}
		}
		visit(o.V)
	}
	visit = func(v Val) {
		switch x := v.(type) {
		case nil:
		case Int:
			lin(x.L)
		case Bool:
			cond(x.C)
		case Slice:
			lin(x.Off)
			lin(x.Len)
			lin(x.Cap)
			obj(x.Arr)
		case ArrVal:
			obj(x.O)
		case Ptr:
			lin(x.Idx)
			obj(x.O)
		case Tuple:
			for _, y := range x.V {
				visit(y)
			}
		case Struct:
			for _, y := range x.F {
				visit(y)
			}
		case Iface:
			visit(x.V)
		case Func:
			for _, y := range x.Bind {
				visit(y)
			}
		case Sym:
			if syms[x.ID] {
				return
			}
			syms[x.ID] = true
			if b, ok := st.bind[x.ID]; ok {
				visit(b)
			}
			if i := st.in.syms[x.ID]; i != nil {
				for _, a := range i.Args {
					visit(a)
				}
			}
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
		visit(f.panicV)
	}
	for _, v := range st.Ghost {
		visit(v)
	}
	for id, b := range st.bind {
		if id < base {
			visit(b)
		}
	}
	for id := range st.heap {
		if id < base {
			obj(id)
		}
	}
	for id := range st.heap {
		if !objs[id] {
			delete(st.heap, id)
		}
	}
	for id := range st.bind {
		if id >= base && !syms[id] {
			delete(st.bind, id)
		}
	}
	for id := range st.nonnil {
		if id >= base && !syms[id] {
			delete(st.nonnil, id)
		}
	}
	for id := range st.bools {
		if id >= base && !bools[id] {
			delete(st.bools, id)
		}
	}
	dead := map[int]bool{}
	for _, c := range st.cons {
		for _, t := range c.T {
			if t.A >= base && !atoms[t.A] {
				dead[t.A] = true
			}
		}
	}
	if len(dead) > 0 {
		cs := append([]Lin(nil), st.cons...)
		ids := make([]int, 0, len(dead))
		for a := range dead {
			ids = append(ids, a)
		}
		sortInts(ids)
		for _, a := range ids {
			var lo, hi, rest []Lin
			for _, c := range cs {
				switch k := c.Coef(a); {
				case k > 0:
					hi = append(hi, c)
				case k < 0:
					lo = append(lo, c)
				default:
					rest = append(rest, c)
				}
			}
			if len(lo)*len(hi) <= 12 {
				for _, l := range lo {
					for _, h := range hi {
						n := l.Scale(h.Coef(a)).Add(h.Scale(-l.Coef(a)))
						if n.IsConst() {
							continue
						}
						dup := false
						for _, r := range rest {
							if r.Equal(n) {
								dup = true
								break
							}
						}
						if !dup {
							rest = append(rest, n)
						}
					}
				}
			}
			cs = rest
		}
		st.cons = cs
	}
	var ne []Lin
	for _, n := range st.neq {
		ok := true
		for _, t := range n.T {
			ok = ok && (t.A < base || atoms[t.A])
		}
		if ok {
			ne = append(ne, n)
		}
	}
	st.neq = ne
	var gone []int
	for _, id := range st.ord.ids {
		if id >= base && !syms[id] {
			gone = append(gone, id)
		}
	}
	if len(gone) > 0 {
		n := st.ord.clone()
		drop := map[int]bool{}
		for _, id := range gone {
			drop[id] = true
		}
		for k := range n.rel {
			if drop[k[0]] || drop[k[1]] {
				delete(n.rel, k)
			}
		}
		var ids []int
		for _, id := range n.ids {
			if !drop[id] {
				ids = append(ids, id)
			}
		}
		n.ids = ids
		st.ord = n
	}
}

// Mark is a number below which nothing made from now on lies.
func (in *Interp) Mark() int { return in.next + 1 }
