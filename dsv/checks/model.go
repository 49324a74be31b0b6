package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

// world replaces the parts a container is built from by abstract ones. Each part (slot) is described only by what
// it says about one arbitrary key x: whether it holds it, with what value, and how many entries it has in all.
// Whatever happens to other keys is left open; since x is arbitrary, showing the outcome for x shows it for every key.
type world struct {
	c     *Ctx
	in    *ai.Interp
	x     ai.Sym
	slots []*slot
	rel   string // relation assumed between the operands A and B: "", "sub", "disj"
	inner func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool)
}

type slot struct {
	name    string
	entries bool // holds *types.MapEntry items
	sorted  bool // iterates in key order
	isMap   bool // iterates over keys and values
}

func (c *Ctx) newWorld(slots ...*slot) (*world, *ai.State) {
	in := c.Interp()
	w := &world{c: c, in: in, slots: slots}
	w.x = in.NewSym(c.hashable(), "x")
	in.Info(w.x.ID).Tag = "x"
	in.Rigid = map[int]bool{w.x.ID: true}
	in.MaxHeads = 200
	st := in.NewState()
	st.NonNil(w.x)
	st.Ghost["x"] = w.x
	for _, s := range slots {
		st.Ghost[s.name+".self"] = ai.Nil{}
		w.set(st, s, "n", nil)
		st.Ghost[s.name+".n"] = ai.Int{L: ai.K(0)}
		st.Ghost[s.name+".full"] = ai.Str{S: "n"}
		st.Ghost[s.name+".it"] = ai.Nil{}
		st.Ghost[s.name+".ph"] = ai.Str{S: "none"}
		st.Ghost[s.name+".cur"] = ai.Nil{}
		st.Ghost[s.name+".f"] = ai.Nil{}
		st.Ghost[s.name+".b"] = ai.Nil{}
	}
	in.H.Call = w.call
	in.H.TypeAssert = w.assert
	in.H.OnLoad = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
		if s := w.at(st, ai.Ptr{O: p.O}); s != nil {
			panic(ai.Undecided{Msg: "reads inside the " + s.name + " container", Pos: pos})
		}
	}
	return w, st
}

func str(st *ai.State, k string) string { return st.Ghost[k].(ai.Str).S }

func (w *world) set(st *ai.State, s *slot, has string, v ai.Val) {
	st.Ghost[s.name+".has"] = ai.Str{S: has}
	if v == nil {
		v = ai.Nil{}
	}
	st.Ghost[s.name+".v"] = v
}

func (w *world) n(st *ai.State, s *slot) ai.Lin { return st.Ghost[s.name+".n"].(ai.Int).L }

func (w *world) bump(st *ai.State, s *slot, d int64) {
	st.Ghost[s.name+".n"] = ai.Int{L: w.n(st, s).AddK(d)}
}

func (w *world) slot(name string) *slot {
	for _, s := range w.slots {
		if s.name == name {
			return s
		}
	}
	return nil
}

// fill puts a slot into an arbitrary state; has says whether x is in it.
func (w *world) fill(st *ai.State, s *slot, self ai.Val, has bool, v ai.Val) {
	if self != nil {
		st.Ghost[s.name+".self"] = self
	}
	n := w.in.NewAtom("size of " + s.name)
	st.AddLe(n.Neg())
	st.Ghost[s.name+".n"] = ai.Int{L: n}
	if has {
		st.AddLe(ai.K(1).Sub(n))
		w.set(st, s, "y", v)
	} else {
		w.set(st, s, "n", nil)
	}
}

// opaque makes an unknown container of interface or pointer type T.
func (w *world) opaque(st *ai.State, T types.Type, name string) ai.Val {
	if p, ok := T.(*types.Pointer); ok {
		o := st.NewObj(p.Elem(), w.in.Fresh(st, p.Elem(), name), true, name)
		return ai.Ptr{O: o.ID}
	}
	s := w.in.NewSym(T, name)
	st.NonNil(s)
	return s
}

// at finds the slot a receiver denotes.
func (w *world) at(st *ai.State, v ai.Val) *slot {
	v = st.Resolve(v)
	if i, ok := v.(ai.Iface); ok {
		v = st.Resolve(i.V)
	}
	for _, s := range w.slots {
		switch g := st.Resolve(st.Ghost[s.name+".self"]).(type) {
		case ai.Sym:
			if y, ok := v.(ai.Sym); ok && y.ID == g.ID {
				return s
			}
		case ai.Ptr:
			if y, ok := v.(ai.Ptr); ok && y.O == g.O && !y.IsElem {
				return s
			}
		}
	}
	return nil
}

// keyed is one way to read an item: the key it stands for and whether it is a *MapEntry.
type keyed struct {
	st    *ai.State
	key   ai.Sym
	entry bool
	deep  bool // an entry whose key is an entry
}

func (w *world) key(st *ai.State, v ai.Val) []keyed {
	switch y := st.Resolve(v).(type) {
	case ai.Sym:
		return []keyed{{st: st, key: y}}
	case ai.Iface:
		p, ok := st.Resolve(y.V).(ai.Ptr)
		if n, isP := y.T.(*types.Pointer); ok && isP {
			if t, isN := n.Elem().(*types.Named); isN && t.Obj().Name() == "MapEntry" && w.c.P.InRepoPkg(t.Obj().Pkg()) {
				var out []keyed
				for _, r := range w.in.Load(st, ai.Ptr{O: p.O, Path: []int{0}}) {
					for _, k := range w.key(r.St, r.V) {
						k.deep = k.deep || k.entry
						k.entry = true
						out = append(out, k)
					}
				}
				return out
			}
		}
	}
	panic(ai.Undecided{Msg: "key " + st.Show(v)})
}

// isX splits on the key being x.
func (w *world) isX(st *ai.State, s *slot, v ai.Val) (yes, no []*ai.State) {
	for _, k := range w.key(st, v) {
		if k.entry != s.entries || k.deep {
			// an entry looked for among plain items, or the reverse: what is found is not determined
			no = append(no, k.st)
			continue
		}
		t, f := k.st.Branch(ai.COrd{A: k.key.ID, B: w.x.ID, M: ai.EQ})
		if t != nil {
			yes = append(yes, t)
		}
		if f != nil {
			no = append(no, f)
		}
	}
	return
}

// stored is what the slot holds for x, as its iteration yields it.
func (w *world) stored(st *ai.State, s *slot) ai.Val { return st.Ghost[s.name+".v"] }

// entry builds a *MapEntry.
func (w *world) entry(st *ai.State, key, val ai.Val, fresh bool) ai.Val {
	N := w.c.P.Named("types", "MapEntry")
	if N == nil {
		panic(ai.Undecided{Msg: "types.MapEntry not found"})
	}
	f := []ai.Val{key, val}
	o := st.NewObj(N, ai.Struct{F: f}, fresh, "entry")
	return ai.Iface{T: types.NewPointer(N), V: ai.Ptr{O: o.ID}}
}

// fieldNamed reads an entry's component.
func (w *world) entryField(st *ai.State, e ai.Val, i int) ai.Val {
	if y, ok := st.Resolve(e).(ai.Iface); ok {
		if p, ok := st.Resolve(y.V).(ai.Ptr); ok {
			r := w.in.Load(st, ai.Ptr{O: p.O, Path: []int{i}})
			return r[0].V
		}
	}
	return nil
}

// another makes an item other than x, as slot s would hold it.
func (w *world) another(st *ai.State, s *slot, m uint8) ai.Val {
	k := w.in.NewSym(w.c.hashable(), "another item")
	w.in.Info(k.ID).Tag = s.name
	st.NonNil(k)
	st.SetOrd(k.ID, w.x.ID, m)
	st.Ghost[s.name+".cur"] = k
	if w.rel == "disj" {
		for _, o := range w.slots {
			if c, ok := st.Resolve(st.Ghost[o.name+".cur"]).(ai.Sym); ok && o != s && (o.name == "A" || o.name == "B") {
				st.SetOrd(k.ID, c.ID, ai.LT|ai.GT)
			}
		}
	}
	if s.entries {
		v := w.in.NewSym(types.NewInterfaceType(nil, nil), "its value")
		st.NonNil(v)
		return w.entry(st, k, v, true)
	}
	return k
}

func (w *world) assert(st *ai.State, s ai.Sym, T types.Type) ([]ai.TA, bool) {
	in := st.In()
	if w.at(st, s) != nil {
		// a container of unknown kind
		if types.IsInterface(T) {
			return nil, false
		}
		return []ai.TA{{St: st, V: in.Zero(st, T), OK: false}}, true
	}
	si := in.Info(s.ID)
	if si == nil {
		return nil, false
	}
	if I, ok := T.Underlying().(*types.Interface); ok {
		if si.T != nil && types.Implements(si.T, I) || types.Implements(w.c.hashable(), I) {
			return []ai.TA{{St: st, V: s, OK: true}}, true
		}
		return []ai.TA{{St: st, V: ai.Nil{}, OK: false}}, true
	}
	return []ai.TA{{St: st, V: in.Zero(st, T), OK: false}}, true
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

func (w *world) err(st *ai.State, what string) ai.Val { return w.in.NewErr(st, errType(), what) }

// construct intercepts the building of a basic container.
func (w *world) construct(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	fn := ci.Fn
	if fn == nil || fn.Pkg == nil || !w.c.P.InRepo(fn) || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	pt, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
	if !ok {
		return nil, false
	}
	N, ok := pt.Elem().(*types.Named)
	if !ok || !strings.HasPrefix(fn.Name(), "New") {
		return nil, false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if _, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			return nil, false
		}
	}
	switch N.Obj().Name() {
	case "MapSet", "SetMap", "UniqueDeque", "UniquePQ":
		return nil, false
	}
	kind := ""
	for _, k := range []string{"Set", "Map"} {
		if I := w.c.P.Named("types", k); I != nil && types.Implements(pt, I.Underlying().(*types.Interface)) {
			kind = k
		}
	}
	if N.Obj().Name() == "LinkedList" {
		kind = "Deque"
	}
	if kind == "" {
		return nil, false
	}
	for _, s := range w.slots {
		if s.name == "R"+kind && isNil(st, st.Ghost[s.name+".self"]) == ai.T {
			st.Ghost[s.name+".self"] = w.opaque(st, pt, "new "+N.Obj().Name())
			return []ai.Outcome{{St: st, Rets: []ai.Val{st.Ghost[s.name+".self"]}}}, true
		}
	}
	panic(ai.Undecided{Msg: "builds another " + N.Obj().Name(), Pos: ci.Pos})
}

func (w *world) call(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if o, ok := w.c.errorsHook(st, ci); ok {
		return o, ok
	}
	if w.inner != nil {
		if o, ok := w.inner(st, ci); ok {
			return o, ok
		}
	}
	if o, ok := w.construct(st, ci); ok {
		return o, ok
	}
	if f, ok := ci.FnVal.(ai.Sym); ok {
		for _, s := range w.slots {
			if g, ok := st.Resolve(st.Ghost[s.name+".it"]).(ai.Sym); ok && g.ID == f.ID {
				return w.yield(st, s, f, ci), true
			}
		}
		if si := st.In().Info(f.ID); si != nil && si.Tag == "iterator" {
			panic(ai.Undecided{Msg: "two iterations of one container", Pos: ci.Pos})
		}
		return nil, false
	}
	var recv ai.Val
	args := ci.Args
	if ci.Method != nil {
		recv = ci.Recv
	} else if ci.Fn != nil && ci.Fn.Signature.Recv() != nil && len(args) > 0 {
		recv, args = args[0], args[1:]
	} else {
		return nil, false
	}
	s := w.at(st, recv)
	if s == nil {
		return nil, false
	}
	if o, ok := w.method(st, s, ci, args); ok {
		return o, true
	}
	if ci.Fn != nil && len(ci.Fn.Blocks) > 0 {
		return nil, false // written in terms of the operations above
	}
	panic(ai.Undecided{Msg: "unmodelled method " + ci.Name() + " of a container", Pos: ci.Pos})
}

func (w *world) method(st *ai.State, s *slot, ci *ai.CallInfo, args []ai.Val) ([]ai.Outcome, bool) {
	in := w.in
	ret := func(st *ai.State, v ...ai.Val) ai.Outcome { return ai.Outcome{St: st, Rets: v} }
	nres := ci.Sig.Results().Len()
	var out []ai.Outcome
	name := ci.Name()
	isKey := len(args) > 0 && ci.Sig.Params().Len() > 0 && types.IsInterface(ci.Sig.Params().At(0).Type())
	has := func(st *ai.State) bool { return str(st, s.name+".has") != "n" }
	full := func(st *ai.State) bool { return str(st, s.name+".full") == "y" }
	switch {
	case name == "Size" && len(args) == 0:
		return []ai.Outcome{ret(st, ai.Int{L: w.n(st, s)})}, true
	case name == "Has" && isKey:
		yes, no := w.isX(st, s, args[0])
		for _, q := range yes {
			out = append(out, ret(q, ai.Bool{C: ai.CConst{V: has(q)}}))
		}
		for _, q := range no {
			if b, known := w.related(q, s, args[0]); known {
				out = append(out, ret(q, ai.Bool{C: ai.CConst{V: b}}))
				continue
			}
			out = append(out, ret(q, in.NewBool("has another")))
		}
		return out, true
	case (name == "Item" || name == "Get") && isKey && nres == 2:
		yes, no := w.isX(st, s, args[0])
		for _, q := range yes {
			if has(q) {
				out = append(out, ret(q, w.stored(q, s), ai.Nil{}))
			} else {
				out = append(out, ret(q, ai.Nil{}, w.err(q, "absent")))
			}
		}
		for _, q := range no {
			q2 := q.Clone()
			if name == "Get" {
				v := in.NewSym(types.NewInterfaceType(nil, nil), "another value")
				out = append(out, ret(q, v, ai.Nil{}))
			} else {
				out = append(out, ret(q, w.another(q, s, ai.LT|ai.GT), ai.Nil{}))
			}
			out = append(out, ret(q2, ai.Nil{}, w.err(q2, "absent")))
		}
		return out, true
	case (name == "Add" || name == "Put") && isKey && nres == 1:
		yes, no := w.isX(st, s, args[0])
		for _, q := range yes {
			var v ai.Val = args[0]
			if name == "Put" {
				v = args[1]
			}
			if has(q) {
				if name == "Put" {
					w.set(q, s, "y", v)
					out = append(out, ret(q, ai.Nil{}))
					continue
				}
				// adding an item already there: keeps the old one or takes the new one
				q2 := q.Clone()
				out = append(out, ret(q, ai.Nil{}))
				w.set(q2, s, "y", v)
				out = append(out, ret(q2, ai.Nil{}))
				continue
			}
			if full(q) {
				out = append(out, ret(q, w.err(q, "full")))
				continue
			}
			w.set(q, s, "y", v)
			w.bump(q, s, 1)
			out = append(out, ret(q, ai.Nil{}))
		}
		for _, q := range no {
			q2 := q.Clone()
			w.bump(q2, s, 1)
			if full(q) {
				q3 := q.Clone()
				out = append(out, ret(q3, w.err(q3, "full")))
			}
			out = append(out, ret(q, ai.Nil{}))
			if !full(q) {
				out = append(out, ret(q2, ai.Nil{}))
			}
		}
		return out, true
	case (name == "Delete" || name == "Remove") && isKey && nres <= 2:
		rets := func(q *ai.State, v, err ai.Val) ai.Outcome {
			if nres == 2 {
				return ret(q, v, err)
			}
			return ret(q, err)
		}
		yes, no := w.isX(st, s, args[0])
		for _, q := range yes {
			if has(q) {
				v := w.stored(q, s)
				w.set(q, s, "n", nil)
				w.bump(q, s, -1)
				q.Ghost[s.name+".full"] = ai.Str{S: "n"}
				out = append(out, rets(q, v, ai.Nil{}))
			} else {
				out = append(out, rets(q, ai.Nil{}, w.err(q, "absent")))
			}
		}
		for _, q := range no {
			q2 := q.Clone()
			out = append(out, rets(q2, ai.Nil{}, w.err(q2, "absent")))
			min := ai.K(1)
			if has(q) {
				min = ai.K(2)
			}
			if q.Assume(ai.CLe{L: min.Sub(w.n(q, s))}, true) {
				w.bump(q, s, -1)
				q.Ghost[s.name+".full"] = ai.Str{S: "n"}
				v := in.NewSym(types.NewInterfaceType(nil, nil), "another value")
				out = append(out, rets(q, v, ai.Nil{}))
			}
		}
		return out, true
	case (name == "Items" || name == "Keys" || name == "Iterate" || name == "Values" || name == "Backwards") && len(args) == 0 && nres == 1:
		it := w.iterator(st, s, ci.Sig.Results().At(0).Type())
		if str(st, s.name+".has") == "dup" {
			panic(ai.Undecided{Msg: "iterates over duplicates", Pos: ci.Pos})
		}
		return []ai.Outcome{ret(st, it)}, true
	case (name == "EnqueFront" || name == "EnqueBack" || name == "Push") && nres <= 1:
		item := args[len(args)-1]
		st.Ghost[s.name+"."+endOf(name, nres)] = ai.Nil{}
		if nres == 1 {
			st.Ghost[s.name+"."+endOf(name, nres)] = item
		}
		yes, no := w.isX(st, s, item)
		for _, q := range yes {
			if has(q) {
				w.set(q, s, "dup", item)
			} else {
				w.set(q, s, "y", item)
			}
			w.bump(q, s, 1)
			out = append(out, ai.Outcome{St: q, Rets: nils(nres)})
		}
		for _, q := range no {
			w.bump(q, s, 1)
			out = append(out, ai.Outcome{St: q, Rets: nils(nres)})
		}
		return out, true
	case (name == "DequeFront" || name == "DequeBack" || name == "Pop") && len(args) == 0:
		for _, q := range w.atEnd(st, s, endOf(name, nres)) {
			v := q.Ghost[s.name+"."+endOf(name, nres)]
			if isNil(q, v) == ai.T {
				if nres == 2 {
					out = append(out, ret(q, ai.Nil{}, w.err(q, "empty")))
				} else {
					out = append(out, ret(q, ai.Nil{}))
				}
				continue
			}
			isx := has(q) && sameVal(q, v, w.stored(q, s))
			w.bump(q, s, -1)
			for _, e := range []string{"f", "b"} {
				if oe := q.Ghost[s.name+"."+e]; e == endOf(name, nres) || isx || !has(q) || !sameVal(q, oe, w.stored(q, s)) {
					q.Ghost[s.name+"."+e] = ai.Nil{}
				}
			}
			if isx {
				if str(q, s.name+".has") == "dup" {
					w.set(q, s, "y", v)
				} else {
					w.set(q, s, "n", nil)
				}
			}
			out = append(out, ai.Outcome{St: q, Rets: append([]ai.Val{v}, nils(nres-1)...)})
		}
		return out, true
	case (name == "First" || name == "Last" || name == "Peek") && len(args) == 0 && nres == 1:
		for _, q := range w.atEnd(st, s, endOf(name, nres)) {
			out = append(out, ret(q, q.Ghost[s.name+"."+endOf(name, nres)]))
		}
		return out, true
	}
	return nil, false
}

// endOf names the end of a queue an operation works on.
func endOf(name string, nres int) string {
	switch name {
	case "Last", "DequeBack", "EnqueBack":
		return "b"
	case "Push":
		if nres == 1 {
			return "b"
		}
	case "Pop":
		if nres == 2 {
			return "b"
		}
	}
	return "f"
}

// atEnd decides which item is at an end of a queue and remembers it (nil: the queue is empty).
func (w *world) atEnd(st *ai.State, s *slot, end string) []*ai.State {
	if isNil(st, st.Ghost[s.name+"."+end]) == ai.F {
		return []*ai.State{st}
	}
	var out []*ai.State
	has := str(st, s.name+".has") != "n"
	e, ne := st.Branch(ai.CLe{L: w.n(st, s)})
	if e != nil && !has {
		out = append(out, e)
	}
	if ne == nil {
		return out
	}
	other := ne.Clone()
	min := ai.K(1)
	if has {
		min = ai.K(2)
	}
	if other.Assume(ai.CLe{L: min.Sub(w.n(other, s))}, true) {
		other.Ghost[s.name+"."+end] = w.another(other, s, ai.LT|ai.GT)
		out = append(out, other)
	}
	if has {
		v := w.stored(ne, s)
		opp := ne.Ghost[s.name+"."+map[string]string{"f": "b", "b": "f"}[end]]
		if isNil(ne, opp) != ai.F || !sameVal(ne, opp, v) || str(ne, s.name+".has") == "dup" || ne.Assume(ai.CEq{L: w.n(ne, s).AddK(-1)}, true) {
			ne.Ghost[s.name+"."+end] = v
			out = append(out, ne)
		}
	}
	return out
}

// iterator starts an iteration of a slot.
func (w *world) iterator(st *ai.State, s *slot, T types.Type) ai.Val {
	it := w.in.NewSym(T, "iteration of "+s.name)
	w.in.Info(it.ID).Tag = "iterator"
	st.NonNil(it)
	st.Ghost[s.name+".it"] = it
	ph := "rest"
	if str(st, s.name+".has") != "n" {
		ph = "pending"
	}
	st.Ghost[s.name+".ph"] = ai.Str{S: ph}
	return it
}

func nils(n int) []ai.Val {
	var v []ai.Val
	for i := 0; i < n; i++ {
		v = append(v, ai.Nil{})
	}
	return v
}

// related answers membership of an item taken from the other operand under the assumed relation.
func (w *world) related(st *ai.State, s *slot, v ai.Val) (bool, bool) {
	ks := w.key(st, v)
	if len(ks) != 1 {
		return false, false
	}
	tag, _ := w.in.Info(ks[0].key.ID).Tag.(string)
	switch {
	case tag == s.name:
		return true, true
	case w.rel == "sub" && tag == "A" && s.name == "B":
		return true, true
	case w.rel == "disj" && (tag == "A" && s.name == "B" || tag == "B" && s.name == "A"):
		return false, true
	}
	return false, false
}

// yield is one step of a slot's iteration.
func (w *world) yield(st *ai.State, s *slot, it ai.Sym, ci *ai.CallInfo) []ai.Outcome {
	ph := str(st, s.name+".ph")
	n := ci.Sig.Results().Len()
	rets := func(q *ai.State, item ai.Val) []ai.Val {
		if n == 2 {
			return []ai.Val{item, it}
		}
		if s.entries {
			return []ai.Val{w.entryField(q, item, 0), w.entryField(q, item, 1), it}
		}
		return []ai.Val{item, w.valueOf(q, s, item), it}
	}
	var out []ai.Outcome
	if ph == "none" {
		panic(ai.Undecided{Msg: "an iterator is used after its end", Pos: ci.Pos})
	}
	isVals := false
	if n == 2 {
		if I, ok := ci.Sig.Results().At(0).Type().Underlying().(*types.Interface); ok && I.NumMethods() == 0 {
			isVals = true
		}
	}
	give := func(q *ai.State, item ai.Val, isx bool) {
		if isVals {
			if isx {
				item = w.stored(q, s)
			} else {
				item = w.valueOf(q, s, item)
			}
			out = append(out, ai.Outcome{St: q, Rets: []ai.Val{item, it}})
			return
		}
		if isx {
			item = w.asItem(q, s)
		}
		out = append(out, ai.Outcome{St: q, Rets: rets(q, item)})
	}
	if ph == "pending" {
		q := st.Clone()
		q.Ghost[s.name+".ph"] = ai.Str{S: "rest"}
		q.Ghost[s.name+".cur"] = w.x
		give(q, nil, true)
	} else {
		q := st.Clone()
		q.Ghost[s.name+".ph"] = ai.Str{S: "none"}
		q.Ghost[s.name+".it"] = ai.Nil{}
		q.Ghost[s.name+".cur"] = ai.Nil{}
		out = append(out, ai.Outcome{St: q, Rets: nils(n)})
	}
	m := ai.LT | ai.GT
	if s.sorted && str(st, s.name+".has") != "n" {
		m = ai.GT
		if ph == "pending" {
			m = ai.LT
		}
	}
	prev, hasPrev := st.Resolve(st.Ghost[s.name+".cur"]).(ai.Sym)
	item := w.another(st, s, m)
	if s.sorted && hasPrev {
		st.SetOrd(prev.ID, w.key(st, item)[0].key.ID, ai.LT)
	}
	give(st, item, false)
	return out
}

// asItem is what iterating over the slot shows for x.
func (w *world) asItem(st *ai.State, s *slot) ai.Val {
	v := w.stored(st, s)
	if s.isMap {
		return w.x
	}
	return v
}

func (w *world) valueOf(st *ai.State, s *slot, item ai.Val) ai.Val {
	if k, ok := st.Resolve(item).(ai.Sym); ok {
		if k.ID == w.x.ID {
			return w.stored(st, s)
		}
		return w.in.App(st, "value in "+s.name, types.NewInterfaceType(nil, nil), k)
	}
	return w.in.NewSym(types.NewInterfaceType(nil, nil), "value")
}

// must reports outcomes that crash.
func (w *world) must(rule, key string, fn *ssa.Function, os []ai.Outcome) []ai.Outcome {
	var out []ai.Outcome
	for _, o := range os {
		if o.Panic != nil {
			w.c.R.Fail(rule, key, w.c.P.Pos(o.Panic.Pos), "may crash: "+o.Panic.Msg, w.c.Path(o.St)...)
			continue
		}
		out = append(out, o)
	}
	return out
}

func (w *world) desc(st *ai.State) string {
	var s []string
	for _, sl := range w.slots {
		s = append(s, fmt.Sprintf("%s:%s", sl.name, str(st, sl.name+".has")))
	}
	return strings.Join(s, " ")
}
