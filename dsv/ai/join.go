package ai

import (
	"fmt"
	"go/types"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type joinFail struct{ why string }

// ---------------------------------------------------------------- join

type ipair struct {
	g, s Lin
	j    Lin
	atom int
}

type joiner struct {
	G, S, J *State
	ints    []ipair
	syms    map[[2]int]Sym
	objGS   map[int]int
	objSG   map[int]int
	bools   map[string]Bool
	newI    []int
	apart   []Lin // differences of the indices of cells that are not the same
	rigidOK map[int]bool
	hard    bool // drop relations and unprotected cells that keep the loop from stabilising
}

// join generalises head state G and new state S. ok is false when they should stay apart.
func join(G, S *State, widen, hard bool) (res *State, ok bool) {
	in := G.in
	saved := in.next
	_ = saved
	defer func() {
		if r := recover(); r != nil {
			if f, isF := r.(joinFail); isF {
				if in.Debug {
					fmt.Println("join failed:", f.why)
				}
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	if G.World != S.World || clash(G, S, true) {
		return nil, false
	}
	G, S = G.Clone(), S.Clone()
	j := &joiner{hard: hard, G: G, S: S, syms: map[[2]int]Sym{}, objGS: map[int]int{}, objSG: map[int]int{}, bools: map[string]Bool{}}
	J := in.NewState()
	j.J = J
	J.World = G.World
	J.flexI, J.flexS = map[int]bool{}, map[int]bool{}
	for a := range G.flexI {
		J.flexI[a] = true
	}
	for a := range G.flexS {
		J.flexS[a] = true
	}
	J.Trace = append(G.Trace[:len(G.Trace):len(G.Trace)], Step{})[:len(G.Trace)]
	if len(G.Events) != len(S.Events) {
		return nil, false
	}
	for i := range G.Events {
		if G.Events[i].Kind != S.Events[i].Kind || len(G.Events[i].Args) != len(S.Events[i].Args) {
			return nil, false
		}
	}
	if len(G.frames) != len(S.frames) || len(G.Ghost) != len(S.Ghost) {
		return nil, false
	}
	// collect roots in a fixed order: ints of the top frame first
	for i := range G.frames {
		gf, sf := G.frames[i], S.frames[i]
		if gf.fn != sf.fn || len(gf.defers) != len(sf.defers) || gf.inPanic != sf.inPanic {
			return nil, false
		}
		nf := *gf
		nf.env = map[ssa.Value]Val{}
		for k := range gf.env {
			if _, has := sf.env[k]; !has {
				return nil, false
			}
		}
		for _, k := range orderedKeys(gf) {
			nf.env[k] = j.val(gf.env[k], sf.env[k])
		}
		nf.defers = nil
		for d := range gf.defers {
			gd, sd := gf.defers[d], sf.defers[d]
			if gd.call != sd.call {
				return nil, false
			}
			nd := deferred{fn: j.val(gd.fn, sd.fn), call: gd.call}
			for a := range gd.args {
				nd.args = append(nd.args, j.val(gd.args[a], sd.args[a]))
			}
			nf.defers = append(nf.defers, nd)
		}
		J.frames = append(J.frames, &nf)
	}
	for _, k := range ghostKeys(G) {
		sv, has := S.Ghost[k]
		if !has {
			return nil, false
		}
		J.Ghost[k] = j.val(G.Ghost[k], sv)
	}
	for i := range G.Events {
		e := Event{Kind: G.Events[i].Kind, Pos: G.Events[i].Pos}
		for k := range G.Events[i].Args {
			e.Args = append(e.Args, j.val(G.Events[i].Args[k], S.Events[i].Args[k]))
		}
		J.Events = append(J.Events, e)
	}
	j.objects()
	j.facts(widen)
	return J, true
}

func orderedKeys(f *Frame) []ssa.Value {
	var ks []ssa.Value
	add := func(v ssa.Value) {
		if _, ok := f.env[v]; ok {
			ks = append(ks, v)
		}
	}
	for _, p := range f.fn.Params {
		add(p)
	}
	for _, p := range f.fn.FreeVars {
		add(p)
	}
	bl := f.fn.Blocks
	for _, b := range bl {
		for _, x := range b.Instrs {
			if v, ok := x.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if f.fn.Recover != nil {
		seen := false
		for _, b := range bl {
			if b == f.fn.Recover {
				seen = true
			}
		}
		if !seen {
			for _, x := range f.fn.Recover.Instrs {
				if v, ok := x.(ssa.Value); ok {
					add(v)
				}
			}
		}
	}
	return ks
}

func ghostKeys(st *State) []string {
	var ks []string
	for k := range st.Ghost {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func (j *joiner) fail(f string, a ...interface{}) { panic(joinFail{fmt.Sprintf(f, a...)}) }

func (j *joiner) rigid(l Lin) bool {
	for _, t := range l.T {
		if j.G.flexI[t.A] {
			return false
		}
	}
	return true
}

// lin joins two integer expressions.
func (j *joiner) lin(g, s Lin) Lin {
	if g.Equal(s) {
		return g
	}
	// equal modulo the facts
	if j.S.EqLin(g, s) && j.atomsKnown(g) {
		return g
	}
	if j.G.EqLin(g, s) && j.atomsKnown(s) {
		return s
	}
	for _, p := range j.ints {
		dg, ds := g.Sub(p.g), s.Sub(p.s)
		if dg.Equal(ds) && dg.IsConst() {
			return p.j.Add(dg)
		}
	}
	for _, p := range j.ints {
		if sum := g.Add(p.g); sum.Equal(s.Add(p.s)) && j.rigid(sum) && j.atomsKnown(sum) {
			return sum.Sub(p.j)
		}
	}
	for _, p := range j.ints {
		dg, ds := g.Sub(p.g.Scale(2)), s.Sub(p.s.Scale(2))
		if dg.Equal(ds) && dg.IsConst() {
			return p.j.Scale(2).Add(dg)
		}
	}
	a := j.G.in.NewAtom(fmt.Sprintf("k%d", j.G.in.next))
	id := a.T[0].A
	j.J.flexI[id] = true
	j.newI = append(j.newI, id)
	j.ints = append(j.ints, ipair{g, s, a, id})
	return a
}

// atomsKnown: the expression's atoms mean the same in both states.
func (j *joiner) atomsKnown(l Lin) bool { return j.rigid(l) }

func (j *joiner) known(g, s Lin) (Lin, bool) {
	if g.Equal(s) {
		return g, true
	}
	if j.S.EqLin(g, s) && j.rigid(g) {
		return g, true
	}
	for _, p := range j.ints {
		dg, ds := g.Sub(p.g), s.Sub(p.s)
		if dg.Equal(ds) && dg.IsConst() {
			return p.j.Add(dg), true
		}
	}
	return Lin{}, false
}

func (j *joiner) flexSym(g, s Sym, T types.Type) Sym {
	k := [2]int{g.ID, s.ID}
	if v, ok := j.syms[k]; ok {
		return v
	}
	v := j.G.in.NewSym(T, fmt.Sprintf("w%d", j.G.in.next))
	if si := j.G.in.syms[g.ID]; si != nil {
		j.G.in.syms[v.ID].Tag = si.Tag
		if ss := j.G.in.syms[s.ID]; ss == nil || ss.Tag != si.Tag {
			j.G.in.syms[v.ID].Tag = nil
		}
	}
	j.syms[k] = v
	j.J.flexS[v.ID] = true
	if j.G.nonnil[g.ID] && j.S.nonnil[s.ID] {
		j.J.nonnil[v.ID] = true
	}
	return v
}

func pristine(st *State, o *Obj) bool { return o != nil && !o.Fresh && !o.Dirty && o.From >= 0 }

func (j *joiner) val(g, s Val) Val {
	g, s = j.G.Resolve(g), j.S.Resolve(s)
	switch x := g.(type) {
	case nil:
		if s == nil {
			return nil
		}
		j.fail("missing value")
	case Nil:
		if _, ok := s.(Nil); ok {
			return x
		}
		j.fail("nil against %s", j.S.Show(s))
	case Bool:
		y, ok := s.(Bool)
		if !ok {
			j.fail("bool")
		}
		gv, sv := j.G.Eval(x.C), j.S.Eval(y.C)
		if gv != U && gv == sv {
			return Bool{CConst{gv == T}}
		}
		if gv != U && sv != U {
			j.fail("bool constants differ")
		}
		if j.G.in.vkey(x) == j.G.in.vkey(y) {
			return x
		}
		k := j.G.in.vkey(x) + "/" + j.G.in.vkey(y)
		if b, ok := j.bools[k]; ok {
			return b
		}
		b := j.G.in.NewBool("b")
		j.bools[k] = b
		return b
	case Int:
		y, ok := s.(Int)
		if !ok {
			j.fail("int")
		}
		return Int{j.lin(x.L, y.L)}
	case Str:
		if y, ok := s.(Str); ok && x == y {
			return x
		}
		j.fail("string")
	case Sym:
		switch y := s.(type) {
		case Sym:
			if x.ID == y.ID {
				if j.G.nonnil[x.ID] && j.S.nonnil[y.ID] {
					j.J.nonnil[x.ID] = true
				}
				return x
			}
			if p, q, ok := j.G.in.indexed(x.ID, y.ID); ok {
				gi := j.G.in.syms[x.ID]
				r := j.G.in.App(j.J, gi.Op, gi.T, Int{j.lin(p, q)}).(Sym)
				if j.G.nonnil[x.ID] && j.S.nonnil[y.ID] {
					j.J.nonnil[r.ID] = true
				}
				if h := j.G.in.H.NewIndexed; h != nil {
					h(j.J, r)
				}
				return r
			}
			if j.G.in.H.NoJoinSyms || j.G.in.Rigid[x.ID] || j.G.in.Rigid[y.ID] {
				j.fail("symbols differ")
			}
			gi := j.G.in.syms[x.ID]
			var T types.Type
			if gi != nil {
				T = gi.T
			}
			return j.flexSym(x, y, T)
		case Ptr:
			o := j.S.heap[y.O]
			if pristine(j.S, o) && !y.IsElem && len(y.Path) == 0 {
				if o.From == x.ID {
					return x
				}
				if j.G.in.H.NoJoinSyms {
					j.fail("symbols differ")
				}
				j.S.nonnil[o.From] = true
				return j.flexSym(x, Sym{o.From}, j.G.in.syms[x.ID].T)
			}
			j.fail("symbol against object %s", j.S.Show(y))
		}
		j.fail("symbol against %s", j.S.Show(s))
	case Ptr:
		switch y := s.(type) {
		case Ptr:
			if x.IsElem != y.IsElem || len(x.Path) != len(y.Path) {
				j.fail("pointer kinds")
			}
			for i := range x.Path {
				if x.Path[i] != y.Path[i] {
					j.fail("pointer paths")
				}
			}
			og, os := j.G.heap[x.O], j.S.heap[y.O]
			if !x.IsElem && len(x.Path) == 0 && x.O != y.O && pristine(j.G, og) && pristine(j.S, os) {
				if _, ok := j.objGS[x.O]; !ok {
					if j.G.in.H.NoJoinSyms {
						j.fail("symbols differ")
					}
					j.G.nonnil[og.From], j.S.nonnil[os.From] = true, true
					return j.flexSym(Sym{og.From}, Sym{os.From}, types.NewPointer(og.T))
				}
			}
			j.pair(x.O, y.O)
			r := x
			if x.IsElem {
				r.Idx = j.lin(x.Idx, y.Idx)
			}
			return r
		case Sym:
			o := j.G.heap[x.O]
			if pristine(j.G, o) && !x.IsElem && len(x.Path) == 0 {
				if o.From == y.ID {
					return y
				}
				if j.G.in.H.NoJoinSyms {
					j.fail("symbols differ")
				}
				j.G.nonnil[o.From] = true
				return j.flexSym(Sym{o.From}, y, types.NewPointer(o.T))
			}
		}
		j.fail("object %s against %s", j.G.Show(x), j.S.Show(s))
	case Slice:
		y, ok := s.(Slice)
		if !ok {
			j.fail("slice against %s", j.S.Show(s))
		}
		j.pair(x.Arr, y.Arr)
		return Slice{x.Arr, j.lin(x.Off, y.Off), j.lin(x.Len, y.Len), j.lin(x.Cap, y.Cap)}
	case ArrVal:
		y, ok := s.(ArrVal)
		if !ok {
			j.fail("array")
		}
		j.pair(x.O, y.O)
		return x
	case MapVal:
		y, ok := s.(MapVal)
		if !ok {
			j.fail("map")
		}
		j.pair(x.O, y.O)
		return x
	case Iface:
		y, ok := s.(Iface)
		if !ok || !types.Identical(x.T, y.T) {
			j.fail("interface types")
		}
		return Iface{x.T, j.val(x.V, y.V)}
	case Func:
		y, ok := s.(Func)
		if !ok || x.Fn != y.Fn || x.B != y.B || len(x.Bind) != len(y.Bind) {
			j.fail("function values")
		}
		r := Func{Fn: x.Fn, B: x.B}
		for i := range x.Bind {
			r.Bind = append(r.Bind, j.val(x.Bind[i], y.Bind[i]))
		}
		return r
	case Tuple:
		y, ok := s.(Tuple)
		if !ok || len(x.V) != len(y.V) {
			j.fail("tuple")
		}
		var r Tuple
		for i := range x.V {
			r.V = append(r.V, j.val(x.V[i], y.V[i]))
		}
		return r
	case Struct:
		y, ok := s.(Struct)
		if !ok || len(x.F) != len(y.F) {
			j.fail("struct")
		}
		r := Struct{make([]Val, len(x.F))}
		for i := range x.F {
			if x.F[i] == nil && y.F[i] == nil {
				continue
			}
			r.F[i] = j.val(x.F[i], y.F[i])
		}
		return r
	}
	j.fail("values %s, %s", j.G.Show(g), j.S.Show(s))
	return nil
}

func (j *joiner) pair(g, s int) {
	if p, ok := j.objGS[g]; ok {
		if p != s {
			j.fail("aliasing differs")
		}
		return
	}
	if p, ok := j.objSG[s]; ok && p != g {
		j.fail("aliasing differs")
	}
	j.objGS[g] = s
	j.objSG[s] = g
}

// objects joins all paired objects until no new pairs appear.
func (j *joiner) objects() {
	done := map[int]bool{}
	for {
		var next []int
		for g := range j.objGS {
			if !done[g] {
				next = append(next, g)
			}
		}
		if len(next) == 0 {
			// bindings of symbols known in both
			added := false
			for id, gb := range j.G.bind {
				sb, ok := j.S.bind[id]
				if !ok {
					continue
				}
				if _, has := j.J.bind[id]; has {
					continue
				}
				gr, sr := j.G.Resolve(gb), j.S.Resolve(sb)
				switch x := gr.(type) {
				case Nil:
					if _, ok := sr.(Nil); ok {
						j.J.bind[id] = x
					}
				case Ptr:
					if y, ok := sr.(Ptr); ok && !x.IsElem && len(x.Path) == 0 && !y.IsElem && len(y.Path) == 0 {
						if p, has := j.objGS[x.O]; has && p == y.O {
							j.J.bind[id] = x
						} else if !has && x.O == y.O {
							j.pair(x.O, y.O)
							j.J.bind[id] = x
							added = true
						}
					}
				case Sym:
					if y, ok := sr.(Sym); ok && x.ID == y.ID {
						j.J.bind[id] = x
					}
				}
			}
			if !added {
				return
			}
			continue
		}
		sortInts(next)
		for _, g := range next {
			done[g] = true
			j.object(g, j.objGS[g])
		}
	}
}

func (j *joiner) object(g, s int) {
	og, os := j.G.heap[g], j.S.heap[s]
	if og == nil || os == nil {
		j.fail("dangling")
	}
	if og.Fresh != os.Fresh || !types.Identical(og.T, os.T) || (og.Arr == nil) != (os.Arr == nil) {
		j.fail("object kinds")
	}
	if og.Name != os.Name && (strings.HasPrefix(og.Name, "!") || strings.HasPrefix(os.Name, "!")) {
		j.fail("object roles")
	}
	n := *og
	n.Dirty = og.Dirty || os.Dirty
	if og.From != os.From {
		n.From = -1
		n.Dirty = true
	}
	if og.Arr == nil {
		gv, sv := og.V, os.V
		gs, ok1 := gv.(Struct)
		ss, ok2 := sv.(Struct)
		if ok1 && ok2 {
			gv, sv = j.alignStruct(og, os, gs, ss, og.T)
		}
		n.V = j.val(gv, sv)
		j.J.heap[g] = &n
		return
	}
	if og.Dirty != os.Dirty {
		j.G.in.settle(j.G, g)
		j.G.in.settle(j.S, s)
		og, os = j.G.heap[g], j.S.heap[s]
	}
	a := &Arr{Def: og.Arr.Def, Len: j.lin(og.Arr.Len, os.Arr.Len)}
	if os.Arr.Def != og.Arr.Def {
		a.Def = DefTop
	}
	usedS := map[int]bool{}
	var at []ipair
	for _, gc := range og.Arr.Cells {
		kept := false
		for k, sc := range os.Arr.Cells {
			if usedS[k] || j.hard && !gc.Idx.IsConst() && !isProtected(j.G.in.Protect, gc.Idx) {
				continue
			}
			idx, ok := j.known(gc.Idx, sc.Idx)
			if !ok {
				continue
			}
			if pr := j.G.in.Protect; pr != nil && !isProtected(pr, gc.Idx) {
				if j.G.in.vkey(j.G.Resolve(gc.V)) != j.G.in.vkey(j.S.Resolve(sc.V)) {
					continue
				}
			}
			usedS[k] = true
			gv, sv := gc.V, sc.V
			if isProtected(j.G.in.Protect, gc.Idx) {
				x, ok1 := j.G.Resolve(gv).(Sym)
				y, ok2 := j.S.Resolve(sv).(Sym)
				if ok1 && ok2 {
					if p, q, is := j.G.in.indexed(x.ID, y.ID); is && !p.Equal(q) {
						j.fail("protected cells differ")
					}
				}
			}
			gs, ok1 := gv.(Struct)
			ss, ok2 := sv.(Struct)
			if ok1 && ok2 {
				gv, sv = j.alignStruct(og, os, gs, ss, og.T)
			}
			a.Cells = append(a.Cells, Cell{idx, j.val(gv, sv)})
			if j.G.in.Apart {
				for _, p := range at {
					if d := idx.Sub(p.j); !d.IsConst() && j.G.NeLin(gc.Idx, p.g) && j.S.NeLin(sc.Idx, p.s) {
						j.apart = append(j.apart, d)
					}
				}
				at = append(at, ipair{gc.Idx, sc.Idx, idx, 0})
			}
			kept = true
			break
		}
		if !kept && (og.Dirty || og.Arr.Def == DefZero) && !(og.Arr.Def == DefZero && isZeroVal(j.G.Resolve(gc.V))) {
			a.Def = DefTop
		}
	}
	for k := range os.Arr.Cells {
		if !usedS[k] && (os.Dirty || os.Arr.Def == DefZero) && !(os.Arr.Def == DefZero && isZeroVal(j.S.Resolve(os.Arr.Cells[k].V))) {
			a.Def = DefTop
		}
	}
	n.Arr = a
	j.J.heap[g] = &n
}

// alignStruct initialises fields lazily unknown on one side only.
func (j *joiner) alignStruct(og, os *Obj, g, s Struct, T types.Type) (Val, Val) {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return g, s
	}
	ng, ns := Struct{append([]Val(nil), g.F...)}, Struct{append([]Val(nil), s.F...)}
	for i := range ng.F {
		gn, sn := ng.F[i] == nil, ns.F[i] == nil
		if gn == sn {
			gs, ok1 := ng.F[i].(Struct)
			ss, ok2 := ns.F[i].(Struct)
			if ok1 && ok2 {
				ng.F[i], ns.F[i] = j.alignStruct(og, os, gs, ss, st.Field(i).Type())
			}
			continue
		}
		// the same input object, unmodified: both hold the same initial value
		if og.ID == os.ID && !og.Dirty && !os.Dirty {
			if gn {
				ng.F[i] = ns.F[i]
				j.copyReach(j.S, j.G, ns.F[i])
			} else {
				ns.F[i] = ng.F[i]
				j.copyReach(j.G, j.S, ng.F[i])
			}
			continue
		}
		init := func(st2 *State, o *Obj) Val {
			if st2.in.H.InitField != nil {
				if v, ok := st2.in.H.InitField(st2, o, i, st.Field(i).Type(), o.Name+"."+st.Field(i).Name()); ok {
					return v
				}
			}
			return st2.in.Fresh(st2, st.Field(i).Type(), o.Name+"."+st.Field(i).Name())
		}
		if gn {
			ng.F[i] = init(j.G, og)
		} else {
			ns.F[i] = init(j.S, os)
		}
	}
	return ng, ns
}

// copyReach makes objects of v from one state visible in the other (unmodified inputs only).
func (j *joiner) copyReach(from, to *State, v Val) {
	var visit func(v Val)
	visit = func(v Val) {
		switch x := from.Resolve(v).(type) {
		case Ptr:
			if to.heap[x.O] == nil && from.heap[x.O] != nil {
				to.heap[x.O] = from.heap[x.O]
				visit(from.heap[x.O].V)
			}
		case Slice:
			if to.heap[x.Arr] == nil && from.heap[x.Arr] != nil {
				o := *from.heap[x.Arr]
				if o.Dirty {
					a := *o.Arr
					a.Cells = nil
					o.Arr = &a
					o.Dirty = false
				}
				to.heap[x.Arr] = &o
				for _, c := range o.Arr.Cells {
					visit(c.V)
				}
			}
			for _, l := range []Lin{x.Len, x.Cap, x.Off} {
				for _, c := range from.cons {
					for _, t := range l.T {
						if len(c.T) <= 2 && c.Coef(t.A) != 0 {
							to.cons = append(to.cons, c)
							break
						}
					}
				}
			}
		case ArrVal:
			if to.heap[x.O] == nil && from.heap[x.O] != nil {
				to.heap[x.O] = from.heap[x.O]
			}
		case Struct:
			for _, f := range x.F {
				if f != nil {
					visit(f)
				}
			}
		case Iface:
			visit(x.V)
		}
	}
	visit(v)
}

// facts computes what holds on both sides.
func (j *joiner) facts(widen bool) {
	G, S, J := j.G, j.S, j.J
	gp := append([]Lin(nil), G.cons...)
	sp := append([]Lin(nil), S.cons...)
	for _, p := range j.ints {
		gp = append(gp, p.j.Sub(p.g), p.g.Sub(p.j))
		sp = append(sp, p.j.Sub(p.s), p.s.Sub(p.j))
	}
	ent := func(cs []Lin, c Lin) bool { return !feasibleWith(cs, c.Neg().AddK(1)) }
	seen := map[string]bool{}
	add := func(c Lin) {
		c = tighten(c)
		if c.IsConst() {
			return
		}
		k := c.Key()
		if seen[k] {
			return
		}
		seen[k] = true
		J.cons = append(J.cons, c)
	}
	inScope := map[int]bool{}
	j.scope(inScope)
	scoped := func(c Lin) bool {
		for _, t := range c.T {
			if !inScope[t.A] {
				return false
			}
		}
		return true
	}
	// candidate constraints from both sides, with renamings
	rename := func(c Lin, side func(p ipair) Lin) []Lin {
		out := []Lin{c}
		for _, t := range c.T {
			for _, p := range j.ints {
				e := side(p)
				if e.Coef(t.A) == 1 && len(e.T) == 1 {
					// atom = j - e.C
					var more []Lin
					for _, o := range out {
						if o.Coef(t.A) != 0 {
							k := e.C
							more = append(more, o.Subst(func(a int) (Lin, bool) {
								if a == t.A {
									return p.j.AddK(-k), true
								}
								return Lin{}, false
							}))
						}
					}
					out = append(out, more...)
				}
			}
			if len(out) > 32 {
				break
			}
		}
		return out
	}
	for _, c := range G.cons {
		for _, d := range rename(c, func(p ipair) Lin { return p.g }) {
			if scoped(d) && ent(gp, d) && ent(sp, d) {
				add(d)
			}
		}
	}
	if !widen {
		for _, c := range S.cons {
			for _, d := range rename(c, func(p ipair) Lin { return p.s }) {
				if scoped(d) && ent(gp, d) && ent(sp, d) {
					add(d)
				}
			}
		}
	}
	// difference templates on new atoms
	var atoms []int
	for a := range inScope {
		atoms = append(atoms, a)
	}
	sortInts(atoms)
	isNew := map[int]bool{}
	for _, a := range j.newI {
		isNew[a] = true
	}
	tmpl := func(e Lin) {
		gu, ok := upper(gp, e)
		if !ok {
			return
		}
		su, ok := upper(sp, e)
		if !ok {
			return
		}
		if widen && gu != su {
			switch {
			case su < gu:
				add(e.AddK(-gu))
			case len(e.T) == 1 && e.T[0].K < 0 && su <= 0:
				add(e) // not negative
			case len(e.T) == 1 && e.T[0].K < 0 && su <= 1:
				add(e.AddK(-1)) // at least -1
			case j.G.in.Sides && len(e.T) == 2 && su <= 0:
				add(e) // still on the same side of each other
			}
			return
		}
		if su > gu {
			gu = su
		}
		add(e.AddK(-gu))
	}
	for _, a := range j.newI {
		x := AtomLin(a)
		tmpl(x)
		tmpl(x.Neg())
		for _, b := range atoms {
			if b == a || (isNew[b] && b < a) || j.hard && isNew[b] {
				continue
			}
			y := AtomLin(b)
			tmpl(x.Sub(y))
			tmpl(y.Sub(x))
		}
	}
	for _, n := range G.neq {
		if !scoped(n) {
			continue
		}
		if S.NeLin(n, K(0)) {
			J.neq = append(J.neq, n)
		}
	}
	for _, d := range j.apart {
		if !J.NeLin(d, K(0)) {
			J.neq = append(J.neq, d)
		}
	}
	// order facts
	type sp3 struct {
		j    int
		g, s int
	}
	var list []sp3
	for k, v := range j.syms {
		list = append(list, sp3{v.ID, k[0], k[1]})
	}
	ids := map[int]bool{}
	for _, x := range G.ord.ids {
		ids[x] = true
	}
	for _, x := range S.ord.ids {
		if ids[x] {
			list = append(list, sp3{x, x, x})
		}
	}
	for a := range list {
		for b := a + 1; b < len(list); b++ {
			m := G.ord.Get(list[a].g, list[b].g) | S.ord.Get(list[a].s, list[b].s)
			if m != ANY {
				J.ord.touch(list[a].j)
				J.ord.touch(list[b].j)
				J.ord.put(list[a].j, list[b].j, m)
			}
		}
	}
	for b, v := range G.bools {
		if w, ok := S.bools[b]; ok && w == v {
			J.bools[b] = v
		}
	}
	for n := range G.nonnil {
		if S.nonnil[n] || isObjSym(S, n) {
			J.nonnil[n] = true
		}
	}
	for n := range S.nonnil {
		if isObjSym(G, n) {
			J.nonnil[n] = true
		}
	}
}

func isObjSym(st *State, id int) bool {
	b, ok := st.bind[id]
	if !ok {
		return false
	}
	switch st.Resolve(b).(type) {
	case Ptr, Iface, Func, Slice:
		return true
	}
	return false
}

// scope collects the integer atoms that matter in J: those of values and those common to both sides.
func (j *joiner) scope(out map[int]bool) {
	for _, a := range j.newI {
		out[a] = true
	}
	in := map[int]bool{}
	for _, c := range j.G.cons {
		for _, t := range c.T {
			in[t.A] = !j.hard || !j.G.flexI[t.A]
		}
	}
	for _, c := range j.S.cons {
		for _, t := range c.T {
			if in[t.A] {
				out[t.A] = true
			}
		}
	}
	var visit func(v Val)
	lin := func(l Lin) {
		for _, t := range l.T {
			out[t.A] = true
		}
	}
	visit = func(v Val) {
		switch x := v.(type) {
		case Int:
			lin(x.L)
		case Slice:
			lin(x.Off)
			lin(x.Len)
			lin(x.Cap)
		case Tuple:
			for _, y := range x.V {
				visit(y)
			}
		case Struct:
			for _, y := range x.F {
				visit(y)
			}
		case Iface:
			visit(x.V)
		case Ptr:
			lin(x.Idx)
		case Bool:
			switch c := x.C.(type) {
			case CLe:
				lin(c.L)
			case CEq:
				lin(c.L)
			}
		}
	}
	for _, f := range j.J.frames {
		for _, v := range f.env {
			visit(v)
		}
	}
	for _, v := range j.J.Ghost {
		visit(v)
	}
	for _, o := range j.J.heap {
		if o.Arr != nil {
			lin(o.Arr.Len)
			for _, c := range o.Arr.Cells {
				lin(c.Idx)
				visit(c.V)
			}
		} else {
			visit(o.V)
		}
	}
}

// ---------------------------------------------------------------- subsumption

type subber struct {
	G, S  *State
	ti    map[int]Lin
	ts    map[int]Val
	objGS map[int]int
	objSG map[int]int
	late  [][2]Lin
	tb    map[int]Cond
	pend  []func()
}

// subsumes reports that every concretisation of S is one of G.
// clash: protected cells hold different rigid symbols. Both ways, or only those of G.
func clash(G, S *State, both bool) bool {
	in := G.in
	if len(in.Protect) == 0 || len(in.Rigid) == 0 {
		return false
	}
	var differ func(a, b Val) bool
	differ = func(a, b Val) bool {
		if a == nil || b == nil {
			return false
		}
		a, b = G.Resolve(a), S.Resolve(b)
		switch x := a.(type) {
		case Sym:
			if y, ok := b.(Sym); ok && x.ID != y.ID {
				return in.Rigid[x.ID] || both && in.Rigid[y.ID]
			}
		case Struct:
			if y, ok := b.(Struct); ok && len(x.F) == len(y.F) {
				for i := range x.F {
					if differ(x.F[i], y.F[i]) {
						return true
					}
				}
			}
		}
		return false
	}
	for id, o := range G.heap {
		p := S.heap[id]
		if o.Arr == nil || p == nil || p.Arr == nil {
			continue
		}
		for _, c := range o.Arr.Cells {
			if !isProtected(in.Protect, c.Idx) {
				continue
			}
			for _, d := range p.Arr.Cells {
				if c.Idx.Equal(d.Idx) && differ(c.V, d.V) {
					return true
				}
			}
		}
	}
	return false
}

func subsumes(G, S *State) (ok bool) {
	if G.World != S.World || clash(G, S, false) {
		return false
	}
	if len(G.frames) != len(S.frames) || len(G.Ghost) != len(S.Ghost) || len(G.Events) != len(S.Events) {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, isF := r.(joinFail); isF {
				ok = false
				return
			}
			panic(r)
		}
	}()
	s := &subber{G: G, S: S, ti: map[int]Lin{}, ts: map[int]Val{}, objGS: map[int]int{}, objSG: map[int]int{}, tb: map[int]Cond{}}
	for i := range G.Events {
		if G.Events[i].Kind != S.Events[i].Kind || len(G.Events[i].Args) != len(S.Events[i].Args) {
			return false
		}
		for k := range G.Events[i].Args {
			s.val(G.Events[i].Args[k], S.Events[i].Args[k])
		}
	}
	for i := range G.frames {
		gf, sf := G.frames[i], S.frames[i]
		if gf.fn != sf.fn || len(gf.defers) != len(sf.defers) || gf.inPanic != sf.inPanic {
			return false
		}
		for _, k := range orderedKeys(gf) {
			sv, has := sf.env[k]
			if !has {
				return false
			}
			s.val(gf.env[k], sv)
		}
		for d := range gf.defers {
			if gf.defers[d].call != sf.defers[d].call {
				return false
			}
			s.val(gf.defers[d].fn, sf.defers[d].fn)
			for a := range gf.defers[d].args {
				s.val(gf.defers[d].args[a], sf.defers[d].args[a])
			}
		}
	}
	for _, k := range ghostKeys(G) {
		sv, has := S.Ghost[k]
		if !has {
			return false
		}
		s.val(G.Ghost[k], sv)
	}
	done := map[int]bool{}
	for {
		var next []int
		for g := range s.objGS {
			if !done[g] {
				next = append(next, g)
			}
		}
		if len(next) == 0 {
			break
		}
		sortInts(next)
		for _, g := range next {
			done[g] = true
			s.object(G.heap[g], S.heap[s.objGS[g]])
		}
	}
	for _, p := range s.pend {
		p()
	}
	for _, p := range s.late {
		if !S.EqLin(s.sub(p[0]), p[1]) {
			return false
		}
	}
	// facts
	for _, c := range G.cons {
		d := s.sub(c)
		if !S.Le(d, K(0)) {
			if G.in.Debug {
				fmt.Println("not subsumed: fact", G.showLin(c), "<= 0 becomes", S.showLin(d), "in", S.Facts())
			}
			return false
		}
	}
	for _, n := range G.neq {
		if !S.NeLin(s.sub(n), K(0)) {
			return false
		}
	}
	own := false
	mapSym := func(id int) (int, bool) {
		if v, ok := s.ts[id]; ok {
			if y, ok := v.(Sym); ok {
				return y.ID, true
			}
			return 0, false
		}
		// an element nothing mentions any more stands for the element at the corresponding place
		if i := G.in.syms[id]; i != nil && G.in.Indexed[i.Op] && len(i.Args) == 1 {
			if a, ok := i.Args[0].(Int); ok && !s.sub(a.L).Equal(a.L) {
				if y, ok := G.in.App(S, i.Op, i.T, Int{s.sub(a.L)}).(Sym); ok {
					if _, ok := G.in.syms[y.ID]; ok && G.in.H.NewIndexed != nil {
						if !own {
							S, own = S.Clone(), true
						}
						G.in.H.NewIndexed(S, y)
					}
					return y.ID, true
				}
			}
		}
		return id, !G.flexS[id]
	}
	for k, m := range G.ord.rel {
		if m == ANY {
			continue
		}
		a, ok1 := mapSym(k[0])
		b, ok2 := mapSym(k[1])
		if !ok1 || !ok2 {
			// an order fact about a symbol that is no longer referenced constrains nothing
			continue
		}
		if S.ord.Get(a, b)&^m != 0 {
			return false
		}
	}
	for b, v := range G.bools {
		if c, ok := s.tb[b]; ok {
			if e := S.Eval(c); e == U || (e == T) != v {
				return false
			}
			continue
		}
		if w, ok := S.bools[b]; !ok || w != v {
			return false
		}
	}
	for n := range G.nonnil {
		if v, ok := s.ts[n]; ok {
			switch y := S.Resolve(v).(type) {
			case Sym:
				if !S.nonnil[y.ID] {
					return false
				}
			case Nil:
				return false
			}
			continue
		}
		if G.flexS[n] {
			continue
		}
		if m, ok := mapSym(n); ok {
			n = m
		}
		switch y := S.Resolve(Sym{n}).(type) {
		case Sym:
			if !S.nonnil[y.ID] {
				return false
			}
		case Nil:
			return false
		}
	}
	return true
}

func (s *subber) fail() {
	if s.G.in.Debug {
		_, _, l, _ := runtime.Caller(1)
		fmt.Println("not subsumed at", l)
	}
	panic(joinFail{"not subsumed"})
}

func (s *subber) sub(l Lin) Lin {
	return l.Subst(func(a int) (Lin, bool) {
		v, ok := s.ti[a]
		return v, ok
	})
}

func (s *subber) lin(g, v Lin) {
	un := -1
	n := 0
	for _, t := range g.T {
		if s.G.flexI[t.A] {
			if _, ok := s.ti[t.A]; !ok {
				un = t.A
				n++
			}
		}
	}
	if n == 0 {
		if !s.S.EqLin(s.sub(g), v) {
			if s.G.in.Debug {
				fmt.Println("LIN", s.G.showLin(g), s.S.showLin(v), s.S.top().fn.Name())
			}
			s.fail()
		}
		return
	}
	if n == 1 {
		k := g.Coef(un)
		if k == 1 || k == -1 {
			rest := s.sub(g.Sub(AtomLin(un).Scale(k)))
			s.ti[un] = v.Sub(rest).Scale(k)
			return
		}
	}
	s.late = append(s.late, [2]Lin{g, v})
}

func (s *subber) pair(g, v int) {
	if p, ok := s.objGS[g]; ok {
		if p != v {
			s.fail()
		}
		return
	}
	if p, ok := s.objSG[v]; ok && p != g {
		s.fail()
	}
	s.objGS[g], s.objSG[v] = v, g
}

func (s *subber) val(g, v Val) {
	g, v = s.G.Resolve(g), s.S.Resolve(v)
	switch x := g.(type) {
	case nil:
		return
	case Nil:
		if _, ok := v.(Nil); !ok {
			s.fail()
		}
	case Bool:
		y, ok := v.(Bool)
		if !ok {
			s.fail()
		}
		gv := s.G.Eval(x.C)
		if gv != U {
			if s.S.Eval(y.C) != gv {
				s.fail()
			}
			return
		}
		if a, ok := x.C.(CAtom); ok {
			if c, has := s.tb[a.ID]; has {
				if s.G.in.vkey(Bool{c}) != s.G.in.vkey(y) {
					s.fail()
				}
				return
			}
			if si := s.G.in.syms[a.ID]; si != nil && si.Op == "" && si.Name == "b" {
				s.tb[a.ID] = y.C
				return
			}
		}
		if s.G.in.vkey(x) != s.G.in.vkey(y) {
			s.fail()
		}
	case Int:
		y, ok := v.(Int)
		if !ok {
			s.fail()
		}
		s.lin(x.L, y.L)
	case Str:
		if y, ok := v.(Str); !ok || x != y {
			if s.G.in.Debug {
				fmt.Println("STR", x, v, s.S.top().fn.Name())
			}
			s.fail()
		}
	case Sym:
		if s.G.flexS[x.ID] {
			var y Val = v
			switch t := v.(type) {
			case Sym:
			case Ptr:
				o := s.S.heap[t.O]
				if !pristine(s.S, o) || t.IsElem || len(t.Path) > 0 {
					s.fail()
				}
				y = Sym{o.From}
				if s.S.bind[o.From] == nil {
					s.fail()
				}
			default:
				s.fail()
			}
			if old, ok := s.ts[x.ID]; ok {
				if old != y {
					s.fail()
				}
				return
			}
			s.ts[x.ID] = y
			return
		}
		switch y := v.(type) {
		case Sym:
			if p, q, ok := s.G.in.indexed(x.ID, y.ID); ok && x.ID != y.ID {
				if s.G.nonnil[x.ID] && !s.S.nonnil[y.ID] {
					s.fail()
				}
				s.lin(p, q)
				return
			}
			if y.ID != x.ID {
				s.fail()
			}
		case Ptr:
			o := s.S.heap[y.O]
			if !pristine(s.S, o) || y.IsElem || len(y.Path) > 0 || o.From != x.ID {
				s.fail()
			}
		default:
			s.fail()
		}
	case Ptr:
		y, ok := v.(Ptr)
		if !ok || x.IsElem != y.IsElem || len(x.Path) != len(y.Path) {
			s.fail()
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				s.fail()
			}
		}
		s.pair(x.O, y.O)
		if x.IsElem {
			s.lin(x.Idx, y.Idx)
		}
	case Slice:
		y, ok := v.(Slice)
		if !ok {
			s.fail()
		}
		s.pair(x.Arr, y.Arr)
		s.lin(x.Off, y.Off)
		s.lin(x.Len, y.Len)
		s.lin(x.Cap, y.Cap)
	case ArrVal:
		y, ok := v.(ArrVal)
		if !ok {
			s.fail()
		}
		s.pair(x.O, y.O)
	case MapVal:
		y, ok := v.(MapVal)
		if !ok {
			s.fail()
		}
		s.pair(x.O, y.O)
	case Iface:
		y, ok := v.(Iface)
		if !ok || !types.Identical(x.T, y.T) {
			s.fail()
		}
		s.val(x.V, y.V)
	case Func:
		y, ok := v.(Func)
		if !ok || x.Fn != y.Fn || x.B != y.B || len(x.Bind) != len(y.Bind) {
			s.fail()
		}
		for i := range x.Bind {
			s.val(x.Bind[i], y.Bind[i])
		}
	case Tuple:
		y, ok := v.(Tuple)
		if !ok || len(x.V) != len(y.V) {
			s.fail()
		}
		for i := range x.V {
			s.val(x.V[i], y.V[i])
		}
	case Struct:
		y, ok := v.(Struct)
		if !ok || len(x.F) != len(y.F) {
			s.fail()
		}
		for i := range x.F {
			if x.F[i] == nil {
				// unknown input field: any value unless S overwrote it
				continue
			}
			if y.F[i] == nil {
				s.fail()
			}
			s.val(x.F[i], y.F[i])
		}
	default:
		s.fail()
	}
}

func (s *subber) object(g, v *Obj) {
	if g == nil || v == nil || g.Fresh != v.Fresh || !types.Identical(g.T, v.T) || (g.Arr == nil) != (v.Arr == nil) {
		s.fail()
	}
	if v.Dirty && !g.Dirty {
		// modified where the head state was pristine: only fine when nothing depends on it
		if g.From >= 0 || g.Arr != nil && g.Arr.Def == DefSym {
			s.fail()
		}
	}
	if g.Arr == nil {
		s.val(g.V, v.V)
		return
	}
	s.lin(g.Arr.Len, v.Arr.Len)
	if g.Arr.Def != DefTop && g.Arr.Def != v.Arr.Def {
		s.fail()
	}
	s.pend = append(s.pend, func() {
		used := map[int]bool{}
		for _, gc := range g.Arr.Cells {
			want := s.sub(gc.Idx)
			found := false
			for k, sc := range v.Arr.Cells {
				if s.S.EqLin(sc.Idx, want) {
					used[k] = true
					s.val(gc.V, sc.V)
					found = true
					break
				}
			}
			if !found {
				s.fail()
			}
		}
		if g.Arr.Def == DefZero {
			for k := range v.Arr.Cells {
				if !used[k] && !isZeroVal(s.S.Resolve(v.Arr.Cells[k].V)) {
					s.fail()
				}
			}
		}
		if g.Arr.Def == DefSym && v.Dirty {
			for k := range v.Arr.Cells {
				if !used[k] {
					s.fail()
				}
			}
		}
	})
}

func isProtected(ps []Lin, l Lin) bool {
	for _, p := range ps {
		if p.Equal(l) {
			return true
		}
	}
	return false
}
