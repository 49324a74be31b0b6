package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

// bpClient is what removal below a node comes down to.
const bpClient = `package zzdriver

func More() bool       { return false }
func Any() interface{} { return nil }
func Removed()         {}

func Some(where func(value interface{}) bool) {
	for More() {
		if where(Any()) {
			Removed()
		}
	}
}

func Single(where func(value interface{}) bool) {
	if where(Any()) {
		Removed()
	}
}
`

func init() {
	registerClient("C20", "Abstract interpretation of every operation that adds to, replaces in or removes from a B+tree, on trees of any shape and node size. Every change of the number of keys of a leaf is added up; what happens below a node is used by a contract that is checked on an arbitrary node.", bpClient, func(c *Ctx) {
		c.R.Rule("size", "the size changes by exactly as much as the leaves' numbers of keys do, and not at all when the operation fails")
		c.R.Rule("entries", "the leaves gain one key exactly when an entry is added and lose one for each entry removed")
		c.R.Rule("contract", "what insertion, removal and searching do below an inner node they do for an arbitrary node")
		c.R.Assume("searching for a key leads to the leaf that holds it if one does (C35); the checks for internal inconsistency do not fire; leaves are chained without cycles")
		c.bpOps()
		c.R.Floor("operations", 13)
	})
}

// bptree is an arbitrary B+tree, known by how many keys the nodes looked at have.
type bptree struct {
	c              *Ctx
	in             *ai.Interp
	N              *types.Named
	kf, vf, pf, uf int // keys, values, children, whether duplicates are refused
	S              ai.Lin
	x, v, where    ai.Sym
	unique         bool
	key            string
	fn             *ssa.Function
	ok             bool
	need           map[*ssa.Function]bool
}

func (b *bptree) bad(rule string, st *ai.State, f string, args ...interface{}) {
	b.ok = false
	b.c.R.Fail(rule, b.key, b.c.P.Pos(b.fn.Pos()), fmt.Sprintf(f, args...), b.c.Path(st)...)
}

func (c *Ctx) newBptree(key string, fn *ssa.Function, unique bool) *bptree {
	b := &bptree{c: c, in: c.Interp(), N: c.P.Named("tree/bptree", "BpNode"), unique: unique, key: key, fn: fn, ok: true, need: map[*ssa.Function]bool{}}
	in := b.in
	in.MaxHeads, in.MoreJoins = 200, 10
	in.Rigid = map[int]bool{}
	mk := func(T types.Type, name string) ai.Sym {
		s := in.NewSym(T, name)
		in.Rigid[s.ID] = true
		return s
	}
	s := b.N.Underlying().(*types.Struct)
	slice := func(what string, f func(T types.Type) bool) int {
		return onlyField(s, what, func(T types.Type) bool {
			u, ok := T.Underlying().(*types.Slice)
			return ok && f(u.Elem())
		})
	}
	b.kf = slice("keys", func(T types.Type) bool { return types.Identical(T, c.hashable()) })
	b.vf = slice("values", isEmptyIface)
	b.pf = slice("children", func(T types.Type) bool { return types.Identical(T, types.NewPointer(b.N)) })
	b.uf = onlyField(s, "whether duplicates are refused", func(T types.Type) bool {
		u, ok := T.Underlying().(*types.Basic)
		return ok && u.Kind() == types.Bool
	})
	b.S = in.NewAtom("node size")
	b.x, b.v = mk(c.hashable(), "key"), mk(types.NewInterfaceType(nil, nil), "value")
	if w := c.P.Named("types", "WhereFunc"); w != nil {
		b.where = mk(w, "where")
	}
	in.H.Call = b.call
	in.H.Materialize = func(st *ai.State, y ai.Sym, T types.Type) (ai.Ptr, bool) {
		if !types.Identical(T, types.NewPointer(b.N)) {
			return ai.Ptr{}, false
		}
		tag, _ := in.Info(y.ID).Tag.(string)
		return b.node(st, tag, y.ID), true
	}
	in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
		switch {
		case o.Arr.Def != ai.DefSym:
		case types.Identical(o.T, types.NewPointer(b.N)):
			y := in.NewSym(o.T, "child")
			st.NonNil(y)
			return y, true
		case types.Identical(o.T, c.hashable()):
			y := in.NewSym(o.T, "stored key")
			st.NonNil(y)
			return y, true
		}
		return nil, false
	}
	in.H.OnStore = b.store
	in.H.Fold = b.fold
	return b
}

// node makes an arbitrary node; kind is leaf, inner or unknown.
func (b *bptree) node(st *ai.State, kind string, from int) ai.Ptr {
	s := b.N.Underlying().(*types.Struct)
	in := b.in
	f := make([]ai.Val, s.NumFields())
	l := in.NewAtom("keys")
	st.AddLe(l.Neg())
	st.AddLe(l.Sub(b.S))
	arr := func(i int, c ai.Lin, n ai.Lin) ai.Val {
		a := st.NewArr(s.Field(i).Type().Underlying().(*types.Slice).Elem(), c, ai.DefSym, false, s.Field(i).Name())
		return ai.Slice{Arr: a.ID, Off: ai.K(0), Len: n, Cap: c}
	}
	f[b.kf] = arr(b.kf, b.S, l)
	switch kind {
	case "leaf":
		f[b.vf] = arr(b.vf, b.S, l)
		f[b.pf] = in.Zero(st, s.Field(b.pf).Type())
	case "inner":
		f[b.vf] = in.Zero(st, s.Field(b.vf).Type())
		f[b.pf] = arr(b.pf, b.S, l)
	default:
		k := in.NewAtom("children")
		st.AddLe(k.Neg())
		st.AddLe(k.Sub(b.S))
		n := in.NewAtom("number of children")
		st.AddLe(n.Neg())
		st.AddLe(n.Sub(k))
		m := in.NewAtom("number of values")
		st.AddLe(m.Neg())
		st.AddLe(m.Sub(b.S))
		f[b.vf] = arr(b.vf, b.S, m)
		f[b.pf] = arr(b.pf, k, n)
	}
	f[b.uf] = ai.Bool{C: ai.CConst{V: b.unique}}
	for i := range f {
		if f[i] == nil {
			if types.Identical(s.Field(i).Type(), types.NewPointer(b.N)) {
				y := in.NewSym(s.Field(i).Type(), s.Field(i).Name())
				in.Info(y.ID).Tag = "leaf"
				f[i] = y
			} else {
				f[i] = in.Fresh(st, s.Field(i).Type(), s.Field(i).Name())
			}
		}
	}
	o := st.NewObj(b.N, ai.Struct{F: f}, false, "node")
	if from >= 0 {
		o.From = from
	}
	return ai.Ptr{O: o.ID}
}

func (b *bptree) some(st *ai.State, kind string, nonnil bool) ai.Sym {
	y := b.in.NewSym(types.NewPointer(b.N), "node below")
	if kind != "" {
		b.in.Info(y.ID).Tag = kind
	}
	if nonnil {
		st.NonNil(y)
	}
	return y
}

func (b *bptree) add(st *ai.State, g string, d ai.Lin) {
	st.Ghost[g] = ai.Int{L: intv(st.Ghost[g]).Add(d)}
}

// leaf tells leaves from inner nodes.
func (b *bptree) leaf(st *ai.State, o int) int {
	p, ok := st.Resolve(st.FieldOf(o, b.pf)).(ai.Slice)
	if !ok {
		if _, isNil := st.Resolve(st.FieldOf(o, b.pf)).(ai.Nil); isNil {
			return ai.T
		}
		return ai.U
	}
	return st.Eval(ai.CLe{L: p.Cap})
}

func length(st *ai.State, v ai.Val) (ai.Lin, bool) {
	switch s := st.Resolve(v).(type) {
	case ai.Slice:
		return s.Len, true
	case ai.Nil:
		return ai.K(0), true
	}
	return ai.Lin{}, false
}

// store adds up how the leaves grow and shrink.
func (b *bptree) store(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
	o := st.Obj(p.O)
	if o == nil || p.IsElem || !types.Identical(o.T, b.N) {
		return
	}
	if len(p.Path) == 0 {
		panic(ai.Undecided{Msg: "a whole node is overwritten", Pos: pos})
	}
	if p.Path[0] != b.kf {
		return
	}
	now, ok1 := length(st, v)
	old, ok2 := length(st, st.FieldOf(p.O, b.kf))
	if !ok1 || !ok2 {
		panic(ai.Undecided{Msg: "the number of keys stored is not known", Pos: pos})
	}
	if st.EqLin(now, old) {
		return
	}
	switch b.leaf(st, p.O) {
	case ai.T:
		b.add(st, "entries", now.Sub(old))
		if b.unique && st.Eval(ai.CLe{L: now.AddK(1).Sub(old)}) == ai.T && str(st, "removing") == "key" {
			st.Ghost["held"] = ai.Str{S: "no"}
			st.Ghost["removing"] = ai.Str{S: ""}
		}
	case ai.U:
		panic(ai.Undecided{Msg: "a node of unknown kind changes its number of keys", Pos: pos})
	}
}

// fold forgets the leaves already dealt with by a removal going along them.
func (b *bptree) fold(st *ai.State) {
	// what the nodes hold does not matter, only how much
	for _, id := range st.Objects() {
		if o := st.Obj(id); o.Arr != nil && (types.Identical(o.T, b.c.hashable()) || isEmptyIface(o.T) || types.Identical(o.T, types.NewPointer(b.N))) {
			n, a := *o, *o.Arr
			a.Cells, a.Def = nil, ai.DefSym
			n.Arr, n.Dirty = &a, false
			st.SetObj(&n)
		}
	}
	fn := st.Caller()
	if fn == nil || !takesWhere(fn.Signature) {
		return
	}
	for _, id := range st.Objects() {
		o := st.Obj(id)
		if types.Identical(o.T, b.N) && o.Dirty && b.leaf(st, id) == ai.T {
			b.forget(st, id)
		}
	}
}

// forget makes a node arbitrary again.
func (b *bptree) forget(st *ai.State, id int) {
	kind := ""
	switch b.leaf(st, id) {
	case ai.T:
		kind = "leaf"
	case ai.F:
		kind = "inner"
	}
	p := b.node(st, kind, -1)
	n, o := *st.Obj(p.O), *st.Obj(id)
	o.V, o.Fresh, o.Dirty = n.V, false, false
	o.From = b.some(st, kind, true).ID
	st.SetObj(&o)
	st.Bind(ai.Sym{ID: o.From}, ai.Ptr{O: id})
}

func takesWhere(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if f, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); ok && f.Results().Len() == 1 && f.Params().Len() == 1 {
			return true
		}
	}
	return false
}

// kind of a function on nodes by what it takes and gives.
func (b *bptree) kindOf(fn *ssa.Function) string {
	if fn.Pkg == nil || !b.c.P.InRepo(fn) || b.c.P.Rel(fn.Pkg.Pkg) != "tree/bptree" || len(fn.Blocks) == 0 {
		return ""
	}
	sig := fn.Signature
	onNode := sig.Recv() != nil && types.Identical(sig.Recv().Type(), types.NewPointer(b.N))
	key, val, node := false, false, false
	ints, bools, nodes := 0, 0, 0
	for i := 0; i < sig.Params().Len(); i++ {
		T := sig.Params().At(i).Type()
		key = key || types.Identical(T, b.c.hashable())
		val = val || isEmptyIface(T)
		node = node || types.Identical(T, types.NewPointer(b.N))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		T := sig.Results().At(i).Type()
		switch u := T.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Int {
				ints++
			} else if u.Kind() == types.Bool {
				bools++
			}
		case *types.Pointer:
			if types.Identical(T, types.NewPointer(b.N)) {
				nodes++
			}
		}
	}
	switch {
	case !onNode && !node:
		return ""
	case takesWhere(sig):
		return "remove"
	case key && val:
		return "insert"
	case key && ints == 1 && nodes == 1 && sig.Results().Len() == 2:
		return "search"
	case key && ints == 1 && bools == 1 && sig.Results().Len() == 2 && !node:
		return "find"
	case sig.Results().Len() > 0 && b.c.readsOnly(fn, map[*ssa.Function]bool{}):
		return "look"
	}
	return "work"
}

// readsOnly: neither the function nor what it calls stores into nodes.
func (c *Ctx) readsOnly(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	for _, bl := range fn.Blocks {
		for _, i := range bl.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.MakeClosure, *ssa.Go, *ssa.Defer:
				return false
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if x.Common().IsInvoke() {
					continue
				}
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" || bi.Name() == "append" {
						return false
					}
					continue
				}
				if g == nil {
					return false
				}
				if g.Pkg == fn.Pkg && !c.readsOnly(g, seen) {
					return false
				}
			}
		}
	}
	return true
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// loops: the functions that may call fn again from within.
func (c *Ctx) callsBack(fn *ssa.Function) map[*ssa.Function]bool {
	callees := func(f *ssa.Function) (out []*ssa.Function) {
		for _, bl := range f.Blocks {
			for _, i := range bl.Instrs {
				if x, ok := i.(ssa.CallInstruction); ok {
					if g := x.Common().StaticCallee(); g != nil && g.Pkg == fn.Pkg {
						out = append(out, g)
					}
				}
			}
		}
		return
	}
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for _, h := range callees(g) {
				if !seen[h] {
					seen[h] = true
					visit(h)
				}
			}
		}
		visit(f)
		return seen
	}
	out := map[*ssa.Function]bool{}
	for g := range reach(fn) {
		if g == fn || reach(g)[fn] {
			out[g] = true
		}
	}
	if !reach(fn)[fn] {
		return nil
	}
	return out
}

func (b *bptree) call(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	ret := func(st *ai.State, vs ...ai.Val) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Rets: vs}}, true }
	yes := ai.Bool{C: ai.CConst{V: true}}
	no := ai.Bool{C: ai.CConst{V: false}}
	if w, ok := ci.FnVal.(ai.Sym); ok && w.ID == b.where.ID {
		b.add(st, "asked", ai.K(1))
		if b.unique {
			st.Ghost["held"] = ai.Str{S: "no"} // by another entry
		}
		q := st.Clone()
		b.add(st, "agreed", ai.K(1))
		return []ai.Outcome{{St: st, Rets: []ai.Val{yes}}, {St: q, Rets: []ai.Val{no}}}, true
	}
	if ci.Method != nil && len(ci.Args) == 1 && (ci.Name() == "Equals" || ci.Name() == "Less") {
		isX := sameVal(st, ci.Args[0], b.x) || sameVal(st, ci.Recv, b.x)
		if !isX || !b.unique || ci.Name() == "Less" {
			q := st.Clone()
			return []ai.Outcome{{St: st, Rets: []ai.Val{yes}}, {St: q, Rets: []ai.Val{no}}}, true
		}
		switch {
		case str(st, "held") == "no":
			return ret(st, no)
		case str(st, "sought") == "yes":
			st.Ghost["sought"] = ai.Str{S: ""}
			st.Ghost["removing"] = ai.Str{S: "key"}
			return ret(st, yes)
		}
		q := st.Clone()
		st.Ghost["removing"] = ai.Str{S: "key"}
		return []ai.Outcome{{St: st, Rets: []ai.Val{yes}}, {St: q, Rets: []ai.Val{no}}}, true
	}
	if ci.Fn == nil {
		return b.c.errorsHook(st, ci)
	}
	if ci.Fn.Pkg == b.c.P.Driver && b.c.P.Driver != nil {
		switch ci.Fn.Name() {
		case "More":
			q := st.Clone()
			return []ai.Outcome{{St: st, Rets: []ai.Val{yes}}, {St: q, Rets: []ai.Val{no}}}, true
		case "Any":
			return ret(st, b.in.NewSym(types.NewInterfaceType(nil, nil), "stored value"))
		case "Removed":
			b.add(st, "entries", ai.K(-1))
			st.Ghost["held"] = ai.Str{S: "no"}
			return ret(st)
		}
		return nil, false
	}
	switch kind := b.kindOf(ci.Fn); kind {
	case "":
	case "search":
		j := b.in.NewAtom("place")
		st.AddLe(j.Neg())
		st.AddLe(j.AddK(1).Sub(b.S))
		st.Ghost["sought"] = ai.Str{S: "yes"}
		l := b.some(st, "leaf", true)
		if str(st, "held") == "yes" {
			p := b.node(st, "leaf", l.ID)
			st.Bind(l, p)
			n, _ := length(st, st.FieldOf(p.O, b.kf))
			st.AddLe(j.AddK(1).Sub(n))
		}
		return ret(st, ai.Int{L: j}, l)
	case "find":
		if len(ci.Args) == 0 || b.fn == ci.Fn {
			break
		}
		p, ok := st.Resolve(ci.Args[0]).(ai.Ptr)
		if !ok {
			break
		}
		n, ok := length(st, st.FieldOf(p.O, b.kf))
		if !ok {
			break
		}
		j := b.in.NewAtom("place")
		st.AddLe(j.Neg())
		st.AddLe(j.Sub(n))
		miss := st.Clone()
		var out []ai.Outcome
		known := b.unique && b.leaf(st, p.O) == ai.T && sameVal(st, ci.Args[1], b.x)
		if !(known && str(st, "held") == "no") && st.Assume(ai.CLe{L: j.AddK(1).Sub(n)}, true) {
			out = append(out, ai.Outcome{St: st, Rets: []ai.Val{ai.Int{L: j}, yes}})
		}
		if !(known && str(st, "held") == "yes") {
			out = append(out, ai.Outcome{St: miss, Rets: []ai.Val{ai.Int{L: j}, no}})
		}
		return out, true
	case "look":
		if hasLoop(ci.Fn) || b.c.callsBack(ci.Fn) != nil {
			return b.below(st, ci, kind), true
		}
	default:
		if b.c.callsBack(ci.Fn) == nil || ci.Fn == b.fn && st.OnStack(ci.Fn) == 0 {
			break
		}
		b.need[ci.Fn] = true
		return b.below(st, ci, kind), true
	}
	return b.c.errorsHook(st, ci)
}

// below is what happens at an arbitrary node further down.
func (b *bptree) below(st *ai.State, ci *ai.CallInfo, kind string) []ai.Outcome {
	if kind != "look" {
		for _, id := range st.Objects() {
			if o := st.Obj(id); types.Identical(o.T, b.N) && b.leaf(st, id) != ai.F {
				b.forget(st, id)
			}
		}
		if p, ok := st.Resolve(ci.Args[0]).(ai.Ptr); ok {
			b.forget(st, p.O)
		}
	}
	sts := []*ai.State{st}
	switch kind {
	case "insert":
		if !b.unique || str(st, "held") == "no" {
			b.add(st, "entries", ai.K(1))
			st.Ghost["held"] = ai.Str{S: "yes"}
		}
	case "remove":
		var where ai.Val
		for i, a := range ci.Args {
			if i < len(ci.Fn.Params) {
				if _, ok := ci.Fn.Params[i].Type().Underlying().(*types.Signature); ok {
					where = a
				}
			}
		}
		name := "Some"
		if b.unique {
			name = "Single"
		}
		if where == nil {
			panic(ai.Undecided{Msg: "nothing tells which entries to remove", Pos: ci.Pos})
		}
		if !b.unique || str(st, "held") == "yes" {
			drv := b.c.client(name)
			sts = nil
			for _, o := range b.in.CallFunc(st, nil, drv, []ai.Val{where}, nil, drv.Pos()) {
				if o.Panic == nil {
					sts = append(sts, o.St)
				}
			}
		}
	}
	var out []ai.Outcome
	for _, q := range sts {
		var rets []ai.Val
		first := true
		for i := 0; i < ci.Sig.Results().Len(); i++ {
			T := ci.Sig.Results().At(i).Type()
			switch {
			case types.Identical(T, types.NewPointer(b.N)):
				kd := ""
				if kind == "look" {
					// along the leaves there are only leaves
					kd = "leaf"
					for _, a := range ci.Args {
						switch y := q.Resolve(a).(type) {
						case ai.Ptr:
							if types.Identical(q.Obj(y.O).T, b.N) && b.leaf(q, y.O) != ai.T {
								kd = ""
							}
						case ai.Sym:
							if i := b.in.Info(y.ID); types.Identical(i.T, types.NewPointer(b.N)) && i.Tag != "leaf" {
								kd = ""
							}
						}
					}
				}
				rets = append(rets, b.some(q, kd, kind == "insert" && first))
				first = false
			case types.Identical(T, errType()):
				rets = append(rets, ai.Nil{})
			default:
				rets = append(rets, b.in.Fresh(q, T, "result"))
			}
		}
		out = append(out, ai.Outcome{St: q, Rets: rets})
	}
	// answers are yes or no
	for i := 0; i < ci.Sig.Results().Len(); i++ {
		if T, ok := ci.Sig.Results().At(i).Type().Underlying().(*types.Basic); ok && T.Kind() == types.Bool {
			var both []ai.Outcome
			for _, o := range out {
				for _, v := range []bool{true, false} {
					rets := append([]ai.Val{}, o.Rets...)
					rets[i] = ai.Bool{C: ai.CConst{V: v}}
					both = append(both, ai.Outcome{St: o.St.Clone(), Rets: rets})
				}
			}
			out = both
		}
	}
	return out
}

// start is an arbitrary tree, or node, that does or does not hold the key.
func (b *bptree) start(held string) *ai.State {
	st := b.in.NewState()
	st.AddLe(ai.K(2).Sub(b.S))
	st.Ghost["S"] = ai.Int{L: b.S}
	for _, g := range []string{"entries", "asked", "agreed"} {
		st.Ghost[g] = ai.Int{L: ai.K(0)}
	}
	st.Ghost["held"] = ai.Str{S: held}
	st.Ghost["sought"], st.Ghost["removing"] = ai.Str{S: ""}, ai.Str{S: ""}
	for n, s := range map[string]ai.Sym{"x": b.x, "v": b.v} {
		st.NonNil(b.x)
		st.Ghost[n] = s
	}
	st.NonNil(b.where)
	return st
}

// args for a function: a key, a value, a predicate; nodes and the rest are arbitrary.
func (b *bptree) args(st *ai.State, fn *ssa.Function, recv ai.Val) []ai.Val {
	var out []ai.Val
	for i, p := range fn.Params {
		T := p.Type()
		switch _, isF := T.Underlying().(*types.Signature); {
		case i == 0 && recv != nil:
			out = append(out, recv)
		case isF:
			out = append(out, b.where)
		case types.Identical(T, types.NewPointer(b.N)):
			out = append(out, b.some(st, "", false))
		case types.Identical(T, b.c.hashable()):
			first := true
			for _, a := range out {
				if s, ok := a.(ai.Sym); ok && s.ID == b.x.ID {
					first = false
				}
			}
			if first {
				out = append(out, b.x)
			} else {
				out = append(out, b.in.NewSym(T, p.Name()))
			}
		case isEmptyIface(T):
			out = append(out, b.v)
		default:
			out = append(out, b.in.Fresh(st, T, p.Name()))
		}
	}
	return out
}

// change compares the leaves' growth with what the kind of operation should do.
func (b *bptree) change(st *ai.State, kind, held string) {
	d := intv(st.Ghost["entries"])
	want := ai.K(0)
	what := "none"
	switch kind {
	case "insert":
		what = "one more"
		if b.unique && held == "yes" {
			what = "none more, the key is there"
		} else {
			want = ai.K(1)
		}
	case "remove":
		want = intv(st.Ghost["agreed"]).Neg()
		what = "one less for each entry to be removed"
		if b.unique {
			n := ai.K(0)
			if held == "yes" {
				n = ai.K(1)
			}
			if !st.EqLin(intv(st.Ghost["asked"]), n) {
				b.bad("entries", st, "asks about %s entries, of which %s have the key", st.Show(st.Ghost["asked"]), st.Show(ai.Int{L: n}))
			}
		}
	case "pop":
		if held == "yes" {
			want = ai.K(-1)
		}
		what = "one less if the key is there"
	}
	if !st.EqLin(d, want) {
		b.bad("entries", st, "the leaves get %s keys, expected: %s", st.Show(ai.Int{L: d}), what)
	}
}

// bpContract checks a function at an arbitrary node.
func (c *Ctx) bpContract(fn *ssa.Function, unique bool) (next map[*ssa.Function]bool) {
	key := fmt.Sprintf("%s, refusing duplicates: %v", c.P.FuncName(fn), unique)
	c.R.Count("contracts", 1)
	if f := os.Getenv("DSV_ONLY"); f != "" && !strings.Contains(key, f) {
		return nil
	}
	answered := map[string]bool{}
	var mu sync.Mutex
	return c.bpCases("contract", key, fn, unique, func(b *bptree, held, shape string) {
		kind := b.kindOf(fn)
		st := b.start(held)
		var recv ai.Val
		if fn.Signature.Recv() != nil {
			p := b.node(st, shape, -1)
			if held == "yes" || shape == "inner" {
				n, _ := length(st, st.FieldOf(p.O, b.kf))
				st.AddLe(ai.K(1).Sub(n))
			}
			recv = p
		}
		b.in.Base = b.in.Mark()
		for _, o := range call(b.in, st, fn, b.args(st, fn, recv)...) {
			if o.Panic != nil || b.failed(o) {
				continue
			}
			mu.Lock()
			answered[held] = true
			mu.Unlock()
			b.change(o.St, kind, held)
		}
	}, func(b *bptree) {
		for _, held := range b.cases() {
			if !answered[held] {
				b.bad("contract", b.start(held), "has no outcome")
			}
		}
	})
}

// bpCases runs the cases of an obligation side by side.
func (c *Ctx) bpCases(rule, key string, fn *ssa.Function, unique bool, run func(b *bptree, held, shape string), last func(b *bptree)) map[*ssa.Function]bool {
	var mu sync.Mutex
	need := map[*ssa.Function]bool{}
	oks, all := 0, 0
	var parts []func(c *Ctx)
	for _, held := range (&bptree{unique: unique}).cases() {
		for _, shape := range []string{"leaf", "inner"} {
			held, shape := held, shape
			all++
			parts = append(parts, func(c *Ctx) {
				c.Guard(rule, key, fn.Pos(), func() {
					b := c.newBptree(key, fn, unique)
					defer c.Done(b.in)
					defer func() {
						mu.Lock()
						defer mu.Unlock()
						for f := range b.need {
							need[f] = true
						}
					}()
					run(b, held, shape)
					if b.ok {
						mu.Lock()
						oks++
						mu.Unlock()
					}
				})
			})
		}
	}
	c.Parallel(parts...)
	c.Guard(rule, key, fn.Pos(), func() {
		b := c.newBptree(key, fn, unique)
		if last != nil {
			last(b)
		}
		if oks == all && b.ok {
			c.R.OK(rule, key, c.P.Pos(fn.Pos()))
		}
	})
	return need
}

func (b *bptree) failed(o ai.Outcome) bool {
	for _, r := range o.Rets {
		switch e := o.St.Resolve(r).(type) {
		case ai.Sym:
			if i := b.in.Info(e.ID); i != nil && types.Identical(i.T, errType()) && isNil(o.St, e) != ai.T {
				return true
			}
		case ai.Iface:
			if types.Implements(e.T, errType().Underlying().(*types.Interface)) {
				return true
			}
		}
	}
	return false
}

func (b *bptree) cases() []string {
	if b.unique {
		return []string{"yes", "no"}
	}
	return []string{"?"}
}

// bpNeed is a contract relied on.
type bpNeed struct {
	fn     *ssa.Function
	unique bool
}

func (c *Ctx) bpOps() {
	if c.P.Named("tree/bptree", "BpNode") == nil {
		c.R.Fail("anchor", "tree/bptree.BpNode", "", "anchor not found in the tree")
		return
	}
	var mu sync.Mutex
	done, todo := map[bpNeed]bool{}, []bpNeed{}
	want := func(fns map[*ssa.Function]bool, unique bool) {
		mu.Lock()
		defer mu.Unlock()
		for f := range fns {
			if n := (bpNeed{f, unique}); !done[n] {
				done[n] = true
				todo = append(todo, n)
			}
		}
	}
	var parts []func(c *Ctx)
	for _, t := range []struct {
		typ, mk string
		unique  bool
		ops     [][2]string
	}{
		{"BpTree", "NewBpTree", false, [][2]string{{"Add", "insert"}, {"Replace", "none"}, {"RemoveWhere", "remove"}, {"Has", "none"}, {"Count", "none"}, {"Find", "none"}, {"Range", "none"}}},
		{"BpMap", "NewBpMap", true, [][2]string{{"Put", "insert"}, {"Remove", "pop"}, {"Has", "none"}, {"Get", "none"}}},
	} {
		t := t
		M := c.P.Named("tree/bptree", t.typ)
		mk := c.NeedFunc("tree/bptree", t.mk)
		if M == nil || mk == nil {
			c.R.Fail("anchor", "tree/bptree."+t.typ, "", "anchor not found in the tree")
			continue
		}
		T := types.NewPointer(M)
		c.R.Count("operations", 1)
		c.bpNew(T, mk, t.unique)
		for _, op := range t.ops {
			op := op
			fn := c.P.Method(T, op[0])
			key := "tree/bptree." + t.typ + "." + op[0]
			if fn == nil {
				c.R.Fail("anchor", key, "", "anchor not found in the tree")
				continue
			}
			c.R.Count("operations", 1)
			if f := os.Getenv("DSV_ONLY"); f != "" && !strings.Contains(key, f) {
				continue
			}
			parts = append(parts, func(c *Ctx) {
				want(c.bpCases("size", key, fn, t.unique, func(b *bptree, held, shape string) {
					b.op(T, fn, op[0], op[1], held, shape)
				}, nil), t.unique)
			})
		}
	}
	for len(parts) > 0 {
		c.Parallel(parts...)
		parts = nil
		sort.Slice(todo, func(i, j int) bool {
			if todo[i].fn != todo[j].fn {
				return todo[i].fn.Pos() < todo[j].fn.Pos()
			}
			return todo[j].unique && !todo[i].unique
		})
		for _, n := range todo {
			n := n
			parts = append(parts, func(c *Ctx) { want(c.bpContract(n.fn, n.unique), n.unique) })
		}
		todo = nil
	}
}

// bpNew: a new tree is empty.
func (c *Ctx) bpNew(T types.Type, mk *ssa.Function, unique bool) {
	key := c.P.FuncName(mk)
	c.Guard("size", key, mk.Pos(), func() {
		b := c.newBptree(key, mk, unique)
		defer c.Done(b.in)
		st := b.start("no")
		for _, o := range call(b.in, st, mk, ai.Int{L: b.S}) {
			if o.Panic != nil {
				continue
			}
			for _, s := range c.callM(b.in, o.St, T, o.Rets[0], "Size") {
				if s.Panic != nil || !s.St.EqLin(intv(s.Rets[0]), ai.K(0)) || !s.St.EqLin(intv(s.St.Ghost["entries"]), ai.K(0)) {
					b.bad("size", s.St, "a new tree is not empty")
				}
			}
		}
		if b.ok {
			c.R.OK("size", key, c.P.Pos(mk.Pos()))
		}
	})
}

// op runs one operation on an arbitrary tree.
func (b *bptree) op(T types.Type, fn *ssa.Function, name, kind, held, shape string) {
	st := b.start(held)
	M := T.(*types.Pointer).Elem()
	s := M.Underlying().(*types.Struct)
	rf := onlyField(s, "the root", func(F types.Type) bool { return types.Identical(F, types.NewPointer(b.N)) })
	nf := onlyField(s, "the size", isInt)
	o := st.NewObj(M, b.in.Fresh(st, M, "tree"), false, "tree")
	root := b.node(st, shape, -1)
	n, _ := length(st, st.FieldOf(root.O, b.kf))
	if shape == "inner" || held == "yes" {
		st.AddLe(ai.K(1).Sub(n))
	}
	size := b.in.NewAtom("size")
	st.AddLe(size.Neg())
	st.Ghost["size"] = ai.Int{L: size}
	st.SetField(o.ID, []int{rf}, root)
	st.SetField(o.ID, []int{nf}, ai.Int{L: size})
	self := ai.Ptr{O: o.ID}
	st.Ghost["tree"] = self
	b.in.ResetSteps()
	b.in.Base = b.in.Mark()
	answers := 0
	for _, r := range b.c.callM(b.in, st, T, self, name, b.args(st, fn, self)[1:]...) {
		if r.Panic != nil {
			continue
		}
		answers++
		failed := b.failed(r)
		for _, z := range b.c.callM(b.in, r.St.Clone(), T, self, "Size") {
			if z.Panic != nil {
				b.bad("size", z.St, "Size crashes afterwards: %s", z.Panic.Msg)
				continue
			}
			d := intv(z.Rets[0]).Sub(size)
			switch {
			case failed:
				if !z.St.EqLin(d, ai.K(0)) {
					b.bad("size", z.St, "fails, but the size changes by %s", z.St.Show(ai.Int{L: d}))
				}
			case !z.St.EqLin(d, intv(z.St.Ghost["entries"])):
				b.bad("size", z.St, "the size changes by %s, the leaves' keys by %s", z.St.Show(ai.Int{L: d}), z.St.Show(z.St.Ghost["entries"]))
			}
		}
		if !failed {
			if kind == "pop" && held == "no" {
				b.bad("entries", r.St, "an absent key is removed")
			}
			b.change(r.St, kind, held)
		}
	}
	if answers == 0 {
		b.bad("size", st, "has no outcome on a tree whose root is a %s", shape)
	}
}
