package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

// viewClient drives iterators of every kind.
const viewClient = `package zzdriver

import (
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/types"
)

func Visit(key types.Hashable, value interface{}) {}
func Seen(key types.Hashable)                      {}
func Shown(value interface{})                      {}
func Kid(node types.TreeNode)                      {}
func Over()                                        {}

func WalkKV(it types.KVIterator) {
	for k, v, next := it(); next != nil; k, v, next = next() {
		Visit(k, v)
	}
	Over()
}

func WalkK(it types.KIterator) {
	for k, next := it(); next != nil; k, next = next() {
		Seen(k)
	}
	Over()
}

func WalkV(it types.Iterator) {
	for v, next := it(); next != nil; v, next = next() {
		Shown(v)
	}
	Over()
}

func WalkN(it types.TreeNodeIterator) {
	for n, next := it(); next != nil; n, next = next() {
		Kid(n)
	}
	Over()
}

func Nth(i int, item types.Hashable) {}
func Done(i int)                     {}

func Walk(it types.KIterator) {
	i := 0
	for x, next := it(); next != nil; x, next = next() {
		Nth(i, x)
		i++
	}
	Done(i)
}

func NthV(i int, item interface{}) {}

func WalkNthV(it types.Iterator) {
	i := 0
	for x, next := it(); next != nil; x, next = next() {
		NthV(i, x)
		i++
	}
	Done(i)
}

func Node(i int, item types.Hashable, linked bool) {}
func End(i int, tail bool)                         {}

func Chain(l *linked.LinkedList) {
	i := 0
	var prev *linked.Node
	for n := l.Head; n != nil; n = n.Next {
		Node(i, n.Data, n.Prev == prev)
		prev = n
		i++
	}
	End(i, l.Tail == prev)
}
`

func init() {
	registerClient("C21", "Abstract interpretation of client loops over every iterator of the library. Views and adapters are analysed over an underlying iteration of which nothing is known: each element it delivers must be shown exactly once, with the right component, before the next one is fetched, and the end must be passed on exactly when it ends. Iterators over arrays and linked lists are analysed by position, those of the hash tables through one arbitrary key.", viewClient, func(c *Ctx) {
		c.R.Rule("view", "a view shows every element of the underlying iteration once, in order, with the right component, and ends exactly when it does")
		c.R.Rule("order", "iterating shows the item of every position in order, then ends")
		c.R.Rule("iteration", "iterating a hash table shows an arbitrary key exactly once if it is stored, with its value, and otherwise not")
		c.only = func(key string) bool { return strings.Contains(key, ".Iterate,") }
		c.hashOps()
		c.linhashOps()
		c.only = func(key string) bool { return strings.HasSuffix(key, ".Size") }
		c.linkedOps()
		c.only = nil
		c.views()
		c.R.Floor("iterators", 45)
	})
}

// view is one iterator over an unknown iteration.
type view struct {
	c      *Ctx
	in     *ai.Interp
	key    string
	fn     *ssa.Function
	ok     bool
	want   string     // key, value, item, entry, node
	elem   types.Type // the type of the nodes delivered, nil if unknown
	kind   string     // tree nodes: "trie" filters
	uniq   bool       // runs of equal keys are shown once
	root   func(st *ai.State) ai.Val
	srcs   int // array of sources
	probes []ai.Sym
	n      ai.Lin
}

func (v *view) bad(st *ai.State, f string, args ...interface{}) {
	v.ok = false
	v.c.R.Fail("view", v.key, v.c.P.Pos(v.fn.Pos()), fmt.Sprintf(f, args...), v.c.Path(st)...)
}

// iterType: is T a function returning elements and the next step?
func iterType(T types.Type) (*types.Signature, bool) {
	s, ok := T.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 0 || s.Results().Len() < 2 {
		return nil, false
	}
	return s, types.Identical(s.Results().At(s.Results().Len()-1).Type(), T)
}

// source starts an unknown iteration.
func (v *view) source(st *ai.State, T types.Type, pos token.Pos) ai.Val {
	if _, ok := st.Ghost["src"].(ai.Nil); !ok {
		panic(ai.Undecided{Msg: "more than one underlying iteration", Pos: pos})
	}
	s := v.in.NewSym(T, "underlying iteration")
	st.NonNil(s)
	v.in.Rigid[s.ID] = true
	st.Ghost["src"] = s
	st.Ghost["ended"] = ai.Str{S: "no"}
	return s
}

// pending: the element delivered must have been shown, unless it is not to be shown.
func (v *view) settle(st *ai.State) (out []*ai.State) {
	p, ok := st.Ghost["pend"].(ai.Tuple)
	if !ok {
		return []*ai.State{st}
	}
	skip := func(q *ai.State) {
		q.Ghost["pend"] = ai.Nil{}
		out = append(out, q)
	}
	if acc, ok := st.Resolve(p.V[2]).(ai.Bool); ok && v.kind == "trie" {
		yes, no := st.Branch(acc.C)
		if no != nil {
			skip(no)
		}
		if yes != nil {
			v.bad(yes, "may leave out an element")
			skip(yes)
		}
		return
	}
	if last, ok := st.Resolve(st.Ghost["last"]).(ai.Sym); v.uniq && ok {
		if k, ok := st.Resolve(p.V[0]).(ai.Sym); ok {
			if k.ID == last.ID || st.Possible(k.ID, last.ID) == ai.EQ {
				skip(st)
				return
			}
		}
	}
	v.bad(st, "may leave out an element")
	skip(st)
	return
}

func (v *view) end(st *ai.State, n int) ai.Outcome {
	st.Ghost["src"] = ai.Nil{}
	st.Ghost["ended"] = ai.Str{S: "yes"}
	st.Ghost["prevend"] = ai.Nil{}
	return ai.Outcome{St: st, Rets: nils(n)}
}

// deliver: the underlying iteration hands out an element or ends.
func (v *view) deliver(st *ai.State, it ai.Sym, sig *types.Signature) (out []ai.Outcome) {
	for _, st := range v.settle(st) {
		n := sig.Results().Len()
		q := st.Clone()
		e := v.end(q, n)
		for i := 0; i < n-1; i++ {
			e.Rets[i] = v.in.Zero(q, sig.Results().At(i).Type())
		}
		if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			e.Rets[0] = ai.Int{L: ai.K(-1)}
		}
		out = append(out, e)
		for _, d := range v.element(st, sig) {
			out = append(out, ai.Outcome{St: d.St, Rets: append(d.Rets, it)})
		}
	}
	return
}

// element makes an unknown element; what it must be shown as goes to the ghost "pend".
func (v *view) element(st *ai.State, sig *types.Signature) []ai.Outcome {
	in := v.in
	r := sig.Results()
	any := types.NewInterfaceType(nil, nil)
	if b, ok := r.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int && r.Len() == 3 {
		// a place in a leaf
		leaf := in.NewSym(r.At(1).Type(), "leaf")
		st.NonNil(leaf)
		i := in.NewAtom("place")
		st.AddLe(i.Neg())
		var out []ai.Outcome
		for _, p := range in.DerefPtr(st, leaf, r.At(1).Type(), token.NoPos) {
			if p.Panic != nil {
				continue
			}
			ptr := p.V.(ai.Ptr)
			f := fields(r.At(1).Type().Underlying().(*types.Pointer).Elem())
			cell := func(st *ai.State, name string) []ai.R {
				x, ok := f[name]
				if !ok {
					panic(ai.Undecided{Msg: "a leaf has no " + name})
				}
				var rs []ai.R
				for _, l := range in.Load(st, ai.Ptr{O: ptr.O, Path: []int{x}}) {
					s, ok := l.St.Resolve(l.V).(ai.Slice)
					if !ok {
						continue // a nil slice has no places
					}
					l.St.AddLe(i.AddK(1).Sub(s.Len))
					rs = append(rs, in.ReadCell(l.St, s.Arr, s.Off.Add(i))...)
				}
				return rs
			}
			for _, k := range cell(p.St, "keys") {
				nonNil(k.St, k.V)
				for _, w := range cell(k.St, "values") {
					w.St.Ghost["pend"] = ai.Tuple{V: []ai.Val{k.V, w.V, ai.Nil{}}}
					out = append(out, ai.Outcome{St: w.St, Rets: []ai.Val{ai.Int{L: i}, ai.Ptr{O: ptr.O}}})
				}
			}
		}
		return out
	}
	if n := namedOf(r.At(0).Type()); n != nil && n.Obj().Name() == "TreeNode" {
		if v.elem == nil {
			s := in.NewSym(r.At(0).Type(), "node")
			st.NonNil(s)
			k := in.App(st, "Key", v.c.hashable(), s)
			w := in.App(st, "Value", any, s)
			st.Ghost["pend"] = ai.Tuple{V: []ai.Val{k, w, s}}
			return []ai.Outcome{{St: st, Rets: []ai.Val{s}}}
		}
		o := st.NewObj(v.elem, in.Fresh(st, v.elem, "node"), false, "node")
		var acc ai.Val = ai.Nil{}
		kp, kT := v.path("key")
		if v.kind == "trie" {
			acc = v.load(st, o.ID, "accepting")
			ln, cp := in.NewAtom("length"), in.NewAtom("capacity")
			st.AddLe(ai.K(1).Sub(ln)) // keys are stored with their end mark
			st.AddLe(ln.Sub(cp))
			a := st.NewArr(kT.Underlying().(*types.Slice).Elem(), cp, ai.DefTop, false, "key")
			st.SetField(o.ID, kp, ai.Slice{Arr: a.ID, Off: ai.K(0), Len: ln, Cap: cp})
		}
		k, w := v.load(st, o.ID, "key"), v.load(st, o.ID, "value")
		if s, ok := k.(ai.Slice); ok {
			k = ai.Slice{Arr: s.Arr, Off: s.Off, Len: s.Len.AddK(-1), Cap: s.Cap}
		}
		st.Ghost["pend"] = ai.Tuple{V: []ai.Val{k, w, acc}}
		return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Iface{T: types.NewPointer(v.elem), V: ai.Ptr{O: o.ID}}}}}
	}
	if v.kind == "entries" {
		E := v.c.P.Named("types", "MapEntry")
		k, w := in.NewSym(v.c.hashable(), "key"), in.NewSym(any, "value")
		st.NonNil(k)
		f := fields(E)
		o := st.NewObj(E, ai.Struct{F: make([]ai.Val, len(f))}, false, "entry")
		st.SetField(o.ID, []int{f["Key"]}, k)
		st.SetField(o.ID, []int{f["Value"]}, w)
		e := ai.Iface{T: types.NewPointer(E), V: ai.Ptr{O: o.ID}}
		st.Ghost["pend"] = ai.Tuple{V: []ai.Val{k, w, e}}
		return []ai.Outcome{{St: st, Rets: []ai.Val{e}}}
	}
	var rets []ai.Val
	t := ai.Tuple{V: []ai.Val{ai.Nil{}, ai.Nil{}, ai.Nil{}}}
	for i := 0; i < r.Len()-1; i++ {
		s := in.NewSym(r.At(i).Type(), "element")
		if types.Identical(r.At(i).Type(), v.c.hashable()) {
			st.NonNil(s)
		}
		rets = append(rets, s)
		t.V[i] = s
	}
	st.Ghost["pend"] = t
	return []ai.Outcome{{St: st, Rets: rets}}
}

// path leads to a field of the nodes, possibly of an embedded part.
func (v *view) path(name string) ([]int, types.Type) {
	o, p, _ := types.LookupFieldOrMethod(v.elem, true, namedOf(v.elem).Obj().Pkg(), name)
	if o == nil {
		panic(ai.Undecided{Msg: "a node has no " + name})
	}
	return p, o.Type()
}

func (v *view) load(st *ai.State, obj int, name string) ai.Val {
	p, _ := v.path(name)
	rs := v.in.Load(st, ai.Ptr{O: obj, Path: p})
	if len(rs) != 1 || rs[0].St != st {
		panic(ai.Undecided{Msg: "the " + name + " of a node"})
	}
	return st.Resolve(rs[0].V)
}

func nonNil(st *ai.State, v ai.Val) {
	if s, ok := st.Resolve(v).(ai.Sym); ok {
		st.NonNil(s)
	}
}

// unwrap takes off conversions between interfaces.
func unwrap(st *ai.State, v ai.Val) ai.Val {
	v = st.Resolve(v)
	for {
		i, ok := v.(ai.Iface)
		if !ok || !types.IsInterface(i.T) {
			return v
		}
		v = st.Resolve(i.V)
	}
}

func (v *view) same(st *ai.State, got, want ai.Val) bool {
	got, want = unwrap(st, got), unwrap(st, want)
	if s, ok := want.(ai.Slice); ok {
		if i, ok := got.(ai.Iface); ok {
			got = st.Resolve(i.V)
		}
		g, ok := got.(ai.Slice)
		return ok && g.Arr == s.Arr && st.EqLin(g.Off, s.Off) && st.EqLin(g.Len, s.Len)
	}
	return sameVal(st, got, want)
}

// show: the client sees an element.
func (v *view) show(st *ai.State, args []ai.Val) {
	p, ok := st.Ghost["pend"].(ai.Tuple)
	if !ok {
		v.bad(st, "shows %s, which the underlying iteration did not deliver now", st.Show(args[0]))
		return
	}
	switch v.want {
	case "entry":
		if !v.same(st, args[0], p.V[0]) || !v.same(st, args[1], p.V[1]) {
			v.bad(st, "shows %s with %s instead of the key and value delivered", st.Show(args[0]), st.Show(args[1]))
		}
	case "key", "value", "node":
		w := p.V[map[string]int{"key": 0, "value": 1, "node": 2}[v.want]]
		if !v.same(st, args[0], w) {
			v.bad(st, "shows %s instead of the %s delivered", st.Show(args[0]), v.want)
		}
	case "item":
		if v.kind == "entries" && v.same(st, args[0], p.V[2]) {
			break
		}
		i, ok := unwrap(st, args[0]).(ai.Iface)
		E := v.c.P.Named("types", "MapEntry")
		ptr, ok2 := ai.Ptr{}, false
		if ok {
			ptr, ok2 = st.Resolve(i.V).(ai.Ptr)
		}
		if !ok2 || E == nil || !types.Identical(i.T, types.NewPointer(E)) {
			v.bad(st, "shows %s instead of an entry", st.Show(args[0]))
			break
		}
		f := fields(E)
		if !v.same(st, st.FieldOf(ptr.O, f["Key"]), p.V[0]) || !v.same(st, st.FieldOf(ptr.O, f["Value"]), p.V[1]) {
			v.bad(st, "shows an entry that is not the key and value delivered")
		}
	}
	if v.kind == "trie" {
		if acc, ok := st.Resolve(p.V[2]).(ai.Bool); ok && st.Eval(acc.C) != ai.T {
			v.bad(st, "may show an inner node of the trie")
		}
	}
	if v.uniq {
		if k, ok := st.Resolve(p.V[0]).(ai.Sym); ok {
			if l, ok := st.Resolve(st.Ghost["last"]).(ai.Sym); ok && (l.ID == k.ID || st.Possible(l.ID, k.ID)&ai.EQ != 0) {
				v.bad(st, "may show the same key twice")
			}
			st.Ghost["last"] = k
		}
	}
	st.Ghost["pend"] = ai.Nil{}
}

func (v *view) call(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	done := func() ([]ai.Outcome, bool) { return []ai.Outcome{{St: st}}, true }
	if ci.Fn != nil && ci.Fn.Pkg == v.c.P.Driver {
		switch ci.Fn.Name() {
		case "Visit", "Seen", "Shown", "Kid":
			v.show(st, ci.Args)
			return done()
		case "Over":
			for _, q := range v.settle(st) {
				if str(q, "ended") == "no" {
					v.bad(q, "may end although the underlying iteration has not ended")
				}
			}
			return done()
		}
		return nil, false
	}
	if f, ok := ci.FnVal.(ai.Sym); ok {
		if g, ok := st.Resolve(st.Ghost["src"]).(ai.Sym); ok && g.ID == f.ID {
			return v.deliver(st, f, ci.Sig), true
		}
		if i := v.in.Info(f.ID); i != nil && i.Op == "source" {
			return v.fromChain(st, f, i, ci), true
		}
		if v.in.Rigid[f.ID] {
			return []ai.Outcome{{St: st, Panic: &ai.PanicInfo{Kind: "nil", Pos: ci.Pos, Msg: "the underlying iteration is asked again after its end"}}}, true
		}
	}
	if ci.Method != nil {
		s, ok := st.Resolve(ci.Recv).(ai.Sym)
		if ok {
			if ci.Method.Name() == "Key" || ci.Method.Name() == "Value" {
				return []ai.Outcome{{St: st, Rets: []ai.Val{v.in.App(st, ci.Method.Name(), ci.Sig.Results().At(0).Type(), s)}}}, true
			}
			if ci.Method.Name() == "Equals" && len(ci.Args) > 0 {
				return v.equals(st, s, ci.Args[len(ci.Args)-1])
			}
			if ci.Method.Name() == "Less" {
				return []ai.Outcome{{St: st, Rets: []ai.Val{v.in.NewBool("less")}}}, true
			}
		}
		if ci.Sig.Results().Len() == 1 {
			if _, ok := iterType(ci.Sig.Results().At(0).Type()); ok {
				return []ai.Outcome{{St: st, Rets: []ai.Val{v.source(st, ci.Sig.Results().At(0).Type(), ci.Pos)}}}, true
			}
		}
	}
	if ci.Fn != nil && ci.Fn != v.fn && v.c.P.InRepo(ci.Fn) && ci.Fn.Signature.Results().Len() == 1 {
		T := ci.Fn.Signature.Results().At(0).Type()
		if _, ok := iterType(T); ok && v.isSource(ci.Fn) {
			if v.root != nil && v.root(st) != nil {
				if a := unwrapPtr(st, ci.Args[0]); a == nil || !sameVal(st, a, v.root(st)) {
					v.bad(st, "traverses %s instead of its root", st.Show(ci.Args[0]))
				}
			}
			if ci.Fn.Name() == "ChainTreeNodeIterators" {
				v.headsDone(st, ci.Args[0])
				q := st.Clone()
				q.Ghost["ended"] = ai.Str{S: "yes"}
				return []ai.Outcome{{St: q, Rets: []ai.Val{ai.Nil{}}}, {St: st, Rets: []ai.Val{v.source(st, T, ci.Pos)}}}, true
			}
			if v.fn.Name() == "Iterate" && v.kind == "trie" {
				v.head(st, ci.Args[0])
				return []ai.Outcome{{St: st, Rets: []ai.Val{v.in.Fresh(st, T, "traversal")}}}, true
			}
			return []ai.Outcome{{St: st, Rets: []ai.Val{v.source(st, T, ci.Pos)}}}, true
		}
	}
	return v.c.errorsHook(st, ci)
}

// heads singles out two heads of a trie, the first with the smaller byte.
func (v *view) heads(st *ai.State, self ai.Val) {
	in := v.in
	a, b := in.NewAtom("byte"), in.NewAtom("later byte")
	st.AddLe(a.Neg())
	st.AddLe(a.AddK(1).Sub(b))
	st.AddLe(b.AddK(-255))
	in.Probes = []ai.Lin{a, b}
	in.Protect, in.Sides = in.Probes, true
	in.ProbeElem = func(T types.Type) bool {
		p, ok := T.Underlying().(*types.Pointer)
		return ok && types.Identical(p.Elem(), v.elem)
	}
	st.Ghost["a"], st.Ghost["b"] = ai.Int{L: a}, ai.Int{L: b}
	T := v.fn.Signature.Recv().Type()
	for _, r := range in.DerefPtr(st, self, T, token.NoPos) {
		if p, ok := r.V.(ai.Ptr); ok && r.Panic == nil {
			S := T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			for i := 0; i < S.NumFields(); i++ {
				in.Load(st, ai.Ptr{O: p.O, Path: []int{i}})
			}
		}
	}
	for _, id := range st.Objects() {
		o := st.Obj(id)
		if o.Arr != nil && in.ProbeElem(o.T) && len(o.Arr.Cells) == 2 {
			for _, c := range o.Arr.Cells {
				s := c.V.(ai.Sym)
				in.Rigid[s.ID] = true
				v.probes = append(v.probes, s)
			}
			break
		}
	}
	if len(v.probes) != 2 {
		panic(ai.Undecided{Msg: "the heads of the trie were not found", Pos: v.fn.Pos()})
	}
	st.Ghost["first"], st.Ghost["second"] = ai.Str{}, ai.Str{}
	st.Ghost["started"] = ai.Int{L: ai.K(0)}
}

// head: one of the tries below the heads is traversed.
func (v *view) head(st *ai.State, n ai.Val) {
	st.Ghost["started"] = ai.Int{L: intv(st.Ghost["started"]).AddK(1)}
	s, _ := unwrapPtr(st, n).(ai.Sym)
	for i, g := range []string{"first", "second"} {
		if s.ID != v.probes[i].ID {
			continue
		}
		if str(st, g) != "" {
			v.bad(st, "traverses the same part of the trie twice")
		}
		if i == 0 && str(st, "second") != "" {
			v.bad(st, "traverses a part of the trie after a later one")
		}
		st.Ghost[g] = ai.Str{S: "done"}
	}
}

func (v *view) headsDone(st *ai.State, list ai.Val) {
	if v.probes == nil {
		return
	}
	for i, g := range []string{"first", "second"} {
		if str(st, g) == "" && isNil(st, v.probes[i]) != ai.T {
			v.bad(st, "may leave out a part of the trie")
		}
	}
	n := ai.K(0)
	if s, ok := st.Resolve(list).(ai.Slice); ok {
		n = s.Len
	}
	if !st.EqLin(n, intv(st.Ghost["started"])) {
		v.bad(st, "does not use every traversal it started")
	}
}

// unwrapPtr: the value inside interfaces.
func unwrapPtr(st *ai.State, v ai.Val) ai.Val {
	v = st.Resolve(v)
	for {
		i, ok := v.(ai.Iface)
		if !ok {
			return v
		}
		v = st.Resolve(i.V)
	}
}

// isSource: functions whose iterations are decided by themselves.
func (v *view) isSource(fn *ssa.Function) bool {
	switch v.c.P.Rel(fn.Pkg.Pkg) {
	case "tree":
		return fn.Signature.Recv() == nil && fn.Parent() == nil
	case "types":
		return fn.Name() == "ChainTreeNodeIterators"
	case "hashtable", "trie":
		return fn.Name() == "Iterate" && fn.Signature.Recv() != nil
	case "tree/bptree":
		s, _ := iterType(fn.Signature.Results().At(0).Type())
		_, isInt := s.Results().At(0).Type().Underlying().(*types.Basic)
		return isInt && fn.Parent() == nil
	}
	return false
}

func (v *view) equals(st *ai.State, s ai.Sym, o ai.Val) ([]ai.Outcome, bool) {
	o = unwrap(st, o)
	if _, ok := o.(ai.Nil); ok {
		return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: false}}}}}, true
	}
	if t, ok := o.(ai.Sym); ok {
		return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Bool{C: ai.COrd{A: s.ID, B: t.ID, M: ai.EQ}}}}}, true
	}
	return nil, false
}

// fromChain: one of several sources is asked.
func (v *view) fromChain(st *ai.State, f ai.Sym, info *ai.SymInfo, ci *ai.CallInfo) []ai.Outcome {
	cur, at := intv(st.Ghost["cur"]), intv(info.Args[0])
	if !st.EqLin(cur, at) {
		v.bad(st, "asks iteration %s when it is the turn of %s", st.Show(ai.Int{L: at}), st.Show(ai.Int{L: cur}))
	}
	var out []ai.Outcome
	for _, st := range v.settle(st) {
		q := st.Clone()
		q.Ghost["cur"] = ai.Int{L: cur.AddK(1)}
		y, n := q.Branch(ai.CLe{L: v.n.Sub(cur).AddK(-1)})
		if y != nil {
			y.Ghost["ended"] = ai.Str{S: "yes"}
			out = append(out, ai.Outcome{St: y, Rets: nils(2)})
		}
		if n != nil {
			out = append(out, ai.Outcome{St: n, Rets: nils(2)})
		}
		for _, d := range v.element(st, ci.Sig) {
			out = append(out, ai.Outcome{St: d.St, Rets: append(d.Rets, f)})
		}
	}
	return out
}

func (c *Ctx) views() {
	var parts []func(c *Ctx)
	add := func(pkg, typ, name string, f func(v *view, st *ai.State, self ai.Val)) {
		var fn *ssa.Function
		key := pkg + "." + name
		if typ != "" {
			key = pkg + "." + typ + "." + name
			fn = c.P.M(pkg, typ, name)
		} else {
			fn = c.P.Func(pkg, name)
		}
		if fn == nil {
			c.R.Fail("anchor", key, "", "anchor not found in the tree")
			return
		}
		if o := os.Getenv("DSV_ONLY"); o != "" && !strings.Contains(key, o) {
			return
		}
		parts = append(parts, func(c *Ctx) {
			c.R.Count("iterators", 1)
			c.Guard("view", key, fn.Pos(), func() {
				v := &view{c: c, in: c.Interp(), key: key, fn: fn, ok: true}
				defer c.Done(v.in)
				v.in.Tail = true
				v.in.Rigid = map[int]bool{}
				v.in.H.Call = v.call
				v.in.H.Fold = func(st *ai.State) {
					// an element passed over is settled before the next round
					if p, ok := st.Ghost["pend"].(ai.Tuple); ok && v.kind == "trie" {
						if b, ok := st.Resolve(p.V[2]).(ai.Bool); ok && st.Eval(b.C) == ai.F {
							st.Ghost["pend"] = ai.Nil{}
						}
					}
					if p, ok := st.Ghost["pend"].(ai.Tuple); ok && v.uniq {
						k, ok1 := st.Resolve(p.V[0]).(ai.Sym)
						l, ok2 := st.Resolve(st.Ghost["last"]).(ai.Sym)
						if ok1 && ok2 && (k.ID == l.ID || st.Possible(k.ID, l.ID) == ai.EQ) {
							st.Ghost["pend"] = ai.Nil{}
						}
					}
				}
				st := v.in.NewState()
				for _, g := range []string{"src", "pend", "last", "prevend"} {
					st.Ghost[g] = ai.Nil{}
				}
				st.Ghost["ended"] = ai.Str{S: "no"}
				var self ai.Val
				if fn.Signature.Recv() != nil {
					self = v.in.Fresh(st, fn.Signature.Recv().Type(), "self")
					nonNil(st, self)
					st.Ghost["self"] = self
				}
				f(v, st, self)
				if v.ok {
					c.R.OK("view", key, c.P.Pos(fn.Pos()))
				}
			})
		})
	}
	drive := func(v *view, st *ai.State, args ...ai.Val) {
		T := v.fn.Signature.Results().At(0).Type()
		drv := v.c.client(map[string]string{"KVIterator": "WalkKV", "KIterator": "WalkK", "Iterator": "WalkV", "TreeNodeIterator": "WalkN"}[namedOf(T).Obj().Name()])
		for _, o := range v.in.CallFunc(st, nil, v.fn, args, nil, v.fn.Pos()) {
			if o.Panic != nil {
				v.bad(o.St, "may crash: %s", o.Panic.Msg)
				continue
			}
			if isNil(o.St, o.Rets[0]) == ai.T && v.fn.Name() == "ChainTreeNodeIterators" && o.St.EqLin(v.n, ai.K(0)) {
				continue // nothing to iterate over
			}
			for _, d := range v.in.CallFunc(o.St, nil, drv, []ai.Val{o.Rets[0]}, nil, drv.Pos()) {
				if d.Panic != nil {
					v.bad(d.St, "iterating may crash: %s (%s)", d.Panic.Msg, v.c.P.Pos(d.Panic.Pos))
				}
			}
		}
	}
	fresh := func(v *view, st *ai.State) (args []ai.Val) {
		ps := v.fn.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			a := v.in.Fresh(st, ps.At(i).Type(), ps.At(i).Name())
			nonNil(st, a)
			args = append(args, a)
		}
		return
	}
	want := map[string]string{"Keys": "key", "Values": "value", "Items": "item"}
	add("types", "", "MakeKVIteratorFromTreeNodeIterator", func(v *view, st *ai.State, _ ai.Val) {
		v.want = "entry"
		drive(v, st, v.source(st, v.fn.Signature.Params().At(0).Type(), v.fn.Pos()))
	})
	for n, w := range map[string]string{"MakeKeysIterator": "key", "MakeValuesIterator": "value", "MakeItemsIterator": "item"} {
		w := w
		add("types", "", n, func(v *view, st *ai.State, _ ai.Val) {
			v.want = w
			drive(v, st, fresh(v, st)...)
		})
	}
	add("types", "", "ChainTreeNodeIterators", func(v *view, st *ai.State, _ ai.Val) {
		v.want = "node"
		T := v.fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		v.n = v.in.NewAtom("iterations")
		st.AddLe(v.n.Neg())
		a := st.NewArr(T, v.n, ai.DefSym, false, "sources")
		v.srcs = a.ID
		v.in.Indexed = map[string]bool{"source": true}
		v.in.H.NewIndexed = func(st *ai.State, s ai.Sym) { st.NonNil(s) }
		v.in.Pure = func(o *ai.Obj) bool { return o.ID == a.ID }
		v.in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
			if o.ID != a.ID {
				return nil, false
			}
			s := v.in.App(st, "source", T, ai.Int{L: idx})
			nonNil(st, s)
			return s, true
		}
		st.Ghost["cur"] = ai.Int{L: ai.K(0)}
		st.Ghost["n"] = ai.Int{L: v.n}
		y, n := st.Branch(ai.CEq{L: v.n})
		for _, q := range []*ai.State{y, n} {
			if q == nil {
				continue
			}
			if q == y {
				q.Ghost["ended"] = ai.Str{S: "yes"}
			}
			drive(v, q, ai.Slice{Arr: a.ID, Off: ai.K(0), Len: v.n, Cap: v.n})
		}
	})
	for _, t := range []string{"Hash", "LinearHash"} {
		for _, m := range []string{"Keys", "Values", "Items"} {
			m := m
			add("hashtable", t, m, func(v *view, st *ai.State, self ai.Val) {
				v.want = want[m]
				drive(v, st, self)
			})
		}
	}
	for _, t := range []string{"Avl", "ImmutableAvl"} {
		for _, e := range []string{"Tree", "Node"} {
			for _, m := range []string{"Iterate", "Keys", "Values", "Items"} {
				t, e, m := t, e, m
				if c.P.M("tree/avl", t+e, m) == nil && e == "Node" && m == "Items" {
					continue
				}
				add("tree/avl", t+e, m, func(v *view, st *ai.State, self ai.Val) {
					v.want = "entry"
					if m != "Iterate" {
						v.want = want[m]
					}
					v.elem = v.c.P.Named("tree/avl", t+"Node")
					drive(v, st, self)
				})
			}
		}
	}
	for _, m := range []string{"Iterate", "PrefixFind", "Keys", "Values", "Items"} {
		m := m
		add("trie", "TST", m, func(v *view, st *ai.State, self ai.Val) {
			v.want = "entry"
			if w := want[m]; w != "" {
				v.want = w
			} else {
				v.elem, v.kind = v.c.P.Named("trie", "TSTNode"), "trie"
				if m == "Iterate" {
					v.heads(st, self)
				}
				if m == "PrefixFind" {
					st.Ghost["ended"] = ai.Str{S: "nothing found"}
				}
			}
			drive(v, st, append([]ai.Val{self}, fresh(v, st)...)...)
		})
	}
	for _, t := range []string{"BpTree", "BpMap"} {
		for _, m := range []string{"Iterate", "Backward", "Range", "Find", "Keys", "Values", "Items"} {
			m := m
			if c.P.M("tree/bptree", t, m) == nil && t == "BpMap" {
				continue
			}
			add("tree/bptree", t, m, func(v *view, st *ai.State, self ai.Val) {
				v.want = "entry"
				if w := want[m]; w != "" {
					v.want = w
				}
				v.uniq = m == "Keys"
				drive(v, st, append([]ai.Val{self}, fresh(v, st)...)...)
			})
		}
	}
	for _, m := range []string{"Iterate", "Keys", "Values", "Items"} {
		m := m
		add("set", "MapSet", m, func(v *view, st *ai.State, self ai.Val) {
			v.want, v.kind = "entry", "entries"
			if w := want[m]; w != "" {
				v.want = w
			}
			drive(v, st, self)
		})
	}
	add("set", "SetMap", "Items", func(v *view, st *ai.State, self ai.Val) {
		v.want = "key"
		drive(v, st, self)
	})
	// iterators over arrays, by position
	for _, x := range []struct{ pkg, typ, name string }{
		{"list", "List", "Items"}, {"list", "List", "ItemsInReverse"}, {"list", "Sorted", "Items"}, {"list", "Sorted", "ItemsInReverse"},
		{"set", "SortedSet", "Items"}, {"heap", "Heap", "Items"},
	} {
		x := x
		add(x.pkg, x.typ, x.name, func(v *view, st *ai.State, _ ai.Val) { v.positions(st, strings.Contains(x.name, "Reverse")) })
	}
	// the children of tree nodes
	add("types", "", "MakeChildrenIterator", func(v *view, st *ai.State, _ ai.Val) {
		n := fresh(v, st)[0]
		v.children(st, n, func(st *ai.State) (out []ai.Val) {
			for _, m := range []string{"Left", "Right"} {
				out = append(out, v.in.App(st, m, v.fn.Signature.Params().At(0).Type(), n))
			}
			return
		})
	})
	for _, x := range []struct {
		pkg, typ string
		kids     []string
	}{{"tree/avl", "AvlNode", []string{"left", "right"}}, {"tree/avl", "ImmutableAvlNode", []string{"left", "right"}}, {"trie", "TSTNode", []string{"l", "m", "r"}}} {
		x := x
		add(x.pkg, x.typ, "Children", func(v *view, st *ai.State, _ ai.Val) {
			v.elem = v.c.P.Named(x.pkg, x.typ)
			o := st.NewObj(v.elem, v.in.Fresh(st, v.elem, "node"), false, "node")
			v.children(st, ai.Ptr{O: o.ID}, func(st *ai.State) (out []ai.Val) {
				for _, f := range x.kids {
					out = append(out, v.load(st, o.ID, f))
				}
				return
			})
		})
	}
	c.Parallel(parts...)
}

// children: the children that are there are shown in order.
func (v *view) children(st *ai.State, node ai.Val, kids func(st *ai.State) []ai.Val) {
	type pre struct {
		st   *ai.State
		kids []ai.Val
	}
	pres := []pre{{st, nil}}
	for i, k := range kids(st) {
		st.Ghost[fmt.Sprintf("kid %d", i)] = k
		var next []pre
		for _, p := range pres {
			y, n := splitNil(p.st, k)
			if y != nil {
				next = append(next, pre{y, p.kids})
			}
			if n != nil {
				next = append(next, pre{n, append(append([]ai.Val(nil), p.kids...), k)})
			}
		}
		pres = next
	}
	st.Ghost["node"] = node
	base := v.in.H.Call
	drv := v.c.client("WalkN")
	for _, p := range pres {
		p := p
		v.in.H.Call = func(q *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.Method != nil && (ci.Method.Name() == "Left" || ci.Method.Name() == "Right") {
				return []ai.Outcome{{St: q, Rets: []ai.Val{v.in.App(q, ci.Method.Name(), ci.Sig.Results().At(0).Type(), ci.Recv)}}}, true
			}
			if ci.Fn != nil && ci.Fn.Name() == "IsNil" && len(ci.Args) == 1 {
				switch x := unwrapPtr(q, ci.Args[0]).(type) {
				case ai.Sym:
					return []ai.Outcome{{St: q, Rets: []ai.Val{ai.Bool{C: ai.CNil{ID: x.ID}}}}}, true
				case ai.Nil, ai.Ptr:
					_, isNil := x.(ai.Nil)
					return []ai.Outcome{{St: q, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: isNil}}}}}, true
				}
			}
			if ci.Fn == nil || ci.Fn.Pkg != v.c.P.Driver {
				return base(q, ci)
			}
			n := len(str(q, "shown"))
			switch ci.Fn.Name() {
			case "Kid":
				if n >= len(p.kids) {
					v.bad(q, "may show more children than there are")
				} else if !sameVal(q, unwrapPtr(q, ci.Args[0]), unwrapPtr(q, p.kids[n])) {
					v.bad(q, "shows %s as child %d", q.Show(ci.Args[0]), n)
				}
				if n < 9 {
					q.Ghost["shown"] = ai.Str{S: str(q, "shown") + "."}
				}
			case "Over":
				if n != len(p.kids) {
					v.bad(q, "shows %d of %d children", n, len(p.kids))
				}
			default:
				return nil, false
			}
			return []ai.Outcome{{St: q}}, true
		}
		p.st.Ghost["shown"] = ai.Str{}
		for _, o := range v.in.CallFunc(p.st, nil, v.fn, []ai.Val{node}, nil, v.fn.Pos()) {
			if o.Panic != nil {
				v.bad(o.St, "may crash: %s", o.Panic.Msg)
				continue
			}
			for _, d := range v.in.CallFunc(o.St, nil, drv, []ai.Val{o.Rets[0]}, nil, drv.Pos()) {
				if d.Panic != nil {
					v.bad(d.St, "iterating may crash: %s (%s)", d.Panic.Msg, v.c.P.Pos(d.Panic.Pos))
				}
			}
		}
	}
}

// contents makes a value whose items are an array of n items.
func (v *view) contents(st *ai.State, T types.Type, n ai.Lin) (ai.Val, bool) {
	in := v.in
	switch U := T.Underlying().(type) {
	case *types.Pointer:
		if w, ok := v.contents(st, U.Elem(), n); ok {
			return ai.Ptr{O: st.NewObj(U.Elem(), w, false, "self").ID}, true
		}
	case *types.Struct:
		w := in.Fresh(st, T, "self").(ai.Struct)
		found := false
		for i := 0; i < U.NumFields(); i++ {
			F := U.Field(i).Type()
			if s, ok := F.Underlying().(*types.Slice); ok && !found {
				if _, isStruct := s.Elem().Underlying().(*types.Struct); isStruct || types.IsInterface(s.Elem()) {
					cp := in.NewAtom("cap")
					st.AddLe(n.Sub(cp))
					a := st.NewArr(s.Elem(), cp, ai.DefSym, false, "items")
					w.F[i] = ai.Slice{Arr: a.ID, Off: ai.K(0), Len: n, Cap: cp}
					found = true
				}
			} else if nm := namedOf(F); nm != nil && v.c.P.InRepoPkg(nm.Obj().Pkg()) && !types.IsInterface(F) && !found {
				if x, ok := v.contents(st, F, n); ok {
					w.F[i] = x
					found = true
				}
			}
		}
		return w, found
	}
	return nil, false
}

// positions: the i-th item shown is the i-th one held.
func (v *view) positions(st *ai.State, reverse bool) {
	in := v.in
	n := in.NewAtom("size")
	st.AddLe(n.Neg())
	self, ok := v.contents(st, v.fn.Signature.Recv().Type(), n)
	if !ok {
		panic(ai.Undecided{Msg: "no array of items found"})
	}
	st.Ghost["self"], st.Ghost["n"] = self, ai.Int{L: n}
	in.Indexed = map[string]bool{"at": true, "with": true}
	in.Pure = func(o *ai.Obj) bool { return o.Arr != nil && o.Name == "items" }
	any := types.NewInterfaceType(nil, nil)
	item := func(st *ai.State, i ai.Lin) ai.Val { return in.App(st, "at", any, ai.Int{L: i}) }
	in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
		if o.Name != "items" {
			return nil, false
		}
		S, ok := o.T.Underlying().(*types.Struct)
		if !ok {
			return item(st, idx), true
		}
		w := ai.Struct{F: make([]ai.Val, S.NumFields())}
		for i := range w.F {
			if types.IsInterface(S.Field(i).Type()) {
				w.F[i] = item(st, idx)
			} else {
				w.F[i] = in.Fresh(st, S.Field(i).Type(), "other field")
			}
		}
		return w, true
	}
	base := in.H.Call
	in.H.Call = func(q *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if ci.Fn == nil || ci.Fn.Pkg != v.c.P.Driver {
			return base(q, ci)
		}
		switch ci.Fn.Name() {
		case "Nth", "NthV":
			i := intv(ci.Args[0])
			if reverse {
				i = n.Sub(i).AddK(-1)
			}
			if q.Eval(ai.CLe{L: i.Neg()}) != ai.T || q.Eval(ai.CLe{L: i.AddK(1).Sub(n)}) != ai.T {
				v.bad(q, "may show more items than there are")
			} else if !v.same(q, ci.Args[1], item(q, i)) {
				v.bad(q, "shows %s instead of the item at %s", q.Show(ci.Args[1]), q.Show(ai.Int{L: i}))
			}
		case "Done":
			if !q.EqLin(intv(ci.Args[0]), n) {
				v.bad(q, "ends after %s of %s items", q.Show(ci.Args[0]), q.Show(ai.Int{L: n}))
			}
		default:
			return nil, false
		}
		return []ai.Outcome{{St: q}}, true
	}
	drv := v.c.client("Walk")
	if namedOf(v.fn.Signature.Results().At(0).Type()).Obj().Name() == "Iterator" {
		drv = v.c.client("WalkNthV")
	}
	for _, o := range in.CallFunc(st, nil, v.fn, []ai.Val{self}, nil, v.fn.Pos()) {
		if o.Panic != nil {
			v.bad(o.St, "may crash: %s", o.Panic.Msg)
			continue
		}
		for _, d := range in.CallFunc(o.St, nil, drv, []ai.Val{o.Rets[0]}, nil, drv.Pos()) {
			if d.Panic != nil {
				v.bad(d.St, "iterating may crash: %s (%s)", d.Panic.Msg, v.c.P.Pos(d.Panic.Pos))
			}
		}
	}
}
