package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"dsv/ai"
	"dsv/pts"

	"golang.org/x/tools/go/ssa"
)

func init() {
	const how = "Abstract interpretation of the AVL tree code with subtrees summarised by their in-order words. Every recursive function is analysed on a node with arbitrary subtrees, its calls on the subtrees replaced by the contract it is itself checked against."
	register("C06", how, func(c *Ctx) {
		c.R.Rule("word", "the in-order word of the tree afterwards is the sorted word before with the one entry inserted, replaced or removed")
		c.R.Rule("answer", "lookups answer with the value of the entry with that key, failures and flags tell whether there was one")
		c.R.Assume("Equals and Less of the keys form a total order (C25)")
		c.R.Assume("termination is not decided")
		c.avls(false)
		c.R.Floor("contracts", 28)
	})
	register("C01", how, func(c *Ctx) {
		c.R.Rule("frozen", "no store goes to a node that existed before the operation")
		c.R.Assume("Equals and Less of the keys form a total order (C25)")
		c.R.Rule("snapshot", "an iterator, once created, reads only nodes: never the tree's root field")
		c.avls(true)
		c.avlSnapshots()
		c.R.Floor("contracts", 13)
		c.R.Floor("stores seen", 10)
		c.R.Floor("iterators", 4)
	})
}

// A word is the in-order sequence of a tree's entries; parts that are not spelled out are tokens.
type wItem struct {
	tok int    // token, or 0
	key int    // symbol of the key
	val ai.Val // value
}

type avlExpose struct {
	left bool // the exposed node is the leftmost (else the rightmost)
	node int  // object
	rest int  // the word without it
	hid  int  // its other subtree
}

// avlWorld is what is known about words; never changed in place.
type avlWorld struct {
	defs    map[int][]wItem // tokens taken apart
	seals   map[int][]wItem // words of tokens put together by contracts
	without map[int]int     // key known not to be in a token
	lo, hi  map[int][]int   // keys below and above everything in a token
	expose  map[int]avlExpose
	gone    map[int]bool // subtrees handed over
	lost    map[int]bool // objects handed over
	fresh   map[int]bool // tokens whose root is new
	folds   map[ssa.Value]*avlFold
}

type avlFold struct {
	tok   int
	world *avlWorld
}

func (w *avlWorld) clone() *avlWorld {
	n := &avlWorld{map[int][]wItem{}, map[int][]wItem{}, map[int]int{}, map[int][]int{}, map[int][]int{}, map[int]avlExpose{}, map[int]bool{}, map[int]bool{}, map[int]bool{}, map[ssa.Value]*avlFold{}}
	for k, v := range w.defs {
		n.defs[k] = v
	}
	for k, v := range w.seals {
		n.seals[k] = v
	}
	for k, v := range w.without {
		n.without[k] = v
	}
	for k, v := range w.lo {
		n.lo[k] = v
	}
	for k, v := range w.hi {
		n.hi[k] = v
	}
	for k, v := range w.expose {
		n.expose[k] = v
	}
	for k := range w.gone {
		n.gone[k] = true
	}
	for k := range w.lost {
		n.lost[k] = true
	}
	for k := range w.fresh {
		n.fresh[k] = true
	}
	for k, v := range w.folds {
		n.folds[k] = v
	}
	return n
}

// avl analyses the functions of one node type.
type avl struct {
	c              *Ctx
	N              *types.Named
	T              types.Type // pointer to N
	fl, fr, fk, fv int
	frozen         bool // nodes never change
	only           bool // decide only that they do not
	done           map[string]bool
	ends           map[string]string
	loop           map[*ssa.Function]bool
	todo           []func()
	stores         map[ssa.Instruction]bool
}

// avlRun is one analysis.
type avlRun struct {
	*avl
	in      *ai.Interp
	key     string
	fn      *ssa.Function
	root    int // token of the tree under analysis
	start   *avlWorld
	look    int    // key looked up, or 0
	extreme string // the end looked for
	quiet   bool
	ok      bool
}

func words(st *ai.State) *avlWorld { return st.World.(*avlWorld) }

func edit(st *ai.State, f func(w *avlWorld)) {
	w := words(st).clone()
	f(w)
	st.World = w
}

func (a *avlRun) undecided(f string, args ...interface{}) {
	panic(ai.Undecided{Msg: fmt.Sprintf(f, args...), Pos: a.fn.Pos()})
}

func (a *avlRun) bad(rule string, st *ai.State, pos token.Pos, f string, args ...interface{}) {
	if a.only && rule != "frozen" {
		return
	}
	a.ok = false
	if a.quiet {
		return
	}
	if !pos.IsValid() {
		pos = a.fn.Pos()
	}
	a.c.R.Fail(rule, a.key, a.c.P.Pos(pos), fmt.Sprintf(f, args...), a.c.Path(st)...)
}

// token makes an unknown subtree.
func (a *avlRun) token(name string) ai.Sym { return a.in.NewSym(a.T, name) }

func (a *avlRun) show(st *ai.State, w []wItem) string {
	var s []string
	for _, x := range w {
		if x.tok != 0 {
			s = append(s, st.Show(ai.Sym{ID: x.tok}))
		} else {
			s = append(s, "("+st.Show(ai.Sym{ID: x.key})+": "+st.Show(x.val)+")")
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// expand spells a word out as far as it is known.
func (a *avlRun) expand(w *avlWorld, items []wItem) []wItem {
	var out []wItem
	for _, x := range items {
		switch {
		case x.tok == 0:
			out = append(out, x)
		case w.defs[x.tok] != nil:
			out = append(out, a.expand(w, w.defs[x.tok])...)
		case w.seals[x.tok] != nil:
			out = append(out, a.expand(w, w.seals[x.tok])...)
		default:
			out = append(out, x)
		}
	}
	return out
}

// dropper leaves out the tokens known to be empty.
func (a *avlRun) dropper(st *ai.State) func(items []wItem) []wItem {
	w := words(st)
	empty := map[int]bool{}
	for _, m := range []map[int][]wItem{w.defs, w.seals} {
		for t, d := range m {
			if isNil(st, ai.Sym{ID: t}) == ai.T {
				for _, x := range a.expand(w, d) {
					empty[x.tok] = true
				}
			}
		}
	}
	return func(items []wItem) []wItem {
		var out []wItem
		for _, x := range items {
			if x.tok == 0 || !empty[x.tok] && isNil(st, ai.Sym{ID: x.tok}) != ai.T {
				out = append(out, x)
			}
		}
		return out
	}
}

// settle puts tokens that were taken apart after a contract made them together again, and spells them
// out by the contract.
func (a *avlRun) settle(st *ai.State, items []wItem) []wItem {
	w := words(st)
	drop := a.dropper(st)
	items = drop(a.expand(w, items))
	for again := true; again; {
		again = false
		for t := range w.seals {
			if w.defs[t] == nil {
				continue
			}
			part := drop(a.expand(w, w.defs[t]))
			for i := 0; len(part) > 0 && i+len(part) <= len(items); i++ {
				if a.same(st, items[i:i+len(part)], part) {
					sealed := drop(a.expand(w, w.seals[t]))
					items = append(append(append([]wItem(nil), items[:i]...), sealed...), items[i+len(part):]...)
					again = true
					break
				}
			}
		}
	}
	return items
}

func (a *avlRun) same(st *ai.State, x, y []wItem) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].tok != y[i].tok || x[i].tok == 0 && (st.Possible(x[i].key, y[i].key) != ai.EQ || !sameVal(st, x[i].val, y[i].val)) {
			return false
		}
	}
	return true
}

// entry is what a node object holds.
func (a *avlRun) entry(st *ai.State, o int) wItem {
	k, ok := st.Resolve(st.FieldOf(o, a.fk)).(ai.Sym)
	v := st.FieldOf(o, a.fv)
	if !ok || v == nil {
		a.undecided("a node without a key")
	}
	return wItem{key: k.ID, val: st.Resolve(v)}
}

// word is the current in-order word of a tree.
func (a *avlRun) word(st *ai.State, v ai.Val) []wItem {
	seen := map[int]bool{}
	var walk func(v ai.Val) []wItem
	walk = func(v ai.Val) []wItem {
		switch x := st.Resolve(v).(type) {
		case ai.Nil:
			return nil
		case ai.Ptr:
			if seen[x.O] {
				a.undecided("a node that is part of a tree twice")
			}
			if words(st).lost[x.O] {
				a.undecided("a node that was handed over is used again")
			}
			seen[x.O] = true
			l := walk(st.FieldOf(x.O, a.fl))
			return append(append(l, a.entry(st, x.O)), walk(st.FieldOf(x.O, a.fr))...)
		case ai.Sym:
			w := words(st)
			if w.gone[x.ID] {
				a.undecided("a subtree that was handed over is used again")
			}
			if e, ok := w.expose[x.ID]; ok {
				if seen[e.node] {
					a.undecided("a node that is part of a tree twice")
				}
				seen[e.node] = true
				near, far := a.fl, a.fr
				if !e.left {
					near, far = a.fr, a.fl
				}
				if h, ok := st.Resolve(st.FieldOf(e.node, far)).(ai.Sym); !ok || h.ID != e.hid {
					a.undecided("the inner side of an inner node was changed")
				}
				n := walk(st.FieldOf(e.node, near))
				if e.left {
					return append(append(n, a.entry(st, e.node)), wItem{tok: e.rest})
				}
				return append([]wItem{{tok: e.rest}, a.entry(st, e.node)}, n...)
			}
			return []wItem{{tok: x.ID}}
		}
		a.undecided("not a tree: %s", st.Show(v))
		return nil
	}
	return walk(v)
}

// node makes a node object.
func (a *avlRun) node(st *ai.State, key, val, left, right ai.Val, fresh bool, name string) int {
	s := a.N.Underlying().(*types.Struct)
	v := ai.Struct{F: make([]ai.Val, s.NumFields())}
	for i := range v.F {
		v.F[i] = a.in.Fresh(st, s.Field(i).Type(), name+"."+s.Field(i).Name())
	}
	v.F[a.fk], v.F[a.fv], v.F[a.fl], v.F[a.fr] = key, val, left, right
	return st.NewObj(a.N, v, fresh, name).ID
}

func (a *avlRun) newKey(st *ai.State, name string) ai.Sym {
	k := a.in.NewSym(a.c.hashable(), name)
	st.NonNil(k)
	return k
}

// within places a key between the keys known to be around a token.
func within(st *ai.State, w *avlWorld, tok, key int) bool {
	for _, k := range w.lo[tok] {
		if !st.SetOrd(k, key, ai.LT) {
			return false
		}
	}
	for _, k := range w.hi[tok] {
		if !st.SetOrd(key, k, ai.LT) {
			return false
		}
	}
	return true
}

func with(ks []int, k ...int) []int { return append(append([]int(nil), ks...), k...) }

// open takes a non-empty subtree apart into its root and two subtrees.
func (a *avlRun) open(st *ai.State, s ai.Sym, cut string) ai.Ptr {
	w := words(st)
	if w.gone[s.ID] {
		a.undecided("a subtree that was handed over is used again")
	}
	if _, ok := w.expose[s.ID]; ok {
		a.undecided("a subtree is taken apart after one of its inner nodes was")
	}
	if w.defs[s.ID] != nil && w.seals[s.ID] == nil {
		a.undecided("a subtree is taken apart twice")
	}
	n := st.Show(s)
	k, v := a.newKey(st, "key of "+n), a.in.NewSym(types.NewInterfaceType(nil, nil), "value of "+n)
	var l, r ai.Val = ai.Nil{}, ai.Nil{}
	def := []wItem{{key: k.ID, val: v}}
	edit(st, func(w *avlWorld) {
		if !within(st, w, s.ID, k.ID) {
			a.undecided("no key fits into a subtree")
		}
		no := w.without[s.ID]
		if no != 0 {
			st.SetOrd(k.ID, no, ai.LT|ai.GT)
		}
		if cut != "left" {
			t := a.token("left of " + n)
			l = t
			w.without[t.ID] = no
			w.lo[t.ID], w.hi[t.ID] = w.lo[s.ID], with(w.hi[s.ID], k.ID)
			def = append([]wItem{{tok: t.ID}}, def...)
		}
		if cut != "right" {
			t := a.token("right of " + n)
			r = t
			w.without[t.ID] = no
			w.lo[t.ID], w.hi[t.ID] = with(w.lo[s.ID], k.ID), w.hi[s.ID]
			def = append(def, wItem{tok: t.ID})
		}
		w.defs[s.ID] = def
	})
	o := a.node(st, k, v, l, r, w.fresh[s.ID], "root of "+n)
	p := ai.Ptr{O: o}
	st.Bind(s, p)
	return p
}

// split divides a word at a key.
type avlSplit struct {
	st          *ai.State
	left, right []wItem
	hit         *wItem
}

func (a *avlRun) split(st *ai.State, items []wItem, key int) []avlSplit {
	w := words(st)
	items = a.dropper(st)(a.expand(w, items))
	for i, x := range items {
		if x.tok == 0 {
			m := st.Possible(x.key, key)
			if m == ai.LT || m == ai.EQ || m == ai.GT {
				continue
			}
			var out []avlSplit
			for _, b := range []uint8{ai.LT, ai.EQ, ai.GT} {
				if m&b == 0 {
					continue
				}
				if q := st.Clone(); q.SetOrd(x.key, key, b) {
					out = append(out, a.split(q, items, key)...)
				}
			}
			return out
		}
		if a.side(st, items, i, key) != 0 {
			continue
		}
		// the key may be anywhere inside this one
		var out []avlSplit
		for _, has := range []bool{false, true} {
			if no := w.without[x.tok]; has && no != 0 && st.Possible(no, key) == ai.EQ {
				continue
			}
			q := st.Clone()
			n := q.Show(ai.Sym{ID: x.tok})
			l, r := a.token("part of "+n+" below"), a.token("part of "+n+" above")
			def := []wItem{{tok: l.ID}}
			good := true
			edit(q, func(w *avlWorld) {
				if has {
					k := a.newKey(q, "key in "+n)
					v := a.in.NewSym(types.NewInterfaceType(nil, nil), "value in "+n)
					good = within(q, w, x.tok, k.ID) && q.SetOrd(k.ID, key, ai.EQ)
					def = append(def, wItem{key: k.ID, val: v})
				}
				def = append(def, wItem{tok: r.ID})
				w.lo[l.ID], w.hi[l.ID] = w.lo[x.tok], with(w.hi[x.tok], key)
				w.lo[r.ID], w.hi[r.ID] = with(w.lo[x.tok], key), w.hi[x.tok]
				w.defs[x.tok] = def
			})
			if good {
				out = append(out, a.split(q, items, key)...)
			}
		}
		return out
	}
	r := avlSplit{st: st}
	for i, x := range items {
		switch a.side(st, items, i, key) {
		case -1:
			r.left = append(r.left, x)
		case 1:
			r.right = append(r.right, x)
		default:
			y := x
			r.hit = &y
		}
	}
	return []avlSplit{r}
}

// side tells where an item of a sorted word lies from a key: -1, 1 or 0 (the entry itself, or anywhere).
func (a *avlRun) side(st *ai.State, items []wItem, i, key int) int {
	x := items[i]
	if x.tok == 0 {
		switch st.Possible(x.key, key) {
		case ai.LT:
			return -1
		case ai.GT:
			return 1
		}
		return 0
	}
	w := words(st)
	for _, k := range w.hi[x.tok] {
		if st.Possible(k, key)&ai.GT == 0 {
			return -1
		}
	}
	for _, k := range w.lo[x.tok] {
		if st.Possible(k, key)&ai.LT == 0 {
			return 1
		}
	}
	for _, y := range items[i+1:] {
		if y.tok == 0 && st.Possible(y.key, key)&ai.GT == 0 {
			return -1
		}
	}
	for _, y := range items[:i] {
		if y.tok == 0 && st.Possible(y.key, key)&ai.LT == 0 {
			return 1
		}
	}
	return 0
}

// seal makes a subtree with a given word.
func (a *avlRun) seal(st *ai.State, from ai.Sym, key int, word []wItem, name string) ai.Val {
	if len(word) == 0 {
		return ai.Nil{}
	}
	t := a.token(name)
	edit(st, func(w *avlWorld) {
		w.seals[t.ID] = word
		for _, k := range w.lo[from.ID] {
			if key == 0 || st.Possible(k, key) == ai.LT {
				w.lo[t.ID] = with(w.lo[t.ID], k)
			}
		}
		for _, k := range w.hi[from.ID] {
			if key == 0 || st.Possible(k, key) == ai.GT {
				w.hi[t.ID] = with(w.hi[t.ID], k)
			}
		}
		if !a.frozen {
			w.gone[from.ID] = true
		}
	})
	for _, x := range word {
		if x.tok == 0 {
			st.NonNil(t)
		}
	}
	return t
}

// kind tells from its signature which contract a function of the node type must honour.
func (a *avlRun) kind(fn *ssa.Function) string {
	sig := fn.Signature
	if len(fn.Params) == 0 || !types.Identical(fn.Params[0].Type(), a.T) {
		return ""
	}
	var s []string
	code := func(T types.Type) string {
		switch {
		case types.Identical(T, a.T):
			return "node"
		case types.Identical(T, a.c.hashable()):
			return "key"
		case types.Identical(T, types.Universe.Lookup("error").Type()):
			return "error"
		}
		switch u := T.Underlying().(type) {
		case *types.Interface:
			return "any"
		case *types.Signature:
			return "func"
		case *types.Basic:
			return u.Name()
		}
		return "?"
	}
	for _, p := range fn.Params[1:] {
		s = append(s, code(p.Type()))
	}
	s = append(s, "->")
	for i := 0; i < sig.Results().Len(); i++ {
		s = append(s, code(sig.Results().At(i).Type()))
	}
	switch strings.Join(s, " ") {
	case "key any -> node bool":
		return "put"
	case "key -> node any error":
		return "remove"
	case "key -> any error":
		return "get"
	case "key -> bool":
		return "has"
	case "-> int":
		return "int"
	case "-> node", "func -> node":
		return "extreme"
	case "node -> node", "node -> node node":
		return "move"
	}
	return ""
}

// summarised: calls of the function on unknown subtrees are replaced by its contract.
func (a *avlRun) summarised(fn *ssa.Function, kind string) bool {
	if kind == "int" {
		return true
	}
	if r, ok := a.loop[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, p := range b.Preds {
				if f == fn && b.Dominates(p) {
					return true
				}
			}
			for _, x := range b.Instrs {
				if c, ok := x.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && a.c.P.InRepo(g) && (g == fn || reach(g)) {
						return true
					}
				}
			}
		}
		return false
	}
	a.loop[fn] = reach(fn)
	return a.loop[fn]
}

func (a *avlRun) funcArgs(st *ai.State, args []ai.Val) string {
	s := ""
	for _, v := range args {
		f, ok := st.Resolve(v).(ai.Func)
		if !ok || f.Fn == nil || len(f.Bind) > 0 {
			a.undecided("an unknown function walks down the tree")
		}
		s += " " + f.Fn.String()
	}
	return s
}

// call decides comparisons of keys and replaces calls on unknown subtrees by contracts.
func (a *avlRun) call(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if ci.Method != nil && len(ci.Args) == 1 && (ci.Name() == "Equals" || ci.Name() == "Less") {
		x, ok1 := st.Resolve(ci.Recv).(ai.Sym)
		y, ok2 := st.Resolve(ci.Args[0]).(ai.Sym)
		if ok1 && ok2 {
			m := ai.EQ
			if ci.Name() == "Less" {
				m = ai.LT
			}
			return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Bool{C: ai.COrd{A: x.ID, B: y.ID, M: m}}}}}, true
		}
	}
	if ci.Fn != nil && len(ci.Args) > 0 {
		if s, ok := st.Resolve(ci.Args[0]).(ai.Sym); ok {
			if k := a.kind(ci.Fn); k != "" && a.summarised(ci.Fn, k) {
				isnil, non := splitNil(st, s)
				var out []ai.Outcome
				if isnil != nil {
					out = append(out, a.in.Invoke(isnil, ci.Fn, append([]ai.Val{ai.Nil{}}, ci.Args[1:]...), ci.Bind, ci.Pos)...)
				}
				if non != nil {
					out = append(out, a.contract(non, ci, k, s)...)
				}
				return out, true
			}
		}
	}
	if ci.Fn != nil && len(ci.Args) > 0 && a.kind(ci.Fn) == "extreme" && st.OnStack(ci.Fn) > 0 {
		if p, ok := st.Resolve(ci.Args[0]).(ai.Ptr); ok {
			// the function goes on with a tree it has put together itself
			if a.end(ci.Fn, ci.Args[1:], st) == "same" {
				word := a.settle(st, a.word(st, p))
				t := a.token("what " + ci.Fn.Name() + " makes of its tree")
				st.NonNil(t)
				edit(st, func(w *avlWorld) {
					w.seals[t.ID] = word
					w.lost[p.O] = true
				})
				return []ai.Outcome{{St: st, Rets: []ai.Val{t}}}, true
			}
			if st.OnStack(ci.Fn) > 2 {
				a.undecided("no end of the recursion of %s", ci.Fn.Name())
			}
		}
	}
	return a.c.errorsHook(st, ci)
}

func (a *avlRun) boolean(b bool) ai.Val { return ai.Bool{C: ai.CConst{V: b}} }

func (a *avlRun) failure(st *ai.State) ai.Val {
	return a.in.NewErr(st, types.Universe.Lookup("error").Type(), "error of a subtree")
}

func (a *avlRun) contract(st *ai.State, ci *ai.CallInfo, kind string, s ai.Sym) []ai.Outcome {
	var out []ai.Outcome
	me := []wItem{{tok: s.ID}}
	if words(st).gone[s.ID] {
		a.undecided("a subtree that was handed over is used again")
	}
	if _, ok := words(st).expose[s.ID]; ok && kind != "move" && kind != "int" {
		a.undecided("a subtree is changed after one of its inner nodes was taken")
	}
	if kind != "move" && kind != "extreme" {
		a.need(ci.Fn, kind)
	}
	switch kind {
	case "put":
		k := st.Resolve(ci.Args[1]).(ai.Sym)
		for _, q := range a.split(st, me, k.ID) {
			key := k.ID
			if q.hit != nil {
				key = q.hit.key
			}
			word := append(append(q.left, wItem{key: key, val: q.st.Resolve(ci.Args[2])}), q.right...)
			out = append(out, ai.Outcome{St: q.st, Rets: []ai.Val{a.seal(q.st, s, k.ID, word, "put into "+q.st.Show(s)), a.boolean(q.hit != nil)}})
		}
	case "remove":
		k := st.Resolve(ci.Args[1]).(ai.Sym)
		for _, q := range a.split(st, me, k.ID) {
			if q.hit == nil {
				var t ai.Val = s
				if a.frozen {
					t = a.seal(q.st, s, 0, me, "same as "+q.st.Show(s))
					q.st.NonNil(t.(ai.Sym))
				}
				out = append(out, ai.Outcome{St: q.st, Rets: []ai.Val{t, a.in.NewSym(types.NewInterfaceType(nil, nil), "nothing"), a.failure(q.st)}})
				continue
			}
			out = append(out, ai.Outcome{St: q.st, Rets: []ai.Val{a.seal(q.st, s, 0, append(q.left, q.right...), "rest of "+q.st.Show(s)), q.hit.val, ai.Nil{}}})
		}
	case "get", "has":
		k := st.Resolve(ci.Args[1]).(ai.Sym)
		for _, q := range a.split(st, me, k.ID) {
			rets := []ai.Val{a.boolean(q.hit != nil)}
			if kind == "get" && q.hit == nil {
				rets = []ai.Val{a.in.NewSym(types.NewInterfaceType(nil, nil), "nothing"), a.failure(q.st)}
			} else if kind == "get" {
				rets = []ai.Val{q.hit.val, ai.Nil{}}
			}
			out = append(out, ai.Outcome{St: q.st, Rets: rets})
		}
	case "int":
		v := a.in.Fresh(st, types.Typ[types.Int], "number of "+st.Show(s))
		if a.sized(ci.Fn) {
			v = a.in.App(st, "entries", types.Typ[types.Int], s)
			st.AddLe(intv(v).Neg().AddK(1))
		}
		out = append(out, ai.Outcome{St: st, Rets: []ai.Val{v}})
	case "extreme":
		end := a.end(ci.Fn, ci.Args[1:], st)
		if end == "same" {
			t := a.seal(st, s, 0, me, "same as "+st.Show(s))
			st.NonNil(t.(ai.Sym))
			out = append(out, ai.Outcome{St: st, Rets: []ai.Val{t}})
			break
		}
		out = append(out, a.atEnd(st, s, end)...)
	case "move":
		p, ok := st.Resolve(ci.Args[1]).(ai.Ptr)
		if !ok {
			a.undecided("an unknown node is moved")
		}
		if e, ok := words(st).expose[s.ID]; ok {
			if e.node != p.O {
				a.undecided("another node than the one found at the end is taken out")
			}
			a.need(ci.Fn, "pop")
			near := a.fl
			if !e.left {
				near = a.fr
			}
			if isNil(st, st.FieldOf(p.O, near)) != ai.T {
				a.undecided("the node taken out has been changed")
			}
			rest := ai.Sym{ID: e.rest}
			if ci.Sig.Results().Len() == 2 {
				it := a.entry(st, p.O)
				o := a.node(st, ai.Sym{ID: it.key}, it.val, ai.Nil{}, ai.Nil{}, true, "copy of the end")
				out = append(out, ai.Outcome{St: st, Rets: []ai.Val{rest, ai.Ptr{O: o}}})
				break
			}
			if a.frozen {
				a.undecided("a node is taken out without a copy")
			}
			st.SetField(p.O, []int{a.fl}, ai.Nil{})
			st.SetField(p.O, []int{a.fr}, ai.Nil{})
			edit(st, func(w *avlWorld) {
				w.gone[s.ID] = true
				delete(w.expose, s.ID)
			})
			out = append(out, ai.Outcome{St: st, Rets: []ai.Val{rest}})
			break
		}
		a.need(ci.Fn, "push")
		if ci.Sig.Results().Len() != 1 {
			a.undecided("a node is taken out of a subtree it was not found in")
		}
		o := st.Obj(p.O)
		if isNil(st, st.FieldOf(p.O, a.fl)) != ai.T || isNil(st, st.FieldOf(p.O, a.fr)) != ai.T || words(st).lost[p.O] || a.frozen && !o.Fresh {
			a.undecided("a node that is not a leaf of its own is put into a subtree")
		}
		it := a.entry(st, p.O)
		for _, q := range a.split(st, me, it.key) {
			if q.hit != nil {
				a.undecided("a node is put into a subtree that has its key")
			}
			word := append(append(q.left, it), q.right...)
			t := a.seal(q.st, s, it.key, word, "pushed into "+q.st.Show(s))
			edit(q.st, func(w *avlWorld) { w.lost[p.O] = true })
			out = append(out, ai.Outcome{St: q.st, Rets: []ai.Val{t}})
		}
	}
	return out
}

// atEnd finds the node at one end of a non-empty tree: its root, or one further inside.
func (a *avlRun) atEnd(st *ai.State, s ai.Sym, end string) []ai.Outcome {
	var out []ai.Outcome
	left := end == "left"
	q := st.Clone()
	out = append(out, ai.Outcome{St: q, Rets: []ai.Val{a.open(q, s, end)}})
	n := st.Show(s)
	k, v := a.newKey(st, "end key of "+n), a.in.NewSym(types.NewInterfaceType(nil, nil), "end value of "+n)
	rest, hid := a.token("rest of "+n), a.token("inner side of the end of "+n)
	st.NonNil(rest)
	var l, r ai.Val = ai.Nil{}, hid
	def := []wItem{{key: k.ID, val: v}, {tok: rest.ID}}
	if !left {
		l, r = r, l
		def[0], def[1] = def[1], def[0]
	}
	o := a.node(st, k, v, l, r, false, "end of "+n)
	edit(st, func(w *avlWorld) {
		if !within(st, w, s.ID, k.ID) {
			a.undecided("no key fits into a subtree")
		}
		w.defs[s.ID] = def
		w.lo[rest.ID], w.hi[rest.ID] = w.lo[s.ID], w.hi[s.ID]
		if left {
			w.lo[rest.ID] = with(w.lo[rest.ID], k.ID)
		} else {
			w.hi[rest.ID] = with(w.hi[rest.ID], k.ID)
		}
		w.expose[s.ID] = avlExpose{left, o, rest.ID, hid.ID}
		w.gone[hid.ID] = true
	})
	st.Ghost[fmt.Sprintf("exposed %d", o)] = ai.Ptr{O: o}
	out = append(out, ai.Outcome{St: st, Rets: []ai.Val{ai.Ptr{O: o}}})
	return out
}

// fold forgets at the head of a loop how the tree was taken apart.
func (a *avlRun) fold(st *ai.State) {
	st.Prune()
	trees := map[string]bool{}
	st.Locals(func(v ssa.Value, x ai.Val) ai.Val {
		if types.Identical(v.Type(), a.T) {
			trees[st.Show(x)] = true
		}
		return x
	})
	if len(trees) != 1 {
		return
	}
	st.Locals(func(v ssa.Value, x ai.Val) ai.Val {
		if !types.Identical(v.Type(), a.T) {
			return x
		}
		if a.look != 0 || a.extreme != "" {
			return a.cursor(st, x)
		}
		p, ok := st.Resolve(x).(ai.Ptr)
		if !ok {
			return x
		}
		w := words(st)
		word := a.settle(st, a.word(st, x))
		fresh := st.Obj(p.O).Fresh
		if f := w.folds[v]; f != nil && a.in.Back {
			if !a.same(st, word, a.settle(st, []wItem{{tok: f.tok}})) {
				a.bad("word", st, v.Pos(), "a round of the loop changes the entries to %s", a.show(st, word))
				a.undecided("a round of a loop changes the order of the entries")
			}
			if fresh || !f.world.fresh[f.tok] {
				st.World = f.world
				st.Unbind(ai.Sym{ID: f.tok})
				return ai.Sym{ID: f.tok}
			}
		}
		t := a.token("tree at the loop")
		st.NonNil(t)
		edit(st, func(w *avlWorld) {
			w.seals[t.ID] = word
			if fresh {
				w.fresh[t.ID] = true
			}
			w.lost[p.O] = true
		})
		f := &avlFold{tok: t.ID}
		edit(st, func(w *avlWorld) { w.folds[v] = f })
		f.world = words(st)
		return t
	})
	for k := range st.Ghost {
		if strings.HasPrefix(k, "exposed ") {
			delete(st.Ghost, k)
		}
	}
}

// cursor replaces a position on the way down by the tree itself when the answer must be the same there.
func (a *avlRun) cursor(st *ai.State, x ai.Val) ai.Val {
	w := words(st)
	id := 0
	switch y := st.Resolve(x).(type) {
	case ai.Sym:
		id = y.ID
	case ai.Ptr:
		for t, d := range w.defs {
			if b, ok := st.Resolve(ai.Sym{ID: t}).(ai.Ptr); ok && b.O == y.O && d != nil && !st.Obj(y.O).Dirty {
				id = t
			}
		}
	}
	if id == 0 || id == a.root {
		return x
	}
	items := a.expand(w, []wItem{{tok: a.root}})
	for i, it := range items {
		if it.tok != id {
			continue
		}
		if a.look != 0 {
			key := a.look
			for j := range items {
				if j != i && a.side(st, items, j, key) == 0 {
					return x
				}
			}
		} else if !st.IsNonNil(ai.Sym{ID: id}) || a.extreme == "left" && i > 0 || a.extreme == "right" && i+1 < len(items) {
			return x
		}
		if st.IsNonNil(ai.Sym{ID: a.root}) && !st.IsNonNil(ai.Sym{ID: id}) && a.extreme != "" {
			return x
		}
		t := ai.Sym{ID: a.root}
		st.Unbind(t)
		if a.look != 0 {
			st.Forget(t)
		}
		st.World = a.start
		return t
	}
	return x
}

// run starts an analysis of fn.
func (a *avl) run(key string, fn *ssa.Function) *avlRun {
	r := &avlRun{avl: a, in: a.c.Interp(), key: key, fn: fn, ok: true, start: (&avlWorld{}).clone()}
	r.in.Rigid = map[int]bool{}
	r.in.H.Call = r.call
	r.in.H.Fold = r.fold
	r.in.H.Materialize = func(st *ai.State, s ai.Sym, T types.Type) (ai.Ptr, bool) {
		if !types.Identical(T, a.T) {
			return ai.Ptr{}, false
		}
		return r.open(st, s, ""), true
	}
	r.in.H.OnInstr = func(st *ai.State, x ssa.Instruction) {
		if s, ok := x.(*ssa.Store); ok {
			a.stores[s] = true
		}
	}
	r.in.H.OnStore = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
		o := st.Obj(p.O)
		if a.frozen && types.Identical(o.T, a.N) && !o.Fresh {
			r.bad("frozen", st, pos, "writes to %s, a node that existed before", o.Name)
		}
		if r.extreme == "left" || r.extreme == "right" || r.look != 0 {
			if types.Identical(o.T, a.N) {
				r.bad("word", st, pos, "writes to %s while looking", o.Name)
			}
		}
	}
	return r
}

func (r *avlRun) begin() (*ai.State, ai.Sym) {
	st := r.in.NewState()
	st.World = r.start
	t := r.token("tree")
	r.root = t.ID
	return st, t
}

func (r *avlRun) finish(rule string) {
	r.c.Done(r.in)
	r.c.R.Count("contracts", 1)
	if r.ok {
		r.c.R.OK(rule, r.key, r.c.P.Pos(r.fn.Pos()))
	}
}

// need schedules the check that a function honours a contract.
func (a *avl) need(fn *ssa.Function, kind string) {
	key := a.c.P.FuncName(fn) + " " + kind
	if a.done[key] {
		return
	}
	a.done[key] = true
	a.todo = append(a.todo, func() {
		rule := "answer"
		if kind == "put" || kind == "remove" || kind == "push" || kind == "pop" {
			rule = "word"
		}
		if a.only {
			rule = "frozen"
		}
		a.c.Guard(rule, key, fn.Pos(), func() {
			r := a.run(key, fn)
			switch kind {
			case "push":
				r.push()
			case "pop":
				r.pop("left")
				r.pop("right")
			default:
				st, t := r.begin()
				r.op(st, t, kind, func(st *ai.State, args ...ai.Val) []ai.Outcome {
					return r.in.Invoke(st, fn, append([]ai.Val{t}, args...), nil, fn.Pos())
				}, func(st *ai.State, o ai.Outcome) ai.Val {
					if kind == "put" || kind == "remove" {
						return o.Rets[0]
					}
					return t
				})
			}
			r.finish(rule)
		})
	})
}

// op decides one operation on the tree t; after tells what the tree is afterwards.
func (r *avlRun) op(st *ai.State, t ai.Sym, kind string, call func(st *ai.State, args ...ai.Val) []ai.Outcome, after func(st *ai.State, o ai.Outcome) ai.Val) {
	k := r.newKey(st, "k")
	v := r.in.NewSym(types.NewInterfaceType(nil, nil), "v")
	r.in.Rigid[k.ID], r.in.Rigid[v.ID] = true, true
	st.Ghost["k"], st.Ghost["v"] = k, v
	var outs []ai.Outcome
	switch kind {
	case "put":
		outs = call(st, k, v)
	case "get", "has":
		r.look = k.ID
		outs = call(st, k)
	case "remove":
		outs = call(st, k)
	default:
		outs = call(st)
	}
	for _, o := range outs {
		if o.Panic != nil {
			r.bad("answer", o.St, o.Panic.Pos, "panics: %s", o.Panic.Msg)
			continue
		}
		if r.only {
			continue
		}
		if kind == "int" {
			r.size(o, after(o.St, o))
			continue
		}
		for _, q := range r.split(o.St, []wItem{{tok: t.ID}}, k.ID) {
			o := o
			o.St = q.st
			r.judge(kind, o, q, k, v, after(q.st, o))
		}
	}
}

func (r *avlRun) flag(o ai.Outcome, v ai.Val, want bool, what string) {
	b, ok := o.St.Resolve(v).(ai.Bool)
	e := ai.U
	if ok {
		e = o.St.Eval(b.C)
	}
	if e == ai.U || (e == ai.T) != want {
		r.bad("answer", o.St, r.fn.Pos(), "%s: answers %s, must be %v", what, o.St.Show(v), want)
	}
}

func (r *avlRun) errs(o ai.Outcome, v ai.Val, want bool, what string) {
	n := isNil(o.St, v)
	if n == ai.U || (n == ai.F) != want {
		r.bad("answer", o.St, r.fn.Pos(), "%s: error is %s", what, o.St.Show(v))
	}
}

func (r *avlRun) judge(kind string, o ai.Outcome, q avlSplit, k, v ai.Sym, now ai.Val) {
	st := o.St
	what := "key absent"
	old := append(append([]wItem(nil), q.left...), q.right...)
	if q.hit != nil {
		what = "key present"
		old = append(append(append([]wItem(nil), q.left...), *q.hit), q.right...)
	}
	want := old
	last := o.Rets[len(o.Rets)-1]
	switch kind {
	case "put":
		want = append(append(append([]wItem(nil), q.left...), wItem{key: k.ID, val: v}), q.right...)
		if len(o.Rets) == 2 {
			r.flag(o, last, q.hit != nil, "put, "+what)
		} else {
			r.errs(o, last, false, "put, "+what)
		}
	case "has":
		r.flag(o, last, q.hit != nil, "has, "+what)
	case "get", "remove":
		r.errs(o, last, q.hit == nil, kind+", "+what)
		if q.hit != nil {
			if got := o.Rets[len(o.Rets)-2]; !sameVal(st, got, q.hit.val) {
				r.bad("answer", st, r.fn.Pos(), "%s answers %s instead of the value of the key", kind, st.Show(got))
			}
			if kind == "remove" {
				want = append(append([]wItem(nil), q.left...), q.right...)
			}
		}
	}
	r.expect(st, now, want, kind+", "+what)
	if kind == "remove" && q.hit == nil && !r.frozen {
		t := ai.Sym{ID: r.root}
		r.expect(st, t, want, kind+", "+what)
		if !sameVal(st, now, t) {
			r.bad("word", st, r.fn.Pos(), "%s, %s: another tree is answered", kind, what)
		}
	}
}

func (r *avlRun) expect(st *ai.State, now ai.Val, want []wItem, what string) {
	got := r.settle(st, r.word(st, now))
	want = r.settle(st, want)
	if !r.same(st, got, want) {
		r.bad("word", st, r.fn.Pos(), "%s: the tree holds %s, must hold %s", what, r.show(st, got), r.show(st, want))
	}
}

// size: the number of entries.
func (r *avlRun) size(o ai.Outcome, now ai.Val) {
	st := o.St
	r.expect(st, now, []wItem{{tok: r.root}}, "counting")
	if !r.sized(r.fn) {
		return
	}
	n := ai.Lin{}
	for _, x := range r.settle(st, []wItem{{tok: r.root}}) {
		if x.tok == 0 {
			n = n.AddK(1)
		} else {
			n = n.Add(intv(r.in.App(st, "entries", types.Typ[types.Int], ai.Sym{ID: x.tok})))
		}
	}
	if i, ok := o.Rets[0].(ai.Int); !ok || !st.EqLin(i.L, n) {
		r.bad("answer", st, r.fn.Pos(), "counts %s entries instead of %s", st.Show(o.Rets[0]), st.Show(ai.Int{L: n}))
	}
}

// sized: the function reports the number of entries.
func (a *avl) sized(fn *ssa.Function) bool { return fn.Name() == "Size" }

// push: a leaf of its own is put into a tree without its key.
func (r *avlRun) push() {
	st, t := r.begin()
	k := r.newKey(st, "k")
	v := r.in.NewSym(types.NewInterfaceType(nil, nil), "v")
	x := r.node(st, k, v, ai.Nil{}, ai.Nil{}, true, "leaf")
	edit(st, func(w *avlWorld) { w.without[t.ID] = k.ID })
	for _, o := range r.in.Invoke(st, r.fn, []ai.Val{t, ai.Ptr{O: x}}, nil, r.fn.Pos()) {
		if o.Panic != nil {
			r.bad("answer", o.St, o.Panic.Pos, "panics: %s", o.Panic.Msg)
			continue
		}
		if r.only {
			continue
		}
		for _, q := range r.split(o.St, []wItem{{tok: t.ID}}, k.ID) {
			if q.hit == nil {
				r.expect(q.st, o.Rets[0], append(append(append([]wItem(nil), q.left...), wItem{key: k.ID, val: v}), q.right...), "adding a node")
			}
		}
	}
}

// pop: the node at one end is taken out.
func (r *avlRun) pop(end string) {
	near := r.fl
	if end == "right" {
		near = r.fr
	}
	var starts []*ai.State
	var nodes []int
	st, t := r.begin()
	st.NonNil(t)
	q := st.Clone()
	nodes = append(nodes, r.open(q, t, end).O)
	starts = append(starts, q)
	p := r.open(st, t, "")
	sub := st.FieldOf(p.O, near).(ai.Sym)
	st.NonNil(sub)
	for _, o := range r.atEnd(st, sub, end) {
		starts = append(starts, o.St)
		nodes = append(nodes, o.Rets[0].(ai.Ptr).O)
	}
	for i, st := range starts {
		m := nodes[i]
		it := r.entry(st, m)
		st.Ghost["k"], st.Ghost["v"] = ai.Sym{ID: it.key}, it.val
		var want []wItem
		for _, x := range r.expand(words(st), []wItem{{tok: t.ID}}) {
			if x.tok != 0 || x.key != it.key {
				want = append(want, x)
			}
		}
		for _, o := range r.in.Invoke(st, r.fn, []ai.Val{t, ai.Ptr{O: m}}, nil, r.fn.Pos()) {
			if o.Panic != nil {
				r.bad("answer", o.St, o.Panic.Pos, "panics: %s", o.Panic.Msg)
				continue
			}
			if r.only {
				continue
			}
			r.expect(o.St, o.Rets[0], want, "taking out the "+end+" end")
			n := o.St.Resolve(o.Rets[len(o.Rets)-1])
			if len(o.Rets) == 1 {
				n = ai.Ptr{O: m}
			}
			l, ok := n.(ai.Ptr)
			if !ok || isNil(o.St, o.St.FieldOf(l.O, r.fl)) != ai.T || isNil(o.St, o.St.FieldOf(l.O, r.fr)) != ai.T {
				r.bad("word", o.St, r.fn.Pos(), "the node taken out still has subtrees: %s", o.St.Show(n))
				continue
			}
			if e := r.entry(o.St, l.O); !r.same(o.St, []wItem{e}, []wItem{it}) {
				r.bad("word", o.St, r.fn.Pos(), "the node taken out holds another entry: %s", r.show(o.St, []wItem{e}))
			}
			if len(o.Rets) == 2 && !o.St.Obj(l.O).Fresh {
				r.bad("frozen", o.St, r.fn.Pos(), "the node taken out is not a copy")
			}
		}
	}
}

// end tells which end of a tree a function finds.
func (a *avlRun) end(fn *ssa.Function, args []ai.Val, st *ai.State) string {
	id := a.c.P.FuncName(fn) + a.funcArgs(st, args)
	if e, ok := a.ends[id]; ok {
		return e
	}
	for _, e := range []string{"left", "right", "same"} {
		a.ends[id] = e
		r := a.run(id+" finds the "+e+" end", fn)
		r.quiet = true
		func() {
			defer func() {
				if u, ok := recover().(ai.Undecided); ok {
					if os.Getenv("DSV_DEBUG") != "" {
						fmt.Println(r.key, u.Msg)
					}
					r.ok = false
				}
			}()
			r.find(e, args)
		}()
		if r.ok {
			r.finish("word")
			return e
		}
	}
	delete(a.ends, id)
	a.undecided("%s finds neither end of a tree", id)
	return ""
}

func (r *avlRun) find(end string, args []ai.Val) {
	st, t := r.begin()
	st.NonNil(t)
	r.extreme = end
	if end == "same" {
		r.extreme = ""
	}
	for _, o := range r.in.Invoke(st, r.fn, append([]ai.Val{t}, args...), nil, r.fn.Pos()) {
		if o.Panic != nil {
			r.ok = false
			return
		}
		if end == "same" {
			if !r.same(o.St, r.settle(o.St, r.word(o.St, o.Rets[0])), r.settle(o.St, []wItem{{tok: t.ID}})) {
				r.ok = false
			}
			continue
		}
		p, ok := o.St.Resolve(o.Rets[0]).(ai.Ptr)
		if !ok || !r.at(o.St, t, p.O, end) {
			r.ok = false
		}
	}
}

// at: the object is the node at one end of the tree.
func (r *avlRun) at(st *ai.State, v ai.Val, o int, end string) bool {
	near := r.fl
	if end == "right" {
		near = r.fr
	}
	for n := 0; n < 20; n++ {
		switch x := st.Resolve(v).(type) {
		case ai.Ptr:
			if x.O == o {
				return isNil(st, st.FieldOf(o, near)) == ai.T
			}
			v = st.FieldOf(x.O, near)
			continue
		case ai.Sym:
			e, ok := words(st).expose[x.ID]
			return ok && e.node == o && e.left == (end == "left")
		}
		return false
	}
	return false
}

// avls checks both AVL trees.
func (c *Ctx) avls(only bool) {
	for _, t := range []struct {
		node, tree, mk string
		frozen         bool
	}{{"AvlNode", "AvlTree", "NewAvlTree", false}, {"ImmutableAvlNode", "ImmutableAvlTree", "NewImmutableAvlTree", true}} {
		if only && !t.frozen {
			continue
		}
		N, Tr := c.P.Named("tree/avl", t.node), c.P.Named("tree/avl", t.tree)
		mk := c.NeedFunc("tree/avl", t.mk)
		if N == nil || Tr == nil || mk == nil {
			c.R.Fail("anchor", t.node, "", "anchor not found in the tree")
			continue
		}
		a := &avl{c: c, N: N, T: types.NewPointer(N), frozen: t.frozen, only: only, done: map[string]bool{}, ends: map[string]string{}, loop: map[*ssa.Function]bool{}, stores: map[ssa.Instruction]bool{}}
		c.Guard("answer", t.node, token.NoPos, func() {
			a.roles()
			for _, m := range []struct{ name, kind string }{{"Put", "put"}, {"Remove", "remove"}, {"Get", "get"}, {"Has", "has"}, {"Size", "int"}} {
				if fn := c.Need("tree/avl", t.node, m.name); fn != nil {
					a.need(fn, m.kind)
				}
				a.tree(Tr, m.name, m.kind)
			}
			a.empty(mk, Tr)
			for len(a.todo) > 0 {
				f := a.todo[0]
				a.todo = a.todo[1:]
				f()
			}
			if a.only {
				a.written()
			}
		})
	}
}

// roles finds the fields of a node by its accessors.
func (a *avl) roles() {
	s := a.N.Underlying().(*types.Struct)
	a.fl, a.fr, a.fk, a.fv = -1, -1, -1, -1
	for i := 0; i < s.NumFields(); i++ {
		T := s.Field(i).Type()
		if types.Identical(T, a.T) {
			continue
		}
		if types.Identical(T, a.c.hashable()) {
			a.fk = i
		} else if types.IsInterface(T) {
			a.fv = i
		}
	}
	for _, m := range []struct {
		name string
		f    *int
	}{{"Left", &a.fl}, {"Right", &a.fr}, {"Key", &a.fk}, {"Value", &a.fv}} {
		r := a.run(m.name, nil)
		st := r.in.NewState()
		st.World = r.start
		v := ai.Struct{F: make([]ai.Val, s.NumFields())}
		for i := range v.F {
			v.F[i] = r.in.Fresh(st, s.Field(i).Type(), s.Field(i).Name())
			if x, ok := v.F[i].(ai.Sym); ok {
				st.NonNil(x)
			}
		}
		o := st.NewObj(a.N, v, false, "node")
		found := -1
		for _, x := range a.c.callM(r.in, st, a.T, ai.Ptr{O: o.ID}, m.name) {
			if x.Panic != nil || len(x.Rets) != 1 {
				panic(ai.Undecided{Msg: m.name + " does not answer"})
			}
			got := x.St.Resolve(x.Rets[0])
			if f, ok := got.(ai.Iface); ok {
				got = x.St.Resolve(f.V)
			}
			for i := range v.F {
				if sameVal(x.St, got, v.F[i]) {
					found = i
				}
			}
		}
		if found < 0 || *m.f >= 0 && *m.f != found {
			panic(ai.Undecided{Msg: m.name + " does not answer with a field of the node"})
		}
		*m.f = found
	}
	if a.fl == a.fr {
		panic(ai.Undecided{Msg: "left and right are the same"})
	}
}

// tree decides an operation of the tree type.
func (a *avl) tree(Tr *types.Named, name, kind string) {
	fn := a.c.Need("tree/avl", Tr.Obj().Name(), name)
	if fn == nil {
		return
	}
	rule := "answer"
	if kind == "put" || kind == "remove" {
		rule = "word"
	}
	if a.only {
		rule = "frozen"
	}
	key := a.c.P.FuncName(fn)
	a.c.Guard(rule, key, fn.Pos(), func() {
		r := a.run(key, fn)
		st, t := r.begin()
		root := a.rootField(Tr)
		v := r.in.Zero(st, Tr).(ai.Struct)
		v.F[root] = t
		o := st.NewObj(Tr, v, false, "tree")
		st.Ghost["tree"] = ai.Ptr{O: o.ID}
		r.op(st, t, kind, func(st *ai.State, args ...ai.Val) []ai.Outcome {
			return a.c.callM(r.in, st, types.NewPointer(Tr), ai.Ptr{O: o.ID}, name, args...)
		}, func(st *ai.State, _ ai.Outcome) ai.Val { return st.FieldOf(o.ID, root) })
		r.finish(rule)
	})
}

func (a *avl) rootField(Tr *types.Named) int {
	s := Tr.Underlying().(*types.Struct)
	f := -1
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), a.T) {
			if f >= 0 {
				panic(ai.Undecided{Msg: "two roots"})
			}
			f = i
		}
	}
	if f < 0 {
		panic(ai.Undecided{Msg: "no root"})
	}
	return f
}

// empty: a new tree has no entries.
func (a *avl) empty(mk *ssa.Function, Tr *types.Named) {
	if a.only {
		return
	}
	key := a.c.P.FuncName(mk)
	a.c.Guard("word", key, mk.Pos(), func() {
		r := a.run(key, mk)
		st, _ := r.begin()
		for _, o := range call(r.in, st, mk) {
			p, ok := ai.Val(nil), false
			if o.Panic == nil {
				p = o.St.Resolve(o.Rets[0])
				_, ok = p.(ai.Ptr)
			}
			if !ok || isNil(o.St, o.St.FieldOf(p.(ai.Ptr).O, a.rootField(Tr))) != ai.T {
				r.bad("word", o.St, mk.Pos(), "a new tree is not empty")
			}
		}
		r.finish("word")
	})
}

// written: every store to a node has been looked at.
func (a *avl) written() {
	for _, fn := range a.c.P.Funcs {
		if !a.c.P.InRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				s, ok := x.(*ssa.Store)
				if !ok {
					continue
				}
				base := s.Addr
				if f, ok := base.(*ssa.FieldAddr); ok {
					base = f.X
				}
				if !types.Identical(base.Type(), a.T) {
					continue
				}
				a.c.R.Count("stores seen", 1)
				if _, ok := base.(*ssa.Alloc); ok || a.stores[s] {
					continue
				}
				a.c.R.Fail("frozen", a.c.P.FuncName(fn), a.c.P.Pos(s.Pos()), "a store to a node that no operation of the tree leads to")
			}
		}
	}
}

// avlSnapshots: iterators hold on to the version they were made for.
func (c *Ctx) avlSnapshots() {
	Tr := c.P.Named("tree/avl", "ImmutableAvlTree")
	for _, e := range c.api([]string{"tree/avl"}) {
		if e.typ != "ImmutableAvlTree" {
			continue
		}
		e := e
		c.Guard("snapshot", e.name, e.fn.Pos(), func() {
			a := pts.New(c.P)
			a.Run(e.fn)
			pre := map[*pts.Ctx]bool{}
			for _, r := range a.Reads() {
				pre[r.Ctx] = true
			}
			it := false
			for _, s := range a.Ret() {
				for el := range s {
					it = it || el.O.Kind == pts.Closure
				}
			}
			if !it {
				return
			}
			a.Drive(a.Ret())
			c.ptsDone(a)
			c.R.Count("iterators", 1)
			ok := true
			for _, r := range a.Reads() {
				if types.Identical(r.O.T, Tr) && !pre[r.Ctx] {
					ok = false
					c.R.Fail("snapshot", e.name, c.P.Pos(r.Pos), "the iterator reads the tree's root after it was created, in "+c.P.FuncName(r.Ctx.Fn), a.Chain(r.Ctx)...)
				}
			}
			if ok {
				c.R.OK("snapshot", e.name, c.P.Pos(e.fn.Pos()))
			}
		})
	}
}
