package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Abstract interpretation of Push, Pop and Peek on heaps of any size. Heap order is decided at an arbitrary edge of the tree together with the edges around it; conservation of items by summing over the array how often one arbitrary item is held, with every store to a cell accounted for.", func(c *Ctx) {
		c.R.Rule("order", "if every kid stands behind its parent before the operation, so does an arbitrary kid afterwards")
		c.R.Rule("items", "an arbitrary item is held as often as before, plus the pushed one, minus the returned one; items keep their priorities")
		c.R.Rule("extreme", "Pop and Peek return the item at the root, and nil exactly when the heap is empty")
		c.R.Assume("the root stands before everything once every kid stands behind its parent (induction over the index)")
		c.heaps()
		c.R.Floor("operations", 26)
		c.R.Floor("constructors", 2)
	})
}

type heapRun struct {
	c      *Ctx
	in     *ai.Interp
	key    string
	fn     *ssa.Function
	T      types.Type
	self   ai.Ptr
	path   []int // of the slice inside the heap
	elem   types.Type
	fi, fp int // item and priority fields of an entry
	min    bool
	n      ai.Lin
	arr    int
	x      ai.Sym
	items  bool // accounting for items, not order
	ok     bool
}

func (h *heapRun) bad(rule string, st *ai.State, pos token.Pos, f string, args ...interface{}) {
	h.ok = false
	if !pos.IsValid() {
		pos = h.fn.Pos()
	}
	h.c.R.Fail(rule, h.key, h.c.P.Pos(pos), fmt.Sprintf(f, args...), h.c.Path(st)...)
}

// entries finds the array of entries inside the heap.
func (h *heapRun) entries(N types.Type) bool {
	s, ok := N.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		e, ok := sl.Elem().Underlying().(*types.Struct)
		if !ok || e.NumFields() != 2 {
			continue
		}
		h.fi, h.fp = -1, -1
		for k := 0; k < 2; k++ {
			if types.IsInterface(e.Field(k).Type()) {
				h.fi = k
			} else if b, ok := e.Field(k).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				h.fp = k
			}
		}
		if h.fi >= 0 && h.fp >= 0 {
			h.path, h.elem = []int{i}, sl.Elem()
			return true
		}
	}
	return false
}

func (h *heapRun) prio(st *ai.State, item ai.Val) ai.Lin {
	return intv(h.in.App(st, "prio", types.Typ[types.Int], item))
}

func (h *heapRun) ind(st *ai.State, item ai.Val) ai.Lin {
	return intv(h.in.App(st, "count", types.Typ[types.Int], item))
}

type heapItem struct {
	item ai.Val
	prio ai.Lin
}

// entry takes a cell's value apart; ok is false when item and priority do not belong together.
func (h *heapRun) entry(st *ai.State, v ai.Val) (e heapItem, ok bool) {
	s, ok := st.Resolve(v).(ai.Struct)
	if !ok || s.F[h.fi] == nil || s.F[h.fp] == nil {
		return e, false
	}
	e.item = st.Resolve(s.F[h.fi])
	p, ok := st.Resolve(s.F[h.fp]).(ai.Int)
	e.prio = p.L
	return e, ok && (!h.items || st.EqLin(p.L, h.prio(st, e.item)))
}

func (c *Ctx) heap(mk *ssa.Function, min bool, op, what string, f func(h *heapRun, st *ai.State)) {
	N := c.P.Named("heap", "Heap")
	key := fmt.Sprintf("heap.Heap.%s, made by %s, minimum first: %v: %s", op, mk.Name(), min, what)
	if N == nil {
		c.R.Fail("anchor", key, "", "anchor not found in the tree")
		return
	}
	fn := c.P.Method(types.NewPointer(N), op)
	if fn == nil {
		c.R.Fail("anchor", key, "", "anchor not found in the tree")
		return
	}
	c.R.Count("operations", 1)
	if f := os.Getenv("DSV_ONLY"); f != "" && !strings.Contains(key, f) {
		return
	}
	rule := "items"
	if what != "items" {
		rule = "order"
	}
	c.Guard(rule, key, fn.Pos(), func() {
		in := c.Interp()
		defer c.Done(in)
		in.MaxHeads = 200
		in.H.NoJoinSyms = what == "items"
		in.Rigid = map[int]bool{}
		in.Apart = true
		in.Tail = true
		in.H.Call = c.errorsHook
		st := in.NewState()
		h := &heapRun{c: c, in: in, key: key, fn: fn, T: types.NewPointer(N), min: min, items: what == "items", ok: true}
		if !h.entries(N) {
			panic(ai.Undecided{Msg: "no array of items with priorities inside the heap", Pos: fn.Pos()})
		}
		var args []ai.Val
		for _, p := range mk.Params {
			if b := p.Type().Underlying().(*types.Basic); b.Info()&types.IsBoolean != 0 {
				args = append(args, ai.Bool{C: ai.CConst{V: min}})
			} else {
				size := in.NewAtom("size")
				st.AddLe(size.Neg())
				args = append(args, ai.Int{L: size})
			}
		}
		outs := call(in, st, mk, args...)
		for _, o := range outs {
			if o.Panic != nil {
				panic(ai.Undecided{Msg: "constructor", Pos: mk.Pos()})
			}
			h.on(o.St, o.Rets[0].(ai.Ptr), f)
		}
		if h.ok && len(outs) > 0 {
			c.R.OK(rule, key, c.P.Pos(fn.Pos()))
		}
	})
}

// on runs f on heaps of any size that look like the one just made.
func (h *heapRun) on(st *ai.State, self ai.Ptr, f func(h *heapRun, st *ai.State)) {
	c, in, fn := h.c, h.in, h.fn
	h.self = self
	in.ProbeElem = func(T types.Type) bool { return types.Identical(T, h.elem) }
	h.n = in.NewAtom("n")
	cp := in.NewAtom("cap")
	st.AddLe(h.n.Neg())
	st.AddLe(h.n.Sub(cp))
	h.arr = st.NewArr(h.elem, cp, ai.DefSym, false, "heap").ID
	st.SetField(h.self.O, h.path, ai.Slice{Arr: h.arr, Off: ai.K(0), Len: h.n, Cap: cp})
	h.x = in.NewSym(c.P.Named("heap", "Heap").Obj().Pkg().Scope().Lookup("Heap").Type(), "x")
	st.Ghost["self"] = h.self
	st.Ghost["n"] = ai.Int{L: h.n}
	st.Ghost["sum"] = ai.Int{L: ai.K(0)}
	st.Ghost["len"] = ai.Int{L: h.n}
	in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
		if !types.Identical(o.T, h.elem) {
			return nil, false
		}
		v := ai.Struct{F: make([]ai.Val, 2)}
		item := in.NewSym(types.NewInterfaceType(nil, nil), "item at "+st.Show(ai.Int{L: idx}))
		v.F[h.fi] = item
		v.F[h.fp] = ai.Int{L: h.prio(st, item)}
		return v, true
	}
	held := func(o *ai.Obj) bool {
		return types.Identical(o.T, h.elem) && o.Name != "varargs" && o.Name != "slicelit"
	}
	in.H.OnCell = func(st *ai.State, o *ai.Obj, idx ai.Lin, old, new ai.Val) {
		l, ok := h.slice(st)
		if !h.items || !held(o) || !ok || l.Arr != o.ID {
			return
		}
		a, ok1 := h.entry(st, old)
		b, ok2 := h.entry(st, new)
		if !ok1 || !ok2 {
			h.bad("items", st, token.NoPos, "an item is stored apart from its priority")
			return
		}
		sum := intv(st.Ghost["sum"])
		st.Ghost["sum"] = ai.Int{L: sum.Add(h.ind(st, b.item)).Sub(h.ind(st, a.item))}
	}
	in.H.OnAppend = func(st *ai.State, dst, src, res ai.Slice) {
		if o := st.Obj(res.Arr); !h.items || !types.Identical(o.T, h.elem) {
			return
		}
		if l, ok := h.slice(st); !ok || l.Arr != dst.Arr || !st.EqLin(src.Len, ai.K(1)) || !st.EqLin(dst.Len, intv(st.Ghost["len"])) {
			panic(ai.Undecided{Msg: "append to another array of items", Pos: fn.Pos()})
		}
		r := in.ReadCell(st, src.Arr, src.Off)
		v, ok := h.entry(st, r[0].V)
		if len(r) != 1 || !ok {
			h.bad("items", st, token.NoPos, "an item is stored apart from its priority")
			return
		}
		st.Ghost["sum"] = ai.Int{L: intv(st.Ghost["sum"]).Add(h.ind(st, v.item))}
		st.Ghost["len"] = ai.Int{L: dst.Len.AddK(1)}
	}
	in.H.OnInstr = func(st *ai.State, i ssa.Instruction) {
		b, ok := i.(*ssa.BinOp)
		if !ok || b.Op != token.SUB && b.Op != token.ADD && b.Op != token.MUL {
			return
		}
		for _, v := range []ssa.Value{b.X, b.Y} {
			if n, ok := st.Resolve(in.Val(st, v)).(ai.Int); ok {
				for _, t := range n.L.T {
					if k := in.Info(t.A); k != nil && k.Op == "prio" {
						h.bad("order", st, b.Pos(), "calculates with priorities: the result can overflow")
					}
				}
			}
		}
	}
	f(h, st)
}

func (h *heapRun) slice(st *ai.State) (ai.Slice, bool) {
	l, ok := st.Resolve(st.FieldOf(h.self.O, h.path[0])).(ai.Slice)
	return l, ok
}

// cell reads an entry of the heap as it is now.
func (h *heapRun) cell(st *ai.State, idx ai.Lin, f func(st *ai.State, e heapItem)) {
	l, ok := h.slice(st)
	if !ok {
		h.bad("items", st, token.NoPos, "the heap has lost its array")
		return
	}
	for _, r := range h.in.ReadCell(st, l.Arr, l.Off.Add(idx)) {
		e, ok := h.entry(r.St, r.V)
		if !ok {
			h.bad("items", r.St, token.NoPos, "an item is held with another priority")
			continue
		}
		f(r.St, e)
	}
}

func (h *heapRun) run(st *ai.State, args ...ai.Val) []ai.Outcome {
	var out []ai.Outcome
	for _, o := range call(h.in, st, h.fn, append([]ai.Val{h.self}, args...)...) {
		if o.Panic != nil {
			h.bad("items", o.St, o.Panic.Pos, "may crash: %s", o.Panic.Msg)
			continue
		}
		out = append(out, o)
	}
	return out
}

func (h *heapRun) pushArgs(st *ai.State) []ai.Val {
	h.x = h.in.NewSym(types.NewInterfaceType(nil, nil), "x")
	st.Ghost["x"] = h.x
	h.in.Rigid[h.x.ID] = true
	return []ai.Val{ai.Int{L: h.prio(st, h.x)}, h.x}
}

// size is the number of items afterwards.
func (h *heapRun) size(st *ai.State, f func(st *ai.State, n ai.Lin)) {
	for _, o := range h.c.callM(h.in, st, h.T, h.self, "Size") {
		if o.Panic == nil {
			f(o.St, intv(o.Rets[0]))
		}
	}
}

func (c *Ctx) heaps() {
	type made struct {
		fn  string
		min bool
	}
	var parts []func(c *Ctx)
	main := c.NeedFunc("heap", "NewHeap")
	if main == nil {
		return
	}
	for _, m := range []made{{"NewHeap", true}, {"NewHeap", false}, {"NewMinHeap", true}, {"NewMaxHeap", false}} {
		m := m
		mk := c.NeedFunc("heap", m.fn)
		if mk == nil {
			continue
		}
		if mk != main {
			c.R.Count("constructors", 1)
			if c.sameHeap(main, mk, m.min) {
				c.R.OK("order", "heap."+m.fn+" makes what NewHeap makes", c.P.Pos(mk.Pos()))
				continue
			}
		}
		heap := func(op, what string, f func(h *heapRun, st *ai.State)) {
			parts = append(parts, func(c *Ctx) { c.heap(mk, m.min, op, what, f) })
		}
		heap("Push", "items", func(h *heapRun, st *ai.State) {
			h.in.Protect = []ai.Lin{h.n}
			h.in.Probes = h.in.Protect
			for _, o := range h.run(st, h.pushArgs(st)...) {
				h.size(o.St, func(st *ai.State, n ai.Lin) {
					if !st.EqLin(n, h.n.AddK(1)) {
						h.bad("items", st, token.NoPos, "size afterwards is %s", st.Show(ai.Int{L: n}))
					}
					h.balance(st, n, h.ind(st, h.x))
				})
			}
		})
		heap("Pop", "items", func(h *heapRun, st *ai.State) {
			h.in.Protect = []ai.Lin{h.n.AddK(-1)}
			h.in.Probes = h.in.Protect
			h.root(st, func(st *ai.State, root ai.Val) {
				for _, o := range h.run(st) {
					if root == nil {
						if isNil(o.St, o.Rets[0]) != ai.T {
							h.bad("extreme", o.St, token.NoPos, "an empty heap answers %s", o.St.Show(o.Rets[0]))
						}
						h.size(o.St, func(st *ai.State, n ai.Lin) {
							if !st.EqLin(n, ai.K(0)) {
								h.bad("items", st, token.NoPos, "an empty heap is not empty afterwards")
							}
						})
						continue
					}
					if !sameVal(o.St, o.Rets[0], root) {
						h.bad("extreme", o.St, token.NoPos, "returns %s, not the item at the root", o.St.Show(o.Rets[0]))
						continue
					}
					h.size(o.St, func(st *ai.State, n ai.Lin) {
						if !st.EqLin(n, h.n.AddK(-1)) {
							h.bad("items", st, token.NoPos, "size afterwards is %s", st.Show(ai.Int{L: n}))
						}
						h.balance(st, n, h.ind(st, root).Neg())
					})
				}
			})
		})
		heap("Peek", "items", func(h *heapRun, st *ai.State) {
			h.root(st, func(st *ai.State, root ai.Val) {
				for _, o := range h.run(st) {
					if root == nil {
						if isNil(o.St, o.Rets[0]) != ai.T {
							h.bad("extreme", o.St, token.NoPos, "an empty heap answers %s", o.St.Show(o.Rets[0]))
						}
						continue
					}
					if !sameVal(o.St, o.Rets[0], root) {
						h.bad("extreme", o.St, token.NoPos, "returns %s, not the item at the root", o.St.Show(o.Rets[0]))
					}
					h.size(o.St, func(st *ai.State, n ai.Lin) {
						if !st.EqLin(n, h.n) {
							h.bad("items", st, token.NoPos, "size afterwards is %s", st.Show(ai.Int{L: n}))
						}
						h.balance(st, n, ai.K(0))
					})
				}
			})
		})
		for _, e := range heapEdges() {
			e := e
			heap(e.op, e.what, func(h *heapRun, st *ai.State) {
				h.edge(st, e, func(st *ai.State, p, k ai.Lin) {
					var args []ai.Val
					if e.op == "Push" {
						args = h.pushArgs(st)
					}
					for _, o := range h.run(st, args...) {
						h.size(o.St, func(st *ai.State, n ai.Lin) { h.ordered(st, n, p, k) })
					}
				})
			})
		}
	}
	c.Parallel(parts...)
}

// ordered checks an edge of the tree afterwards.
func (h *heapRun) ordered(st *ai.State, n, p, k ai.Lin) {
	in, _ := st.Branch(lt(k, n))
	if in == nil {
		return
	}
	h.cell(in, p, func(st *ai.State, a heapItem) {
		h.cell(st, k, func(st *ai.State, b heapItem) {
			first, second := a.prio, b.prio
			if !h.min {
				first, second = second, first
			}
			if !st.Le(first, second) {
				h.bad("order", st, token.NoPos, "a kid may stand before its parent afterwards: parent %s, kid %s", st.Show(a.item), st.Show(b.item))
			}
		})
	})
}

// sameHeap: the constructor makes what the main one makes for the same order.
func (c *Ctx) sameHeap(main, mk *ssa.Function, min bool) bool {
	same := false
	c.Guard("order", "heap."+mk.Name(), mk.Pos(), func() {
		in := c.Interp()
		defer c.Done(in)
		st := in.NewState()
		size := ai.Int{L: in.NewAtom("size")}
		st.AddLe(size.L.Neg())
		var objs []*ai.Obj
		for _, fn := range []*ssa.Function{main, mk} {
			var args []ai.Val
			for _, p := range fn.Params {
				if b := p.Type().Underlying().(*types.Basic); b.Info()&types.IsBoolean != 0 {
					args = append(args, ai.Bool{C: ai.CConst{V: min}})
				} else {
					args = append(args, size)
				}
			}
			outs := call(in, st, fn, args...)
			if len(outs) != 1 || outs[0].Panic != nil {
				return
			}
			st = outs[0].St
			p, ok := outs[0].Rets[0].(ai.Ptr)
			if !ok {
				return
			}
			st.Ghost[fn.Name()] = p
			objs = append(objs, st.Obj(p.O))
		}
		f, ok1 := objs[0].V.(ai.Struct)
		g, ok2 := objs[1].V.(ai.Struct)
		if !ok1 || !ok2 || len(f.F) != len(g.F) {
			return
		}
		same = true
		for i := range f.F {
			x, ok1 := st.Resolve(f.F[i]).(ai.Slice)
			y, ok2 := st.Resolve(g.F[i]).(ai.Slice)
			if ok1 && ok2 {
				same = same && st.EqLin(x.Len, y.Len)
			} else {
				same = same && sameVal(st, f.F[i], g.F[i])
			}
		}
	})
	return same
}

// root splits on emptiness and gives the item at the root.
func (h *heapRun) root(st *ai.State, f func(st *ai.State, root ai.Val)) {
	for i, q := range branch(st, ai.CLe{L: h.n}) {
		if q == nil {
			continue
		}
		if i == 0 {
			f(q, nil)
			continue
		}
		h.cell(q, ai.K(0), func(st *ai.State, e heapItem) {
			st.NonNil(e.item.(ai.Sym))
			st.Ghost["root"] = e.item
			f(st, e.item)
		})
	}
}

// balance checks what the stores added up to.
func (h *heapRun) balance(st *ai.State, n ai.Lin, want ai.Lin) {
	done := func(st *ai.State, sum ai.Lin) {
		if !st.EqLin(sum, want) {
			h.bad("items", st, token.NoPos, "items are lost or held twice: the stores add up to %s, expected %s", st.Show(ai.Int{L: sum}), st.Show(ai.Int{L: want}))
		}
	}
	sum, ln := intv(st.Ghost["sum"]), intv(st.Ghost["len"])
	switch {
	case st.EqLin(n, ln):
		done(st, sum)
	case st.EqLin(n.AddK(1), ln):
		// the last one was cut off
		h.cell(st, n, func(st *ai.State, e heapItem) { done(st, sum.Sub(h.ind(st, e.item))) })
	default:
		h.bad("items", st, token.NoPos, "size changes from %s to %s", st.Show(ai.Int{L: ln}), st.Show(ai.Int{L: n}))
	}
}

// heapEdge is a case of an arbitrary edge (p, k) of the tree with its surroundings, which are ordered
// before the operation where they exist: the parent of p for Push, which moves an item towards the
// root, and the kids of k for Pop, which moves one away from it.
type heapEdge struct {
	op, what string
	kid      int64 // which kid k is
	root     bool  // p is the root
	side     int64 // which kid p is of its parent
}

func heapEdges() []heapEdge {
	var out []heapEdge
	for kid := int64(1); kid <= 2; kid++ {
		out = append(out,
			heapEdge{"Push", fmt.Sprintf("order of kid %d of the root", kid), kid, true, 0},
			heapEdge{"Push", fmt.Sprintf("order of kid %d of a first kid", kid), kid, false, 1},
			heapEdge{"Push", fmt.Sprintf("order of kid %d of a second kid", kid), kid, false, 2},
			heapEdge{"Pop", fmt.Sprintf("order of kid %d of the root", kid), kid, true, 0},
			heapEdge{"Pop", fmt.Sprintf("order of kid %d below the root", kid), kid, false, 0})
	}
	return out
}

func (h *heapRun) edge(st *ai.State, e heapEdge, f func(st *ai.State, p, k ai.Lin)) {
	var cells []ai.Lin
	var up []int
	p, last := ai.K(0), h.n
	if e.op == "Push" && !e.root {
		g := h.in.NewAtom("g")
		st.AddLe(g.Neg())
		st.Ghost["g"] = ai.Int{L: g}
		p = g.Add(g).AddK(e.side)
		cells, up = []ai.Lin{g}, []int{-1}
	}
	if e.op == "Pop" {
		last = h.n.AddK(-2)
		if !e.root {
			p = h.in.NewAtom("p")
			st.AddLe(p.Neg().AddK(1))
			st.Ghost["p"] = ai.Int{L: p}
		}
	}
	k := p.Add(p).AddK(e.kid)
	cells, up = append(cells, p, k), append(up, len(up)-1, len(up))
	if e.op == "Pop" {
		cells, up = append(cells, k.Add(k).AddK(1), k.Add(k).AddK(2)), append(up, 1, 1)
	}
	if !st.Assume(le(k, last), true) {
		return
	}
	h.in.Protect, h.in.Probes = cells, cells
	h.prepare(st, cells, up, nil, func(st *ai.State) {
		h.in.ResetSteps()
		f(st, p, k)
	})
}

// prepare reads the cells and records the order that holds between those inside the heap.
func (h *heapRun) prepare(st *ai.State, cells []ai.Lin, up []int, items []*heapItem, f func(st *ai.State)) {
	i := len(items)
	if i == len(cells) {
		h.cell(st, h.n.AddK(-1), func(st *ai.State, e heapItem) {
			h.in.Rigid[e.item.(ai.Sym).ID] = true
			f(st)
		})
		return
	}
	for b, q := range branch(st, lt(cells[i], h.n)) {
		if q == nil {
			continue
		}
		if b == 1 {
			h.prepare(q, cells, up, append(items[:i:i], nil), f)
			continue
		}
		h.cell(q, cells[i], func(st *ai.State, e heapItem) {
			h.in.Rigid[e.item.(ai.Sym).ID] = true
			if u := up[i]; u >= 0 && items[u] != nil {
				first, second := items[u].prio, e.prio
				if !h.min {
					first, second = second, first
				}
				st.AddLe(first.Sub(second))
			}
			h.prepare(st, cells, up, append(items[:i:i], &e), f)
		})
	}
}
