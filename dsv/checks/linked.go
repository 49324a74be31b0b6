package checks

import (
	"fmt"
	"go/token"
	"go/types"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

// linkedClient walks a linked list the way its documentation allows.
const linkedClient = `package zzdriver

import (
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/types"
)

func Nth(i int, item types.Hashable) {}
func Done(i int)                     {}

func Walk(it types.KIterator) {
	i := 0
	for x, next := it(); next != nil; x, next = next() {
		Nth(i, x)
		i++
	}
	Done(i)
}

func Node(i int, item types.Hashable, linked bool) {}
func End(i int, tail bool)                         {}

func Chain(l *linked.LinkedList) {
	i := 0
	var prev *linked.Node
	for n := l.Head; n != nil; n = n.Next {
		Node(i, n.Data, n.Prev == prev)
		prev = n
		i++
	}
	End(i, l.Tail == prev)
}
`

func init() {
	registerClient("C15", "Abstract interpretation of every operation of the doubly linked list on a list of arbitrary length n, its nodes addressed by position; the list is then walked by client code, forwards, backwards and along both links.", linkedClient, func(c *Ctx) {
		c.R.Rule("order", "afterwards both iterations show exactly the expected items in the expected order")
		c.R.Rule("links", "afterwards each node's links lead to its neighbours, ends and length included")
		c.R.Rule("answer", "the operation returns the item of its end, or an error and no change on an empty list")
		c.linkedOps()
		c.R.Floor("operations", 12)
	})
}

// chain is an arbitrary doubly linked list: node i of a list of length n.
type chain struct {
	c      *Ctx
	in     *ai.Interp
	self   ai.Val
	T      types.Type
	node   *types.Struct
	f      map[string]int
	N      int // the nodes
	p      ai.Lin
	probe  *ai.Sym // the item at position p, when one is singled out
	n      ai.Lin
	key    string
	fn     *ssa.Function
	ok     bool
	onItem func(st *ai.State, s ai.Sym)
}

// piece is a stretch of the expected sequence: old items from..from+len, or one item.
type piece struct {
	item ai.Val
	from ai.Lin
	len  ai.Lin
}

func (h *chain) bad(rule string, st *ai.State, f string, args ...interface{}) {
	h.ok = false
	h.c.R.Fail(rule, h.key, h.c.P.Pos(h.fn.Pos()), fmt.Sprintf(f, args...), h.c.Path(st)...)
}

func (h *chain) at(i ai.Lin, field string) ai.Ptr {
	p := ai.Ptr{O: h.N, IsElem: true, Idx: i}
	if field != "" {
		p.Path = []int{h.f[field]}
	}
	return p
}

// inside: position i holds a node.
func (h *chain) inside(i ai.Lin) ai.Cond {
	return ai.CAnd{A: ai.CLe{L: i.Neg()}, B: ai.CLe{L: i.AddK(1).Sub(h.n)}}
}

func fields(T types.Type) map[string]int {
	m := map[string]int{}
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		m[s.Field(i).Name()] = i
	}
	return m
}

// newChain makes a list of arbitrary length.
func (c *Ctx) newChain(key string, fn *ssa.Function) (*chain, *ai.State) {
	L, Nd := c.P.Named("linked", "LinkedList"), c.P.Named("linked", "Node")
	in := c.Interp()
	in.H.Call = c.errorsHook
	in.Indexed = map[string]bool{"item": true}
	st := in.NewState()
	h := &chain{c: c, in: in, T: types.NewPointer(L), f: fields(Nd), key: key, fn: fn, ok: true, n: in.NewAtom("n")}
	lf := fields(L)
	for _, x := range []struct {
		m map[string]int
		f string
	}{{h.f, "Data"}, {h.f, "Next"}, {h.f, "Prev"}, {lf, "Head"}, {lf, "Tail"}, {lf, "Length"}} {
		if _, ok := x.m[x.f]; !ok {
			panic(ai.Undecided{Msg: "no field " + x.f, Pos: fn.Pos()})
		}
	}
	st.AddLe(h.n.Neg())
	h.N = st.NewArr(Nd, h.n, ai.DefSym, false, "nodes").ID
	in.Pure = func(o *ai.Obj) bool { return o.ID == h.N }
	in.H.NewIndexed = func(st *ai.State, s ai.Sym) {
		if h.onItem != nil {
			h.onItem(st, s)
		}
	}
	st.Ghost["N"] = ai.Ptr{O: h.N}
	st.Ghost["n"] = ai.Int{L: h.n}
	o := st.NewObj(L, in.Fresh(st, L, "list"), false, "list")
	h.self = ai.Ptr{O: o.ID}
	st.Ghost["l"] = h.self
	st.SetField(o.ID, []int{lf["Length"]}, ai.Int{L: h.n})
	st.SetField(o.ID, []int{lf["Head"]}, h.at(ai.K(0), ""))
	st.SetField(o.ID, []int{lf["Tail"]}, h.at(h.n.AddK(-1), ""))
	in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
		if o.ID == h.N && o.Arr.Def == ai.DefSym {
			v := ai.Struct{F: make([]ai.Val, len(h.f))}
			v.F[h.f["Data"]] = h.item(st, idx)
			v.F[h.f["Next"]] = h.at(idx.AddK(1), "")
			v.F[h.f["Prev"]] = h.at(idx.AddK(-1), "")
			return v, true
		}
		return nil, false
	}
	// a node pointer outside the list stands for nil
	in.H.PtrEq = func(st *ai.State, a, b ai.Val) (ai.Cond, bool) {
		x, ok1 := a.(ai.Ptr)
		y, ok2 := b.(ai.Ptr)
		ok1 = ok1 && x.O == h.N && len(x.Path) == 0
		ok2 = ok2 && y.O == h.N && len(y.Path) == 0
		_, n1 := a.(ai.Nil)
		_, n2 := b.(ai.Nil)
		switch {
		case ok1 && n2:
			return ai.CNot{C: h.inside(x.Idx)}, true
		case ok2 && n1:
			return ai.CNot{C: h.inside(y.Idx)}, true
		case ok1 && ok2:
			// equal positions, or both nil
			both := ai.CAnd{A: ai.CNot{C: h.inside(x.Idx)}, B: ai.CNot{C: h.inside(y.Idx)}}
			return ai.CNot{C: ai.CAnd{A: ai.CNot{C: ai.CEq{L: x.Idx.Sub(y.Idx)}}, B: ai.CNot{C: both}}}, true
		}
		return nil, false
	}
	in.H.Norm = func(st *ai.State, v ai.Val) ai.Val {
		if p, ok := v.(ai.Ptr); ok && p.O == h.N && len(p.Path) == 0 && st.Eval(h.inside(p.Idx)) == ai.F {
			return ai.Nil{}
		}
		return v
	}
	in.H.Deref = func(st *ai.State, p ai.Ptr, pos token.Pos) ([]ai.R, bool) {
		if p.O != h.N || len(p.Path) > 0 {
			return nil, false
		}
		var out []ai.R
		y, no := st.Branch(h.inside(p.Idx))
		if y != nil {
			out = append(out, ai.R{St: y, V: p})
		}
		if no != nil {
			out = append(out, ai.R{St: no, Panic: &ai.PanicInfo{Kind: "nil", Pos: pos, Msg: "nil dereference beyond the end of the list"}})
		}
		return out, true
	}
	return h, st
}

// items are the possible items originally at idx: item(idx), or the one at the probed position.
func (h *chain) items(st *ai.State, idx ai.Lin) []ai.R {
	if h.probe != nil {
		var out []ai.R
		t, f := st.Branch(ai.CEq{L: idx.Sub(h.p)})
		if t != nil {
			out = append(out, ai.R{St: t, V: *h.probe})
		}
		if f != nil {
			out = append(out, ai.R{St: f, V: h.item(f, idx)})
		}
		return out
	}
	return []ai.R{{St: st, V: h.item(st, idx)}}
}

func (h *chain) item(st *ai.State, idx ai.Lin) ai.Val {
	s := h.in.App(st, "item", h.c.hashable(), ai.Int{L: idx}).(ai.Sym)
	if h.onItem != nil {
		h.onItem(st, s)
	}
	return s
}

// expected splits on which piece position i falls into.
func (h *chain) expected(st *ai.State, i ai.Lin, want []piece, f func(st *ai.State, v ai.Val)) {
	start := ai.K(0)
	for _, p := range want {
		end := start.Add(p.len)
		if p.item != nil {
			end = start.AddK(1)
		}
		t, rest := st.Branch(ai.CLe{L: i.AddK(1).Sub(end)})
		if t != nil {
			if p.item != nil {
				f(t, p.item)
			} else {
				for _, r := range h.items(t, p.from.Add(i).Sub(start)) {
					f(r.St, r.V)
				}
			}
		}
		if rest == nil {
			return
		}
		st, start = rest, end
	}
	f(st, nil)
}

func total(want []piece) ai.Lin {
	n := ai.K(0)
	for _, p := range want {
		if p.item != nil {
			n = n.AddK(1)
		} else {
			n = n.Add(p.len)
		}
	}
	return n
}

// holds walks the list and compares it with what is expected.
func (h *chain) holds(st *ai.State, want []piece) {
	n := total(want)
	for _, o := range h.c.callM(h.in, st.Clone(), h.T, h.self, "Size") {
		if o.Panic != nil || !o.St.EqLin(intv(o.Rets[0]), n) {
			h.bad("links", o.St, "afterwards Size is not the number of items")
		}
	}
	same := func(rule string, how string, q *ai.State, i, pos ai.Lin, got ai.Val) {
		h.expected(q.Clone(), pos, want, func(e *ai.State, v ai.Val) {
			if v == nil {
				h.bad(rule, e, "%s: more items than expected", how)
			} else if !sameVal(e, got, v) {
				h.bad(rule, e, "%s: the item at position %s is %s, expected %s", how, e.Show(ai.Int{L: i}), e.Show(got), e.Show(v))
			}
		})
	}
	ret := func(st *ai.State) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st}}, true }
	for _, m := range []string{"Items", "Backwards"} {
		m := m
		h.in.H.Call = func(q *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.Fn == nil || ci.Fn.Pkg != h.c.P.Driver {
				return h.c.errorsHook(q, ci)
			}
			switch ci.Fn.Name() {
			case "Nth":
				i := intv(ci.Args[0])
				pos := i
				if m == "Backwards" {
					pos = n.Sub(i).AddK(-1)
				}
				if q.Eval(ai.CLe{L: pos.Neg()}) != ai.T {
					h.bad("order", q, "%s: more items than expected", m)
				} else {
					same("order", m, q, i, pos, ci.Args[1])
				}
				return ret(q)
			case "Done":
				if !q.EqLin(intv(ci.Args[0]), n) {
					h.bad("order", q, "%s stops after %s items, expected %s", m, q.Show(ci.Args[0]), q.Show(ai.Int{L: n}))
				}
				return ret(q)
			}
			return nil, false
		}
		drv := h.c.client("Walk")
		for _, o := range h.c.callM(h.in, st.Clone(), h.T, h.self, m) {
			if o.Panic != nil {
				h.bad("order", o.St, "%s may crash: %s", m, o.Panic.Msg)
				continue
			}
			for _, d := range h.in.CallFunc(o.St, nil, drv, []ai.Val{o.Rets[0]}, nil, drv.Pos()) {
				if d.Panic != nil {
					h.bad("order", d.St, "%s may crash: %s", m, d.Panic.Msg)
				}
			}
		}
	}
	h.in.H.Call = func(q *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if ci.Fn == nil || ci.Fn.Pkg != h.c.P.Driver {
			return h.c.errorsHook(q, ci)
		}
		yes := func(v ai.Val) bool { return q.Eval(q.Resolve(v).(ai.Bool).C) == ai.T }
		switch ci.Fn.Name() {
		case "Node":
			same("links", "along Next", q, intv(ci.Args[0]), intv(ci.Args[0]), ci.Args[1])
			if !yes(ci.Args[2]) {
				h.bad("links", q, "the Prev link at position %s does not lead to the node before", q.Show(ci.Args[0]))
			}
			return ret(q)
		case "End":
			if !q.EqLin(intv(ci.Args[0]), n) {
				h.bad("links", q, "the Next links end after %s nodes, expected %s", q.Show(ci.Args[0]), q.Show(ai.Int{L: n}))
			}
			if !yes(ci.Args[1]) {
				h.bad("links", q, "Tail is not the last node")
			}
			return ret(q)
		}
		return nil, false
	}
	drv := h.c.client("Chain")
	for _, d := range h.in.CallFunc(st.Clone(), nil, drv, []ai.Val{h.self}, nil, drv.Pos()) {
		if d.Panic != nil {
			h.bad("links", d.St, "walking the links may crash: %s", d.Panic.Msg)
		}
	}
	h.in.H.Call = h.c.errorsHook
}

func (c *Ctx) linkedOps() {
	op := func(method, what string, f func(h *chain, st *ai.State)) {
		fn := c.P.M("linked", "LinkedList", method)
		key := "linked.LinkedList." + method + what
		if fn == nil {
			c.R.Fail("anchor", key, "", "anchor not found in the tree")
			return
		}
		if c.only != nil && !c.only(key) {
			return
		}
		c.R.Count("operations", 1)
		c.Guard("links", key, fn.Pos(), func() {
			h, st := c.newChain(key, fn)
			defer c.Done(h.in)
			f(h, st)
			if h.ok {
				c.R.OK("links", key, c.P.Pos(fn.Pos()))
			}
		})
	}
	run := func(h *chain, st *ai.State, m string, args ...ai.Val) []ai.Outcome {
		var out []ai.Outcome
		for _, o := range c.callM(h.in, st, h.T, h.self, m, args...) {
			if o.Panic != nil {
				h.bad("answer", o.St, "may crash: %s", o.Panic.Msg)
				continue
			}
			out = append(out, o)
		}
		return out
	}
	old := func(h *chain, from, n ai.Lin) piece { return piece{from: from, len: n} }
	op("Size", "", func(h *chain, st *ai.State) { h.holds(st, []piece{old(h, ai.K(0), h.n)}) })
	for _, m := range []string{"EnqueFront", "EnqueBack", "Push"} {
		m := m
		op(m, "", func(h *chain, st *ai.State) {
			it := h.in.NewSym(c.hashable(), "new item")
			st.Ghost["new"] = it
			h.in.Rigid = map[int]bool{it.ID: true}
			for _, o := range run(h, st, m, it) {
				if isNil(o.St, o.Rets[0]) != ai.T {
					h.bad("answer", o.St, "may report an error")
					continue
				}
				w := []piece{old(h, ai.K(0), h.n), {item: it}}
				if m == "EnqueFront" {
					w[0], w[1] = w[1], w[0]
				}
				h.holds(o.St, w)
			}
		})
	}
	for _, m := range []string{"DequeFront", "DequeBack", "Pop"} {
		m := m
		op(m, "", func(h *chain, st *ai.State) {
			for _, o := range run(h, st, m) {
				for k, q := range branch(o.St, ai.CLe{L: h.n}) {
					if q == nil {
						continue
					}
					failed := isNil(q, o.Rets[1]) != ai.T
					if k == 0 {
						if !failed {
							h.bad("answer", q, "does not report that the list is empty")
						}
						h.holds(q, nil)
						continue
					}
					if failed {
						h.bad("answer", q, "may report an error although the list is not empty")
						continue
					}
					end, w := h.n.AddK(-1), old(h, ai.K(0), h.n.AddK(-1))
					if m == "DequeFront" {
						end, w = ai.K(0), old(h, ai.K(1), h.n.AddK(-1))
					}
					for _, r := range h.items(q, end) {
						if !sameVal(r.St, o.Rets[0], r.V) {
							h.bad("answer", r.St, "returns %s, not the item at that end", r.St.Show(o.Rets[0]))
						}
						h.holds(r.St, []piece{w})
					}
				}
			}
		})
	}
	for _, m := range []string{"First", "Last"} {
		m := m
		op(m, "", func(h *chain, st *ai.State) {
			for _, o := range run(h, st, m) {
				for k, q := range branch(o.St, ai.CLe{L: h.n}) {
					if q == nil {
						continue
					}
					if k == 0 {
						if isNil(q, o.Rets[0]) != ai.T {
							h.bad("answer", q, "returns an item of an empty list")
						}
						h.holds(q, nil)
						continue
					}
					end := ai.K(0)
					if m == "Last" {
						end = h.n.AddK(-1)
					}
					for _, r := range h.items(q, end) {
						if !sameVal(r.St, o.Rets[0], r.V) {
							h.bad("answer", r.St, "returns %s, not the item at that end", r.St.Show(o.Rets[0]))
						}
						h.holds(r.St, []piece{old(h, ai.K(0), h.n)})
					}
				}
			}
		})
	}
	for _, present := range []bool{true, false} {
		present := present
		op("Has", fmt.Sprintf(", item held: %v", present), func(h *chain, st *ai.State) {
			it := h.in.NewSym(c.hashable(), "wanted")
			st.NonNil(it)
			st.Ghost["new"] = it
			p := h.in.NewAtom("p")
			if present {
				st.AddLe(p.Neg())
				st.AddLe(p.AddK(1).Sub(h.n))
				s := h.in.NewSym(c.hashable(), "equal item")
				st.Ghost["probe"] = s
				st.NonNil(s)
				st.SetOrd(s.ID, it.ID, ai.EQ)
				h.p, h.probe = p, &s
				h.in.Protect = []ai.Lin{p}
				h.in.Rigid = map[int]bool{it.ID: true, s.ID: true}
				st.Ghost["pos"] = ai.Int{L: p}
				r := h.in.ReadCell(st, h.N, p)[0]
				r.V.(ai.Struct).F[h.f["Data"]] = s
				st = h.in.WriteCell(r.St, h.N, p, r.V)[0]
			}
			h.onItem = func(st *ai.State, s ai.Sym) {
				st.NonNil(s)
				if !present {
					st.SetOrd(s.ID, it.ID, ai.LT|ai.GT)
				}
			}
			for _, o := range run(h, st, "Has", it) {
				if got := o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C); got == ai.U || (got == ai.T) != present {
					h.bad("answer", o.St, "may not answer %v", present)
				}
			}
		})
	}
	key := "linked.New"
	c.R.Count("operations", 1)
	fn := c.P.Func("linked", "New")
	if fn == nil {
		c.R.Fail("anchor", key, "", "anchor not found in the tree")
		return
	}
	c.Guard("links", key, fn.Pos(), func() {
		h, st := c.newChain(key, fn)
		defer c.Done(h.in)
		for _, o := range h.in.CallFunc(st, nil, fn, nil, nil, fn.Pos()) {
			if o.Panic != nil {
				h.bad("answer", o.St, "may crash: %s", o.Panic.Msg)
				continue
			}
			h.self = o.Rets[0]
			o.St.Ghost["l"] = h.self
			h.holds(o.St, nil)
		}
		if h.ok {
			c.R.OK("links", key, c.P.Pos(fn.Pos()))
		}
	})
}

func branch(st *ai.State, c ai.Cond) []*ai.State {
	t, f := st.Branch(c)
	return []*ai.State{t, f}
}
