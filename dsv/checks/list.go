package checks

import (
	"go/types"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

// seqPre is an arbitrary sequence container observed at one arbitrary position t.
type seqPre struct {
	in    *ai.Interp
	st    *ai.State
	self  ai.Val
	T     types.Type // pointer type
	t     ai.Lin
	n     ai.Lin
	full  bool
	fixed bool
	at    [3]ai.Val // items at t-1, t, t+1 (nil when outside)
}

// seqPreStates enumerates the pre-states: an unknown list with an arbitrary probe index t.
// setup may add facts or build the receiver.
func (c *Ctx) seqPreStates(in *ai.Interp, T types.Type, name string, st *ai.State, self ai.Val) []*seqPre {
	t := in.NewAtom("t")
	st.AddLe(t.Neg())
	in.Protect = []ai.Lin{t.AddK(-1), t, t.AddK(1)}
	in.Probes = in.Protect
	in.ProbeElem = func(T types.Type) bool { return types.Identical(T, c.hashable()) }
	var out []*seqPre
	for _, o := range c.callM(in, st, T, self, "Size") {
		if o.Panic != nil {
			c.R.Fail("observe", name+".Size", c.P.Pos(o.Panic.Pos), "Size may panic: "+o.Panic.Msg)
			continue
		}
		out = append(out, &seqPre{in: in, st: o.St, self: self, T: T, t: t, n: intv(o.Rets[0])})
	}
	var next []*seqPre
	for _, ls := range out {
		for _, o := range c.callM(in, ls.st, T, self, "Full") {
			if o.Panic != nil {
				c.R.Fail("observe", name+".Full", c.P.Pos(o.Panic.Pos), "Full may panic: "+o.Panic.Msg)
				continue
			}
			b := o.St.Resolve(o.Rets[0]).(ai.Bool)
			y, n := o.St.Branch(b.C)
			for k, s := range []*ai.State{y, n} {
				if s != nil {
					q := *ls
					q.st, q.full = s, k == 0
					next = append(next, &q)
				}
			}
		}
	}
	out = next
	for k := 0; k < 3; k++ {
		var next []*seqPre
		for _, ls := range out {
			idx := ls.t.AddK(int64(k - 1))
			for _, o := range c.callM(in, ls.st, T, self, "Get", ai.Int{L: idx}) {
				if o.Panic != nil {
					c.R.Fail("no-crash", name+".Get", c.P.Pos(o.Panic.Pos), "Get may panic: "+o.Panic.Msg, c.Path(o.St)...)
					continue
				}
				q := *ls
				q.st = o.St
				inRange := ai.CAnd{A: ai.CLe{L: idx.Neg()}, B: ai.CLe{L: idx.AddK(1).Sub(q.n)}}
				ok := isNil(o.St, o.Rets[1]) == ai.T
				want := o.St.Eval(inRange)
				if want == ai.U || (want == ai.T) != ok {
					c.R.Fail("index", name+".Get", c.P.Pos(c.P.Method(T.(*types.Pointer).Elem(), "Get").Pos()), "an index is accepted exactly when it is inside the list: not so here", c.Path(o.St)...)
					continue
				}
				q.at[k] = nil
				if ok {
					q.at[k] = o.Rets[0]
				}
				next = append(next, &q)
			}
		}
		out = next
	}
	return out
}

func sameVal(st *ai.State, a, b ai.Val) bool { return st.In().Same(st, a, b) }

// obs is one observed post-state: size and item at t.
type obs struct {
	st   *ai.State
	size ai.Lin
	item ai.Val // nil when Get(t) is refused
}

func (c *Ctx) observe(p *seqPre, st *ai.State, key string, self ai.Val) []obs {
	var out []obs
	for _, o := range c.callM(p.in, st, p.T, self, "Size") {
		if o.Panic != nil {
			c.R.Fail("no-crash", key, c.P.Pos(o.Panic.Pos), "Size panics afterwards: "+o.Panic.Msg, c.Path(o.St)...)
			continue
		}
		n := intv(o.Rets[0])
		for _, g := range c.callM(p.in, o.St, p.T, self, "Get", ai.Int{L: p.t}) {
			if g.Panic != nil {
				c.R.Fail("no-crash", key, c.P.Pos(g.Panic.Pos), "Get panics afterwards: "+g.Panic.Msg, c.Path(g.St)...)
				continue
			}
			r := obs{st: g.St, size: n}
			if isNil(g.St, g.Rets[1]) == ai.T {
				r.item = g.Rets[0]
			}
			out = append(out, r)
		}
	}
	return out
}

// expectSeq checks that the post-state holds size n2 and, at t, what want says.
// want is called on states where everything it asks has been decided by conds.
func (c *Ctx) expectSeq(p *seqPre, st *ai.State, rule, key string, fn *ssa.Function, n2 ai.Lin, conds []ai.Cond, want func(st *ai.State, truth []bool) ai.Val) {
	pos := c.P.Pos(fn.Pos())
	for _, o := range c.observe(p, st, key, p.self) {
		if !o.st.EqLin(o.size, n2) {
			c.R.Fail(rule, key, pos, "size afterwards is "+o.st.Show(ai.Int{L: o.size})+", expected "+o.st.Show(ai.Int{L: n2}), c.Path(o.st)...)
			continue
		}
		in, outside := o.st.Branch(ai.CLe{L: p.t.AddK(1).Sub(n2)})
		if outside != nil && o.item != nil {
			c.R.Fail(rule, key, pos, "an item is visible past the end", c.Path(outside)...)
			continue
		}
		if outside != nil {
			c.R.OK(rule, key+" beyond the end", pos)
		}
		if in == nil {
			continue
		}
		if o.item == nil {
			c.R.Fail(rule, key, pos, "an index inside the list is refused afterwards", c.Path(in)...)
			continue
		}
		c.splitAll(in, conds, nil, func(s *ai.State, truth []bool) {
			w := want(s, truth)
			if w == nil {
				c.R.Fail(rule, key, pos, "the expected item is not known to exist", c.Path(s)...)
				return
			}
			if !sameVal(s, o.item, w) {
				c.R.Fail(rule, key, pos, "item at an arbitrary index t is "+s.Show(o.item)+", expected "+s.Show(w), c.Path(s)...)
				return
			}
			c.R.OK(rule, key, pos)
		})
	}
}

// splitAll decides every condition by splitting the state.
func (c *Ctx) splitAll(st *ai.State, conds []ai.Cond, acc []bool, f func(*ai.State, []bool)) {
	if len(conds) == 0 {
		f(st, acc)
		return
	}
	y, n := st.Branch(conds[0])
	if y != nil {
		c.splitAll(y, conds[1:], append(acc[:len(acc):len(acc)], true), f)
	}
	if n != nil {
		c.splitAll(n, conds[1:], append(acc[:len(acc):len(acc)], false), f)
	}
}

func lt(a, b ai.Lin) ai.Cond { return ai.CLe{L: a.AddK(1).Sub(b)} }
func le(a, b ai.Lin) ai.Cond { return ai.CLe{L: a.Sub(b)} }

func init() {
	register("C10", "Abstract interpretation of every List operation on an unknown list observed at one arbitrary index.", func(c *Ctx) { c.seqCheck(false) })
	register("C11", "Abstract interpretation of every growing operation on an unknown list, full or not, fixed-size or not.", func(c *Ctx) { c.seqCheck(true); c.fixedConstructors() })
}

type seqOp struct {
	name   string
	idx    bool // takes an index
	item   bool // takes an item
	idxMax int64
	grows  bool
	delta  int64
	retIt  bool // returns (item, error)
	noErr  bool
}

var seqOps = []seqOp{
	{name: "Insert", idx: true, item: true, idxMax: 0, grows: true, delta: 1},
	{name: "Append", item: true, grows: true, delta: 1},
	{name: "Push", item: true, grows: true, delta: 1},
	{name: "Set", idx: true, item: true, idxMax: -1},
	{name: "Remove", idx: true, idxMax: -1, delta: -1},
	{name: "Pop", delta: -1, retIt: true},
	{name: "Get", idx: true, idxMax: -1, retIt: true},
	{name: "Clear", noErr: true},
	{name: "Size", noErr: true},
	{name: "Full", noErr: true},
	{name: "Empty", noErr: true},
}

// listInterp builds an unknown receiver of type *pkg.name.
func (c *Ctx) listInterp(pkg, name string) (*ai.Interp, *ai.State, types.Type, ai.Sym) {
	N := c.P.Named(pkg, name)
	if N == nil {
		panic(ai.Undecided{Msg: "type " + pkg + "." + name + " not found"})
	}
	T := types.NewPointer(N)
	in := c.Interp()
	in.H.NoJoinSyms = true
	in.H.Call = c.errorsHook
	st := in.NewState()
	self := in.NewSym(T, "l")
	st.NonNil(self)
	return in, st, T, self
}

func (c *Ctx) seqCheck(fixedOnly bool) {
	c.R.Rule("sequence", "after the operation, Size and Get at an arbitrary index t agree with the operation's sequence semantics")
	c.R.Rule("index", "an index is accepted exactly when it is valid")
	c.R.Rule("unchanged", "a refused operation leaves size and every item as they were")
	c.R.Rule("no-crash", "no path of the operation can panic")
	c.R.Rule("capacity", "inserting into a full fixed-size list is refused; other valid insertions are accepted; fullness stays tied to the same size")
	for _, op := range seqOps {
		if fixedOnly && op.delta == 0 && op.name != "Clear" {
			continue
		}
		key := "list.List." + op.name
		fn := c.Need("list", "List", op.name)
		if fn == nil {
			continue
		}
		c.Guard("sequence", key, fn.Pos(), func() { c.seqOp(op, key, fn, fixedOnly) })
		c.R.Count("operations", 1)
	}
	c.R.Floor("operations", 6)
}

func (c *Ctx) seqOp(op seqOp, key string, fn *ssa.Function, fixedOnly bool) {
	in, st, T, self := c.listInterp("list", "List")
	defer c.Done(in)
	pos := c.P.Pos(fn.Pos())
	for _, p := range c.seqPreStates(in, T, "List", st, self) {
		c.R.Count("pre-states", 1)
		var args []ai.Val
		i := in.NewAtom("i")
		item := in.NewSym(c.hashable(), "item")
		if op.idx {
			args = append(args, ai.Int{L: i})
		}
		if op.item {
			p.st.NonNil(item)
			args = append(args, item)
		}
		at := i
		switch op.name {
		case "Append", "Push":
			at = p.n
		case "Pop":
			at = p.n.AddK(-1)
		}
		hi := p.n.AddK(op.idxMax)
		if op.name == "Append" || op.name == "Push" || op.name == "Pop" {
			hi = p.n.AddK(0)
			if op.name == "Pop" {
				hi = p.n.AddK(-1)
			}
		}
		capBefore := c.fixedCap(p)
		for _, o := range c.callM(in, p.st.Clone(), T, self, op.name, args...) {
			if o.Panic != nil {
				c.R.Fail("no-crash", key, c.P.Pos(o.Panic.Pos), o.Panic.Msg, c.Path(o.St)...)
				continue
			}
			c.R.OK("no-crash", key, pos)
			q := *p
			if op.noErr {
				switch op.name {
				case "Clear":
					c.expectSeq(&q, o.St, "sequence", key, fn, ai.K(0), nil, func(s *ai.State, _ []bool) ai.Val { return nil })
					c.capSame(&q, o.St, key, fn, capBefore)
				case "Size":
					c.R.Check(o.St.EqLin(intv(o.Rets[0]), p.n), "sequence", key, pos, "size differs between two calls", c.Path(o.St)...)
					c.expectSeq(&q, o.St, "sequence", key, fn, p.n, nil, func(s *ai.State, _ []bool) ai.Val { return p.at[1] })
				case "Empty":
					b := o.St.Resolve(o.Rets[0]).(ai.Bool)
					c.splitAll(o.St.Clone(), []ai.Cond{ai.CEq{L: p.n}, b.C}, nil, func(s *ai.State, t []bool) {
						c.R.Check(t[0] == t[1], "sequence", key, pos, "Empty disagrees with Size", c.Path(s)...)
					})
					c.expectSeq(&q, o.St, "sequence", key, fn, p.n, nil, func(s *ai.State, _ []bool) ai.Val { return p.at[1] })
				default:
					c.expectSeq(&q, o.St, "sequence", key, fn, p.n, nil, func(s *ai.State, _ []bool) ai.Val { return p.at[1] })
				}
				continue
			}
			errV := o.Rets[len(o.Rets)-1]
			en := isNil(o.St, errV)
			if en == ai.U {
				c.R.Fail("index", key, pos, "cannot tell whether an error is returned", c.Path(o.St)...)
				continue
			}
			ok := en == ai.T
			c.splitAll(o.St, []ai.Cond{le(ai.K(0), at), le(at, hi)}, nil, func(s *ai.State, tr []bool) {
				valid := tr[0] && tr[1]
				mayAccept := valid && !(op.grows && p.full)
				if ok != mayAccept {
					rule, msg := "index", ""
					switch {
					case ok && !valid:
						msg = "an index outside the list is accepted"
					case ok:
						rule, msg = "capacity", "an insertion into a full fixed-size list is accepted"
					case op.grows && !p.full:
						rule, msg = "capacity", "a valid insertion into a list that is not full is refused"
					default:
						msg = "a valid index is refused"
					}
					if fixedOnly && rule != "capacity" {
						return
					}
					c.R.Fail(rule, key, pos, msg, c.Path(s)...)
					return
				}
				c.R.OK("capacity", key, pos)
				c.capSame(&q, s, key, fn, capBefore)
				if !ok {
					c.expectSeq(&q, s, "unchanged", key, fn, p.n, nil, func(s *ai.State, _ []bool) ai.Val { return p.at[1] })
					return
				}
				if fixedOnly {
					for _, ob := range c.observe(&q, s, key, p.self) {
						c.R.Check(ob.st.EqLin(ob.size, p.n.AddK(op.delta)), "sequence", key, pos, "size afterwards is wrong", c.Path(ob.st)...)
					}
					return
				}
				if op.retIt {
					// the returned item is the one at `at`
					c.splitAll(s.Clone(), []ai.Cond{ai.CEq{L: p.t.Sub(at)}}, nil, func(u *ai.State, tr []bool) {
						if tr[0] {
							c.R.Check(p.at[1] != nil && sameVal(u, o.Rets[0], p.at[1]), "sequence", key, pos, "returns "+u.Show(o.Rets[0])+" instead of the addressed item", c.Path(u)...)
						}
					})
				}
				d := op.delta
				if op.name == "Get" {
					d = 0
				}
				c.expectSeq(&q, s, "sequence", key, fn, p.n.AddK(d), []ai.Cond{lt(p.t, at), ai.CEq{L: p.t.Sub(at)}}, func(u *ai.State, tr []bool) ai.Val {
					switch {
					case op.name == "Get" || tr[0]:
						return p.at[1]
					case op.delta > 0 && tr[1]:
						return item
					case op.delta > 0:
						return p.at[0]
					case op.delta < 0:
						return p.at[2]
					case tr[1]: // Set
						return item
					}
					return p.at[1]
				})
			})
		}
	}
}

// listRep finds the backing slice and the flags of the list struct held at self.
func (c *Ctx) listRep(in *ai.Interp, st *ai.State, self ai.Val, T types.Type) (sl ai.Slice, flags []ai.Val, ok bool) {
	for _, r := range in.DerefPtr(st, self, T, 0) {
		if r.Panic != nil {
			continue
		}
		p := r.V.(ai.Ptr)
		return c.listRepAt(in, st, p, T.Underlying().(*types.Pointer).Elem())
	}
	return
}

func (c *Ctx) listRepAt(in *ai.Interp, st *ai.State, p ai.Ptr, T types.Type) (sl ai.Slice, flags []ai.Val, ok bool) {
	u, isS := T.Underlying().(*types.Struct)
	if !isS {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		q := p
		q.Path = append(append([]int(nil), p.Path...), i)
		switch ft := u.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			v := st.Resolve(in.Load(st, q)[0].V)
			switch x := v.(type) {
			case ai.Slice:
				sl, ok = x, true
			case ai.Nil:
				sl, ok = ai.Slice{Arr: -1}, true
			}
		case *types.Basic:
			if ft.Kind() == types.Bool {
				flags = append(flags, st.Resolve(in.Load(st, q)[0].V))
			}
		case *types.Struct:
			if s2, f2, ok2 := c.listRepAt(in, st, q, u.Field(i).Type()); ok2 {
				sl, ok = s2, true
				flags = append(flags, f2...)
			}
		}
	}
	return
}

type repBefore struct {
	sl    ai.Slice
	flags []ai.Val
}

func (c *Ctx) fixedCap(p *seqPre) *repBefore {
	sl, fl, ok := c.listRep(p.in, p.st, p.self, p.T)
	if !ok {
		panic(ai.Undecided{Msg: "no backing slice found in " + p.T.String()})
	}
	return &repBefore{sl, fl}
}

// capSame: an operation never changes whether a list is of fixed size, nor the size a fixed list was created with.
func (c *Ctx) capSame(p *seqPre, st *ai.State, key string, fn *ssa.Function, before *repBefore) {
	sl, fl, ok := c.listRep(p.in, st, p.self, p.T)
	if !ok || len(fl) != len(before.flags) {
		c.R.Fail("capacity", key, c.P.Pos(fn.Pos()), "cannot find the backing slice afterwards")
		return
	}
	for i := range fl {
		if !sameVal(st, fl[i], before.flags[i]) {
			c.R.Fail("capacity", key, c.P.Pos(fn.Pos()), "the fixed-size setting changes", c.Path(st)...)
			return
		}
		y, _ := st.Clone().Branch(before.flags[i].(ai.Bool).C)
		if y == nil {
			continue
		}
		if !y.EqLin(sl.Cap, before.sl.Cap) {
			c.R.Fail("capacity", key, c.P.Pos(fn.Pos()), "the capacity of a fixed-size list changes from "+y.Show(ai.Int{L: before.sl.Cap})+" to "+y.Show(ai.Int{L: sl.Cap}), c.Path(y)...)
			return
		}
	}
	c.R.OK("capacity", key, c.P.Pos(fn.Pos()))
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
