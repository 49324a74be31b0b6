package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "Abstract interpretation of every operation of the sorted list and the sorted set on arbitrary sorted contents. Relative to the item x asked for, sorted contents are described by two positions lo <= hi: items before lo are smaller, from lo to hi equal, from hi on greater.", func(c *Ctx) {
		c.R.Rule("search", "Find, Has and Item answer by lo and hi")
		c.R.Rule("sorted", "afterwards the contents are the old ones with x put in or one equal item taken out at a place that keeps the order")
		c.R.Rule("through", "operations over many items and constructors change contents only through the operations above")
		c.R.Assume("Equals and Less of the items form a total order (C25)")
		c.sortedOps()
		c.sortedThrough()
		c.R.Floor("operations", 28)
	})
}

// sortedList is an arbitrary sorted container and an item x it is asked about.
type sortedList struct {
	c      *Ctx
	in     *ai.Interp
	p      *seqPre
	x      ai.Sym
	lo, hi ai.Lin
	self   ai.Ptr
	before ai.Val // the container before the operation
	strict bool
	key    string
	fn     *ssa.Function
	ok     bool
}

func (s *sortedList) bad(rule string, st *ai.State, f string, args ...interface{}) {
	s.ok = false
	s.c.R.Fail(rule, s.key, s.c.P.Pos(s.fn.Pos()), fmt.Sprintf(f, args...), s.c.Path(st)...)
}

// itemAt recognises the item originally at a position.
func (s *sortedList) itemAt(st *ai.State, v ai.Val) (ai.Lin, bool) {
	if y, ok := st.Resolve(v).(ai.Sym); ok {
		if i := s.in.Info(y.ID); i != nil && i.Op == "item" {
			return i.Args[0].(ai.Int).L, true
		}
	}
	return ai.Lin{}, false
}

// untouched: nothing was stored to the container yet.
func (s *sortedList) untouched(st *ai.State) bool {
	for _, id := range st.Objects() {
		if o := st.Obj(id); o.Arr != nil && o.Dirty && !o.Fresh {
			return false
		}
	}
	return s.before != nil && reflect.DeepEqual(st.Obj(s.self.O).V, s.before)
}

// compare decides Equals and Less between x and items by position.
func (s *sortedList) compare(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	// Find is decided on its own; elsewhere its answer is known
	if ci.Fn != nil && ci.Fn.Name() == "Find" && s.fn.Name() != "Find" && len(ci.Args) == 2 && sameVal(st, ci.Args[1], s.x) {
		if p, ok := st.Resolve(ci.Args[0]).(ai.Ptr); ok && p.O == s.self.O && s.untouched(st) {
			var out []ai.Outcome
			for i, q := range branch(st, lt(s.lo, s.hi)) {
				if q != nil {
					out = append(out, ai.Outcome{St: q, Rets: []ai.Val{ai.Int{L: s.lo}, ai.Bool{C: ai.CConst{V: i == 0}}, ai.Nil{}}})
				}
			}
			return out, true
		}
	}
	if ci.Method == nil || len(ci.Args) != 1 || ci.Name() != "Equals" && ci.Name() != "Less" {
		return s.c.errorsHook(st, ci)
	}
	isX := func(v ai.Val) bool { return sameVal(st, v, s.x) }
	eq := ci.Name() == "Equals"
	// all holds when every condition does; conjunctions are split so that each outcome is known
	all := func(cs ...ai.Cond) ([]ai.Outcome, bool) {
		var out []ai.Outcome
		cur := st
		for _, c := range cs {
			y, n := cur.Branch(c)
			if n != nil {
				out = append(out, ai.Outcome{St: n, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: false}}}})
			}
			if cur = y; y == nil {
				return out, true
			}
		}
		return append(out, ai.Outcome{St: cur, Rets: []ai.Val{ai.Bool{C: ai.CConst{V: true}}}}), true
	}
	a, b := ci.Recv, ci.Args[0]
	i, ai1 := s.itemAt(st, a)
	j, ai2 := s.itemAt(st, b)
	switch {
	case isX(a) && isX(b):
		return all(ai.CConst{V: eq})
	case isX(a) && ai2:
		if eq {
			return all(le(s.lo, j), lt(j, s.hi))
		}
		return all(le(s.hi, j))
	case ai1 && isX(b):
		if eq {
			return all(le(s.lo, i), lt(i, s.hi))
		}
		return all(lt(i, s.lo))
	case ai1 && ai2:
		if eq {
			if s.strict {
				return all(ai.CEq{L: i.Sub(j)})
			}
			break
		}
		if s.strict {
			return all(lt(i, j))
		}
		u := s.in.NewBool("smaller")
		return all(lt(i, j), u.C)
	}
	return []ai.Outcome{{St: st, Rets: []ai.Val{s.in.NewBool("comparison")}}}, true
}

// listField finds the list inside a container type.
func (c *Ctx) listField(T types.Type) ([]int, types.Type) {
	L := c.P.Named("list", "List")
	u, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if types.Identical(ft, L) {
			return []int{i}, ft
		}
		if p, t := c.listField(ft); p != nil {
			return append([]int{i}, p...), t
		}
	}
	return nil, nil
}

type sortedKind struct {
	pkg, typ, ctor string
	dups           bool
}

var sortedKinds = []sortedKind{{"list", "Sorted", "NewSorted", true}, {"list", "Sorted", "NewSorted", false}, {"set", "SortedSet", "NewSortedSet", false}, {"list", "Sorted", "NewFixedSorted", true}, {"list", "Sorted", "NewFixedSorted", false}}

// sorted runs f on every sorted container of a kind.
func (c *Ctx) sorted(k sortedKind, method string, f func(s *sortedList)) {
	if k.ctor == "NewFixedSorted" && method != "Add" {
		return // it differs from the others only in how it is made
	}
	N := c.P.Named(k.pkg, k.typ)
	mk := c.NeedFunc(k.pkg, k.ctor)
	if N == nil || mk == nil {
		c.R.Fail("anchor", k.pkg+"."+k.typ, "", "anchor not found in the tree")
		return
	}
	T := types.NewPointer(N)
	fn := c.P.Method(T, method)
	key := fmt.Sprintf("%s.%s.%s, made by %s, duplicates: %v", k.pkg, k.typ, method, k.ctor, k.dups)
	if fn == nil {
		c.R.Fail("anchor", key, "", "anchor not found in the tree")
		return
	}
	c.R.Count("operations", 1)
	if f := os.Getenv("DSV_ONLY"); f != "" && !strings.Contains(key, f) {
		return
	}
	c.Guard("sorted", key, fn.Pos(), func() {
		in := c.Interp()
		defer c.Done(in)
		in.H.NoJoinSyms = true
		in.Indexed = map[string]bool{"item": true}
		s := &sortedList{c: c, in: in, strict: !k.dups, key: key, fn: fn, ok: true}
		in.H.Call = c.errorsHook
		st := in.NewState()
		var args []ai.Val
		for _, p := range mk.Params {
			if b := p.Type().Underlying().(*types.Basic); b.Info()&types.IsBoolean != 0 {
				args = append(args, ai.Bool{C: ai.CConst{V: k.dups}})
			} else {
				args = append(args, ai.Int{L: ai.K(0)})
			}
		}
		os := call(in, st, mk, args...)
		if len(os) != 1 || os[0].Panic != nil {
			panic(ai.Undecided{Msg: "constructor of " + k.typ, Pos: mk.Pos()})
		}
		st = os[0].St
		self := os[0].Rets[0].(ai.Ptr)
		s.self = self
		path, LT := c.listField(N)
		if path == nil {
			panic(ai.Undecided{Msg: "no list inside " + k.typ, Pos: mk.Pos()})
		}
		st.SetField(self.O, path, in.Fresh(st, LT, "list"))
		st.Ghost["self"] = self
		in.Pure = func(o *ai.Obj) bool { return types.Identical(o.T, c.hashable()) && !o.Fresh }
		in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
			if o.Arr.Def == ai.DefSym && types.Identical(o.T, c.hashable()) && !o.Fresh {
				v := in.App(st, "item", c.hashable(), ai.Int{L: idx}).(ai.Sym)
				st.NonNil(v)
				return v, true
			}
			return nil, false
		}
		in.H.NewIndexed = func(st *ai.State, v ai.Sym) { st.NonNil(v) }
		s.x = in.NewSym(c.hashable(), "x")
		st.NonNil(s.x)
		st.Ghost["x"] = s.x
		s.lo, s.hi = in.NewAtom("lo"), in.NewAtom("hi")
		in.H.Call = s.compare
		for _, p := range c.seqPreStates(in, T, key, st, self) {
			q := *s
			q.p = p
			for _, l := range []ai.Lin{q.lo.Neg(), q.lo.Sub(q.hi), q.hi.Sub(p.n)} {
				if !p.st.Assume(ai.CLe{L: l}, true) {
					panic(ai.Undecided{Msg: "positions", Pos: mk.Pos()})
				}
			}
			if q.strict && !p.st.Assume(ai.CLe{L: q.hi.Sub(q.lo).AddK(-1)}, true) {
				panic(ai.Undecided{Msg: "positions", Pos: mk.Pos()})
			}
			p.st.Ghost["lo"], p.st.Ghost["hi"], p.st.Ghost["n"] = ai.Int{L: q.lo}, ai.Int{L: q.hi}, ai.Int{L: p.n}
			s.before = p.st.Obj(self.O).V
			f(&q)
			s.ok = s.ok && q.ok
		}
		if s.ok {
			c.R.OK("sorted", key, c.P.Pos(fn.Pos()))
		}
	})
}

func (s *sortedList) run(method string, args ...ai.Val) []ai.Outcome {
	var out []ai.Outcome
	for _, o := range s.c.callM(s.in, s.p.st.Clone(), s.p.T, s.p.self, method, args...) {
		if o.Panic != nil {
			s.bad("search", o.St, "may crash: %s", o.Panic.Msg)
			continue
		}
		out = append(out, o)
	}
	return out
}

// compareSeq checks size and item at t against the expected sequence and lists the differences.
func (s *sortedList) compareSeq(st *ai.State, n2 ai.Lin, conds []ai.Cond, want func(tr []bool) ai.Val) (msgs []string, where []*ai.State) {
	bad := func(q *ai.State, f string, args ...interface{}) {
		msgs = append(msgs, fmt.Sprintf(f, args...))
		where = append(where, q)
	}
	for _, o := range s.c.observe(s.p, st.Clone(), s.key, s.p.self) {
		if !o.st.EqLin(o.size, n2) {
			bad(o.st, "size afterwards is %s, expected %s", o.st.Show(ai.Int{L: o.size}), o.st.Show(ai.Int{L: n2}))
			continue
		}
		in, _ := o.st.Branch(lt(s.p.t, n2))
		if in == nil {
			continue
		}
		if o.item == nil {
			bad(in, "an index inside the list is refused afterwards")
			continue
		}
		s.c.splitAll(in, conds, nil, func(q *ai.State, tr []bool) {
			w := want(tr)
			if w == nil || !sameVal(q, o.item, w) {
				bad(q, "the item at an arbitrary position t is %s, expected %s", q.Show(o.item), showVal(q, w))
			}
		})
	}
	return
}

func showVal(st *ai.State, v ai.Val) string {
	if v == nil {
		return "nothing"
	}
	return st.Show(v)
}

func (s *sortedList) unchanged(st *ai.State) {
	m, w := s.compareSeq(st, s.p.n, nil, func([]bool) ai.Val { return s.p.at[1] })
	for i := range m {
		s.bad("sorted", w[i], "should change nothing: %s", m[i])
	}
}

// changed: the contents are the old ones with x put in, or an item taken out, at one of the places.
func (s *sortedList) changed(st *ai.State, delta int64, places ...ai.Lin) {
	var m []string
	var w []*ai.State
	for _, at := range places {
		m, w = s.compareSeq(st, s.p.n.AddK(delta), []ai.Cond{lt(s.p.t, at), ai.CEq{L: s.p.t.Sub(at)}}, func(tr []bool) ai.Val {
			switch {
			case tr[0]:
				return s.p.at[1]
			case delta > 0 && tr[1]:
				return s.x
			case delta > 0:
				return s.p.at[0]
			}
			return s.p.at[2]
		})
		if len(m) == 0 {
			return
		}
	}
	for i := range m {
		s.bad("sorted", w[i], "%s", m[i])
	}
}

func (c *Ctx) sortedOps() {
	for _, k := range sortedKinds {
		k := k
		held := func(s *sortedList) ai.Cond { return lt(s.lo, s.hi) }
		c.sorted(k, "Find", func(s *sortedList) {
			for _, o := range s.run("Find", s.x) {
				if isNil(o.St, o.Rets[2]) != ai.T {
					s.bad("search", o.St, "may report an error")
					continue
				}
				if !o.St.EqLin(intv(o.Rets[0]), s.lo) {
					s.bad("search", o.St, "the position reported is %s, not the first place of x", o.St.Show(o.Rets[0]))
				}
				b := o.St.Resolve(o.Rets[1]).(ai.Bool)
				c.splitAll(o.St.Clone(), []ai.Cond{held(s), b.C}, nil, func(q *ai.State, tr []bool) {
					if tr[0] != tr[1] {
						s.bad("search", q, "reports that x is held: %v", tr[1])
					}
				})
				s.unchanged(o.St)
			}
		})
		c.sorted(k, "Has", func(s *sortedList) {
			for _, o := range s.run("Has", s.x) {
				b := o.St.Resolve(o.Rets[0]).(ai.Bool)
				c.splitAll(o.St.Clone(), []ai.Cond{held(s), b.C}, nil, func(q *ai.State, tr []bool) {
					if tr[0] != tr[1] {
						s.bad("search", q, "answers %v", tr[1])
					}
				})
				s.unchanged(o.St)
			}
		})
		c.sorted(k, "Item", func(s *sortedList) {
			for _, o := range s.run("Item", s.x) {
				failed := isNil(o.St, o.Rets[1]) != ai.T
				for i, q := range branch(o.St.Clone(), held(s)) {
					if q == nil {
						continue
					}
					if failed != (i == 1) {
						s.bad("search", q, "reports that x is absent: %v", failed)
					} else if !failed {
						j, ok := s.itemAt(q, o.Rets[0])
						if !ok || q.Eval(ai.CAnd{A: le(s.lo, j), B: lt(j, s.hi)}) != ai.T {
							s.bad("search", q, "returns %s, which is not an equal item", q.Show(o.Rets[0]))
						}
					}
				}
				s.unchanged(o.St)
			}
		})
		c.sorted(k, "Add", func(s *sortedList) {
			for _, o := range s.run("Add", s.x) {
				failed := isNil(o.St, o.Rets[0]) != ai.T
				for i, q := range branch(o.St, held(s)) {
					if q == nil {
						continue
					}
					switch {
					case i == 0 && s.strict:
						// already held: nothing to do
						s.unchanged(q)
					case failed:
						if !s.p.full {
							s.bad("sorted", q, "may be refused although there is room")
						}
						s.unchanged(q)
					case s.p.full:
						s.bad("sorted", q, "is accepted by a full list")
					default:
						s.changed(q, 1, s.lo, s.hi)
					}
				}
			}
		})
		c.sorted(k, "Delete", func(s *sortedList) {
			for _, o := range s.run("Delete", s.x) {
				failed := isNil(o.St, o.Rets[0]) != ai.T
				for i, q := range branch(o.St, held(s)) {
					if q == nil {
						continue
					}
					switch {
					case failed != (i == 1):
						s.bad("sorted", q, "reports that x is absent: %v", failed)
					case failed:
						s.unchanged(q)
					default:
						s.changed(q, -1, s.lo, s.hi.AddK(-1))
					}
				}
			}
		})
		c.sorted(k, "Remove", func(s *sortedList) {
			i := s.in.NewAtom("i")
			s.p.st.Ghost["i"] = ai.Int{L: i}
			for _, o := range s.run("Remove", ai.Int{L: i}) {
				failed := isNil(o.St, o.Rets[0]) != ai.T
				for b, q := range branch(o.St, ai.CAnd{A: le(ai.K(0), i), B: lt(i, s.p.n)}) {
					if q == nil {
						continue
					}
					switch {
					case failed != (b == 1):
						s.bad("sorted", q, "refuses the position: %v", failed)
					case failed:
						s.unchanged(q)
					default:
						s.changed(q, -1, i)
					}
				}
			}
		})
		c.sorted(k, "Copy", func(s *sortedList) {
			for _, o := range s.run("Copy") {
				old := s.p.self
				s.unchanged(o.St)
				s.p.self = o.Rets[0]
				o.St.Ghost["copy"] = s.p.self
				s.unchanged(o.St)
				s.p.self = old
			}
		})
	}
}

// sortedThrough: whatever else fills a sorted container does so through Add.
func (c *Ctx) sortedThrough() {
	for _, f := range []struct{ pkg, typ, name string }{
		{"list", "Sorted", "Extend"}, {"list", "", "SortedFromSlice"}, {"set", "", "FromSlice"}, {"set", "", "SortedFromSet"}, {"set", "SortedSet", "Extend"},
	} {
		var fn *ssa.Function
		if f.typ == "" {
			fn = c.NeedFunc(f.pkg, f.name)
		} else {
			fn = c.P.Method(types.NewPointer(c.P.Named(f.pkg, f.typ)), f.name)
		}
		key := f.pkg + "." + f.typ + "." + f.name
		if fn == nil {
			c.R.Fail("anchor", key, "", "anchor not found in the tree")
			continue
		}
		c.R.Count("operations", 1)
		c.Guard("through", key, fn.Pos(), func() {
			in := c.Interp()
			defer c.Done(in)
			in.MaxHeads = 200
			st := in.NewState()
			ok := true
			var args []ai.Val
			in.H.Call = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
				if ci.Fn == nil || !c.P.InRepo(ci.Fn) || ci.Fn == fn {
					return c.errorsHook(st, ci)
				}
				sig := ci.Fn.Signature
				if sig.Recv() != nil {
					if n := namedOf(sig.Recv().Type()); n != nil && (n.Obj().Name() == "Sorted" || n.Obj().Name() == "SortedSet") {
						switch ci.Fn.Name() {
						case "Add", "Delete", "Remove", "Clear", "Size", "Has", "Find", "Get", "Item", "Full", "Empty":
							return in.FreshCall(st, ci), true
						}
					}
				}
				if ci.Fn.Name() == "NewSorted" || ci.Fn.Name() == "NewSortedSet" || ci.Fn.Name() == "NewFixedSorted" {
					for i, a := range ci.Args {
						if _, isBool := a.(ai.Bool); !isBool {
							continue
						}
						for k, p := range fn.Params {
							if _, mine := args[k].(ai.Bool); mine && types.Identical(p.Type(), sig.Params().At(i).Type()) && !sameVal(st, a, args[k]) {
								ok = false
								c.R.Fail("through", key, c.P.Pos(ci.Pos), "whether duplicates are allowed is not passed on", c.Path(st)...)
							}
						}
					}
					v := in.NewSym(sig.Results().At(0).Type(), "new "+sig.Results().At(0).Type().String())
					st.NonNil(v)
					return []ai.Outcome{{St: st, Rets: []ai.Val{v}}}, true
				}
				return c.errorsHook(st, ci)
			}
			in.H.OnStore = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
				o := st.Obj(p.O)
				if o == nil || o.Fresh {
					return
				}
				n := namedOf(o.T)
				if o.Arr != nil || n != nil && (n.Obj().Name() == "Sorted" || n.Obj().Name() == "SortedSet" || n.Obj().Name() == "List") {
					ok = false
					c.R.Fail("through", key, c.P.Pos(pos), "writes into the contents directly", c.Path(st)...)
				}
			}
			for i, p := range fn.Params {
				v := in.Fresh(st, p.Type(), p.Name())
				if s, is := v.(ai.Sym); is && i == 0 && fn.Signature.Recv() != nil {
					st.NonNil(s)
				}
				args = append(args, v)
			}
			call(in, st, fn, args...)
			if ok {
				c.R.OK("through", key, c.P.Pos(fn.Pos()))
			}
		})
	}
}

func namedOf(T types.Type) *types.Named {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	n, _ := T.(*types.Named)
	return n
}
