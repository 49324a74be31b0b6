package checks

import (
	"fmt"
	"go/types"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	registerClient("C16", "Abstract interpretation of every operation of the unique queues over a queue and a set known only by whether they hold an arbitrary item x; the two agree about x before the operation and must afterwards.", iterClient, func(c *Ctx) {
		c.R.Rule("agree", "queue and set hold the same items, each once, and have the same size")
		c.R.Rule("effect", "adding, taking out and testing x have the effect of a queue of distinct items")
		c.R.Assume("the queue and the set underneath keep their contracts (C09, C14, C15, C17); a unique priority queue is given an empty queue of its own")
		c.uniqueQueues("effect", false)
		c.R.Floor("cases", 30)
	})
}

// ucase is one operation of a unique queue in one situation.
type ucase struct {
	w     *world
	c     *Ctx
	T     types.Type
	self  ai.Val
	key   string
	rule  string
	fn    *ssa.Function
	has   bool
	equal bool
	n0    ai.Lin
	ok    bool
}

func (u *ucase) bad(rule string, st *ai.State, f string, args ...interface{}) {
	u.ok = false
	u.c.R.Fail(rule, u.key, u.c.P.Pos(u.fn.Pos()), fmt.Sprintf(f, args...), u.c.Path(st)...)
}

// parts are the containers the queue is made of.
func (u *ucase) parts(st *ai.State) []*slot {
	var out []*slot
	for _, s := range u.w.slots {
		if isNil(st, st.Ghost[s.name+".self"]) != ai.T {
			out = append(out, s)
		}
	}
	return out
}

// agree checks that all parts tell the same about x; sizes only when the operation was about x.
func (u *ucase) agree(st *ai.State, held bool, size *ai.Lin) {
	for _, s := range u.parts(st) {
		got := str(st, s.name+".has")
		switch {
		case got == "dup":
			u.bad("agree", st, "the queue holds x twice")
		case (got == "y") != held:
			u.bad("agree", st, "afterwards the %s holds x: %v, expected %v", u.part(s), got == "y", held)
		}
		if size != nil && !st.EqLin(u.w.n(st, s), *size) {
			u.bad("agree", st, "afterwards the %s has size %s, expected %s", u.part(s), st.Show(ai.Int{L: u.w.n(st, s)}), st.Show(ai.Int{L: *size}))
		}
	}
	if size != nil {
		for _, o := range u.c.callM(u.w.in, st.Clone(), u.T, u.self, "Size") {
			if o.Panic != nil || !o.St.EqLin(intv(o.Rets[0]), *size) {
				u.bad("agree", o.St, "afterwards Size is not %s", o.St.Show(ai.Int{L: *size}))
			}
		}
	}
	if u.c.P.Method(u.T, "Has") != nil {
		for _, o := range u.c.callM(u.w.in, st.Clone(), u.T, u.self, "Has", u.w.x) {
			if o.Panic != nil {
				u.bad("agree", o.St, "Has may crash: %s", o.Panic.Msg)
				continue
			}
			if got := o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C); got == ai.U || (got == ai.T) != held {
				u.bad("agree", o.St, "afterwards Has(x) is not %v", held)
			}
		}
	}
}

func (u *ucase) part(s *slot) string {
	if s.name == "RMap" || s.name == "RSet" {
		return "set"
	}
	return "queue"
}

// unique runs f on a queue in every situation.
func (c *Ctx) unique(rule, pkg, typ, ctor, method string, f func(u *ucase, st *ai.State, k ai.Val)) {
	N := c.P.Named(pkg, typ)
	mk := c.P.Func(pkg, ctor)
	if N == nil || mk == nil {
		c.R.Fail("anchor", pkg+"."+typ, "", "anchor not found in the tree")
		return
	}
	fn := c.P.M(pkg, typ, method)
	if fn == nil {
		c.R.Fail("anchor", pkg+"."+typ+"."+method, "", "anchor not found in the tree")
		return
	}
	takes := false
	for _, p := range fn.Params[1:] {
		takes = takes || types.IsInterface(p.Type())
	}
	for k := 0; k < 4; k++ {
		has, equal := k&1 != 0, k&2 != 0
		if !takes && equal {
			continue
		}
		key := fmt.Sprintf("%s.%s.%s, x held: %v", pkg, typ, method, has)
		if takes {
			key += fmt.Sprintf(", argument is x: %v", equal)
		}
		c.R.Count("cases", 1)
		c.Guard(rule, key, fn.Pos(), func() {
			Q := &slot{name: "Q"}
			w, st := c.newWorld(Q, &slot{name: "RDeque"}, &slot{name: "RMap", isMap: true}, &slot{name: "RSet"})
			defer c.Done(w.in)
			st.Ghost["seen"] = ai.Str{S: "0"}
			var args []ai.Val
			for _, p := range mk.Params {
				q := w.opaque(st, p.Type(), "given queue")
				st.Ghost["Q.self"] = q
				args = append(args, q)
			}
			os := w.in.CallFunc(st, nil, mk, args, nil, mk.Pos())
			if len(os) != 1 || os[0].Panic != nil {
				panic(ai.Undecided{Msg: "constructor", Pos: mk.Pos()})
			}
			st = os[0].St
			u := &ucase{w: w, c: c, T: types.NewPointer(N), self: os[0].Rets[0], key: key, rule: rule, fn: fn, has: has, equal: equal, ok: true}
			st.Ghost["u"] = u.self
			n := w.in.NewAtom("size")
			st.AddLe(n.Neg())
			if has {
				st.AddLe(ai.K(1).Sub(n))
			}
			u.n0 = n
			ps := u.parts(st)
			if len(ps) < 2 {
				panic(ai.Undecided{Msg: "not built on a queue and a set", Pos: mk.Pos()})
			}
			for _, s := range ps {
				var v ai.Val = w.x
				if s.isMap {
					v = ai.Nil{}
				}
				w.fill(st, s, nil, has, v)
				st.Ghost[s.name+".n"] = ai.Int{L: n}
			}
			kk := w.in.NewSym(c.hashable(), "item")
			st.NonNil(kk)
			if equal {
				st.SetOrd(kk.ID, w.x.ID, ai.EQ)
			} else {
				st.SetOrd(kk.ID, w.x.ID, ai.LT|ai.GT)
			}
			st.Ghost["key"] = kk
			f(u, st, kk)
			if u.ok {
				c.R.OK(rule, key, c.P.Pos(fn.Pos()))
			}
		})
	}
}

func (c *Ctx) uniqueQueues(rule string, atomic bool) {
	type q struct {
		pkg, typ, ctor string
		add, take      []string
	}
	for _, t := range []q{
		{"linked", "UniqueDeque", "NewUniqueDeque", []string{"Push", "EnqueFront", "EnqueBack"}, []string{"Pop", "DequeFront", "DequeBack"}},
		{"heap", "UniquePQ", "NewUnique", []string{"Add", "Push"}, []string{"Pop"}},
	} {
		for _, m := range t.add {
			c.unique(rule, t.pkg, t.typ, t.ctor, m, func(u *ucase, st *ai.State, k ai.Val) {
				var args []ai.Val
				for _, p := range u.fn.Params[1:] {
					if types.IsInterface(p.Type()) {
						args = append(args, k)
					} else {
						args = append(args, u.w.in.Fresh(st, p.Type(), p.Name()))
					}
				}
				for _, o := range c.callM(u.w.in, st, u.T, u.self, m, args...) {
					if o.Panic != nil {
						// a crash with another item shows up when x is that item
						if u.equal {
							u.bad(rule, o.St, "may crash: %s", o.Panic.Msg)
						}
						continue
					}
					n := u.n0
					held := u.has
					if failed := len(o.Rets) > 0 && isNil(o.St, o.Rets[len(o.Rets)-1]) != ai.T; failed {
						if !atomic && u.equal {
							u.bad(rule, o.St, "may report an error")
						}
					} else if atomic {
						continue
					} else if u.equal {
						held = true
						if !u.has {
							n = n.AddK(1)
						}
					}
					if u.equal {
						u.agree(o.St, held, &n)
					} else {
						u.agree(o.St, held, nil)
					}
				}
			})
		}
		for _, m := range t.take {
			c.unique(rule, t.pkg, t.typ, t.ctor, m, func(u *ucase, st *ai.State, k ai.Val) {
				for _, o := range c.callM(u.w.in, st, u.T, u.self, m) {
					// which item came out of the queue?
					took := false
					for _, s := range u.parts(o.St) {
						if u.part(s) == "queue" && u.has && str(o.St, s.name+".has") == "n" {
							took = true
						}
					}
					if o.Panic != nil {
						// a crash on taking another item shows up when x is that item
						if took || !u.has && o.St.Assume(ai.CEq{L: u.n0}, true) {
							u.bad(rule, o.St, "may crash: %s", o.Panic.Msg)
						}
						continue
					}
					failed := len(o.Rets) > 1 && isNil(o.St, o.Rets[len(o.Rets)-1]) != ai.T
					switch {
					case failed && took:
						u.bad(rule, o.St, "takes x out of the queue and reports an error")
					case failed:
						u.agree(o.St, u.has, nil)
					case atomic:
					case took:
						n := u.n0.AddK(-1)
						u.agree(o.St, false, &n)
						if !sameVal(o.St, o.Rets[0], u.w.x) {
							u.bad(rule, o.St, "takes x out but returns %s", o.St.Show(o.Rets[0]))
						}
					default:
						if u.has && sameVal(o.St, o.Rets[0], u.w.x) {
							u.bad(rule, o.St, "returns x but leaves it in")
						}
						u.agree(o.St, u.has, nil)
					}
				}
			})
		}
		if atomic {
			continue
		}
		for _, m := range []string{"Items", "Backwards"} {
			if c.P.M(t.pkg, t.typ, m) == nil {
				continue
			}
			c.unique(rule, t.pkg, t.typ, t.ctor, m, func(u *ucase, st *ai.State, _ ai.Val) {
				drv := c.client("Keys")
				u.w.inner = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
					if ci.Fn == nil || ci.Fn.Pkg != c.P.Driver || ci.Fn.Name() != "Item" {
						return nil, false
					}
					if sameVal(st, ci.Args[0], u.w.x) {
						st.Ghost["seen"] = ai.Str{S: map[string]string{"0": "1"}[str(st, "seen")]}
					}
					return []ai.Outcome{{St: st}}, true
				}
				want := map[bool]string{true: "1", false: "0"}[u.has]
				for _, o := range c.callM(u.w.in, st, u.T, u.self, m) {
					if o.Panic != nil {
						u.bad(rule, o.St, "may crash: %s", o.Panic.Msg)
						continue
					}
					for _, d := range u.w.in.CallFunc(o.St, nil, drv, []ai.Val{o.Rets[0]}, nil, drv.Pos()) {
						if d.Panic != nil {
							u.bad(rule, d.St, "iterating may crash: %s", d.Panic.Msg)
						} else if str(d.St, "seen") != want {
							u.bad(rule, d.St, "iterating does not show x %s times", want)
						}
					}
				}
			})
		}
		if c.P.M(t.pkg, t.typ, "Has") != nil {
			c.unique(rule, t.pkg, t.typ, t.ctor, "Has", func(u *ucase, st *ai.State, k ai.Val) {
				for _, o := range c.callM(u.w.in, st, u.T, u.self, "Has", k) {
					if o.Panic != nil {
						if u.equal {
							u.bad(rule, o.St, "may crash: %s", o.Panic.Msg)
						}
						continue
					}
					if got := o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C); u.equal && (got == ai.U || (got == ai.T) != u.has) {
						u.bad(rule, o.St, "does not answer %v", u.has)
					}
					u.agree(o.St, u.has, nil)
				}
			})
		}
	}
}
