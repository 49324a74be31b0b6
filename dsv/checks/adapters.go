package checks

import (
	"fmt"
	"go/types"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	registerClient("C14", "Abstract interpretation of every method of the two adapters over a container known only by what it holds for an arbitrary key x; iterators driven by client code.", iterClient, func(c *Ctx) {
		c.R.Rule("adapter", "the answer, and afterwards Has, Get and Size for x, are those of a map or set")
		c.R.Rule("iteration", "iterating shows x once, with its value, exactly when it is held")
		c.R.Assume("the container underneath keeps the contract of types.Set or types.Map (C06, C08, C09, C12)")
		c.mapSet("adapter", false)
		c.setMap("adapter", false)
		c.R.Floor("cases", 60)
	})
}

// acase is one operation tried in one situation.
type acase struct {
	w     *world
	s     *slot
	self  ai.Val
	T     types.Type
	key   string
	fn    *ssa.Function
	rule  string
	has   bool
	full  bool
	val   ai.Val // value held for x
	n0    ai.Lin
	ok    bool
	equal bool // the argument is x
}

func (a *acase) bad(st *ai.State, f string, args ...interface{}) {
	a.ok = false
	a.w.c.R.Fail(a.rule, a.key, a.w.c.P.Pos(a.fn.Pos()), fmt.Sprintf(f, args...), a.w.c.Path(st)...)
}

// adapter runs f in every situation: x held or not, container full or not, argument equal to x or not.
func (c *Ctx) adapter(rule, typ, method, what string, needKey bool, f func(a *acase, st *ai.State, k ai.Val)) {
	N := c.P.Named("set", typ)
	if N == nil {
		c.R.Fail("anchor", "set."+typ, "", "anchor not found in the tree")
		return
	}
	T := types.NewPointer(N)
	fn := c.P.M("set", typ, method)
	if fn == nil {
		c.R.Fail("anchor", "set."+typ+"."+method, "", "anchor not found in the tree")
		return
	}
	for k := 0; k < 8; k++ {
		has, full, equal := k&1 != 0, k&2 != 0, k&4 != 0
		if !needKey && !equal {
			continue
		}
		key := fmt.Sprintf("set.%s.%s%s, x held: %v, full: %v", typ, method, what, has, full)
		if needKey {
			key += fmt.Sprintf(", argument is x: %v", equal)
		}
		c.R.Count("cases", 1)
		c.Guard(rule, key, fn.Pos(), func() {
			s := &slot{name: "S"}
			I := &slot{name: "I"}
			w, st := c.newWorld(s, I)
			defer c.Done(w.in)
			st.Ghost["seen"] = ai.Str{S: "0"}
			op := w.operand(st, typ, s, has)
			if full {
				st.Ghost["S.full"] = ai.Str{S: "y"}
			}
			a := &acase{w: w, s: s, self: op.(ai.Iface).V, T: T, key: key, fn: fn, rule: rule, has: has, full: full, n0: w.n(st, s), ok: true, equal: equal}
			if has {
				a.val = st.Ghost["S.v"]
				if s.entries {
					a.val = w.entryField(st, a.val, 1)
				}
			}
			kk := w.in.NewSym(c.hashable(), "key")
			st.NonNil(kk)
			if equal {
				st.SetOrd(kk.ID, w.x.ID, ai.EQ)
			} else {
				st.SetOrd(kk.ID, w.x.ID, ai.LT|ai.GT)
			}
			st.Ghost["key"] = kk
			f(a, st, kk)
			if a.ok {
				c.R.OK(rule, key, c.P.Pos(fn.Pos()))
			}
		})
	}
}

// run performs the method and reports crashes.
func (a *acase) run(st *ai.State, method string, args ...ai.Val) []ai.Outcome {
	var out []ai.Outcome
	os := a.w.c.callM(a.w.in, st, a.T, a.self, method, args...)
	for _, o := range os {
		if o.Panic != nil {
			// a crash with another key shows up when x is that key
			if a.equal {
				a.bad(o.St, "may crash: %s", o.Panic.Msg)
			}
			continue
		}
		out = append(out, o)
	}
	if len(os) == 0 {
		a.bad(st, "never returns")
	}
	return out
}

// expect observes the adapter afterwards: whether x is held, its value (nil: not compared), and the size.
func (a *acase) expect(st *ai.State, held bool, val ai.Val, size *ai.Lin) {
	for _, o := range a.run(st.Clone(), "Has", a.w.x) {
		got := o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C)
		if got == ai.U || (got == ai.T) != held {
			a.bad(o.St, "afterwards Has(x) is not %v", held)
		}
	}
	if a.w.c.P.Method(a.T, "Get") != nil {
		for _, o := range a.run(st.Clone(), "Get", a.w.x) {
			if (isNil(o.St, o.Rets[1]) == ai.T) != held {
				a.bad(o.St, "afterwards Get(x) reports an error: %v", held)
			} else if held && val != nil && !sameVal(o.St, o.Rets[0], val) {
				a.bad(o.St, "afterwards Get(x) is %s, not %s", o.St.Show(o.Rets[0]), o.St.Show(val))
			}
		}
	}
	if size != nil {
		for _, o := range a.run(st.Clone(), "Size") {
			if !o.St.EqLin(intv(o.Rets[0]), *size) {
				a.bad(o.St, "afterwards Size is %s, not %s", o.St.Show(o.Rets[0]), o.St.Show(ai.Int{L: *size}))
			}
		}
	}
}

func (a *acase) same(st *ai.State) {
	if a.equal {
		a.expect(st, a.has, a.val, &a.n0)
	} else {
		a.expect(st, a.has, a.val, nil)
	}
}

func (a *acase) failed(o ai.Outcome) bool { return isNil(o.St, o.Rets[len(o.Rets)-1]) != ai.T }

func plus(l ai.Lin, d int64) *ai.Lin { r := l.AddK(d); return &r }

// mapSet checks the map built on a set. With atomic, only that errors leave everything as it was.
func (c *Ctx) mapSet(rule string, atomic bool) {
	wraps := []struct {
		what string
		f    func(a *acase, st *ai.State, k ai.Val) ai.Val
	}{
		{"(key)", func(a *acase, st *ai.State, k ai.Val) ai.Val { return k }},
		{"(entry)", func(a *acase, st *ai.State, k ai.Val) ai.Val {
			return a.w.entry(st, k, a.w.in.NewSym(types.NewInterfaceType(nil, nil), "value asked with"), true)
		}},
	}
	value := func(a *acase, st *ai.State) ai.Val {
		v := a.w.in.NewSym(types.NewInterfaceType(nil, nil), "new value")
		st.Ghost["value"] = v
		return v
	}
	c.adapter(rule, "MapSet", "Put", "(key, value)", true, func(a *acase, st *ai.State, k ai.Val) {
		v := value(a, st)
		for _, o := range a.run(st, "Put", k, v) {
			switch {
			case a.failed(o):
				if !atomic && a.equal && (a.has || !a.full) {
					a.bad(o.St, "may report an error")
				}
				a.same(o.St)
			case atomic:
			case !a.equal:
				a.same(o.St)
			case a.has:
				a.expect(o.St, true, v, &a.n0)
			default:
				a.expect(o.St, true, v, plus(a.n0, 1))
			}
		}
	})
	c.adapter(rule, "MapSet", "Add", "(entry)", true, func(a *acase, st *ai.State, k ai.Val) {
		v := value(a, st)
		for _, o := range a.run(st, "Add", a.w.entry(st, k, v, true)) {
			switch {
			case a.failed(o):
				if !atomic && a.equal && !a.full && !a.has {
					a.bad(o.St, "may report an error")
				}
				a.same(o.St)
			case atomic:
			case !a.equal:
				a.same(o.St)
			case a.has:
				a.expect(o.St, true, nil, &a.n0)
			default:
				a.expect(o.St, true, v, plus(a.n0, 1))
			}
		}
	})
	c.adapter(rule, "MapSet", "Add", "(key)", true, func(a *acase, st *ai.State, k ai.Val) {
		for _, o := range a.run(st, "Add", k) {
			if a.failed(o) {
				a.same(o.St)
			} else if !atomic {
				a.bad(o.St, "accepts an item that is not a map entry")
			}
		}
	})
	for _, wr := range wraps {
		wr := wr
		for _, m := range []string{"Remove", "Delete"} {
			m := m
			c.adapter(rule, "MapSet", m, wr.what, true, func(a *acase, st *ai.State, k ai.Val) {
				for _, o := range a.run(st, m, wr.f(a, st, k)) {
					if !a.equal {
						if a.failed(o) || !atomic {
							a.same(o.St)
						}
						continue
					}
					if a.failed(o) {
						if !atomic && a.has {
							a.bad(o.St, "may report an error although x is held")
						}
						a.same(o.St)
						continue
					}
					if atomic {
						continue
					}
					if !a.has {
						a.bad(o.St, "does not report that x is absent")
						continue
					}
					if m == "Remove" && !sameVal(o.St, o.Rets[0], a.val) {
						a.bad(o.St, "returns %s instead of the value held", o.St.Show(o.Rets[0]))
					}
					a.expect(o.St, false, nil, plus(a.n0, -1))
				}
			})
		}
		if atomic {
			continue
		}
		c.adapter(rule, "MapSet", "Get", wr.what, true, func(a *acase, st *ai.State, k ai.Val) {
			for _, o := range a.run(st, "Get", wr.f(a, st, k)) {
				if a.equal {
					if a.failed(o) == a.has {
						a.bad(o.St, "reports an error: %v", a.has)
					} else if a.has && !sameVal(o.St, o.Rets[0], a.val) {
						a.bad(o.St, "returns %s instead of the value held", o.St.Show(o.Rets[0]))
					}
				}
				a.same(o.St)
			}
		})
		c.adapter(rule, "MapSet", "Item", wr.what, true, func(a *acase, st *ai.State, k ai.Val) {
			for _, o := range a.run(st, "Item", wr.f(a, st, k)) {
				if a.equal {
					if a.failed(o) == a.has {
						a.bad(o.St, "reports an error: %v", a.has)
					} else if a.has {
						ek, ev := a.w.entryField(o.St, o.Rets[0], 0), a.w.entryField(o.St, o.Rets[0], 1)
						if ek == nil || !sameVal(o.St, ek, a.w.x) || !sameVal(o.St, ev, a.val) {
							a.bad(o.St, "returns %s instead of the entry held", o.St.Show(o.Rets[0]))
						}
					}
				}
				a.same(o.St)
			}
		})
		c.adapter(rule, "MapSet", "Has", wr.what, true, func(a *acase, st *ai.State, k ai.Val) {
			for _, o := range a.run(st, "Has", wr.f(a, st, k)) {
				got := o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C)
				if a.equal && (got == ai.U || (got == ai.T) != a.has) {
					a.bad(o.St, "does not answer %v", a.has)
				}
				a.same(o.St)
			}
		})
	}
	if atomic {
		return
	}
	c.adapter(rule, "MapSet", "Size", "", false, func(a *acase, st *ai.State, k ai.Val) { a.same(st) })
	c.iterations("MapSet", true)
}

// setMap checks the set built on a map.
func (c *Ctx) setMap(rule string, atomic bool) {
	c.adapter(rule, "SetMap", "Add", "(item)", true, func(a *acase, st *ai.State, k ai.Val) {
		for _, o := range a.run(st, "Add", k) {
			switch {
			case a.failed(o):
				if !atomic && a.equal && (a.has || !a.full) {
					a.bad(o.St, "may report an error")
				}
				a.same(o.St)
			case atomic:
			case !a.equal:
				a.expect(o.St, a.has, nil, nil)
			case a.has:
				a.expect(o.St, true, nil, &a.n0)
			default:
				a.expect(o.St, true, nil, plus(a.n0, 1))
			}
		}
	})
	c.adapter(rule, "SetMap", "Delete", "(item)", true, func(a *acase, st *ai.State, k ai.Val) {
		for _, o := range a.run(st, "Delete", k) {
			switch {
			case !a.equal:
				if a.failed(o) || !atomic {
					a.same(o.St)
				}
			case a.failed(o):
				if !atomic && a.has {
					a.bad(o.St, "may report an error although x is held")
				}
				a.same(o.St)
			case atomic:
			case !a.has:
				a.bad(o.St, "does not report that x is absent")
			default:
				a.expect(o.St, false, nil, plus(a.n0, -1))
			}
		}
	})
	if atomic {
		return
	}
	c.adapter(rule, "SetMap", "Has", "(item)", true, func(a *acase, st *ai.State, k ai.Val) {
		for _, o := range a.run(st, "Has", k) {
			got := o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C)
			if a.equal && (got == ai.U || (got == ai.T) != a.has) {
				a.bad(o.St, "does not answer %v", a.has)
			}
			a.same(o.St)
		}
	})
	c.adapter(rule, "SetMap", "Size", "", false, func(a *acase, st *ai.State, k ai.Val) { a.same(st) })
	c.iterations("SetMap", false)
}

// iterations drives the iterators, and Extend from an iterator.
func (c *Ctx) iterations(typ string, isMap bool) {
	for _, it := range []struct {
		method, client string
	}{{"Items", "Keys"}, {"Keys", "Keys"}, {"Values", "Values"}, {"Iterate", "Entries"}} {
		it := it
		if c.P.M("set", typ, it.method) == nil && it.method != "Items" {
			continue
		}
		c.adapter("iteration", typ, it.method, "", false, func(a *acase, st *ai.State, _ ai.Val) {
			drv := c.client(it.client)
			count := func(st *ai.State) {
				switch str(st, "seen") {
				case "0":
					st.Ghost["seen"] = ai.Str{S: "1"}
				default:
					st.Ghost["seen"] = ai.Str{S: "many"}
				}
			}
			a.w.inner = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
				if ci.Fn == nil || ci.Fn.Pkg != c.P.Driver || ci.Fn.Name() != "Item" && ci.Fn.Name() != "Entry" {
					return nil, false
				}
				done := []ai.Outcome{{St: st}}
				if it.method == "Values" {
					if a.val != nil && sameVal(st, ci.Args[0], a.val) {
						count(st)
					}
					return done, true
				}
				var out []ai.Outcome
				v := ci.Args[0]
				if i, ok := st.Resolve(v).(ai.Iface); ok && types.IsInterface(i.T) {
					v = i.V
				}
				for _, k := range a.w.key(st, v) {
					if it.method == "Keys" && k.entry || it.method == "Items" && k.entry != a.s.entries {
						a.bad(k.st, "shows %s", k.st.Show(v))
					}
					y, n := k.st.Branch(ai.COrd{A: k.key.ID, B: a.w.x.ID, M: ai.EQ})
					if y != nil {
						count(y)
						val := ai.Val(nil)
						if it.method == "Iterate" {
							val = ci.Args[1]
						} else if k.entry {
							val = a.w.entryField(y, v, 1)
						}
						if val != nil && a.has && isMap && !sameVal(y, val, a.val) {
							a.bad(y, "shows x with %s instead of its value", y.Show(val))
						}
						out = append(out, ai.Outcome{St: y})
					}
					if n != nil {
						out = append(out, ai.Outcome{St: n})
					}
				}
				return out, true
			}
			for _, o := range a.run(st, it.method) {
				for _, d := range a.w.in.CallFunc(o.St, nil, drv, []ai.Val{o.Rets[0]}, nil, drv.Pos()) {
					if d.Panic != nil {
						a.bad(d.St, "iterating may crash: %s", d.Panic.Msg)
						continue
					}
					want := "0"
					if a.has {
						want = "1"
					}
					if it.method == "Values" && !isMap {
						continue
					}
					if got := str(d.St, "seen"); got != want {
						a.bad(d.St, "iterating shows x %s times, expected %s", got, want)
					}
				}
			}
		})
	}
	for _, given := range []bool{false, true} {
		given := given
		c.adapter("adapter", typ, "Extend", fmt.Sprintf(" from an iteration with x: %v", given), false, func(a *acase, st *ai.State, _ ai.Val) {
			I := a.w.slot("I")
			I.entries = a.s.entries
			var v ai.Val = a.w.x
			if I.entries {
				v = a.w.entry(st, a.w.x, a.w.in.NewSym(types.NewInterfaceType(nil, nil), "given value"), true)
			}
			a.w.fill(st, I, nil, given, v)
			it := a.w.iterator(st, I, a.fn.Params[1].Type())
			for _, o := range a.run(st, "Extend", it) {
				if a.failed(o) {
					if !a.full {
						a.bad(o.St, "may report an error")
					}
					continue
				}
				a.expect(o.St, a.has || given, nil, nil)
			}
		})
	}
}
