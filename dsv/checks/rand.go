package checks

import (
	"go/token"
	"go/types"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

// randCheck: every use of the wrapped source happens under the lock of the object that wraps it.
func (c *Ctx) randCheck() {
	rules := map[string]bool{"source": true, "balance": true, "double-lock": true, "guarded": true, "backed": true}
	c.R.Rule("source", "every call on the wrapped source happens while holding the wrapper's own lock exclusively")
	c.R.Rule("guarded", "fields of the wrapper written after construction are only touched under its lock")
	c.R.Rule("balance", "the lock is released on every path, including panics")
	c.R.Rule("double-lock", "no path acquires the lock twice")
	c.R.Rule("backed", "the generator returned is built on the locked source, whose draws and reseeding reach the wrapped source")
	c.R.Assume("package sync and math/rand behave as documented; math/rand.Rand keeps its own Read position unprotected")
	mk := c.NeedFunc("rand", "ThreadSafeRand")
	if mk == nil {
		return
	}
	c.Guard("backed", "rand.ThreadSafeRand", mk.Pos(), func() {
		in := c.Interp()
		in.H.NoJoinSyms = true
		defer c.Done(in)
		m := &syncModel{c: c, rules: rules, in: in, shared: map[int]bool{}, names: map[string]string{}, acc: map[string][]access{},
			edges: map[string]map[string]token.Pos{}, needs: map[string]map[string]bool{}}
		sources := map[int]bool{}
		var given ai.Val
		var wrapT types.Type
		lockOfWrapper := ""
		ctor := true
		in.H.Call = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if o, ok := m.call(st, ci); ok {
				return o, ok
			}
			if ci.Fn != nil && ci.Fn.Pkg != nil && strings.HasPrefix(ci.Fn.Pkg.Pkg.Path(), "math/rand") {
				switch ci.Fn.Name() {
				case "NewSource":
					s := in.NewSym(ci.Sig.Results().At(0).Type(), "source")
					st.NonNil(s)
					sources[s.ID] = true
					st.Ghost["seed"] = ci.Args[0]
					return []ai.Outcome{{St: st, Rets: []ai.Val{s}}}, true
				case "New":
					given = st.Resolve(ci.Args[0])
					s := in.NewSym(ci.Sig.Results().At(0).Type(), "generator")
					st.NonNil(s)
					in.Info(s.ID).Tag = "generator"
					return []ai.Outcome{{St: st, Rets: []ai.Val{s}}}, true
				}
			}
			if s, ok := ci.Recv.(ai.Sym); ok && sources[s.ID] {
				h := locksOf(st)
				m.check(h[lockOfWrapper] == "W", "source", m.where+" "+ci.Method.Name(), ci.Pos, "uses the source ("+ci.Method.Name()+") holding "+h.String()+", not its own lock", st)
				c.R.Count("source uses seen", 1)
				if ci.Method.Name() == "Seed" {
					bump(st, "seeds")
					st.Ghost["seed"] = ci.Args[0]
				} else {
					bump(st, "draws")
				}
				return []ai.Outcome{{St: st, Rets: freshRets(in, st, ci.Sig)}}, true
			}
			return nil, false
		}
		// the standard source also implements Source64
		in.H.TypeAssert = func(st *ai.State, s ai.Sym, T types.Type) ([]ai.TA, bool) {
			if sources[s.ID] {
				return []ai.TA{{St: st, V: s, OK: true}}, true
			}
			return nil, false
		}
		in.H.OnLoad = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
			if !ctor && m.shared[p.O] {
				m.note(st, p, false, pos)
			}
		}
		in.H.OnStore = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
			if !ctor && m.shared[p.O] {
				m.note(st, p, true, pos)
			}
		}
		st := in.NewState()
		reset := func(st *ai.State) {
			st.Ghost["draws"], st.Ghost["seeds"] = ai.Str{S: "0"}, ai.Str{S: "0"}
			setLocks(st, heldLocks{})
		}
		reset(st)
		st.Ghost["seed"] = ai.Nil{}
		seed := in.Fresh(st, mk.Signature.Params().At(0).Type(), "seed")
		m.where = "ThreadSafeRand"
		var bases []*ai.State
		for _, o := range call(in, st, mk, seed) {
			if o.Panic != nil {
				m.fail("backed", "rand.ThreadSafeRand", o.Panic.Pos, "may fail: "+o.Panic.Msg, o.St)
				continue
			}
			r, ok := o.St.Resolve(o.Rets[0]).(ai.Sym)
			if !ok || in.Info(r.ID).Tag != "generator" {
				m.fail("backed", "rand.ThreadSafeRand", mk.Pos(), "the generator returned was not made by math/rand.New here", o.St)
				continue
			}
			w, ok := given.(ai.Iface)
			var p ai.Ptr
			if ok {
				p, ok = o.St.Resolve(w.V).(ai.Ptr)
			}
			if !ok || !c.P.InRepoPkg(namedPkg(w.T)) {
				m.fail("backed", "rand.ThreadSafeRand", mk.Pos(), "the generator is built on "+o.St.Show(given)+", not on the locked source", o.St)
				continue
			}
			m.check(in.Same(o.St, o.St.Ghost["seed"], seed), "backed", "rand.ThreadSafeRand seed", mk.Pos(), "the source is not seeded with the seed given", o.St)
			wrapT = w.T
			b := o.St.Bare()
			for _, id := range b.Objects() {
				m.shared[id] = true
			}
			T := b.Obj(p.O).T
			S, isS := T.Underlying().(*types.Struct)
			lockF := -1
			for i := 0; isS && i < S.NumFields(); i++ {
				if fromSync(S.Field(i).Type()) {
					lockF = i
				}
			}
			if lockF < 0 {
				m.fail("backed", "rand.ThreadSafeRand", mk.Pos(), "the source under the generator has no lock", o.St)
				continue
			}
			var lv ai.Val = ai.Ptr{O: p.O, Path: []int{lockF}}
			if _, isP := S.Field(lockF).Type().(*types.Pointer); isP {
				lv = b.FieldOf(p.O, lockF)
			}
			lockOfWrapper = m.lockKey(b, lv, mk.Pos())
			b.Ghost["self"] = p
			bases = append(bases, b)
		}
		ctor = false
		if wrapT == nil {
			return
		}
		ms := c.P.SSA.MethodSets.MethodSet(wrapT)
		for i := 0; i < ms.Len(); i++ {
			fn := c.P.SSA.MethodValue(ms.At(i))
			if fn == nil {
				continue
			}
			name := ms.At(i).Obj().Name()
			c.R.Count("operations", 1)
			c.Guard("source", "rand."+name, fn.Pos(), func() {
				for _, b := range bases {
					s := b.Clone()
					reset(s)
					m.where = name
					args := []ai.Val{s.Ghost["self"]}
					sig := ms.At(i).Obj().Type().(*types.Signature)
					for k := 0; k < sig.Params().Len(); k++ {
						v := in.Fresh(s, sig.Params().At(k).Type(), sig.Params().At(k).Name())
						if y, ok := v.(ai.Sym); ok {
							s.NonNil(y)
						}
						args = append(args, v)
					}
					for _, o := range in.CallFunc(s, nil, fn, args, nil, fn.Pos()) {
						pos := ms.At(i).Obj().Pos()
						h := locksOf(o.St)
						if o.Panic != nil {
							m.check(len(h) == 0, "balance", name, o.Panic.Pos, "may fail ("+o.Panic.Msg+") holding "+h.String(), o.St)
							continue
						}
						c.R.Count("paths", 1)
						m.check(len(h) == 0, "balance", name, pos, "returns holding "+h.String(), o.St)
						switch name {
						case "Int63", "Uint64":
							m.check(ghost(o.St, "draws") != "0", "backed", name, pos, "returns a number without drawing from the wrapped source", o.St)
						case "Seed":
							m.check(ghost(o.St, "seeds") != "0" && in.Same(o.St, o.St.Ghost["seed"], args[1]), "backed", name, pos, "does not reseed the wrapped source with the seed given", o.St)
						}
					}
				}
			})
		}
		m.inferGuards(true)
		c.coverSourceUses(in, wrapT)
		c.R.Floor("operations", 3)
		c.R.Floor("source uses seen", 3)
	})
}

// coverSourceUses: every function of the package that touches the wrapper's fields was analysed.
func (c *Ctx) coverSourceUses(in *ai.Interp, wrapT types.Type) {
	T := wrapT
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	for _, fn := range c.P.Funcs {
		if !c.P.InRepo(fn) || len(fn.Blocks) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), T) {
					c.R.Count("source field accesses in the text", 1)
					c.R.Check(in.Funcs[fn], "source", "analysed "+fn.Name(), c.P.Pos(fa.Pos()), "touches the locked source's fields outside the analysed operations")
				}
			}
		}
	}
}

func freshRets(in *ai.Interp, st *ai.State, sig *types.Signature) []ai.Val {
	var out []ai.Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, in.Fresh(st, sig.Results().At(i).Type(), "drawn"))
	}
	return out
}

func namedPkg(T types.Type) *types.Package {
	if p, ok := T.(*types.Pointer); ok {
		T = p.Elem()
	}
	if n, ok := T.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}
