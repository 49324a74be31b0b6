package checks

import (
	"fmt"
	"go/token"
	"go/types"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "Abstract interpretation of the exception blocks with unknown block, handler and finally functions, each of which may return, raise an exception or panic with something else, for handler and finally lists of any length; the test which type extends which is decided separately on chains of embedded structs of any length and used through its result.", func(c *Ctx) {
		c.R.Rule("handler", "the first handler registered for the type of the exception, or one it extends, runs once with the exception; no other handler runs")
		c.R.Rule("finally", "every finally action runs once, in order, after block and handler")
		c.R.Rule("result", "what no handler takes, or what a handler or finally action raises, is reported; other panics are passed on")
		c.R.Rule("close", "an opened resource is closed exactly once, whether the block returns or raises an exception")
		c.R.Rule("throw", "the throwing functions raise the exception they were given")
		c.R.Rule("extends", "a type extends itself and what the pointer to its first field, or that one's first field, and so on, is")
		c.R.Assume("registered types are those of values, so never interfaces: assignability is identity")
		c.excBlocks()
		c.excClose()
		c.excThrows()
		c.R.Floor("cases", 24)
		c.R.Floor("type tests", 1)
	})
}

type excRun struct {
	c     *Ctx
	in    *ai.Interp
	key   string
	fn    *ssa.Function
	thr   types.Type // Throwable
	class string     // which handler comes first: "old", "new", "none"
	n, m  ai.Lin     // handlers and finally actions before the new ones
	p     ai.Lin
	fresh ai.Val // what the new handler is registered for
	tests map[*ssa.Function]bool
	ok    bool
}

func (x *excRun) bad(rule string, st *ai.State, pos token.Pos, f string, args ...interface{}) {
	x.ok = false
	if !pos.IsValid() {
		pos = x.fn.Pos()
	}
	x.c.R.Fail(rule, x.key, x.c.P.Pos(pos), fmt.Sprintf(f, args...), x.c.Path(st)...)
}

func mark(st *ai.State, k string) string {
	if s, ok := st.Ghost[k].(ai.Str); ok {
		return s.S
	}
	return ""
}

// outcomes of an unknown function: it returns, raises an exception, or panics with something else.
func (x *excRun) outcomes(st *ai.State, what string, rets ...ai.Val) []ai.Outcome {
	other, exc := st.Clone(), st.Clone()
	st.Ghost[what] = ai.Str{S: "ok"}
	out := []ai.Outcome{{St: st, Rets: rets}}
	e := x.in.NewSym(x.thr, "exception of "+what)
	x.in.Rigid[e.ID] = true
	exc.NonNil(e)
	exc.Ghost[what] = ai.Str{S: "threw"}
	exc.Ghost[what+" value"] = e
	out = append(out, ai.Outcome{St: exc, Panic: &ai.PanicInfo{Kind: "panic", V: e, Pos: x.fn.Pos(), Msg: "exception"}})
	f := x.in.NewSym(types.NewInterfaceType(nil, nil), "other panic of "+what)
	x.in.Rigid[f.ID] = true
	other.NonNil(f)
	other.Ghost[what] = ai.Str{S: "foreign"}
	other.Ghost[what+" value"] = f
	return append(out, ai.Outcome{St: other, Panic: &ai.PanicInfo{Kind: "panic", V: f, Pos: x.fn.Pos(), Msg: "panic"}})
}

func (x *excRun) start(st *ai.State) {
	in := x.in
	in.Rigid = map[int]bool{}
	for _, k := range []string{"try", "handler", "finally"} {
		st.Ghost[k] = ai.Str{}
		st.Ghost[k+" value"] = ai.Nil{}
	}
	in.H.TypeAssert = func(st *ai.State, s ai.Sym, T types.Type) ([]ai.TA, bool) {
		info := in.Info(s.ID)
		if info == nil || !types.IsInterface(T) {
			return nil, false
		}
		if implementsIface(info.T, T) {
			return []ai.TA{{St: st, V: s, OK: true}}, true
		}
		if types.Identical(T, x.thr) {
			return []ai.TA{{St: st, OK: false}}, true
		}
		return nil, false
	}
}

func implementsIface(T, I types.Type) bool {
	i, ok := I.Underlying().(*types.Interface)
	return ok && T != nil && types.Implements(T, i)
}

// typeTest recognises a test of two types that is called from elsewhere.
func (x *excRun) typeTest(ci *ai.CallInfo) bool {
	return ci.Fn != nil && x.c.P.InRepo(ci.Fn) && typeTestSig(ci.Fn)
}

func typeTestSig(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 {
		return false
	}
	if b, ok := s.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	return isReflectType(s.Params().At(0).Type()) && isReflectType(s.Params().At(1).Type())
}

func isReflectType(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Type"
}

// index of a value that is an application of op.
func (x *excRun) index(st *ai.State, v ai.Val, op string) (ai.Lin, bool) {
	if s, ok := st.Resolve(v).(ai.Sym); ok {
		if i := x.in.Info(s.ID); i != nil && i.Op == op {
			return intv(i.Args[0]), true
		}
	}
	return ai.Lin{}, false
}

// arg of a value that is an application of op to another value.
func (x *excRun) arg(st *ai.State, v ai.Val, op string) (ai.Val, bool) {
	if s, ok := st.Resolve(v).(ai.Sym); ok {
		if i := x.in.Info(s.ID); i != nil && i.Op == op {
			return i.Args[0], true
		}
	}
	return nil, false
}

// takes is the answer whether a handler takes the exception.
func (x *excRun) takes(st *ai.State, T ai.Val, pos token.Pos) []ai.Outcome {
	yes := func(st *ai.State) ai.Outcome {
		st.Ghost["found"] = ai.Str{S: "yes"}
		return ai.Outcome{St: st, Rets: []ai.Val{ai.True()}}
	}
	no := func(st *ai.State) ai.Outcome { return ai.Outcome{St: st, Rets: []ai.Val{ai.False()}} }
	either := func(st *ai.State) ai.Outcome { return ai.Outcome{St: st, Rets: []ai.Val{x.in.NewBool("takes")}} }
	if v, ok := x.arg(st, T, "typeof"); ok && sameVal(st, v, x.fresh) {
		switch x.class {
		case "new":
			return []ai.Outcome{yes(st)}
		case "none":
			return []ai.Outcome{no(st)}
		}
		return []ai.Outcome{either(st)}
	}
	i, ok := x.index(st, T, "htype")
	if !ok {
		x.bad("handler", st, pos, "the type tested, %s, is not that of a handler", st.Show(T))
		return []ai.Outcome{either(st)}
	}
	if x.class != "old" {
		return []ai.Outcome{no(st)}
	}
	var out []ai.Outcome
	before, rest := st.Branch(lt(i, x.p))
	if before != nil {
		out = append(out, no(before))
	}
	if rest != nil {
		at, after := rest.Branch(ai.CEq{L: i.Sub(x.p)})
		if at != nil {
			out = append(out, yes(at))
		}
		if after != nil {
			out = append(out, either(after))
		}
	}
	return out
}

func (x *excRun) hook(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	in := x.in
	if ci.Fn != nil && ci.Fn.String() == "reflect.TypeOf" {
		r := in.App(st, "typeof", ci.Sig.Results().At(0).Type(), st.Resolve(ci.Args[0]))
		if s, ok := r.(ai.Sym); ok {
			st.NonNil(s)
		}
		return []ai.Outcome{{St: st, Rets: []ai.Val{r}}}, true
	}
	if x.typeTest(ci) {
		x.tests[ci.Fn] = true
		if v, ok := x.arg(st, ci.Args[0], "typeof"); !ok || !sameVal(st, v, st.Ghost["try value"]) || mark(st, "try") != "threw" {
			x.bad("handler", st, ci.Pos, "the type of %s is tested, not that of the exception", st.Show(ci.Args[0]))
		}
		return x.takes(st, ci.Args[1], ci.Pos), true
	}
	if ci.FnVal == nil {
		return nil, false
	}
	if sameVal(st, ci.FnVal, st.Ghost["tryfn"]) {
		if mark(st, "try") != "" {
			x.bad("result", st, ci.Pos, "the block runs twice")
		}
		return x.outcomes(st, "try"), true
	}
	i, old := x.index(st, ci.FnVal, "handlerfn")
	if isNew := sameVal(st, ci.FnVal, st.Ghost["newhandler"]); isNew || old {
		want := ai.F
		switch {
		case x.class == "old" && old:
			if st.EqLin(i, x.p) {
				want = ai.T
			}
		case x.class == "new" && isNew:
			want = ai.T
		}
		switch {
		case mark(st, "try") != "threw":
			x.bad("handler", st, ci.Pos, "a handler runs though the block raised no exception")
		case want != ai.T:
			x.bad("handler", st, ci.Pos, "a handler runs that is not the first for the exception")
		case mark(st, "handler") != "":
			x.bad("handler", st, ci.Pos, "a second handler runs")
		case !sameVal(st, ci.Args[0], st.Ghost["try value"]):
			x.bad("handler", st, ci.Pos, "the handler is given %s, not the exception", st.Show(ci.Args[0]))
		case !st.EqLin(intv(st.Ghost["ran"]), ai.K(0)):
			x.bad("finally", st, ci.Pos, "the handler runs after a finally action")
		}
		return x.outcomes(st, "handler"), true
	}
	i, old = x.index(st, ci.FnVal, "finallyfn")
	if isNew := sameVal(st, ci.FnVal, st.Ghost["newfinally"]); isNew || old {
		ran := intv(st.Ghost["ran"])
		if isNew {
			i = x.m
		}
		switch {
		case mark(st, "try") == "":
			x.bad("finally", st, ci.Pos, "a finally action runs before the block")
		case mark(st, "try") == "threw" && mark(st, "handler") == "" && x.class != "none":
			x.bad("finally", st, ci.Pos, "a finally action runs though the handler has not run")
		case mark(st, "finally") != "threw" && mark(st, "finally") != "foreign" && !st.EqLin(i, ran):
			x.bad("finally", st, ci.Pos, "finally action %s runs as number %s", st.Show(ai.Int{L: i}), st.Show(ai.Int{L: ran}))
		}
		if g := mark(st, "finally"); g == "threw" || g == "foreign" {
			// after one failed, nothing is required of the others
			return []ai.Outcome{{St: st}}, true
		}
		st.Ghost["ran"] = ai.Int{L: ran.AddK(1)}
		return x.outcomes(st, "finally"), true
	}
	return nil, false
}

// blockFields finds the parts of a block by their types.
func (x *excRun) blockFields(B *types.Named) (try, catches, finallies, ct, cf int) {
	try, catches, finallies, ct, cf = -1, -1, -1, -1, -1
	s, ok := B.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		switch T := s.Field(i).Type().Underlying().(type) {
		case *types.Signature:
			try = i
		case *types.Slice:
			switch e := T.Elem().Underlying().(type) {
			case *types.Signature:
				finallies = i
			case *types.Struct:
				catches = i
				for k := 0; k < e.NumFields(); k++ {
					if isReflectType(e.Field(k).Type()) {
						ct = k
					} else if _, ok := e.Field(k).Type().Underlying().(*types.Signature); ok {
						cf = k
					}
				}
			}
		}
	}
	return
}

func (c *Ctx) excBlocks() {
	B := c.P.Named("exc", "Block")
	thr := c.P.Named("exc", "Throwable")
	if B == nil || thr == nil {
		c.R.Fail("anchor", "exc.Block, exc.Throwable", "", "anchor not found in the tree")
		return
	}
	tests := map[*ssa.Function]bool{}
	for _, m := range []string{"Unwind", "Error", "Exception"} {
		fn := c.Need("exc", "Block", m)
		if fn == nil {
			continue
		}
		for _, class := range []string{"old", "new", "none"} {
			for _, made := range []bool{true, false} {
				if made && class == "old" {
					continue
				}
				what := "any number of handlers and finally actions, then one more of each"
				if made {
					what = "a block just made, then one handler and finally action"
				}
				key := fmt.Sprintf("exc.Block.%s, %s; first handler for the exception: %s", m, what, class)
				c.R.Count("cases", 1)
				c.Guard("result", key, fn.Pos(), func() {
					in := c.Interp()
					defer c.Done(in)
					x := &excRun{c: c, in: in, key: key, fn: fn, thr: thr, class: class, tests: tests, ok: true}
					x.block(B, m, made)
					if x.ok {
						c.R.OK("result", key, c.P.Pos(fn.Pos()))
					}
				})
			}
		}
	}
	for fn := range tests {
		c.R.Count("type tests", 1)
		c.excExtends(fn)
	}
	if len(tests) == 0 {
		c.R.Fail("extends", "test of types", "", "no test of types was seen")
	}
}

func (x *excRun) block(B *types.Named, m string, made bool) {
	c, in := x.c, x.in
	st := in.NewState()
	x.start(st)
	in.Indexed = map[string]bool{"htype": true, "handlerfn": true, "finallyfn": true}
	fnT := func(params ...types.Type) types.Type {
		var vs []*types.Var
		for _, p := range params {
			vs = append(vs, types.NewVar(token.NoPos, nil, "", p))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), nil, false)
	}
	named := func(g string, T types.Type, name string) ai.Sym {
		s := in.NewSym(T, name)
		in.Rigid[s.ID] = true
		st.NonNil(s)
		st.Ghost[g] = s
		return s
	}
	try := named("tryfn", fnT(), "the block")
	do := named("newhandler", fnT(x.thr), "the new handler")
	fin := named("newfinally", fnT(), "the new finally action")
	x.fresh = named("newtype", x.thr, "registered exception")
	st.Ghost["ran"] = ai.Int{L: ai.K(0)}
	st.Ghost["found"] = ai.Str{}
	in.H.Call = x.hook
	x.n, x.m = ai.K(0), ai.K(0)
	var self ai.Val
	if made {
		mk := c.NeedFunc("exc", "Try")
		if mk == nil {
			x.ok = false
			return
		}
		outs := call(in, st, mk, try)
		if len(outs) != 1 || outs[0].Panic != nil {
			panic(ai.Undecided{Msg: "making a block", Pos: mk.Pos()})
		}
		st, self = outs[0].St, outs[0].Rets[0]
	} else {
		ft, fc, ff, ct, cf := x.blockFields(B)
		if ft < 0 || fc < 0 || ff < 0 || ct < 0 || cf < 0 {
			panic(ai.Undecided{Msg: "no block, handlers and finally actions inside exc.Block", Pos: x.fn.Pos()})
		}
		bs := B.Underlying().(*types.Struct)
		cT := bs.Field(fc).Type().Underlying().(*types.Slice).Elem()
		fT := bs.Field(ff).Type().Underlying().(*types.Slice).Elem()
		cS := cT.Underlying().(*types.Struct)
		in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
			switch {
			case types.Identical(o.T, cT):
				v, _ := in.Fresh(st, cT, "handler").(ai.Struct)
				if v.F == nil {
					v = ai.Struct{F: make([]ai.Val, cS.NumFields())}
				}
				t := in.App(st, "htype", cS.Field(ct).Type(), ai.Int{L: idx}).(ai.Sym)
				h := in.App(st, "handlerfn", cS.Field(cf).Type(), ai.Int{L: idx}).(ai.Sym)
				st.NonNil(t)
				st.NonNil(h)
				v.F[ct], v.F[cf] = t, h
				return v, true
			case types.Identical(o.T, fT):
				f := in.App(st, "finallyfn", fT, ai.Int{L: idx}).(ai.Sym)
				st.NonNil(f)
				return f, true
			}
			return nil, false
		}
		in.H.NewIndexed = func(st *ai.State, s ai.Sym) { st.NonNil(s) }
		x.n, x.m = in.NewAtom("handlers"), in.NewAtom("finally actions")
		st.AddLe(x.n.Neg())
		st.AddLe(x.m.Neg())
		if x.class == "old" {
			x.p = in.NewAtom("first")
			st.AddLe(x.p.Neg())
			st.AddLe(x.p.AddK(1).Sub(x.n))
			st.Ghost["p"] = ai.Int{L: x.p}
		}
		st.Ghost["n"], st.Ghost["m"] = ai.Int{L: x.n}, ai.Int{L: x.m}
		arr := func(T types.Type, n ai.Lin, name string) ai.Val {
			cp := in.NewAtom("cap")
			st.AddLe(n.Sub(cp))
			a := st.NewArr(T, cp, ai.DefSym, false, name)
			return ai.Slice{Arr: a.ID, Off: ai.K(0), Len: n, Cap: cp}
		}
		o := st.NewObj(B, in.Fresh(st, B, "block"), false, "block")
		st.SetField(o.ID, []int{ft}, try)
		st.SetField(o.ID, []int{fc}, arr(cT, x.n, "handlers"))
		st.SetField(o.ID, []int{ff}, arr(fT, x.m, "finally actions"))
		self = ai.Ptr{O: o.ID}
		in.Pure = func(o *ai.Obj) bool {
			return o.Arr != nil && o.Arr.Def == ai.DefSym && (types.Identical(o.T, cT) || types.Identical(o.T, fT))
		}
	}
	PB := types.NewPointer(B)
	for _, o := range c.callM(in, st, PB, self, "Catch", x.fresh, do) {
		if o.Panic != nil {
			x.bad("handler", o.St, o.Panic.Pos, "registering a handler may crash: %s", o.Panic.Msg)
			continue
		}
		for _, o := range c.callM(in, o.St, PB, o.Rets[0], "Finally", fin) {
			if o.Panic != nil {
				x.bad("finally", o.St, o.Panic.Pos, "registering a finally action may crash: %s", o.Panic.Msg)
				continue
			}
			for _, o := range c.callM(in, o.St, PB, o.Rets[0], m) {
				x.judge(o, m == "Unwind")
			}
		}
	}
}

// judge compares how running the block ended with what its parts did.
func (x *excRun) judge(o ai.Outcome, unwinds bool) {
	st := o.St
	is := func(k string) bool {
		v := st.Ghost[k+" value"]
		if o.Panic != nil {
			return o.Panic.V != nil && sameVal(st, o.Panic.V, v)
		}
		return len(o.Rets) > 0 && sameVal(st, o.Rets[0], v)
	}
	pos := token.NoPos
	if o.Panic != nil && o.Panic.Pos.IsValid() {
		pos = o.Panic.Pos
	}
	passed := func(k string) {
		if o.Panic == nil || !is(k) {
			x.bad("result", st, pos, "a panic that is not an exception, raised by the %s, is not passed on", k)
		}
	}
	try, handler, finally := mark(st, "try"), mark(st, "handler"), mark(st, "finally")
	switch {
	case try == "":
		x.bad("result", st, pos, "the block does not run")
		return
	case try == "foreign":
		passed("try")
		return
	case handler == "foreign":
		passed("handler")
		return
	case finally == "foreign":
		passed("finally")
		return
	case finally == "threw":
		if !is("finally") {
			x.bad("result", st, pos, "an exception raised by a finally action is not reported")
		}
		return
	}
	if try == "threw" && handler == "" && x.class != "none" {
		x.bad("handler", st, pos, "the handler does not run")
		return
	}
	want := ""
	switch {
	case handler == "threw":
		want = "handler"
	case try == "threw" && handler == "":
		want = "try"
	}
	if !st.EqLin(intv(st.Ghost["ran"]), x.m.AddK(1)) {
		x.bad("finally", st, pos, "not every finally action runs: %s of %s", st.Show(st.Ghost["ran"]), st.Show(ai.Int{L: x.m.AddK(1)}))
		return
	}
	switch {
	case want == "" && o.Panic != nil:
		x.bad("result", st, pos, "ends with %s though nothing is left to report", o.Panic.Msg)
	case want == "" && !unwinds && isNil(st, o.Rets[0]) != ai.T:
		x.bad("result", st, pos, "reports %s though nothing is left to report", st.Show(o.Rets[0]))
	case want != "" && unwinds && (o.Panic == nil || !is(want)):
		x.bad("result", st, pos, "the exception of the %s is not raised again", want)
	case want != "" && !unwinds && (o.Panic != nil || !is(want)):
		x.bad("result", st, pos, "the exception of the %s is not reported", want)
	}
}

func (c *Ctx) excClose() {
	fn := c.NeedFunc("exc", "Close")
	thr := c.P.Named("exc", "Throwable")
	B := c.P.Named("exc", "Block")
	if fn == nil || thr == nil || B == nil || len(fn.Params) != 2 {
		return
	}
	mkT, ok1 := fn.Params[0].Type().Underlying().(*types.Signature)
	doT, ok2 := fn.Params[1].Type().Underlying().(*types.Signature)
	if !ok1 || !ok2 || mkT.Results().Len() != 1 {
		c.R.Fail("anchor", "exc.Close", c.P.Pos(fn.Pos()), "unexpected parameters")
		return
	}
	for _, m := range []string{"Unwind", "Error", "Exception"} {
		for _, extra := range []bool{false, true} {
			key := "exc.Close, run by " + m
			if extra {
				key += ", with a finally action"
			}
			c.R.Count("cases", 1)
			c.Guard("close", key, fn.Pos(), func() {
				in := c.Interp()
				defer c.Done(in)
				x := &excRun{c: c, in: in, key: key, fn: fn, thr: thr, ok: true}
				st := in.NewState()
				x.start(st)
				in.Rigid = map[int]bool{}
				for _, k := range []string{"open", "close"} {
					st.Ghost[k] = ai.Str{}
					st.Ghost[k+" value"] = ai.Nil{}
				}
				sym := func(T types.Type, name string) ai.Sym {
					s := in.NewSym(T, name)
					in.Rigid[s.ID] = true
					st.NonNil(s)
					st.Ghost[name] = s
					return s
				}
				open, use := sym(mkT, "opener"), sym(doT, "user")
				res := sym(mkT.Results().At(0).Type(), "resource")
				fin := sym(types.NewSignatureType(nil, nil, nil, nil, nil, false), "finalizer")
				cerr := sym(types.Universe.Lookup("error").Type(), "failure to close")
				in.H.Call = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
					switch {
					case ci.FnVal != nil && sameVal(st, ci.FnVal, open):
						if mark(st, "open") != "" {
							x.bad("close", st, ci.Pos, "the resource is opened twice")
						}
						return x.outcomes(st, "open", res), true
					case ci.FnVal != nil && sameVal(st, ci.FnVal, use):
						if mark(st, "open") != "ok" || mark(st, "try") != "" || mark(st, "close") != "" || !sameVal(st, ci.Args[0], res) {
							x.bad("close", st, ci.Pos, "the block does not run once, with the open resource")
						}
						return x.outcomes(st, "try"), true
					case ci.FnVal != nil && sameVal(st, ci.FnVal, fin):
						if mark(st, "open") == "ok" && mark(st, "try") != "foreign" && mark(st, "close") == "" {
							x.bad("close", st, ci.Pos, "a finally action runs before the resource is closed")
						}
						st.Ghost["finally"] = ai.Str{S: "ok"}
						return []ai.Outcome{{St: st}}, true
					case ci.Method != nil && ci.Method.Name() == "Close" && sameVal(st, ci.Recv, res):
						if mark(st, "close") != "" {
							x.bad("close", st, ci.Pos, "the resource is closed twice")
						}
						if mark(st, "try") == "" {
							x.bad("close", st, ci.Pos, "the resource is closed before the block runs")
						}
						failed := st.Clone()
						st.Ghost["close"] = ai.Str{S: "ok"}
						failed.Ghost["close"] = ai.Str{S: "failed"}
						return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Nil{}}}, {St: failed, Rets: []ai.Val{cerr}}}, true
					case ci.Fn != nil && ci.Fn.String() == "runtime.Stack":
						n := in.NewAtom("n")
						st.AddLe(n.Neg())
						if b, ok := st.Resolve(ci.Args[0]).(ai.Slice); ok {
							st.AddLe(n.Sub(b.Len))
						}
						return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Int{L: n}}}}, true
					}
					return nil, false
				}
				for _, o := range call(in, st, fn, open, use) {
					if o.Panic != nil {
						x.bad("close", o.St, o.Panic.Pos, "may crash: %s", o.Panic.Msg)
						continue
					}
					st, self := o.St, o.Rets[0]
					PB := types.NewPointer(B)
					if extra {
						outs := c.callM(in, st, PB, self, "Finally", fin)
						if len(outs) != 1 || outs[0].Panic != nil {
							panic(ai.Undecided{Msg: "registering a finally action", Pos: fn.Pos()})
						}
						st, self = outs[0].St, outs[0].Rets[0]
					}
					for _, o := range c.callM(in, st, PB, self, m) {
						x.closed(o, m == "Unwind", extra)
					}
				}
				if x.ok {
					c.R.OK("close", key, c.P.Pos(fn.Pos()))
				}
			})
		}
	}
}

func (x *excRun) closed(o ai.Outcome, unwinds, extra bool) {
	st := o.St
	open, try, cl := mark(st, "open"), mark(st, "try"), mark(st, "close")
	got := ai.Val(ai.Nil{})
	if o.Panic != nil {
		got = o.Panic.V
	} else if len(o.Rets) > 0 {
		got = o.Rets[0]
	}
	is := func(k string) bool { return got != nil && sameVal(st, got, st.Ghost[k+" value"]) }
	switch {
	case open == "":
		x.bad("close", st, token.NoPos, "the resource is never opened")
	case open == "foreign" || try == "foreign":
		k := "open"
		if try == "foreign" {
			k = "try"
		}
		if o.Panic == nil || !is(k) {
			x.bad("result", st, token.NoPos, "a panic that is not an exception is not passed on")
		}
	case open == "ok" && try == "":
		x.bad("close", st, token.NoPos, "the block does not run")
	case open == "ok" && cl == "":
		x.bad("close", st, token.NoPos, "the resource is not closed when the block %s", map[string]string{"ok": "returns", "threw": "raises an exception"}[try])
	case extra && mark(st, "finally") == "":
		x.bad("finally", st, token.NoPos, "the finally action does not run")
	default:
		raised := open == "threw" || try == "threw" || cl == "failed"
		if raised && (unwinds && o.Panic == nil || !unwinds && (o.Panic != nil || isNil(st, got) != ai.F)) {
			x.bad("result", st, token.NoPos, "the exception is not reported (open: %s, block: %s, close: %s)", open, try, cl)
		}
		if cl != "failed" && (open == "threw" && !is("open") || try == "threw" && !is("try")) {
			x.bad("result", st, token.NoPos, "another exception than the one raised is reported")
		}
		if !raised && (o.Panic != nil || len(o.Rets) > 0 && isNil(st, got) != ai.T) {
			x.bad("result", st, token.NoPos, "reports an exception though none was raised")
		}
	}
}

// excThrows checks the functions that raise exceptions.
func (c *Ctx) excThrows() {
	thr, E, X := c.P.Named("exc", "Throwable"), c.P.Named("exc", "Error"), c.P.Named("exc", "Exception")
	if thr == nil || E == nil || X == nil {
		c.R.Fail("anchor", "exc.Error, exc.Exception", "", "anchor not found in the tree")
		return
	}
	errT := types.Universe.Lookup("error").Type()
	for _, name := range []string{"Throw", "ThrowErr", "ThrowOnError", "Throwf", "Rethrow"} {
		fn := c.NeedFunc("exc", name)
		if fn == nil {
			continue
		}
		key := "exc." + name
		c.R.Count("cases", 1)
		c.Guard("throw", key, fn.Pos(), func() {
			in := c.Interp()
			defer c.Done(in)
			in.Rigid = map[int]bool{}
			x := &excRun{c: c, in: in, key: key, fn: fn, thr: thr, ok: true}
			st := in.NewState()
			sym := func(T types.Type, name string) ai.Sym {
				s := in.NewSym(T, name)
				in.Rigid[s.ID] = true
				st.NonNil(s)
				st.Ghost[name] = s
				return s
			}
			e := sym(thr, "exception")
			chained := sym(thr, "chained exception")
			cause := sym(errT, "cause")
			err := sym(types.NewPointer(E), "error")
			in.H.Call = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
				switch {
				case ci.Method != nil && ci.Method.Name() == "Chain" && sameVal(st, ci.Recv, e):
					if !sameVal(st, ci.Args[0], err) {
						x.bad("throw", st, ci.Pos, "chains %s", st.Show(ci.Args[0]))
					}
					return []ai.Outcome{{St: st, Rets: []ai.Val{chained}}}, true
				case ci.Fn != nil && ci.Fn.String() == "runtime.Stack":
					n := in.NewAtom("n")
					st.AddLe(n.Neg())
					if b, ok := st.Resolve(ci.Args[0]).(ai.Slice); ok {
						st.AddLe(n.Sub(b.Len))
					}
					return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Int{L: n}}}}, true
				}
				return nil, false
			}
			type tcase struct {
				args []ai.Val
				want func(o ai.Outcome) string
			}
			same := func(v ai.Val) func(o ai.Outcome) string {
				return func(o ai.Outcome) string {
					if o.Panic == nil || o.Panic.V == nil || !sameVal(o.St, o.Panic.V, v) {
						return "does not raise the exception it was given"
					}
					return ""
				}
			}
			// holds: raises an exception whose errors are the given one
			holds := func(ok func(st *ai.State, v ai.Val) bool) func(o ai.Outcome) string {
				return func(o ai.Outcome) string {
					if o.Panic == nil || o.Panic.V == nil {
						return "raises nothing"
					}
					i, isI := o.St.Resolve(o.Panic.V).(ai.Iface)
					if !isI || !implementsIface(i.T, thr) {
						return "what it raises is not an exception"
					}
					p, isP := o.St.Resolve(i.V).(ai.Ptr)
					if !isP {
						return "what it raises is not a new exception"
					}
					l, isS := o.St.Resolve(o.St.FieldOf(p.O, 0)).(ai.Slice)
					if !isS || !o.St.EqLin(l.Len, ai.K(1)) {
						return "the exception does not hold one error"
					}
					for _, r := range in.ReadCell(o.St, l.Arr, l.Off) {
						if !ok(r.St, r.V) {
							return "the exception does not hold the error"
						}
					}
					return ""
				}
			}
			var cases []tcase
			switch name {
			case "Throw":
				cases = []tcase{{[]ai.Val{e}, same(e)}}
			case "Rethrow":
				cases = []tcase{{[]ai.Val{e, err}, same(chained)}}
			case "ThrowErr":
				cases = []tcase{{[]ai.Val{err}, holds(func(st *ai.State, v ai.Val) bool { return sameVal(st, v, err) })}}
			case "ThrowOnError":
				cases = []tcase{{[]ai.Val{ai.Nil{}}, func(o ai.Outcome) string {
					if o.Panic != nil {
						return "raises an exception though there is no error"
					}
					return ""
				}}, {[]ai.Val{cause}, holds(func(st *ai.State, v ai.Val) bool {
					p, ok := st.Resolve(v).(ai.Ptr)
					return ok && sameVal(st, st.FieldOf(p.O, 0), cause)
				})}}
			case "Throwf":
				cases = []tcase{{[]ai.Val{ai.Str{S: "text"}, ai.Nil{}}, holds(func(st *ai.State, v ai.Val) bool {
					_, ok := st.Resolve(v).(ai.Ptr)
					return ok
				})}}
			}
			for _, t := range cases {
				for _, o := range call(in, st.Clone(), fn, t.args...) {
					if msg := t.want(o); msg != "" {
						x.bad("throw", o.St, token.NoPos, "%s", msg)
					}
				}
			}
			if x.ok {
				c.R.OK("throw", key, c.P.Pos(fn.Pos()))
			}
		})
	}
	// chaining an error to an exception keeps the errors it holds
	fn := c.Need("exc", "Exception", "Chain")
	if fn == nil {
		return
	}
	key := "exc.Exception.Chain"
	c.R.Count("cases", 1)
	c.Guard("throw", key, fn.Pos(), func() {
		in := c.Interp()
		defer c.Done(in)
		x := &excRun{c: c, in: in, key: key, fn: fn, thr: thr, ok: true}
		st := in.NewState()
		n, q, cp := in.NewAtom("n"), in.NewAtom("q"), in.NewAtom("cap")
		st.AddLe(q.Neg())
		st.AddLe(q.AddK(1).Sub(n))
		st.AddLe(n.Sub(cp))
		in.Pure = func(o *ai.Obj) bool { return o.Arr != nil && o.Arr.Def == ai.DefSym }
		in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
			return in.App(st, "error", o.T, ai.Int{L: idx}), true
		}
		in.Indexed = map[string]bool{"error": true}
		a := st.NewArr(types.NewPointer(E), cp, ai.DefSym, false, "errors")
		o := st.NewObj(X, in.Fresh(st, X, "exception"), false, "exception")
		st.SetField(o.ID, []int{0}, ai.Slice{Arr: a.ID, Off: ai.K(0), Len: n, Cap: cp})
		err := in.NewSym(types.NewPointer(E), "error")
		st.NonNil(err)
		in.Rigid = map[int]bool{err.ID: true}
		st.Ghost["err"] = err
		st.Ghost["self"] = ai.Ptr{O: o.ID}
		st.Ghost["n"], st.Ghost["q"] = ai.Int{L: n}, ai.Int{L: q}
		for _, r := range call(in, st, fn, ai.Ptr{O: o.ID}, err) {
			if r.Panic != nil {
				x.bad("throw", r.St, r.Panic.Pos, "may crash: %s", r.Panic.Msg)
				continue
			}
			st := r.St
			i, ok := st.Resolve(r.Rets[0]).(ai.Iface)
			p, ok2 := st.Resolve(i.V).(ai.Ptr)
			if !ok || !ok2 || !types.Identical(i.T, types.NewPointer(X)) {
				x.bad("throw", st, token.NoPos, "returns %s, not an exception", st.Show(r.Rets[0]))
				continue
			}
			l, ok := st.Resolve(st.FieldOf(p.O, 0)).(ai.Slice)
			if !ok || !st.EqLin(l.Len, n.AddK(1)) {
				x.bad("throw", st, token.NoPos, "the exception does not hold one error more")
				continue
			}
			for _, c1 := range in.ReadCell(st.Clone(), l.Arr, l.Off.Add(n)) {
				if !sameVal(c1.St, c1.V, err) {
					x.bad("throw", c1.St, token.NoPos, "the last error is %s", c1.St.Show(c1.V))
				}
			}
			for _, c1 := range in.ReadCell(st.Clone(), l.Arr, l.Off.Add(q)) {
				if !in.Same(c1.St, c1.V, in.App(c1.St, "error", types.NewPointer(E), ai.Int{L: q})) {
					x.bad("throw", c1.St, token.NoPos, "an earlier error becomes %s", c1.St.Show(c1.V))
				}
			}
		}
		if x.ok {
			c.R.OK("throw", key, c.P.Pos(fn.Pos()))
		}
	})
}

// excExtends decides a test whether one type extends another: the first is a pointer P(0) to a struct
// S(0) whose first field has type S(1), and so on up to S(n), which has no first field. P(i) is the
// pointer to S(i). The other type is P(q), or another one.
func (c *Ctx) excExtends(fn *ssa.Function) {
	T := fn.Params[0].Type()
	for _, end := range []string{"a plain type", "an empty struct"} {
		for _, other := range []string{"extended", "pointer", "plain"} {
			key := fmt.Sprintf("%s: other type: %s; the chain ends with %s", c.P.FuncName(fn), other, end)
			c.R.Count("cases", 1)
			c.Guard("extends", key, fn.Pos(), func() {
				in := c.Interp()
				defer c.Done(in)
				in.Rigid = map[int]bool{}
				in.Indexed = map[string]bool{"S": true, "P": true, "OS": true, "OP": true}
				in.H.NewIndexed = func(st *ai.State, s ai.Sym) { st.NonNil(s) }
				x := &excRun{c: c, in: in, key: key, fn: fn, ok: true}
				st := in.NewState()
				n := in.NewAtom("n")
				st.AddLe(n.Neg())
				st.Ghost["n"] = ai.Int{L: n}
				typ := func(st *ai.State, op string, i ai.Lin) ai.Val {
					s := in.App(st, op, T, ai.Int{L: i}).(ai.Sym)
					st.NonNil(s)
					return s
				}
				plain := in.NewSym(T, "plain type")
				in.Rigid[plain.ID] = true
				st.NonNil(plain)
				st.Ghost["plain"] = plain
				b := ai.Val(plain)
				want := false
				q := in.NewAtom("q")
				switch other {
				case "extended":
					st.AddLe(q.Neg())
					st.AddLe(q.Sub(n))
					st.Ghost["q"] = ai.Int{L: q}
					b, want = typ(st, "P", q), true
				case "pointer":
					b = typ(st, "OP", ai.K(0))
				}
				eq := func(st *ai.State, v, w ai.Val) (ai.Cond, bool) {
					v, w = st.Resolve(v), st.Resolve(w)
					op := func(v ai.Val) (string, ai.Lin) {
						if s, ok := v.(ai.Sym); ok {
							if s == plain {
								return "plain", ai.K(0)
							}
							if i := in.Info(s.ID); i != nil && in.Indexed[i.Op] {
								return i.Op, intv(i.Args[0])
							}
						}
						return "", ai.Lin{}
					}
					p, i := op(v)
					r, j := op(w)
					switch {
					case p == "" || r == "":
						return nil, false
					case p == r:
						return ai.CEq{L: i.Sub(j)}, true
					case p == "S" && r == "OS", p == "P" && r == "OP":
						if st.EqLin(j, ai.K(0)) {
							return ai.CConst{V: false}, true
						}
						return in.NewBool("same type").C, true
					case p == "OS" && r == "S", p == "OP" && r == "P":
						if st.EqLin(i, ai.K(0)) {
							return ai.CConst{V: false}, true
						}
						return in.NewBool("same type").C, true
					}
					return ai.CConst{V: false}, true
				}
				in.H.PtrEq = eq
				in.H.Call = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
					ret := func(v ai.Val) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Rets: []ai.Val{v}}}, true }
					if ci.Fn != nil {
						switch ci.Fn.String() {
						case "reflect.PtrTo", "reflect.PointerTo":
							if i, ok := x.index(st, ci.Args[0], "S"); ok {
								return ret(typ(st, "P", i))
							}
							if i, ok := x.index(st, ci.Args[0], "OS"); ok {
								return ret(typ(st, "OP", i))
							}
						}
						if ci.Fn == fn && st.OnStack(fn) > 0 {
							// induction over the chain
							i, ok := x.index(st, ci.Args[0], "P")
							if !ok || !sameVal(st, ci.Args[1], b) || !st.Le(ai.K(1), i) {
								panic(ai.Undecided{Msg: "recursive test of other types", Pos: ci.Pos})
							}
							if !want {
								return ret(ai.False())
							}
							return ret(ai.Bool{C: ai.CLe{L: i.Sub(q)}})
						}
						return nil, false
					}
					if ci.Method == nil || !isReflectType(ci.Method.Type().(*types.Signature).Recv().Type()) {
						return nil, false
					}
					for _, op := range []string{"S", "P", "OS", "OP"} {
						i, ok := x.index(st, ci.Recv, op)
						if !ok {
							continue
						}
						switch ci.Method.Name() {
						case "Kind":
							if op == "P" || op == "OP" {
								return ret(ai.Int{L: ai.K(22)})
							}
							if op == "OS" || end == "an empty struct" {
								return ret(ai.Int{L: ai.K(25)})
							}
							var out []ai.Outcome
							in, at := st.Branch(lt(i, n))
							if in != nil {
								out = append(out, ai.Outcome{St: in, Rets: []ai.Val{ai.Int{L: ai.K(25)}}})
							}
							if at != nil {
								out = append(out, ai.Outcome{St: at, Rets: []ai.Val{ai.Int{L: ai.K(23)}}})
							}
							return out, true
						case "Elem":
							if op == "P" {
								return ret(typ(st, "S", i))
							}
							if op == "OP" {
								return ret(typ(st, "OS", i))
							}
						case "NumField":
							k := in.NewAtom("fields")
							if op == "S" {
								var out []ai.Outcome
								before, at := st.Branch(lt(i, n))
								if before != nil {
									before.AddLe(k.Neg().AddK(1))
									out = append(out, ai.Outcome{St: before, Rets: []ai.Val{ai.Int{L: k}}})
								}
								if at != nil {
									if end == "an empty struct" {
										out = append(out, ai.Outcome{St: at, Rets: []ai.Val{ai.Int{L: ai.K(0)}}})
									} else {
										out = append(out, ai.Outcome{St: at, Panic: &ai.PanicInfo{Kind: "panic", Pos: ci.Pos, Msg: "NumField of a type that is not a struct"}})
									}
								}
								return out, true
							}
							st.AddLe(k.Neg())
							return ret(ai.Int{L: k})
						case "Field":
							k, ok := st.Resolve(ci.Args[0]).(ai.Int)
							FT := ci.Sig.Results().At(0).Type()
							f, ok2 := in.Fresh(st, FT, "field").(ai.Struct)
							if !ok || !ok2 || op != "S" && op != "OS" {
								break
							}
							var out []ai.Outcome
							before, at := st.Branch(lt(i, n))
							if op == "OS" {
								before, at = st, nil
							}
							if before != nil {
								ft := ai.Val(nil)
								if before.EqLin(k.L, ai.K(0)) {
									ft = typ(before, op, i.AddK(1))
								} else {
									s := in.NewSym(T, "type of another field")
									before.NonNil(s)
									ft = s
								}
								g := ai.Struct{F: append([]ai.Val(nil), f.F...)}
								g.F[fields(FT)["Type"]] = ft
								g.F[fields(FT)["Anonymous"]] = ai.True()
								out = append(out, ai.Outcome{St: before, Rets: []ai.Val{g}})
							}
							if at != nil {
								out = append(out, ai.Outcome{St: at, Panic: &ai.PanicInfo{Kind: "panic", Pos: ci.Pos, Msg: "no such field"}})
							}
							return out, true
						case "AssignableTo":
							if q, ok := eq(st, ci.Recv, ci.Args[0]); ok {
								return ret(ai.Bool{C: q})
							}
						case "ConvertibleTo":
							if q, ok := eq(st, ci.Recv, ci.Args[0]); ok {
								more := in.NewBool("convertible").C
								return ret(ai.Bool{C: ai.CNot{C: ai.CAnd{A: ai.CNot{C: q}, B: ai.CNot{C: more}}}})
							}
						}
					}
					if sameVal(st, ci.Recv, plain) {
						switch ci.Method.Name() {
						case "Kind":
							return ret(ai.Int{L: ai.K(25)})
						case "AssignableTo":
							if q, ok := eq(st, ci.Recv, ci.Args[0]); ok {
								return ret(ai.Bool{C: q})
							}
						}
					}
					return nil, false
				}
				for _, o := range call(in, st, fn, typ(st, "P", ai.K(0)), b) {
					if o.Panic != nil {
						x.bad("extends", o.St, o.Panic.Pos, "may crash: %s", o.Panic.Msg)
						continue
					}
					y, no := o.St.Branch(o.Rets[0].(ai.Bool).C)
					if want && no != nil {
						x.bad("extends", no, token.NoPos, "does not recognise a type it extends")
					}
					if !want && y != nil {
						x.bad("extends", y, token.NoPos, "takes a type for one it extends though it is not")
					}
				}
				if x.ok {
					c.R.OK("extends", key, c.P.Pos(fn.Pos()))
				}
			})
		}
	}
}
