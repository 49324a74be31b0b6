package checks

import (
	"fmt"
	"go/types"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Abstract interpretation of every set operation on operands known only by whether they hold an arbitrary item x, whether one contains the other or they are disjoint, and how many items they have.", func(c *Ctx) { c.setOps() })
}

// setKinds are the kinds of operands: a sorted set, a map built on a set, a set built on a map, a set of unknown kind.
var setKinds = []string{"SortedSet", "MapSet", "SetMap", "other"}

// operand builds an operand of a kind around slot s.
func (w *world) operand(st *ai.State, kind string, s *slot, has bool) ai.Val {
	c := w.c
	var self, v ai.Val
	switch kind {
	case "SortedSet":
		N := c.P.Named("set", "SortedSet")
		if N == nil {
			panic(ai.Undecided{Msg: "set.SortedSet not found"})
		}
		s.sorted = true
		self = w.opaque(st, types.NewPointer(N), s.name)
		v = ai.Iface{T: types.NewPointer(N), V: self}
	case "MapSet", "SetMap":
		N := c.P.Named("set", kind)
		inner := c.P.Named("types", "Set")
		if kind == "SetMap" {
			inner = c.P.Named("types", "Map")
			s.isMap = true
		} else {
			s.entries = true
		}
		if N == nil || inner == nil {
			panic(ai.Undecided{Msg: "set." + kind + " not found"})
		}
		self = w.opaque(st, inner, s.name)
		u := N.Underlying().(*types.Struct)
		f := make([]ai.Val, u.NumFields())
		n := 0
		for i := range f {
			if types.IsInterface(u.Field(i).Type()) && types.Implements(inner, u.Field(i).Type().Underlying().(*types.Interface)) {
				f[i] = self
				n++
			}
		}
		if n != 1 || u.NumFields() != 1 {
			panic(ai.Undecided{Msg: "set." + kind + " is not built on one container"})
		}
		o := st.NewObj(N, ai.Struct{F: f}, false, s.name+" ("+kind+")")
		v = ai.Iface{T: types.NewPointer(N), V: ai.Ptr{O: o.ID}}
	default:
		inner := c.P.Named("types", "Set")
		self = w.opaque(st, inner, s.name)
		v = self
	}
	var stored ai.Val
	if has {
		stored = w.x
		if s.entries {
			val := w.in.NewSym(types.NewInterfaceType(nil, nil), "value of x")
			stored = w.entry(st, w.x, val, true)
		}
		if s.isMap {
			stored = ai.Nil{}
		}
	}
	w.fill(st, s, self, has, stored)
	st.Ghost[s.name+".op"] = v
	return v
}

// items makes a query argument standing for key k, as a user would pass it to a set of the kind.
func (w *world) query(st *ai.State, s *slot, k ai.Val) ai.Val {
	if s.entries {
		return w.entry(st, k, ai.Nil{}, true)
	}
	return k
}

type setCase struct {
	fn   *ssa.Function
	recv bool // method on the first operand
	kind string
	key  string
}

// setFuncs finds every version of a set operation: the package function and each kind's method.
func (c *Ctx) setFuncs(name string) []setCase {
	var out []setCase
	if f := c.P.Func("set", name); f != nil && f.Signature.Params().Len() == 2 {
		for _, k := range setKinds {
			out = append(out, setCase{f, false, k, "set." + name + " on " + k})
		}
	}
	for _, k := range setKinds[:3] {
		if f := c.P.M("set", k, name); f != nil {
			out = append(out, setCase{f, true, k, "set." + k + "." + name})
		}
	}
	return out
}

func (c *Ctx) setOps() {
	c.R.Rule("membership", "x is in the result exactly when the operation's definition says so from its membership in the operands")
	c.R.Rule("test", "the test answers true exactly when the relation holds")
	c.R.Assume("operands hold items of one kind (map entries with map entries), are not changed meanwhile, and keep the contracts of types.Set and types.Map (C06, C08, C09, C12, C14)")
	n := 0
	for _, op := range []struct {
		name string
		want func(a, b bool) bool
	}{
		{"Union", func(a, b bool) bool { return a || b }},
		{"Intersect", func(a, b bool) bool { return a && b }},
		{"Subtract", func(a, b bool) bool { return a && !b }},
	} {
		for _, sc := range c.setFuncs(op.name) {
			for _, bk := range []string{sc.kind, "other"} {
				if sc.kind == "other" && bk == "other" && false {
					continue
				}
				for k := 0; k < 4; k++ {
					n++
					c.setOp(sc, bk, k&1 != 0, k&2 != 0, op.want(k&1 != 0, k&2 != 0))
				}
				if sc.kind == "other" {
					break
				}
			}
		}
	}
	for _, op := range []struct {
		name         string
		flip, proper bool
	}{{"Subset", false, false}, {"Superset", true, false}, {"ProperSubset", false, true}, {"ProperSuperset", true, true}} {
		for _, sc := range c.setFuncs(op.name) {
			for _, bk := range []string{sc.kind, "other"} {
				for _, scen := range []string{"witness", "smaller", "equal"} {
					n++
					c.setTest(sc, bk, op.flip, scen, scen == "smaller" || scen == "equal" && !op.proper)
				}
				if sc.kind == "other" {
					break
				}
			}
		}
	}
	if f := c.P.M("set", "SortedSet", "Overlap"); f != nil {
		for _, scen := range []string{"common", "disjoint"} {
			n++
			c.setTest(setCase{f, true, "SortedSet", "set.SortedSet.Overlap"}, "SortedSet", false, scen, scen == "common")
		}
	} else {
		c.R.Fail("anchor", "set.SortedSet.Overlap", "", "anchor not found in the tree")
	}
	c.R.Count("cases", n)
	c.R.Floor("cases", 150)
}

func (w *world) pass(sc setCase, pos int, v ai.Val) ai.Val {
	// a method takes its receiver, or a parameter of pointer type, unwrapped
	if i, ok := v.(ai.Iface); ok && !types.IsInterface(sc.fn.Params[pos].Type()) {
		return i.V
	}
	return v
}

func (c *Ctx) setOp(sc setCase, bk string, inA, inB, want bool) {
	key := fmt.Sprintf("%s with %s, x in first: %v, in second: %v", sc.key, bk, inA, inB)
	c.Guard("membership", key, sc.fn.Pos(), func() {
		A, B := &slot{name: "A"}, &slot{name: "B"}
		RS, RM := &slot{name: "RSet", sorted: true}, &slot{name: "RMap", isMap: true}
		if sc.kind == "MapSet" {
			RS.entries = true
			if bk == "other" {
				B.entries = true
			}
		}
		w, st := c.newWorld(A, B, RS, RM)
		defer c.Done(w.in)
		a := w.operand(st, sc.kind, A, inA)
		b := w.operand(st, bk, B, inB)
		if bk == "other" && B.entries && inB {
			val := w.in.NewSym(types.NewInterfaceType(nil, nil), "value of x")
			w.set(st, B, "y", w.entry(st, w.x, val, true))
		}
		ok, n := true, 0
		bad := func(st *ai.State, f string, args ...interface{}) {
			ok = false
			c.R.Fail("membership", key, c.P.Pos(sc.fn.Pos()), fmt.Sprintf(f, args...), c.Path(st)...)
		}
		for _, o := range w.in.CallFunc(st, nil, sc.fn, []ai.Val{w.pass(sc, 0, a), w.pass(sc, 1, b)}, nil, sc.fn.Pos()) {
			if o.Panic != nil {
				bad(o.St, "may crash: %s", o.Panic.Msg)
				continue
			}
			if isNil(o.St, o.Rets[1]) != ai.T {
				bad(o.St, "may report an error")
				continue
			}
			m := c.ifaceMethod(o.St, o.Rets[0], "Has")
			res := o.St.Resolve(o.Rets[0])
			if m == nil {
				bad(o.St, "returns %s", o.St.Show(res))
				continue
			}
			for _, h := range w.in.CallMethod(o.St, nil, m, res, []ai.Val{w.query(o.St, A, w.x)}, sc.fn.Pos()) {
				n++
				if h.Panic != nil {
					bad(h.St, "membership in the result may crash: %s", h.Panic.Msg)
					continue
				}
				got := h.St.Eval(h.St.Resolve(h.Rets[0]).(ai.Bool).C)
				if got == ai.U || (got == ai.T) != want {
					bad(h.St, "x %s in the result, which it must %s", map[int]string{ai.T: "is", ai.F: "is not", ai.U: "may or may not be"}[got], map[bool]string{true: "be", false: "not be"}[want])
				}
			}
		}
		if n == 0 && ok {
			bad(st, "never returns")
		}
		if ok {
			c.R.OK("membership", key, c.P.Pos(sc.fn.Pos()))
		}
	})
}

// ifaceMethod finds a method of types.Set for a value.
func (c *Ctx) ifaceMethod(st *ai.State, v ai.Val, name string) *types.Func {
	N := c.P.Named("types", "Set")
	if N == nil || isNil(st, v) == ai.T {
		return nil
	}
	I := N.Underlying().(*types.Interface)
	for i := 0; i < I.NumMethods(); i++ {
		if I.Method(i).Name() == name {
			return I.Method(i)
		}
	}
	return nil
}

func (c *Ctx) setTest(sc setCase, bk string, flip bool, scen string, want bool) {
	key := fmt.Sprintf("%s with %s, %s", sc.key, bk, map[string]string{"witness": "x only in the smaller side's place", "smaller": "contained and smaller", "equal": "contained and of equal size", "common": "x in both", "disjoint": "nothing in common"}[scen])
	c.Guard("test", key, sc.fn.Pos(), func() {
		// A is the operand whose items must lie in B
		A, B := &slot{name: "A"}, &slot{name: "B"}
		w, st := c.newWorld(A, B)
		defer c.Done(w.in)
		ka, kb := sc.kind, bk
		if flip {
			ka, kb = bk, sc.kind
		}
		if sc.kind == "MapSet" {
			A.entries, B.entries = true, true
		}
		inA, inB := false, false
		switch scen {
		case "witness":
			inA = true
		case "common":
			inA, inB = true, true
		case "disjoint":
			w.rel = "disj"
		default:
			w.rel = "sub"
		}
		a := w.operand(st, ka, A, inA)
		b := w.operand(st, kb, B, inB)
		na, nb := w.n(st, A), w.n(st, B)
		switch scen {
		case "smaller":
			st.AddLe(na.AddK(1).Sub(nb))
		case "equal":
			st.AddLe(na.Sub(nb))
			st.AddLe(nb.Sub(na))
		}
		args := []ai.Val{a, b}
		if flip {
			args = []ai.Val{b, a}
		}
		for i := range args {
			args[i] = w.pass(sc, i, args[i])
		}
		ok, n := true, 0
		bad := func(st *ai.State, f string, args ...interface{}) {
			ok = false
			c.R.Fail("test", key, c.P.Pos(sc.fn.Pos()), fmt.Sprintf(f, args...), c.Path(st)...)
		}
		for _, o := range w.in.CallFunc(st, nil, sc.fn, args, nil, sc.fn.Pos()) {
			n++
			if o.Panic != nil {
				bad(o.St, "may crash: %s", o.Panic.Msg)
				continue
			}
			got := o.St.Eval(o.St.Resolve(o.Rets[0]).(ai.Bool).C)
			if got == ai.U || (got == ai.T) != want {
				bad(o.St, "may answer %v, must answer %v", !want, want)
			}
		}
		if n == 0 {
			bad(st, "never returns")
		}
		if ok {
			c.R.OK("test", key, c.P.Pos(sc.fn.Pos()))
		}
	})
}
