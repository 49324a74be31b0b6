package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"dsv/bits"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "Bit-provenance dataflow through every scalar encoder and decoder: each bit of the decoded value is traced through the encoded bytes back to the same bit of the original.", (*Ctx).scalarCodecs)
	register("C25", "Dataflow of each key type's Equals, Less and Hash over the finite set of orderings of two values (less, equal, greater) and over values of every other type.", (*Ctx).scalarLaws)
}

// scalars lists the named integer, string and byte-string types of package types.
func (c *Ctx) scalars() []*types.Named {
	var out []*types.Named
	for _, pk := range c.P.Pkgs {
		if c.P.Rel(pk.Pkg) != "types" {
			continue
		}
		sc := pk.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || !tn.Exported() {
				continue
			}
			T, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			switch u := T.Underlying().(type) {
			case *types.Basic:
				if u.Info()&(types.IsInteger|types.IsString) != 0 {
					out = append(out, T)
				}
			case *types.Slice:
				if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					out = append(out, T)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

func isIntType(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// scalarVal makes an arbitrary value of T; which is "s" or "o".
func scalarVal(which string, T types.Type, equal bool) bits.Val {
	name := which
	if equal {
		name = "s"
	}
	if isIntType(T) {
		v := bits.Source(name, T)
		if name == "s" {
			v.L = &bits.Lin{Cs: 1}
		} else {
			v.L = &bits.Lin{Co: 1}
		}
		return v
	}
	return bits.Bytes{Tok: name, Nil: "nil(" + which + ")"}
}

func (c *Ctx) execFor(T types.Type, ord int) *bits.Exec {
	x := bits.New(c.P)
	x.Ord = ord
	if isIntType(T) {
		x.Lo, x.Hi, x.SBits = bits.Range(T)
	}
	return x
}

func (c *Ctx) seen(x *bits.Exec) {
	for f := range x.Funcs {
		if !c.funcs[f] {
			c.funcs[f] = true
			c.R.Count("functions", 1)
		}
	}
}

// guardBits turns "cannot decide" into a failed obligation.
func (c *Ctx) guardBits(rule, key string, pos token.Pos, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(bits.Undecided); ok {
				p := u.Pos
				if !p.IsValid() {
					p = pos
				}
				c.R.Fail(rule, key, c.P.Pos(p), "undecided: "+u.Msg)
				return
			}
			c.R.Fail(rule, key, c.P.Pos(pos), fmt.Sprintf("undecided: analysis failed: %v", r), shortStack())
		}
	}()
	f()
}

// valueMethod finds a method callable on a value (not pointer) of T.
func (c *Ctx) valueMethod(T types.Type, name string) *ssa.Function {
	sel := c.P.SSA.MethodSets.MethodSet(T).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return c.P.SSA.MethodValue(sel)
}

func (c *Ctx) scalarLaws() {
	c.R.Rule("equal", "Equals answers true exactly for two equal values of the type")
	c.R.Rule("less", "Less answers true exactly when the first underlying value is smaller")
	c.R.Rule("other-type", "a value of another type is neither equal nor ordered")
	c.R.Rule("hash", "Hash is a function of the underlying value alone and cannot fail")
	all := c.scalars()
	for _, T := range all {
		name := T.Obj().Name()
		eq, lt, hs := c.valueMethod(T, "Equals"), c.valueMethod(T, "Less"), c.valueMethod(T, "Hash")
		if eq == nil || lt == nil || hs == nil {
			c.R.Fail("anchor", "types."+name, c.P.Pos(T.Obj().Pos()), "the key type lacks Equals, Less or Hash")
			continue
		}
		c.R.Count("key types", 1)
		for ord := -1; ord <= 1; ord++ {
			for _, m := range []*ssa.Function{eq, lt} {
				rule, want := "equal", ord == 0
				if m == lt {
					rule, want = "less", ord < 0
				}
				key := "types." + name + "." + m.Name()
				c.guardBits(rule, key, m.Pos(), func() {
					x := c.execFor(T, ord)
					defer c.seen(x)
					st := bits.NewState()
					for _, o := range x.Call(st, bits.Func{Fn: m}, []bits.Val{scalarVal("s", T, false), bits.Iface{T: T, V: scalarVal("o", T, ord == 0)}}, m.Pos()) {
						c.R.Count("cases", 1)
						if o.Panic != "" {
							c.R.Fail(rule, key, c.P.Pos(o.Pos), "may fail: "+o.Panic, o.St.Trace...)
							continue
						}
						b, ok := o.R[0].(bits.Bool)
						rel := map[int]string{-1: "smaller than", 0: "equal to", 1: "greater than"}[ord]
						c.R.Check(ok && (b.E == "1") == want && (b.E == "0") == !want, rule, key, c.P.Pos(o.Pos), fmt.Sprintf("answers %s for a value %s the other one", answer(b.E), rel), o.St.Trace...)
					}
				})
			}
		}
		// other types, including one this package does not know
		others := []bits.Iface{{T: nil, V: bits.Opaque{E: "foreign"}}}
		for _, O := range all {
			if O != T {
				others = append(others, bits.Iface{T: O, V: scalarVal("o", O, false)})
			}
		}
		for _, oth := range others {
			for _, m := range []*ssa.Function{eq, lt} {
				key := "types." + name + "." + m.Name()
				on := "a foreign type"
				if oth.T != nil {
					on = oth.T.(*types.Named).Obj().Name()
				}
				c.guardBits("other-type", key, m.Pos(), func() {
					x := bits.New(c.P)
					x.Ord = 1
					for _, o := range x.Call(bits.NewState(), bits.Func{Fn: m}, []bits.Val{scalarVal("s", T, false), oth}, m.Pos()) {
						c.R.Count("cases", 1)
						if o.Panic != "" {
							c.R.Fail("other-type", key, c.P.Pos(o.Pos), "may fail given "+on+": "+o.Panic, o.St.Trace...)
							continue
						}
						b, _ := o.R[0].(bits.Bool)
						c.R.Check(b.E == "0", "other-type", key, c.P.Pos(o.Pos), "answers "+answer(b.E)+" for a value of type "+on, o.St.Trace...)
					}
				})
			}
		}
		key := "types." + name + ".Hash"
		c.guardBits("hash", key, hs.Pos(), func() {
			x := c.execFor(T, 0)
			defer c.seen(x)
			for _, o := range x.Call(bits.NewState(), bits.Func{Fn: hs}, []bits.Val{scalarVal("s", T, false)}, hs.Pos()) {
				if o.Panic != "" {
					c.R.Fail("hash", key, c.P.Pos(o.Pos), "may fail: "+o.Panic, o.St.Trace...)
					continue
				}
				for _, p := range x.Call(o.St, bits.Func{Fn: hs}, []bits.Val{scalarVal("o", T, true)}, hs.Pos()) {
					c.R.Count("cases", 1)
					if p.Panic != "" {
						c.R.Fail("hash", key, c.P.Pos(p.Pos), "may fail: "+p.Panic, p.St.Trace...)
						continue
					}
					c.R.Check(x.Same(p.St, o.R[0], p.St, p.R[0]), "hash", key, c.P.Pos(p.Pos), "two equal values may have different hashes: "+clipS(bits.Show(o.R[0]))+" and "+clipS(bits.Show(p.R[0])), p.St.Trace...)
				}
			}
		})
	}
	c.R.Floor("key types", 12)
	c.R.Floor("cases", 350)
}

func clipS(s string) string {
	if len(s) > 120 {
		return s[:120] + "…"
	}
	return s
}

func answer(e string) string {
	switch e {
	case "1":
		return "true"
	case "0":
		return "false"
	}
	return "possibly either way (" + clipS(e) + ")"
}

func (c *Ctx) scalarCodecs() {
	c.R.Rule("round-trip", "decoding what encoding produced succeeds and gives back every bit of the value")
	c.R.Rule("length", "decoding input of any other length is an error")
	c.R.Assume("int and uint are 64 bits wide")
	sc := c.scalars()
	for _, T := range sc {
		PT := types.NewPointer(T)
		mar, un := c.P.Method(PT, "MarshalBinary"), c.P.Method(PT, "UnmarshalBinary")
		name := T.Obj().Name()
		if mar == nil || un == nil {
			c.R.Fail("anchor", "types."+name, c.P.Pos(T.Obj().Pos()), "MarshalBinary or UnmarshalBinary is missing")
			continue
		}
		c.R.Count("codecs", 1)
		c.codec("types."+name, T, mar.Pos(), func(x *bits.Exec, st *bits.State) []bits.Out {
			p := bits.Ptr{Cell: x.NewCell(st, scalarVal("s", T, false)), Idx: -1, F: -1}
			return x.Call(st, bits.Func{Fn: mar}, []bits.Val{p}, mar.Pos())
		}, func(x *bits.Exec, st *bits.State, data bits.Val) []bits.Out {
			p := bits.Ptr{Cell: x.NewCell(st, oldVal(T)), Idx: -1, F: -1}
			outs := x.Call(st, bits.Func{Fn: un}, []bits.Val{p, data}, un.Pos())
			for i, o := range outs {
				if o.Panic == "" {
					outs[i].R = []bits.Val{x.Cell(o.St, p.Cell), o.R[0]}
				}
			}
			return outs
		})
	}
	// codec constructors
	for _, pk := range c.P.Pkgs {
		if c.P.Rel(pk.Pkg) != "types" {
			continue
		}
		s := pk.Pkg.Scope()
		for _, n := range s.Names() {
			f, ok := s.Lookup(n).(*types.Func)
			if !ok || !f.Exported() {
				continue
			}
			sig := f.Type().(*types.Signature)
			if sig.Results().Len() != 2 || namedName(sig.Results().At(0).Type()) != "ItemMarshal" || namedName(sig.Results().At(1).Type()) != "ItemUnmarshal" {
				continue
			}
			fn := c.P.Func("types", n)
			if fn == nil {
				continue
			}
			if sig.Params().Len() == 0 {
				T := c.P.Named("types", strings.TrimSuffix(n, "Marshals"))
				if T == nil {
					c.R.Fail("anchor", "types."+n, c.P.Pos(f.Pos()), "cannot tell which key type this codec is for")
					continue
				}
				c.R.Count("codecs", 1)
				c.codecPair("types."+n, T, T, fn, nil)
				continue
			}
			if sig.Params().Len() == 1 {
				for _, T := range sc {
					PT := types.NewPointer(T)
					c.R.Count("codecs", 1)
					empty := bits.Func{B: func(x *bits.Exec, st *bits.State, _ []bits.Val) []bits.Out {
						return []bits.Out{{St: st, R: []bits.Val{bits.Iface{T: PT, V: bits.Ptr{Cell: x.NewCell(st, oldVal(T)), Idx: -1, F: -1}}}}}
					}}
					c.codecPair("types."+n+" of *"+T.Obj().Name(), T, PT, fn, []bits.Val{empty})
				}
			}
		}
	}
	c.R.Floor("codecs", 36)
}

func namedName(T types.Type) string {
	if n, ok := T.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// oldVal is what a variable of type T may hold before it is overwritten.
func oldVal(T types.Type) bits.Val {
	if isIntType(T) {
		return bits.Source("?old", T)
	}
	return bits.Bytes{Tok: "?old", Nil: "nil(old)"}
}

func (c *Ctx) codecPair(key string, T, item types.Type, mk *ssa.Function, args []bits.Val) {
	pair := func(x *bits.Exec, st *bits.State) (bits.Func, bits.Func) {
		outs := x.Call(st, bits.Func{Fn: mk}, args, mk.Pos())
		if len(outs) != 1 || outs[0].Panic != "" {
			panic(bits.Undecided{Msg: "the codec constructor does not simply return two functions", Pos: mk.Pos()})
		}
		m, ok1 := outs[0].R[0].(bits.Func)
		u, ok2 := outs[0].R[1].(bits.Func)
		if !ok1 || !ok2 {
			panic(bits.Undecided{Msg: "the codec constructor does not return two functions", Pos: mk.Pos()})
		}
		return m, u
	}
	_, isP := item.(*types.Pointer)
	c.codec(key, T, mk.Pos(), func(x *bits.Exec, st *bits.State) []bits.Out {
		m, _ := pair(x, st)
		v := scalarVal("s", T, false)
		if isP {
			v = bits.Ptr{Cell: x.NewCell(st, v), Idx: -1, F: -1}
		}
		return x.Call(st, m, []bits.Val{bits.Iface{T: item, V: v}}, mk.Pos())
	}, func(x *bits.Exec, st *bits.State, data bits.Val) []bits.Out {
		_, u := pair(x, st)
		outs := x.Call(st, u, []bits.Val{data}, mk.Pos())
		for i, o := range outs {
			if o.Panic != "" {
				continue
			}
			f, ok := o.R[0].(bits.Iface)
			if !ok {
				continue
			}
			if f.T == nil || !types.Identical(f.T, item) {
				outs[i].R[0] = bits.Opaque{E: fmt.Sprintf("a value of type %v", f.T)}
				continue
			}
			outs[i].R[0] = f.V
			if p, ok := f.V.(bits.Ptr); ok {
				outs[i].R[0] = x.Cell(o.St, p.Cell)
			}
		}
		return outs
	})
}

// codec checks one encoder against its decoder. dec yields (value, error).
func (c *Ctx) codec(key string, T types.Type, pos token.Pos, enc func(*bits.Exec, *bits.State) []bits.Out, dec func(*bits.Exec, *bits.State, bits.Val) []bits.Out) {
	c.guardBits("round-trip", key, pos, func() {
		x := c.execFor(T, 0)
		defer c.seen(x)
		size := -1
		for _, o := range enc(x, bits.NewState()) {
			c.R.Count("cases", 1)
			if o.Panic != "" {
				c.R.Fail("round-trip", key, c.P.Pos(o.Pos), "encoding fails: "+o.Panic, o.St.Trace...)
				continue
			}
			if _, ok := o.R[1].(bits.Nil); !ok {
				c.R.Fail("round-trip", key, c.P.Pos(o.Pos), "encoding reports an error for some value", o.St.Trace...)
				continue
			}
			if s, ok := o.R[0].(bits.Slice); ok && isIntType(T) {
				if size >= 0 && size != s.Len {
					c.R.Fail("length", key, c.P.Pos(o.Pos), "encodings of the type differ in length")
				}
				size = s.Len
			}
			for _, d := range dec(x, o.St, o.R[0]) {
				c.R.Count("cases", 1)
				if d.Panic != "" {
					c.R.Fail("round-trip", key, c.P.Pos(d.Pos), "decoding fails: "+d.Panic, d.St.Trace...)
					continue
				}
				if _, ok := d.R[1].(bits.Nil); !ok {
					c.R.Fail("round-trip", key, c.P.Pos(d.Pos), "decoding what was encoded reports an error", d.St.Trace...)
					continue
				}
				same := x.Same(d.St, d.R[0], d.St, scalarVal("s", T, false))
				c.R.Check(same, "round-trip", key, c.P.Pos(d.Pos), "the decoded value is not the encoded one: "+bitDiff(d.R[0], scalarVal("s", T, false)), d.St.Trace...)
			}
		}
		if !isIntType(T) {
			return
		}
		if size < 0 {
			return
		}
		st := bits.NewState()
		st.NotLen("data", int64(size))
		for _, d := range dec(x, st, bits.Bytes{Tok: "data", Nil: "nil(data)"}) {
			c.R.Count("cases", 1)
			if d.Panic != "" {
				c.R.Fail("length", key, c.P.Pos(d.Pos), "input of the wrong length crashes: "+d.Panic, d.St.Trace...)
				continue
			}
			_, isn := d.R[1].(bits.Nil)
			c.R.Check(!isn, "length", key, c.P.Pos(d.Pos), fmt.Sprintf("input that is not %d bytes long is accepted", size), d.St.Trace...)
		}
	})
}

func bitDiff(a, b bits.Val) string {
	i, ok1 := a.(bits.Int)
	j, ok2 := b.(bits.Int)
	if !ok1 || !ok2 || len(i.B) != len(j.B) {
		return "it is " + clipS(bits.Show(a))
	}
	for k := range i.B {
		if i.B[k] != j.B[k] {
			return fmt.Sprintf("bit %d of the result is %s", k, i.B[k])
		}
	}
	return ""
}
