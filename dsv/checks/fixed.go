package checks

import (
	"go/types"

	"dsv/ai"
)

// fixedConstructors: what each constructor and copy makes of the fixed-size setting.
func (c *Ctx) fixedConstructors() {
	c.R.Rule("constructor", "a fixed-size constructor yields an empty container that is full exactly at the requested size; other constructors yield one without a limit; copying keeps the setting and the limit")
	type ctor struct {
		pkg, name string
		fixed     bool
		slice     bool
	}
	for _, k := range []ctor{
		{"list", "New", false, false}, {"list", "Fixed", true, false}, {"list", "FromSlice", false, true},
		{"list", "NewSorted", false, false}, {"list", "NewFixedSorted", true, false}, {"set", "NewSortedSet", false, false},
	} {
		fn := c.NeedFunc(k.pkg, k.name)
		if fn == nil {
			continue
		}
		key := k.pkg + "." + k.name
		pos := c.P.Pos(fn.Pos())
		c.R.Count("constructors", 1)
		c.Guard("constructor", key, fn.Pos(), func() {
			in := c.Interp()
			defer c.Done(in)
			in.H.NoJoinSyms = true
			in.H.Call = c.errorsHook
			st := in.NewState()
			size := in.NewAtom("size")
			st.AddLe(size.Neg())
			var args []ai.Val
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				T := fn.Signature.Params().At(i).Type()
				if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					args = append(args, ai.Int{L: size})
				} else {
					args = append(args, in.Fresh(st, T, fn.Params[i].Name()))
				}
			}
			T := fn.Signature.Results().At(0).Type()
			for _, o := range call(in, st, fn, args...) {
				if o.Panic != nil {
					c.R.Fail("constructor", key, c.P.Pos(o.Panic.Pos), "may panic: "+o.Panic.Msg, c.Path(o.St)...)
					continue
				}
				sl, flags, ok := c.listRep(in, o.St, o.Rets[0], T)
				if !ok || len(flags) == 0 {
					c.R.Fail("constructor", key, pos, "no backing slice or setting found")
					continue
				}
				// the setting that governs the limit is the one Full() depends on
				for _, f := range c.callM(in, o.St, T, o.Rets[0], "Full") {
					if f.Panic != nil {
						c.R.Fail("constructor", key, pos, "Full may panic")
						continue
					}
					b := f.St.Resolve(f.Rets[0]).(ai.Bool)
					c.splitAll(f.St, []ai.Cond{b.C, ai.CEq{L: sl.Cap.Sub(sl.Len)}}, nil, func(s *ai.State, tr []bool) {
						if !k.fixed {
							c.R.Check(!tr[0], "constructor", key, pos, "a container without a fixed size reports being full", c.Path(s)...)
							return
						}
						c.R.Check(tr[0] == tr[1], "constructor", key, pos, "a fixed-size container is not full exactly when its capacity is used", c.Path(s)...)
						c.R.Check(s.EqLin(sl.Cap, size) && s.EqLin(sl.Len, ai.K(0)), "constructor", key, pos, "capacity is "+s.Show(ai.Int{L: sl.Cap})+", not the requested size", c.Path(s)...)
					})
				}
			}
		})
	}
	for _, k := range [][2]string{{"list", "List"}, {"list", "Sorted"}, {"set", "SortedSet"}} {
		fn := c.Need(k[0], k[1], "Copy")
		if fn == nil {
			continue
		}
		key := k[0] + "." + k[1] + ".Copy"
		pos := c.P.Pos(fn.Pos())
		c.R.Count("constructors", 1)
		c.Guard("constructor", key, fn.Pos(), func() {
			in, st, T, self := c.listInterp(k[0], k[1])
			defer c.Done(in)
			sl, fl, ok := c.listRep(in, st, self, T)
			if !ok {
				c.R.Fail("constructor", key, pos, "no backing slice found")
				return
			}
			for _, o := range c.callM(in, st, T, self, "Copy") {
				if o.Panic != nil {
					c.R.Fail("constructor", key, c.P.Pos(o.Panic.Pos), "may panic: "+o.Panic.Msg, c.Path(o.St)...)
					continue
				}
				sl2, fl2, ok := c.listRep(in, o.St, o.Rets[0], fn.Signature.Results().At(0).Type())
				good := ok && len(fl) == len(fl2)
				for i := range fl {
					good = good && sameVal(o.St, fl[i], fl2[i])
				}
				c.R.Check(good, "constructor", key, pos, "a setting is not copied", c.Path(o.St)...)
				y := o.St
				for _, f := range fl {
					n, _ := y.Clone().Branch(f.(ai.Bool).C)
					if n != nil {
						y = n
					}
				}
				c.R.Check(ok && y.EqLin(sl.Cap, sl2.Cap) && y.EqLin(sl.Len, sl2.Len), "constructor", key, pos, "the limit of a fixed-size container is not copied", c.Path(y)...)
			}
		})
	}
	c.R.Floor("constructors", 9)
}
