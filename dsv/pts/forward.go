package pts

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// forward finds the value a load must observe: the one last stored to the same address in the same
// function, with nothing in between that could have changed it. The heap itself is flow-insensitive, so
// without this a field just replaced by a fresh copy would still seem to hold the old object.
func (a *A) forward(ld *ssa.UnOp) ssa.Value {
	if v, ok := a.fwd[ld]; ok {
		return v
	}
	v := a.findStore(ld)
	a.fwd[ld] = v
	return v
}

func (a *A) findStore(ld *ssa.UnOp) ssa.Value {
	switch ld.X.(type) {
	case *ssa.FieldAddr, *ssa.Alloc:
	default:
		return nil
	}
	if al, ok := ld.X.(*ssa.Alloc); ok {
		if v := onlyStore(al); v != nil {
			return v
		}
	}
	b := ld.Block()
	i := -1
	for k, in := range b.Instrs {
		if in == ssa.Instruction(ld) {
			i = k
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	for {
		for i--; i >= 0; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.Store:
				if sameAddr(x.Addr, ld.X) {
					return x.Val
				}
				if mayAlias(x.Addr, ld.X) {
					return nil
				}
			case *ssa.Call:
				if a.mayStore(&x.Call, ld.X) {
					return nil
				}
			case *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Select:
				return nil
			}
			if v, ok := b.Instrs[i].(ssa.Value); ok && v == ld.X {
				// the address was computed here; an earlier store used another address value, which is
				// still comparable because SSA values do not change
				continue
			}
		}
		if len(b.Preds) != 1 || seen[b] {
			return nil
		}
		seen[b] = true
		b = b.Preds[0]
		i = len(b.Instrs)
	}
}

func sameAddr(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	f, ok := x.(*ssa.FieldAddr)
	g, ok2 := y.(*ssa.FieldAddr)
	return ok && ok2 && f.Field == g.Field && sameAddr(f.X, g.X)
}

type fieldKey struct {
	t string
	f int
}

func keyOf(x ssa.Value) (fieldKey, bool) {
	f, ok := x.(*ssa.FieldAddr)
	if !ok {
		return fieldKey{}, false
	}
	return fieldKey{types.TypeString(f.X.Type().Underlying().(*types.Pointer).Elem(), nil), f.Field}, true
}

func elem(x ssa.Value) types.Type { return x.Type().Underlying().(*types.Pointer).Elem() }

// mayAlias: could a store through x change what a load through y sees?
func mayAlias(x, y ssa.Value) bool {
	kx, okx := keyOf(x)
	ky, oky := keyOf(y)
	if okx && oky {
		return kx == ky
	}
	if _, ok := x.(*ssa.Alloc); ok {
		if _, ok := y.(*ssa.Alloc); ok {
			return x == y
		}
	}
	if _, ok := x.(*ssa.IndexAddr); ok && oky {
		// an element is a field only when it is a struct holding it
		return holds(elem(x), elem(y))
	}
	return holds(elem(x), elem(y)) || holds(elem(y), elem(x))
}

// holds: does a value of type T contain (as itself or inside a struct) a value of type U?
func holds(T, U types.Type) bool {
	if types.Identical(T, U) {
		return true
	}
	switch t := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if holds(t.Field(i).Type(), U) {
				return true
			}
		}
	case *types.Array:
		return holds(t.Elem(), U)
	}
	return false
}

// mayStore: could the call change the field at address y?
func (a *A) mayStore(call *ssa.CallCommon, y ssa.Value) bool {
	if _, ok := call.Value.(*ssa.Builtin); ok {
		return false
	}
	f := call.StaticCallee()
	if f == nil {
		return true
	}
	return a.stores(f, y, map[*ssa.Function]bool{})
}

func (a *A) stores(f *ssa.Function, y ssa.Value, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	if len(f.Blocks) == 0 {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fresh(x.Addr) {
					continue
				}
				if mayAlias(x.Addr, y) {
					return true
				}
			case ssa.CallInstruction:
				c := x.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				g := c.StaticCallee()
				if g == nil || a.stores(g, y, seen) {
					return true
				}
			}
		}
	}
	return false
}

// fresh: the address lies in an object this function allocated itself.
func fresh(x ssa.Value) bool {
	for {
		switch v := x.(type) {
		case *ssa.FieldAddr:
			x = v.X
		case *ssa.IndexAddr:
			x = v.X
		case *ssa.Alloc:
			return true
		case *ssa.MakeSlice:
			return true
		default:
			return false
		}
	}
}

// onlyStore: the value of the single store to a local variable that closures capture without assigning.
func onlyStore(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	var look func(v ssa.Value) bool
	look = func(v ssa.Value) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != v || val != nil || v != ssa.Value(al) {
					return false
				}
				if _, ok := x.Val.(*ssa.Parameter); !ok {
					return false
				}
				val = x.Val
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v && !look(x.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !look(al) {
		return nil
	}
	return val
}
