package ai

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func sortInts(x []int)       { sort.Ints(x) }
func sortStrings(x []string) { sort.Strings(x) }

// NewErr makes a non-nil error value.
func (in *Interp) NewErr(st *State, T types.Type, name string) Val {
	s := in.NewSym(T, name)
	st.nonnil[s.ID] = true
	return s
}

// model handles library functions (and the repo's error constructor).
func (in *Interp) model(st *State, c *CallInfo) ([]Outcome, bool) {
	fn := c.Fn
	ret := func(v ...Val) ([]Outcome, bool) { return []Outcome{{St: st, Rets: v}}, true }
	name := fn.String()
	if fn.Pkg != nil && !in.P.InRepo(fn) || fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && !in.P.InRepo(fn) {
		switch name {
		case "fmt.Errorf", "errors.New":
			return ret(in.NewErr(st, fn.Signature.Results().At(0).Type(), "error"))
		case "hash/fnv.New32a", "hash/fnv.New32", "hash/fnv.New64a", "hash/fnv.New64", "bytes.NewBuffer", "strings.NewReader":
			v := in.freshResults(st, fn.Signature, fn.Name())
			for _, x := range v {
				if s, ok := x.(Sym); ok {
					st.nonnil[s.ID] = true
				}
			}
			return ret(v...)
		case "bytes.Equal":
			return ret(in.App(st, "bytes.Equal", types.Typ[types.Bool], c.Args...))
		case "bytes.Compare":
			return ret(in.App(st, "bytes.Compare", types.Typ[types.Int], c.Args...))
		case "reflect.ValueOf":
			return ret(Tuple{[]Val{st.Resolve(c.Args[0])}})
		case "(reflect.Value).IsNil":
			if t, ok := st.Resolve(c.Args[0]).(Tuple); ok {
				switch x := st.Resolve(t.V[0]).(type) {
				case Iface:
					switch y := st.Resolve(x.V).(type) {
					case Nil:
						return ret(True())
					case Sym:
						return ret(Bool{CNil{y.ID}})
					case Ptr, Func, MapVal:
						return ret(False())
					}
				case Sym:
					return ret(in.App(st, "holdsnil", types.Typ[types.Bool], x))
				}
			}
		case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
			return ret(in.NewSym(types.Typ[types.String], "text"))
		case "fmt.Println", "fmt.Printf", "log.Println", "log.Printf", "log.Print":
			return []Outcome{{St: st, Rets: in.freshResults(st, fn.Signature, fn.Name())}}, true
		}
	}
	return nil, false
}

// constLookup reads a package-level map filled in with constant keys by the package's initialiser.
func (in *Interp) constLookup(st *State, m, k Val) (Val, bool) {
	s, ok := st.Resolve(m).(Sym)
	key, ok2 := st.Resolve(k).(Str)
	if !ok || !ok2 || in.syms[s.ID] == nil {
		return nil, false
	}
	g, ok := in.syms[s.ID].Tag.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return nil, false
	}
	init := g.Pkg.Func("init")
	var mk ssa.Value
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Store); ok && x.Addr == g {
				mk = x.Val
			}
		}
	}
	if mk == nil || mk.Referrers() == nil {
		return nil, false
	}
	for _, r := range *mk.Referrers() {
		u, ok := r.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		if c, ok := u.Key.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == key.S {
			v := u.Value
			for {
				ct, ok := v.(*ssa.ChangeType)
				if !ok {
					break
				}
				v = ct.X
			}
			if f, ok := v.(*ssa.Function); ok {
				return Func{Fn: f}, true
			}
		}
	}
	return nil, false
}
