package checks

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", "Abstract interpretation of every exported method of every container on the state its constructors leave, with arbitrary arguments.", func(c *Ctx) { c.emptyContainers() })
}

var emptyPkgs = []string{"list", "set", "linked", "heap", "hashtable", "trie", "tree/avl", "tree/bptree"}

// emptyVal is a freshly constructed, empty container in some state.
type emptyVal struct {
	st   *ai.State
	v    ai.Val
	T    types.Type
	name string
}

type emptyCtx struct {
	c     *Ctx
	ctors []*ssa.Function
	iter  map[int]bool // symbols standing for iterators handed in
}

// selfRecursive reports a struct that contains (pointers to) its own type: a node, not a container.
func selfRecursive(n *types.Named) bool {
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		return true
	}
	var has func(T types.Type, d int) bool
	has = func(T types.Type, d int) bool {
		if d > 4 {
			return false
		}
		switch x := T.(type) {
		case *types.Named:
			return x.Obj() == n.Obj()
		case *types.Pointer:
			return has(x.Elem(), d+1)
		case *types.Slice:
			return has(x.Elem(), d+1)
		case *types.Array:
			return has(x.Elem(), d+1)
		case *types.Map:
			return has(x.Elem(), d+1)
		}
		return false
	}
	for i := 0; i < u.NumFields(); i++ {
		if has(u.Field(i).Type(), 0) {
			return true
		}
	}
	return false
}

// constructors finds the exported functions that build a container.
func (c *Ctx) constructors() []*ssa.Function {
	var out []*ssa.Function
	for _, rel := range emptyPkgs {
		for _, p := range c.P.Pkgs {
			if c.P.Rel(p.Pkg) != rel {
				continue
			}
			for _, m := range p.Members {
				fn, ok := m.(*ssa.Function)
				if !ok || !ast.IsExported(fn.Name()) || fn.Signature.Results().Len() != 1 {
					continue
				}
				pt, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
				if !ok {
					continue
				}
				n, ok := pt.Elem().(*types.Named)
				if !ok || selfRecursive(n) || !c.P.InRepoPkg(n.Obj().Pkg()) {
					continue
				}
				takesFunc := false
				for i := 0; i < fn.Signature.Params().Len(); i++ {
					if _, is := fn.Signature.Params().At(i).Type().Underlying().(*types.Signature); is {
						takesFunc = true
					}
				}
				if !takesFunc {
					out = append(out, fn)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (e *emptyCtx) hook(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if o, ok := e.c.errorsHook(st, ci); ok {
		return o, ok
	}
	if ci.Fn != nil && ci.Fn.Pkg != nil && ci.Fn.Pkg.Pkg.Path() == "log" && strings.HasPrefix(ci.Fn.Name(), "Panic") {
		return []ai.Outcome{{St: st, Panic: &ai.PanicInfo{Kind: "explicit", Pos: ci.Pos, Msg: "log." + ci.Fn.Name() + " is reached"}}}, true
	}
	if f, ok := ci.FnVal.(ai.Sym); ok && e.iter[f.ID] {
		// an iterator handed in: one item at most, since the container is no longer empty after it
		in := st.In()
		end, more := st.Clone(), st
		if st.Ghost["given"] != nil {
			more = nil
		}
		var zero, rets []ai.Val
		n := ci.Sig.Results().Len()
		for i := 0; i < n; i++ {
			T := ci.Sig.Results().At(i).Type()
			zero = append(zero, in.Zero(end, T))
			if more == nil {
				continue
			}
			if i == n-1 {
				rets = append(rets, f)
				continue
			}
			v := in.NewSym(T, "given item")
			more.NonNil(v)
			rets = append(rets, v)
		}
		if more == nil {
			return []ai.Outcome{{St: end, Rets: zero}}, true
		}
		more.Ghost["given"] = ai.Str{S: "yes"}
		return []ai.Outcome{{St: end, Rets: zero}, {St: more, Rets: rets}}, true
	}
	return nil, false
}

// build runs the constructors of containers assignable to T.
func (e *emptyCtx) build(in *ai.Interp, st *ai.State, T types.Type, depth int) []emptyVal {
	var out []emptyVal
	if depth > 3 {
		return nil
	}
	seen := map[string]bool{}
	for _, fn := range e.ctors {
		R := fn.Signature.Results().At(0).Type()
		if !types.AssignableTo(R, T) || seen[R.String()] {
			continue
		}
		if types.IsInterface(T) && e.derived(fn) {
			continue
		}
		vs := e.construct(in, st.Clone(), fn, depth+1)
		if len(vs) > 0 {
			seen[R.String()] = true
		}
		for _, v := range vs {
			if types.IsInterface(T) {
				v.v = ai.Iface{T: R, V: v.v}
			}
			out = append(out, v)
		}
	}
	return out
}

// derived: a constructor taking a container is not used to make arguments when its own argument would be of the kind it makes.
func (e *emptyCtx) derived(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if T := fn.Signature.Params().At(i).Type(); types.IsInterface(T) && types.AssignableTo(fn.Signature.Results().At(0).Type(), T) {
			return true
		}
	}
	return false
}

func (e *emptyCtx) construct(in *ai.Interp, st *ai.State, fn *ssa.Function, depth int) []emptyVal {
	type pre struct {
		st   *ai.State
		args []ai.Val
		name string
	}
	pres := []pre{{st, nil, ""}}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		p := fn.Signature.Params().At(i)
		var next []pre
		for _, q := range pres {
			for _, a := range e.arg(in, q.st, p, true, fn, depth) {
				next = append(next, pre{a.st, append(append([]ai.Val{}, q.args...), a.v), q.name + a.name})
			}
		}
		pres = next
	}
	var out []emptyVal
	for _, q := range pres {
		for _, o := range call(in, q.st, fn, q.args...) {
			key := e.c.P.FuncName(fn)
			if o.Panic != nil {
				e.c.R.Fail("no-crash", key, e.c.P.Pos(o.Panic.Pos), "the constructor may crash: "+o.Panic.Msg, e.c.Path(o.St)...)
				continue
			}
			out = append(out, emptyVal{o.St, o.Rets[0], fn.Signature.Results().At(0).Type(), key + q.name})
		}
	}
	return out
}

// arg makes the values tried for a parameter.
func (e *emptyCtx) arg(in *ai.Interp, st *ai.State, p *types.Var, ctor bool, fn *ssa.Function, depth int) []emptyVal {
	T := p.Type()
	name := p.Name()
	switch u := T.Underlying().(type) {
	case *types.Basic:
		v := in.Fresh(st, T, name)
		if i, ok := v.(ai.Int); ok && ctor {
			st.AddLe(i.L.Neg())
			if e.c.P.Rel(fn.Pkg.Pkg) == "tree/bptree" {
				st.AddLe(ai.K(2).Sub(i.L))
			}
		}
		return []emptyVal{{st, v, T, ""}}
	case *types.Slice:
		if ctor {
			return []emptyVal{{st, ai.Nil{}, T, ""}}
		}
		return []emptyVal{{st, in.Fresh(st, T, name), T, ""}}
	case *types.Signature:
		s := in.NewSym(T, name)
		st.NonNil(s)
		if n := u.Results().Len(); n > 0 && types.Identical(u.Results().At(n-1).Type(), T) {
			e.iter[s.ID] = true
		}
		return []emptyVal{{st, s, T, ""}}
	case *types.Interface:
		item := types.Implements(e.c.hashable(), u)
		var out []emptyVal
		if item {
			s := in.NewSym(e.c.hashable(), name)
			if !types.Implements(T, e.c.hashable().Underlying().(*types.Interface)) {
				s = in.NewSym(T, name)
			}
			q := st.Clone()
			q.NonNil(s)
			out = append(out, emptyVal{q, s, T, ""})
		}
		if u.NumMethods() > 0 && !types.Implements(T, e.c.hashable().Underlying().(*types.Interface)) {
			for _, b := range e.build(in, st, T, depth) {
				b.name = " with " + b.name
				out = append(out, b)
			}
		}
		return out
	case *types.Pointer:
		if b := e.build(in, st, T, depth); len(b) > 0 {
			for i := range b {
				b[i].name = " with " + b[i].name
			}
			return b
		}
		s := in.NewSym(T, name)
		st.NonNil(s)
		return []emptyVal{{st, s, T, ""}}
	}
	return []emptyVal{{st, in.Fresh(st, T, name), T, ""}}
}

// itemAssert: an opaque item is a key of some user type; it is none of the library's containers.
func (e *emptyCtx) itemAssert(st *ai.State, s ai.Sym, T types.Type) ([]ai.TA, bool) {
	in := st.In()
	if types.IsInterface(T) {
		if types.Implements(e.c.hashable(), T.Underlying().(*types.Interface)) {
			return []ai.TA{{St: st, V: s, OK: true}}, true
		}
		return []ai.TA{{St: st, V: ai.Nil{}, OK: false}}, true
	}
	return []ai.TA{{St: st, V: in.Zero(st, T), OK: false}}, true
}

func (c *Ctx) emptyContainers() {
	c.R.Rule("no-crash", "no path of the operation on an empty container ends in a panic")
	c.R.Assume("B+tree node size is at least 2; item methods do not crash; arguments that are containers are empty ones")
	e := &emptyCtx{c: c, ctors: c.constructors()}
	for _, fn := range e.ctors {
		R := fn.Signature.Results().At(0).Type()
		ms := c.P.SSA.MethodSets.MethodSet(R)
		for i := 0; i < ms.Len(); i++ {
			if !ms.At(i).Obj().Exported() {
				continue
			}
			m := c.P.SSA.MethodValue(ms.At(i))
			if m == nil {
				continue
			}
			key := c.P.FuncName(fn) + "()." + ms.At(i).Obj().Name()
			t0 := time.Now()
			if f := os.Getenv("DSV_ONLY"); f != "" && !strings.Contains(key, f) {
				continue
			}
			c.Guard("no-crash", key, m.Pos(), func() { e.method(fn, m, ms.At(i).Obj().(*types.Func), key) })
			c.R.Count("operations", 1)
			if os.Getenv("DSV_TIME") != "" {
				fmt.Println(key, time.Since(t0))
			}
		}
		c.R.Count("constructors", 1)
	}
	c.R.Floor("constructors", 15)
	c.R.Floor("operations", 200)
}

func (e *emptyCtx) method(ctor, m *ssa.Function, obj *types.Func, key string) {
	c := e.c
	in := c.Interp()
	defer c.Done(in)
	e.iter = map[int]bool{}
	in.H.NoJoinSyms = true
	in.Unroll = 2
	in.H.Call = e.hook
	in.H.TypeAssert = e.itemAssert
	ok := true
	pos := c.P.Pos(obj.Pos())
	bad := func(p *ai.PanicInfo, st *ai.State, what string) {
		ok = false
		at := p.Pos
		if at == token.NoPos {
			at = obj.Pos()
		}
		c.R.Fail("no-crash", key, c.P.Pos(at), what+p.Msg, c.Path(st)...)
	}
	for _, self := range e.construct(in, in.NewState(), ctor, 0) {
		type pre struct {
			st   *ai.State
			args []ai.Val
			name string
		}
		self.st.Ghost["self"] = self.v
		pres := []pre{{self.st, []ai.Val{self.v}, ""}}
		sig := obj.Type().(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			var next []pre
			for _, q := range pres {
				for _, a := range e.arg(in, q.st.Clone(), sig.Params().At(i), false, m, 0) {
					next = append(next, pre{a.st, append(append([]ai.Val{}, q.args...), a.v), q.name + a.name})
				}
			}
			pres = next
		}
		for _, q := range pres {
			c.R.Count("calls", 1)
			in.ResetSteps()
			for _, o := range in.CallFunc(q.st, nil, m, q.args, nil, m.Pos()) {
				if o.Panic != nil {
					bad(o.Panic, o.St, "may crash"+q.name+": ")
					continue
				}
				for _, r := range o.Rets {
					e.drive(in, o.St, r, key, 0, bad)
				}
			}
		}
	}
	if ok {
		c.R.OK("no-crash", key, pos)
	}
}

// drive calls a returned iterator.
func (e *emptyCtx) drive(in *ai.Interp, st *ai.State, v ai.Val, key string, depth int, bad func(*ai.PanicInfo, *ai.State, string)) {
	f, ok := st.Resolve(v).(ai.Func)
	if !ok || depth > 1 || f.Fn == nil || f.Fn.Signature.Params().Len() != 0 {
		return
	}
	for _, o := range in.CallValue(st.Clone(), nil, f, nil, f.Fn.Pos()) {
		if o.Panic != nil {
			bad(o.Panic, o.St, "the iterator it returns may crash: ")
			continue
		}
		for _, r := range o.Rets {
			e.drive(in, o.St, r, key, depth+1, bad)
		}
	}
}
