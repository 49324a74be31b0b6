// Package checks decides the properties.
package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"dsv/ai"
	"dsv/load"
	"dsv/report"

	"golang.org/x/tools/go/ssa"
)

// Ctx is what a check works with.
type Ctx struct {
	P     *load.Program
	R     *report.Report
	funcs map[*ssa.Function]bool
	only  func(key string) bool // the operations of another property that matter
}

func NewCtx(P *load.Program, R *report.Report) *Ctx {
	return &Ctx{P: P, R: R, funcs: map[*ssa.Function]bool{}}
}

// Check is a registered property check.
type Check struct {
	ID      string
	Run     func(c *Ctx)
	Explain string
	Client  string // client code analysed together with the repository
}

var Registry = map[string]*Check{}

func register(id, explain string, run func(c *Ctx)) {
	Registry[id] = &Check{ID: id, Run: run, Explain: explain}
}

func registerClient(id, explain, client string, run func(c *Ctx)) {
	Registry[id] = &Check{ID: id, Run: run, Explain: explain, Client: client}
}

// IDs lists the registered properties.
func IDs() []string {
	var s []string
	for k := range Registry {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// Guard runs f, turning "cannot decide" into a failed obligation.
func (c *Ctx) Guard(rule, key string, pos token.Pos, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case ai.Undecided:
				p := u.Pos
				if !p.IsValid() {
					p = pos
				}
				c.R.Fail(rule, key, c.P.Pos(p), "undecided: "+u.Msg)
			default:
				c.R.Fail(rule, key, c.P.Pos(pos), fmt.Sprintf("undecided: analysis failed: %v", r), shortStack())
			}
		}
	}()
	f()
}

// Interp makes an interpreter for this check.
func (c *Ctx) Interp() *ai.Interp {
	in := ai.New(c.P)
	in.Debug = os.Getenv("DSV_DEBUG") != ""
	return in
}

// Done accounts for what an interpreter looked at.
func (c *Ctx) Done(in *ai.Interp) {
	for f := range in.Funcs {
		if !c.funcs[f] {
			c.funcs[f] = true
			c.R.Count("functions", 1)
		}
	}
	c.R.Count("branch splits", in.Branches)
	c.R.Count("loop head visits", in.Loops)
}

// Parallel runs independent parts of a check side by side and collects what they found in order.
func (c *Ctx) Parallel(parts ...func(c *Ctx)) {
	subs := make([]*Ctx, len(parts))
	slots := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, f := range parts {
		i, f := i, f
		subs[i] = NewCtx(c.P, report.New(c.R.ID))
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			subs[i].Guard("analysis", fmt.Sprintf("part %d", i), token.NoPos, func() { f(subs[i]) })
		}()
	}
	wg.Wait()
	for _, s := range subs {
		for f := range s.funcs {
			if !c.funcs[f] {
				c.funcs[f] = true
				c.R.Count("functions", 1)
			}
		}
		delete(s.R.Counts, "functions")
		c.R.Merge(s.R)
	}
}

// Need resolves a method that must exist; a missing anchor fails the check.
func (c *Ctx) Need(pkg, typ, method string) *ssa.Function {
	f := c.P.M(pkg, typ, method)
	if f == nil {
		c.R.Fail("anchor", pkg+"."+typ+"."+method, "", "anchor not found in the tree")
		return nil
	}
	return f
}

// NeedFunc resolves a package-level function.
func (c *Ctx) NeedFunc(pkg, name string) *ssa.Function {
	f := c.P.Func(pkg, name)
	if f == nil {
		c.R.Fail("anchor", pkg+"."+name, "", "anchor not found in the tree")
	}
	return f
}

// Path renders the branch decisions of a state.
func (c *Ctx) Path(st *ai.State) []string {
	var out []string
	for _, s := range st.Trace {
		if s.Desc == "" {
			continue
		}
		out = append(out, c.P.Pos(s.Pos)+": "+s.Desc)
	}
	return out
}

// call runs fn abstractly; the receiver adjusts value/pointer receivers.
func call(in *ai.Interp, st *ai.State, fn *ssa.Function, args ...ai.Val) []ai.Outcome {
	return in.CallFunc(st, nil, fn, args, nil, fn.Pos())
}

// callM calls a named method on a value of static type T (through its method set, so promoted methods work).
func (c *Ctx) callM(in *ai.Interp, st *ai.State, T types.Type, recv ai.Val, name string, args ...ai.Val) []ai.Outcome {
	ms := c.P.SSA.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			fn := c.P.SSA.MethodValue(ms.At(i))
			return in.CallFunc(st, nil, fn, append([]ai.Val{recv}, args...), nil, fn.Pos())
		}
	}
	panic(ai.Undecided{Msg: "no method " + name + " on " + T.String()})
}

func isNil(st *ai.State, v ai.Val) int {
	switch x := st.Resolve(v).(type) {
	case ai.Nil:
		return ai.T
	case ai.Sym:
		return st.Eval(ai.CNil{ID: x.ID})
	}
	return ai.F
}

// splitNil branches on a value being nil.
func splitNil(st *ai.State, v ai.Val) (isnil, non *ai.State) {
	switch x := st.Resolve(v).(type) {
	case ai.Nil:
		return st, nil
	case ai.Sym:
		return st.Branch(ai.CNil{ID: x.ID})
	}
	return nil, st
}

// newErrs: the repo's error constructors are modelled as producing a non-nil error.
func (c *Ctx) errorsHook(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	if ci.Fn != nil && ci.Fn.Pkg != nil && c.P.InRepo(ci.Fn) && c.P.Rel(ci.Fn.Pkg.Pkg) == "errors" && ci.Sig.Results().Len() == 1 {
		if types.Identical(ci.Sig.Results().At(0).Type(), types.Universe.Lookup("error").Type()) {
			return []ai.Outcome{{St: st, Rets: []ai.Val{st.In().NewErr(st, ci.Sig.Results().At(0).Type(), "error from "+ci.Fn.Name())}}}, true
		}
	}
	return nil, false
}

func intv(v ai.Val) ai.Lin {
	i, ok := v.(ai.Int)
	if !ok {
		panic(ai.Undecided{Msg: "not an integer"})
	}
	return i.L
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/dsv/") && !strings.Contains(l, "ctx.go") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}

// hashable is types.Hashable.
func (c *Ctx) hashable() types.Type {
	if n := c.P.Named("types", "Hashable"); n != nil {
		return n
	}
	panic(ai.Undecided{Msg: "types.Hashable not found"})
}
