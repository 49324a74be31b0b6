package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is known about an error value on a path.
type errClass int

const (
	errOther errClass = iota
	errNil
	errSet     // not nil
	errTracked // the failure being followed
)

type errFlow struct {
	c       *Ctx
	setMemo map[*ssa.Function]int // 1 in progress, 2 always non-nil, 3 not
	nilMemo map[*ssa.Function]int // 1 in progress, 2 always nil, 3 not
	tables  map[*ssa.Global][]*ssa.Function
	paths   int
	memo    map[string]*walked
}

func isErrorType(T types.Type) bool {
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// errResult is the index of the error among the results, or -1.
func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// alwaysSet says every return of fn delivers a non-nil error.
func (e *errFlow) alwaysSet(fn *ssa.Function) bool {
	switch e.setMemo[fn] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	e.setMemo[fn] = 1
	ok := e.returns(fn, func(v ssa.Value) bool { return e.isSet(v, map[ssa.Value]bool{}) })
	if ok {
		e.setMemo[fn] = 2
	} else {
		e.setMemo[fn] = 3
	}
	return ok
}

// alwaysNil says fn never reports an error.
func (e *errFlow) alwaysNil(fn *ssa.Function) bool {
	switch e.nilMemo[fn] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	e.nilMemo[fn] = 1
	ok := e.returns(fn, func(v ssa.Value) bool { return e.isNilVal(v, map[ssa.Value]bool{}) })
	if ok {
		e.nilMemo[fn] = 2
	} else {
		e.nilMemo[fn] = 3
	}
	return ok
}

func (e *errFlow) returns(fn *ssa.Function, ok func(ssa.Value) bool) bool {
	i := errResult(fn.Signature)
	if i < 0 && fn.Signature.Results().Len() == 1 {
		i = 0 // a concrete error type
	}
	if i < 0 || len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		if b == fn.Recover && len(b.Preds) == 0 {
			continue
		}
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			if !ok(r.Results[i]) {
				return false
			}
		}
	}
	return true
}

func (e *errFlow) isSet(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if _, ptr := x.X.Type().Underlying().(*types.Pointer); ptr {
			return true // a typed pointer in an interface is not nil
		}
		return true
	case *ssa.Alloc, *ssa.FieldAddr:
		return true
	case *ssa.ChangeInterface:
		return e.isSet(x.X, seen)
	case *ssa.Phi:
		for _, w := range x.Edges {
			if !e.isSet(w, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.callSet(c, x.Index)
		}
	case *ssa.Call:
		return e.callSet(x, 0)
	}
	return false
}

func (e *errFlow) callSet(c *ssa.Call, i int) bool {
	for _, fn := range e.callees(&c.Call) {
		if fn == nil {
			return false
		}
		if len(fn.Blocks) == 0 || !e.c.P.InRepo(fn) {
			n := fn.String()
			if n == "fmt.Errorf" || n == "errors.New" {
				continue
			}
			return false
		}
		if j := errResult(fn.Signature); j != i && !(j < 0 && i == 0) {
			return false
		}
		if !e.alwaysSet(fn) {
			return false
		}
	}
	return true
}

func (e *errFlow) isNilVal(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, w := range x.Edges {
			if !e.isNilVal(w, seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.callNil(&c.Call)
		}
	case *ssa.Call:
		return e.callNil(&x.Call)
	}
	return false
}

// never fail, by their documentation
var infallible = []string{
	"(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte",
	"(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune",
	"fmt.Print", "fmt.Println", "fmt.Printf",
}

func (e *errFlow) callNil(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		n := c.Method.FullName()
		if n == "(io.Writer).Write" && strings.HasPrefix(c.Value.Type().String(), "hash.") {
			return true
		}
	}
	fns := e.callees(c)
	if len(fns) == 0 {
		return false
	}
	for _, fn := range fns {
		if fn == nil {
			return false
		}
		known := false
		for _, n := range infallible {
			if fn.String() == n {
				known = true
			}
		}
		if known {
			continue
		}
		if !e.c.P.InRepo(fn) || len(fn.Blocks) == 0 || !e.alwaysNil(fn) {
			return false
		}
	}
	return true
}

// callees resolves a call; a nil entry means "something unknown".
func (e *errFlow) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		return []*ssa.Function{nil}
	}
	if f := onlyFunc(c.Value); f != nil {
		return []*ssa.Function{f}
	}
	// an entry of a table of functions kept in a package variable
	if l, ok := c.Value.(*ssa.Lookup); ok {
		if u, ok := l.X.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				return e.table(g)
			}
		}
	}
	return []*ssa.Function{nil}
}

// onlyFunc is the one function a local variable, possibly captured, ever holds.
func onlyFunc(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		a := captured(x.X)
		if a == nil {
			return nil
		}
		var f *ssa.Function
		for _, r := range *a.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
				g := onlyFunc(st.Val)
				if g == nil || f != nil && f != g {
					return nil
				}
				f = g
			}
		}
		return f
	case *ssa.FreeVar:
		if w := binding(x); w != nil {
			return onlyFunc(w)
		}
	}
	return nil
}

// captured finds the variable behind a captured reference.
func captured(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			v = binding(x)
			if v == nil {
				return nil
			}
		default:
			return nil
		}
	}
}

func binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(fn) {
				for i, f := range fn.FreeVars {
					if f == fv {
						return m.Bindings[i]
					}
				}
			}
		}
	}
	return nil
}

func (e *errFlow) table(g *ssa.Global) []*ssa.Function {
	if t, ok := e.tables[g]; ok {
		return t
	}
	var out []*ssa.Function
	// every map ever stored to the variable, and every function put into a map of that type
	for _, fn := range append([]*ssa.Function{g.Pkg.Func("init")}, e.c.P.Funcs...) {
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MapUpdate)
				if !ok || !types.Identical(m.Map.Type(), g.Type().(*types.Pointer).Elem()) {
					continue
				}
				switch f := m.Value.(type) {
				case *ssa.Function:
					out = append(out, f)
				case *ssa.MakeClosure:
					out = append(out, f.Fn.(*ssa.Function))
				default:
					out = append(out, nil)
				}
			}
		}
	}
	if len(out) == 0 {
		out = []*ssa.Function{nil}
	}
	e.tables[g] = out
	return out
}

// errPath is where the walk is.
type errPath struct {
	blk    *ssa.BasicBlock
	at     int
	prev   *ssa.BasicBlock
	vals   map[ssa.Value]errClass
	bools  map[ssa.Value]bool
	cells  map[*ssa.Alloc]errClass
	seen   bool        // the failure was looked at
	passes []*ssa.Call // calls that hand the failure on
	steps  []string
}

func (p *errPath) key() string {
	var s []string
	for v, c := range p.vals {
		if c != errOther {
			s = append(s, fmt.Sprintf("%s=%d", v.Name(), c))
		}
	}
	for v, c := range p.bools {
		s = append(s, fmt.Sprintf("%s=%v", v.Name(), c))
	}
	for v, c := range p.cells {
		s = append(s, fmt.Sprintf("*%s=%d", v.Name(), c))
	}
	sort.Strings(s)
	pr := -1
	if p.prev != nil {
		pr = p.prev.Index
	}
	return fmt.Sprint(p.blk.Index, ".", p.at, ".", pr, p.seen, s)
}

func (p *errPath) clone() *errPath {
	q := *p
	q.vals = map[ssa.Value]errClass{}
	for k, v := range p.vals {
		q.vals[k] = v
	}
	q.bools = map[ssa.Value]bool{}
	for k, v := range p.bools {
		q.bools[k] = v
	}
	q.cells = map[*ssa.Alloc]errClass{}
	for k, v := range p.cells {
		q.cells[k] = v
	}
	q.steps = append([]string(nil), p.steps...)
	return &q
}

func (e *errFlow) class(p *errPath, v ssa.Value) errClass {
	if c, ok := p.vals[v]; ok {
		return c
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return errNil
		}
	case *ssa.ChangeInterface:
		return e.class(p, x.X)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if c, ok := p.cells[a]; ok {
				return c
			}
		}
	case *ssa.Phi:
		return errOther
	}
	if e.isSet(v, map[ssa.Value]bool{}) {
		return errSet
	}
	if e.isNilVal(v, map[ssa.Value]bool{}) {
		return errNil
	}
	return errOther
}

// lost is a way in which a failure gets dropped.
type lost struct {
	pos  token.Pos
	why  string
	path []string
}

// walked is what the paths from a failure do.
type walked struct {
	lost    []lost
	returns bool
	bools   map[int]map[bool]bool // constant results seen, per result
	vague   map[int]bool          // results that are not constant
}

func (w *walked) add(pos token.Pos, why string, p *errPath) {
	for _, l := range w.lost {
		if l.pos == pos && l.why == why {
			return
		}
	}
	w.lost = append(w.lost, lost{pos, why, p.steps})
}

// follow walks every path from the failing call.
func (e *errFlow) follow(call ssa.CallInstruction) *walked {
	cv, _ := call.(*ssa.Call)
	i0 := 0
	for i, in := range call.Block().Instrs {
		if in == call.(ssa.Instruction) {
			i0 = i
		}
	}
	start := &errPath{blk: call.Block(), at: i0 + 1, vals: map[ssa.Value]errClass{}, bools: map[ssa.Value]bool{}, cells: map[*ssa.Alloc]errClass{}}
	if cv != nil && call.Common().Signature().Results().Len() == 1 {
		start.vals[cv] = errTracked
	}
	return e.walk(start, call, cv)
}

// given walks fn from its entry, its i-th parameter being the failure.
func (e *errFlow) given(fn *ssa.Function, i int) *walked {
	k := fmt.Sprintf("%p.%d", fn, i)
	if w, ok := e.memo[k]; ok {
		return w // nil while in progress
	}
	e.memo[k] = nil
	start := &errPath{blk: fn.Blocks[0], vals: map[ssa.Value]errClass{fn.Params[i]: errTracked}, bools: map[ssa.Value]bool{}, cells: map[*ssa.Alloc]errClass{}}
	w := e.walk(start, nil, nil)
	e.memo[k] = w
	return w
}

func (e *errFlow) walk(start *errPath, call ssa.CallInstruction, cv *ssa.Call) *walked {
	fn := start.blk.Parent()
	out := &walked{bools: map[int]map[bool]bool{}, vague: map[int]bool{}}
	ri := errResult(fn.Signature)
	add := out.add
	here := fn.Pos()
	idx := -1
	if call != nil {
		here = call.Pos()
		idx = errResult(call.Common().Signature())
	}
	visited := map[string]bool{}
	work := []*errPath{start}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if k := p.key(); visited[k] {
			continue
		} else {
			visited[k] = true
		}
		e.paths++
		if e.paths > 2000000 {
			panic("too many paths")
		}
		var phis []ssa.Value
		var nv []errClass
		var nb []int
		done := false
		flush := func() {
			for i, v := range phis {
				p.vals[v] = nv[i]
				delete(p.bools, v)
				if nb[i] != 0 {
					p.bools[v] = nb[i] == 2
				}
			}
			phis, nv, nb = nil, nil, nil
		}
		for ; p.at < len(p.blk.Instrs) && !done; p.at++ {
			in := p.blk.Instrs[p.at]
			if ph, ok := in.(*ssa.Phi); ok {
				var w ssa.Value
				for i, q := range p.blk.Preds {
					if q == p.prev {
						w = ph.Edges[i]
					}
				}
				cl, bl := errOther, 0
				if isErrorType(ph.Type()) {
					cl = e.class(p, w)
				}
				if b, known := constBool(p, w); known {
					bl = 1
					if b {
						bl = 2
					}
				}
				phis, nv, nb = append(phis, ph), append(nv, cl), append(nb, bl)
				continue
			}
			flush()
			if v, ok := in.(ssa.Value); ok {
				delete(p.vals, v)
				delete(p.bools, v)
			}
			switch x := in.(type) {
			case *ssa.Extract:
				if cv != nil && x.Tuple == ssa.Value(cv) && x.Index == idx {
					p.vals[x] = errTracked
				}
				for _, c := range p.passes {
					if x.Tuple == ssa.Value(c) && isErrorType(x.Type()) {
						p.vals[x] = errTracked
					}
				}
			case *ssa.UnOp:
				if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && isErrorType(x.Type()) {
					if c, ok := p.cells[a]; ok {
						p.vals[x] = c
					}
				}
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && isErrorType(x.Val.Type()) {
					p.cells[a] = e.class(p, x.Val)
				} else if e.class(p, x.Val) == errTracked {
					p.seen = true // kept somewhere: the caller of this code can see it
				}
			case *ssa.MakeInterface, *ssa.ChangeInterface:
			case ssa.CallInstruction:
				if call != nil && in == call.(ssa.Instruction) {
					if !p.seen {
						add(here, "the next round overwrites the failure before anything looks at it", p)
					} else if ri >= 0 {
						// looked at and the loop goes on
						add(here, "the loop carries on after the failure", p)
					}
					done = true
					break
				}
				if e.noReturn(x.Common()) {
					done = true
					break
				}
				for i, a := range x.Common().Args {
					if e.class(p, a) != errTracked {
						continue
					}
					p.seen = true
					cl, isCall := in.(*ssa.Call)
					fns := e.callees(x.Common())
					if !isCall || len(fns) != 1 || fns[0] == nil || !e.c.P.InRepo(fns[0]) || len(fns[0].Blocks) == 0 || i >= len(fns[0].Params) {
						continue
					}
					w := e.given(fns[0], i)
					if w == nil {
						continue
					}
					if !w.returns {
						done = true
						break
					}
					if j := errResult(fns[0].Signature); j >= 0 && len(w.lost) == 0 {
						if fns[0].Signature.Results().Len() == 1 {
							p.vals[cl] = errTracked
						} else {
							p.passes = append(p.passes[:len(p.passes):len(p.passes)], cl)
						}
					}
					if b := w.bools[0]; len(b) == 1 && !w.vague[0] {
						p.bools[cl] = b[true]
					}
				}
			case *ssa.BinOp:
				if x.Op == token.EQL || x.Op == token.NEQ {
					v := ssa.Value(nil)
					if k, ok := x.Y.(*ssa.Const); ok && k.IsNil() {
						v = x.X
					} else if k, ok := x.X.(*ssa.Const); ok && k.IsNil() {
						v = x.Y
					}
					if v != nil && isErrorType(v.Type()) {
						switch e.class(p, v) {
						case errTracked:
							p.seen = true
							p.bools[x] = x.Op == token.NEQ
						case errSet:
							p.bools[x] = x.Op == token.NEQ
						case errNil:
							p.bools[x] = x.Op == token.EQL
						}
					}
				}
			case *ssa.Panic:
				done = true
			case *ssa.RunDefers:
				for a := range p.cells {
					if deferred(fn, a) {
						p.cells[a] = errSet // settled by the deferred function
					}
				}
			case *ssa.Return:
				done = true
				out.returns = true
				for i, v := range x.Results {
					if b, known := constBool(p, v); known {
						if out.bools[i] == nil {
							out.bools[i] = map[bool]bool{}
						}
						out.bools[i][b] = true
					} else {
						out.vague[i] = true
					}
				}
				if ri < 0 {
					if !p.seen && !returnsTracked(e, p, x) {
						add(here, "the failure is never looked at", p)
					}
					break
				}
				switch e.class(p, x.Results[ri]) {
				case errTracked, errSet:
				case errNil:
					if p.seen {
						add(x.Pos(), "reports success after the failure", p)
					} else {
						add(here, "the failure is never looked at", p)
					}
				default:
					if p.seen {
						add(x.Pos(), "the error returned after the failure may be nil", p)
					} else {
						add(here, "the failure is never looked at", p)
					}
				}
			case *ssa.Jump:
				q := p.clone()
				q.prev, q.blk, q.at = p.blk, p.blk.Succs[0], 0
				work = append(work, q)
				done = true
			case *ssa.If:
				b, known := constBool(p, x.Cond)
				for i := 0; i < 2; i++ {
					if known && b != (i == 0) {
						continue
					}
					q := p.clone()
					q.prev, q.blk, q.at = p.blk, p.blk.Succs[i], 0
					if len(q.steps) < 12 {
						q.steps = append(q.steps, fmt.Sprintf("%s: %v", e.c.P.Pos(x.Cond.Pos()), i == 0))
					}
					if bo, ok := x.Cond.(*ssa.BinOp); ok && !known {
						if k, isK := bo.Y.(*ssa.Const); isK && k.IsNil() && isErrorType(bo.X.Type()) {
							if (bo.Op == token.NEQ) == (i == 0) {
								q.vals[bo.X] = errSet
							} else {
								q.vals[bo.X] = errNil
							}
						}
					}
					if !known {
						q.bools[x.Cond] = i == 0
					}
					work = append(work, q)
				}
				done = true
			}
		}
	}
	return out
}

func returnsTracked(e *errFlow, p *errPath, r *ssa.Return) bool {
	for _, v := range r.Results {
		if e.class(p, v) == errTracked {
			return true
		}
	}
	return false
}

func constBool(p *errPath, v ssa.Value) (bool, bool) {
	if v == nil {
		return false, false
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
		return constant.BoolVal(k.Value), true
	}
	if b, ok := p.bools[v]; ok {
		return b, true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		b, known := constBool(p, u.X)
		return !b, known
	}
	return false, false
}

// deferred says a deferred closure of fn can write the variable.
func deferred(fn *ssa.Function, a *ssa.Alloc) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if m, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					for _, v := range m.Bindings {
						if v == ssa.Value(a) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (e *errFlow) noReturn(c *ssa.CallCommon) bool {
	if f := c.StaticCallee(); f != nil {
		if e.c.P.InRepo(f) && len(f.Blocks) > 0 {
			for _, b := range f.Blocks {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					return false
				}
			}
			return f.Recover == nil
		}
		switch f.String() {
		case "log.Panic", "log.Panicf", "log.Panicln", "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit":
			return true
		}
	}
	return false
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return "a function value"
}

// cannotFail decides the sites where a failure is dropped but cannot happen.
func (e *errFlow) cannotFail(call ssa.CallInstruction) bool {
	cc := call.Common()
	f := cc.StaticCallee()
	if f == nil || len(cc.Args) == 0 {
		return false
	}
	recv := f.Signature.Recv()
	if recv == nil {
		return false
	}
	name := strings.TrimPrefix(recv.Type().String(), "*")
	switch strings.TrimPrefix(name, e.c.P.Module+"/") {
	case "list.Sorted", "set.SortedSet", "list.List":
		switch f.Name() {
		case "Add", "Append", "Push":
			// a list without a size limit always accepts an insertion (C11)
			return e.unbounded(cc.Args[0], map[ssa.Value]bool{})
		}
	case "set.SetMap":
		// the private membership set of the unique priority queue
		switch f.Name() {
		case "Add", "Delete":
			return e.fieldOf(cc.Args[0], "heap", "UniquePQ")
		}
	}
	return false
}

// unbounded says the list behind v was just made without a size limit.
func (e *errFlow) unbounded(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch strings.TrimPrefix(f.String(), e.c.P.Module+"/") {
		case "list.New", "list.NewSorted", "set.NewSortedSet":
			return true
		}
	case *ssa.FieldAddr:
		return e.unbounded(x.X, seen)
	case *ssa.Phi:
		for _, w := range x.Edges {
			if !e.unbounded(w, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if a := captured(x.X); a != nil && x.Op == token.MUL {
			n := 0
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					if n++; !e.unbounded(st.Val, seen) {
						return false
					}
				}
			}
			return n > 0
		}
	case *ssa.FreeVar:
		if w := binding(x); w != nil {
			return e.unbounded(w, seen)
		}
	case *ssa.Parameter:
		return e.everyArg(x, func(a ssa.Value) bool { return e.unbounded(a, seen) })
	}
	return false
}

// everyArg says a parameter of an unexported function satisfies ok at each of its calls.
func (e *errFlow) everyArg(p *ssa.Parameter, ok func(ssa.Value) bool) bool {
	fn := p.Parent()
	if fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	i := -1
	for j, q := range fn.Params {
		if q == p {
			i = j
		}
	}
	n := 0
	for _, g := range e.c.P.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, is := in.(ssa.CallInstruction)
				if !is {
					continue
				}
				if c.Common().StaticCallee() == fn {
					if n++; !ok(c.Common().Args[i]) {
						return false
					}
					continue
				}
				for _, a := range c.Common().Args {
					if a == ssa.Value(fn) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// fieldOf says v is read from a field of the named type.
func (e *errFlow) fieldOf(v ssa.Value, pkg, typ string) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && e.fieldOf(x.X, pkg, typ)
	case *ssa.FieldAddr:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == typ && e.c.P.Rel(n.Obj().Pkg()) == pkg {
				return true
			}
		}
		return e.fieldOf(x.X, pkg, typ)
	case *ssa.Parameter:
		return e.everyArg(x, func(a ssa.Value) bool { return e.fieldOf(a, pkg, typ) })
	}
	return false
}

func init() {
	register("C31", "For every call in the library that can report an error, every path of the calling function is followed under the assumption that the call failed: comparisons of that error with nil are decided, other branches are taken both ways, helpers the error is handed to are summarised. A path that returns success, or that ends without the error ever having been looked at, is a violation.", func(c *Ctx) {
		c.R.Rule("reported", "a function with an error result returns an error on every path after one of its steps failed")
		c.R.Assume("the membership set inside a unique priority queue accepts every insertion and deletion the queue makes: the linear hash table fails only on B+tree invariants (C18) and the item removed is one that was added (C16)")
		c.R.Assume("documented never-failing writers (bytes.Buffer, strings.Builder, hash.Hash, printing to standard output) do not fail")
		e := &errFlow{c: c, setMemo: map[*ssa.Function]int{}, nilMemo: map[*ssa.Function]int{}, tables: map[*ssa.Global][]*ssa.Function{}, memo: map[string]*walked{}}
		for _, fn := range c.P.Funcs {
			any := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || errResult(call.Common().Signature()) < 0 {
						continue
					}
					if _, is := call.Common().Value.(*ssa.Builtin); is {
						continue
					}
					any = true
					c.R.Count("call sites", 1)
					key := c.P.FuncName(fn) + " calling " + calleeName(call.Common())
					key = strings.ReplaceAll(key, c.P.Module+"/", "")
					c.Guard("reported", key, call.Pos(), func() {
						if e.callNil(call.Common()) {
							c.R.Count("cannot fail", 1)
							c.R.OK("reported", key, c.P.Pos(call.Pos()))
							return
						}
						w := e.follow(call)
						if len(w.lost) > 0 && e.cannotFail(call) {
							c.R.Count("dropped but cannot fail", 1)
							w.lost = nil
						}
						for _, l := range w.lost {
							c.R.Fail("reported", key, c.P.Pos(l.pos), l.why+" (of the step at "+c.P.Pos(call.Pos())+")", l.path...)
						}
						if len(w.lost) == 0 {
							c.R.OK("reported", key, c.P.Pos(call.Pos()))
						}
					})
				}
			}
			if any {
				c.R.Count("functions", 1)
			}
		}
		c.R.Count("path segments", e.paths)
		c.R.Floor("call sites", 200)
	})
}
