package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"dsv/load"

	"golang.org/x/tools/go/ssa"
)

// Undecided is raised (by panic) when the analysis cannot go on.
type Undecided struct {
	Msg string
	Pos token.Pos
}

func (u Undecided) Error() string { return u.Msg }

// PanicInfo describes a panicking outcome.
type PanicInfo struct {
	Kind string // "nil", "index", "slice", "assert", "div", "explicit", "make"
	V    Val
	Pos  token.Pos
	Msg  string
}

// Outcome is one way a call can end.
type Outcome struct {
	St    *State
	Rets  []Val
	Panic *PanicInfo
}

// CallInfo describes a call being made.
type CallInfo struct {
	Site   ssa.CallInstruction
	Fn     *ssa.Function // static or resolved callee
	Bind   []Val
	Method *types.Func // for dynamic calls on symbols
	Recv   Val
	FnVal  Val // for calls of unknown function values
	Args   []Val
	Pos    token.Pos
	Sig    *types.Signature
}

// Name is the callee's plain name.
func (c *CallInfo) Name() string {
	if c.Fn != nil {
		return c.Fn.Name()
	}
	if c.Method != nil {
		return c.Method.Name()
	}
	return ""
}

// Hooks customise the interpretation.
type Hooks struct {
	Call        func(st *State, c *CallInfo) ([]Outcome, bool)
	Materialize func(st *State, s Sym, T types.Type) (Ptr, bool)
	InitField   func(st *State, o *Obj, field int, T types.Type, name string) (Val, bool)
	InitCell    func(st *State, o *Obj, idx Lin) (Val, bool)
	OnStore     func(st *State, p Ptr, v Val, pos token.Pos)
	OnLoad      func(st *State, p Ptr, v Val, pos token.Pos)
	OnInstr     func(st *State, i ssa.Instruction)
	OnCell      func(st *State, o *Obj, idx Lin, old, new Val) // an array cell is overwritten
	OnAppend    func(st *State, dst, src Slice, res Slice)     // appended; dst is as before
	PtrEq       func(st *State, a, b Val) (Cond, bool)
	Norm        func(st *State, v Val) Val                        // loaded values in their simplest form
	Deref       func(st *State, p Ptr, pos token.Pos) ([]R, bool) // pointers that may stand for nil
	Fold        func(st *State)
	BinOp       func(st *State, x *ssa.BinOp, a, b Val) ([]R, bool) // arithmetic a check knows better
	NewIndexed  func(st *State, s Sym)                              // an indexed application made by a join
	ProbeIdx    func(elem types.Type) []Lin
	TypeAssert  func(st *State, s Sym, T types.Type) ([]TA, bool)
	NoJoinSyms  bool
	// Chan models channel operations and goroutine starts: op is "send", "recv", "close" or "go".
	// For recv the result value is Tuple{value, ok}.
	Chan func(st *State, op string, ch, v Val, blocking bool, pos token.Pos) ([]R, bool)
}

// TA is one case of a type assertion on a symbol.
type TA struct {
	St *State
	V  Val
	OK bool
}

// Interp runs SSA functions over abstract states.
type Interp struct {
	P        *load.Program
	H        Hooks
	Probes   []Lin
	MaxSteps int
	MaxDepth int
	MaxHeads int
	Unroll   int // rounds of a loop kept apart before joining

	syms       map[int]*SymInfo
	next       int
	memo       map[string]Val
	steps      int
	Funcs      map[*ssa.Function]bool
	Unmodelled map[string]int
	Branches   int
	Loops      int
	live       map[*ssa.Function]*flowInfo
	Debug      bool
	ProbeElem  func(elem types.Type) bool // which arrays get probe cells
	Rigid      map[int]bool               // symbols never merged with others
	Pure       func(o *Obj) bool          // arrays whose untouched cells are functions of the index: reading leaves no trace
	Indexed    map[string]bool            // functions of one integer whose applications are joined by joining the argument
	Back       bool                       // the loop head being entered is entered again
	Tail       bool                       // calls in last place are loops
	Apart      bool                       // joins keep the indices of cells apart
	Protect    []Lin                      // array indices whose cells must keep their exact value through joins
	Base       int                        // numbers made later are forgotten at loop heads when nothing mentions them
	Sides      bool                       // widening keeps which of two numbers is not the larger one
	Counts     bool                       // word-sized numbers known not to be negative are small enough for either sign
	MoreJoins  int                        // rounds of joining allowed at a loop head beyond the usual dozen
	NoSettle   bool                       // protected positions belong to particular arrays
}

func New(P *load.Program) *Interp {
	return &Interp{P: P, syms: map[int]*SymInfo{}, memo: map[string]Val{}, MaxSteps: 400000, MaxDepth: 60, MaxHeads: 60,
		Funcs: map[*ssa.Function]bool{}, Unmodelled: map[string]int{}, live: map[*ssa.Function]*flowInfo{}, next: 1}
}

func (in *Interp) nextID() int { in.next++; return in.next }

// ResetSteps restarts the step budget.
func (in *Interp) ResetSteps() { in.steps = 0 }

// NewState makes an empty state.
func (in *Interp) NewState() *State {
	return &State{in: in, heap: map[int]*Obj{}, bind: map[int]Val{}, nonnil: map[int]bool{}, bools: map[int]bool{},
		ord: newOrder(), Ghost: map[string]Val{}}
}

func (in *Interp) symName(id int) string {
	if s := in.syms[id]; s != nil {
		if s.Op != "" {
			return fmt.Sprintf("%s#%d", s.Op, id)
		}
		if s.Name != "" {
			return s.Name
		}
	}
	return fmt.Sprintf("s%d", id)
}

// Info returns the metadata of a symbol or integer atom.
func (in *Interp) Info(id int) *SymInfo { return in.syms[id] }

// NewSym makes a fresh opaque symbol.
func (in *Interp) NewSym(T types.Type, name string) Sym {
	id := in.nextID()
	in.syms[id] = &SymInfo{T: T, Name: name}
	return Sym{id}
}

// NewAtom makes a fresh integer atom.
func (in *Interp) NewAtom(name string) Lin {
	id := in.nextID()
	in.syms[id] = &SymInfo{T: types.Typ[types.Int], Name: name}
	return AtomLin(id)
}

// NewBool makes a fresh boolean atom.
func (in *Interp) NewBool(name string) Bool {
	id := in.nextID()
	in.syms[id] = &SymInfo{T: types.Typ[types.Bool], Name: name}
	return Bool{CAtom{id}}
}

// NonNil marks a symbol as not nil.
func (st *State) NonNil(s Sym) { st.nonnil[s.ID] = true }

// Forget drops what is known about a symbol being nil.
func (st *State) Forget(s Sym) { delete(st.nonnil, s.ID) }

// IsNonNil reports a known non-nil symbol.
func (st *State) IsNonNil(s Sym) bool { return st.nonnil[s.ID] }

func isUnsigned(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isInt(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// Fresh makes an unknown value of type T.
func (in *Interp) Fresh(st *State, T types.Type, name string) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.NewBool(name)
		case u.Info()&types.IsInteger != 0:
			a := in.NewAtom(name)
			in.syms[a.T[0].A].T = T
			if u.Info()&types.IsUnsigned != 0 {
				st.AddLe(a.Neg())
			}
			if lo, hi, ok := intRange(T); ok && hi < 1<<40 {
				st.AddLe(a.AddK(-hi))
				if lo < 0 {
					st.AddLe(K(lo).Sub(a))
				}
			}
			return Int{a}
		}
		return in.NewSym(T, name)
	case *types.Struct:
		return Struct{make([]Val, u.NumFields())}
	case *types.Array:
		return ArrVal{st.NewArr(u.Elem(), K(u.Len()), DefSym, false, name).ID}
	case *types.Slice:
		ln, cp := in.NewAtom("len("+name+")"), in.NewAtom("cap("+name+")")
		st.AddLe(ln.Neg())
		st.AddLe(ln.Sub(cp))
		return Slice{st.NewArr(u.Elem(), cp, DefSym, false, name).ID, K(0), ln, cp}
	case *types.Tuple:
		var vs []Val
		for i := 0; i < u.Len(); i++ {
			vs = append(vs, in.Fresh(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
		}
		return Tuple{vs}
	}
	return in.NewSym(T, name)
}

// Zero is the zero value of T.
func (in *Interp) Zero(st *State, T types.Type) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False()
		case u.Info()&types.IsInteger != 0:
			return Int{K(0)}
		case u.Info()&types.IsString != 0:
			return Str{""}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Nil{}
		}
		return in.App(st, "zero", T)
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = in.Zero(st, u.Field(i).Type())
		}
		return Struct{f}
	case *types.Array:
		return ArrVal{st.NewArr(u.Elem(), K(u.Len()), DefZero, true, "array").ID}
	case *types.Tuple:
		var vs []Val
		for i := 0; i < u.Len(); i++ {
			vs = append(vs, in.Zero(st, u.At(i).Type()))
		}
		return Tuple{vs}
	}
	return Nil{}
}

// App applies an uninterpreted function; equal arguments give the same result.
func (in *Interp) App(st *State, op string, T types.Type, args ...Val) Val {
	var b strings.Builder
	b.WriteString(op + ":" + types.TypeString(T, nil))
	ra := make([]Val, len(args))
	for i, a := range args {
		ra[i] = st.Resolve(a)
		b.WriteString("|" + in.vkey(ra[i]))
	}
	k := b.String()
	if v, ok := in.memo[k]; ok {
		return v
	}
	v := in.Fresh(st, T, op)
	switch x := v.(type) {
	case Sym:
		in.syms[x.ID].Op, in.syms[x.ID].Args = op, ra
	case Int:
		in.syms[x.L.T[0].A].Op, in.syms[x.L.T[0].A].Args = op, ra
	case Bool:
		id := x.C.(CAtom).ID
		in.syms[id].Op, in.syms[id].Args = op, ra
	}
	in.memo[k] = v
	return v
}

func (in *Interp) vkey(v Val) string {
	switch v := v.(type) {
	case nil:
		return "-"
	case Nil:
		return "nil"
	case Bool:
		return fmt.Sprintf("b%v", v.C)
	case Int:
		return "i" + v.L.Key()
	case Str:
		return "s" + fmt.Sprintf("%q", v.S)
	case Sym:
		return fmt.Sprintf("y%d", v.ID)
	case Ptr:
		return fmt.Sprintf("p%d.%v.%s.%v", v.O, v.IsElem, v.Idx.Key(), v.Path)
	case Slice:
		return fmt.Sprintf("l%d.%s.%s.%s", v.Arr, v.Off.Key(), v.Len.Key(), v.Cap.Key())
	case Iface:
		return "f" + types.TypeString(v.T, nil) + "(" + in.vkey(v.V) + ")"
	case Func:
		s := fmt.Sprintf("fn%p", v.Fn)
		for _, b := range v.Bind {
			s += "," + in.vkey(b)
		}
		return s
	case Tuple:
		s := "t"
		for _, b := range v.V {
			s += "," + in.vkey(b)
		}
		return s
	case Struct:
		s := "r"
		for _, b := range v.F {
			s += "," + in.vkey(b)
		}
		return s
	}
	return fmt.Sprintf("%T%v", v, v)
}

// ---------------------------------------------------------------- facts

// AddLe records l <= 0 without checking.
func (st *State) AddLe(l Lin) { st.cons = append(st.cons, tighten(l)) }

// Le reports whether a <= b is certain.
func (st *State) Le(a, b Lin) bool {
	d := a.Sub(b)
	if d.IsConst() {
		return d.C <= 0
	}
	return !feasibleWith(st.cons, d.Neg().AddK(1))
}

// EqLin reports whether a == b is certain.
func (st *State) EqLin(a, b Lin) bool {
	d := a.Sub(b)
	if d.IsConst() {
		return d.C == 0
	}
	return st.Le(a, b) && st.Le(b, a)
}

// NeLin reports whether a != b is certain.
func (st *State) NeLin(a, b Lin) bool {
	d := a.Sub(b)
	if d.IsConst() {
		return d.C != 0
	}
	for _, n := range st.neq {
		if n.Equal(d) || n.Equal(d.Neg()) {
			return true
		}
	}
	if !feasibleWith(st.cons, d, d.Neg()) {
		return true
	}
	for _, n := range st.neq {
		if st.EqLin(n, d) || st.EqLin(n, d.Neg()) {
			return true
		}
	}
	return false
}

// Upper bounds l.
func (st *State) Upper(l Lin) (int64, bool) { return upper(st.cons, l) }

const (
	F = 0
	T = 1
	U = -1
)

func not(t int) int {
	if t == U {
		return U
	}
	return 1 - t
}

// Eval evaluates a condition: T, F or U.
func (st *State) Eval(c Cond) int {
	switch c := c.(type) {
	case CConst:
		if c.V {
			return T
		}
		return F
	case CAtom:
		if v, ok := st.bools[c.ID]; ok {
			if v {
				return T
			}
			return F
		}
		if b, ok := st.bind[c.ID]; ok {
			return st.Eval(b.(Bool).C)
		}
		return U
	case CLe:
		if c.L.IsConst() {
			if c.L.C <= 0 {
				return T
			}
			return F
		}
		if st.Le(c.L, K(0)) {
			return T
		}
		if !feasibleWith(st.cons, c.L) {
			return F
		}
		return U
	case CEq:
		if st.EqLin(c.L, K(0)) {
			return T
		}
		if st.NeLin(c.L, K(0)) {
			return F
		}
		return U
	case COrd:
		m := st.ord.Get(c.A, c.B)
		if m&^c.M == 0 {
			return T
		}
		if m&c.M == 0 {
			return F
		}
		return U
	case CNil:
		switch v := st.Resolve(Sym{c.ID}).(type) {
		case Nil:
			return T
		case Sym:
			if st.nonnil[v.ID] {
				return F
			}
			return U
		}
		return F
	case CNot:
		return not(st.Eval(c.C))
	case CAnd:
		a, b := st.Eval(c.A), st.Eval(c.B)
		if a == F || b == F {
			return F
		}
		if a == T && b == T {
			return T
		}
		return U
	}
	panic(Undecided{Msg: fmt.Sprintf("condition %T", c)})
}

// Assume restricts the state; false when it becomes empty.
func (st *State) Assume(c Cond, truth bool) bool {
	switch st.Eval(c) {
	case T:
		if _, isAnd := c.(CAnd); !isAnd {
			return truth
		}
		return truth
	case F:
		return !truth
	}
	switch c := c.(type) {
	case CAtom:
		st.bools[c.ID] = truth
		return true
	case CLe:
		if truth {
			st.AddLe(c.L)
		} else {
			st.AddLe(c.L.Neg().AddK(1))
		}
		return st.retighten()
	case CEq:
		if truth {
			st.AddLe(c.L)
			st.AddLe(c.L.Neg())
			return st.retighten() && feasibleWith(st.cons, c.L)
		}
		st.neq = append(st.neq, c.L)
		return st.retighten()
	case COrd:
		if truth {
			return st.ord.Set(c.A, c.B, c.M)
		}
		return st.ord.Set(c.A, c.B, ANY&^c.M)
	case CNil:
		s := st.Resolve(Sym{c.ID}).(Sym)
		if truth {
			st.bind[s.ID] = Nil{}
		} else {
			st.nonnil[s.ID] = true
		}
		return true
	case CNot:
		return st.Assume(c.C, !truth)
	case CAnd:
		if truth {
			return st.Assume(c.A, true) && st.Assume(c.B, true)
		}
		if st.Eval(c.A) == T {
			return st.Assume(c.B, false)
		}
		if st.Eval(c.B) == T {
			return st.Assume(c.A, false)
		}
		panic(Undecided{Msg: "negated conjunction"})
	}
	panic(Undecided{Msg: fmt.Sprintf("condition %T", c)})
}

// retighten uses disequalities at the border of what is known.
func (st *State) retighten() bool {
	for changed := true; changed; {
		changed = false
		for _, n := range st.neq {
			if st.Le(n, K(0)) && !st.Le(n.AddK(1), K(0)) {
				st.AddLe(n.AddK(1))
				changed = true
			} else if st.Le(n.Neg(), K(0)) && !st.Le(n.Neg().AddK(1), K(0)) {
				st.AddLe(n.Neg().AddK(1))
				changed = true
			}
			if st.EqLin(n, K(0)) {
				return false
			}
		}
	}
	return feasibleWith(st.cons, st.cons[len(st.cons)-min(len(st.cons), 1):]...)
}

// Branch splits a state on a condition; either result may be nil.
func (st *State) Branch(c Cond) (t, f *State) {
	switch st.Eval(c) {
	case T:
		return st, nil
	case F:
		return nil, st
	}
	st.in.Branches++
	a, b := st.Clone(), st
	if !a.Assume(c, true) {
		a = nil
	}
	if !b.Assume(c, false) {
		b = nil
	}
	return a, b
}

// BranchOrd splits three-way on the order of two keys.
func (st *State) Possible(a, b int) uint8 { return st.ord.Get(a, b) }

// SetOrd restricts the order between two symbols.
func (st *State) SetOrd(a, b int, m uint8) bool { return st.ord.Set(a, b, m) }

// ---------------------------------------------------------------- memory

func (in *Interp) derefObj(st *State, p Ptr) *Obj {
	o := st.heap[p.O]
	if o == nil {
		panic(Undecided{Msg: fmt.Sprintf("dangling object %d", p.O)})
	}
	return o
}

// fieldOf reads below v along path, initialising lazily; returns the value and the possibly updated v.
func (in *Interp) readPath(st *State, o *Obj, v Val, T types.Type, path []int, name string) (Val, Val) {
	if len(path) == 0 {
		return v, v
	}
	s, ok := st.Resolve(v).(Struct)
	if !ok {
		panic(Undecided{Msg: fmt.Sprintf("field of %s", st.Show(v))})
	}
	stt := T.Underlying().(*types.Struct)
	i := path[0]
	fv := s.F[i]
	ft := stt.Field(i).Type()
	fname := name + "." + stt.Field(i).Name()
	changed := false
	if fv == nil {
		done := false
		if in.H.InitField != nil {
			fv, done = in.H.InitField(st, o, i, ft, fname)
		}
		if !done {
			fv = in.Fresh(st, ft, fname)
		}
		changed = true
	}
	r, nfv := in.readPath(st, o, fv, ft, path[1:], fname)
	if changed || !sameRef(nfv, fv) {
		ns := Struct{append([]Val(nil), s.F...)}
		ns.F[i] = nfv
		return r, ns
	}
	return r, s
}

func sameRef(a, b Val) bool {
	x, ok1 := a.(Struct)
	y, ok2 := b.(Struct)
	if ok1 && ok2 {
		return len(x.F) == len(y.F) && (len(x.F) == 0 || &x.F[0] == &y.F[0])
	}
	return !ok1 && !ok2
}

func writePath(v Val, T types.Type, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s, ok := v.(Struct)
	if !ok {
		panic(Undecided{Msg: "store below a non-struct"})
	}
	n := Struct{append([]Val(nil), s.F...)}
	i := path[0]
	ft := T.Underlying().(*types.Struct).Field(i).Type()
	if len(path) > 1 && n.F[i] == nil {
		n.F[i] = Struct{make([]Val, ft.Underlying().(*types.Struct).NumFields())}
	}
	n.F[i] = writePath(n.F[i], ft, path[1:], x)
	return n
}

// forceAll initialises all lazily unknown fields below v.
func (in *Interp) forceAll(st *State, o *Obj, v Val, T types.Type, name string) Val {
	s, ok := v.(Struct)
	if !ok {
		return v
	}
	stt := T.Underlying().(*types.Struct)
	n := Struct{append([]Val(nil), s.F...)}
	for i := range n.F {
		ft := stt.Field(i).Type()
		fname := name + "." + stt.Field(i).Name()
		if n.F[i] == nil {
			done := false
			if in.H.InitField != nil && o != nil {
				n.F[i], done = in.H.InitField(st, o, i, ft, fname)
			}
			if !done {
				n.F[i] = in.Fresh(st, ft, fname)
			}
		}
		n.F[i] = in.forceAll(st, o, n.F[i], ft, fname)
	}
	return n
}

// R is one result of an operation that may split the state.
type R struct {
	St    *State
	V     Val
	Panic *PanicInfo
}

// Load reads through a pointer.
func (in *Interp) Load(st *State, p Ptr) []R {
	o := in.derefObj(st, p)
	if p.IsElem {
		if o.Arr == nil {
			panic(Undecided{Msg: "element of a non-array"})
		}
		var out []R
		for _, r := range in.ReadCell(st, p.O, p.Idx) {
			if len(p.Path) > 0 {
				oo := r.St.heap[p.O]
				v, nv := in.readPath(r.St, oo, r.V, o.T, p.Path, o.Name+"[]")
				in.setCellRaw(r.St, p.O, p.Idx, nv)
				r.V = v
			} else if _, isS := r.V.(Struct); isS {
				nv := in.forceAll(r.St, r.St.heap[p.O], r.V, o.T, o.Name+"[]")
				in.setCellRaw(r.St, p.O, p.Idx, nv)
				r.V = nv
			}
			out = append(out, r)
		}
		return out
	}
	if o.Arr != nil {
		return []R{{St: st, V: ArrVal{o.ID}}}
	}
	v, nv := in.readPath(st, o, o.V, o.T, p.Path, o.Name)
	if s, isS := v.(Struct); isS {
		// whole-struct load: initialise everything below
		T := o.T
		for _, i := range p.Path {
			T = T.Underlying().(*types.Struct).Field(i).Type()
		}
		fv := in.forceAll(st, o, s, T, o.Name)
		nv = writePath(nv, o.T, p.Path, fv)
		v = fv
	}
	if !sameRef(nv, o.V) || len(p.Path) == 0 {
		c := *st.heap[o.ID]
		c.V = nv
		st.heap[o.ID] = &c
	}
	return []R{{St: st, V: v}}
}

// Store writes through a pointer.
func (in *Interp) Store(st *State, p Ptr, v Val, pos token.Pos) []*State {
	if in.H.OnStore != nil {
		in.H.OnStore(st, p, v, pos)
	}
	o := in.derefObj(st, p)
	if p.IsElem {
		if len(p.Path) == 0 {
			return in.WriteCell(st, p.O, p.Idx, v)
		}
		var out []*State
		for _, r := range in.ReadCell(st, p.O, p.Idx) {
			nv := writePath(r.V, o.T, p.Path, v)
			out = append(out, in.WriteCell(r.St, p.O, p.Idx, nv)...)
		}
		return out
	}
	if o.Arr != nil {
		// whole array store
		src, ok := v.(ArrVal)
		if !ok {
			panic(Undecided{Msg: "array store", Pos: pos})
		}
		c := *o
		a := *st.heap[src.O].Arr
		c.Arr = &a
		c.Dirty = true
		st.heap[o.ID] = &c
		return []*State{st}
	}
	c := *o
	c.V = writePath(o.V, o.T, p.Path, v)
	c.Dirty = true
	st.heap[o.ID] = &c
	return []*State{st}
}

func (in *Interp) setCellRaw(st *State, arr int, idx Lin, v Val) {
	o := *st.heap[arr]
	a := *o.Arr
	a.Cells = append([]Cell(nil), a.Cells...)
	for i := range a.Cells {
		if st.EqLin(a.Cells[i].Idx, idx) {
			a.Cells[i].V = v
			o.Arr = &a
			st.heap[arr] = &o
			return
		}
	}
	if in.pure(&o) {
		return
	}
	a.Cells = append(a.Cells, Cell{idx, v})
	o.Arr = &a
	st.heap[arr] = &o
}

// pure: reading the cell need not be remembered.
func (in *Interp) pure(o *Obj) bool {
	return in.Pure != nil && o.Arr.Def == DefSym && in.Pure(o)
}

// settle remembers the protected cells of an array read without traces, before it is changed.
func (in *Interp) settle(st *State, arr int) {
	o := st.heap[arr]
	if in.NoSettle || o.Dirty || len(o.Arr.Cells) > 0 || !in.pure(o) {
		return
	}
	var cells []Cell
	for _, i := range in.Protect {
		v, done := in.H.InitCell(st, o, i)
		if !done {
			v = in.Fresh(st, o.T, o.Name+"["+st.showLin(i)+"]")
		}
		cells = append(cells, Cell{i, v})
	}
	n := *st.heap[arr]
	a := *n.Arr
	a.Cells = cells
	n.Arr = &a
	st.heap[arr] = &n
}

// ReadCell reads an array cell, splitting on possible aliasing with tracked cells.
func (in *Interp) ReadCell(st *State, arr int, idx Lin) []R {
	o := st.heap[arr]
	for _, c := range o.Arr.Cells {
		if st.EqLin(c.Idx, idx) {
			return []R{{St: st, V: c.V}}
		}
	}
	for _, c := range o.Arr.Cells {
		if !st.NeLin(c.Idx, idx) {
			t, f := st.Branch(CEq{c.Idx.Sub(idx)})
			var out []R
			if t != nil {
				out = append(out, in.ReadCell(t, arr, idx)...)
			}
			if f != nil {
				out = append(out, in.ReadCell(f, arr, idx)...)
			}
			return out
		}
	}
	var v Val
	switch o.Arr.Def {
	case DefZero:
		v = in.Zero(st, o.T)
		if isZeroVal(v) {
			return []R{{St: st, V: v}}
		}
	default:
		done := false
		if in.H.InitCell != nil {
			v, done = in.H.InitCell(st, o, idx)
		}
		if !done {
			v = in.Fresh(st, o.T, o.Name+"["+st.showLin(idx)+"]")
		}
		if in.pure(o) {
			return []R{{St: st, V: v}}
		}
	}
	n := *st.heap[arr]
	a := *n.Arr
	a.Cells = append(append([]Cell(nil), a.Cells...), Cell{idx, v})
	n.Arr = &a
	st.heap[arr] = &n
	return []R{{St: st, V: v}}
}

// isZeroVal recognises plain zero values.
func isZeroVal(v Val) bool {
	switch x := v.(type) {
	case Nil:
		return true
	case Int:
		return x.L.IsConst() && x.L.C == 0
	case Str:
		return x.S == ""
	case Bool:
		k, ok := x.C.(CConst)
		return ok && !k.V
	case Struct:
		for _, f := range x.F {
			if !isZeroVal(f) {
				return false
			}
		}
		return true
	}
	return false
}

// WriteCell writes an array cell.
func (in *Interp) WriteCell(st *State, arr int, idx Lin, v Val) []*State {
	in.settle(st, arr)
	o := st.heap[arr]
	for i, c := range o.Arr.Cells {
		if st.EqLin(c.Idx, idx) {
			if in.H.OnCell != nil {
				in.H.OnCell(st, o, idx, c.V, v)
			}
			n := *o
			a := *n.Arr
			a.Cells = append([]Cell(nil), a.Cells...)
			a.Cells[i].V = v
			n.Arr = &a
			n.Dirty = true
			st.heap[arr] = &n
			return []*State{st}
		}
	}
	for _, c := range o.Arr.Cells {
		if !st.NeLin(c.Idx, idx) {
			t, f := st.Branch(CEq{c.Idx.Sub(idx)})
			var out []*State
			if t != nil {
				out = append(out, in.WriteCell(t, arr, idx, v)...)
			}
			if f != nil {
				out = append(out, in.WriteCell(f, arr, idx, v)...)
			}
			return out
		}
	}
	if in.H.OnCell != nil {
		r := in.ReadCell(st, arr, idx)[0]
		in.H.OnCell(r.St, o, idx, r.V, v)
		st = r.St
		o = st.heap[arr]
	}
	n := *o
	a := *n.Arr
	a.Cells = append([]Cell(nil), a.Cells...)
	found := false
	for i := range a.Cells {
		if a.Cells[i].Idx.Equal(idx) {
			a.Cells[i].V, found = v, true
		}
	}
	if !found {
		a.Cells = append(a.Cells, Cell{idx, v})
	}
	n.Arr = &a
	n.Dirty = true
	st.heap[arr] = &n
	return []*State{st}
}

// CopyRange models copy(dst[dlo:dlo+n], src[slo:slo+n]) (memmove semantics).
func (in *Interp) CopyRange(st *State, dst int, dlo Lin, src int, slo Lin, n Lin) []*State {
	type job struct {
		st  *State
		new []Cell
		i   int
		ph  int
		src []Cell
		dst []Cell
	}
	in.settle(st, src)
	in.settle(st, dst)
	so, do := st.heap[src], st.heap[dst]
	work := []job{{st: st, src: so.Arr.Cells, dst: do.Arr.Cells}}
	var out []*State
	srcDef := so.Arr.Def
	for len(work) > 0 {
		j := work[len(work)-1]
		work = work[:len(work)-1]
		switch j.ph {
		case 0: // existing dst cells
			if j.i >= len(j.dst) {
				j.ph, j.i = 1, 0
				work = append(work, j)
				continue
			}
			c := j.dst[j.i]
			for _, pr := range rangeSplit(j.st, c.Idx, dlo, dlo.Add(n)) {
				nj := job{st: pr.st, new: append([]Cell(nil), j.new...), i: j.i + 1, src: j.src, dst: j.dst}
				if !pr.in {
					nj.new = append(nj.new, c)
					work = append(work, nj)
					continue
				}
				// value from the source (pre-copy)
				si := c.Idx.Sub(dlo).Add(slo)
				for _, r := range in.readFrom(pr.st, j.src, srcDef, so, si) {
					kj := nj
					kj.st = r.St
					kj.new = append(append([]Cell(nil), nj.new...), Cell{c.Idx, r.V})
					work = append(work, kj)
				}
			}
		case 1: // source cells not yet represented in dst
			if j.i >= len(j.src) {
				nd := *j.st.heap[dst]
				a := *nd.Arr
				a.Cells = j.new
				if !j.st.Le(n, K(0)) {
					nd.Dirty = true
					if a.Def != DefTop {
						a.Def = DefTop
					}
				}
				nd.Arr = &a
				j.st.heap[dst] = &nd
				out = append(out, j.st)
				continue
			}
			c := j.src[j.i]
			di := c.Idx.Sub(slo).Add(dlo)
			dup := false
			amb := -1
			for k, e := range j.new {
				if j.st.EqLin(e.Idx, di) {
					dup = true
					break
				}
				if !j.st.NeLin(e.Idx, di) {
					amb = k
				}
			}
			if dup {
				j.i++
				work = append(work, j)
				continue
			}
			if amb >= 0 {
				t, f := j.st.Branch(CEq{j.new[amb].Idx.Sub(di)})
				if t != nil {
					nj := j
					nj.st = t
					work = append(work, nj)
				}
				if f != nil {
					nj := j
					nj.st = f
					work = append(work, nj)
				}
				continue
			}
			for _, pr := range rangeSplit(j.st, c.Idx, slo, slo.Add(n)) {
				nj := job{st: pr.st, new: append([]Cell(nil), j.new...), i: j.i + 1, ph: 1, src: j.src, dst: j.dst}
				if pr.in {
					nj.new = append(nj.new, Cell{di, c.V})
				}
				work = append(work, nj)
			}
		}
	}
	return out
}

// readFrom reads index si from a snapshot of cells.
func (in *Interp) readFrom(st *State, cells []Cell, def int, so *Obj, si Lin) []R {
	for _, c := range cells {
		if st.EqLin(c.Idx, si) {
			return []R{{St: st, V: c.V}}
		}
	}
	for _, c := range cells {
		if !st.NeLin(c.Idx, si) {
			t, f := st.Branch(CEq{c.Idx.Sub(si)})
			var out []R
			if t != nil {
				out = append(out, in.readFrom(t, cells, def, so, si)...)
			}
			if f != nil {
				out = append(out, in.readFrom(f, cells, def, so, si)...)
			}
			return out
		}
	}
	if def == DefZero {
		return []R{{St: st, V: in.Zero(st, so.T)}}
	}
	return []R{{St: st, V: in.Fresh(st, so.T, so.Name+"["+st.showLin(si)+"]")}}
}

type inOut struct {
	st *State
	in bool
}

// rangeSplit splits on lo <= i < hi.
func rangeSplit(st *State, i, lo, hi Lin) []inOut {
	var out []inOut
	t, f := st.Branch(CLe{lo.Sub(i)})
	if f != nil {
		out = append(out, inOut{f, false})
	}
	if t != nil {
		t2, f2 := t.Branch(CLe{i.AddK(1).Sub(hi)})
		if t2 != nil {
			out = append(out, inOut{t2, true})
		}
		if f2 != nil {
			out = append(out, inOut{f2, false})
		}
	}
	return out
}

// ---------------------------------------------------------------- running

// Invoke calls fn on args from st and returns every outcome.
func (in *Interp) Invoke(st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(Undecided{Msg: "no body: " + fn.String(), Pos: pos})
	}
	if len(st.frames) >= in.MaxDepth {
		panic(Undecided{Msg: "call depth at " + fn.String(), Pos: pos})
	}
	in.Funcs[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, callPos: pos, loops: map[*ssa.BasicBlock]*loopInfo{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			fr.env[f] = bind[i]
		}
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
	outs := in.run(st, fn.Blocks[0], nil)
	var res []Outcome
	for _, o := range outs {
		res = append(res, in.finish(o)...)
	}
	return res
}

// finish handles deferred calls of panicking outcomes and pops the frame.
func (in *Interp) finish(o Outcome) []Outcome {
	fr := o.St.top()
	if o.Panic != nil && len(fr.defers) > 0 {
		fr.inPanic = true
		fr.panicV = o.Panic.V
		if fr.panicV == nil {
			fr.panicV = in.NewSym(types.NewInterfaceType(nil, nil), "runtime error")
			o.St.nonnil[fr.panicV.(Sym).ID] = true
		}
		var res []Outcome
		for _, d := range in.runDefers(o.St) {
			if d.Panic != nil { // panic inside a deferred call replaces it
				d.St.frames = d.St.frames[:len(d.St.frames)-1]
				res = append(res, d)
				continue
			}
			f := d.St.top()
			if !f.inPanic { // recovered
				if f.fn.Recover != nil {
					for _, r := range in.run(d.St, f.fn.Recover, nil) {
						res = append(res, in.finish(r)...)
					}
					continue
				}
				var rets []Val
				sig := f.fn.Signature.Results()
				for i := 0; i < sig.Len(); i++ {
					rets = append(rets, in.Zero(d.St, sig.At(i).Type()))
				}
				d.St.frames = d.St.frames[:len(d.St.frames)-1]
				res = append(res, Outcome{St: d.St, Rets: rets})
				continue
			}
			d.St.frames = d.St.frames[:len(d.St.frames)-1]
			res = append(res, Outcome{St: d.St, Panic: o.Panic})
		}
		return res
	}
	o.St.frames = o.St.frames[:len(o.St.frames)-1]
	return []Outcome{o}
}

func (in *Interp) runDefers(st *State) []Outcome {
	fr := st.top()
	if len(fr.defers) == 0 {
		return []Outcome{{St: st}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
	var out []Outcome
	for _, o := range in.callCommon(st, d.call, &d.call.Call, d.fn, d.args) {
		if o.Panic != nil {
			// remaining defers still run with the new panic
			f := o.St.top()
			f.inPanic = true
			f.panicV = o.Panic.V
			p := o.Panic
			for _, r := range in.runDefers(o.St) {
				if r.Panic == nil && r.St.top().inPanic {
					r.Panic = p
				}
				out = append(out, r)
			}
			continue
		}
		out = append(out, in.runDefers(o.St)...)
	}
	return out
}

type item struct {
	st *State
	b  *ssa.BasicBlock
	i  int
}

// An analysis that takes longer than this has no answer.
const limit = 780 * time.Second

var started = time.Now()

// run interprets the top frame from block b.
func (in *Interp) run(st *State, b *ssa.BasicBlock, prev *ssa.BasicBlock) []Outcome {
	var outs []Outcome
	var work []item
	enter := func(st *State, to, from *ssa.BasicBlock) {
		for _, s := range in.enterBlock(st, to, from) {
			work = append(work, item{s, to, firstNonPhi(to)})
		}
	}
	enter(st, b, prev)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st
	block:
		for i := it.i; ; i++ {
			in.steps++
			if in.steps%512 == 0 && time.Since(started) > limit {
				panic(Undecided{Msg: "time limit in " + it.b.Parent().String(), Pos: it.b.Parent().Pos()})
			}
			if in.steps > in.MaxSteps {
				panic(Undecided{Msg: "step limit in " + it.b.Parent().String(), Pos: it.b.Parent().Pos()})
			}
			instr := it.b.Instrs[i]
			st.top().at = instr
			if in.H.OnInstr != nil {
				in.H.OnInstr(st, instr)
			}
			switch x := instr.(type) {
			case *ssa.Jump:
				enter(st, it.b.Succs[0], it.b)
				break block
			case *ssa.If:
				v := st.Resolve(in.val(st, x.Cond))
				bv, ok := v.(Bool)
				if !ok {
					panic(Undecided{Msg: "condition " + st.Show(v), Pos: x.Pos()})
				}
				pos := condPos(x)
				t, f := st.Branch(bv.C)
				both := t != nil && f != nil
				if t != nil {
					if both {
						t.Trace = append(t.Trace, Step{pos, t.showCond(bv.C)})
					}
					enter(t, it.b.Succs[0], it.b)
				}
				if f != nil {
					if both {
						f.Trace = append(f.Trace, Step{pos, "not(" + f.showCond(bv.C) + ")"})
					}
					enter(f, it.b.Succs[1], it.b)
				}
				break block
			case *ssa.Return:
				var rets []Val
				for _, r := range x.Results {
					rets = append(rets, in.val(st, r))
				}
				outs = append(outs, Outcome{St: st, Rets: rets})
				break block
			case *ssa.Panic:
				outs = append(outs, Outcome{St: st, Panic: &PanicInfo{Kind: "explicit", V: in.val(st, x.X), Pos: x.Pos(), Msg: "explicit panic"}})
				break block
			case *ssa.RunDefers:
				rs := in.runDefers(st)
				for k := len(rs) - 1; k >= 0; k-- {
					if rs[k].Panic != nil {
						outs = append(outs, rs[k])
					} else {
						work = append(work, item{rs[k].St, it.b, i + 1})
					}
				}
				break block
			}
			if c, ok := instr.(*ssa.Call); ok && in.Tail && in.flow(it.b.Parent()).tail[c] && in.startOver(st, c) {
				// a call in last place starts the function over
				enter(st, st.top().fn.Blocks[0], it.b)
				break block
			}
			rs := in.step(st, instr)
			if len(rs) == 1 && rs[0].Panic == nil {
				st = rs[0].St
				if v, ok := instr.(ssa.Value); ok && rs[0].V != nil {
					st.top().env[v] = rs[0].V
				}
				continue
			}
			for k := len(rs) - 1; k >= 0; k-- {
				r := rs[k]
				if r.Panic != nil {
					outs = append(outs, Outcome{St: r.St, Panic: r.Panic})
					continue
				}
				if v, ok := instr.(ssa.Value); ok && r.V != nil {
					r.St.top().env[v] = r.V
				}
				work = append(work, item{r.St, it.b, i + 1})
			}
			break block
		}
	}
	return outs
}

// startOver gives the parameters of the running function the values of a call of itself.
func (in *Interp) startOver(st *State, c *ssa.Call) bool {
	fr := st.top()
	var bind []Val
	if c.Call.StaticCallee() == nil {
		f, ok := st.Resolve(in.val(st, c.Call.Value)).(Func)
		if !ok || f.Fn != fr.fn || len(f.Bind) != len(fr.fn.FreeVars) {
			return false
		}
		bind = f.Bind
	}
	var args []Val
	for _, a := range c.Call.Args {
		args = append(args, in.val(st, a))
	}
	for i, p := range fr.fn.Params {
		fr.env[p] = args[i]
	}
	for i, b := range bind {
		fr.env[fr.fn.FreeVars[i]] = b
	}
	return true
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	if p := x.Pos(); p.IsValid() {
		return p
	}
	for _, i := range x.Block().Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, x := range b.Instrs {
		if _, ok := x.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

// enterBlock evaluates phis and applies loop-head joining.
func (in *Interp) enterBlock(st *State, to, from *ssa.BasicBlock) []*State {
	fr := st.top()
	if from != nil {
		k := -1
		for i, p := range to.Preds {
			if p == from {
				k = i
			}
		}
		var phis []*ssa.Phi
		var vals []Val
		for _, x := range to.Instrs {
			p, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
			vals = append(vals, in.val(st, p.Edges[k]))
		}
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
	}
	fi := in.flow(fr.fn)
	// drop dead values
	live := fi.liveIn[to]
	for v := range fr.env {
		if !live[v] {
			delete(fr.env, v)
		}
	}
	if !fi.header[to] {
		return []*State{st}
	}
	var out []*State
	for _, q := range in.splitBools(st, to) {
		out = append(out, in.enterHead(q, to, from)...)
	}
	return out
}

// splitBools decides the truth values carried around a loop.
func (in *Interp) splitBools(st *State, to *ssa.BasicBlock) []*State {
	for _, x := range to.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		v, has := st.top().env[p]
		if !has {
			continue
		}
		b, ok := st.Resolve(v).(Bool)
		if !ok || st.Eval(b.C) != U {
			continue
		}
		t, f := st.Branch(b.C)
		var out []*State
		for k, q := range []*State{t, f} {
			if q != nil {
				q.top().env[p] = Bool{CConst{k == 0}}
				out = append(out, in.splitBools(q, to)...)
			}
		}
		return out
	}
	return []*State{st}
}

func (in *Interp) enterHead(st *State, to, from *ssa.BasicBlock) []*State {
	fr := st.top()
	in.Loops++
	li := fr.loops[to]
	if li == nil {
		li = &loopInfo{}
		fr.loops[to] = li
	}
	if in.H.Fold != nil {
		in.Back = from != nil && to.Dominates(from)
		in.H.Fold(st)
	}
	li.total++
	if li.total > 4*in.MaxHeads {
		panic(Undecided{Msg: "loop does not stabilise in " + fr.fn.String(), Pos: to.Instrs[0].Pos()})
	}
	for _, h := range li.heads {
		if subsumes(h.st, st) {
			return nil
		}
	}
	back := from != nil && to.Dominates(from)
	lin := fr.lineage[to]
	if !back {
		li.groups++
		lin = li.groups
		nl := map[*ssa.BasicBlock]int{}
		for k, v := range fr.lineage {
			nl[k] = v
		}
		nl[to] = lin
		fr.lineage = nl
	}
	if back && in.Unroll > 0 {
		n := 0
		for _, h := range li.heads {
			if h.group == lin {
				n++
			}
		}
		if n <= in.Unroll {
			back = false // keep the first rounds apart
		}
	}
	for _, h := range li.heads {
		if !back || h.group != lin {
			continue
		}
		if j, ok := join(h.st, st, h.joins > 0, h.joins > 5); ok {
			if in.Base > 0 {
				j.Collect(in.Base)
			}
			h.st = j
			h.joins++
			if h.joins > 12+in.MoreJoins {
				panic(Undecided{Msg: "loop does not stabilise in " + fr.fn.String(), Pos: to.Instrs[0].Pos()})
			}
			return []*State{j.Clone()}
		}
	}
	if len(li.heads) >= in.MaxHeads {
		panic(Undecided{Msg: "too many loop states in " + fr.fn.String(), Pos: to.Instrs[0].Pos()})
	}
	if in.Debug {
		fmt.Println("HEAD", len(li.heads), fr.fn.Name(), st.showHead())
	}
	li.heads = append(li.heads, &loopHead{st: st.Clone(), group: lin})
	return []*State{st}
}

// val evaluates an operand.
// Val is the value of an operand in the running function.
func (in *Interp) Val(st *State, v ssa.Value) Val { return in.val(st, v) }

func (in *Interp) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(st, v)
	case *ssa.Function:
		return Func{Fn: v}
	case *ssa.Builtin:
		return Func{B: v}
	case *ssa.Global:
		return in.globalPtr(st, v)
	}
	x, ok := st.top().env[v]
	if !ok {
		panic(Undecided{Msg: fmt.Sprintf("value %s of %s not available", v.Name(), st.top().fn), Pos: v.Pos()})
	}
	return x
}

func (in *Interp) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return in.Zero(st, c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool{CConst{constant.BoolVal(c.Value)}}
	case constant.Int:
		if isInt(c.Type()) {
			if i, ok := constant.Int64Val(c.Value); ok {
				return Int{K(i)}
			}
		}
		return in.App(st, "const "+c.Value.ExactString(), c.Type())
	case constant.String:
		return Str{constant.StringVal(c.Value)}
	}
	return in.App(st, "const "+c.Value.ExactString(), c.Type())
}

func (in *Interp) globalPtr(st *State, g *ssa.Global) Val {
	k := "global:" + g.String()
	if v, ok := in.memo[k]; ok {
		p := v.(Ptr)
		if st.heap[p.O] == nil {
			T := g.Type().(*types.Pointer).Elem()
			st.heap[p.O] = &Obj{ID: p.O, T: T, From: -1, Name: g.Name(), V: in.globalInit(st, g, T)}
		}
		return v
	}
	p := Ptr{O: in.nextID()}
	in.memo[k] = p
	T := g.Type().(*types.Pointer).Elem()
	st.heap[p.O] = &Obj{ID: p.O, T: T, From: -1, Name: g.Name(), V: in.globalInit(st, g, T)}
	return p
}

func (in *Interp) globalInit(st *State, g *ssa.Global, T types.Type) Val {
	k := "ginit:" + g.String()
	if v, ok := in.memo[k]; ok {
		return v
	}
	v := in.Fresh(st, T, g.Name())
	if s, ok := v.(Sym); ok {
		in.syms[s.ID].Tag = g
	}
	in.memo[k] = v
	return v
}

func one(st *State, v Val) []R { return []R{{St: st, V: v}} }

func rpanic(st *State, kind string, pos token.Pos, msg string) R {
	return R{St: st, Panic: &PanicInfo{Kind: kind, Pos: pos, Msg: msg}}
}

// DerefPtr turns a pointer value into an address, splitting off the nil case as a panic.
func (in *Interp) DerefPtr(st *State, v Val, T types.Type, pos token.Pos) []R {
	switch x := st.Resolve(v).(type) {
	case Ptr:
		if in.H.Deref != nil {
			if rs, ok := in.H.Deref(st, x, pos); ok {
				return rs
			}
		}
		return one(st, x)
	case Nil:
		return []R{rpanic(st, "nil", pos, "nil dereference")}
	case Sym:
		var out []R
		if !st.nonnil[x.ID] {
			t, f := st.Branch(CNil{x.ID})
			if t != nil {
				out = append(out, rpanic(t, "nil", pos, "nil dereference of "+st.in.symName(x.ID)))
			}
			st = f
			if st == nil {
				return out
			}
		}
		return append(out, R{St: st, V: in.materialize(st, x, T)})
	}
	panic(Undecided{Msg: "dereference of " + st.Show(v), Pos: pos})
}

func (in *Interp) materialize(st *State, s Sym, ptrT types.Type) Ptr {
	if in.H.Materialize != nil {
		if p, ok := in.H.Materialize(st, s, ptrT); ok {
			st.bind[s.ID] = p
			return p
		}
	}
	pt, ok := ptrT.Underlying().(*types.Pointer)
	if !ok {
		panic(Undecided{Msg: "dereference of non-pointer symbol " + in.symName(s.ID)})
	}
	o := st.NewObj(pt.Elem(), nil, false, "*"+in.symName(s.ID))
	v := in.Fresh(st, pt.Elem(), "*"+in.symName(s.ID))
	o.V = v
	if a, ok := v.(ArrVal); ok {
		p := Ptr{O: a.O}
		st.bind[s.ID] = p
		return p
	}
	o.From = s.ID
	p := Ptr{O: o.ID}
	st.bind[s.ID] = p
	return p
}

func (in *Interp) step(st *State, instr ssa.Instruction) []R {
	switch x := instr.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Alloc:
		T := x.Type().(*types.Pointer).Elem()
		if at, ok := T.Underlying().(*types.Array); ok {
			o := st.NewArr(at.Elem(), K(at.Len()), DefZero, true, x.Comment)
			return one(st, Ptr{O: o.ID})
		}
		o := st.NewObj(T, in.Zero(st, T), true, x.Comment)
		return one(st, Ptr{O: o.ID})
	case *ssa.Store:
		var out []R
		v := in.val(st, x.Val)
		for _, r := range in.DerefPtr(st, in.val(st, x.Addr), x.Addr.Type(), x.Pos()) {
			if r.Panic != nil {
				out = append(out, r)
				continue
			}
			for _, s := range in.Store(r.St, r.V.(Ptr), v, x.Pos()) {
				out = append(out, R{St: s})
			}
		}
		return out
	case *ssa.UnOp:
		return in.unop(st, x)
	case *ssa.BinOp:
		return in.binop(st, x)
	case *ssa.FieldAddr:
		var out []R
		for _, r := range in.DerefPtr(st, in.val(st, x.X), x.X.Type(), x.Pos()) {
			if r.Panic == nil {
				p := r.V.(Ptr)
				p.Path = append(append([]int(nil), p.Path...), x.Field)
				r.V = p
			}
			out = append(out, r)
		}
		return out
	case *ssa.Field:
		v := st.Resolve(in.val(st, x.X))
		s, ok := v.(Struct)
		if !ok {
			return one(st, in.App(st, fmt.Sprintf("field%d", x.Field), x.Type(), v))
		}
		if s.F[x.Field] == nil {
			panic(Undecided{Msg: "uninitialised field", Pos: x.Pos()})
		}
		return one(st, s.F[x.Field])
	case *ssa.IndexAddr:
		return in.indexAddr(st, x)
	case *ssa.Index:
		v := st.Resolve(in.val(st, x.X))
		idx := st.Resolve(in.val(st, x.Index))
		if a, ok := v.(ArrVal); ok {
			if i, ok := idx.(Int); ok {
				return in.ReadCell(st, a.O, i.L)
			}
		}
		return one(st, in.App(st, "index", x.Type(), v, idx))
	case *ssa.Slice:
		return in.slice(st, x)
	case *ssa.MakeSlice:
		ln, ok1 := st.Resolve(in.val(st, x.Len)).(Int)
		cp, ok2 := st.Resolve(in.val(st, x.Cap)).(Int)
		if !ok1 || !ok2 {
			panic(Undecided{Msg: "make", Pos: x.Pos()})
		}
		var out []R
		t, f := st.Branch(CLe{ln.L.Neg()})
		if f != nil {
			out = append(out, rpanic(f, "make", x.Pos(), "make with negative length"))
		}
		if t == nil {
			return out
		}
		t, f = t.Branch(CLe{ln.L.Sub(cp.L)})
		if f != nil {
			out = append(out, rpanic(f, "make", x.Pos(), "make with capacity below length"))
		}
		if t == nil {
			return out
		}
		o := t.NewArr(x.Type().Underlying().(*types.Slice).Elem(), cp.L, DefZero, true, "make")
		return append(out, R{St: t, V: Slice{o.ID, K(0), ln.L, cp.L}})
	case *ssa.MakeMap:
		o := st.NewObj(x.Type(), Struct{}, true, "map")
		return one(st, MapVal{o.ID})
	case *ssa.MakeChan:
		s := in.NewSym(x.Type(), "chan")
		st.nonnil[s.ID] = true
		in.syms[s.ID].Args = []Val{in.val(st, x.Size)}
		return one(st, s)
	case *ssa.MakeInterface:
		return one(st, Iface{x.X.Type(), in.val(st, x.X)})
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, in.val(st, v))
		}
		return one(st, Func{Fn: x.Fn.(*ssa.Function), Bind: b})
	case *ssa.ChangeType:
		return one(st, in.val(st, x.X))
	case *ssa.ChangeInterface:
		return one(st, in.val(st, x.X))
	case *ssa.Convert:
		return in.convert(st, x)
	case *ssa.MultiConvert:
		return one(st, in.App(st, "convert", x.Type(), in.val(st, x.X)))
	case *ssa.Extract:
		v := st.Resolve(in.val(st, x.Tuple))
		t, ok := v.(Tuple)
		if !ok {
			panic(Undecided{Msg: "extract from " + st.Show(v), Pos: x.Pos()})
		}
		return one(st, t.V[x.Index])
	case *ssa.TypeAssert:
		return in.typeAssert(st, x)
	case *ssa.Call:
		return in.callInstr(st, x, &x.Call)
	case *ssa.Defer:
		fnv, args := in.callOperands(st, &x.Call)
		fr := st.top()
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{fnv, args, x})
		return one(st, nil)
	case *ssa.Go:
		fnv, args := in.callOperands(st, &x.Call)
		if in.H.Chan != nil {
			if rs, ok := in.H.Chan(st, "go", fnv, Tuple{args}, false, x.Pos()); ok {
				return rs
			}
		}
		st.Events = append(st.Events, Event{Kind: "go", Args: append([]Val{fnv}, args...), Pos: x.Pos()})
		return one(st, nil)
	case *ssa.Send:
		if in.H.Chan != nil {
			if rs, ok := in.H.Chan(st, "send", in.val(st, x.Chan), in.val(st, x.X), true, x.Pos()); ok {
				return rs
			}
		}
		st.Events = append(st.Events, Event{Kind: "send", Args: []Val{in.val(st, x.Chan), in.val(st, x.X)}, Pos: x.Pos()})
		return one(st, nil)
	case *ssa.Lookup:
		m := in.val(st, x.X)
		k := in.val(st, x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			if v, ok := in.constLookup(st, m, k); ok && !x.CommaOk {
				return one(st, v)
			}
			v := in.App(st, "lookup", x.X.Type().Underlying().(*types.Map).Elem(), m, k)
			if x.CommaOk {
				return one(st, Tuple{[]Val{v, in.App(st, "haskey", types.Typ[types.Bool], m, k)}})
			}
			return one(st, v)
		}
		return one(st, in.App(st, "index", x.Type(), m, k))
	case *ssa.MapUpdate:
		st.Events = append(st.Events, Event{Kind: "mapupdate", Args: []Val{in.val(st, x.Map), in.val(st, x.Key), in.val(st, x.Value)}, Pos: x.Pos()})
		return one(st, nil)
	case *ssa.Range:
		s := in.NewSym(x.Type(), "range")
		return one(st, s)
	case *ssa.Next:
		return one(st, in.Fresh(st, x.Type(), "next"))
	case *ssa.Select:
		if in.H.Chan != nil {
			return in.selectStmt(st, x)
		}
		return one(st, in.Fresh(st, x.Type(), "select"))
	}
	panic(Undecided{Msg: fmt.Sprintf("instruction %T", instr), Pos: instr.Pos()})
}

// selectStmt lets every case (and the default of a non-blocking select) happen.
func (in *Interp) selectStmt(st *State, x *ssa.Select) []R {
	var out []R
	tt := x.Type().(*types.Tuple)
	mk := func(s *State, k int64, ok Val, at int, v Val) R {
		vs := []Val{Int{K(k)}, ok}
		for i := 2; i < tt.Len(); i++ {
			if i == at {
				vs = append(vs, v)
			} else {
				vs = append(vs, in.Zero(s, tt.At(i).Type()))
			}
		}
		return R{St: s, V: Tuple{vs}}
	}
	recv := 2
	for k, c := range x.States {
		s := st.Clone()
		s.Trace = append(s.Trace, Step{c.Pos, fmt.Sprintf("select case %d", k)})
		ch := in.val(s, c.Chan)
		if c.Dir == types.SendOnly {
			rs, ok := in.H.Chan(s, "send", ch, in.val(s, c.Send), x.Blocking, c.Pos)
			if !ok {
				rs = one(s, nil)
			}
			for _, r := range rs {
				if r.Panic != nil {
					out = append(out, r)
				} else {
					out = append(out, mk(r.St, int64(k), False(), 0, nil))
				}
			}
			continue
		}
		rs, ok := in.H.Chan(s, "recv", ch, nil, x.Blocking, c.Pos)
		if !ok {
			rs = one(s, Tuple{[]Val{in.Fresh(s, tt.At(recv).Type(), "recv"), in.NewBool("ok")}})
		}
		for _, r := range rs {
			if r.Panic != nil {
				out = append(out, r)
			} else {
				t := r.V.(Tuple)
				out = append(out, mk(r.St, int64(k), t.V[1], recv, t.V[0]))
			}
		}
		recv++
	}
	if !x.Blocking {
		s := st.Clone()
		s.Trace = append(s.Trace, Step{x.Pos(), "select default"})
		out = append(out, mk(s, -1, False(), 0, nil))
	}
	return out
}

// Bare drops the activation records and events, keeping heap and facts.
func (st *State) Bare() *State {
	n := st.Clone()
	n.frames, n.Events, n.Trace = nil, nil, nil
	return n
}

// Objects lists the heap's object ids.
func (st *State) Objects() []int {
	var ids []int
	for k := range st.heap {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	return ids
}

// SetField replaces a field value of an object without counting as a store.
func (st *State) SetField(obj int, path []int, v Val) {
	o := *st.heap[obj]
	o.V = writePath(o.V, o.T, path, v)
	st.heap[obj] = &o
}

// FieldOf reads a field's current value without materialising it (nil when not known yet).
func (st *State) FieldOf(obj int, field int) Val {
	s, ok := st.heap[obj].V.(Struct)
	if !ok {
		return nil
	}
	return s.F[field]
}

func (in *Interp) unop(st *State, x *ssa.UnOp) []R {
	switch x.Op {
	case token.MUL:
		var out []R
		for _, r := range in.DerefPtr(st, in.val(st, x.X), x.X.Type(), x.Pos()) {
			if r.Panic != nil {
				out = append(out, r)
				continue
			}
			p := r.V.(Ptr)
			for _, l := range in.Load(r.St, p) {
				if in.H.Norm != nil && l.Panic == nil {
					l.V = in.H.Norm(l.St, l.V)
				}
				if in.H.OnLoad != nil && l.Panic == nil {
					in.H.OnLoad(l.St, p, l.V, x.Pos())
				}
				out = append(out, l)
			}
		}
		return out
	case token.NOT:
		b, ok := st.Resolve(in.val(st, x.X)).(Bool)
		if !ok {
			panic(Undecided{Msg: "not", Pos: x.Pos()})
		}
		return one(st, Bool{negate(b.C)})
	case token.SUB:
		if i, ok := st.Resolve(in.val(st, x.X)).(Int); ok {
			return in.negInt(st, i.L, x.Type())
		}
	case token.ARROW:
		if in.H.Chan != nil {
			if rs, ok := in.H.Chan(st, "recv", in.val(st, x.X), nil, true, x.Pos()); ok {
				if !x.CommaOk {
					for i := range rs {
						if rs[i].Panic == nil {
							rs[i].V = rs[i].V.(Tuple).V[0]
						}
					}
				}
				return rs
			}
		}
		st.Events = append(st.Events, Event{Kind: "recv", Args: []Val{in.val(st, x.X)}, Pos: x.Pos()})
		if x.CommaOk {
			return one(st, in.Fresh(st, x.Type(), "recv"))
		}
		return one(st, in.Fresh(st, x.Type(), "recv"))
	}
	return one(st, in.App(st, "un"+x.Op.String(), x.Type(), in.val(st, x.X)))
}

// MinInt marks the least value of atoms that range over every machine integer.
const MinInt = -(1 << 62)

// negInt negates, keeping the two's-complement fixed point for full-range atoms.
func (in *Interp) negInt(st *State, l Lin, T types.Type) []R {
	if len(l.T) == 1 && l.C == 0 && l.T[0].K == 1 {
		if si := in.syms[l.T[0].A]; si != nil && si.Tag == "fullrange" {
			t, f := st.Branch(CEq{l.AddK(-MinInt)})
			var out []R
			if t != nil {
				out = append(out, R{St: t, V: Int{l}})
			}
			if f != nil {
				out = append(out, R{St: f, V: Int{l.Neg()}})
			}
			return out
		}
	}
	return one(st, Int{l.Neg()})
}

func negate(c Cond) Cond {
	switch c := c.(type) {
	case CConst:
		return CConst{!c.V}
	case CNot:
		return c.C
	}
	return CNot{c}
}

// PtrLike reports values compared by identity.
func (in *Interp) eq(st *State, a, b Val, _ types.Type, pos token.Pos) (Cond, bool) {
	a, b = st.Resolve(a), st.Resolve(b)
	if in.H.PtrEq != nil {
		if c, ok := in.H.PtrEq(st, a, b); ok {
			return c, true
		}
	}
	if _, ok := b.(Nil); ok {
		a, b = b, a
	}
	if _, ok := a.(Nil); ok {
		switch y := b.(type) {
		case Nil:
			return CConst{true}, true
		case Ptr, Iface, Func, MapVal:
			return CConst{false}, true
		case Slice:
			// a non-Nil slice value may still be nil only when it is an unknown input
			o := st.heap[y.Arr]
			if o != nil && !o.Fresh && st.Eval(CEq{y.Cap}) != F {
				return CEq{y.Cap}, true
			}
			return CConst{false}, true
		case Sym:
			return CNil{y.ID}, true
		}
	}
	switch x := a.(type) {
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.O != y.O || len(x.Path) != len(y.Path) || x.IsElem != y.IsElem {
				return CConst{false}, true
			}
			for i := range x.Path {
				if x.Path[i] != y.Path[i] {
					return CConst{false}, true
				}
			}
			if x.IsElem {
				return CEq{x.Idx.Sub(y.Idx)}, true
			}
			return CConst{true}, true
		}
		if y, ok := b.(Sym); ok {
			return in.App(st, "ptreq", types.Typ[types.Bool], y, x).(Bool).C, true
		}
	case Sym:
		if y, ok := b.(Sym); ok {
			if x.ID == y.ID {
				return CConst{true}, true
			}
			if x.ID > y.ID {
				x, y = y, x
			}
			return in.App(st, "eq", types.Typ[types.Bool], x, y).(Bool).C, true
		}
		if y, ok := b.(Ptr); ok {
			return in.App(st, "ptreq", types.Typ[types.Bool], x, y).(Bool).C, true
		}
		return in.App(st, "eq", types.Typ[types.Bool], x, b).(Bool).C, true
	case Iface:
		if y, ok := b.(Iface); ok {
			if !types.Identical(x.T, y.T) {
				return CConst{false}, true
			}
			return in.eq(st, x.V, y.V, x.T, pos)
		}
		if y, ok := b.(Sym); ok {
			return in.App(st, "eq", types.Typ[types.Bool], y, x).(Bool).C, true
		}
	case Int:
		if y, ok := b.(Int); ok {
			return CEq{x.L.Sub(y.L)}, true
		}
	case Str:
		if y, ok := b.(Str); ok {
			return CConst{x.S == y.S}, true
		}
		if y, ok := b.(Sym); ok {
			return in.App(st, "eq", types.Typ[types.Bool], y, x).(Bool).C, true
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			if v := st.Eval(y.C); v == T {
				return x.C, true
			} else if v == F {
				return negate(x.C), true
			}
			if v := st.Eval(x.C); v == T {
				return y.C, true
			} else if v == F {
				return negate(y.C), true
			}
		}
	}
	return nil, false
}

func (in *Interp) binop(st *State, x *ssa.BinOp) []R {
	a, b := st.Resolve(in.val(st, x.X)), st.Resolve(in.val(st, x.Y))
	if in.H.BinOp != nil {
		if r, ok := in.H.BinOp(st, x, a, b); ok {
			return r
		}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		c, ok := in.eq(st, a, b, x.X.Type(), x.Pos())
		if !ok {
			c = in.App(st, "eq", types.Typ[types.Bool], a, b).(Bool).C
		}
		if x.Op == token.NEQ {
			c = negate(c)
		}
		return one(st, Bool{c})
	}
	ia, ok1 := a.(Int)
	ib, ok2 := b.(Int)
	if ok1 && ok2 {
		l, m := ia.L, ib.L
		switch x.Op {
		case token.LSS:
			return one(st, Bool{CLe{l.Sub(m).AddK(1)}})
		case token.LEQ:
			return one(st, Bool{CLe{l.Sub(m)}})
		case token.GTR:
			return one(st, Bool{CLe{m.Sub(l).AddK(1)}})
		case token.GEQ:
			return one(st, Bool{CLe{m.Sub(l)}})
		case token.ADD:
			return one(st, Int{l.Add(m)})
		case token.SUB:
			return one(st, Int{l.Sub(m)})
		case token.MUL:
			if m.IsConst() {
				return one(st, Int{l.Scale(m.C)})
			}
			if l.IsConst() {
				return one(st, Int{m.Scale(l.C)})
			}
		case token.QUO:
			if m.IsConst() && m.C > 0 {
				return in.divConst(st, l, m.C, x.Type(), true)
			}
			return in.divZero(st, a, b, x)
		case token.REM:
			return in.rem(st, l, m, x)
		case token.SHR:
			if m.IsConst() && m.C >= 0 && m.C < 60 {
				return in.divConst(st, l, 1<<uint(m.C), x.Type(), false)
			}
		case token.SHL:
			if m.IsConst() && m.C >= 0 && m.C < 40 {
				return one(st, Int{l.Scale(1 << uint(m.C))})
			}
		case token.AND:
			if l.IsConst() && m.IsConst() {
				return one(st, Int{K(l.C & m.C)})
			}
			v := in.App(st, "&", x.Type(), a, b).(Int)
			if m.IsConst() && m.C >= 0 {
				st.AddLe(v.L.Neg())
				st.AddLe(v.L.AddK(-m.C))
			} else if st.Le(m.Neg(), K(0)) {
				st.AddLe(v.L.Neg())
				st.AddLe(v.L.Sub(m))
			}
			return one(st, v)
		}
	}
	if ba, ok := a.(Bool); ok {
		if bb, ok := b.(Bool); ok && (x.Op == token.AND || x.Op == token.OR) {
			_ = ba
			_ = bb
		}
	}
	sa, ok1 := a.(Str)
	sb, ok2 := b.(Str)
	if ok1 && ok2 && x.Op == token.ADD {
		return one(st, Str{sa.S + sb.S})
	}
	return one(st, in.App(st, "bin"+x.Op.String(), x.Type(), a, b))
}

// divConst models truncated (quo) or floor (shift) division by a positive constant.
func (in *Interp) divConst(st *State, l Lin, k int64, T types.Type, trunc bool) []R {
	if k == 1 {
		return one(st, Int{l})
	}
	if l.IsConst() {
		if trunc {
			return one(st, Int{K(l.C / k)})
		}
		return one(st, Int{K(floorDiv(l.C, k))})
	}
	exact := l.C%k == 0
	for _, t := range l.T {
		if t.K%k != 0 {
			exact = false
		}
	}
	if exact {
		r := Lin{C: l.C / k}
		for _, t := range l.T {
			r.T = append(r.T, LTerm{t.A, t.K / k})
		}
		return one(st, Int{r})
	}
	mk := func(s *State, name string) Int {
		v := in.App(s, name, T, Int{l}, Int{K(k)}).(Int)
		return v
	}
	floor := func(s *State) R {
		v := mk(s, "floordiv")
		// k*v <= l <= k*v + k-1
		s.AddLe(v.L.Scale(k).Sub(l))
		s.AddLe(l.Sub(v.L.Scale(k)).AddK(-(k - 1)))
		return R{St: s, V: v}
	}
	if !trunc {
		return []R{floor(st)}
	}
	t, f := st.Branch(CLe{l.Neg()})
	var out []R
	if t != nil {
		out = append(out, floor(t))
	}
	if f != nil {
		v := mk(f, "ceildiv")
		// l <= k*v <= l + k-1
		f.AddLe(l.Sub(v.L.Scale(k)))
		f.AddLe(v.L.Scale(k).Sub(l).AddK(-(k - 1)))
		out = append(out, R{St: f, V: v})
	}
	return out
}

func (in *Interp) divZero(st *State, a, b Val, x *ssa.BinOp) []R {
	t, f := st.Branch(CEq{b.(Int).L})
	var out []R
	if t != nil {
		out = append(out, rpanic(t, "div", x.Pos(), "division by zero"))
	}
	if f != nil {
		out = append(out, R{St: f, V: in.App(f, "/", x.Type(), a, b)})
	}
	return out
}

func (in *Interp) rem(st *State, l, m Lin, x *ssa.BinOp) []R {
	t, f := st.Branch(CEq{m})
	var out []R
	if t != nil {
		out = append(out, rpanic(t, "div", x.Pos(), "remainder by zero"))
	}
	if f == nil {
		return out
	}
	if l.IsConst() && m.IsConst() {
		return append(out, R{St: f, V: Int{K(l.C % m.C)}})
	}
	v := in.App(f, "%", x.Type(), Int{l}, Int{m}).(Int)
	// for a positive modulus: |v| < m with the sign of l
	add := func(s *State) {
		if s.Le(K(1), m) {
			tt, ff := s.Branch(CLe{l.Neg()})
			if tt != nil {
				tt.AddLe(v.L.Neg())
				tt.AddLe(v.L.Sub(m).AddK(1))
				if tt.Le(l.AddK(1), m) { // already reduced
					tt.AddLe(v.L.Sub(l))
					tt.AddLe(l.Sub(v.L))
				}
				out = append(out, R{St: tt, V: v})
			}
			if ff != nil {
				ff.AddLe(v.L)
				ff.AddLe(m.Neg().AddK(1).Sub(v.L))
				out = append(out, R{St: ff, V: v})
			}
			return
		}
		out = append(out, R{St: s, V: v})
	}
	p, q := f.Branch(CLe{K(1).Sub(m)})
	if p != nil {
		add(p)
	}
	if q != nil {
		add(q)
	}
	return out
}

func (in *Interp) convert(st *State, x *ssa.Convert) []R {
	v := st.Resolve(in.val(st, x.X))
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	if i, ok := v.(Int); ok && isInt(to) {
		if intFits(from, to) {
			return one(st, i)
		}
		if i.L.IsConst() {
			if c, ok := wrapConst(i.L.C, to); ok {
				return one(st, Int{K(c)})
			}
		}
		if lo, hi, ok := intRange(to); ok && st.Le(K(lo), i.L) && st.Le(i.L, K(hi)) {
			return one(st, i)
		}
		if fb, fu, ok1 := intBits(from); ok1 && in.Counts {
			if tb, tu, ok2 := intBits(to); ok2 && fb == 64 && tb == 64 && fu != tu && st.Le(i.L.Neg(), K(0)) {
				return one(st, i)
			}
		}
		return one(st, in.App(st, "conv", x.Type(), v))
	}
	if fb, ok := from.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
		if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return one(st, v)
		}
		if ts, ok := to.(*types.Slice); ok {
			// []byte(string): a fresh array
			ln := in.App(st, "len", types.Typ[types.Int], v).(Int)
			st.AddLe(ln.L.Neg())
			o := st.NewArr(ts.Elem(), ln.L, DefTop, true, "bytes")
			o.Tag = v
			return one(st, Slice{o.ID, K(0), ln.L, ln.L})
		}
	}
	if _, ok := v.(Ptr); ok {
		return one(st, v)
	}
	return one(st, in.App(st, "conv", x.Type(), v))
}

func intBits(T types.Type) (bits int, unsigned bool, ok bool) {
	b, isB := T.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	unsigned = b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	return bits, unsigned, true
}

// intFits: every value of from is representable in to.
func intFits(from, to types.Type) bool {
	fb, fu, ok1 := intBits(from)
	tb, tu, ok2 := intBits(to)
	if !ok1 || !ok2 {
		return false
	}
	if fu == tu {
		return tb >= fb
	}
	return fu && tb > fb
}

func intRange(T types.Type) (lo, hi int64, ok bool) {
	b, u, ok := intBits(T)
	if !ok || (b == 64) {
		if ok && u {
			return 0, 1 << 61, true
		}
		return -(1 << 61), 1 << 61, ok
	}
	if u {
		return 0, 1<<uint(b) - 1, true
	}
	return -(1 << uint(b-1)), 1<<uint(b-1) - 1, true
}

func wrapConst(c int64, T types.Type) (int64, bool) {
	b, u, ok := intBits(T)
	if !ok {
		return 0, false
	}
	switch {
	case b == 8 && u:
		return int64(uint8(c)), true
	case b == 8:
		return int64(int8(c)), true
	case b == 16 && u:
		return int64(uint16(c)), true
	case b == 16:
		return int64(int16(c)), true
	case b == 32 && u:
		return int64(uint32(c)), true
	case b == 32:
		return int64(int32(c)), true
	case !u || c >= 0:
		return c, true
	}
	return 0, false
}

func (in *Interp) indexAddr(st *State, x *ssa.IndexAddr) []R {
	idx, ok := st.Resolve(in.val(st, x.Index)).(Int)
	if !ok {
		panic(Undecided{Msg: "index", Pos: x.Pos()})
	}
	var out []R
	var arr int
	var off, ln Lin
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		switch s := st.Resolve(in.val(st, x.X)).(type) {
		case Slice:
			arr, off, ln = s.Arr, s.Off, s.Len
		case Nil:
			return []R{rpanic(st, "index", x.Pos(), "index of a nil slice")}
		default:
			sv := st.Resolve(in.val(st, x.X))
			panic(Undecided{Msg: "index of " + st.Show(sv), Pos: x.Pos()})
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		for _, r := range in.DerefPtr(st, in.val(st, x.X), x.X.Type(), x.Pos()) {
			if r.Panic != nil {
				out = append(out, r)
				continue
			}
			p := r.V.(Ptr)
			a := p.O
			if r.St.heap[p.O].Arr == nil || len(p.Path) > 0 {
				l := in.Load(r.St, p)
				if len(l) != 1 {
					panic(Undecided{Msg: "array field", Pos: x.Pos()})
				}
				av, ok := l[0].V.(ArrVal)
				if !ok {
					panic(Undecided{Msg: "array field", Pos: x.Pos()})
				}
				a = av.O
				r.St = l[0].St
			}
			out = append(out, in.boundCheck(r.St, a, K(0), K(at.Len()), idx.L, x.Pos())...)
		}
		return out
	}
	return in.boundCheck(st, arr, off, ln, idx.L, x.Pos())
}

func (in *Interp) boundCheck(st *State, arr int, off, ln, idx Lin, pos token.Pos) []R {
	var out []R
	t, f := st.Branch(CLe{idx.Neg()})
	if f != nil {
		out = append(out, rpanic(f, "index", pos, "index "+f.showLin(idx)+" may be negative"))
	}
	if t == nil {
		return out
	}
	t, f = t.Branch(CLe{idx.AddK(1).Sub(ln)})
	if f != nil {
		out = append(out, rpanic(f, "index", pos, "index "+f.showLin(idx)+" may reach length "+f.showLin(ln)))
	}
	if t != nil {
		out = append(out, R{St: t, V: Ptr{O: arr, IsElem: true, Idx: off.Add(idx)}})
	}
	return out
}

func (in *Interp) slice(st *State, x *ssa.Slice) []R {
	var base Slice
	isStr := false
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		switch s := st.Resolve(in.val(st, x.X)).(type) {
		case Slice:
			base = s
		case Nil:
			base = Slice{Arr: -1}
		default:
			return one(st, in.App(st, "slice", x.Type(), s))
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p, ok := st.Resolve(in.val(st, x.X)).(Ptr)
		if !ok {
			panic(Undecided{Msg: "slice of array", Pos: x.Pos()})
		}
		a := p.O
		if st.heap[a].Arr == nil {
			l := in.Load(st, p)
			a = l[0].V.(ArrVal).O
		}
		base = Slice{a, K(0), K(at.Len()), K(at.Len())}
	default:
		isStr = true
	}
	opt := func(v ssa.Value, d Lin) Lin {
		if v == nil {
			return d
		}
		i, ok := st.Resolve(in.val(st, v)).(Int)
		if !ok {
			panic(Undecided{Msg: "slice bound", Pos: x.Pos()})
		}
		return i.L
	}
	if isStr {
		var args []Val
		args = append(args, in.val(st, x.X))
		if x.Low != nil {
			args = append(args, in.val(st, x.Low))
		} else {
			args = append(args, Int{K(0)})
		}
		if x.High != nil {
			args = append(args, in.val(st, x.High))
		}
		return one(st, in.App(st, "strslice", x.Type(), args...))
	}
	lo := opt(x.Low, K(0))
	hi := opt(x.High, base.Len)
	mx := opt(x.Max, base.Cap)
	var out []R
	check := func(c Cond, msg string) {
		if st == nil {
			return
		}
		t, f := st.Branch(c)
		if f != nil {
			out = append(out, rpanic(f, "slice", x.Pos(), msg))
		}
		st = t
	}
	check(CLe{lo.Neg()}, "slice bound "+st.showLin(lo)+" may be negative")
	check(CLe{lo.Sub(hi)}, "slice bounds may be inverted")
	check(CLe{hi.Sub(mx)}, "slice bound may exceed capacity")
	if x.Max != nil {
		check(CLe{mx.Sub(base.Cap)}, "slice bound may exceed capacity")
	}
	if st == nil {
		return out
	}
	if base.Arr == -1 {
		return append(out, R{St: st, V: Nil{}})
	}
	return append(out, R{St: st, V: Slice{base.Arr, base.Off.Add(lo), hi.Sub(lo), mx.Sub(lo)}})
}

func implements(T types.Type, I types.Type) bool {
	i, ok := I.Underlying().(*types.Interface)
	return ok && types.Implements(T, i)
}

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert) []R {
	v := st.Resolve(in.val(st, x.X))
	AT := x.AssertedType
	_, toIface := AT.Underlying().(*types.Interface)
	yes := func(s *State, val Val) R {
		if x.CommaOk {
			return R{St: s, V: Tuple{[]Val{val, True()}}}
		}
		return R{St: s, V: val}
	}
	no := func(s *State) R {
		if x.CommaOk {
			return R{St: s, V: Tuple{[]Val{in.Zero(s, AT), False()}}}
		}
		return rpanic(s, "assert", x.Pos(), "type assertion to "+types.TypeString(AT, nil)+" may fail")
	}
	switch y := v.(type) {
	case Nil:
		return []R{no(st)}
	case Iface:
		if toIface {
			if implements(y.T, AT) {
				return []R{yes(st, y)}
			}
			return []R{no(st)}
		}
		if types.Identical(y.T, AT) {
			return []R{yes(st, y.V)}
		}
		return []R{no(st)}
	case Sym:
		if in.H.TypeAssert != nil {
			if tas, ok := in.H.TypeAssert(st, y, AT); ok {
				var out []R
				for _, ta := range tas {
					if ta.OK {
						out = append(out, yes(ta.St, ta.V))
					} else {
						out = append(out, no(ta.St))
					}
				}
				return out
			}
		}
		c := in.App(st, "is "+types.TypeString(AT, nil), types.Typ[types.Bool], y).(Bool)
		t, f := st.Branch(c.C)
		var out []R
		if t != nil {
			t.nonnil[y.ID] = true
			if toIface {
				out = append(out, yes(t, y))
			} else {
				out = append(out, yes(t, in.App(t, "as", AT, y)))
			}
		}
		if f != nil {
			out = append(out, no(f))
		}
		return out
	}
	panic(Undecided{Msg: "type assertion on " + st.Show(v), Pos: x.Pos()})
}

// ---------------------------------------------------------------- calls

func (in *Interp) callOperands(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(st, a))
	}
	return in.val(st, c.Value), args
}

func (in *Interp) callInstr(st *State, site ssa.CallInstruction, c *ssa.CallCommon) []R {
	fnv, args := in.callOperands(st, c)
	var out []R
	for _, o := range in.callCommon(st, site, c, fnv, args) {
		out = append(out, toR(o))
	}
	return out
}

func toR(o Outcome) R {
	if o.Panic != nil {
		return R{St: o.St, Panic: o.Panic}
	}
	switch len(o.Rets) {
	case 0:
		return R{St: o.St, V: Tuple{}}
	case 1:
		return R{St: o.St, V: o.Rets[0]}
	}
	return R{St: o.St, V: Tuple{o.Rets}}
}

func (in *Interp) callCommon(st *State, site ssa.CallInstruction, c *ssa.CallCommon, fnv Val, args []Val) []Outcome {
	pos := site.Pos()
	if c.IsInvoke() {
		return in.CallMethod(st, site, c.Method, fnv, args, pos)
	}
	return in.CallValue(st, site, fnv, args, pos)
}

// CallMethod performs a dynamic interface method call.
func (in *Interp) CallMethod(st *State, site ssa.CallInstruction, m *types.Func, recv Val, args []Val, pos token.Pos) []Outcome {
	recv = st.Resolve(recv)
	switch r := recv.(type) {
	case Nil:
		return []Outcome{{St: st, Panic: &PanicInfo{Kind: "nil", Pos: pos, Msg: "method " + m.Name() + " called on a nil interface"}}}
	case Iface:
		fn := in.P.SSA.LookupMethod(r.T, m.Pkg(), m.Name())
		if fn == nil {
			panic(Undecided{Msg: "no method " + m.Name() + " on " + r.T.String(), Pos: pos})
		}
		return in.CallFunc(st, site, fn, append([]Val{r.V}, args...), nil, pos)
	case Sym:
		ci := &CallInfo{Site: site, Method: m, Recv: r, Args: args, Pos: pos, Sig: m.Type().(*types.Signature)}
		if in.H.Call != nil {
			if o, ok := in.H.Call(st, ci); ok {
				return o
			}
		}
		return in.defaultMethod(st, ci)
	}
	panic(Undecided{Msg: "method " + m.Name() + " on " + st.Show(recv), Pos: pos})
}

// defaultMethod models the key interface and otherwise returns unknown values.
func (in *Interp) defaultMethod(st *State, c *CallInfo) []Outcome {
	r := c.Recv.(Sym)
	var out []Outcome
	if !st.nonnil[r.ID] {
		t, f := st.Branch(CNil{r.ID})
		if t != nil {
			out = append(out, Outcome{St: t, Panic: &PanicInfo{Kind: "nil", Pos: c.Pos, Msg: "method " + c.Method.Name() + " called on a possibly nil value"}})
		}
		st = f
		if st == nil {
			return out
		}
	}
	name := c.Method.Name()
	if len(c.Args) == 1 && (name == "Equals" || name == "Less") {
		a := st.Resolve(c.Args[0])
		switch y := a.(type) {
		case Nil:
			return append(out, Outcome{St: st, Rets: []Val{False()}})
		case Sym:
			m := EQ
			if name == "Less" {
				m = LT
			}
			return append(out, Outcome{St: st, Rets: []Val{Bool{COrd{r.ID, y.ID, m}}}})
		}
		return append(out, Outcome{St: st, Rets: []Val{in.App(st, name, types.Typ[types.Bool], r, a)}})
	}
	if name == "Hash" && len(c.Args) == 0 {
		return append(out, Outcome{St: st, Rets: []Val{in.App(st, "Hash", types.Typ[types.Int], r)}})
	}
	in.Unmodelled["method "+c.Method.FullName()]++
	return append(out, Outcome{St: st, Rets: in.freshResults(st, c.Sig, name)})
}

// FreshCall gives a call arbitrary results; its last result, when an error, is nil or not.
func (in *Interp) FreshCall(st *State, c *CallInfo) []Outcome {
	rets := in.freshResults(st, c.Sig, "result")
	n := len(rets)
	if n == 0 || !isErr(c.Sig.Results().At(n-1).Type()) {
		return []Outcome{{St: st, Rets: rets}}
	}
	st2 := st.Clone()
	bad := append([]Val(nil), rets...)
	bad[n-1] = in.NewErr(st2, c.Sig.Results().At(n-1).Type(), "error")
	rets[n-1] = Nil{}
	return []Outcome{{St: st, Rets: rets}, {St: st2, Rets: bad}}
}

func isErr(T types.Type) bool { return types.Identical(T, types.Universe.Lookup("error").Type()) }

func (in *Interp) freshResults(st *State, sig *types.Signature, name string) []Val {
	var rets []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rets = append(rets, in.Fresh(st, sig.Results().At(i).Type(), fmt.Sprintf("%s()", name)))
	}
	return rets
}

// CallValue calls a function value.
func (in *Interp) CallValue(st *State, site ssa.CallInstruction, fnv Val, args []Val, pos token.Pos) []Outcome {
	fnv = st.Resolve(fnv)
	switch f := fnv.(type) {
	case Func:
		if f.B != nil {
			return in.builtin(st, site, f.B, args, pos)
		}
		return in.CallFunc(st, site, f.Fn, args, f.Bind, pos)
	case Nil:
		return []Outcome{{St: st, Panic: &PanicInfo{Kind: "nil", Pos: pos, Msg: "call of a nil function"}}}
	case Sym:
		var out []Outcome
		if !st.nonnil[f.ID] {
			t, g := st.Branch(CNil{f.ID})
			if t != nil {
				out = append(out, Outcome{St: t, Panic: &PanicInfo{Kind: "nil", Pos: pos, Msg: "call of a possibly nil function"}})
			}
			st = g
			if st == nil {
				return out
			}
		}
		var sig *types.Signature
		if si := in.syms[f.ID]; si != nil && si.T != nil {
			sig, _ = si.T.Underlying().(*types.Signature)
		}
		ci := &CallInfo{Site: site, FnVal: f, Args: args, Pos: pos, Sig: sig}
		if in.H.Call != nil {
			if o, ok := in.H.Call(st, ci); ok {
				return append(out, o...)
			}
		}
		if sig == nil {
			panic(Undecided{Msg: "call of an unknown function", Pos: pos})
		}
		rets := in.freshResults(st, sig, in.symName(f.ID))
		// error constructors kept in a package-level table
		if si := in.syms[f.ID]; si.Op == "lookup" && len(rets) == 1 {
			if s, ok := rets[0].(Sym); ok {
				st.nonnil[s.ID] = true
			}
		}
		return append(out, Outcome{St: st, Rets: rets})
	}
	panic(Undecided{Msg: "call of " + st.Show(fnv), Pos: pos})
}

// CallFunc calls a known function.
func (in *Interp) CallFunc(st *State, site ssa.CallInstruction, fn *ssa.Function, args, bind []Val, pos token.Pos) []Outcome {
	ci := &CallInfo{Site: site, Fn: fn, Bind: bind, Args: args, Pos: pos, Sig: fn.Signature}
	if in.H.Call != nil {
		if o, ok := in.H.Call(st, ci); ok {
			return o
		}
	}
	if o, ok := in.model(st, ci); ok {
		return o
	}
	if len(fn.Blocks) > 0 && (in.P.InRepo(fn) || fn.Synthetic != "") {
		return in.Invoke(st, fn, args, bind, pos)
	}
	in.Unmodelled[fn.String()]++
	return []Outcome{{St: st, Rets: in.freshResults(st, fn.Signature, fn.Name())}}
}

// OnStack counts activations of fn.
func (st *State) OnStack(fn *ssa.Function) int {
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// Caller is the function currently executing.
func (st *State) Caller() *ssa.Function {
	if len(st.frames) == 0 {
		return nil
	}
	return st.top().fn
}

func (in *Interp) builtin(st *State, site ssa.CallInstruction, b *ssa.Builtin, args []Val, pos token.Pos) []Outcome {
	ret := func(v Val) []Outcome { return []Outcome{{St: st, Rets: []Val{v}}} }
	switch b.Name() {
	case "len":
		switch s := st.Resolve(args[0]).(type) {
		case Slice:
			return ret(Int{s.Len})
		case Nil:
			return ret(Int{K(0)})
		case Str:
			return ret(Int{K(int64(len(s.S)))})
		case ArrVal:
			return ret(Int{st.heap[s.O].Arr.Len})
		default:
			v := in.App(st, "len", types.Typ[types.Int], s).(Int)
			st.AddLe(v.L.Neg())
			return ret(v)
		}
	case "cap":
		switch s := st.Resolve(args[0]).(type) {
		case Slice:
			return ret(Int{s.Cap})
		case Nil:
			return ret(Int{K(0)})
		default:
			v := in.App(st, "cap", types.Typ[types.Int], s).(Int)
			st.AddLe(v.L.Neg())
			return ret(v)
		}
	case "append":
		return in.appendSlice(st, args, pos, b)
	case "copy":
		dst, ok1 := st.Resolve(args[0]).(Slice)
		src, ok2 := st.Resolve(args[1]).(Slice)
		if !ok1 || !ok2 {
			if _, n := st.Resolve(args[0]).(Nil); n {
				return ret(Int{K(0)})
			}
			if _, n := st.Resolve(args[1]).(Nil); n {
				return ret(Int{K(0)})
			}
			if ok1 { // copying from a string
				o := *st.heap[dst.Arr]
				a := *o.Arr
				a.Cells, a.Def = nil, DefTop
				o.Arr = &a
				o.Dirty = true
				st.heap[dst.Arr] = &o
				return ret(in.App(st, "copied", types.Typ[types.Int], args[1]))
			}
			panic(Undecided{Msg: "copy", Pos: pos})
		}
		if in.H.OnStore != nil {
			in.H.OnStore(st, Ptr{O: dst.Arr, IsElem: true, Idx: dst.Off}, src, pos)
		}
		var out []Outcome
		t, f := st.Branch(CLe{dst.Len.Sub(src.Len)})
		do := func(s *State, n Lin) {
			if s == nil {
				return
			}
			for _, r := range in.CopyRange(s, dst.Arr, dst.Off, src.Arr, src.Off, n) {
				out = append(out, Outcome{St: r, Rets: []Val{Int{n}}})
			}
		}
		do(t, dst.Len)
		do(f, src.Len)
		return out
	case "recover":
		// the frame being unwound is the caller of the deferred function
		if len(st.frames) >= 2 {
			fr := st.frames[len(st.frames)-2]
			if fr.inPanic {
				fr.inPanic = false
				v := fr.panicV
				fr.panicV = nil
				return ret(v)
			}
		}
		return ret(Nil{})
	case "close":
		if in.H.Chan != nil {
			if rs, ok := in.H.Chan(st, "close", args[0], nil, false, pos); ok {
				var out []Outcome
				for _, r := range rs {
					out = append(out, Outcome{St: r.St, Panic: r.Panic})
				}
				return out
			}
		}
		st.Events = append(st.Events, Event{Kind: "close", Args: args, Pos: pos})
		return []Outcome{{St: st}}
	case "print", "println":
		return []Outcome{{St: st}}
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := st.Resolve(args[0]).(Int)
			c, ok2 := st.Resolve(args[1]).(Int)
			if ok1 && ok2 {
				t, f := st.Branch(CLe{a.L.Sub(c.L)})
				var out []Outcome
				lo, hi := a, c
				if b.Name() == "max" {
					lo, hi = c, a
				}
				if t != nil {
					out = append(out, Outcome{St: t, Rets: []Val{lo}})
				}
				if f != nil {
					out = append(out, Outcome{St: f, Rets: []Val{hi}})
				}
				return out
			}
		}
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "delete", "clear":
		st.Events = append(st.Events, Event{Kind: b.Name(), Args: args, Pos: pos})
		return []Outcome{{St: st}}
	}
	panic(Undecided{Msg: "builtin " + b.Name(), Pos: pos})
}

func (in *Interp) appendSlice(st *State, args []Val, pos token.Pos, b *ssa.Builtin) []Outcome {
	sig := b.Type().(*types.Signature)
	elem := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	var src Slice
	switch s := st.Resolve(args[1]).(type) {
	case Slice:
		src = s
	case Nil:
		src = Slice{Arr: -1}
	default:
		// appending a string
		n := in.App(st, "len", types.Typ[types.Int], s).(Int)
		st.AddLe(n.L.Neg())
		o := st.NewArr(elem, n.L, DefTop, true, "bytes")
		src = Slice{o.ID, K(0), n.L, n.L}
	}
	var dst Slice
	switch d := st.Resolve(args[0]).(type) {
	case Slice:
		dst = d
	case Nil:
		dst = Slice{Arr: -1}
	default:
		panic(Undecided{Msg: "append to " + st.Show(d), Pos: pos})
	}
	if src.Arr == -1 {
		return []Outcome{{St: st, Rets: []Val{args[0]}}}
	}
	nl := dst.Len.Add(src.Len)
	var out []Outcome
	t, f := st.Branch(CLe{nl.Sub(dst.Cap)})
	if t != nil {
		if dst.Arr == -1 {
			out = append(out, Outcome{St: t, Rets: []Val{Nil{}}})
		} else {
			if in.H.OnStore != nil {
				in.H.OnStore(t, Ptr{O: dst.Arr, IsElem: true, Idx: dst.Off.Add(dst.Len)}, src, pos)
			}
			for _, r := range in.CopyRange(t, dst.Arr, dst.Off.Add(dst.Len), src.Arr, src.Off, src.Len) {
				if in.H.OnAppend != nil {
					in.H.OnAppend(r, dst, src, Slice{dst.Arr, dst.Off, nl, dst.Cap})
				}
				out = append(out, Outcome{St: r, Rets: []Val{Slice{dst.Arr, dst.Off, nl, dst.Cap}}})
			}
		}
	}
	if f != nil {
		cp := in.NewAtom("cap'")
		f.AddLe(nl.Sub(cp))
		o := f.NewArr(elem, cp, DefZero, true, "append")
		states := []*State{f}
		if dst.Arr != -1 {
			states = in.CopyRange(f, o.ID, K(0), dst.Arr, dst.Off, dst.Len)
		}
		for _, s := range states {
			for _, r := range in.CopyRange(s, o.ID, dst.Len, src.Arr, src.Off, src.Len) {
				if in.H.OnAppend != nil {
					in.H.OnAppend(r, dst, src, Slice{o.ID, K(0), nl, cp})
				}
				out = append(out, Outcome{St: r, Rets: []Val{Slice{o.ID, K(0), nl, cp}}})
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- flow information

type flowInfo struct {
	tail   map[*ssa.Call]bool
	header map[*ssa.BasicBlock]bool
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
}

// tailCalls finds the calls of a function to itself after which it does nothing but return what they returned.
func tailCalls(fn *ssa.Function) map[*ssa.Call]bool {
	out := map[*ssa.Call]bool{}
	if fn.Recover != nil || len(fn.Blocks[0].Preds) > 0 {
		return out
	}
	self := func(c *ssa.Call) bool {
		if g := c.Call.StaticCallee(); g != nil {
			return g == fn && len(fn.FreeVars) == 0
		}
		return !c.Call.IsInvoke() && fn.Parent() != nil && types.Identical(c.Call.Signature(), fn.Signature)
	}
	for _, b := range fn.Blocks {
		for i, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok || !self(c) {
				continue
			}
			last, rest := true, b.Instrs[i+1:]
			for n := 0; last && n < 4; n++ {
				var next *ssa.BasicBlock
				for _, y := range rest {
					switch y := y.(type) {
					case *ssa.Extract:
						last = last && y.Tuple == c
					case *ssa.DebugRef:
					case *ssa.Jump:
						next = y.Block().Succs[0]
					case *ssa.Return:
						for k, r := range y.Results {
							e, ok := r.(*ssa.Extract)
							last = last && (r == ssa.Value(c) && len(y.Results) == 1 || ok && e.Tuple == c && e.Index == k)
						}
					default:
						last = false
					}
				}
				if next == nil {
					if last {
						out[c] = true
					}
					break
				}
				rest = next.Instrs
			}
		}
	}
	return out
}

func (in *Interp) flow(fn *ssa.Function) *flowInfo {
	if f := in.live[fn]; f != nil {
		return f
	}
	f := &flowInfo{header: map[*ssa.BasicBlock]bool{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				f.header[b] = true
			}
		}
	}
	if in.Tail {
		f.tail = tailCalls(fn)
		if len(f.tail) > 0 {
			f.header[fn.Blocks[0]] = true
		}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global, nil:
			return false
		}
		return true
	}
	for _, b := range fn.Blocks {
		f.liveIn[b] = map[ssa.Value]bool{}
	}
	if fn.Recover != nil && f.liveIn[fn.Recover] == nil {
		f.liveIn[fn.Recover] = map[ssa.Value]bool{}
	}
	blocks := fn.Blocks
	if fn.Recover != nil {
		found := false
		for _, b := range blocks {
			if b == fn.Recover {
				found = true
			}
		}
		if !found {
			blocks = append(append([]*ssa.BasicBlock(nil), blocks...), fn.Recover)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(blocks) - 1; i >= 0; i-- {
			b := blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range f.liveIn[s] {
					// phis of s are defined on entry of s
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					live[v] = true
				}
				k := -1
				for j, p := range s.Preds {
					if p == b {
						k = j
					}
				}
				for _, x := range s.Instrs {
					p, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					if e := p.Edges[k]; tracked(e) {
						live[e] = true
					}
				}
			}
			// values read by the recover block stay live throughout
			if fn.Recover != nil {
				for v := range f.liveIn[fn.Recover] {
					live[v] = true
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if p, ok := x.(*ssa.Phi); ok {
					_ = p
					continue
				}
				if v, ok := x.(ssa.Value); ok {
					delete(live, v)
				}
				for _, op := range x.Operands(nil) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			// keep used phis (they are live at the point just after phi evaluation)
			if len(live) != len(f.liveIn[b]) {
				f.liveIn[b] = live
				changed = true
			}
		}
	}
	in.live[fn] = f
	return f
}

// SortedUnmodelled lists library calls treated as unknown.
func (in *Interp) SortedUnmodelled() []string {
	var s []string
	for k := range in.Unmodelled {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// indexed recognises two applications of the same indexed function.
func (in *Interp) indexed(a, b int) (x, y Lin, ok bool) {
	p, q := in.syms[a], in.syms[b]
	if p == nil || q == nil || p.Op != q.Op || !in.Indexed[p.Op] {
		return
	}
	return p.Args[0].(Int).L, q.Args[0].(Int).L, true
}

// Same reports that two values are certainly the same.
func (in *Interp) Same(st *State, a, b Val) bool {
	a, b = st.Resolve(a), st.Resolve(b)
	switch x := a.(type) {
	case Sym:
		if y, ok := b.(Sym); ok && x.ID != y.ID {
			if p, q, ok := in.indexed(x.ID, y.ID); ok {
				return st.EqLin(p, q)
			}
		}
	case Int:
		y, ok := b.(Int)
		return ok && st.EqLin(x.L, y.L)
	case Iface:
		y, ok := b.(Iface)
		return ok && types.Identical(x.T, y.T) && in.Same(st, x.V, y.V)
	case Bool:
		y, ok := b.(Bool)
		if !ok {
			return false
		}
		u, v := st.Eval(x.C), st.Eval(y.C)
		if u != U && u == v {
			return true
		}
	case Slice:
		y, ok := b.(Slice)
		return ok && x.Arr == y.Arr && st.EqLin(x.Off, y.Off) && st.EqLin(x.Len, y.Len)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.O != y.O || x.IsElem != y.IsElem || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return !x.IsElem || st.EqLin(x.Idx, y.Idx)
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x.V) != len(y.V) {
			return false
		}
		for i := range x.V {
			if !in.Same(st, x.V[i], y.V[i]) {
				return false
			}
		}
		return true
	}
	return in.vkey(a) == in.vkey(b)
}

// showHead describes a loop state for debugging.
func (st *State) showHead() string {
	var b strings.Builder
	for v, x := range st.top().env {
		if i, ok := x.(Int); ok {
			fmt.Fprintf(&b, "%s=%s ", v.Name(), st.showLin(i.L))
		}
	}
	for _, id := range st.Objects() {
		if o := st.heap[id]; o.Arr != nil {
			fmt.Fprintf(&b, "| arr%d def%d:", id, o.Arr.Def)
			for _, c := range o.Arr.Cells {
				fmt.Fprintf(&b, " [%s]=%s", st.showLin(c.Idx), st.Show(c.V))
			}
		}
	}
	return b.String() + " FACTS " + st.Facts()
}
