// Package bits follows single bits and byte strings of scalar values through a function: where each bit of a
// result comes from, and how comparisons answer for two values in a known order.
package bits

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"dsv/load"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// Int is an integer as a vector of bit expressions, lowest first.
type Int struct {
	Sg bool
	B  []string
	L  *Lin // exact value as a linear form in s and o, when known
	T  string
}

// Lin is Cs*s + Co*o + C.
type Lin struct {
	Cs, Co int64
	C      int64
}

type Bool struct{ E string } // "0", "1" or a condition

// Bytes is a string or byte slice with opaque contents.
type Bytes struct {
	Tok string
	Nil string // condition under which it is nil; "0" never
}

// Slice is a slice of known extent of an array cell.
type Slice struct{ Cell, Off, Len int }

type Arr struct{ E []Val }
type Ptr struct {
	Cell int
	Idx  int // -1: the whole cell
	F    int // -1
}
type Iface struct {
	T types.Type // nil: a type the package does not know
	V Val
}
type Nil struct{}
type Func struct {
	Fn   *ssa.Function
	Bind []Val
	B    func(x *Exec, st *State, args []Val) []Out
}
type Tuple struct{ V []Val }
type Struct struct{ F []Val }
type Opaque struct{ E string } // any other value, equal when the expressions are

// Buf is a byte slice of unknown extent made by this code: the cell holds a Bytes.
type Buf struct{ Cell int }

type rng struct {
	lo, hi int64
	ne     map[int64]bool
}

type State struct {
	cells   map[int]Val
	assumed map[string]bool
	rng     map[string]rng
	Trace   []string
}

func (s *State) clone() *State {
	n := &State{cells: map[int]Val{}, assumed: map[string]bool{}, rng: map[string]rng{}, Trace: append([]string(nil), s.Trace...)}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.assumed {
		n.assumed[k] = v
	}
	for k, v := range s.rng {
		n.rng[k] = v
	}
	return n
}

// Out is one way a function can end.
type Out struct {
	St    *State
	R     []Val
	Panic string
	Pos   token.Pos
}

type Undecided struct {
	Msg string
	Pos token.Pos
}

type Exec struct {
	P     *load.Program
	Ord   int // s compared with o: -1, 0, 1
	Lo    *big.Int
	Hi    *big.Int
	SBits int
	Funcs map[*ssa.Function]bool
	next  int
	steps int
	depth int
	fresh int
}

func New(P *load.Program) *Exec { return &Exec{P: P, Funcs: map[*ssa.Function]bool{}} }

func NewState() *State {
	return &State{cells: map[int]Val{}, assumed: map[string]bool{}, rng: map[string]rng{}}
}

// NotLen records that the length of a byte string is not n.
func (st *State) NotLen(tok string, n int64) {
	st.rng["len("+tok+")"] = rng{0, 1 << 40, map[int64]bool{n: true}}
}

func (x *Exec) NewCell(st *State, v Val) int {
	x.next++
	st.cells[x.next] = v
	return x.next
}
func (x *Exec) Cell(st *State, c int) Val { return st.cells[c] }

func (x *Exec) unknown(what string) string {
	x.fresh++
	return fmt.Sprintf("?%s%d", what, x.fresh)
}

func width(T types.Type) (int, bool) {
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

// Source makes the bits of an input value.
func Source(name string, T types.Type) Int {
	w, sg := width(T)
	v := Int{Sg: sg}
	for i := 0; i < w; i++ {
		v.B = append(v.B, name+"."+strconv.Itoa(i))
	}
	return v
}

// Range of a scalar type.
func Range(T types.Type) (lo, hi *big.Int, bits int) {
	w, sg := width(T)
	one := big.NewInt(1)
	if sg {
		hi = new(big.Int).Lsh(one, uint(w-1))
		lo = new(big.Int).Neg(hi)
		return lo, new(big.Int).Sub(hi, one), w
	}
	return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, uint(w)), one), w
}

func konst(u uint64, T types.Type) Int {
	w, sg := width(T)
	v := Int{Sg: sg}
	for i := 0; i < w; i++ {
		v.B = append(v.B, strconv.Itoa(int(u>>uint(i)&1)))
	}
	c := int64(u)
	if sg && w < 64 {
		c = int64(u<<uint(64-w)) >> uint(64-w)
	} else if w < 64 {
		c = int64(u & (1<<uint(w) - 1))
	}
	if sg || c >= 0 {
		v.L = &Lin{C: c}
	}
	return v
}

func (v Int) konst() (uint64, bool) {
	var u uint64
	for i, b := range v.B {
		switch b {
		case "1":
			u |= 1 << uint(i)
		case "0":
		default:
			return 0, false
		}
	}
	if v.Sg && len(v.B) < 64 && len(v.B) > 0 && v.B[len(v.B)-1] == "1" {
		u |= ^uint64(0) << uint(len(v.B))
	}
	return u, true
}

func (v Int) String() string {
	if u, ok := v.konst(); ok {
		if v.Sg {
			return strconv.FormatInt(int64(u), 10)
		}
		return strconv.FormatUint(u, 10)
	}
	if v.T != "" {
		return v.T
	}
	return "[" + strings.Join(v.B, " ") + "]"
}

func term(t string, T types.Type) Int {
	w, sg := width(T)
	v := Int{Sg: sg, T: t}
	for i := 0; i < w; i++ {
		v.B = append(v.B, t+"#"+strconv.Itoa(i))
	}
	return v
}

func not(e string) string {
	switch {
	case e == "0":
		return "1"
	case e == "1":
		return "0"
	case strings.HasPrefix(e, "!"):
		return e[1:]
	}
	return "!" + e
}

func bitop(op token.Token, a, b string) string {
	if b < a {
		a, b = b, a
	}
	switch op {
	case token.AND:
		if a == "0" || a == b {
			return a
		}
		if a == "1" {
			return b
		}
		return "(" + a + "&" + b + ")"
	case token.OR:
		if a == "1" || a == b {
			return a
		}
		if a == "0" {
			return b
		}
		return "(" + a + "|" + b + ")"
	}
	if a == b {
		return "0"
	}
	if a == "0" {
		return b
	}
	if a == "1" {
		return not(b)
	}
	return "(" + a + "^" + b + ")"
}

func (x *Exec) fits(l *Lin, T types.Type) bool {
	lo, hi, _ := Range(T)
	add := func(c int64, up bool) *big.Int {
		r := big.NewInt(0)
		if c == 0 {
			return r
		}
		e := x.Hi
		if (c > 0) != up {
			e = x.Lo
		}
		return r.Mul(big.NewInt(c), e)
	}
	if (l.Cs != 0 || l.Co != 0) && x.Hi == nil {
		return false
	}
	mx := new(big.Int).Add(big.NewInt(l.C), add(l.Cs, true))
	mx.Add(mx, add(l.Co, true))
	mn := new(big.Int).Add(big.NewInt(l.C), add(l.Cs, false))
	mn.Add(mn, add(l.Co, false))
	return mn.Cmp(lo) >= 0 && mx.Cmp(hi) <= 0
}

func (x *Exec) conv(v Int, T types.Type) Int {
	w, sg := width(T)
	r := Int{Sg: sg}
	for i := 0; i < w; i++ {
		switch {
		case i < len(v.B):
			r.B = append(r.B, v.B[i])
		case v.Sg:
			r.B = append(r.B, v.B[len(v.B)-1])
		default:
			r.B = append(r.B, "0")
		}
	}
	if v.L != nil && x.fits(v.L, T) {
		r.L = v.L
	}
	if v.T != "" && w >= len(v.B) {
		r.T = v.T
	}
	return r
}

// decide resolves a condition, forking when it is open.
func (x *Exec) decide(st *State, e string, pos token.Pos) (t, f *State) {
	neg := false
	if strings.HasPrefix(e, "!") {
		neg, e = true, e[1:]
	}
	val := 2
	switch e {
	case "1":
		val = 1
	case "0":
		val = 0
	default:
		if b, ok := st.assumed[e]; ok {
			val = 0
			if b {
				val = 1
			}
		} else if strings.HasPrefix(e, "len|") {
			val = st.lenCond(e)
		}
	}
	if val != 2 {
		if (val == 1) != neg {
			return st, nil
		}
		return nil, st
	}
	a, b := st.clone(), st.clone()
	a.assumed[e], b.assumed[e] = true, false
	a.refine(e, true)
	b.refine(e, false)
	a.Trace = append(a.Trace, x.P.Pos(pos)+": "+e)
	b.Trace = append(b.Trace, x.P.Pos(pos)+": not "+e)
	if neg {
		return b, a
	}
	return a, b
}

// length conditions are written len|term|op|const.
func (st *State) lenCond(e string) int {
	p := strings.Split(e, "|")
	k, _ := strconv.ParseInt(p[3], 10, 64)
	r, ok := st.rng[p[1]]
	if !ok {
		r = rng{0, 1 << 40, nil}
	}
	switch p[2] {
	case "==":
		if k < r.lo || k > r.hi || r.ne[k] {
			return 0
		}
		if r.lo == k && r.hi == k {
			return 1
		}
	case "<":
		if r.hi < k {
			return 1
		}
		if r.lo >= k {
			return 0
		}
	}
	return 2
}

func (st *State) refine(e string, truth bool) {
	if !strings.HasPrefix(e, "len|") {
		return
	}
	p := strings.Split(e, "|")
	k, _ := strconv.ParseInt(p[3], 10, 64)
	r, ok := st.rng[p[1]]
	if !ok {
		r = rng{0, 1 << 40, nil}
	}
	ne := map[int64]bool{}
	for v := range r.ne {
		ne[v] = true
	}
	switch {
	case p[2] == "==" && truth:
		r.lo, r.hi = k, k
	case p[2] == "==":
		ne[k] = true
	case truth:
		r.hi = k - 1
	default:
		r.lo = k
	}
	for ne[r.lo] {
		r.lo++
	}
	for ne[r.hi] {
		r.hi--
	}
	r.ne = ne
	st.rng[p[1]] = r
}

func (x *Exec) lenOf(st *State, v Val) Int {
	T := types.Typ[types.Int]
	switch y := v.(type) {
	case Nil:
		return konst(0, T)
	case Slice:
		return konst(uint64(y.Len), T)
	case Bytes:
		return term("len("+y.Tok+")", T)
	case Buf:
		return term("len("+st.cells[y.Cell].(Bytes).Tok+")", T)
	case Arr:
		return konst(uint64(len(y.E)), T)
	}
	return term(x.unknown("len"), T)
}

func (x *Exec) undecided(pos token.Pos, f string, a ...interface{}) {
	panic(Undecided{fmt.Sprintf(f, a...), pos})
}

// Call runs a function over abstract values.
func (x *Exec) Call(st *State, f Func, args []Val, pos token.Pos) []Out {
	if f.B != nil {
		return f.B(x, st, args)
	}
	fn := f.Fn
	if fn == nil {
		return []Out{{St: st, Panic: "calls a nil function", Pos: pos}}
	}
	if out, ok := x.model(st, fn, args, pos); ok {
		return out
	}
	if len(fn.Blocks) == 0 || !x.P.InRepo(fn) && fn.Synthetic == "" {
		x.undecided(pos, "call to %s is not modelled", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 30 {
		x.undecided(pos, "recursion in %s", fn)
	}
	x.Funcs[fn] = true
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = f.Bind[i]
	}
	return x.block(st, fn.Blocks[0], nil, env)
}

func cp(env map[ssa.Value]Val) map[ssa.Value]Val {
	n := map[ssa.Value]Val{}
	for k, v := range env {
		n[k] = v
	}
	return n
}

func (x *Exec) block(st *State, b, prev *ssa.BasicBlock, env map[ssa.Value]Val) []Out {
	return x.from(st, b, prev, 0, env)
}

func (x *Exec) from(st *State, b, prev *ssa.BasicBlock, at int, env map[ssa.Value]Val) []Out {
	for {
		var phis []Val
		n := at
		for i := at; i < len(b.Instrs); i++ {
			p, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range b.Preds {
				if pr == prev {
					phis = append(phis, x.val(st, env, p.Edges[k]))
					break
				}
			}
			n = i + 1
		}
		for i := range phis {
			env[b.Instrs[at+i].(*ssa.Phi)] = phis[i]
		}
		var nb *ssa.BasicBlock
		for i := n; i < len(b.Instrs); i++ {
			x.steps++
			if x.steps > 60000 {
				x.undecided(b.Instrs[i].Pos(), "a loop whose length is not fixed by the type")
			}
			switch v := b.Instrs[i].(type) {
			case *ssa.Jump:
				nb = b.Succs[0]
			case *ssa.If:
				c, ok := x.val(st, env, v.Cond).(Bool)
				if !ok {
					c = Bool{x.unknown("cond")}
				}
				pos := v.Cond.Pos()
				t, f := x.decide(st, c.E, pos)
				if t != nil && f != nil {
					out := x.block(t, b.Succs[0], b, cp(env))
					return append(out, x.block(f, b.Succs[1], b, env)...)
				}
				if t != nil {
					nb, st = b.Succs[0], t
				} else {
					nb, st = b.Succs[1], f
				}
			case *ssa.Return:
				var r []Val
				for _, y := range v.Results {
					r = append(r, x.val(st, env, y))
				}
				return []Out{{St: st, R: r, Pos: v.Pos()}}
			case *ssa.Panic:
				return []Out{{St: st, Panic: "panics", Pos: v.Pos()}}
			case ssa.CallInstruction:
				outs := x.callInstr(st, v, env)
				var res []Out
				var live []Out
				for _, o := range outs {
					if o.Panic != "" {
						res = append(res, o)
					} else {
						live = append(live, o)
					}
				}
				if len(live) == 0 {
					return res
				}
				for k, o := range live {
					e := env
					if k < len(live)-1 || len(res) > 0 {
						e = cp(env)
					}
					if cv := v.Value(); cv != nil {
						if len(o.R) == 1 {
							e[cv] = o.R[0]
						} else {
							e[cv] = Tuple{o.R}
						}
					}
					if len(live) == 1 && len(res) == 0 {
						st = o.St
						continue
					}
					res = append(res, x.from(o.St, b, prev, i+1, e)...)
				}
				if len(live) > 1 || len(outs) > len(live) {
					return res
				}
			default:
				if p := x.instr(st, v, env); p != nil {
					if p.Panic != "" && p.St == nil {
						p.St = st
						return []Out{*p}
					}
					// a check that can go either way
					res := []Out{{St: p.St, Panic: p.Panic, Pos: p.Pos}}
					ok := p.R[0].(*State)
					return append(res, x.from(ok, b, prev, i, env)...)
				}
			}
		}
		prev, b, at = b, nb, 0
		if b == nil {
			return nil
		}
	}
}

func (x *Exec) val(st *State, env map[ssa.Value]Val, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constant(st, c)
	case *ssa.Function:
		return Func{Fn: c}
	case *ssa.Global:
		return Opaque{"&" + c.String()}
	}
	r, ok := env[v]
	if !ok {
		x.undecided(v.Pos(), "value %s", v.Name())
	}
	return r
}

func (x *Exec) constant(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return x.Zero(st, c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return Bool{"1"}
		}
		return Bool{"0"}
	case constant.Int:
		if w, _ := width(c.Type()); w == 0 {
			return Opaque{c.Value.String()}
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return konst(u, c.Type())
		}
		i, _ := constant.Int64Val(c.Value)
		return konst(uint64(i), c.Type())
	case constant.String:
		s := constant.StringVal(c.Value)
		if s == "" {
			return Slice{Cell: x.NewCell(st, Arr{}), Len: 0}
		}
		a := Arr{}
		for i := 0; i < len(s); i++ {
			a.E = append(a.E, konst(uint64(s[i]), types.Typ[types.Uint8]))
		}
		return Slice{Cell: x.NewCell(st, a), Len: len(s)}
	}
	return Opaque{c.Value.String()}
}

// Zero value of a type.
func (x *Exec) Zero(st *State, T types.Type) Val {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Slice{Cell: x.NewCell(st, Arr{}), Len: 0}
		}
		if u.Info()&types.IsBoolean != 0 {
			return Bool{"0"}
		}
		if w, _ := width(T); w > 0 {
			return konst(0, T)
		}
		return Opaque{"0"}
	case *types.Array:
		a := Arr{}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, x.Zero(st, u.Elem()))
		}
		return a
	case *types.Struct:
		s := Struct{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.Zero(st, u.Field(i).Type()))
		}
		return s
	}
	return Nil{}
}

func (x *Exec) load(st *State, p Val, pos token.Pos) Val {
	switch q := p.(type) {
	case Ptr:
		v := st.cells[q.Cell]
		if q.Idx >= 0 {
			return v.(Arr).E[q.Idx]
		}
		if q.F >= 0 {
			return v.(Struct).F[q.F]
		}
		return v
	case Opaque:
		if strings.HasPrefix(q.E, "&") {
			return Opaque{q.E[1:]} // a package variable; assumed constant when nothing stores to it
		}
	}
	x.undecided(pos, "load through %T", p)
	return nil
}

func (x *Exec) store(st *State, p, v Val, pos token.Pos) {
	q, ok := p.(Ptr)
	if !ok {
		x.undecided(pos, "store through %T", p)
	}
	switch {
	case q.Idx >= 0:
		a := st.cells[q.Cell].(Arr)
		n := Arr{append([]Val(nil), a.E...)}
		n.E[q.Idx] = v
		st.cells[q.Cell] = n
	case q.F >= 0:
		a := st.cells[q.Cell].(Struct)
		n := Struct{append([]Val(nil), a.F...)}
		n.F[q.F] = v
		st.cells[q.Cell] = n
	default:
		st.cells[q.Cell] = v
	}
}

func (x *Exec) instr(st *State, in ssa.Instruction, env map[ssa.Value]Val) *Out {
	get := func(v ssa.Value) Val { return x.val(st, env, v) }
	switch v := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Alloc:
		env[v] = Ptr{x.NewCell(st, x.Zero(st, v.Type().Underlying().(*types.Pointer).Elem())), -1, -1}
	case *ssa.Store:
		if _, ok := get(v.Addr).(Nil); ok {
			return &Out{Panic: "writes through a nil pointer", Pos: v.Pos()}
		}
		x.store(st, get(v.Addr), get(v.Val), v.Pos())
	case *ssa.UnOp:
		a := get(v.X)
		switch v.Op {
		case token.MUL:
			if _, ok := a.(Nil); ok {
				return &Out{Panic: "reads through a nil pointer", Pos: v.Pos()}
			}
			env[v] = x.load(st, a, v.Pos())
		case token.NOT:
			env[v] = Bool{not(a.(Bool).E)}
		case token.XOR:
			i, ok := a.(Int)
			if !ok {
				x.undecided(v.Pos(), "complement")
			}
			r := Int{Sg: i.Sg}
			for _, b := range i.B {
				r.B = append(r.B, not(b))
			}
			env[v] = r
		case token.SUB:
			i, ok := a.(Int)
			if !ok {
				x.undecided(v.Pos(), "negation")
			}
			env[v] = x.binop(st, token.SUB, konst(0, v.Type()), i, v.Type(), v.Pos())
		default:
			x.undecided(v.Pos(), "%s", v.Op)
		}
	case *ssa.BinOp:
		env[v] = x.binop(st, v.Op, get(v.X), get(v.Y), v.Type(), v.Pos())
	case *ssa.ChangeType:
		env[v] = get(v.X)
	case *ssa.ChangeInterface:
		env[v] = get(v.X)
	case *ssa.Convert:
		a := get(v.X)
		if i, ok := a.(Int); ok {
			if w, _ := width(v.Type()); w > 0 {
				env[v] = x.conv(i, v.Type())
				return nil
			}
			env[v] = Opaque{"conv(" + v.Type().String() + "," + i.String() + ")"}
			return nil
		}
		switch y := a.(type) {
		case Bytes:
			if isStr(v.Type()) || isStr(v.X.Type()) {
				y.Nil = "0"
			}
			env[v] = y
		case Slice:
			if isStr(v.Type()) != isStr(v.X.Type()) {
				arr := st.cells[y.Cell].(Arr)
				env[v] = Slice{Cell: x.NewCell(st, Arr{append([]Val(nil), arr.E[y.Off:y.Off+y.Len]...)}), Len: y.Len}
			} else {
				env[v] = y
			}
		case Buf:
			env[v] = st.cells[y.Cell].(Bytes)
		case Nil:
			env[v] = Slice{Cell: x.NewCell(st, Arr{}), Len: 0}
		case Opaque:
			env[v] = Opaque{"conv(" + v.Type().String() + "," + y.E + ")"}
		default:
			x.undecided(v.Pos(), "conversion of %T", a)
		}
	case *ssa.MakeInterface:
		env[v] = Iface{v.X.Type(), get(v.X)}
	case *ssa.MakeClosure:
		f := Func{Fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			f.Bind = append(f.Bind, get(b))
		}
		env[v] = f
	case *ssa.TypeAssert:
		a := get(v.X)
		ok := false
		var r Val
		if i, is := a.(Iface); is {
			_, isI := v.AssertedType.Underlying().(*types.Interface)
			switch {
			case isI && i.T != nil:
				ok = types.AssignableTo(i.T, v.AssertedType)
				r = i
			case !isI && i.T != nil:
				ok = types.Identical(i.T, v.AssertedType)
				r = i.V
			case isI:
				x.undecided(v.Pos(), "interface assertion on a foreign type")
			}
		} else if _, isN := a.(Nil); !isN {
			x.undecided(v.Pos(), "type assertion on %T", a)
		}
		if !ok {
			if !v.CommaOk {
				return &Out{Panic: "type assertion fails", Pos: v.Pos()}
			}
			r = x.Zero(st, v.AssertedType)
		}
		if v.CommaOk {
			env[v] = Tuple{[]Val{r, Bool{map[bool]string{true: "1", false: "0"}[ok]}}}
		} else {
			env[v] = r
		}
	case *ssa.Extract:
		env[v] = get(v.Tuple).(Tuple).V[v.Index]
	case *ssa.FieldAddr:
		p, ok := get(v.X).(Ptr)
		if !ok || p.Idx >= 0 || p.F >= 0 {
			x.undecided(v.Pos(), "nested field")
		}
		env[v] = Ptr{p.Cell, -1, v.Field}
	case *ssa.Field:
		s, ok := get(v.X).(Struct)
		if !ok {
			env[v] = Opaque{fmt.Sprintf("%v.%d", get(v.X), v.Field)}
			return nil
		}
		env[v] = s.F[v.Field]
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
		var X, I ssa.Value
		switch w := in.(type) {
		case *ssa.IndexAddr:
			X, I = w.X, w.Index
		case *ssa.Index:
			X, I = w.X, w.Index
		case *ssa.Lookup:
			X, I = w.X, w.Index
		}
		return x.index(st, in.(ssa.Value), get(X), get(I), env)
	case *ssa.MakeSlice:
		n := get(v.Len).(Int)
		if u, ok := n.konst(); ok && u < 4096 {
			a := Arr{}
			for i := 0; i < int(u); i++ {
				a.E = append(a.E, x.Zero(st, v.Type().Underlying().(*types.Slice).Elem()))
			}
			env[v] = Slice{x.NewCell(st, a), 0, int(u)}
			return nil
		}
		env[v] = Buf{x.NewCell(st, Bytes{"zero:" + n.String(), "0"})}
	case *ssa.Slice:
		return x.slice(st, v, get, env)
	default:
		x.undecided(in.Pos(), "%T", in)
	}
	return nil
}

func isStr(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) index(st *State, v ssa.Value, a, i Val, env map[ssa.Value]Val) *Out {
	idx, isI := i.(Int)
	u, ok := idx.konst()
	if !isI || !ok {
		x.undecided(v.Pos(), "index is not fixed")
	}
	_, addr := v.(*ssa.IndexAddr)
	switch s := a.(type) {
	case Slice:
		if u >= uint64(s.Len) {
			return &Out{Panic: fmt.Sprintf("index %d out of range of length %d", u, s.Len), Pos: v.Pos()}
		}
		p := Ptr{s.Cell, s.Off + int(u), -1}
		if addr {
			env[v] = p
		} else {
			env[v] = x.load(st, p, v.Pos())
		}
	case Ptr:
		if s.Idx >= 0 || s.F >= 0 {
			x.undecided(v.Pos(), "nested array")
		}
		if u >= uint64(len(st.cells[s.Cell].(Arr).E)) {
			return &Out{Panic: "index out of range", Pos: v.Pos()}
		}
		env[v] = Ptr{s.Cell, int(u), -1}
	case Arr:
		env[v] = s.E[u]
	case Nil:
		return &Out{Panic: "index into nothing", Pos: v.Pos()}
	case Bytes:
		t, f := x.decide(st, fmt.Sprintf("len|len(%s)|<|%d", s.Tok, u+1), v.Pos())
		if t != nil && f == nil {
			return &Out{Panic: "index out of range", Pos: v.Pos()}
		}
		if t != nil {
			return &Out{St: t, Panic: "index may be out of range", Pos: v.Pos(), R: []Val{f}}
		}
		el := Source(fmt.Sprintf("%s[%d]", s.Tok, u), types.Typ[types.Uint8])
		if addr {
			c := x.NewCell(st, el)
			env[v] = Ptr{c, -1, -1}
		} else {
			env[v] = el
		}
	default:
		x.undecided(v.Pos(), "index into %T", a)
	}
	return nil
}

func (x *Exec) slice(st *State, v *ssa.Slice, get func(ssa.Value) Val, env map[ssa.Value]Val) *Out {
	a := get(v.X)
	lo, hi := 0, -1
	if v.Low != nil {
		u, ok := get(v.Low).(Int).konst()
		if !ok {
			x.undecided(v.Pos(), "slice bounds")
		}
		lo = int(u)
	}
	if v.High != nil {
		h := get(v.High).(Int)
		u, ok := h.konst()
		if !ok {
			if b, isB := a.(Bytes); isB && lo == 0 && h.T == "len("+b.Tok+")" {
				env[v] = b
				return nil
			}
			x.undecided(v.Pos(), "slice bounds")
		}
		hi = int(u)
	}
	switch s := a.(type) {
	case Slice:
		if hi < 0 {
			hi = s.Len
		}
		if hi > len(st.cells[s.Cell].(Arr).E)-s.Off || lo > hi {
			return &Out{Panic: "slice bounds out of range", Pos: v.Pos()}
		}
		env[v] = Slice{s.Cell, s.Off + lo, hi - lo}
	case Ptr:
		arr, ok := st.cells[s.Cell].(Arr)
		if !ok || s.Idx >= 0 || s.F >= 0 {
			x.undecided(v.Pos(), "slice of a nested array")
		}
		if hi < 0 {
			hi = len(arr.E)
		}
		if hi > len(arr.E) || lo > hi {
			return &Out{Panic: "slice bounds out of range", Pos: v.Pos()}
		}
		env[v] = Slice{s.Cell, lo, hi - lo}
	case Bytes:
		if lo == 0 && hi < 0 {
			env[v] = s
			return nil
		}
		if lo == 0 && hi == 0 {
			env[v] = Slice{Cell: x.NewCell(st, Arr{}), Len: 0}
			return nil
		}
		need := lo
		if hi > need {
			need = hi
		}
		t, f := x.decide(st, fmt.Sprintf("len|len(%s)|<|%d", s.Tok, need), v.Pos())
		if t != nil && f == nil {
			return &Out{Panic: "slice bounds out of range", Pos: v.Pos()}
		}
		if t != nil {
			return &Out{St: t, Panic: "slice bounds may be out of range", Pos: v.Pos(), R: []Val{f}}
		}
		if hi >= 0 {
			arr := Arr{}
			for i := lo; i < hi; i++ {
				arr.E = append(arr.E, Source(fmt.Sprintf("%s[%d]", s.Tok, i), types.Typ[types.Uint8]))
			}
			env[v] = Slice{x.NewCell(st, arr), 0, hi - lo}
			return nil
		}
		env[v] = Bytes{fmt.Sprintf("%s[%d:]", s.Tok, lo), "0"}
	case Buf:
		if lo == 0 && hi < 0 {
			env[v] = s
			return nil
		}
		x.undecided(v.Pos(), "part of a buffer")
	case Nil:
		if lo == 0 && hi <= 0 {
			env[v] = s
			return nil
		}
		return &Out{Panic: "slice bounds out of range", Pos: v.Pos()}
	default:
		x.undecided(v.Pos(), "slice of %T", a)
	}
	return nil
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, T types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		e := x.compare(st, op, a, b, pos)
		return Bool{e}
	}
	ai, ok1 := a.(Int)
	bi, ok2 := b.(Int)
	if !ok1 || !ok2 {
		return Opaque{fmt.Sprintf("(%s %s %s)", show(a), op, show(b))}
	}
	ua, ka := ai.konst()
	ub, kb := bi.konst()
	if op == token.SHL || op == token.SHR {
		if kb {
			r := Int{Sg: ai.Sg}
			w := len(ai.B)
			for i := 0; i < w; i++ {
				j := i - int(min(ub, 1000))
				if op == token.SHR {
					j = i + int(min(ub, 1000))
				}
				switch {
				case j >= 0 && j < w:
					r.B = append(r.B, ai.B[j])
				case op == token.SHR && ai.Sg:
					r.B = append(r.B, ai.B[w-1])
				default:
					r.B = append(r.B, "0")
				}
			}
			return relin(r)
		}
		return term(fmt.Sprintf("(%s %s %s)", ai, op, bi), T)
	}
	if ka && kb {
		sg := ai.Sg
		var u uint64
		switch op {
		case token.ADD:
			u = ua + ub
		case token.SUB:
			u = ua - ub
		case token.MUL:
			u = ua * ub
		case token.AND:
			u = ua & ub
		case token.OR:
			u = ua | ub
		case token.XOR:
			u = ua ^ ub
		case token.AND_NOT:
			u = ua &^ ub
		case token.QUO, token.REM:
			if ub == 0 {
				x.undecided(pos, "division by zero")
			}
			switch {
			case op == token.QUO && sg:
				u = uint64(int64(ua) / int64(ub))
			case op == token.QUO:
				u = ua / ub
			case sg:
				u = uint64(int64(ua) % int64(ub))
			default:
				u = ua % ub
			}
		}
		return konst(u, T)
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		r := Int{Sg: ai.Sg}
		for i := range ai.B {
			y := bi.B[i]
			o := op
			if op == token.AND_NOT {
				y, o = not(y), token.AND
			}
			r.B = append(r.B, bitop(o, ai.B[i], y))
		}
		return r
	case token.ADD, token.SUB:
		if op == token.ADD {
			disjoint := true
			r := Int{Sg: ai.Sg}
			for i := range ai.B {
				if ai.B[i] != "0" && bi.B[i] != "0" {
					disjoint = false
					break
				}
				r.B = append(r.B, bitop(token.OR, ai.B[i], bi.B[i]))
			}
			if disjoint {
				return r
			}
		}
		if op == token.SUB {
			same := true
			for i := range ai.B {
				same = same && ai.B[i] == bi.B[i] && !strings.Contains(ai.B[i], "?")
			}
			if same {
				return konst(0, T)
			}
		}
		s, t := ai.String(), bi.String()
		if op == token.ADD && t < s {
			s, t = t, s
		}
		r := term("("+s+" "+op.String()+" "+t+")", T)
		if ai.L != nil && bi.L != nil {
			k := int64(1)
			if op == token.SUB {
				k = -1
			}
			l := &Lin{ai.L.Cs + k*bi.L.Cs, ai.L.Co + k*bi.L.Co, ai.L.C + k*bi.L.C}
			if x.fits(l, T) {
				r.L = l
			}
		}
		return r
	case token.MUL:
		s, t := ai.String(), bi.String()
		if t < s {
			s, t = t, s
		}
		return term("("+s+" * "+t+")", T)
	}
	return term("("+ai.String()+" "+op.String()+" "+bi.String()+")", T)
}

func relin(r Int) Int {
	return r
}

func show(v Val) string {
	switch y := v.(type) {
	case Int:
		return y.String()
	case Bool:
		return y.E
	case Bytes:
		return y.Tok
	case Opaque:
		return y.E
	case Nil:
		return "nil"
	}
	return fmt.Sprintf("%v", v)
}

// Show renders a value.
func Show(v Val) string { return show(v) }

func (x *Exec) compare(st *State, op token.Token, a, b Val, pos token.Pos) string {
	switch op {
	case token.NEQ:
		return not(x.compare(st, token.EQL, a, b, pos))
	case token.GTR:
		return x.compare(st, token.LSS, b, a, pos)
	case token.LEQ:
		return not(x.compare(st, token.LSS, b, a, pos))
	case token.GEQ:
		return not(x.compare(st, token.LSS, a, b, pos))
	}
	ai, ok1 := a.(Int)
	bi, ok2 := b.(Int)
	if ok1 && ok2 {
		return x.cmpInt(st, op, ai, bi)
	}
	if t1, s1 := x.content(st, a); s1 {
		if t2, s2 := x.content(st, b); s2 {
			if t1 == t2 {
				return map[bool]string{true: "1", false: "0"}[op == token.EQL]
			}
			if t1 == "s" && t2 == "o" || t1 == "o" && t2 == "s" {
				if op == token.EQL {
					return "0"
				}
				return map[bool]string{true: "1", false: "0"}[(x.Ord < 0) == (t1 == "s")]
			}
			if isNilV(b) || isNilV(a) {
				c := a
				if isNilV(a) {
					c = b
				}
				switch y := c.(type) {
				case Bytes:
					return y.Nil
				case Nil:
					return "1"
				}
				return "0"
			}
			return "(" + t1 + op.String() + t2 + ")"
		}
	}
	if op == token.EQL {
		if isNilV(a) && isNilV(b) {
			return "1"
		}
		if isNilV(a) || isNilV(b) {
			c := a
			if isNilV(a) {
				c = b
			}
			switch y := c.(type) {
			case Iface, Ptr, Func, Slice, Buf:
				return "0"
			case Bytes:
				return y.Nil
			}
		}
		if p, ok := a.(Ptr); ok {
			if q, ok := b.(Ptr); ok {
				return map[bool]string{true: "1", false: "0"}[p == q]
			}
		}
		if p, ok := a.(Bool); ok {
			if q, ok := b.(Bool); ok {
				return not(bitop(token.XOR, p.E, q.E))
			}
		}
		if p, ok := a.(Iface); ok {
			if q, ok := b.(Iface); ok {
				if p.T == nil || q.T == nil || !types.Identical(p.T, q.T) {
					return "0"
				}
				return x.compare(st, op, p.V, q.V, pos)
			}
		}
	}
	sa, sb := show(a), show(b)
	if op == token.EQL && sb < sa {
		sa, sb = sb, sa
	}
	return "(" + sa + op.String() + sb + ")"
}

func isNilV(v Val) bool { _, ok := v.(Nil); return ok }

// content is the name of what a string or byte slice contains.
func (x *Exec) content(st *State, v Val) (string, bool) {
	switch y := v.(type) {
	case Bytes:
		return y.Tok, true
	case Buf:
		return st.cells[y.Cell].(Bytes).Tok, true
	case Slice:
		return x.SliceTok(st, y), true
	case Nil:
		return "", true
	}
	return "", false
}

func (x *Exec) SliceTok(st *State, y Slice) string {
	if y.Len == 0 {
		return ""
	}
	var p []string
	for _, e := range st.cells[y.Cell].(Arr).E[y.Off : y.Off+y.Len] {
		p = append(p, show(e))
	}
	return strings.Join(p, ",")
}

func b2s(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func (x *Exec) cmpInt(st *State, op token.Token, a, b Int) string {
	ua, ka := a.konst()
	ub, kb := b.konst()
	if ka && kb {
		switch {
		case op == token.EQL:
			return b2s(ua == ub)
		case a.Sg:
			return b2s(int64(ua) < int64(ub))
		}
		return b2s(ua < ub)
	}
	same := true
	differ := false
	for i := range a.B {
		if a.B[i] != b.B[i] {
			same = false
			if (a.B[i] == "0" && b.B[i] == "1") || (a.B[i] == "1" && b.B[i] == "0") || a.B[i] == not(b.B[i]) {
				differ = true
			}
		}
	}
	if same {
		return b2s(op == token.EQL)
	}
	if op == token.EQL && differ {
		return "0"
	}
	if a.L != nil && b.L != nil {
		l := Lin{a.L.Cs - b.L.Cs, a.L.Co - b.L.Co, a.L.C - b.L.C}
		if l.Cs == -l.Co && l.Cs != 0 && x.Ord != 0 {
			// l = Cs*(s-o) + C with s-o <= -1 or >= 1
			k := l.Cs * int64(x.Ord) // sign of Cs*(s-o), magnitude at least |Cs|
			if k < 0 && k+l.C < 0 {  // l < 0
				return b2s(op == token.LSS)
			}
			if k > 0 && k+l.C > 0 {
				return "0"
			}
			if op == token.LSS && k > 0 && k+l.C >= 0 {
				return "0"
			}
		}
		if l.Cs == 0 && l.Co == 0 {
			if op == token.EQL {
				return b2s(l.C == 0)
			}
			return b2s(l.C < 0)
		}
		if x.Hi != nil {
			if x.fitsBelow(&l, op == token.LSS) {
				return b2s(op == token.LSS)
			}
		}
	}
	if op == token.EQL && x.Ord != 0 && x.covers(a, b) {
		return "0"
	}
	// a length against a constant
	if strings.HasPrefix(a.T, "len(") && kb {
		return "len|" + a.T + "|" + op.String() + "|" + strconv.FormatInt(int64(ub), 10)
	}
	if strings.HasPrefix(b.T, "len(") && ka {
		if op == token.EQL {
			return "len|" + b.T + "|==|" + strconv.FormatInt(int64(ua), 10)
		}
		return not("len|" + b.T + "|<|" + strconv.FormatInt(int64(ua)+1, 10))
	}
	sa, sb := a.String(), b.String()
	if op == token.EQL && sb < sa {
		sa, sb = sb, sa
	}
	return "(" + sa + op.String() + sb + ")"
}

// fitsBelow: the form is certainly negative (or certainly not, never both).
func (x *Exec) fitsBelow(l *Lin, _ bool) bool { return false }

// covers: a and b carry every bit of s and o in the same places.
func (x *Exec) covers(a, b Int) bool {
	seen := map[string]bool{}
	for i := range a.B {
		p, q := a.B[i], b.B[i]
		if strings.HasPrefix(p, "o.") {
			p, q = q, p
		}
		if p == q {
			continue
		}
		if strings.HasPrefix(p, "s.") && q == "o."+p[2:] {
			seen[p] = true
			continue
		}
		return false
	}
	return len(seen) == x.SBits
}

func (x *Exec) callInstr(st *State, in ssa.CallInstruction, env map[ssa.Value]Val) []Out {
	c := in.Common()
	pos := in.Pos()
	if _, ok := in.(*ssa.Call); !ok {
		x.undecided(pos, "%T", in)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, env, a))
	}
	if c.IsInvoke() {
		recv := x.val(st, env, c.Value)
		switch r := recv.(type) {
		case Iface:
			if h, ok := r.V.(Opaque); ok && strings.HasPrefix(h.E, "hasher:") {
				return x.hasher(st, h, c.Method.Name(), args, c.Signature(), pos)
			}
			if r.T != nil {
				fn := x.P.SSA.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
				return x.Call(st, Func{Fn: fn}, append([]Val{r.V}, args...), pos)
			}
			if c.Signature().Results().Len() == 1 {
				if b, ok := c.Signature().Results().At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					return []Out{{St: st, R: []Val{Bool{x.unknown("foreign")}}}}
				}
			}
			return []Out{{St: st, R: x.opaqueResults(c.Signature(), "foreign."+c.Method.Name())}}
		case Nil:
			return []Out{{St: st, Panic: "calls a method of nil", Pos: pos}}
		}
		x.undecided(pos, "method call on %T", recv)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b, in.Value(), args, pos)
	}
	f, ok := x.val(st, env, c.Value).(Func)
	if !ok {
		if isNilV(x.val(st, env, c.Value)) {
			return []Out{{St: st, Panic: "calls a nil function", Pos: pos}}
		}
		x.undecided(pos, "call of an unknown function")
	}
	return x.Call(st, f, args, pos)
}

func (x *Exec) opaqueResults(sig *types.Signature, e string) []Val {
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		T := sig.Results().At(i).Type()
		n := e
		if i > 0 {
			n = fmt.Sprintf("%s/%d", e, i)
		}
		switch {
		case isStr(T):
			r = append(r, Bytes{n, "0"})
		case func() bool { w, _ := width(T); return w > 0 }():
			r = append(r, term(n, T))
		default:
			if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				r = append(r, Bool{n})
			} else {
				r = append(r, Opaque{n})
			}
		}
	}
	return r
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, v ssa.Value, args []Val, pos token.Pos) []Out {
	ret := func(v ...Val) []Out { return []Out{{St: st, R: v}} }
	switch b.Name() {
	case "len":
		return ret(x.lenOf(st, args[0]))
	case "cap":
		return ret(term(x.unknown("cap"), types.Typ[types.Int]))
	case "append":
		d, s := args[0], args[1]
		dt, _ := x.content(st, d)
		if isNilV(s) {
			return ret(d)
		}
		if ss, ok := s.(Slice); ok {
			var els []Val
			if ds, ok := d.(Slice); ok {
				els = append(els, st.cells[ds.Cell].(Arr).E[ds.Off:ds.Off+ds.Len]...)
			} else if !isNilV(d) {
				if ss.Len == 0 {
					return ret(d)
				}
				x.undecided(pos, "append to bytes of unknown extent")
			}
			els = append(els, st.cells[ss.Cell].(Arr).E[ss.Off:ss.Off+ss.Len]...)
			return ret(Slice{x.NewCell(st, Arr{els}), 0, len(els)})
		}
		if t, ok := x.content(st, s); ok && dt == "" {
			n := "0"
			if isNilV(d) {
				n = "empty(" + t + ")"
			}
			return ret(Bytes{t, n})
		}
		if t, ok := x.content(st, s); ok && dt != "" {
			return ret(Bytes{"(" + dt + "++" + t + ")", "0"})
		}
	case "copy":
		switch d := args[0].(type) {
		case Buf:
			t, ok := x.content(st, args[1])
			if ok && st.cells[d.Cell].(Bytes).Tok == "zero:len("+t+")" {
				st.cells[d.Cell] = Bytes{t, "0"}
				return ret(term("len("+t+")", types.Typ[types.Int]))
			}
		case Slice:
			if s, ok := args[1].(Slice); ok {
				n := d.Len
				if s.Len < n {
					n = s.Len
				}
				a := Arr{append([]Val(nil), st.cells[d.Cell].(Arr).E...)}
				src := append([]Val(nil), st.cells[s.Cell].(Arr).E[s.Off:s.Off+n]...)
				copy(a.E[d.Off:], src)
				st.cells[d.Cell] = a
				return ret(konst(uint64(n), types.Typ[types.Int]))
			}
			if d.Len == 0 {
				return ret(konst(0, types.Typ[types.Int]))
			}
		}
	case "min", "max":
	}
	x.undecided(pos, "builtin %s on these values", b.Name())
	return nil
}

func (x *Exec) hasher(st *State, h Opaque, m string, args []Val, sig *types.Signature, pos token.Pos) []Out {
	cell, _ := strconv.Atoi(h.E[7:])
	cur := st.cells[cell].(Opaque).E
	switch m {
	case "Write", "WriteString":
		t, ok := x.content(st, args[0])
		if !ok {
			x.undecided(pos, "what is hashed")
		}
		if t != "" {
			st.cells[cell] = Opaque{cur + "+" + t}
		}
		return []Out{{St: st, R: []Val{x.lenOf(st, args[0]), Nil{}}}}
	case "WriteByte":
		st.cells[cell] = Opaque{cur + "+" + show(args[0])}
		return []Out{{St: st, R: []Val{Nil{}}}}
	case "Sum32", "Sum64":
		return []Out{{St: st, R: []Val{term("hash("+cur+")", sig.Results().At(0).Type())}}}
	case "Reset":
		st.cells[cell] = Opaque{strings.SplitN(cur, "+", 2)[0]}
		return []Out{{St: st}}
	}
	x.undecided(pos, "hash method %s", m)
	return nil
}

// model knows the library functions scalar code uses.
func (x *Exec) model(st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Out, bool) {
	ret := func(v ...Val) ([]Out, bool) { return []Out{{St: st, R: v}}, true }
	if fn.Pkg == nil && fn.Object() == nil || fn.Synthetic != "" && fn.Object() == nil {
		return nil, false
	}
	pkg := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	res := fn.Signature.Results()
	isErr := res.Len() == 1 && types.Identical(res.At(0).Type(), types.Universe.Lookup("error").Type())
	if x.P.InRepo(fn) {
		if fn.Object() != nil && x.P.Rel(fn.Object().Pkg()) == "errors" && isErr {
			return ret(Iface{T: nil, V: Opaque{"error"}})
		}
		return nil, false
	}
	switch pkg {
	case "encoding/binary":
		return x.binary(st, fn, args, pos)
	case "fmt", "errors":
		if isErr {
			return ret(Iface{T: nil, V: Opaque{"error"}})
		}
		if pkg == "fmt" && strings.HasPrefix(fn.Name(), "Sprint") {
			return ret(Bytes{x.unknown("text"), "0"})
		}
	case "hash/fnv":
		c := x.NewCell(st, Opaque{fn.Name()})
		return ret(Iface{T: fn.Signature.Results().At(0).Type(), V: Opaque{"hasher:" + strconv.Itoa(c)}})
	case "bytes", "strings":
		if len(args) == 2 {
			t1, ok1 := x.content(st, args[0])
			t2, ok2 := x.content(st, args[1])
			if ok1 && ok2 {
				ord := 2
				switch {
				case t1 == t2:
					ord = 0
				case t1 == "s" && t2 == "o":
					ord = x.Ord
				case t1 == "o" && t2 == "s":
					ord = -x.Ord
				}
				switch fn.Name() {
				case "Equal":
					if ord == 2 {
						return ret(Bool{"(" + t1 + "==" + t2 + ")"})
					}
					return ret(Bool{b2s(ord == 0)})
				case "Compare":
					if ord == 2 {
						return ret(term("cmp("+t1+","+t2+")", types.Typ[types.Int]))
					}
					return ret(konst(uint64(int64(ord)), types.Typ[types.Int]))
				}
			}
		}
		if fn.Name() == "Clone" {
			return ret(args[0])
		}
		return x.pureTerm(st, fn, args)
	case "hash/crc32", "hash/crc64", "hash/adler32", "math/bits", "math", "cmp", "unicode/utf8":
		return x.pureTerm(st, fn, args)
	}
	return nil, false
}

// pureTerm: a library function whose result depends only on the contents of its arguments.
func (x *Exec) pureTerm(st *State, fn *ssa.Function, args []Val) ([]Out, bool) {
	var p []string
	for _, a := range args {
		if t, ok := x.content(st, a); ok {
			p = append(p, t)
		} else {
			p = append(p, show(a))
		}
	}
	return []Out{{St: st, R: x.opaqueResults(fn.Signature, fn.String()+"("+strings.Join(p, ",")+")")}}, true
}

func (x *Exec) binary(st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Out, bool) {
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		recv = r.Type().String()
		args = args[1:]
	}
	big := strings.Contains(recv, "bigEndian")
	if !big && !strings.Contains(recv, "littleEndian") {
		return nil, false
	}
	name := fn.Name()
	kind := "get"
	for _, p := range []string{"PutUint", "AppendUint", "Uint"} {
		if strings.HasPrefix(name, p) {
			kind = map[string]string{"PutUint": "put", "AppendUint": "append", "Uint": "get"}[p]
			name = name[len(p):]
			break
		}
	}
	w, err := strconv.Atoi(name)
	if err != nil {
		return nil, false
	}
	n := w / 8
	at := func(k int) int { // byte position of byte k of the value (0 lowest)
		if big {
			return n - 1 - k
		}
		return k
	}
	byteOf := func(v Int, k int) Int { return Int{B: append([]string(nil), v.B[8*k:8*k+8]...)} }
	switch kind {
	case "get":
		r := Int{}
		switch s := args[0].(type) {
		case Slice:
			if s.Len < n {
				return []Out{{St: st, Panic: fmt.Sprintf("reads %d bytes of %d", n, s.Len), Pos: pos}}, true
			}
			for k := 0; k < n; k++ {
				e := st.cells[s.Cell].(Arr).E[s.Off+at(k)].(Int)
				r.B = append(r.B, e.B...)
			}
			return []Out{{St: st, R: []Val{r}}}, true
		case Bytes:
			t, f := x.decide(st, fmt.Sprintf("len|len(%s)|<|%d", s.Tok, n), pos)
			var out []Out
			if t != nil {
				out = append(out, Out{St: t, Panic: fmt.Sprintf("may read %d bytes of fewer", n), Pos: pos})
			}
			if f != nil {
				for k := 0; k < n; k++ {
					r.B = append(r.B, Source(fmt.Sprintf("%s[%d]", s.Tok, at(k)), types.Typ[types.Uint8]).B...)
				}
				out = append(out, Out{St: f, R: []Val{r}})
			}
			return out, true
		}
	case "put":
		s, ok := args[0].(Slice)
		v, ok2 := args[1].(Int)
		if ok && ok2 {
			if s.Len < n {
				return []Out{{St: st, Panic: fmt.Sprintf("writes %d bytes into %d", n, s.Len), Pos: pos}}, true
			}
			a := Arr{append([]Val(nil), st.cells[s.Cell].(Arr).E...)}
			for k := 0; k < n; k++ {
				a.E[s.Off+at(k)] = byteOf(v, k)
			}
			st.cells[s.Cell] = a
			return []Out{{St: st}}, true
		}
	case "append":
		v, ok2 := args[1].(Int)
		var els []Val
		if s, ok := args[0].(Slice); ok {
			els = append(els, st.cells[s.Cell].(Arr).E[s.Off:s.Off+s.Len]...)
		} else if !isNilV(args[0]) {
			ok2 = false
		}
		if ok2 {
			add := make([]Val, n)
			for k := 0; k < n; k++ {
				add[at(k)] = byteOf(v, k)
			}
			els = append(els, add...)
			return []Out{{St: st, R: []Val{Slice{x.NewCell(st, Arr{els}), 0, len(els)}}}}, true
		}
	}
	return nil, false
}

// Same: two results are certainly equal.
func (x *Exec) Same(s1 *State, a Val, s2 *State, b Val) bool {
	if t1, ok := x.content(s1, a); ok {
		if t2, ok := x.content(s2, b); ok {
			return t1 == t2 && !strings.Contains(t1, "?")
		}
	}
	i, ok1 := a.(Int)
	j, ok2 := b.(Int)
	if ok1 && ok2 {
		if len(i.B) != len(j.B) {
			return false
		}
		for k := range i.B {
			if i.B[k] != j.B[k] || strings.Contains(i.B[k], "?") {
				return false
			}
		}
		return true
	}
	return show(a) == show(b) && !strings.Contains(show(a), "?")
}

var _ = sort.Strings
