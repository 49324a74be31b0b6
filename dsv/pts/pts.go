// Package pts is a context-sensitive, field-sensitive points-to and effect analysis.
//
// It starts from one entry function whose arguments are unknown ("external") memory,
// follows every call (static, through interfaces, through function values), and records
// every write together with the abstract object written. Memory allocated while the entry
// runs is kept apart from memory that existed before.
package pts

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"dsv/load"

	"golang.org/x/tools/go/ssa"
)

type Kind int

const (
	Alloc Kind = iota
	Ext
	Global
	Closure
)

// Obj is an abstract object.
type Obj struct {
	ID      int
	Kind    Kind
	T       types.Type
	Root    int // for Ext: which entry argument it is reachable from (-1 global, -2 library)
	Fn      *ssa.Function
	Site    ssa.Instruction
	G       *ssa.Global
	Label   string
	content map[string]Set
	unknown bool // Ext of interface or function type: dynamic type unknown
}

// Elem is a place a value may refer to.
type Elem struct {
	O *Obj
	P string
	D string // dynamic type key when the value is an interface
}

type Set map[Elem]struct{}

// Val is the abstract value of an SSA value: component path -> places.
type Val map[string]Set

// Ctx is a function in a calling context.
type Ctx struct {
	Fn     *ssa.Function
	Parent *Ctx
	Site   ssa.Instruction
	env    map[ssa.Value]Val
	ret    Val
	kids   map[string]*Ctx
	depth  int
	allocs map[ssa.Instruction]*Obj
	shared bool
}

// Write is a recorded memory write.
type Write struct {
	O    *Obj
	P    string
	Pos  token.Pos
	How  string
	Ctx  *Ctx
	Fn   *ssa.Function
	Site ssa.Instruction
}

// Read is a recorded load from pre-existing memory.
type Read struct {
	O   *Obj
	P   string
	Pos token.Pos
	Ctx *Ctx
}

type A struct {
	P        *load.Program
	objs     int
	ext      map[string]*Obj
	globals  map[*ssa.Global]*Obj
	fwd      map[*ssa.UnOp]ssa.Value
	types    map[string]types.Type
	ctxs     []*Ctx
	shared   map[*ssa.Function]*Ctx
	changed  bool
	writes   map[string]Write
	reads    map[string]Read
	Unknown  map[string]token.Pos // library calls that may touch external memory
	concrete []types.Type
	Calls    int
	Entry    *Ctx
	drive    Val
	Phase    string
	Impl     func(I types.Type) []types.Type // restricts dispatch on unknown values
	Funcs    map[*ssa.Function]bool
	extFns   map[string][]*ssa.Function
}

func New(P *load.Program) *A {
	a := &A{P: P, ext: map[string]*Obj{}, globals: map[*ssa.Global]*Obj{}, fwd: map[*ssa.UnOp]ssa.Value{}, types: map[string]types.Type{},
		shared: map[*ssa.Function]*Ctx{}, writes: map[string]Write{}, reads: map[string]Read{}, Unknown: map[string]token.Pos{}, Funcs: map[*ssa.Function]bool{}}
	var names []string
	byName := map[string]types.Type{}
	for rel, sp := range P.Pkgs {
		if rel == "test" {
			continue
		}
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if _, isI := t.Type().Underlying().(*types.Interface); isI {
					continue
				}
				for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					k := types.TypeString(T, nil)
					names = append(names, k)
					byName[k] = T
				}
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		a.concrete = append(a.concrete, byName[n])
	}
	return a
}

func (a *A) tkey(T types.Type) string {
	k := types.TypeString(T, nil)
	if _, ok := a.types[k]; !ok {
		a.types[k] = T
	}
	return k
}

func (a *A) newObj(k Kind, T types.Type) *Obj {
	a.objs++
	return &Obj{ID: a.objs, Kind: k, T: T, content: map[string]Set{}}
}

func (a *A) extObj(root int, T types.Type, what string) *Obj {
	k := fmt.Sprintf("%d/%s/%s", root, what, a.tkey(T))
	if o := a.ext[k]; o != nil {
		return o
	}
	o := a.newObj(Ext, T)
	o.Root = root
	o.Label = what + " " + types.TypeString(T, func(p *types.Package) string { return p.Name() })
	o.unknown = what == "iface" || what == "func"
	a.ext[k] = o
	return o
}

// leaves enumerates the pointer-like components of T.
func leaves(T types.Type, pre string, f func(path string, T types.Type)) {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leaves(u.Field(i).Type(), pre+fmt.Sprintf(".%d", i), f)
		}
	case *types.Array:
		leaves(u.Elem(), pre+".*", f)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			leaves(u.At(i).Type(), pre+fmt.Sprintf(".t%d", i), f)
		}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			f(pre, T)
		}
	default:
		f(pre, T)
	}
}

// extDefault is what external memory of type T holds.
func (a *A) extDefault(root int, T types.Type) Val {
	v := Val{}
	leaves(T, "", func(p string, t types.Type) {
		var e Elem
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			e = Elem{O: a.extObj(root, u.Elem(), "obj")}
		case *types.Slice:
			e = Elem{O: a.extObj(root, u.Elem(), "array")}
		case *types.Map:
			e = Elem{O: a.extObj(root, t, "map")}
		case *types.Chan:
			e = Elem{O: a.extObj(root, t, "chan")}
		case *types.Signature:
			e = Elem{O: a.extObj(root, t, "func")}
		case *types.Interface:
			e = Elem{O: a.extObj(root, t, "iface"), D: "?"}
		default:
			return
		}
		v[p] = Set{e: {}}
	})
	return v
}

func (a *A) addSet(dst Set, src Set) bool {
	ch := false
	for e := range src {
		if _, ok := dst[e]; !ok {
			dst[e] = struct{}{}
			ch = true
		}
	}
	if ch {
		a.changed = true
	}
	return ch
}

func (a *A) addVal(dst Val, src Val) {
	for p, s := range src {
		if len(s) == 0 {
			continue
		}
		d := dst[p]
		if d == nil {
			d = Set{}
			dst[p] = d
		}
		a.addSet(d, s)
	}
}

func sub(v Val, pre string) Val {
	r := Val{}
	for p, s := range v {
		if p == pre {
			r[""] = s
		} else if strings.HasPrefix(p, pre+".") {
			r[p[len(pre):]] = s
		}
	}
	return r
}

func under(pre string, v Val) Val {
	r := Val{}
	for p, s := range v {
		r[pre+p] = s
	}
	return r
}

// read loads a value of type T from a place.
func (a *A) read(e Elem, T types.Type) Val {
	v := Val{}
	leaves(T, "", func(p string, t types.Type) {
		s := Set{}
		for x := range e.O.content[e.P+p] {
			s[x] = struct{}{}
		}
		if e.O.Kind == Ext || e.O.Kind == Global {
			root := e.O.Root
			for _, d := range a.extDefault(root, t) {
				for x := range d {
					s[x] = struct{}{}
				}
			}
		}
		v[p] = s
	})
	return v
}

func (a *A) put(o *Obj, p string, v Val) {
	for q, s := range v {
		if len(s) == 0 {
			continue
		}
		d := o.content[p+q]
		if d == nil {
			d = Set{}
			o.content[p+q] = d
		}
		a.addSet(d, s)
	}
}

func (a *A) write(c *Ctx, e Elem, v Val, instr ssa.Instruction, how string) {
	a.put(e.O, e.P, v)
	k := fmt.Sprintf("%d|%s|%p|%p", e.O.ID, e.P, instr, c)
	if _, ok := a.writes[k]; !ok {
		a.writes[k] = Write{O: e.O, P: e.P, Pos: instr.Pos(), How: how, Ctx: c, Fn: c.Fn, Site: instr}
	}
}

func (a *A) noteRead(c *Ctx, e Elem, pos token.Pos) {
	if e.O.Kind == Alloc || e.O.Kind == Closure {
		return
	}
	k := fmt.Sprintf("%d|%s|%p", e.O.ID, e.P, c)
	if _, ok := a.reads[k]; !ok {
		a.reads[k] = Read{O: e.O, P: e.P, Pos: pos, Ctx: c}
	}
}

// Run analyses fn on external arguments. roots gives the root id for each parameter (default: its index).
func (a *A) Run(fn *ssa.Function) {
	c := a.newCtx(fn, nil, nil)
	a.Entry = c
	for i, p := range fn.Params {
		c.env[p] = a.extDefault(i, p.Type())
	}
	a.drive = Val{}
	a.fix()
}

// Drive calls every function value in the entry's result (and what those return), until stable.
func (a *A) Drive(v Val) {
	a.addVal(a.drive, v)
	a.fix()
}

// Ret is the entry's result.
func (a *A) Ret() Val { return a.Entry.ret }

func (a *A) fix() {
	for i := 0; ; i++ {
		if i > 400 {
			panic("points-to analysis does not stabilise")
		}
		a.changed = false
		for k := 0; k < len(a.ctxs); k++ {
			a.sweep(a.ctxs[k])
		}
		a.driveStep()
		if !a.changed {
			return
		}
	}
}

func (a *A) driveStep() {
	for _, s := range a.drive {
		for e := range s {
			if e.O.Kind == Closure && len(e.O.Fn.Params) == 0 {
				k := a.enter(a.Entry, nil, e.O.Fn, nil, e.O)
				a.addVal(a.drive, k.ret)
			}
		}
	}
}

func (a *A) newCtx(fn *ssa.Function, parent *Ctx, site ssa.Instruction) *Ctx {
	c := &Ctx{Fn: fn, Parent: parent, Site: site, env: map[ssa.Value]Val{}, ret: Val{}, kids: map[string]*Ctx{}, allocs: map[ssa.Instruction]*Obj{}}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	a.ctxs = append(a.ctxs, c)
	a.Funcs[fn] = true
	a.changed = true
	if len(a.ctxs) > 20000 {
		panic("points-to analysis: too many contexts")
	}
	return c
}

// enter finds the callee context and merges the arguments into it.
func (a *A) enter(c *Ctx, site ssa.Instruction, fn *ssa.Function, args []Val, clo *Obj) *Ctx {
	return a.enterIn(c, site, fn, args, clo, false)
}

func (a *A) enterIn(c *Ctx, site ssa.Instruction, fn *ssa.Function, args []Val, clo *Obj, shared bool) *Ctx {
	a.Calls++
	var k *Ctx
	if shared {
		k = a.shared[fn]
		if k == nil {
			k = a.newCtx(fn, c, site)
			k.shared = true
			a.shared[fn] = k
		}
	} else {
		for x := c; x != nil; x = x.Parent {
			if x.Fn == fn {
				k = x
				break
			}
		}
		if k == nil {
			key := fmt.Sprintf("%p/%p", site, fn)
			k = c.kids[key]
			if k == nil {
				k = a.newCtx(fn, c, site)
				c.kids[key] = k
			}
		}
	}
	for i, p := range fn.Params {
		if i < len(args) {
			a.set(k, p, args[i])
		}
	}
	if clo != nil {
		for i, f := range fn.FreeVars {
			a.set(k, f, a.read(Elem{O: clo, P: fmt.Sprintf(".v%d", i)}, f.Type()))
		}
	}
	return k
}

func (a *A) set(c *Ctx, v ssa.Value, x Val) {
	d := c.env[v]
	if d == nil {
		d = Val{}
		c.env[v] = d
	}
	a.addVal(d, x)
}

func (a *A) val(c *Ctx, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Function:
		o := a.fnObj(x)
		return Val{"": Set{Elem{O: o}: {}}}
	case *ssa.Global:
		o := a.globals[x]
		if o == nil {
			o = a.newObj(Global, x.Type().(*types.Pointer).Elem())
			o.Root = -1
			o.G = x
			o.Label = "global " + x.Name()
			a.globals[x] = o
		}
		return Val{"": Set{Elem{O: o}: {}}}
	}
	return c.env[v]
}

func (a *A) fnObj(f *ssa.Function) *Obj {
	k := "fn/" + f.String()
	if o := a.ext[k]; o != nil {
		return o
	}
	o := a.newObj(Closure, f.Type())
	o.Fn = f
	o.Label = f.Name()
	a.ext[k] = o
	return o
}

func (a *A) alloc(c *Ctx, instr ssa.Instruction, T types.Type, kind Kind) *Obj {
	if o := c.allocs[instr]; o != nil {
		return o
	}
	o := a.newObj(kind, T)
	o.Site = instr
	c.allocs[instr] = o
	a.changed = true
	return o
}

func shift(s Set, suffix string) Set {
	r := Set{}
	for e := range s {
		e.P += suffix
		r[e] = struct{}{}
	}
	return r
}

func (a *A) sweep(c *Ctx) {
	blocks := c.Fn.Blocks
	for _, b := range blocks {
		for _, instr := range b.Instrs {
			a.step(c, instr)
		}
	}
	if r := c.Fn.Recover; r != nil {
		seen := false
		for _, b := range blocks {
			if b == r {
				seen = true
			}
		}
		if !seen {
			for _, instr := range r.Instrs {
				a.step(c, instr)
			}
		}
	}
}

func pointerLike(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (a *A) step(c *Ctx, instr ssa.Instruction) {
	switch x := instr.(type) {
	case *ssa.Alloc:
		o := a.alloc(c, x, x.Type().(*types.Pointer).Elem(), Alloc)
		a.set(c, x, Val{"": Set{Elem{O: o}: {}}})
	case *ssa.FieldAddr:
		a.set(c, x, Val{"": shift(a.val(c, x.X)[""], fmt.Sprintf(".%d", x.Field))})
	case *ssa.IndexAddr:
		a.set(c, x, Val{"": shift(a.val(c, x.X)[""], ".*")})
	case *ssa.Field:
		a.set(c, x, sub(a.val(c, x.X), fmt.Sprintf(".%d", x.Field)))
	case *ssa.Index:
		a.set(c, x, sub(a.val(c, x.X), ".*"))
	case *ssa.Lookup:
		m, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		v := Val{}
		for e := range a.val(c, x.X)[""] {
			a.noteRead(c, e, x.Pos())
			merge(v, a.readMap(e, m.Elem(), ".mv"))
		}
		if x.CommaOk {
			v = under(".t0", v)
		}
		a.set(c, x, v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if w := a.forward(x); w != nil {
				for e := range a.val(c, x.X)[""] {
					a.noteRead(c, e, x.Pos())
				}
				a.set(c, x, a.val(c, w))
				return
			}
			v := Val{}
			for e := range a.val(c, x.X)[""] {
				a.noteRead(c, e, x.Pos())
				merge(v, a.read(e, x.Type()))
			}
			a.set(c, x, v)
		case token.ARROW:
			v := Val{}
			T := x.Type()
			if x.CommaOk {
				T = T.(*types.Tuple).At(0).Type()
			}
			for e := range a.val(c, x.X)[""] {
				merge(v, a.readMap(e, T, ".ch"))
			}
			if x.CommaOk {
				v = under(".t0", v)
			}
			a.set(c, x, v)
		}
	case *ssa.Store:
		v := a.val(c, x.Val)
		for e := range a.val(c, x.Addr)[""] {
			a.write(c, e, v, x, "store")
		}
	case *ssa.MapUpdate:
		for e := range a.val(c, x.Map)[""] {
			a.put(e.O, e.P+".mk", a.val(c, x.Key))
			e.P += ".mv"
			a.write(c, e, a.val(c, x.Value), x, "map update")
		}
	case *ssa.Send:
		for e := range a.val(c, x.Chan)[""] {
			a.put(e.O, e.P+".ch", a.val(c, x.X))
		}
	case *ssa.Slice:
		a.set(c, x, a.val(c, x.X))
	case *ssa.MakeSlice:
		o := a.alloc(c, x, x.Type().Underlying().(*types.Slice).Elem(), Alloc)
		a.set(c, x, Val{"": Set{Elem{O: o}: {}}})
	case *ssa.MakeMap, *ssa.MakeChan:
		v := instr.(ssa.Value)
		o := a.alloc(c, instr, v.Type(), Alloc)
		a.set(c, v, Val{"": Set{Elem{O: o}: {}}})
	case *ssa.MakeInterface:
		v := a.val(c, x.X)
		T := x.X.Type()
		if pointerLike(T) {
			s := Set{}
			for e := range v[""] {
				e.D = a.tkey(T)
				s[e] = struct{}{}
			}
			a.set(c, x, Val{"": s})
			return
		}
		o := a.alloc(c, x, T, Alloc)
		o.Label = "box"
		a.put(o, "", v)
		a.set(c, x, Val{"": Set{Elem{O: o, D: a.tkey(T)}: {}}})
	case *ssa.MakeClosure:
		o := a.alloc(c, x, x.Type(), Closure)
		o.Fn = x.Fn.(*ssa.Function)
		o.Label = o.Fn.Name()
		for i, b := range x.Bindings {
			a.put(o, fmt.Sprintf(".v%d", i), a.val(c, b))
		}
		a.set(c, x, Val{"": Set{Elem{O: o}: {}}})
	case *ssa.ChangeType:
		a.set(c, x, a.val(c, x.X))
	case *ssa.ChangeInterface:
		a.set(c, x, a.val(c, x.X))
	case *ssa.Convert:
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			if _, isS := x.X.Type().Underlying().(*types.Slice); !isS {
				o := a.alloc(c, x, x.Type().Underlying().(*types.Slice).Elem(), Alloc)
				a.set(c, x, Val{"": Set{Elem{O: o}: {}}})
				return
			}
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return // the bytes are copied
		}
		a.set(c, x, a.val(c, x.X))
	case *ssa.TypeAssert:
		v := a.assert(c, x)
		if x.CommaOk {
			v = under(".t0", v)
		}
		a.set(c, x, v)
	case *ssa.Extract:
		a.set(c, x, sub(a.val(c, x.Tuple), fmt.Sprintf(".t%d", x.Index)))
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.set(c, x, a.val(c, e))
		}
	case *ssa.Range:
		a.set(c, x, a.val(c, x.X))
	case *ssa.Next:
		if x.IsString {
			return
		}
		r := x.Iter.(*ssa.Range)
		m, ok := r.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		for e := range a.val(c, x.Iter)[""] {
			a.noteRead(c, e, x.Pos())
			a.set(c, x, under(".t1", a.readMap(e, m.Key(), ".mk")))
			a.set(c, x, under(".t2", a.readMap(e, m.Elem(), ".mv")))
		}
	case *ssa.Call:
		r := a.call(c, x, &x.Call)
		if x.Call.Signature().Results().Len() > 0 {
			a.set(c, x, r)
		}
	case *ssa.Defer:
		a.call(c, x, &x.Call)
	case *ssa.Go:
		a.call(c, x, &x.Call)
	case *ssa.Return:
		for i, r := range x.Results {
			pre := ""
			if len(x.Results) > 1 {
				pre = fmt.Sprintf(".t%d", i)
			}
			a.addVal(c.ret, under(pre, a.val(c, r)))
		}
	}
}

func merge(dst, src Val) {
	for p, s := range src {
		d := dst[p]
		if d == nil {
			d = Set{}
			dst[p] = d
		}
		for e := range s {
			d[e] = struct{}{}
		}
	}
}

func (a *A) readMap(e Elem, T types.Type, where string) Val {
	e.P += where
	return a.read(e, T)
}

func (a *A) implementers(I types.Type, also types.Type) []types.Type {
	i := I.Underlying().(*types.Interface)
	var out []types.Type
	for _, T := range a.concrete {
		if !types.Implements(T, i) {
			continue
		}
		if also != nil {
			if j, ok := also.Underlying().(*types.Interface); ok && !types.Implements(T, j) {
				continue
			}
		}
		// prefer the pointer form only when the value form does not implement it
		if p, isP := T.(*types.Pointer); isP && types.Implements(p.Elem(), i) {
			continue
		}
		out = append(out, T)
	}
	return out
}

func (a *A) assert(c *Ctx, x *ssa.TypeAssert) Val {
	AT := x.AssertedType
	_, toI := AT.Underlying().(*types.Interface)
	v := Val{}
	for e := range a.val(c, x.X)[""] {
		if e.D == "?" {
			if toI {
				merge(v, Val{"": Set{e: {}}})
			} else {
				merge(v, a.extDefault(e.O.Root, AT))
			}
			continue
		}
		T := a.types[e.D]
		if T == nil {
			continue
		}
		if toI {
			if types.Implements(T, AT.Underlying().(*types.Interface)) {
				merge(v, Val{"": Set{e: {}}})
			}
			continue
		}
		if !types.Identical(T, AT) {
			continue
		}
		merge(v, a.unbox(e, T))
	}
	return v
}

func (a *A) unbox(e Elem, T types.Type) Val {
	if pointerLike(T) {
		e.D = ""
		return Val{"": Set{e: {}}}
	}
	e.D = ""
	return a.read(e, T)
}

func (a *A) args(c *Ctx, vs []ssa.Value) []Val {
	var out []Val
	for _, v := range vs {
		out = append(out, a.val(c, v))
	}
	return out
}

func (a *A) call(c *Ctx, site ssa.CallInstruction, cc *ssa.CallCommon) Val {
	res := Val{}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return a.builtin(c, site, b, cc)
	}
	args := a.args(c, cc.Args)
	if cc.IsInvoke() {
		for e := range a.val(c, cc.Value)[""] {
			merge(res, a.invoke(c, site, cc.Method, cc.Value.Type(), e, args))
		}
		return res
	}
	if fn := cc.StaticCallee(); fn != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for e := range a.val(c, mc)[""] {
				merge(res, a.enter(c, site, fn, args, e.O).ret)
			}
			return res
		}
		merge(res, a.callFn(c, site, fn, args, nil, false))
		return res
	}
	for e := range a.val(c, cc.Value)[""] {
		if e.O.Kind == Closure {
			merge(res, a.callFn(c, site, e.O.Fn, args, e.O, false))
			continue
		}
		// an unknown function value: it gives back external values
		merge(res, a.extResults(e.O.Root, cc.Signature()))
	}
	return res
}

func (a *A) extResults(root int, sig *types.Signature) Val {
	if sig.Results().Len() == 1 {
		return a.extDefault(root, sig.Results().At(0).Type())
	}
	return a.extDefault(root, sig.Results())
}

func (a *A) invoke(c *Ctx, site ssa.CallInstruction, m *types.Func, I types.Type, e Elem, args []Val) Val {
	res := Val{}
	if e.D != "?" {
		T := a.types[e.D]
		fn := a.P.SSA.LookupMethod(T, m.Pkg(), m.Name())
		if fn == nil {
			return res
		}
		return a.callFn(c, site, fn, append([]Val{a.unbox(e, T)}, args...), nil, false)
	}
	impl := a.implementers(I, e.O.T)
	if a.Impl != nil {
		impl = a.Impl(I)
	}
	for _, T := range impl {
		fn := a.P.SSA.LookupMethod(T, m.Pkg(), m.Name())
		if fn == nil {
			continue
		}
		merge(res, a.callFn(c, site, fn, append([]Val{a.extDefault(e.O.Root, T)}, args...), nil, true))
	}
	// and any implementation outside the repository
	merge(res, a.extResults(e.O.Root, m.Type().(*types.Signature)))
	return res
}

// libPure lists packages whose functions do not write through their arguments.
var libPure = map[string]bool{"fmt": true, "errors": true, "strings": true, "bytes": true, "math": true, "hash/fnv": true, "log": true,
	"reflect": true, "runtime": true, "runtime/debug": true, "sync": true, "math/rand": true, "strconv": true, "os": true, "unicode/utf8": true, "time": true, "sync/atomic": true, "hash": true}

func (a *A) callFn(c *Ctx, site ssa.Instruction, fn *ssa.Function, args []Val, clo *Obj, shared bool) Val {
	if len(fn.Blocks) > 0 && (a.P.InRepo(fn) || fn.Synthetic != "" && fn.Pkg == nil) {
		return a.enterIn(c, site, fn, args, clo, shared).ret
	}
	return a.library(c, site, fn, args)
}

func (a *A) library(c *Ctx, site ssa.Instruction, fn *ssa.Function, args []Val) Val {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	name := fn.Name()
	wr := func(i int, how string) {
		if i < len(args) {
			for e := range args[i][""] {
				e.P += ".*"
				e.D = ""
				a.write(c, e, nil, site, how)
			}
		}
	}
	switch {
	case pkg == "encoding/binary":
		if strings.HasPrefix(name, "Put") {
			for i := range args {
				wr(i, name)
			}
		}
	case pkg == "sort":
		switch name {
		case "Sort", "Stable", "Reverse", "IsSorted":
			if len(args) > 0 {
				ci := site.(ssa.CallInstruction)
				I := ci.Common().Args[0].Type()
				it, ok := I.Underlying().(*types.Interface)
				if ok {
					for e := range args[0][""] {
						for k := 0; k < it.NumMethods(); k++ {
							if (name == "IsSorted") && it.Method(k).Name() == "Swap" {
								continue
							}
							a.invoke(c, ci, it.Method(k), I, e, nil)
						}
					}
				}
				if name == "Reverse" {
					return args[0]
				}
			}
		default:
			if strings.HasPrefix(name, "Search") {
				break
			}
			wr(0, "sort."+name)
		}
	case pkg == "io":
		wr(1, "io."+name)
	case libPure[pkg]:
	default:
		for _, v := range args {
			for _, s := range v {
				for e := range s {
					if e.O.Kind == Ext && e.O.Root >= 0 {
						a.Unknown[fn.String()] = site.Pos()
					}
				}
			}
		}
	}
	return a.extResults(-2, fn.Signature)
}

func (a *A) builtin(c *Ctx, site ssa.CallInstruction, b *ssa.Builtin, cc *ssa.CallCommon) Val {
	switch b.Name() {
	case "append":
		dst, src := a.val(c, cc.Args[0]), a.val(c, cc.Args[1])
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		res := Val{}
		o := a.alloc(c, site, elem, Alloc)
		res[""] = Set{Elem{O: o}: {}}
		content := Val{}
		for e := range src[""] {
			e.P += ".*"
			merge(content, a.read(e, elem))
		}
		old := Val{}
		inPlace := !a.clipped(cc.Args[0])
		for e := range dst[""] {
			f := e
			f.P += ".*"
			merge(old, a.read(f, elem))
			if inPlace {
				if !nilConst(cc.Args[1]) {
					a.write(c, f, content, site, "append in place")
				}
				res[""][e] = struct{}{}
			}
		}
		a.put(o, ".*", old)
		a.put(o, ".*", content)
		return res
	case "copy":
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		content := Val{}
		if _, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
			for e := range a.val(c, cc.Args[1])[""] {
				e.P += ".*"
				merge(content, a.read(e, elem))
			}
		}
		for e := range a.val(c, cc.Args[0])[""] {
			e.P += ".*"
			a.write(c, e, content, site, "copy")
		}
	case "delete", "clear":
		for e := range a.val(c, cc.Args[0])[""] {
			e.P += ".mv"
			a.write(c, e, nil, site, b.Name())
		}
	case "recover":
		return a.extDefault(-2, types.NewInterfaceType(nil, nil))
	case "ssa:wrapnilchk":
		return a.val(c, cc.Args[0])
	case "min", "max", "len", "cap":
	}
	return nil
}

func nilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// clipped: a slice whose capacity equals its length, so that append always reallocates.
func (a *A) clipped(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if p, isPhi := v.(*ssa.Phi); isPhi {
		for _, e := range p.Edges {
			if s, ok := e.(*ssa.Slice); !ok || !a.clipped(s) {
				return false
			}
		}
		return true
	}
	if !ok || s.Max == nil || s.High == nil {
		return false
	}
	return a.sameSSA(s.Max, s.High)
}

func (a *A) sameSSA(v, w ssa.Value) bool {
	if v == w {
		return true
	}
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		if f := a.forward(l); f != nil {
			return a.sameSSA(f, w)
		}
	}
	if l, ok := w.(*ssa.UnOp); ok && l.Op == token.MUL {
		if f := a.forward(l); f != nil {
			return a.sameSSA(v, f)
		}
	}
	x, ok1 := v.(*ssa.Const)
	y, ok2 := w.(*ssa.Const)
	if ok1 && ok2 {
		return x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	}
	p, ok1 := v.(*ssa.Call)
	q, ok2 := w.(*ssa.Call)
	if ok1 && ok2 {
		bp, ok3 := p.Call.Value.(*ssa.Builtin)
		bq, ok4 := q.Call.Value.(*ssa.Builtin)
		if ok3 && ok4 && bp.Name() == bq.Name() && (bp.Name() == "len" || bp.Name() == "cap") {
			return a.sameSSA(p.Call.Args[0], q.Call.Args[0])
		}
	}
	s, ok1 := v.(*ssa.BinOp)
	t, ok2 := w.(*ssa.BinOp)
	return ok1 && ok2 && s.Op == t.Op && a.sameSSA(s.X, t.X) && a.sameSSA(s.Y, t.Y)
}

// ---------------------------------------------------------------- results

// Writes lists the recorded writes in a stable order.
func (a *A) Writes() []Write {
	var ks []string
	for k := range a.writes {
		ks = append(ks, k)
	}
	var out []Write
	for _, k := range ks {
		out = append(out, a.writes[k])
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos != out[j].Pos {
			return out[i].Pos < out[j].Pos
		}
		if out[i].O.ID != out[j].O.ID {
			return out[i].O.ID < out[j].O.ID
		}
		return out[i].P < out[j].P
	})
	return out
}

// Reads lists loads from pre-existing memory.
func (a *A) Reads() []Read {
	var out []Read
	for _, r := range a.reads {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos < out[j].Pos })
	return out
}

// CtxCount is the number of calling contexts analysed.
func (a *A) CtxCount() int { return len(a.ctxs) }

// Chain renders how a context was reached.
func (a *A) Chain(c *Ctx) []string {
	var out []string
	for x := c; x != nil; x = x.Parent {
		p := "?"
		if x.Site != nil {
			p = a.P.Pos(x.Site.Pos())
		}
		out = append([]string{a.P.FuncName(x.Fn) + " called at " + p}, out...)
	}
	return out
}

// IsFresh: the object was allocated during the analysed call.
func (o *Obj) IsFresh() bool { return o.Kind == Alloc || o.Kind == Closure }

// Reach visits every object reachable from a value. f returns false to stop below an object.
// Components of external objects are followed by type.
func (a *A) Reach(v Val, f func(o *Obj, p string, path []string) bool) {
	seen := map[*Obj]bool{}
	var visit func(e Elem, path []string)
	visit = func(e Elem, path []string) {
		if seen[e.O] {
			return
		}
		seen[e.O] = true
		if !f(e.O, e.P, path) {
			return
		}
		var ps []string
		for p := range e.O.content {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			for x := range e.O.content[p] {
				visit(x, append(path[:len(path):len(path)], p))
			}
		}
	}
	var ps []string
	for p := range v {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		for e := range v[p] {
			visit(e, []string{p})
		}
	}
}

// ExtObjs lists the external objects met.
func (a *A) ExtObjs() []*Obj {
	var out []*Obj
	for _, o := range a.ext {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Content gives what was stored into o, by path.
func (o *Obj) Content() map[string]Set { return o.content }
