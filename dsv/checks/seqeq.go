package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "Abstract interpretation of Equals, Less and Hash of every sequence container on contents of any length, against a container of every kind and of one unknown to the library. Items are functions of their position; what decides is the sizes and the first differing position.", func(c *Ctx) {
		c.R.Rule("equal", "containers are equal exactly when they have the same size and equal items at every position")
		c.R.Rule("less", "the smaller container comes first; with equal sizes the first differing position decides")
		c.R.Rule("hash", "the hash is made of the hashes of the items, each once and in order, in the same way for every kind")
		c.R.Assume("the items' own Equals, Less and Hash are consistent (decided for the library's key types by C25)")
		c.seqEquality()
		c.R.Floor("cases", 200)
		c.R.Floor("hashes", 6)
	})
}

type seqEq struct {
	c      *Ctx
	in     *ai.Interp
	key    string
	fn     *ssa.Function
	rule   string
	n      map[string]ai.Lin
	p      ai.Lin
	chains map[int]string
	node   map[string]int
	class  string
	unk    ai.Sym
	sigs   map[string]bool
	ok     bool
}

func (x *seqEq) bad(st *ai.State, pos token.Pos, f string, args ...interface{}) {
	x.ok = false
	if !pos.IsValid() {
		pos = x.fn.Pos()
	}
	x.c.R.Fail(x.rule, x.key, x.c.P.Pos(pos), fmt.Sprintf(f, args...), x.c.Path(st)...)
}

func (x *seqEq) item(st *ai.State, side string, i ai.Lin) ai.Val {
	s := x.in.App(st, side, x.c.hashable(), ai.Int{L: i}).(ai.Sym)
	st.NonNil(s)
	return s
}

// build makes a container of type T that holds the items of one side; nil when it has no place for them.
func (x *seqEq) build(st *ai.State, T types.Type, side string, n ai.Lin) (ai.Val, bool) {
	in := x.in
	L, Nd := x.c.P.Named("linked", "LinkedList"), x.c.P.Named("linked", "Node")
	switch U := T.Underlying().(type) {
	case *types.Pointer:
		v, ok := x.build(st, U.Elem(), side, n)
		if !ok {
			return nil, false
		}
		o := st.NewObj(U.Elem(), v, false, side)
		return ai.Ptr{O: o.ID}, true
	case *types.Struct:
		v, _ := in.Fresh(st, T, side).(ai.Struct)
		if v.F == nil {
			return nil, false
		}
		v.F = append([]ai.Val(nil), v.F...)
		if L != nil && Nd != nil && types.Identical(T, L) {
			x.node = fields(Nd)
			arr := st.NewArr(Nd, n, ai.DefSym, false, "nodes of "+side).ID
			x.chains[arr] = side
			for i := 0; i < U.NumFields(); i++ {
				switch U.Field(i).Name() {
				case "Head":
					v.F[i] = ai.Ptr{O: arr, IsElem: true, Idx: ai.K(0)}
				case "Tail":
					v.F[i] = ai.Ptr{O: arr, IsElem: true, Idx: n.AddK(-1)}
				default:
					if b, ok := U.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
						v.F[i] = ai.Int{L: n}
					}
				}
			}
			return v, true
		}
		found := false
		for i := 0; i < U.NumFields(); i++ {
			F := U.Field(i).Type()
			if s, ok := F.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), x.c.hashable()) {
				cp := in.NewAtom("cap")
				st.AddLe(n.Sub(cp))
				a := st.NewArr(s.Elem(), cp, ai.DefSym, false, side)
				v.F[i] = ai.Slice{Arr: a.ID, Off: ai.K(0), Len: n, Cap: cp}
				found = true
				continue
			}
			if n := namedOf(F); n == nil || !x.c.P.InRepoPkg(n.Obj().Pkg()) || types.IsInterface(F) {
				continue
			}
			if w, ok := x.build(st, F, side, n); ok {
				v.F[i] = w
				found = true
			}
		}
		return v, found
	}
	return nil, false
}

func (x *seqEq) setup(st *ai.State) {
	in := x.in
	in.Rigid = map[int]bool{}
	in.Indexed = map[string]bool{"A": true, "B": true, "rest": true}
	in.H.NewIndexed = func(st *ai.State, s ai.Sym) { st.NonNil(s) }
	in.Pure = func(o *ai.Obj) bool { return o.Arr != nil && (x.chains[o.ID] != "" || o.Name == "A" || o.Name == "B") }
	in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
		if side := x.chains[o.ID]; side != "" {
			v := ai.Struct{F: make([]ai.Val, len(x.node))}
			v.F[x.node["Data"]] = x.item(st, side, idx)
			v.F[x.node["Next"]] = ai.Ptr{O: o.ID, IsElem: true, Idx: idx.AddK(1)}
			v.F[x.node["Prev"]] = ai.Ptr{O: o.ID, IsElem: true, Idx: idx.AddK(-1)}
			return v, true
		}
		if o.Name == "A" || o.Name == "B" {
			return x.item(st, o.Name, idx), true
		}
		return nil, false
	}
	inside := func(p ai.Ptr) ai.Cond {
		return ai.CAnd{A: ai.CLe{L: p.Idx.Neg()}, B: ai.CLe{L: p.Idx.AddK(1).Sub(x.n[x.chains[p.O]])}}
	}
	node := func(v ai.Val) (ai.Ptr, bool) {
		p, ok := v.(ai.Ptr)
		return p, ok && x.chains[p.O] != "" && len(p.Path) == 0
	}
	in.H.PtrEq = func(st *ai.State, a, b ai.Val) (ai.Cond, bool) {
		p, ok1 := node(a)
		q, ok2 := node(b)
		_, n1 := a.(ai.Nil)
		_, n2 := b.(ai.Nil)
		switch {
		case ok1 && n2:
			return ai.CNot{C: inside(p)}, true
		case ok2 && n1:
			return ai.CNot{C: inside(q)}, true
		case ok1 && ok2 && p.O == q.O:
			both := ai.CAnd{A: ai.CNot{C: inside(p)}, B: ai.CNot{C: inside(q)}}
			return ai.CNot{C: ai.CAnd{A: ai.CNot{C: ai.CEq{L: p.Idx.Sub(q.Idx)}}, B: ai.CNot{C: both}}}, true
		}
		return nil, false
	}
	in.H.Norm = func(st *ai.State, v ai.Val) ai.Val {
		if p, ok := node(v); ok && st.Eval(inside(p)) == ai.F {
			return ai.Nil{}
		}
		return v
	}
	in.H.Deref = func(st *ai.State, p ai.Ptr, pos token.Pos) ([]ai.R, bool) {
		if _, ok := node(p); !ok {
			return nil, false
		}
		var out []ai.R
		y, no := st.Branch(inside(p))
		if y != nil {
			out = append(out, ai.R{St: y, V: p})
		}
		if no != nil {
			out = append(out, ai.R{St: no, Panic: &ai.PanicInfo{Kind: "nil", Pos: pos, Msg: "nil dereference beyond the end of the list"}})
		}
		return out, true
	}
	in.H.TypeAssert = func(st *ai.State, s ai.Sym, T types.Type) ([]ai.TA, bool) {
		if s != x.unk {
			return nil, false
		}
		if types.IsInterface(T) {
			i := in.Info(s.ID)
			if i != nil && implementsIface(i.T, T) {
				return []ai.TA{{St: st, V: s, OK: true}}, true
			}
			return nil, false
		}
		return []ai.TA{{St: st, OK: false}}, true
	}
}

// pos finds which side's item a value is.
func (x *seqEq) pos(st *ai.State, v ai.Val) (string, ai.Lin) {
	if s, ok := st.Resolve(v).(ai.Sym); ok {
		if i := x.in.Info(s.ID); i != nil && (i.Op == "A" || i.Op == "B") {
			return i.Op, intv(i.Args[0])
		}
	}
	return "", ai.Lin{}
}

// compare answers Equals and Less between items.
func (x *seqEq) compare(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	name := ci.Method.Name()
	if name != "Equals" && name != "Less" || len(ci.Args) != 1 {
		return nil, false
	}
	s, i := x.pos(st, ci.Recv)
	t, j := x.pos(st, ci.Args[0])
	if s == "" || t == "" {
		return nil, false
	}
	var out []ai.Outcome
	ret := func(st *ai.State, c ai.Cond) {
		if st != nil {
			out = append(out, ai.Outcome{St: st, Rets: []ai.Val{ai.Bool{C: c}}})
		}
	}
	unknown := func(st *ai.State) {
		if st != nil {
			ret(st, x.in.NewBool("compared").C)
		}
	}
	same, apart := st.Branch(ai.CEq{L: i.Sub(j)})
	unknown(apart)
	if same == nil {
		return out, true
	}
	equal := func(st *ai.State) { ret(st, ai.CConst{V: name == "Equals"}) }
	if s == t || x.class == "equal" {
		equal(same)
		return out, true
	}
	before, rest := same.Branch(lt(i, x.p))
	var at, after *ai.State
	if rest != nil {
		at, after = rest.Branch(ai.CEq{L: i.Sub(x.p)})
	}
	if before != nil {
		if x.class == "differ" {
			unknown(before)
		} else {
			equal(before)
		}
	}
	unknown(after)
	if at != nil {
		if name == "Equals" {
			ret(at, ai.CConst{V: false})
		} else {
			switch x.class {
			case "differ":
				unknown(at)
			default:
				ret(at, ai.CConst{V: (x.class == "before") == (s == "A")})
			}
		}
	}
	return out, true
}

// foreign answers for the container of unknown kind.
func (x *seqEq) foreign(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
	in := x.in
	n := x.n["B"]
	if ci.Method != nil && sameVal(st, ci.Recv, x.unk) {
		switch ci.Method.Name() {
		case "Size":
			return []ai.Outcome{{St: st, Rets: []ai.Val{ai.Int{L: n}}}}, true
		case "Items":
			it := in.App(st, "rest", ci.Sig.Results().At(0).Type(), ai.Int{L: ai.K(0)}).(ai.Sym)
			st.NonNil(it)
			return []ai.Outcome{{St: st, Rets: []ai.Val{it}}}, true
		}
		return nil, false
	}
	if f, ok := ci.FnVal.(ai.Sym); ok {
		i := in.Info(f.ID)
		if i == nil || i.Op != "rest" {
			return nil, false
		}
		k := intv(i.Args[0])
		var out []ai.Outcome
		in, end := st.Branch(lt(k, n))
		if in != nil {
			it := x.in.App(in, "rest", i.T, ai.Int{L: k.AddK(1)}).(ai.Sym)
			in.NonNil(it)
			out = append(out, ai.Outcome{St: in, Rets: []ai.Val{x.item(in, "B", k), it}})
		}
		if end != nil {
			out = append(out, ai.Outcome{St: end, Rets: []ai.Val{ai.Nil{}, ai.Nil{}}})
		}
		return out, true
	}
	return nil, false
}

// seqKinds are the containers that compare as sequences.
func (c *Ctx) seqKinds() []types.Type {
	I := c.P.Named("types", "IterableContainer")
	H := c.P.Named("types", "Hashable")
	if I == nil || H == nil {
		c.R.Fail("anchor", "types.IterableContainer, types.Hashable", "", "anchor not found in the tree")
		return nil
	}
	seen := map[string]types.Type{}
	for _, pkg := range []string{"list", "linked", "set"} {
		for _, e := range c.api([]string{pkg}) {
			n := c.P.Named(e.pkg, e.typ)
			if n == nil {
				continue
			}
			if PT := types.NewPointer(n); implementsIface(PT, I) && implementsIface(PT, H) {
				seen[e.pkg+"."+e.typ] = PT
			}
		}
	}
	var names []string
	for k := range seen {
		names = append(names, k)
	}
	sort.Strings(names)
	var out []types.Type
	for _, k := range names {
		out = append(out, seen[k])
	}
	return out
}

func (c *Ctx) seqEquality() {
	kinds := c.seqKinds()
	short := func(T types.Type) string {
		n := namedOf(T)
		return c.P.Rel(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	var parts []func(c *Ctx)
	sigs := make([]map[string]bool, len(kinds))
	for ki, T := range kinds {
		ki, T := ki, T
		for _, op := range []string{"Equals", "Less"} {
			op := op
			for _, O := range append([]types.Type{nil}, kinds...) {
				O := O
				other := "any other kind"
				if O != nil {
					other = short(O)
				}
				for _, class := range []string{"shorter", "longer", "equal", "differ", "before", "after"} {
					class := class
					if op == "Equals" && (class == "before" || class == "after") || op == "Less" && class == "differ" {
						continue
					}
					parts = append(parts, func(c *Ctx) {
						c.R.Count("cases", 1)
						c.seqCompare(T, O, op, class, fmt.Sprintf("%s.%s against %s: %s", short(T), op, other, class))
					})
				}
			}
		}
		sigs[ki] = map[string]bool{}
		parts = append(parts, func(c *Ctx) {
			c.R.Count("hashes", 1)
			c.seqHash(T, short(T)+".Hash", sigs[ki])
		})
	}
	c.Parallel(parts...)
	for i, T := range kinds {
		fn := c.P.Method(T, "Hash")
		key := short(T) + ".Hash is made like that of " + short(kinds[0])
		a, b := sigList(sigs[0]), sigList(sigs[i])
		if a == b && len(sigs[i]) > 0 {
			c.R.OK("hash", key, c.P.Pos(fn.Pos()))
		} else {
			c.R.Fail("hash", key, c.P.Pos(fn.Pos()), fmt.Sprintf("equal contents can have different hashes: made by [%s] and by [%s]", b, a))
		}
	}
}

func sigList(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

func (c *Ctx) seqRun(T types.Type, op, rule, key string, f func(x *seqEq, st *ai.State, self ai.Val)) {
	fn := c.P.Method(T, op)
	if fn == nil {
		c.R.Fail("anchor", key, "", "anchor not found in the tree")
		return
	}
	c.Guard(rule, key, fn.Pos(), func() {
		in := c.Interp()
		defer c.Done(in)
		st := in.NewState()
		x := &seqEq{c: c, in: in, key: key, fn: fn, rule: rule, n: map[string]ai.Lin{}, chains: map[int]string{}, ok: true}
		x.setup(st)
		n := in.NewAtom("n")
		st.AddLe(n.Neg())
		st.Ghost["n"] = ai.Int{L: n}
		x.n["A"] = n
		self, ok := x.build(st, T, "A", n)
		if !ok {
			panic(ai.Undecided{Msg: "no place for items inside the container", Pos: fn.Pos()})
		}
		st.Ghost["self"] = self
		f(x, st, self)
		if x.ok {
			c.R.OK(rule, key, c.P.Pos(fn.Pos()))
		}
	})
}

func (c *Ctx) seqCompare(T, O types.Type, op, class, key string) {
	rule := "equal"
	if op == "Less" {
		rule = "less"
	}
	c.seqRun(T, op, rule, key, func(x *seqEq, st *ai.State, self ai.Val) {
		in := x.in
		x.class = class
		n, m := x.n["A"], x.n["A"]
		want := false
		x.p = ai.K(-1)
		switch class {
		case "shorter", "longer":
			m = in.NewAtom("m")
			st.AddLe(m.Neg())
			if class == "shorter" {
				st.AddLe(n.AddK(1).Sub(m))
				want = op == "Less"
			} else {
				st.AddLe(m.AddK(1).Sub(n))
			}
		case "equal":
			want = op == "Equals"
		default:
			x.p = in.NewAtom("p")
			st.AddLe(x.p.Neg())
			st.AddLe(x.p.AddK(1).Sub(n))
			want = class == "before"
		}
		if class == "shorter" || class == "longer" {
			x.class = "differ"
		}
		st.Ghost["m"], st.Ghost["p"] = ai.Int{L: m}, ai.Int{L: x.p}
		x.n["B"] = m
		var other ai.Val
		if O == nil {
			x.unk = in.NewSym(c.unknownContainer(), "other container")
			in.Rigid[x.unk.ID] = true
			st.NonNil(x.unk)
			other = x.unk
		} else {
			v, ok := x.build(st, O, "B", m)
			if !ok {
				panic(ai.Undecided{Msg: "no place for items inside the container", Pos: x.fn.Pos()})
			}
			other = ai.Iface{T: O, V: v}
		}
		st.Ghost["other"] = other
		in.H.Call = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			if ci.Method != nil {
				if o, ok := x.compare(st, ci); ok {
					return o, true
				}
			}
			return x.foreign(st, ci)
		}
		for _, o := range c.callM(in, st, T, self, op, other) {
			if o.Panic != nil {
				x.bad(o.St, o.Panic.Pos, "may crash: %s", o.Panic.Msg)
				continue
			}
			b, ok := o.St.Resolve(o.Rets[0]).(ai.Bool)
			if !ok {
				panic(ai.Undecided{Msg: "answer", Pos: x.fn.Pos()})
			}
			y, no := o.St.Branch(b.C)
			if want && no != nil {
				x.bad(no, token.NoPos, "may answer false")
			}
			if !want && y != nil {
				x.bad(y, token.NoPos, "may answer true")
			}
		}
	})
}

// unknownContainer is an interface that combines what the operands of a comparison can be asked for.
func (c *Ctx) unknownContainer() types.Type {
	return types.NewInterfaceType(nil, []types.Type{c.P.Named("types", "IterableContainer"), c.P.Named("types", "Hashable")}).Complete()
}

// shape renders a value as a function of one item, and tells the item's position.
func (x *seqEq) shape(st *ai.State, v ai.Val) (string, *ai.Lin) {
	var at *ai.Lin
	var lin func(l ai.Lin) string
	var val func(v ai.Val) string
	sym := func(id int) string {
		i := x.in.Info(id)
		if i == nil || i.Op == "" {
			return fmt.Sprintf("?%d", id)
		}
		if i.Op == "A" {
			l := intv(i.Args[0])
			if at != nil && !st.EqLin(*at, l) {
				return "?"
			}
			at = &l
			return "item"
		}
		s := i.Op
		if i.Op == "conv" && i.T != nil {
			s = i.T.String()
		}
		var as []string
		for _, a := range i.Args {
			as = append(as, val(a))
		}
		return s + "(" + strings.Join(as, ",") + ")"
	}
	lin = func(l ai.Lin) string {
		var s []string
		for _, t := range l.T {
			s = append(s, fmt.Sprintf("%v*%s", t.K, sym(t.A)))
		}
		sort.Strings(s)
		return strings.Join(append(s, fmt.Sprint(l.C)), "+")
	}
	val = func(v ai.Val) string {
		switch y := st.Resolve(v).(type) {
		case ai.Int:
			return lin(y.L)
		case ai.Sym:
			return sym(y.ID)
		}
		return st.Show(v)
	}
	return val(v), at
}

// seqHash follows what is fed into the hash: the bytes of item k as the k-th piece.
func (c *Ctx) seqHash(T types.Type, key string, sigs map[string]bool) {
	c.seqRun(T, "Hash", "hash", key, func(x *seqEq, st *ai.State, self ai.Val) {
		in := x.in
		st.Ghost["fed"] = ai.Int{L: ai.K(0)}
		st.Ghost["filled"] = ai.Int{L: ai.K(-1)}
		in.H.OnStore = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
			if b, ok := st.Ghost["buffer"].(ai.Slice); ok && b.Arr == p.O {
				st.Ghost["filled"] = ai.Int{L: ai.K(-2)}
			}
		}
		st.Ghost["buffer"] = ai.Nil{}
		fill := func(st *ai.State, ci *ai.CallInfo, b, v ai.Val) {
			s, at := x.shape(st, v)
			buf, ok := st.Resolve(b).(ai.Slice)
			if !ok || at == nil {
				x.bad(st, ci.Pos, "feeds %s, which is not made of an item", st.Show(v))
				return
			}
			sigs["as "+ci.Fn.Name()+" of "+s] = true
			st.Ghost["filled"] = ai.Int{L: *at}
			st.Ghost["buffer"] = buf
		}
		in.H.Call = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
			ret := func(v ...ai.Val) ([]ai.Outcome, bool) { return []ai.Outcome{{St: st, Rets: v}}, true }
			if ci.Fn != nil {
				name := ci.Fn.String()
				switch {
				case strings.HasPrefix(name, "hash/fnv.New"):
					if _, ok := st.Ghost["digest"]; ok {
						panic(ai.Undecided{Msg: "two hashes", Pos: ci.Pos})
					}
					d := in.NewSym(ci.Sig.Results().At(0).Type(), "digest")
					in.Rigid[d.ID] = true
					st.NonNil(d)
					st.Ghost["digest"] = d
					sigs[name] = true
					return ret(d)
				case strings.HasPrefix(name, "(encoding/binary.") && strings.HasPrefix(ci.Fn.Name(), "PutUint") && len(ci.Args) == 3:
					fill(st, ci, ci.Args[1], ci.Args[2])
					if b, ok := st.Resolve(ci.Args[1]).(ai.Slice); ok && !st.Le(ai.K(4), b.Len) {
						x.bad(st, ci.Pos, "the buffer may be too short")
					}
					sigs[name] = true
					return ret()
				}
				return nil, false
			}
			if ci.Method != nil && st.Ghost["digest"] != nil && sameVal(st, ci.Recv, st.Ghost["digest"]) {
				fed := intv(st.Ghost["fed"])
				switch ci.Method.Name() {
				case "Write":
					b, ok1 := st.Resolve(ci.Args[0]).(ai.Slice)
					f, ok2 := st.Ghost["buffer"].(ai.Slice)
					if !ok1 || !ok2 || !sameVal(st, b, f) || !st.EqLin(intv(st.Ghost["filled"]), fed) {
						x.bad(st, ci.Pos, "piece %s is not the bytes of the item at that position", st.Show(ai.Int{L: fed}))
					} else {
						sigs["pieces of "+st.Show(ai.Int{L: b.Len})] = true
					}
					st.Ghost["fed"] = ai.Int{L: fed.AddK(1)}
					return ret(ai.Int{L: ai.K(4)}, ai.Nil{})
				case "Sum32", "Sum64":
					if !st.EqLin(fed, x.n["A"]) {
						x.bad(st, ci.Pos, "not every item is part of the hash: %s of %s", st.Show(ai.Int{L: fed}), st.Show(ai.Int{L: x.n["A"]}))
					}
					return ret(in.App(st, ci.Method.Name(), ci.Sig.Results().At(0).Type(), st.Ghost["digest"]))
				}
			}
			return nil, false
		}
		for _, o := range c.callM(in, st, T, self, "Hash") {
			if o.Panic != nil {
				x.bad(o.St, o.Panic.Pos, "may crash: %s", o.Panic.Msg)
				continue
			}
			s, at := x.shape(o.St, o.Rets[0])
			if at != nil || !strings.Contains(s, "Sum") {
				x.bad(o.St, token.NoPos, "the answer is not the hash of the items: %s", s)
				continue
			}
			if d, ok := o.St.Ghost["digest"].(ai.Sym); ok {
				s = strings.ReplaceAll(s, fmt.Sprintf("?%d", d.ID), "all")
			}
			sigs["answer "+s] = true
		}
	})
}
