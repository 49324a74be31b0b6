package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

// outcome is one way a call can end.
type outcome struct {
	dirt uint64 // which parameters' memory may have been written
	err  errClass
	same string // "result=parameter" facts
}

const (
	dirtCaptured = uint64(1) << 63
	dirtGlobal   = uint64(1) << 62
)

type outcomeInfo struct {
	pos   token.Pos // where the error is returned
	wrote token.Pos // the first write on the way
	steps []string
}

// atomicFlow computes for every function whether it has written to its arguments' memory when it reports an error.
type atomicFlow struct {
	*errFlow
	memo     map[*ssa.Function]map[outcome]*outcomeInfo
	busy     map[*ssa.Function]bool
	visited  map[*ssa.Function]bool
	changed  bool
	retMemo  map[string]uint64
	internal map[*ssa.Function]bool // constructors of "this cannot happen" errors
	impls    map[string][]*ssa.Function
	modelled map[*ssa.Function]bool // wrappers decided against models of their parts
	segs     int
}

type atomicPath struct {
	errPath
	dirt  uint64
	wrote token.Pos
	pend  map[*ssa.Call]errClass
	same  map[*ssa.Call]string
	alias map[ssa.Value]ssa.Value
	nils  map[ssa.Value]bool
}

func (p *atomicPath) clone() *atomicPath {
	q := *p
	q.errPath = *p.errPath.clone()
	q.pend = map[*ssa.Call]errClass{}
	for k, v := range p.pend {
		q.pend[k] = v
	}
	q.same = map[*ssa.Call]string{}
	for k, v := range p.same {
		q.same[k] = v
	}
	q.alias = map[ssa.Value]ssa.Value{}
	for k, v := range p.alias {
		q.alias[k] = v
	}
	q.nils = map[ssa.Value]bool{}
	for k, v := range p.nils {
		q.nils[k] = v
	}
	return &q
}

func (p *atomicPath) key() string {
	var s []string
	for c, v := range p.pend {
		s = append(s, fmt.Sprintf("%s~%d", c.Name(), v))
	}
	for c, v := range p.same {
		s = append(s, c.Name()+"~"+v)
	}
	for c, v := range p.alias {
		s = append(s, c.Name()+"~"+v.Name())
	}
	for c, v := range p.nils {
		s = append(s, fmt.Sprint(c.Name(), "?", v))
	}
	sort.Strings(s)
	return p.errPath.key() + fmt.Sprint(p.dirt, s)
}

func (a *atomicFlow) outcomes(fn *ssa.Function) map[outcome]*outcomeInfo {
	if a.busy[fn] || a.visited[fn] {
		return a.memo[fn]
	}
	a.busy[fn] = true
	a.visited[fn] = true
	out := a.walkAtomic(fn)
	old := a.memo[fn]
	if old == nil {
		old = map[outcome]*outcomeInfo{}
		a.memo[fn] = old
	}
	for k, v := range out {
		if old[k] == nil {
			old[k] = v
			a.changed = true
		}
	}
	a.busy[fn] = false
	return old
}

// solve repeats until the summaries of recursive functions are stable.
func (a *atomicFlow) solve(fn *ssa.Function) map[outcome]*outcomeInfo {
	for i := 0; i < 20; i++ {
		a.changed = false
		a.visited = map[*ssa.Function]bool{}
		r := a.outcomes(fn)
		if !a.changed {
			return r
		}
	}
	panic(ai.Undecided{Msg: "summaries do not stabilise", Pos: fn.Pos()})
}

// roots says whose memory v may point into.
func (a *atomicFlow) roots(v ssa.Value, seen map[ssa.Value]bool) uint64 {
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				if i > 60 {
					return dirtGlobal
				}
				return 1 << i
			}
		}
	case *ssa.FreeVar:
		return dirtCaptured
	case *ssa.Global:
		return dirtGlobal
	case *ssa.FieldAddr:
		return a.roots(x.X, seen)
	case *ssa.IndexAddr:
		return a.roots(x.X, seen)
	case *ssa.Field:
		return a.roots(x.X, seen)
	case *ssa.Index:
		return a.roots(x.X, seen)
	case *ssa.Slice:
		return a.roots(x.X, seen)
	case *ssa.ChangeType:
		return a.roots(x.X, seen)
	case *ssa.Convert:
		return a.roots(x.X, seen)
	case *ssa.ChangeInterface:
		return a.roots(x.X, seen)
	case *ssa.MakeInterface:
		return a.roots(x.X, seen)
	case *ssa.TypeAssert:
		return a.roots(x.X, seen)
	case *ssa.Lookup:
		return a.roots(x.X, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.callRoots(c, x.Index, seen)
		}
		return a.roots(x.Tuple, seen)
	case *ssa.Call:
		return a.callRoots(x, 0, seen)
	case *ssa.Phi:
		var r uint64
		for _, w := range x.Edges {
			r |= a.roots(w, seen)
		}
		return r
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return 0
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			var r uint64
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					r |= a.roots(st.Val, seen)
				}
			}
			return r
		}
		return a.roots(x.X, seen)
	}
	return 0
}

func (a *atomicFlow) callRoots(c *ssa.Call, idx int, seen map[ssa.Value]bool) uint64 {
	args := c.Call.Args
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return a.roots(args[0], seen)
		}
		return 0
	}
	if c.Call.IsInvoke() {
		return a.roots(c.Call.Value, seen)
	}
	fns := a.callees(&c.Call)
	if len(fns) == 1 && fns[0] != nil && len(fns[0].Blocks) > 0 && a.c.P.InRepo(fns[0]) {
		var r uint64
		m := a.retRoots(fns[0], idx)
		for i := range args {
			if m&(1<<uint(i)) != 0 {
				r |= a.roots(args[i], seen)
			}
		}
		return r | m&(dirtCaptured|dirtGlobal)
	}
	var r uint64
	for _, x := range args {
		r |= a.roots(x, seen)
	}
	return r
}

func (a *atomicFlow) retRoots(fn *ssa.Function, idx int) uint64 {
	k := fmt.Sprintf("%p.%d", fn, idx)
	if r, ok := a.retMemo[k]; ok {
		return r
	}
	a.retMemo[k] = 0
	for {
		var r uint64
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
				r |= a.roots(ret.Results[idx], map[ssa.Value]bool{})
			}
		}
		if r|a.retMemo[k] == a.retMemo[k] {
			return a.retMemo[k]
		}
		a.retMemo[k] |= r
	}
}

// place renders the location an address denotes, in terms of values that do not change on the path.
func (p *atomicPath) place(v ssa.Value) string {
	if w, ok := p.alias[v]; ok {
		return p.place(w)
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", p.place(x.X), x.Field)
	case *ssa.IndexAddr:
		return p.place(x.X) + "[" + p.place(x.Index) + "]"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + p.place(x.X)
		}
	case *ssa.Const:
		return x.String()
	}
	return v.Name()
}

func (a *atomicFlow) implementers(c *ssa.CallCommon) []*ssa.Function {
	k := c.Method.FullName() + "@" + c.Value.Type().String()
	if r, ok := a.impls[k]; ok {
		return r
	}
	var out []*ssa.Function
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	var names []string
	for rel := range a.c.P.Pkgs {
		names = append(names, rel)
	}
	sort.Strings(names)
	for _, rel := range names {
		sc := a.c.P.Pkgs[rel].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, T := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if it != nil && types.Implements(T, it) {
					if sel := a.c.P.SSA.MethodSets.MethodSet(T).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
						out = append(out, a.c.P.SSA.MethodValue(sel))
					}
					break
				}
			}
		}
	}
	a.impls[k] = out
	return out
}

func (a *atomicFlow) walkAtomic(fn *ssa.Function) map[outcome]*outcomeInfo {
	res := map[outcome]*outcomeInfo{}
	ri := errResult(fn.Signature)
	start := &atomicPath{errPath: errPath{blk: fn.Blocks[0], vals: map[ssa.Value]errClass{}, bools: map[ssa.Value]bool{}, cells: map[*ssa.Alloc]errClass{}},
		pend: map[*ssa.Call]errClass{}, same: map[*ssa.Call]string{}, alias: map[ssa.Value]ssa.Value{}, nils: map[ssa.Value]bool{}}
	visited := map[string]bool{}
	work := []*atomicPath{start}
	write := func(p *atomicPath, d uint64, pos token.Pos) {
		if d != 0 && p.dirt|d != p.dirt {
			p.wrote = pos
		}
		p.dirt |= d
	}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		k := p.key()
		if visited[k] {
			continue
		}
		visited[k] = true
		if a.segs++; a.segs > 3000000 {
			panic(ai.Undecided{Msg: "too many paths", Pos: fn.Pos()})
		}
		done := false
		var phis []*ssa.Phi
		var pv []errClass
		var pb []int
		var pa []ssa.Value
		flush := func() {
			for i, ph := range phis {
				delete(p.vals, ph)
				delete(p.bools, ph)
				delete(p.alias, ph)
				if isErrorType(ph.Type()) {
					p.vals[ph] = pv[i]
				}
				if pb[i] != 0 {
					p.bools[ph] = pb[i] == 2
				}
				if pa[i] != nil && pa[i] != ssa.Value(ph) {
					p.alias[ph] = pa[i]
				}
			}
			phis, pv, pb, pa = nil, nil, nil, nil
		}
		for ; p.at < len(p.blk.Instrs) && !done; p.at++ {
			in := p.blk.Instrs[p.at]
			if ph, ok := in.(*ssa.Phi); ok {
				var w ssa.Value
				for i, q := range p.blk.Preds {
					if q == p.prev {
						w = ph.Edges[i]
					}
				}
				bl := 0
				if b, known := constBool(&p.errPath, w); known {
					bl = 1
					if b {
						bl = 2
					}
				}
				al := w
				if y, ok := p.alias[w]; ok {
					al = y
				}
				if _, isParam := al.(*ssa.Parameter); !isParam {
					if _, isLoad := al.(*ssa.UnOp); !isLoad {
						al = nil
					}
				}
				cl := errOther
				if isErrorType(ph.Type()) {
					cl = a.class(&p.errPath, w)
				}
				phis, pv, pb, pa = append(phis, ph), append(pv, cl), append(pb, bl), append(pa, al)
				continue
			}
			flush()
			if v, ok := in.(ssa.Value); ok {
				delete(p.vals, v)
				delete(p.bools, v)
				delete(p.alias, v)
				delete(p.nils, v)
			}
			switch x := in.(type) {
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					if cl, ok := p.pend[c]; ok && x.Index == errResult(c.Call.Signature()) {
						p.vals[x] = cl
					}
					if j := sameParam(p.same[c], x.Index); j >= 0 && j < len(c.Call.Args) {
						p.alias[x] = c.Call.Args[j]
						if y, ok := p.alias[c.Call.Args[j]]; ok {
							p.alias[x] = y
						}
					}
				}
			case *ssa.UnOp:
				if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && isErrorType(x.Type()) {
					if c, ok := p.cells[al]; ok {
						p.vals[x] = c
					}
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					if isErrorType(x.Val.Type()) {
						p.cells[al] = a.class(&p.errPath, x.Val)
					}
					break
				}
				if _, ok := x.Addr.(*ssa.FreeVar); ok {
					break // a local variable of the enclosing function
				}
				if p.dirt == 0 && p.place(x.Val) == "*"+p.place(x.Addr) {
					break // puts back what is there
				}
				write(p, a.roots(x.Addr, map[ssa.Value]bool{}), x.Pos())
			case *ssa.MapUpdate:
				write(p, a.roots(x.Map, map[ssa.Value]bool{}), x.Pos())
			case *ssa.Call:
				done = a.stepCall(p, x, &work, write)
			case *ssa.Go, *ssa.Defer:
			case *ssa.BinOp:
				if x.Op == token.EQL || x.Op == token.NEQ {
					v := ssa.Value(nil)
					if k, ok := x.Y.(*ssa.Const); ok && k.IsNil() {
						v = x.X
					} else if k, ok := x.X.(*ssa.Const); ok && k.IsNil() {
						v = x.Y
					}
					if v != nil && isErrorType(v.Type()) {
						switch a.class(&p.errPath, v) {
						case errSet:
							p.bools[x] = x.Op == token.NEQ
						case errNil:
							p.bools[x] = x.Op == token.EQL
						}
					}
				}
			case *ssa.Panic:
				done = true
			case *ssa.Return:
				done = true
				o := outcome{dirt: p.dirt}
				var same []string
				for i, v := range x.Results {
					w := v
					if y, ok := p.alias[v]; ok {
						w = y
					}
					for j, q := range fn.Params {
						if w == ssa.Value(q) {
							same = append(same, fmt.Sprintf("%d=%d", i, j))
						} else if k, ok := w.(*ssa.Const); ok && k.IsNil() && p.nils[q] && types.Identical(q.Type(), v.Type()) {
							same = append(same, fmt.Sprintf("%d=%d", i, j))
						}
					}
				}
				o.same = strings.Join(same, ",")
				errs := []errClass{errNil}
				if ri >= 0 {
					ev := x.Results[ri]
					switch cl := a.class(&p.errPath, ev); cl {
					case errNil:
					case errSet:
						errs = []errClass{errSet}
						if a.isInternal(ev, map[ssa.Value]bool{}) {
							errs = nil
						}
					default:
						errs = []errClass{errNil, errSet}
					}
				}
				for _, cl := range errs {
					q := o
					q.err = cl
					if res[q] == nil {
						res[q] = &outcomeInfo{pos: x.Pos(), wrote: p.wrote, steps: p.steps}
					}
				}
			case *ssa.Jump:
				q := p.clone()
				q.prev, q.blk, q.at = p.blk, p.blk.Succs[0], 0
				work = append(work, q)
				done = true
			case *ssa.If:
				b, known := constBool(&p.errPath, x.Cond)
				if bo, ok := x.Cond.(*ssa.BinOp); ok && !known {
					if k, isK := bo.Y.(*ssa.Const); isK && k.IsNil() {
						if n, ok := p.nils[bo.X]; ok {
							b, known = n == (bo.Op == token.EQL), true
						}
					}
				}
				for i := 0; i < 2; i++ {
					if known && b != (i == 0) {
						continue
					}
					q := p.clone()
					q.prev, q.blk, q.at = p.blk, p.blk.Succs[i], 0
					if len(q.steps) < 14 {
						q.steps = append(q.steps, fmt.Sprintf("%s: %v", a.c.P.Pos(x.Cond.Pos()), i == 0))
					}
					if bo, ok := x.Cond.(*ssa.BinOp); ok && !known {
						if k, isK := bo.Y.(*ssa.Const); isK && k.IsNil() && (bo.Op == token.NEQ || bo.Op == token.EQL) {
							if isErrorType(bo.X.Type()) {
								q.vals[bo.X] = errNil
								if (bo.Op == token.NEQ) == (i == 0) {
									q.vals[bo.X] = errSet
								}
							} else {
								q.nils[bo.X] = (bo.Op == token.EQL) == (i == 0)
							}
						}
					}
					if !known {
						q.bools[x.Cond] = i == 0
					}
					work = append(work, q)
				}
				done = true
			}
		}
	}
	return res
}

func sameParam(s string, i int) int {
	for _, f := range strings.Split(s, ",") {
		var a, b int
		if n, _ := fmt.Sscanf(f, "%d=%d", &a, &b); n == 2 && a == i {
			return b
		}
	}
	return -1
}

// isInternal: an error made by a constructor used for broken invariants only.
func (a *atomicFlow) isInternal(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && a.internal[f]
	case *ssa.MakeInterface:
		return a.isInternal(x.X, seen)
	case *ssa.Phi:
		for _, w := range x.Edges {
			if !a.isInternal(w, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *atomicFlow) stepCall(p *atomicPath, x *ssa.Call, work *[]*atomicPath, write func(*atomicPath, uint64, token.Pos)) bool {
	delete(p.pend, x)
	delete(p.same, x)
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "delete", "clear":
			write(p, a.roots(cc.Args[0], map[ssa.Value]bool{}), x.Pos())
		}
		return false
	}
	if a.noReturn(cc) {
		return true
	}
	idx := errResult(cc.Signature())
	var outs map[outcome]*outcomeInfo
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
		outs = map[outcome]*outcomeInfo{}
		for _, f := range a.implementers(cc) {
			if f == nil || len(f.Blocks) == 0 || a.modelled[f] {
				continue
			}
			for o, i := range a.outcomes(f) {
				o.same = ""
				outs[o] = i
			}
		}
	} else {
		args = cc.Args
		fns := a.callees(cc)
		if len(fns) == 1 && fns[0] != nil && len(fns[0].Blocks) > 0 && a.c.P.InRepo(fns[0]) {
			outs = a.outcomes(fns[0])
			if len(outs) == 0 && (a.busy[fns[0]]) {
				return true // recursion: nothing known to return yet
			}
			if len(outs) == 0 {
				return true // never returns
			}
		}
	}
	if len(outs) == 0 {
		// unknown code: pure, and may fail
		outs = map[outcome]*outcomeInfo{{err: errNil}: nil}
		if idx >= 0 {
			if !a.isSet(x, map[ssa.Value]bool{}) {
				outs[outcome{err: errSet}] = nil
			} else {
				outs = map[outcome]*outcomeInfo{{err: errSet}: nil}
			}
		}
	}
	var keys []outcome
	for o := range outs {
		keys = append(keys, o)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].dirt != keys[j].dirt {
			return keys[i].dirt < keys[j].dirt
		}
		if keys[i].err != keys[j].err {
			return keys[i].err < keys[j].err
		}
		return keys[i].same < keys[j].same
	})
	for _, o := range keys {
		q := p.clone()
		var d uint64
		for i, v := range args {
			if i < 62 && o.dirt&(1<<uint(i)) != 0 {
				d |= a.roots(v, map[ssa.Value]bool{})
			}
		}
		if o.dirt&dirtGlobal != 0 {
			d |= dirtGlobal
		}
		if o.dirt&dirtCaptured != 0 {
			// memory of the enclosing operation
			if m, ok := cc.Value.(*ssa.MakeClosure); ok {
				for _, b := range m.Bindings {
					if al, ok := b.(*ssa.Alloc); ok {
						for _, ref := range *al.Referrers() {
							if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
								d |= a.roots(st.Val, map[ssa.Value]bool{})
							}
						}
					} else {
						d |= a.roots(b, map[ssa.Value]bool{})
					}
				}
			} else {
				d |= 1 | dirtCaptured
			}
		}
		write(q, d, x.Pos())
		if idx >= 0 {
			q.pend[x] = o.err
			if cc.Signature().Results().Len() == 1 {
				q.vals[x] = o.err
			}
		}
		if o.same != "" {
			q.same[x] = o.same
			if j := sameParam(o.same, 0); j >= 0 && cc.Signature().Results().Len() == 1 {
				q.alias[x] = args[j]
			}
		}
		q.at++
		*work = append(*work, q)
	}
	return true
}

// Operations on a single item, by the name of the method.
var atomicNames = map[string]bool{
	"Put": true, "Add": true, "Set": true, "Insert": true, "Append": true, "Push": true, "Pop": true, "Remove": true, "Delete": true,
	"EnqueFront": true, "EnqueBack": true, "DequeFront": true, "DequeBack": true, "Replace": true, "RemoveWhere": true, "Get": true, "Item": true,
}

func init() {
	registerClient("C32", "Single-item operations that can report an error. Array-backed containers: abstract interpretation of the operation on an unknown container observed at an arbitrary index. Node-based containers: path-sensitive effect analysis with per-function summaries (memory written so far x error reported).", iterClient, func(c *Ctx) {
		c.R.Rule("unchanged", "when the operation reports an error, size and every item are as before")
		c.R.Rule("no-write", "no path that reports an error has written to memory reachable from the container, other than putting back what was there")
		c.R.Assume("errors made by errors.BpTreeError and errors.TSTError report broken internal invariants and do not occur (C07, C18)")
		a := c.newAtomic()
		c.atomicLists(a)
		c.atomicNodes(a)
		// adapters and unique queues: their parts are replaced by models
		c.mapSet("unchanged", true)
		c.setMap("unchanged", true)
		c.uniqueQueues("unchanged", true)
		c.R.Floor("cases", 40)
	})
}

// the sequence containers, observed through Size and Get
func (c *Ctx) atomicLists(a *atomicFlow) {
	type op struct {
		name      string
		idx, item bool
	}
	ops := []op{{"Insert", true, true}, {"Append", false, true}, {"Push", false, true}, {"Set", true, true}, {"Remove", true, false}, {"Pop", false, false}, {"Add", false, true}, {"Delete", false, true}}
	for _, k := range [][2]string{{"list", "List"}, {"list", "Sorted"}, {"set", "SortedSet"}} {
		N := c.P.Named(k[0], k[1])
		if N == nil {
			c.R.Fail("anchor", k[0]+"."+k[1], "", "anchor not found in the tree")
			continue
		}
		for _, op := range ops {
			fn := c.P.M(k[0], k[1], op.name)
			if fn == nil {
				continue
			}
			key := k[0] + "." + k[1] + "." + op.name
			c.R.Count("operations", 1)
			c.Guard("unchanged", key, fn.Pos(), func() {
				in, st, T, self := c.listInterp(k[0], k[1])
				in.H.Call = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
					if ci.Fn != nil && ci.Fn != fn && a.pureLoop(ci.Fn) {
						return in.FreshCall(st, ci), true
					}
					return c.errorsHook(st, ci)
				}
				defer c.Done(in)
				for _, p := range c.seqPreStates(in, T, k[1], st, self) {
					var args []ai.Val
					if op.idx {
						args = append(args, ai.Int{L: in.NewAtom("i")})
					}
					if op.item {
						item := in.NewSym(c.hashable(), "item")
						p.st.NonNil(item)
						args = append(args, item)
					}
					for _, o := range c.callM(in, p.st.Clone(), T, self, op.name, args...) {
						if o.Panic != nil {
							continue // C10
						}
						if isNil(o.St, o.Rets[len(o.Rets)-1]) == ai.T {
							continue
						}
						c.R.Count("failing paths", 1)
						c.expectSeq(p, o.St, "unchanged", key, fn, p.n, nil, func(s *ai.State, _ []bool) ai.Val { return p.at[1] })
					}
				}
			})
		}
	}
}

func (c *Ctx) newAtomic() *atomicFlow {
	e := &errFlow{c: c, setMemo: map[*ssa.Function]int{}, nilMemo: map[*ssa.Function]int{}, tables: map[*ssa.Global][]*ssa.Function{}, memo: map[string]*walked{}}
	a := &atomicFlow{errFlow: e, memo: map[*ssa.Function]map[outcome]*outcomeInfo{}, busy: map[*ssa.Function]bool{}, retMemo: map[string]uint64{}, internal: map[*ssa.Function]bool{}, impls: map[string][]*ssa.Function{}, modelled: map[*ssa.Function]bool{}}
	for _, n := range []string{"BpTreeError", "TSTError"} {
		if f := c.P.Func("errors", n); f != nil {
			a.internal[f] = true
		}
	}
	if f := c.P.M("set", "MapSet", "Put"); f != nil {
		a.modelled[f] = true
	}
	return a
}

// pureLoop: a function that searches, without writing to anything that outlives the call. Whatever it answers is possible.
func (a *atomicFlow) pureLoop(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || !a.c.P.InRepo(fn) || len(fn.FreeVars) > 0 {
		return false
	}
	loop := false
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			loop = loop || s.Dominates(b)
		}
	}
	if !loop {
		return false
	}
	for o := range a.solve(fn) {
		if o.dirt != 0 {
			return false
		}
	}
	return true
}

func (c *Ctx) atomicNodes(a *atomicFlow) {
	n := 0
	for _, k := range [][2]string{{"linked", "LinkedList"}, {"hashtable", "Hash"}, {"hashtable", "LinearHash"}, {"tree/avl", "AvlTree"}, {"tree/avl", "ImmutableAvlTree"}, {"tree/avl", "AvlNode"}, {"tree/avl", "ImmutableAvlNode"}, {"trie", "TST"}, {"tree/bptree", "BpTree"}, {"tree/bptree", "BpMap"}, {"set", "SetMap"}} {
		N := c.P.Named(k[0], k[1])
		if N == nil {
			c.R.Fail("anchor", k[0]+"."+k[1], "", "anchor not found in the tree")
			continue
		}
		ms := c.P.SSA.MethodSets.MethodSet(types.NewPointer(N))
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i)
			if !atomicNames[m.Obj().Name()] || errResult(m.Obj().Type().(*types.Signature)) < 0 {
				continue
			}
			fn := c.P.SSA.MethodValue(m)
			if fn == nil || len(fn.Blocks) == 0 {
				continue
			}
			key := k[0] + "." + k[1] + "." + m.Obj().Name()
			c.R.Count("operations", 1)
			c.Guard("no-write", key, fn.Pos(), func() {
				ok := true
				for o, i := range a.solve(fn) {
					if o.err == errSet {
						n++
					}
					if o.err == errSet && o.dirt&(1|dirtCaptured) != 0 {
						ok = false
						c.R.Fail("no-write", key, c.P.Pos(i.pos), "reports an error after the write at "+c.P.Pos(i.wrote), i.steps...)
					}
				}
				if ok {
					c.R.OK("no-write", key, c.P.Pos(fn.Pos()))
				}
			})
		}
	}
	c.R.Count("failing paths", n)
	c.R.Count("summarised functions", len(a.memo))
	c.R.Count("path segments", a.segs)
	c.R.Floor("operations", 30)
	c.R.Floor("failing paths", 15)
}
