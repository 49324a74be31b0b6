package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"dsv/ai"

	"golang.org/x/tools/go/ssa"
)

var lockRules = map[string]string{
	"guarded":      "every field of the pool written after construction is read and written only while holding its lock (exclusively for writes)",
	"balance":      "every lock is released exactly once, in the way it was taken, on every path; waiting on a condition holds its lock",
	"double-lock":  "no path acquires a lock it already holds",
	"lock-order":   "locks are acquired in one order everywhere",
	"blocking":     "nothing waits while holding a lock that the goroutine it waits for needs",
	"job-unlocked": "jobs are called with no pool lock held",
}

var jobRules = map[string]string{
	"accept":   "Do hands the job to exactly one current worker and reports success, or reports an error and hands it to none; it reports an error only when there are no workers",
	"send":     "a job is sent only while workers cannot be removed, to a current worker, after it was counted",
	"run":      "a worker runs each received job exactly once, then lowers the count once, then wakes the waiters, until its channel is closed",
	"start":    "every worker in the pool has its goroutine, counted in the wait group before it is started",
	"stop":     "Stop takes the workers away under the exclusive lock, closes each of their channels once and waits for the workers before every return",
	"wait":     "WaitLock returns only with no job counted as unfinished and both locks held; WaitCount returns the current count",
	"no-crash": "no path can panic",
}

type poolModel struct {
	*syncModel
	pool     int // object id
	poolT    *types.Named
	ptrT     types.Type
	tmpl     map[string]ai.Struct // object templates by type
	tmplSt   *ai.State
	goSites  []*goSite
	base     *ai.State
	workersF int // field index
	K        int // counter field index, -1 unknown
	workerT  types.Type
	owner    map[int]int // channel symbol -> worker object
	t        ai.Lin
	started  bool // constructor: a goroutine is running
	stores   map[string]map[int]bool
	job      ai.Val
	workerFn string
	probe    string // where the arbitrary position t lies in the list of workers
}

type goSite struct {
	fn   ai.Func
	args []ai.Val
	st   *ai.State
	pos  token.Pos
	name string
}

func (c *Ctx) poolCheck(id string) {
	rules := map[string]bool{}
	for r, t := range lockRules {
		rules[r] = true
		c.R.Rule(r, t)
	}
	if id == "C28" {
		for r, t := range jobRules {
			rules[r] = true
			c.R.Rule(r, t)
		}
	}
	newFn := c.NeedFunc("pool", "New")
	if newFn == nil {
		return
	}
	for _, n := range []string{"Do", "Stop", "WaitLock", "Unlock", "WaitCount"} {
		if c.Need("pool", "Pool", n) == nil {
			return
		}
	}
	c.R.Assume("jobs return normally (a panicking job ends the program) and are not nil; New is called with a non-negative number of workers")
	c.R.Assume("package sync behaves as documented")
	c.Guard("guarded", "pool", newFn.Pos(), func() {
		p1 := c.poolPhase(id, newFn, rules, 1, nil, -1)
		if p1 == nil {
			return
		}
		g := p1.inferGuards(false)
		p2 := c.poolPhase(id, newFn, rules, 2, g, p1.K)
		if p2 == nil {
			return
		}
		p2.inferGuards(true)
		p2.lockOrder()
		for _, s := range p2.goSites {
			p2.blocking(s.name)
		}
		c.R.Floor("goroutine bodies", 1)
		c.R.Floor("guarded fields", 2)
		c.R.Floor("operations", 5)
		c.R.Floor("lock order pairs", 1)
	})
}

func (c *Ctx) poolPhase(id string, newFn *ssa.Function, rules map[string]bool, phase int, guards map[string]string, K int) *poolModel {
	N := c.P.Named("pool", "Pool")
	in := c.Interp()
	m := &poolModel{syncModel: &syncModel{c: c, rules: rules, in: in, shared: map[int]bool{}, names: map[string]string{}, acc: map[string][]access{},
		guards: guards, edges: map[string]map[string]token.Pos{}, needs: map[string]map[string]bool{}, phase: phase},
		poolT: N, ptrT: types.NewPointer(N), tmpl: map[string]ai.Struct{}, pool: -1, K: K, owner: map[int]int{}, stores: map[string]map[int]bool{}}
	if phase == 1 {
		m.rules = map[string]bool{}
	}
	m.hooks()
	st := in.NewState()
	m.t = in.NewAtom("t")
	st.AddLe(m.t.Neg())
	n := in.NewAtom("n")
	st.AddLe(n.Neg())
	m.resetGhost(st)
	m.where, m.ctor = "New", true
	outs := call(in, st, newFn, ai.Int{L: n})
	m.ctor = false
	var base *ai.State
	var lens []*ai.State
	for _, o := range outs {
		if o.Panic != nil {
			m.fail("no-crash", "pool.New", o.Panic.Pos, o.Panic.Msg, o.St)
			continue
		}
		p, ok := o.St.Resolve(o.Rets[0]).(ai.Ptr)
		if !ok {
			panic(ai.Undecided{Msg: "New does not return a pool it made", Pos: newFn.Pos()})
		}
		m.pool = p.O
		base = o.St
		lens = append(lens, o.St)
		m.check(len(locksOf(o.St)) == 0, "balance", "pool.New", newFn.Pos(), "returns holding "+locksOf(o.St).String(), o.St)
	}
	if base == nil || len(m.goSites) == 0 {
		m.c.R.Fail("guarded", "pool.New", c.P.Pos(newFn.Pos()), "the constructor starts no worker goroutine")
		return nil
	}
	// which field holds the workers
	S := N.Underlying().(*types.Struct)
	m.workersF = -1
	for i := 0; i < S.NumFields(); i++ {
		if sl, ok := S.Field(i).Type().Underlying().(*types.Slice); ok {
			for _, g := range m.goSites {
				for _, o := range m.given(g) {
					if types.Identical(types.NewPointer(g.st.Obj(o).T), sl.Elem()) {
						m.workersF, m.workerT = i, sl.Elem()
					}
				}
			}
		}
	}
	if m.workersF < 0 {
		panic(ai.Undecided{Msg: "cannot tell which field holds the running workers", Pos: newFn.Pos()})
	}
	in.Probes = []ai.Lin{m.t}
	in.Protect = in.Probes
	in.ProbeElem = func(T types.Type) bool { return types.Identical(T, m.workerT) }
	for _, s := range lens {
		if phase == 2 {
			var ln ai.Lin
			switch w := s.Resolve(s.FieldOf(m.pool, m.workersF)).(type) {
			case ai.Slice:
				ln = w.Len
			}
			m.check(s.EqLin(ln, s.Ghost["gos"].(ai.Int).L), "start", "pool.New workers", newFn.Pos(), "the number of workers ("+s.Show(ai.Int{L: ln})+") may differ from the number of goroutines started ("+s.Show(s.Ghost["gos"])+")", s)
			m.check(s.EqLin(s.Ghost["wgd"].(ai.Int).L, ai.K(0)), "start", "pool.New wait group", newFn.Pos(), "the wait group counts more workers than were started, or fewer", s)
		}
	}
	m.base = m.fresh(base)
	for _, g := range m.goSites {
		for _, o := range m.given(g) {
			if o == m.pool {
				continue
			}
			if v, ok := g.st.Obj(o).V.(ai.Struct); ok {
				m.tmpl[types.TypeString(g.st.Obj(o).T, nil)] = v
			}
		}
	}
	// goroutine bodies
	for _, g := range m.goSites {
		m.runWorker(g)
	}
	// methods; WaitLock first, Unlock from where WaitLock ends
	var names []string
	ms := c.P.SSA.MethodSets.MethodSet(m.ptrT)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			names = append(names, ms.At(i).Obj().Name())
		}
	}
	sort.Slice(names, func(a, b int) bool {
		if (names[a] == "WaitLock") != (names[b] == "WaitLock") {
			return names[a] == "WaitLock"
		}
		return names[a] < names[b]
	})
	var locked []*ai.State
	for _, n := range names {
		fn := c.P.Method(N, n)
		if fn == nil {
			continue
		}
		if phase == 2 {
			c.R.Count("operations", 1)
		}
		starts := []*ai.State{m.base.Clone()}
		if n == "Unlock" {
			starts = locked
		}
		if n == "Stop" && phase == 2 {
			m.probe = "inside"
			m.runMethod(n, fn, m.base.Clone())
			m.probe = "outside"
		}
		for _, s := range starts {
			exits := m.runMethod(n, fn, s)
			m.probe = ""
			if n == "WaitLock" {
				for _, e := range exits {
					locked = append(locked, m.rebase(e))
				}
			}
		}
	}
	c.Done(in)
	return m
}

// given lists the objects a goroutine is started with, seen through captured variables.
func (m *poolModel) given(g *goSite) []int {
	var out []int
	for _, a := range append(append([]ai.Val{}, g.args...), g.fn.Bind...) {
		for p, ok := g.st.Resolve(a).(ai.Ptr); ok && len(p.Path) == 0; p, ok = g.st.Resolve(a).(ai.Ptr) {
			o := g.st.Obj(p.O)
			if o == nil {
				break
			}
			out = append(out, p.O)
			if _, isP := o.T.Underlying().(*types.Pointer); !isP || o.V == nil {
				break
			}
			a = o.V
		}
	}
	return out
}

func (m *poolModel) resetGhost(st *ai.State) {
	for _, k := range []string{"sent", "rx", "run", "bc", "closedT", "waited", "mustEmpty", "closedAny"} {
		st.Ghost[k] = ai.Str{S: "0"}
	}
	S := m.poolT.Underlying().(*types.Struct)
	for i := 0; i < S.NumFields(); i++ {
		if isIntT(S.Field(i).Type()) {
			st.Ghost["delta:"+S.Field(i).Name()] = ai.Int{L: ai.K(0)}
		}
	}
	for _, k := range []string{"gos", "wgd"} {
		st.Ghost[k] = ai.Int{L: ai.K(0)}
	}
	st.Ghost["job"] = ai.Nil{}
	st.Ghost["over"] = ai.Str{S: "0"}
	if m.pool >= 0 {
		st.Ghost["self"] = ai.Ptr{O: m.pool} // keeps the pool in view after its last use
	}
	st.Ghost["taken"] = ai.Nil{}
	if st.Ghost["locks"] == nil {
		setLocks(st, heldLocks{})
	}
}

func isIntT(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// fresh turns the constructor's final state into an arbitrary later one.
func (m *poolModel) fresh(st *ai.State) *ai.State {
	n := st.Bare()
	m.rebase2(n)
	setLocks(n, heldLocks{})
	S := m.poolT.Underlying().(*types.Struct)
	for i := 0; i < S.NumFields(); i++ {
		m.havocField(n, i)
	}
	m.resetGhost(n)
	return n
}

func (m *poolModel) rebase(st *ai.State) *ai.State {
	n := st.Bare()
	m.rebase2(n)
	m.resetGhost(n)
	return n
}

func (m *poolModel) rebase2(n *ai.State) {
	for _, o := range n.Objects() {
		m.shared[o] = true
	}
}

// havocField replaces a plain data field by an unknown value.
func (m *poolModel) havocField(st *ai.State, i int) {
	S := m.poolT.Underlying().(*types.Struct)
	T := S.Field(i).Type()
	switch T.Underlying().(type) {
	case *types.Basic, *types.Slice:
		v := m.in.Fresh(st, T, m.poolT.Obj().Name()+"."+S.Field(i).Name())
		if sl, ok := v.(ai.Slice); ok {
			for _, cell := range st.Obj(sl.Arr).Arr.Cells {
				if s, ok := cell.V.(ai.Sym); ok {
					st.NonNil(s)
				}
			}
		}
		st.SetField(m.pool, []int{i}, v)
	}
}

func (m *poolModel) fieldName(i int) string {
	return m.poolT.Obj().Name() + "." + m.poolT.Underlying().(*types.Struct).Field(i).Name()
}

func (m *poolModel) guard(i int) string { return m.guards[m.fieldName(i)] }

// workersEmpty: the pool certainly has no workers in its list.
func (m *poolModel) workersEmpty(st *ai.State) bool {
	switch w := st.Resolve(st.FieldOf(m.pool, m.workersF)).(type) {
	case ai.Nil:
		return true
	case ai.Slice:
		return st.EqLin(w.Len, ai.K(0))
	}
	return false
}

func bump(st *ai.State, k string) {
	switch st.Ghost[k].(ai.Str).S {
	case "0":
		st.Ghost[k] = ai.Str{S: "1"}
	default:
		st.Ghost[k] = ai.Str{S: "several"}
	}
}

func ghost(st *ai.State, k string) string { return st.Ghost[k].(ai.Str).S }

func (m *poolModel) delta(st *ai.State) ai.Lin {
	if m.K < 0 {
		return ai.K(0)
	}
	return st.Ghost["delta:"+m.poolT.Underlying().(*types.Struct).Field(m.K).Name()].(ai.Int).L
}

func (m *poolModel) hooks() {
	in := m.in
	in.H.Call = func(st *ai.State, ci *ai.CallInfo) ([]ai.Outcome, bool) {
		if o, ok := m.c.errorsHook(st, ci); ok {
			return o, ok
		}
		if o, ok := m.call(st, ci); ok {
			return o, ok
		}
		if ci.Fn != nil && ci.Fn.Pkg != nil && strings.HasPrefix(ci.Fn.Pkg.Pkg.Path(), "math/rand") {
			switch ci.Fn.Name() {
			case "Intn", "Int63n", "Int31n", "IntN", "N":
				n := intv(st.Resolve(ci.Args[len(ci.Args)-1]))
				var out []ai.Outcome
				t, f := st.Branch(ai.CLe{L: ai.K(1).Sub(n)})
				if f != nil {
					out = append(out, ai.Outcome{St: f, Panic: &ai.PanicInfo{Kind: "explicit", Pos: ci.Pos, Msg: "invalid argument to " + ci.Fn.Name()}})
				}
				if t != nil {
					r := in.NewAtom("random")
					t.AddLe(r.Neg())
					t.AddLe(r.AddK(1).Sub(n))
					out = append(out, ai.Outcome{St: t, Rets: []ai.Val{ai.Int{L: r}}})
				}
				return out, true
			}
		}
		if ci.FnVal != nil { // a job
			m.check(len(locksOf(st)) == 0, "job-unlocked", m.where, ci.Pos, "calls the job while holding "+locksOf(st).String(), st)
			if j, ok := st.Resolve(st.Ghost["job"]).(ai.Sym); ok && j == ci.FnVal.(ai.Sym) {
				bump(st, "run")
				st.Ghost["job"] = ai.Nil{}
			} else {
				m.fail("run", m.where+" calls a job", ci.Pos, "calls a job it has not just received", st)
			}
			return []ai.Outcome{{St: st}}, true
		}
		return nil, false
	}
	in.H.InitField = func(st *ai.State, o *ai.Obj, field int, T types.Type, name string) (ai.Val, bool) {
		tv, ok := m.tmpl[types.TypeString(o.T, nil)]
		if !ok || o.T.Underlying().(*types.Struct).NumFields() <= field {
			return nil, false
		}
		if _, ok := T.Underlying().(*types.Chan); ok {
			s := in.NewSym(T, name)
			st.NonNil(s)
			m.owner[s.ID] = o.ID
			return s, true
		}
		switch v := tv.F[field].(type) {
		case ai.Ptr:
			if st.Obj(v.O) != nil {
				return v, true
			}
		case ai.Iface:
			if p, ok := v.V.(ai.Ptr); ok && st.Obj(p.O) != nil {
				return v, true
			}
		}
		return nil, false
	}
	in.H.InitCell = func(st *ai.State, o *ai.Obj, idx ai.Lin) (ai.Val, bool) {
		if m.workerT != nil && types.Identical(o.T, m.workerT) {
			s := in.NewSym(o.T, o.Name+"["+st.Show(ai.Int{L: idx})+"]")
			st.NonNil(s)
			return s, true
		}
		return nil, false
	}
	in.H.OnLoad = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
		if !m.ctor {
			m.note(st, p, false, pos)
		}
	}
	in.H.OnStore = func(st *ai.State, p ai.Ptr, v ai.Val, pos token.Pos) {
		if m.ctor {
			return
		}
		m.note(st, p, true, pos)
		if p.O != m.pool || p.IsElem || len(p.Path) != 1 {
			return
		}
		S := m.poolT.Underlying().(*types.Struct)
		i := p.Path[0]
		if !isIntT(S.Field(i).Type()) {
			return
		}
		if m.stores[m.where] == nil {
			m.stores[m.where] = map[int]bool{}
		}
		m.stores[m.where][i] = true
		old, ok1 := st.Resolve(st.FieldOf(p.O, i)).(ai.Int)
		nw, ok2 := st.Resolve(v).(ai.Int)
		k := "delta:" + S.Field(i).Name()
		if !ok1 || !ok2 {
			panic(ai.Undecided{Msg: "store to " + m.fieldName(i), Pos: pos})
		}
		st.Ghost[k] = ai.Int{L: st.Ghost[k].(ai.Int).L.Add(nw.L).Sub(old.L)}
		if i == m.K && strings.HasPrefix(m.where, "goroutine") {
			m.check(ghost(st, "run") == "1", "run", m.where+" counts", pos, "changes the number of unfinished jobs before the job has run", st)
		}
	}
	m.havocF = func(st *ai.State, lock string) {
		if m.ctor || m.pool < 0 {
			return
		}
		S := m.poolT.Underlying().(*types.Struct)
		for i := 0; i < S.NumFields(); i++ {
			if m.phase == 1 || m.guard(i) == lock {
				m.havocField(st, i)
				if i == m.workersF && m.phase == 2 {
					st.Ghost["taken"] = st.FieldOf(m.pool, i)
					if sl, ok := st.FieldOf(m.pool, i).(ai.Slice); ok {
						switch m.probe {
						case "inside":
							st.AddLe(m.t.AddK(1).Sub(sl.Len))
						case "outside":
							st.AddLe(sl.Len.Sub(m.t))
						}
					}
				}
			}
		}
	}
	m.onBcast = func(st *ai.State, all bool, pos token.Pos) {
		if !all {
			m.fail("run", m.where+" wakes", pos, "wakes only one waiter: others may wait for ever", st)
		}
		if m.K >= 0 && st.EqLin(m.delta(st), ai.K(-1)) {
			st.Ghost["bc"] = ai.Str{S: "1"}
		}
	}
	m.onWG = func(st *ai.State, op string, n ai.Lin, pos token.Pos) {
		st.Ghost["wgd"] = ai.Int{L: st.Ghost["wgd"].(ai.Int).L.Add(n)}
		if strings.HasPrefix(m.where, "goroutine") && n.IsConst() && n.C < 0 {
			m.check(ghost(st, "over") == "1", "run", m.where+" signs off", pos, "signs off from the wait group while it may still have jobs to run", st)
		}
	}
	m.onWait = func(st *ai.State, kind string, pos token.Pos) {
		if kind == "wg" {
			st.Ghost["waited"] = ai.Str{S: "1"}
			m.check(len(locksOf(st)) == 0, "blocking", m.where+" waits for the workers", pos, "waits for the workers while holding "+locksOf(st).String()+": a job that uses the pool never finishes", st)
		}
	}
	in.H.Chan = m.channel
}

func (m *poolModel) channel(st *ai.State, op string, ch, v ai.Val, blocking bool, pos token.Pos) ([]ai.R, bool) {
	in := m.in
	one := []ai.R{{St: st}}
	switch op {
	case "go":
		f, ok := st.Resolve(ch).(ai.Func)
		if !ok || f.Fn == nil {
			panic(ai.Undecided{Msg: "goroutine body", Pos: pos})
		}
		if !m.ctor {
			m.fail("start", m.where, pos, "starts a goroutine outside the constructor", st)
			return one, true
		}
		d := st.Ghost["wgd"].(ai.Int).L
		m.check(st.Le(ai.K(1), d), "start", "wait group before go", pos, "a worker is started before it is counted in the wait group: Stop may return before it has run its jobs", st)
		st.Ghost["wgd"] = ai.Int{L: d.AddK(-1)}
		st.Ghost["gos"] = ai.Int{L: st.Ghost["gos"].(ai.Int).L.AddK(1)}
		for _, g := range m.goSites {
			if g.pos == pos {
				return one, true
			}
		}
		m.goSites = append(m.goSites, &goSite{fn: f, args: v.(ai.Tuple).V, st: st.Clone(), pos: pos, name: "goroutine " + f.Fn.Name()})
		return one, true
	case "send":
		if m.phase == 1 {
			m.blocked(st, "sends on a channel", "", pos)
			bump(st, "sent")
			return one, true
		}
		h := locksOf(st)
		wk := m.guard(m.workersF)
		_, held := h[wk]
		m.check(held, "send", m.where+" lock", pos, "sends a job without holding "+wk+": the worker may be gone, or the channel closed, by then", st)
		m.check(m.isCurrent(st, ch), "send", m.where+" target", pos, "sends a job on a channel that is not certainly a current worker's", st)
		m.check(st.EqLin(m.delta(st), ai.K(1)), "send", m.where+" counted", pos, "sends a job that has not been counted exactly once as unfinished (count changed by "+st.Show(ai.Int{L: m.delta(st)})+")", st)
		m.check(m.runsJob(st, v, pos), "send", m.where+" job", pos, "what is sent is not the job given", st)
		bump(st, "sent")
		if blocking {
			m.blocked(st, "sends on a channel", "", pos)
		}
		return one, true
	case "recv":
		m.cycle(st, pos)
		closed := st.Clone()
		closed.Trace = append(closed.Trace, ai.Step{Pos: pos, Desc: "channel closed"})
		for _, s := range []*ai.State{st, closed} {
			s.Ghost["run"], s.Ghost["bc"] = ai.Str{S: "0"}, ai.Str{S: "0"}
			S := m.poolT.Underlying().(*types.Struct)
			for i := 0; i < S.NumFields(); i++ {
				if isIntT(S.Field(i).Type()) {
					s.Ghost["delta:"+S.Field(i).Name()] = ai.Int{L: ai.K(0)}
				}
			}
		}
		st.Ghost["rx"], closed.Ghost["rx"] = ai.Str{S: "1"}, ai.Str{S: "0"}
		closed.Ghost["over"] = ai.Str{S: "1"}
		var T types.Type = types.NewSignatureType(nil, nil, nil, nil, nil, false)
		if s, ok := st.Resolve(ch).(ai.Sym); ok {
			if ct, ok := in.Info(s.ID).T.Underlying().(*types.Chan); ok {
				T = ct.Elem()
			}
		}
		f := in.NewSym(T, "job")
		st.NonNil(f)
		st.Ghost["job"] = f
		closed.Ghost["job"] = ai.Nil{}
		m.blocked(st, "receives", "", pos)
		return []ai.R{{St: st, V: ai.Tuple{V: []ai.Val{f, ai.True()}}}, {St: closed, V: ai.Tuple{V: []ai.Val{in.Zero(closed, T), ai.False()}}}}, true
	case "close":
		st.Ghost["waited"] = ai.Str{S: "0"}
		if m.phase == 1 {
			return one, true
		}
		wk := m.guard(m.workersF)
		if locksOf(st)[wk] == "W" {
			st.Ghost["mustEmpty"] = ai.Str{S: "1"}
		} else {
			m.check(m.workersEmpty(st) && isNil(st, st.Ghost["taken"]) != ai.T, "stop", m.where+" close", pos, "closes a worker's channel while jobs can still be sent on it", st)
		}
		s, ok := st.Resolve(ch).(ai.Sym)
		own, has := m.owner[s.ID]
		tk, isS := st.Resolve(st.Ghost["taken"]).(ai.Slice)
		if !ok || !has || !isS {
			m.fail("stop", m.where+" close", pos, "closes something that is not certainly the channel of one of the workers just taken", st)
			return one, true
		}
		for _, cell := range st.Obj(tk.Arr).Arr.Cells {
			if p, ok := st.Resolve(cell.V).(ai.Ptr); ok && p.O == own && st.EqLin(cell.Idx, tk.Off.Add(m.t)) {
				bump(st, "closedT")
			}
		}
		return one, true
	}
	return nil, false
}

// isCurrent: the channel belongs to an element of the pool's present worker list.
func (m *poolModel) isCurrent(st *ai.State, ch ai.Val) bool {
	s, ok := st.Resolve(ch).(ai.Sym)
	if !ok {
		return false
	}
	own, has := m.owner[s.ID]
	w, isS := st.Resolve(st.FieldOf(m.pool, m.workersF)).(ai.Slice)
	if !has || !isS {
		return false
	}
	for _, cell := range st.Obj(w.Arr).Arr.Cells {
		if p, ok := st.Resolve(cell.V).(ai.Ptr); ok && p.O == own {
			return true
		}
	}
	return false
}

// runsJob: calling v runs the offered job exactly once and does nothing else.
func (m *poolModel) runsJob(st *ai.State, v ai.Val, pos token.Pos) bool {
	j, ok := st.Resolve(m.job).(ai.Sym)
	if !ok {
		return false
	}
	switch x := st.Resolve(v).(type) {
	case ai.Sym:
		return x == j
	case ai.Func:
		s := st.Bare()
		m.rebase2(s)
		setLocks(s, heldLocks{})
		s.Ghost["job"] = j
		s.Ghost["run"] = ai.Str{S: "0"}
		for _, o := range m.in.CallValue(s, nil, x, nil, pos) {
			if o.Panic != nil || ghost(o.St, "run") != "1" || len(locksOf(o.St)) > 0 {
				return false
			}
		}
		return true
	}
	return false
}

// cycle checks that a worker finished what it received.
func (m *poolModel) cycle(st *ai.State, pos token.Pos) {
	if m.phase == 1 || m.K < 0 {
		return
	}
	key := m.where
	d := m.delta(st)
	if ghost(st, "rx") == "0" {
		m.check(ghost(st, "run") == "0" && st.EqLin(d, ai.K(0)), "run", key, pos, "runs or counts a job it has not received", st)
		return
	}
	m.check(ghost(st, "run") == "1", "run", key+" once", pos, "a received job is run "+ghost(st, "run")+" times", st)
	m.check(st.EqLin(d, ai.K(-1)), "run", key+" count", pos, "after a job the number of unfinished jobs changes by "+st.Show(ai.Int{L: d})+", not by -1", st)
	if ghost(st, "bc") != "1" {
		k, ok := st.Resolve(st.FieldOf(m.pool, m.K)).(ai.Int)
		m.check(ok && st.Le(ai.K(1), k.L), "run", key+" wakes", pos, "waiters are not woken after the number of unfinished jobs was lowered", st)
	} else {
		m.ok("run", key+" wakes", pos)
	}
}

func (m *poolModel) runWorker(g *goSite) {
	m.where = g.name
	st := g.st.Bare()
	m.rebase2(st)
	setLocks(st, heldLocks{})
	S := m.poolT.Underlying().(*types.Struct)
	for i := 0; i < S.NumFields(); i++ {
		m.havocField(st, i)
	}
	m.resetGhost(st)
	if m.phase == 2 {
		m.c.R.Count("goroutine bodies", 1)
	}
	for _, o := range m.in.CallValue(st, nil, g.fn, g.args, g.pos) {
		pos := g.fn.Fn.Pos()
		if o.Panic != nil {
			m.fail("no-crash", g.name, o.Panic.Pos, o.Panic.Msg, o.St)
			continue
		}
		m.check(len(locksOf(o.St)) == 0, "balance", g.name+" exit", pos, "ends holding "+locksOf(o.St).String(), o.St)
		m.cycle(o.St, pos)
		m.check(ghost(o.St, "rx") == "0", "run", g.name+" exit", pos, "stops although its channel has not been closed", o.St)
		m.check(o.St.EqLin(o.St.Ghost["wgd"].(ai.Int).L, ai.K(-1)), "run", g.name+" signs off", pos, "does not sign off from the wait group exactly once (net change "+o.St.Show(o.St.Ghost["wgd"])+")", o.St)
	}
	if m.K < 0 {
		for i := range m.stores[g.name] {
			m.K = i
		}
	}
}

func (m *poolModel) runMethod(name string, fn *ssa.Function, st *ai.State) []*ai.State {
	m.where = name
	pos := fn.Pos()
	key := "pool.Pool." + name
	self := ai.Ptr{O: m.pool}
	args := []ai.Val{self}
	m.job = nil
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		v := m.in.Fresh(st, sig.Params().At(i).Type(), sig.Params().At(i).Name())
		if s, ok := v.(ai.Sym); ok {
			if _, isF := sig.Params().At(i).Type().Underlying().(*types.Signature); isF {
				st.NonNil(s)
				m.job = s
			}
		}
		args = append(args, v)
	}
	setupLocks := len(locksOf(st))
	var exits []*ai.State
	for _, o := range m.in.CallFunc(st, nil, fn, args, nil, pos) {
		h := locksOf(o.St)
		if o.Panic != nil {
			m.fail("no-crash", key, o.Panic.Pos, o.Panic.Msg, o.St)
			if len(h) > 0 {
				m.fail("balance", key, o.Panic.Pos, "may fail ("+o.Panic.Msg+") holding "+h.String(), o.St)
			}
			continue
		}
		m.c.R.Count("paths", 1)
		if m.phase == 1 {
			exits = append(exits, o.St)
			if name == "WaitLock" {
				m.pickCounter(o.St)
			}
			continue
		}
		if name == "WaitLock" {
			wk, kk := m.guard(m.workersF), m.guard(m.K)
			m.check(h[wk] == "W" && h[kk] == "W" && len(h) == 2, "balance", key, pos, "returns holding "+h.String()+" instead of both locks", o.St)
			k, ok := o.St.Resolve(o.St.FieldOf(m.pool, m.K)).(ai.Int)
			m.check(ok && o.St.Le(k.L, ai.K(0)), "wait", key, pos, "may return while "+m.fieldName(m.K)+" jobs are unfinished", o.St)
			exits = append(exits, o.St)
		} else {
			m.check(len(h) == 0, "balance", key, pos, "returns holding "+h.String(), o.St)
		}
		_ = setupLocks
		if ghost(o.St, "mustEmpty") == "1" {
			m.check(m.workersEmpty(o.St), "stop", key+" close", pos, "closes workers' channels but leaves the workers in the list", o.St)
		}
		d := m.delta(o.St)
		switch name {
		case "Do":
			m.doExit(key, pos, o)
		case "Stop":
			m.check(ghost(o.St, "waited") == "1", "stop", key+" waits", pos, "returns without having waited for the workers to finish", o.St)
			m.check(m.workersEmpty(o.St), "stop", key+" empties", pos, "returns without having taken the workers out of the pool: later jobs would be accepted", o.St)
			tk, ok := o.St.Resolve(o.St.Ghost["taken"]).(ai.Slice)
			if !ok {
				m.fail("stop", key+" takes", pos, "does not take the workers under the lock", o.St)
				break
			}
			y, n := o.St.Clone().Branch(ai.CLe{L: m.t.AddK(1).Sub(tk.Len)})
			if y != nil {
				m.check(ghost(y, "closedT") == "1", "stop", key+" closes", pos, "an arbitrary worker's channel is closed "+ghost(y, "closedT")+" times, not once", y)
			}
			if n != nil {
				m.check(ghost(n, "closedT") == "0", "stop", key+" closes", pos, "closes a channel outside the list", n)
			}
		case "WaitCount":
			k, ok := o.St.Resolve(o.St.FieldOf(m.pool, m.K)).(ai.Int)
			r, ok2 := o.St.Resolve(o.Rets[0]).(ai.Int)
			m.check(ok && ok2 && o.St.EqLin(k.L, r.L), "wait", key, pos, "does not return the number of unfinished jobs", o.St)
		}
		if name != "Do" {
			m.check(ghost(o.St, "sent") == "0" && o.St.EqLin(d, ai.K(0)), "accept", key+" leaves the count", pos, "changes the number of unfinished jobs", o.St)
		}
		if ghost(o.St, "rx") == "1" {
			m.fail("run", key, pos, "takes a job from a worker's channel", o.St)
		}
	}
	return exits
}

func (m *poolModel) doExit(key string, pos token.Pos, o ai.Outcome) {
	if len(o.Rets) != 1 {
		m.fail("accept", key, pos, "does not report acceptance", o.St)
		return
	}
	y, n := splitNil(o.St.Clone(), o.Rets[0])
	if y != nil {
		m.check(ghost(y, "sent") == "1", "accept", key+" accepted", pos, "reports success having handed the job over "+ghost(y, "sent")+" times", y)
		m.check(y.EqLin(m.delta(y), ai.K(1)), "accept", key+" counted", pos, "an accepted job changes the number of unfinished jobs by "+y.Show(ai.Int{L: m.delta(y)}), y)
	}
	if n != nil {
		m.check(ghost(n, "sent") == "0", "accept", key+" refused", pos, "reports an error although the job was handed over", n)
		m.check(n.EqLin(m.delta(n), ai.K(0)), "accept", key+" refused count", pos, "a refused job stays counted as unfinished", n)
		m.check(m.workersEmpty(n), "accept", key+" refusal", pos, "refuses a job although the pool may have workers", n)
	}
}

// pickCounter settles which counter WaitLock waits on.
func (m *poolModel) pickCounter(st *ai.State) {
	S := m.poolT.Underlying().(*types.Struct)
	for _, g := range m.goSites {
		for i := 0; i < S.NumFields(); i++ {
			if m.stores[g.name][i] {
				if k, ok := st.Resolve(st.FieldOf(m.pool, i)).(ai.Int); ok && st.Le(k.L, ai.K(0)) {
					m.K = i
				}
			}
		}
	}
}
