package main

import (
	"strconv"
	"strings"
)

// propSpec ties a property to its scenarios and to the classes of violation that break it.
type propSpec struct {
	id      string
	race    bool // part of the runs happens under the race detector
	gen     func(g *gen)
	classes []string
	long    bool // scenarios take long
}

var props = []propSpec{
	{"C01", true, genC01, []string{"bytes", "spurious", "panic", "stream", "race", "deadlock", "runaway"}, false},
	{"C02", false, genC02, []string{"prefix", "afterfail"}, false},
	{"C03", false, genC03, []string{"lost", "wrongerr", "spurious", "bytes", "deadlock", "runaway"}, false},
	{"C04", false, genC04, []string{"bytes", "spurious", "panic", "panicvalue", "deadlock", "runaway"}, false},
	{"C05", true, genC05, []string{"bytes", "mutation", "race", "panic", "spurious", "deadlock", "runaway"}, false},
	{"C06", false, genC06, []string{"bytes", "panic", "spurious", "deadlock", "runaway"}, false},
	{"C07", false, genC07, []string{"bytes", "panic", "spurious", "view", "events", "deadlock", "runaway"}, false},
	{"C08", false, genC08, []string{"bytes", "view", "ctx", "prefix", "lost", "wrongerr", "panic", "spurious", "newitem", "deadlock", "runaway"}, false},
	{"C09", false, genC09, []string{"bytes", "prefix", "panic", "spurious", "deadlock", "runaway"}, false},
	{"C10", true, genC10, []string{"bytes", "prefix", "afterfail", "lost", "wrongerr", "spurious", "panic", "race", "deadlock", "runaway"}, false},
	{"C11", true, genC11, []string{"gencode", "lost", "wrongerr", "spurious", "panic", "race", "deadlock", "runaway"}, false},
	{"C12", false, genC12, []string{"gencode", "prefix", "afterfail", "lost", "wrongerr", "spurious", "panic", "panicvalue", "deadlock", "runaway"}, false},
	{"C13", false, genC13, []string{"events", "streaming"}, false},
	{"C14", true, genC14, []string{"lookup", "panic", "race", "deadlock", "runaway"}, false},
	{"C15", false, genC15, []string{"runaway", "superlinear", "deadlock", "newitem", "panic"}, false},
	{"C16", true, genC16, []string{"bytes", "mutation", "race", "panic", "spurious", "deadlock", "runaway"}, false},
	{"C23", true, genC23, []string{"owned", "mutation", "ctx", "race"}, false},
	{"C24", false, genC24, []string{"late", "overlap", "stream", "leak", "owned"}, false},
	{id: "C25", gen: genC25, classes: []string{"retained", "slower"}, long: true},
	{"C17", false, genC17, []string{"bytes", "prefix", "afterfail", "lost", "wrongerr", "deadcall", "spurious", "panic", "ctx", "deadlock", "runaway"}, false},
}

func propByID(id string) *propSpec {
	for i := range props {
		if props[i].id == id {
			return &props[i]
		}
	}
	return nil
}

func (p *propSpec) relevant(class string) bool {
	for _, c := range p.classes {
		if c == class {
			return true
		}
	}
	return false
}

// scenario makes the scenario of a seed: everything about it is a function of (property, seed).
func scenario(p *propSpec, seed uint64) *Scenario {
	h := seed
	for _, c := range p.id {
		h = mix(h, uint64(c))
	}
	for try := 0; ; try++ {
		if sc := attempt(p, seed, h, try); sc != nil {
			return sc
		}
		h = mix(h, 77)
	}
}

// attempt generates a scenario, nil: it would be out of proportion.
func attempt(p *propSpec, seed, h uint64, try int) (sc *Scenario) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(tooBig); !ok {
				panic(v)
			}
			sc = nil
		}
	}()
	g := &gen{rng: rng{h}, p: baseProf, sc: &Scenario{Prop: p.id, Seed: seed, planning: true}}
	if try > 1 {
		g.p.big = 0
	}
	p.gen(g)
	g.finish()
	g.sc.planning = false
	return g.sc
}

// swarm varies which kinds of nodes occur from scenario to scenario.
func (g *gen) swarm() {
	ws := []*int{&g.p.void, &g.p.frag, &g.p.comment, &g.p.pi, &g.p.coll, &g.p.cond, &g.p.iter, &g.p.imp, &g.p.collect, &g.p.custom, &g.p.ref}
	for _, w := range ws {
		switch g.n(8) {
		case 0, 1:
			*w = 0
		case 2:
			*w *= 4
		}
	}
	switch g.n(6) {
	case 0:
		g.p.condAttr = 0
	case 1:
		g.p.condAttr = 70
	}
	switch g.n(6) {
	case 0:
		g.p.dyn = 5
	case 1:
		g.p.dyn = 80
	}
	switch g.n(4) {
	case 0:
		g.p.attr = 6
	case 1:
		g.p.attr = 30
	}
	g.p.nodes = []int{4, 8, 14, 22, 40}[g.n(5)]
	g.p.depth = g.in(2, 6)
	if g.n(3) > 0 {
		g.p.nested = 0
	}
	if g.n(2) == 0 {
		g.p.setdata = 0
	}
	if g.n(1000) < g.p.big {
		g.bigD = g.in(1, 6)
	}
	if g.n(8) == 0 {
		g.focus = true
		if g.p.condAttr < 40 {
			g.p.condAttr = 40
		}
	}
}

// shared parts of a scenario.
func (g *gen) parts(comps, vals, args int) {
	g.makeArgs(args)
	g.makeVals(vals)
	if g.p.headers > 3 || g.n(12) == 0 {
		g.makeMaps(g.in(1, 2))
		if g.p.headers < 4 {
			g.p.headers = 4
		}
	}
	g.makeComps(comps)
	if g.p.kargs > 10 || g.p.kargs > 0 && g.n(5) == 0 {
		g.makeKids(g.in(1, 3))
	}
}

func (g *gen) addTree() int {
	g.sc.Trees = append(g.sc.Trees, g.ownRoot(g.tree()))
	g.shareKids(g.p.kargs)
	return len(g.sc.Trees) - 1
}

// ownRoot makes sure that the root of a tree is a node of the library: what a user's own node does
// when it is rendered directly is no matter of the library.
func (g *gen) ownRoot(t *Node) *Node {
	switch (&model{sc: g.sc}).deref(t).K {
	case "custom":
		return &Node{K: "coll", C: []*Node{t}}
	case "cattr":
		return &Node{K: "el", N: "div", C: []*Node{t}}
	}
	return t
}

func (g *gen) trees(n int) {
	for i := 0; i < n; i++ {
		g.addTree()
	}
}

func tagOf(task, op int) string { return "T" + string(rune('a'+task%26)) + strconv.Itoa(op) }

// planned is what one operation is expected to do without faults.
func (g *gen) planned(op *Op, env *menv) *model {
	m := &model{sc: g.sc, env: env}
	if op.Env != nil {
		m.tag = op.Env.Tag
	}
	if op.K == "exec" {
		m.tpl(g.sc.Tpls[op.Tree].Pieces)
	} else {
		m.render(g.sc.Trees[op.Tree])
	}
	return m
}

var panicKinds = []string{"panic", "panicmid", "panicafter"}

// wfault makes a writer fault within an output of n bytes.
func (g *gen) wfault(base, n int, panics int) Fault {
	f := Fault{Byte: -1, N: 1}
	if n < 1 {
		n = 1
	}
	switch g.n(10) {
	case 0, 1:
		f.Call = g.n(1 + n/5)
	case 2:
		f.Call = g.n(4)
	case 3:
		f.Byte = base + n - 1
	default:
		f.Byte = base + g.n(n)
	}
	if g.n(100) < panics {
		f.K = panicKinds[g.n(3)]
		f.PV = g.n(3)
		return f
	}
	f.K = []string{"err", "err", "short", "short", "full"}[g.n(5)]
	f.E = g.likeErr(f.K == "short")
	switch g.n(4) {
	case 0:
		f.N = -1
	case 1:
		f.N = g.in(2, 4)
	}
	if f.N != 1 {
		if g.sc.Prop == "C15" {
			f.Same = g.n(2) == 0
		} else {
			f.Same = g.n(6) == 0
		}
	}
	return f
}

// muteFault: writes that are accepted in part, or not at all, without an error.
func (g *gen) muteFault(n int) Fault {
	return Fault{K: "mute", Byte: g.n(n + 1), N: []int{1, 3, 20, -1}[g.n(4)], PV: g.n(3)}
}

// likeErr picks the kind of an injected error.
func (g *gen) likeErr(short bool) int {
	switch g.n(5) {
	case 0:
		if short {
			return 1
		}
		return g.in(1, len(likeErrs))
	case 1:
		return g.in(1, len(likeErrs))
	}
	return 0
}

func (g *gen) stallFault(n int) Fault {
	ms := int64(g.in(1, 5))
	if g.n(4) == 0 {
		ms = []int64{100, 2000, 31000, 300000, 86400000}[g.n(5)]
	}
	return Fault{K: "stall", Byte: g.n(n + 1), N: []int{1, 1, 2, -1}[g.n(4)], Lat: ms * 1000000}
}

type cbKind struct {
	k string
	n int // steps within
}

// callbacks lists the callbacks of a tree by id.
func (g *gen) callbacks() map[int]cbKind {
	cb := map[int]cbKind{}
	var val func(v *Val)
	val = func(v *Val) {
		if v.K == "fn" {
			cb[v.ID] = cbKind{"fn", 0}
		}
		for i := range v.L {
			val(&v.L[i])
		}
		for i := range v.M {
			val(&v.M[i].V)
		}
	}
	var node func(n *Node)
	node = func(n *Node) {
		for i := range n.V {
			val(&n.V[i])
		}
		for _, c := range n.C {
			node(c)
		}
		for _, c := range n.C2 {
			node(c)
		}
		if n.Cond != nil && n.Cond.ID > 0 {
			cb[n.Cond.ID] = cbKind{"cond", 0}
		}
		if n.Src != nil && n.Src.ID > 0 {
			if n.K == "yield" {
				cb[n.Src.ID] = cbKind{"yield", len(n.Src.L) + 1}
			} else {
				cb[n.Src.ID] = cbKind{"iter", 0}
			}
		}
		switch n.K {
		case "imp":
			cb[n.ID] = cbKind{"imp", len(n.Ops)}
		case "collect":
			cb[n.ID] = cbKind{"collect", 0}
		case "custom":
			cb[n.ID] = cbKind{"custom", len(n.C)}
		case "cattr":
			cb[n.ID] = cbKind{"cattr", 0}
		}
		for i := range n.Ops {
			for _, c := range n.Ops[i].C {
				node(c)
			}
		}
	}
	for _, n := range g.sc.Comps {
		node(n)
	}
	for _, n := range g.sc.Trees {
		node(n)
	}
	for i := range g.sc.Vals {
		val(&g.sc.Vals[i])
	}
	for _, a := range g.sc.Args {
		for i := range a {
			val(&a[i])
		}
	}
	for _, m := range g.sc.HMaps {
		for i := range m {
			val(&m[i].V)
		}
	}
	return cb
}

func (g *gen) cbKindFault(id int, k cbKind, panics int) CBFault {
	f := CBFault{ID: id, K: "set"}
	if k.n > 0 {
		f.At = g.n(k.n + 1)
	}
	switch k.k {
	case "imp", "custom", "cattr":
		f.K = []string{"ret", "ret", "set", "both"}[g.n(4)]
	}
	if g.n(100) < panics {
		f.K, f.PV = "panic", g.n(3)
	} else {
		f.E = g.likeErr(false)
	}
	f.All = g.n(6) == 0
	return f
}

// cbfault makes a fault of a callback that the operation reaches.
func (g *gen) cbfault(m *model, cbs map[int]cbKind, panics int) (CBFault, bool) {
	if g.n(6) == 0 { // a condition
		var ids []int
		for id := 1; id <= g.id; id++ {
			if cbs[id].k == "cond" {
				ids = append(ids, id)
			}
		}
		if len(ids) > 0 {
			f := g.cbKindFault(ids[g.n(len(ids))], cbKind{"cond", 0}, panics)
			f.Occ = g.small(3)
			return f, true
		}
	}
	if len(m.evs) == 0 {
		return CBFault{}, false
	}
	id, occ := g.someEvent(m)
	kind := cbs[id]
	if kind.k == "" { // part of the data: it can only panic
		if panics == 0 {
			return CBFault{}, false
		}
		panics = 100
	}
	f := g.cbKindFault(id, kind, panics)
	f.Occ = occ
	return f, true
}

// someEvent picks an invocation of a callback.
func (g *gen) someEvent(m *model) (id, occ int) {
	i := g.n(len(m.evs))
	for m.evs[i].id < 0 { // not an invocation, but one came before it
		i--
	}
	id = m.evs[i].id
	for k := 0; k < i; k++ {
		if m.evs[k].id == id {
			occ++
		}
	}
	return id, occ
}

// nest makes an operation render another tree from within one of its callbacks, or its writer.
func (g *gen) nest(op *Op) (cost int64) {
	sc := g.sc
	loc := sc.localTrees()
	t := g.n(len(sc.Trees))
	if loc[t] {
		return
	}
	m := g.planned(op, rootEnv(op.Env))
	env := g.env("N" + op.Env.Tag)
	if len(m.evs) == 0 || g.n(4) == 0 {
		if op.Env.W == "buffer" {
			return
		}
		op.Faults = append(op.Faults, Fault{K: "nest", Byte: g.n(len(m.out) + 1), N: 1, Tree: t, Env: env})
	} else {
		id, occ := g.someEvent(m)
		op.CB = append(op.CB, CBFault{K: "nest", ID: id, Occ: occ, Tree: t, Env: env})
	}
	return modelCost(sc, &Op{K: "render", Tree: t, Env: env}, map[int]*menv{})
}

// fault gives an operation n faults, at points its execution reaches.
func (g *gen) fault(op *Op, env *menv, base int, n, panics, cbPct int, cbs map[int]cbKind) {
	m := g.planned(op, env)
	for i := 0; i < n; i++ {
		if g.n(100) < cbPct {
			if f, ok := g.cbfault(m, cbs, panics); ok {
				op.CB = append(op.CB, f)
				continue
			}
		}
		op.Faults = append(op.Faults, g.wfault(base, len(m.out), panics))
	}
	if op.Env != nil && op.Env.W == "buffer" && len(op.Faults) > 0 {
		op.Env.W = ""
	}
}

// finish fills in what depends on the whole scenario: schedule and step budget.
func (g *gen) finish() {
	sc := g.sc
	var total int64 = 2000
	cnt := func(ops []Op) {
		slots := map[int]*menv{}
		for i := range ops {
			op := &ops[i]
			if op.K == "build" || op.K == "buildtpl" {
				total += 20000
				continue
			}
			if (op.K == "render" || op.K == "exec") && op.Env != nil && op.Rep == 0 && !sc.Scale && len(sc.Trees) > 0 && g.n(16) == 0 {
				total += g.nest(op)
			}
			if op.K == "render" && op.Env != nil && !sc.Scale {
				if g.n(12) == 0 {
					op.Env.Up = g.upper(op.Env.Tag)
					if g.n(3) == 0 {
						op.Env.Up.Up = g.upper(op.Env.Tag + "u")
					}
				}
				op.Again = g.n(4) == 0
			}
			if op.K == "render" && op.Env == nil {
				op.Clone = g.n(8) == 0
			}
			c := modelCost(sc, op, slots)
			n := int64(1)
			if op.Rep > 1 {
				n = int64(op.Rep)
			}
			total += n * c
		}
	}
	for i := range sc.Tasks {
		cnt(sc.Tasks[i].Ops)
	}
	sc.Cfg.Seed = g.u64()
	if sc.Cfg.Strat.Kind == "" {
		sc.Cfg.Strat = g.strategy(len(sc.Tasks))
	}
	switch sc.Prop {
	case "C05", "C16":
		sc.Churn = g.n(5) < 2
	default:
		sc.Churn = g.n(10) == 0
	}
	sc.Cfg.MapMode = []int{2, 2, 2, 0, 1}[g.n(5)]
	sc.Cfg.PoolMode = g.n(3)
	sc.Cfg.Strat.Len = total / 25
	cnt(sc.Post)
	sc.Cfg.Budget = 4*total + 200000
}

// ---- C01

func genC01(g *gen) {
	g.swarm()
	g.parts(g.n(4), g.n(3), g.n(3))
	g.trees(g.in(1, 3))
	nt := g.in(2, 5)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 4); k > 0; k-- {
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees)), Env: g.env(tagOf(t, len(ops)))}
			if len(ops) > 0 && g.n(5) == 0 {
				op.Env = nil // through the same context again
				op.Set = g.flips()
				if g.n(3) == 0 {
					op.Poke = g.pokes()
				}
			}
			if op.Env != nil && op.Env.W != "buffer" && g.n(6) == 0 {
				op.Faults = append(op.Faults, g.stallFault(200))
			}
			if g.n(10) == 0 {
				op.Think = int64(g.n(1000))
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

func (g *gen) flips() []KV {
	var s []KV
	for k := g.in(0, 4); k > 0; k-- {
		if g.n(9) == 0 {
			s = setKV(s, "l"+strconv.Itoa(g.n(3)), g.list(1))
		} else if g.n(3) > 0 {
			s = setKV(s, "b"+strconv.Itoa(g.n(6)), Val{K: "bool", I: int64(g.n(2))})
		} else {
			s = setKV(s, "k"+strconv.Itoa(g.n(5)), Val{K: "s", S: "flip" + strconv.Itoa(g.n(100))})
		}
	}
	return s
}

// ---- C02, C03: single failing renders

func genFailing(g *gen, maxF, panics, cbPct int) {
	g.swarm()
	g.parts(g.n(3), g.n(2), g.n(2))
	g.trees(g.in(1, 2))
	if g.n(5) == 0 {
		g.templates(1)
	}
	cbs := g.callbacks()
	nt := g.in(1, 2)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 3); k > 0; k-- {
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees)), Env: g.env(tagOf(t, len(ops)))}
			if len(g.sc.Tpls) > 0 && g.n(2) == 0 {
				op.K, op.Tree = "exec", g.n(len(g.sc.Tpls))
			}
			nf := 1
			if maxF > 1 {
				nf = g.n(maxF + 1)
			} else if g.n(10) == 0 {
				nf = 0
			}
			g.fault(&op, rootEnv(op.Env), 0, nf, panics, cbPct, cbs)
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

func genC02(g *gen) {
	g.p.custom, g.p.imp = 6, 9
	genFailing(g, 1, 0, 35)
	// a failing writer that works again is what shows later writes
}

func genC03(g *gen) {
	g.p.custom, g.p.imp, g.p.collect = 8, 10, 6
	genFailing(g, 4, 0, 50)
}

// ---- C04

// soak makes a scenario in which many renders of one tree fail, one after the other, before it is
// rendered cleanly: what a failed render keeps for itself would run out.
func (g *gen) soak(panics int) {
	g.swarm()
	g.p.nodes = g.in(1, 6)
	g.p.depth = g.in(1, 3)
	g.p.nested = 0
	g.bigD = 0
	g.parts(g.n(3), g.n(2), g.n(2))
	g.trees(1)
	if g.n(6) == 0 {
		g.templates(1)
	}
	cbs := g.callbacks()
	nt := g.in(1, 2)
	for t := 0; t < nt; t++ {
		op := Op{K: "render", Env: g.env(tagOf(t, 0)), Rep: []int{70, 140, 300, 600, 1100}[g.n(5)]}
		if len(g.sc.Tpls) > 0 {
			op.K = "exec"
		}
		g.fault(&op, rootEnv(op.Env), 0, 1, panics, 60, cbs)
		if c := g.planned(&op, rootEnv(op.Env)).cost; c > 100 {
			op.Rep = 70
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{[]Op{op}})
	}
	g.post()
}

func genC04(g *gen) {
	if g.n(120) == 0 {
		g.soak(85)
		return
	}
	g.swarm()
	g.parts(g.n(4), g.n(2), g.n(2))
	g.trees(g.in(1, 2))
	if g.n(6) == 0 {
		g.templates(1)
	}
	cbs := g.callbacks()
	nt := g.in(1, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 4); k > 0; k-- {
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees)), Env: g.env(tagOf(t, len(ops)))}
			if len(g.sc.Tpls) > 0 && g.n(2) == 0 {
				op.K, op.Tree = "exec", g.n(len(g.sc.Tpls))
			}
			if g.n(2) == 0 {
				g.fault(&op, rootEnv(op.Env), 0, 1, 60, 45, cbs)
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
	g.post()
}

// post renders every shared tree (and template) once more after everything else.
func (g *gen) post() {
	loc := g.sc.localTrees()
	for i := range g.sc.Trees {
		if !loc[i] {
			g.sc.Post = append(g.sc.Post, Op{K: "render", Tree: i, Env: g.env("P" + strconv.Itoa(i))})
		}
	}
	for i := range g.sc.Tpls {
		g.sc.Post = append(g.sc.Post, Op{K: "exec", Tree: i, Env: g.env("Q" + strconv.Itoa(i))})
	}
}

// ---- C05

func genC05(g *gen) {
	g.swarm()
	g.p.ref = 25
	g.p.args = 25
	g.p.sharedV = 20
	g.p.kargs = []int{0, 20, 40}[g.n(3)]
	g.p.nested = 0
	g.p.attr = g.in(10, 30)
	g.p.nodes = []int{3, 6, 10, 16}[g.n(4)]
	g.p.depth = g.in(1, 4)
	g.parts(g.in(3, 8), g.n(4), g.in(1, 4))
	shared := g.in(1, 3)
	g.trees(shared)
	nt := g.in(1, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		var mine []int
		for k := g.in(2, 7); k > 0; k-- {
			switch {
			case len(mine) == 0 || g.n(5) < 2:
				i := g.addTree()
				mine = append(mine, i)
				ops = append(ops, Op{K: "build", Tree: i})
			case g.n(3) == 0:
				ops = append(ops, Op{K: "render", Tree: g.n(shared), Env: g.env(tagOf(t, len(ops)))})
			default:
				ops = append(ops, Op{K: "render", Local: true, Tree: mine[g.n(len(mine))], Env: g.env(tagOf(t, len(ops)))})
			}
		}
		for _, i := range mine {
			ops = append(ops, Op{K: "render", Local: true, Tree: i, Env: g.env(tagOf(t, len(ops)))})
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
	for i := 0; i < shared; i++ {
		g.sc.Post = append(g.sc.Post, Op{K: "render", Tree: i, Env: g.env("P" + strconv.Itoa(i))})
	}
}

// ---- C06

func genC06(g *gen) {
	g.swarm()
	g.p.setdata = 0
	g.p.attr = g.in(15, 45)
	g.p.condAttr = g.in(10, 60)
	g.p.headers = []int{1, 15}[g.n(2)]
	g.p.nested = 0
	g.p.nodes = []int{3, 6, 10, 16}[g.n(4)]
	g.parts(g.in(0, 3), g.n(2), g.n(2))
	g.trees(g.in(1, 2))
	env := make([]*Env, len(g.sc.Trees))
	for i := range env {
		env[i] = g.env("S" + strconv.Itoa(i))
		env[i].W = ""
	}
	nt := g.in(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 5); k > 0; k-- {
			i := g.n(len(g.sc.Trees))
			e := *env[i]
			op := Op{K: "render", Tree: i, Env: &e}
			if len(ops) > 0 && g.n(6) == 0 {
				op.Env = nil
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C07

func genC07(g *gen) {
	g.p.cond = 30
	g.p.condAttr = 60
	g.p.attr = 20
	g.p.dyn = 25
	g.p.imp = 4
	g.p.iter = 10
	g.p.setdata = 40
	if g.n(2) == 0 {
		g.p.setdata = 0
	}
	g.p.nested = 0
	g.p.depth = g.in(2, 8)
	g.p.nodes = []int{5, 10, 20, 30}[g.n(4)]
	g.parts(g.in(0, 4), g.n(2), 0)
	g.trees(g.in(1, 2))
	nt := g.in(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(2, 6); k > 0; k-- {
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees))}
			if len(ops) == 0 || g.n(3) == 0 {
				op.Env = g.env(tagOf(t, len(ops)))
			} else {
				op.Set = g.flips()
				if g.n(4) == 0 {
					op.Cargo = &Val{K: "s", S: strconv.Itoa(g.n(4))}
				}
				if g.n(4) == 0 {
					op.Poke = g.pokes()
				}
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C08

func genC08(g *gen) {
	g.p.iter = 40
	g.p.cond = 8
	g.p.imp = 6
	g.p.collect = 5
	g.p.custom = 5
	g.p.dyn = 60
	g.p.setdata = 0
	g.newsrc = g.n(3) == 0
	g.p.attr = g.n(12)
	g.p.depth = g.in(3, 6)
	g.p.nodes = []int{6, 12, 20, 30}[g.n(4)]
	if g.n(4) > 0 {
		g.p.nested = 0
	}
	if g.n(1000) < g.p.big {
		g.bigD = 4
	}
	g.parts(g.n(3), g.n(2), 0)
	g.trees(g.in(1, 2))
	cbs := g.callbacks()
	nt := g.in(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 3); k > 0; k-- {
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees)), Env: g.env(tagOf(t, len(ops)))}
			if len(ops) > 0 && g.n(4) == 0 {
				op.Env, op.Set, op.Poke = nil, g.flips(), g.pokes()
			} else if g.n(5) < 2 {
				g.fault(&op, rootEnv(op.Env), 0, 1, 10, 55, cbs)
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C09

func genC09(g *gen) {
	g.p.imp = 60
	g.p.ref = 12
	g.p.iter = 10
	g.p.el = 15
	g.p.attr = g.in(5, 25)
	g.p.dyn = 25
	g.p.depth = g.in(2, 5)
	g.p.nodes = []int{4, 8, 14, 22}[g.n(4)]
	if g.n(2) == 0 {
		g.p.nested = 30
	}
	g.p.setdata = 0
	if g.n(40) == 0 {
		g.bigD = 5
	}
	g.parts(g.in(1, 4), g.n(2), g.n(3))
	g.trees(g.in(1, 3))
	cbs := g.callbacks()
	nt := g.in(1, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 4); k > 0; k-- {
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees)), Env: g.env(tagOf(t, len(ops)))}
			if g.n(3) == 0 {
				g.fault(&op, rootEnv(op.Env), 0, 1, 40, 60, cbs)
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
	g.post()
}

// ---- C10

var tplLits = []string{"<p>", "</p>", " ", "\n", "text & more", "é<b>x</b>", "a", "<ul class=\"x\">", "</ul>"}

func (g *gen) pieces(depth, n int) []Piece {
	var ps []Piece
	for i := 0; i < n; i++ {
		switch g.n(9) {
		case 6:
			ps = append(ps, Piece{K: "id"})
		case 7:
			if len(g.tplAttrs) > 0 {
				ps = append(ps, Piece{K: "attr", S: "p", N: g.tplAttrs[g.n(len(g.tplAttrs))]})
			}
		case 8:
			if depth == 0 {
				break
			}
			p := Piece{L: g.pieces(depth-1, g.in(1, 3))}
			switch g.n(4) {
			case 0, 1:
				p.K, p.S = "range", "l"+strconv.Itoa(g.n(3))
			case 2:
				p.K = "with"
			case 3:
				p.K, p.N = "sub", g.n(3)
			}
			if p.K != "sub" && g.n(3) == 0 {
				p.E = g.pieces(depth-1, 1)
			}
			ps = append(ps, p)
		case 0, 1:
			ps = append(ps, Piece{K: "lit", S: tplLits[g.n(len(tplLits))] + strconv.Itoa(g.n(100))})
		case 2:
			if depth > 0 {
				p := Piece{K: "if", S: "b" + strconv.Itoa(g.n(6))}
				p.L = g.pieces(depth-1, g.in(1, 3))
				if g.n(2) == 0 {
					p.E = g.pieces(depth-1, g.in(1, 2))
				}
				ps = append(ps, p)
				break
			}
			fallthrough
		default:
			ps = append(ps, Piece{K: []string{"node", "node", "nodectx"}[g.n(3)], N: g.n(g.tplNodes)})
		}
	}
	return ps
}

func (g *gen) templates(n int) {
	g.tplNodes, g.tplAttrs = len(g.sc.Trees), nil
	for k := g.n(3); k > 0; k-- {
		g.tplAttrs = append(g.tplAttrs, len(g.sc.Trees))
		g.sc.Trees = append(g.sc.Trees, g.attrNode(false, true))
	}
	for i := 0; i < n; i++ {
		g.sc.Tpls = append(g.sc.Tpls, &Tpl{Pieces: g.pieces(2, g.in(1, 6))})
	}
}

func genC10(g *gen) {
	g.swarm()
	g.p.nodes = []int{2, 5, 10}[g.n(3)]
	g.p.depth = g.in(1, 4)
	g.p.nested = 0
	g.parts(g.n(3), g.n(2), g.n(2))
	g.trees(g.in(1, 3))
	g.templates(g.in(1, 2))
	cbs := g.callbacks()
	nt := g.in(2, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		mine := map[int]bool{}
		for k := g.in(1, 3); k > 0; k-- {
			op := Op{K: "exec", Tree: g.n(len(g.sc.Tpls)), Env: g.env(tagOf(t, len(ops)))}
			if g.n(4) == 0 && !mine[op.Tree] {
				mine[op.Tree] = true
				ops = append(ops, Op{K: "buildtpl", Tree: op.Tree})
			}
			op.Local = mine[op.Tree] && g.n(3) > 0
			if g.n(10) == 0 { // the node of a marker by itself
				op.K, op.Tree, op.Local = "render", g.n(len(g.sc.Trees)), false
			}
			if g.n(3) == 0 {
				g.fault(&op, rootEnv(op.Env), 0, g.in(1, 2), 20, 40, cbs)
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C11, C12

var genTexts = []string{"hello", "a &amp; b", "x &lt; y", "  ", "\n", "\t", "\"quoted\"", "back\\slash", "l1\nl2", "tab\there", "é日本", "&nbsp;", "&#65;", "&bogus;", "a\x00b", "\r\n", "1 < 2", "it's", "{{.}}", "`", "%d %s"}

// sizes around which the buffers of readers, scanners and tokenizers are cut
var bufSizes = []int{512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}

// longText is a text without quotes of a size near a buffer's, on one line more often than not.
func (g *gen) longText() string {
	n := bufSizes[g.n(len(bufSizes))] + g.in(-9, 9)
	if g.n(3) == 0 {
		n = g.in(300, 9000)
	}
	w := []string{"lorem ", "x", "\u00e9", "a &amp; ", "\\", "1 < 2 ", "line\n"}[g.n(7)] + strconv.Itoa(g.n(10))
	return strings.Repeat(w, 1+n/len(w))[:n-g.n(3)]
}

func (g *gen) document() string {
	var sb strings.Builder
	long := 0
	if g.n(25) == 0 {
		long = g.in(1, 3)
	}
	text := func() string {
		if long > 0 && g.n(4) == 0 {
			long--
			return g.longText()
		}
		return genTexts[g.n(len(genTexts))]
	}
	elem := func() string {
		switch g.n(8) {
		case 0:
			return []string{"x-custom", "foo", "blink", "B", "svgx:a"}[g.n(5)]
		case 1:
			return strings.ToUpper(regElems[g.n(len(regElems))].Wire)
		}
		return regElems[g.n(len(regElems))].Wire
	}
	attr := func() string {
		var k string
		switch g.n(6) {
		case 0:
			k = []string{"data-x", "x-foo", "@click", "aria-label", "viewBox", ":v"}[g.n(6)]
		case 1:
			k = strings.ToUpper(regAttrs[g.n(len(regAttrs))].Wire)
		default:
			k = regAttrs[g.n(len(regAttrs))].Wire
		}
		switch g.n(7) {
		case 0:
			return k
		case 1:
			return k + "=" + "uq" + strconv.Itoa(g.n(10))
		case 2:
			return k + "='" + strings.ReplaceAll(text(), "'", "") + "'"
		case 3:
			return k + ` = ""`
		}
		return k + `="` + strings.ReplaceAll(text(), `"`, "&quot;") + `"`
	}
	attrs := func() string {
		s := ""
		k := g.small(4)
		if g.n(150) == 0 {
			k = g.in(10, 150)
		}
		for ; k > 0; k-- {
			s += " " + attr()
		}
		return s
	}
	var open []string
	n := g.in(0, 14)
	if g.n(30) == 0 {
		n = g.in(50, 200)
	}
	for i := 0; i < n; i++ {
		switch g.n(12) {
		case 0:
			sb.WriteString([]string{"<!DOCTYPE html>", "<!doctype svg PUBLIC \"x\">", "<!DOCTYPE>"}[g.n(3)])
		case 1:
			sb.WriteString("<!--" + text() + "-->")
		case 2, 3, 4:
			e := elem()
			sb.WriteString("<" + e + attrs() + ">")
			open = append(open, e)
		case 5:
			sb.WriteString("<" + elem() + attrs() + "/>")
		case 6:
			sb.WriteString("<" + voidNames[g.n(len(voidNames))] + attrs() + ">")
		case 7, 8:
			if len(open) > 0 {
				sb.WriteString("</" + open[len(open)-1] + ">")
				open = open[:len(open)-1]
			} else if g.n(3) == 0 {
				sb.WriteString("</" + elem() + ">")
			}
		case 9:
			switch g.n(6) {
			case 0:
				sb.WriteString("<script>if (a < b && c) { x(\"</p>\") }</script>")
			case 1:
				sb.WriteString("<style>a > b { color: red }\n</style>")
			case 2:
				sb.WriteString("<textarea><b>raw</b></textarea>")
			case 3:
				sb.WriteString("<title>t &amp; <i></title>")
			case 4:
				sb.WriteString("<![CDATA[x]]>")
			case 5:
				sb.WriteString("<?xml version='1.0'?>")
			}
		default:
			sb.WriteString(text())
			if g.n(3) == 0 {
				sb.WriteString(" t" + strconv.Itoa(g.n(100)))
			}
		}
	}
	for len(open) > 0 && g.n(8) > 0 {
		sb.WriteString("</" + open[len(open)-1] + ">")
		open = open[:len(open)-1]
	}
	if g.n(20) == 0 {
		sb.WriteString([]string{"<", "<p", "<p a=", "</", "<!--x", "&am"}[g.n(6)])
	}
	return sb.String()
}

var docStarts = []string{"\xef\xbb\xbf", "\xef\xbb", "\xfe\xff", "\xff\xfe<\x00", "\r\n", "\n\n", "\x00", "   ", "\xff\xfe", "\u2028", "<?xml version=\"1.0\"?>", "#!x\n", "<!---->"}

var manyTokens = []string{"<g/>", "<b>x</b>", "<!--c-->", "x<br>", "<p id=\"1\" class=x>a &amp; b</p>\n", "<i/>y", "&lt;", "<svg><path d=\"M0 0\"/></svg>"}

func (g *gen) genOp(doc string) *GenOp {
	if g.n(5) == 0 {
		doc = docStarts[g.n(len(docStarts))] + doc
	}
	rep := 0
	if g.n(150) == 0 { // thousands of tokens
		doc = manyTokens[g.n(len(manyTokens))]
		rep = g.in(500, 40000) / len(doc)
	}
	o := &GenOp{Pkg: []string{"html", "svg"}[g.n(2)], In: doc, RErrAt: -1, Rep: rep}
	switch g.n(5) {
	case 0:
	case 1:
		o.Chunks = []int{1}
	case 2:
		o.Chunks = []int{g.in(1, 9)}
	default:
		for k := g.in(1, 6); k > 0; k-- {
			o.Chunks = append(o.Chunks, g.in(1, 40))
		}
	}
	if o.inLen() > 3000 && g.n(4) > 0 {
		for i := range o.Chunks {
			o.Chunks[i] *= 1 + bufSizes[g.n(len(bufSizes))]/g.in(1, 40)
		}
	}
	if g.n(3) == 0 {
		o.Empty = g.in(2, 5)
		if g.n(4) == 0 {
			o.Burst = []int{g.in(2, 12), g.in(2, 40), 90}[g.n(3)]
			if o.inLen() > 2000 {
				o.Empty = g.in(10, 100)
			}
		}
	}
	o.EOFTog = g.n(3) == 0
	switch g.n(6) {
	case 0:
		o.W = "rich"
	case 1:
		o.W = "file"
	}
	if g.n(4) == 0 {
		o.R = "rich"
	}
	if g.n(5) == 0 {
		o.Stall = int64(g.in(1, 100)) * 1000
	}
	if g.n(60) == 0 && len(doc) < 2000 && rep == 0 {
		o.Rep = g.in(2, 30)
	}
	return o
}

func (o *GenOp) inLen() int { return len(o.input()) }

func (g *gen) readFault(o *GenOp) {
	o.RErrAt = g.n(o.inLen() + 1)
	o.RErrTg = g.n(3) == 0
	if o.RErrE = g.likeErr(false); o.RErrE == eofErr {
		o.RErrE = 2
	}
	o.ROnce = g.n(4) == 0
}

func genC11(g *gen) {
	docs := []string{g.document()}
	for k := g.n(3); k > 0; k-- {
		docs = append(docs, g.document())
	}
	nt := g.in(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 3); k > 0; k-- {
			o := g.genOp(docs[g.n(len(docs))])
			switch g.n(6) {
			case 0, 1:
				g.readFault(o)
			case 2:
				if g.n(8) == 0 {
					g.readFault(o)
					o.RPanic = true
				}
			}
			ops = append(ops, Op{K: "gen", Gen: o})
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

func genC12(g *gen) {
	nt := 1
	if g.n(4) == 0 {
		nt = 2
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 3); k > 0; k-- {
			o := g.genOp(g.document())
			o.Rep = 0
			if g.n(6) == 0 {
				g.readFault(o)
			}
			b, c := refGenerate(o.Pkg, o.input())
			for i := g.in(1, 2); i > 0; i-- {
				p := 0
				if g.n(20) == 0 {
					p = 100
				}
				f := g.wfault(0, len(b)+len(c), p)
				if f.Byte < 0 && g.n(2) == 0 {
					f.Call = g.n(1 + (len(b)+len(c))/10)
				}
				o.Faults = append(o.Faults, f)
			}
			if g.n(12) == 0 {
				o.Faults = nil
			}
			ops = append(ops, Op{K: "gen", Gen: o})
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C13

func genC13(g *gen) {
	g.swarm()
	g.p.dyn = 70
	g.p.imp, g.p.collect, g.p.custom, g.p.iter = 10, 8, 8, 12
	g.p.nested = 0
	g.parts(g.n(3), g.n(3), g.n(2))
	g.trees(g.in(1, 2))
	if g.n(8) == 0 {
		g.templates(1)
	}
	cbs := g.callbacks()
	nt := g.in(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 3); k > 0; k-- {
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees)), Env: g.env(tagOf(t, len(ops)))}
			if len(g.sc.Tpls) > 0 && g.n(2) == 0 {
				op.K, op.Tree = "exec", g.n(len(g.sc.Tpls))
			}
			if g.n(5) < 2 {
				g.fault(&op, rootEnv(op.Env), 0, 1, 0, 40, cbs)
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C14

var getDataKinds = []string{"s", "s", "int", "int64", "bool", "f64", "nil", "strings", "inner", "error", "stringer", "map", "namedkey"}

func (g *gen) getData() Val {
	return Val{K: getDataKinds[g.n(len(getDataKinds))], S: "v" + strconv.Itoa(g.n(100)), I: int64(g.n(100)), F: float64(g.n(100)) / 4}
}

func (g *gen) getCargo() Val {
	return Val{K: cargoShapes[g.n(len(cargoShapes))], S: "g" + strconv.Itoa(g.n(1000)), I: int64(g.n(1000))}
}

func (g *gen) getCtx(keys []string) GetCtx {
	c := GetCtx{Cargo: g.getCargo(), Par: g.n(3) == 0, Nil: g.n(6) == 0}
	if !c.Nil {
		for k := g.n(4); k > 0; k-- {
			c.Data = setKV(c.Data, keys[g.n(len(keys))], g.getData())
		}
	}
	return c
}

func (g *gen) getOp(nc int, keys, types []string) Op {
	op := Op{K: "get", Get: &GetOp{Ctx: g.n(nc), Key: keys[g.n(len(keys))], T: types[g.n(len(types))], Must: g.n(6) == 0, Nil: g.n(80) == 0}}
	if g.n(5) == 0 {
		v := g.getData()
		if g.n(4) == 0 {
			v = Val{K: "del"}
		}
		op.Set = []KV{{keys[g.n(len(keys))], v}}
	}
	if g.n(8) == 0 {
		c := g.getCargo()
		op.Cargo = &c
	}
	return op
}

func genC14(g *gen) {
	nc := g.in(1, 4)
	keys := getKeys
	if g.n(2) == 0 { // few keys, so that the same ones meet different contexts
		keys = nil
		for k := g.in(1, 4); k > 0; k-- {
			keys = append(keys, getKeys[g.n(len(getKeys))])
		}
	}
	types := getTypes
	if g.n(3) == 0 {
		types = []string{getTypes[g.n(len(getTypes))], getTypes[g.n(len(getTypes))]}
	}
	for i := 0; i < nc; i++ {
		g.sc.Gets = append(g.sc.Gets, g.getCtx(keys))
	}
	nt := g.in(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(3, 20); k > 0; k-- {
			ops = append(ops, g.getOp(nc, keys, types))
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C15

func genC15(g *gen) {
	if g.n(40) == 0 {
		genScale(g)
		return
	}
	g.swarm()
	g.p.iter = 16
	g.p.setdata = 0
	if g.n(3) == 0 {
		g.bigD = g.in(1, 6)
	}
	g.parts(g.n(3), g.n(2), g.n(2))
	g.trees(g.in(1, 2))
	if g.n(4) == 0 {
		g.templates(1)
	}
	cbs := g.callbacks()
	nt := g.in(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 3); k > 0; k-- {
			if g.n(5) == 0 {
				o := g.genOp(g.document())
				if g.n(10) == 0 {
					o.Rep = g.in(1, 60)
				}
				switch g.n(4) {
				case 0:
					o.Dead = true
				case 1:
					g.readFault(o)
					o.RPanic = g.n(4) == 0
				}
				if g.n(3) == 0 {
					o.Faults = append(o.Faults, g.wfault(0, 300, 20))
				} else if g.n(3) == 0 {
					o.Faults = append(o.Faults, g.muteFault(300))
				}
				ops = append(ops, Op{K: "gen", Gen: o})
				continue
			}
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees)), Env: g.env(tagOf(t, len(ops)))}
			if len(g.sc.Tpls) > 0 && g.n(3) == 0 {
				op.K, op.Tree = "exec", g.n(len(g.sc.Tpls))
			}
			if g.n(8) == 0 && op.Env.W != "buffer" {
				op.Faults = append(op.Faults, g.muteFault(200))
			} else if g.n(3) > 0 {
				g.fault(&op, rootEnv(op.Env), 0, g.in(1, 2), 35, 35, cbs)
				if g.n(3) == 0 && op.Env.W != "buffer" {
					op.Faults = append(op.Faults, g.stallFault(100))
				}
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C16

func genC16(g *gen) {
	g.p.reg = 75
	g.p.headers = 6
	g.p.args = 20
	g.p.condAttr = 3
	g.p.attr = g.in(10, 35)
	g.p.iter, g.p.imp, g.p.cond, g.p.custom, g.p.collect, g.p.comment, g.p.pi = 1, 1, 1, 0, 1, 4, 2
	g.p.nested, g.p.setdata = 0, 0
	g.p.dyn = 15
	g.p.ref = 2
	g.p.depth = g.in(1, 3)
	g.p.nodes = g.in(1, 6)
	g.parts(g.n(3), g.n(2), g.in(0, 3))
	g.trees(g.in(0, 1))
	shared := len(g.sc.Trees)
	nt := g.in(1, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		var mine []int
		for k := g.in(2, 8); k > 0; k-- {
			var n *Node
			switch g.n(5) {
			case 0, 1:
				n = g.attrNode(false, true)
			case 2:
				n = &Node{K: "el", N: "div", C: []*Node{g.attrNode(false, true)}}
			default:
				n = g.tree()
			}
			g.sc.Trees = append(g.sc.Trees, g.ownRoot(n))
			i := len(g.sc.Trees) - 1
			mine = append(mine, i)
			ops = append(ops, Op{K: "build", Tree: i})
			if g.n(5) == 0 {
				ops = append(ops, Op{K: "render", Local: true, Tree: mine[g.n(len(mine))], Env: g.env(tagOf(t, len(ops)))})
			}
		}
		for _, i := range mine {
			ops = append(ops, Op{K: "render", Local: true, Tree: i, Env: g.env(tagOf(t, len(ops)))})
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
	for i := 0; i < shared; i++ {
		g.sc.Post = append(g.sc.Post, Op{K: "render", Tree: i, Env: g.env("P" + strconv.Itoa(i))})
	}
}

// ---- C17

func genC17(g *gen) {
	g.swarm()
	g.p.nested = 0
	g.p.nodes = []int{3, 6, 12}[g.n(3)]
	g.parts(g.n(3), g.n(2), g.n(2))
	g.trees(g.in(2, 4))
	cbs := g.callbacks()
	nt := g.in(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		type slot struct {
			env  *menv
			base int
			op   int
			tag  string
		}
		slots := map[int]*slot{}
		for k := g.in(3, 8); k > 0; k-- {
			c := g.n(2)
			op := Op{K: "render", Ctx: c, Tree: g.n(len(g.sc.Trees))}
			s := slots[c]
			if s == nil || g.n(6) == 0 {
				op.Env = g.env(tagOf(t, len(ops)))
				op.Env.PreErr = g.n(12) == 0
				if op.Env.PreErr {
					op.Env.PreE = g.likeErr(false)
				}
				s = &slot{env: rootEnv(op.Env), op: len(ops), tag: op.Env.Tag}
				slots[c] = s
			} else {
				if g.n(2) == 0 {
					op.Set = g.flips()
				}
				if g.n(4) == 0 {
					op.Cargo = &Val{K: "s", S: "cg" + strconv.Itoa(g.n(10))}
				}
				if g.n(4) == 0 {
					op.Poke = g.pokes()
				}
				s.env.before(&op)
			}
			ops = append(ops, op)
			first := &ops[s.op]
			// plan against the fault-free course of this stream
			m := &model{sc: g.sc, env: s.env, tag: s.tag}
			m.render(g.sc.Trees[op.Tree])
			if g.n(5) == 0 && len(m.out) > 0 {
				if g.n(2) == 0 {
					if first.Env.W == "buffer" {
						first.Env.W = ""
					}
					f := g.wfault(s.base, len(m.out), 4)
					first.Faults = append(first.Faults, f)
				} else if f, ok := g.cbfault(m, cbs, 4); ok {
					ops[len(ops)-1].CB = append(ops[len(ops)-1].CB, f)
				}
			}
			s.base += len(m.out)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C23

// share makes a context use the data of others.
func (g *gen) share(e *Env) *Env {
	if n := len(g.sc.Shared); n > 0 && g.n(4) > 0 {
		e.Share = 1 + g.n(n)
		s := g.sc.Shared[e.Share-1]
		e.Data, e.Cargo, e.NoData = s.Data, s.Cargo, s.NoData
	}
	return e
}

func genC23(g *gen) {
	for k := g.in(1, 2); k > 0; k-- {
		e := g.env("S" + strconv.Itoa(k))
		g.sc.Shared = append(g.sc.Shared, &Env{Data: e.Data, Cargo: e.Cargo, NoData: e.NoData})
	}
	g.swarm()
	g.p.setdata = 0
	g.p.iter = []int{4, 16, 40}[g.n(3)]
	g.p.nodes = []int{3, 6, 10, 20}[g.n(4)]
	g.p.dyn = 50
	g.parts(g.n(3), g.n(2), g.n(2))
	g.trees(g.in(1, 3))
	if g.n(4) == 0 {
		g.templates(1)
	}
	cbs := g.callbacks()
	nt := g.in(1, 4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 3); k > 0; k-- {
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees)), Env: g.share(g.env(tagOf(t, len(ops))))}
			if len(g.sc.Tpls) > 0 && g.n(2) == 0 {
				op.K, op.Tree = "exec", g.n(len(g.sc.Tpls))
			}
			if g.n(3) == 0 {
				g.fault(&op, rootEnv(op.Env), 0, 1, 20, 50, cbs)
			}
			ops = append(ops, op)
			if g.n(10) == 0 {
				o := g.genOp(g.document())
				o.R, o.W = "rich", []string{"rich", "file"}[g.n(2)]
				if g.n(4) == 0 {
					g.readFault(o)
				}
				if g.n(3) == 0 {
					o.Faults = append(o.Faults, g.wfault(0, 100, 20))
				}
				ops = append(ops, Op{K: "gen", Gen: o})
			}
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// ---- C24

func genC24(g *gen) {
	if g.n(60) == 0 {
		if g.n(3) == 0 {
			g.genSoak()
		} else {
			g.soak(g.n(2) * 50)
		}
		return
	}
	g.swarm()
	g.p.dyn = 50
	g.p.imp, g.p.collect, g.p.custom, g.p.iter = 10, 8, 8, 12
	g.p.nodes = []int{3, 6, 12, 24}[g.n(4)]
	g.parts(g.n(3), g.n(2), g.n(2))
	g.trees(g.in(1, 2))
	if g.n(4) == 0 {
		g.templates(1)
	}
	cbs := g.callbacks()
	nt := g.in(1, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := g.in(1, 4); k > 0; k-- {
			if g.n(4) == 0 {
				o := g.genOp(g.document())
				if g.n(4) == 0 {
					g.readFault(o)
					o.RPanic = g.n(6) == 0
				}
				if g.n(2) == 0 {
					o.Faults = append(o.Faults, g.wfault(0, 100, 20))
				}
				if g.n(2) == 0 {
					o.Stall = int64(g.in(1, 100)) * 1000
				}
				ops = append(ops, Op{K: "gen", Gen: o})
				continue
			}
			op := Op{K: "render", Tree: g.n(len(g.sc.Trees)), Env: g.env(tagOf(t, len(ops)))}
			if len(g.sc.Tpls) > 0 && g.n(3) == 0 {
				op.K, op.Tree = "exec", g.n(len(g.sc.Tpls))
			}
			if g.n(5) < 3 {
				g.fault(&op, rootEnv(op.Env), 0, g.in(1, 2), 30, 45, cbs)
			}
			if g.n(3) == 0 && op.Env.W != "buffer" {
				op.Faults = append(op.Faults, g.stallFault(100))
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
}

// genSoak: many generations that fail, one after the other.
func (g *gen) genSoak() {
	o := g.genOp(g.document())
	o.Rep = 0
	if g.n(2) == 0 {
		g.readFault(o)
	}
	if g.n(3) > 0 {
		o.Faults = append(o.Faults, g.wfault(0, 100, 20))
	}
	op := Op{K: "gen", Gen: o, Rep: []int{70, 140, 300}[g.n(3)]}
	g.sc.Tasks = append(g.sc.Tasks, Task{[]Op{op}})
}
