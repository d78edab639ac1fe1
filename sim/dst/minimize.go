package main

import (
	"encoding/json"
	"sync"
	"time"

	"verifsim/simrt"
)

// minimizer shrinks a failing replay file; every attempt runs in a fresh process.
type minimizer struct {
	rn    *runner
	class string
	end   time.Time
	tries int
}

func (m *minimizer) sameClass(vs []violation) bool {
	for _, v := range vs {
		if v.Class == m.class {
			return true
		}
	}
	return false
}

func (m *minimizer) fails(rf *replayFile) bool {
	r, _ := m.rn.try(rf)
	return r != nil && m.sameClass(r.Viols)
}

func (rf *replayFile) clone() *replayFile {
	c := *rf
	b, _ := json.Marshal(rf.Scenario)
	c.Scenario = &Scenario{}
	json.Unmarshal(b, c.Scenario)
	c.Scenario.link()
	return &c
}

// firstFailing tries candidates in parallel and returns the first (in order) that still fails.
func (m *minimizer) firstFailing(cs []*replayFile) *replayFile {
	const par = 8
	for at := 0; at < len(cs); at += par {
		if time.Now().After(m.end) {
			return nil
		}
		n := len(cs) - at
		if n > par {
			n = par
		}
		ok := make([]bool, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ok[i] = m.fails(cs[at+i])
			}(i)
		}
		wg.Wait()
		m.tries += n
		for i := 0; i < n; i++ {
			if ok[i] {
				return cs[at+i]
			}
		}
	}
	return nil
}

// script fixes the schedule of a failing file to the switches it took.
func (m *minimizer) script(rf *replayFile) *replayFile {
	r, _ := m.rn.try(rf)
	if r == nil || !m.sameClass(r.Viols) {
		return rf
	}
	c := rf.clone()
	c.Scenario.Cfg.Strat = simrt.Strategy{Kind: "script"}
	c.Scenario.Cfg.Script = r.Switches
	if m.fails(c) {
		return c
	}
	return rf
}

// variants of a candidate: its own schedule first, then simple ones.
func variants(c *replayFile) []*replayFile {
	vs := []*replayFile{}
	ser := c.clone()
	ser.Scenario.Cfg.Strat = simrt.Strategy{Kind: "serial"}
	ser.Scenario.Cfg.Script = nil
	vs = append(vs, ser, c)
	if len(c.Scenario.Tasks) > 1 {
		for i, g := range []int64{1, 3, 10, 40} {
			u := c.clone()
			u.Scenario.Cfg.Strat = simrt.Strategy{Kind: "uniform", Gap: g}
			u.Scenario.Cfg.Script = nil
			u.Scenario.Cfg.Seed += uint64(i)
			vs = append(vs, u)
		}
	}
	return vs
}

func (m *minimizer) minimise(rf *replayFile) *replayFile {
	// shorter history first
	for len(rf.Prelude) > 0 {
		n := len(rf.Prelude)
		var cs []*replayFile
		for size := n / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= n; at += size {
				c := *rf
				c.Prelude = append(append([]*Scenario(nil), rf.Prelude[:at]...), rf.Prelude[at+size:]...)
				cs = append(cs, &c)
			}
			if len(cs) > 200 {
				break
			}
		}
		if n == 1 {
			c := *rf
			c.Prelude = nil
			cs = []*replayFile{&c}
		}
		g := m.firstFailing(cs)
		if g == nil {
			break
		}
		rf = g
	}
	// then a smaller scenario, unless it is two sizes that are compared
	for pass := 0; pass < 60 && !rf.Scenario.Scale && time.Now().Before(m.end); pass++ {
		progress := false
		for _, red := range reductions {
			for at := 0; time.Now().Before(m.end); {
				var cs []*replayFile
				var pos []int
				for k := 0; k < 4; k++ {
					c := rf.clone()
					if !red(c.Scenario, at+k) {
						break
					}
					if !valid(c.Scenario) {
						continue
					}
					for _, v := range variants(c) {
						cs = append(cs, v)
						pos = append(pos, at+k)
					}
				}
				if len(cs) == 0 {
					c := rf.clone()
					if !red(c.Scenario, at) {
						break
					}
					at += 4
					continue
				}
				g := m.firstFailing(cs)
				if g == nil {
					at += 4
					continue
				}
				rf = g
				progress = true
			}
		}
		if !progress {
			break
		}
	}
	rf = m.script(rf)
	// and a shorter schedule
	for rf.Scenario.Cfg.Strat.Kind == "script" && time.Now().Before(m.end) {
		s := rf.Scenario.Cfg.Script
		var cs []*replayFile
		for size := len(s); size >= 1; size /= 2 {
			for at := 0; at+size <= len(s); at += size {
				c := rf.clone()
				c.Scenario.Cfg.Script = append(append([]simrt.Switch(nil), s[:at]...), s[at+size:]...)
				cs = append(cs, c)
			}
			if len(cs) > 120 {
				break
			}
		}
		g := m.firstFailing(cs)
		if g == nil {
			break
		}
		rf = g
	}
	return rf
}

// A reduction removes the k-th thing of its kind; false when there is no k-th thing.
type reduction func(sc *Scenario, k int) bool

func del[T any](s []T, i int) []T { return append(append([]T(nil), s[:i]...), s[i+1:]...) }

// drop makes a reduction that removes the k-th element of any of the lists f visits.
func drop(f func(sc *Scenario, visit func(n int, cut func(i int)))) reduction {
	return func(sc *Scenario, k int) bool {
		done := false
		f(sc, func(n int, cut func(i int)) {
			if done {
				return
			}
			if k < n {
				cut(k)
				done = true
				return
			}
			k -= n
		})
		return done
	}
}

func allOps(sc *Scenario, f func(op *Op)) {
	for i := range sc.Tasks {
		for k := range sc.Tasks[i].Ops {
			f(&sc.Tasks[i].Ops[k])
		}
	}
	for k := range sc.Post {
		f(&sc.Post[k])
	}
}

func walkNodes(sc *Scenario, f func(list *[]*Node)) {
	var node func(n *Node)
	var list func(l *[]*Node)
	list = func(l *[]*Node) {
		f(l)
		for _, n := range *l {
			node(n)
		}
	}
	node = func(n *Node) {
		if n.Kargs == 0 {
			list(&n.C)
		}
		list(&n.C2)
		for i := range n.Ops {
			list(&n.Ops[i].C)
		}
	}
	for _, n := range sc.Trees {
		node(n)
	}
	for _, n := range sc.Comps {
		node(n)
	}
	for i := range sc.Kids {
		list(&sc.Kids[i])
	}
}

// walkPieces visits every list of pieces of a template.
func walkPieces(l *[]Piece, f func(l *[]Piece)) {
	f(l)
	for i := range *l {
		walkPieces(&(*l)[i].L, f)
		walkPieces(&(*l)[i].E, f)
	}
}

func eachNode(sc *Scenario, f func(n *Node)) {
	for _, n := range sc.Trees {
		f(n)
	}
	for _, n := range sc.Comps {
		f(n)
	}
	walkNodes(sc, func(l *[]*Node) {
		for _, n := range *l {
			f(n)
		}
	})
}

var reductions = []reduction{
	// a whole caller
	drop(func(sc *Scenario, visit func(int, func(int))) {
		if len(sc.Tasks) > 1 {
			visit(len(sc.Tasks), func(i int) { sc.Tasks = del(sc.Tasks, i) })
		}
	}),
	drop(func(sc *Scenario, visit func(int, func(int))) {
		visit(len(sc.Post), func(i int) { sc.Post = del(sc.Post, i) })
	}),
	drop(func(sc *Scenario, visit func(int, func(int))) {
		for t := range sc.Tasks {
			visit(len(sc.Tasks[t].Ops), func(i int) { sc.Tasks[t].Ops = del(sc.Tasks[t].Ops, i) })
		}
	}),
	drop(func(sc *Scenario, visit func(int, func(int))) {
		allOps(sc, func(op *Op) {
			visit(len(op.Faults), func(i int) { op.Faults = del(op.Faults, i) })
			visit(len(op.CB), func(i int) { op.CB = del(op.CB, i) })
			visit(len(op.Set), func(i int) { op.Set = del(op.Set, i) })
			visit(len(op.Poke), func(i int) { op.Poke = del(op.Poke, i) })
			if op.Gen != nil {
				visit(len(op.Gen.Faults), func(i int) { op.Gen.Faults = del(op.Gen.Faults, i) })
			}
		})
	}),
	// replace a tree by one of its descendants
	func(sc *Scenario, k int) bool {
		for t := range sc.Trees {
			n := sc.Trees[t]
			kids := append(append([]*Node(nil), n.C...), n.C2...)
			for i := range n.Ops {
				kids = append(kids, n.Ops[i].C...)
			}
			if k < len(kids) {
				c := kids[k]
				if c.K == "nilnode" {
					c = &Node{K: "coll"}
				}
				c.Raw = false
				sc.Trees[t] = (&gen{sc: sc}).ownRoot(c)
				return true
			}
			k -= len(kids)
		}
		return false
	},
	// a subtree
	drop(func(sc *Scenario, visit func(int, func(int))) {
		walkNodes(sc, func(l *[]*Node) {
			visit(len(*l), func(i int) { *l = del(*l, i) })
		})
	}),
	// a level: a node replaced by its contents
	func(sc *Scenario, k int) bool {
		done := false
		walkNodes(sc, func(l *[]*Node) {
			for i := 0; i < len(*l) && !done; i++ {
				n := (*l)[i]
				if len(n.C) == 0 || n.K == "doc" {
					continue
				}
				if k > 0 {
					k--
					continue
				}
				kids := append([]*Node(nil), n.C...)
				for _, c := range kids {
					c.Raw = false
				}
				*l = append(append(append([]*Node(nil), (*l)[:i]...), kids...), (*l)[i+1:]...)
				done = true
			}
		})
		return done
	},
	// simpler ways to the same
	drop(func(sc *Scenario, visit func(int, func(int))) {
		if sc.Churn {
			visit(1, func(int) { sc.Churn = false })
		}
		eachNode(sc, func(n *Node) {
			if n.Kargs > 0 {
				visit(1, func(int) { n.Kargs, n.C = 0, append([]*Node(nil), n.C...) })
			}
		})
		allOps(sc, func(op *Op) {
			if op.Rep > 1 {
				visit(1, func(int) { op.Rep = 0 })
				visit(1, func(int) { op.Rep /= 2 })
				visit(1, func(int) { op.Rep -= op.Rep / 8 })
			}
			if op.Gen != nil && op.Gen.ROnce {
				visit(1, func(int) { op.Gen.ROnce = false })
			}
			for i := range op.Faults {
				if op.Faults[i].Same {
					visit(1, func(int) { op.Faults[i].Same = false })
				}
				if op.Faults[i].E > 0 {
					visit(1, func(int) { op.Faults[i].E = 0 })
				}
			}
			for i := range op.CB {
				if op.CB[i].All {
					visit(1, func(int) { op.CB[i].All = false })
				}
				if op.CB[i].E > 0 {
					visit(1, func(int) { op.CB[i].E = 0 })
				}
			}
		})
	}),
	drop(func(sc *Scenario, visit func(int, func(int))) {
		eachNode(sc, func(n *Node) {
			visit(len(n.Ops), func(i int) { n.Ops = del(n.Ops, i) })
			if !n.Raw && n.Via != "hxheaders" && n.Via != "hxheadersjs" {
				visit(len(n.V), func(i int) { n.V = del(n.V, i) })
			}
			for k := range n.V {
				v := &n.V[k]
				if v.K == "hmap" {
					visit(1, func(int) { *v = Val{K: "map", M: sc.HMaps[v.R]} })
				}
				if v.K == "map" {
					visit(len(v.M), func(i int) { v.M = del(v.M, i) })
				}
			}
			if n.Src != nil {
				visit(len(n.Src.L), func(i int) { n.Src.L = del(n.Src.L, i) })
			}
		})
	}),
	drop(func(sc *Scenario, visit func(int, func(int))) {
		for t := range sc.Tpls {
			walkPieces(&sc.Tpls[t].Pieces, func(l *[]Piece) {
				visit(len(*l), func(i int) { *l = del(*l, i) })
			})
		}
	}),
	drop(func(sc *Scenario, visit func(int, func(int))) {
		for t := range sc.Tpls {
			walkPieces(&sc.Tpls[t].Pieces, func(l *[]Piece) {
				for i := range *l {
					if p := (*l)[i]; len(p.L) > 0 {
						visit(1, func(int) { *l = append(append(append([]Piece(nil), (*l)[:i]...), p.L...), (*l)[i+1:]...) })
					}
					if p := (*l)[i]; len(p.E) > 0 {
						visit(1, func(int) { *l = append(append(append([]Piece(nil), (*l)[:i]...), p.E...), (*l)[i+1:]...) })
					}
				}
			})
		}
	}),
	// data
	drop(func(sc *Scenario, visit func(int, func(int))) {
		allOps(sc, func(op *Op) {
			if op.Env != nil && op.Env.Share == 0 {
				visit(len(op.Env.Data), func(i int) { op.Env.Data = del(op.Env.Data, i) })
			}
		})
		for _, e := range sc.Shared {
			visit(len(e.Data), func(i int) { e.Data = del(e.Data, i) })
			if e.Cargo != nil {
				visit(1, func(int) { e.Cargo = nil })
			}
		}
		for i := range sc.Gets {
			visit(len(sc.Gets[i].Data), func(k int) { sc.Gets[i].Data = del(sc.Gets[i].Data, k) })
		}
	}),
	drop(func(sc *Scenario, visit func(int, func(int))) {
		allOps(sc, func(op *Op) {
			e := op.Env
			if e != nil && (e.W != "" || e.Piece != 0) {
				visit(1, func(int) { e.W, e.Piece = "", 0 })
			}
			if e != nil && e.Cargo != nil && e.Share == 0 {
				visit(1, func(int) { e.Cargo = nil })
			}
			if e != nil && e.Up != nil {
				visit(1, func(int) { e.Up = e.Up.Up })
			}
			if op.Again {
				visit(1, func(int) { op.Again = false })
			}
			if op.Clone {
				visit(1, func(int) { op.Clone = false })
			}
			if op.Think > 0 {
				visit(1, func(int) { op.Think = 0 })
			}
			if op.Gen != nil {
				if op.Gen.Rep > 1 {
					visit(1, func(int) { op.Gen.Rep = 1 })
				}
				if len(op.Gen.Chunks) > 0 {
					visit(1, func(int) { op.Gen.Chunks = nil })
				}
				if op.Gen.Empty > 0 {
					visit(1, func(int) { op.Gen.Empty = 0 })
				}
				if op.Gen.Stall > 0 {
					visit(1, func(int) { op.Gen.Stall = 0 })
				}
				if n := len(op.Gen.In); n > 1 {
					visit(1, func(int) { op.Gen.In = op.Gen.In[:n/2] })
					visit(1, func(int) { op.Gen.In = op.Gen.In[n/2:] })
				}
				if n := len(op.Gen.In); n > 8 {
					for s := n / 8; s <= 7*n/8; s += 1 + n/8 {
						visit(1, func(int) { op.Gen.In = op.Gen.In[:s] + op.Gen.In[s+n/8:] })
					}
				}
			}
		})
	}),
}

// valid keeps reductions within what the generator may produce.
func valid(sc *Scenario) bool {
	g := &gen{sc: sc, p: baseProf}
	ok := true
	leaf := func(n *Node) {
		if n.K == "dattr" && n.Args == 0 && len(n.V) > 0 && n.Via != "prop" {
			f := (&model{sc: sc}).flatAll(n)
			if len(f) > 0 && !g.neverEmpty(f[len(f)-1]) {
				ok = false
			}
		}
		if n.K == "text" && n.Raw && len(n.V) != 1 {
			ok = false
		}
	}
	eachNode(sc, func(n *Node) {
		leaf(n)
		if n.K == "el" || n.K == "void" || n.K == "doc" {
			if !g.orderOK(n.C) || !g.orderOK(n.C2) {
				ok = false
			}
		}
		for i := range n.Ops {
			if n.Ops[i].K == "start" {
				for _, c := range n.Ops[i].C {
					d := (&model{sc: sc}).deref(c)
					if (d.K == "attr" || d.K == "dattr") && !g.strictOK(d) || d.K == "cattr" {
						ok = false
					}
				}
			}
		}
		if n.K == "iter" || n.K == "yield" || n.K == "iterkey" || n.K == "cond" || n.K == "custom" {
			if len(n.C) == 0 && n.K != "custom" {
				ok = false
			}
			for _, c := range n.C {
				if c.K == "nilnode" || n.K == "custom" && isAttr((&model{sc: sc}).deref(c)) {
					ok = false
				}
			}
		}
	})
	return ok
}
