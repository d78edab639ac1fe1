package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// A long scenario is carried out again and again in one process. Its shared trees and templates live on,
// everything else is new each time: contexts, data, cargo, writers, readers, the trees and templates that
// tasks build, and the contents of all text and data. Once a round is over and its callers have dropped
// what they had, the memory in use must be what it was after the round before, and no round may take more
// steps than those before.

// phase is where the number of the round goes in texts and data.
const phase = "~P000000~"

// round is the scenario with the contents of round k. text is its description.
func round(text []byte, k int) *Scenario {
	sc := &Scenario{}
	n := fmt.Sprintf("~P%06d~", k)
	if err := json.Unmarshal(bytes.ReplaceAll(text, []byte(phase), []byte(n)), sc); err != nil {
		panic("harness: " + err.Error())
	}
	return sc
}

// heap is what is in use when all that could be collected has been.
func heap() (objects, size int64) {
	simrt.Forget()
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.Gosched() // finalizers
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapObjects), int64(m.HeapAlloc)
}

func (w *world) over() bool { return w.stats.Runaway || w.stats.Deadlock || w.stats.Crashed }

const (
	perRoundObj  = 1  // growth of this many objects
	perRoundSize = 64 // or bytes per round is too much

	tooMany    = 30000   // so many objects in all are no cache any more
	tooBigSize = 3 << 20 // nor is so much memory
	maxRounds  = 4000
	maxSteps   = 1 << 26
)

// drop cuts what belongs to a round to pieces, so that something that is kept does not keep the rest.
func (w *world) drop() {
	for _, r := range w.runs {
		if r.st != nil {
			*r.st = stream{}
		}
		*r = opRun{}
	}
	for _, ts := range w.tasks {
		*ts.b = builder{}
		*ts = taskState{}
	}
	*w = world{}
}

func runLong(sc *Scenario) *runResult {
	first := execute(sc)
	j := &judge{w: first}
	res := &runResult{world: first, judge: j, stats: first.stats}
	res.Viols = j.check()
	res.Sched = first.stats.Hash
	res.Finger = first.finger()
	if first.over() || len(first.tasks) == 0 {
		return res
	}
	text, err := json.Marshal(sc)
	if err != nil {
		panic("harness: " + err.Error())
	}
	b := first.b
	lent := len(b.lent)
	done, dead := 0, false
	steps := []int64{first.stats.Steps}
	type use struct{ obj, size int64 }
	at := map[int]use{}
	until := func(n int) {
		for done < n && !dead {
			done++
			w := executeAfter(first, round(text, done))
			dead = w.over()
			steps = append(steps, w.stats.Steps)
			first.rounds++
			if done < 5 {
				res.Finger = mix(res.Finger, w.finger())
				first.pstat.Steps += w.stats.Steps
				first.pstat.Points += w.stats.Points
				first.pstat.Now += w.stats.Now
				if len(res.Viols) == 0 {
					res.Viols = (&judge{w: w}).check()
				}
			}
			curWorld = first
			w.drop()
			b.lent = b.lent[:lent]
			b.owned = &ownedList{}
		}
		if _, ok := at[n]; !ok {
			o, s := heap()
			at[n] = use{o, s}
		}
	}
	// objects says whether every round from a to b has left objects behind
	objects := func(a, b int) bool {
		until(a)
		until(b)
		return at[b].obj-at[a].obj >= perRoundObj*int64(b-a)
	}
	size := func(a, b int) bool { return at[b].size-at[a].size >= perRoundSize*int64(b-a) }
	obj := objects(1, 4)
	siz := size(1, 4)
	slow := !dead && steps[4] > steps[1]+10
	if dead || !obj && !siz && !slow {
		return res
	}
	// a cache that fills up is not at issue: does it go on?
	last, full, sized := 16, false, false
	for (obj || siz || slow) && last < maxRounds && int64(last)*steps[0] < maxSteps {
		n := last * 2
		mid := last + (n-last)/2
		o := objects(last, mid)
		o = objects(mid, n) && o
		if dead {
			return res
		}
		obj = obj && o
		siz = siz && size(last, n) && at[n].obj-at[last].obj < perRoundObj*int64(n-last)
		slow = slow && steps[n] > steps[mid] && steps[mid] > steps[last]
		last = n
		if full = obj && at[n].obj-at[16].obj >= tooMany; full {
			break
		}
		if sized = siz && at[n].size-at[16].size >= tooBigSize; sized {
			break
		}
	}
	if full {
		res.Viols = append(res.Viols, violation{Class: "retained", Op: "rounds",
			Msg: "after each round everything has been let go of, and yet more objects are in use than after the round before, without end"})
	} else if sized {
		res.Viols = append(res.Viols, violation{Class: "retained", Op: "rounds",
			Msg: "after each round everything has been let go of, and yet something that remains in use has become bigger, without end"})
	}
	if slow && steps[last] > 3*steps[1] {
		res.Viols = append(res.Viols, violation{Class: "slower", Op: "rounds", Msg: "the more operations there have been, the more steps each takes, without end"})
	}
	return res
}

// stamp puts the number of the round into texts and data, but for those of what lives on.
func (sc *Scenario) stamp(g *gen) {
	n := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() >= reflect.Array {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case reflect.Struct:
			if x, ok := v.Addr().Interface().(*Val); ok && x.K == "s" && x.S != "" && g.n(4) > 0 {
				n++
				x.S += phase + strconv.Itoa(n)
			} else if x, ok := v.Addr().Interface().(*GenOp); ok {
				n++
				x.In = "<!--" + phase + strconv.Itoa(n) + "-->" + x.In
			}
			n, _ := v.Addr().Interface().(*Node)
			for i := 0; i < v.NumField(); i++ {
				if n != nil && n.Kargs > 0 && v.Type().Field(i).Name == "C" {
					continue // shared
				}
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		}
	}
	loc := sc.localTrees()
	for i, t := range sc.Trees {
		if loc[i] {
			walk(reflect.ValueOf(t))
		}
	}
	walk(reflect.ValueOf(sc.Tasks))
}

func genC25(g *gen) {
	g.swarm()
	g.sc.Long = true
	g.p.nodes = g.in(2, 10)
	g.p.depth = g.in(1, 3)
	g.bigD = 0
	g.parts(g.n(4), g.n(3), g.n(3))
	g.trees(g.in(1, 3))
	shared := len(g.sc.Trees)
	if g.n(3) > 0 {
		g.templates(g.in(1, 2))
	}
	own := len(g.sc.Trees)
	g.trees(g.in(1, 4))
	local := len(g.sc.Trees) - own
	for i := g.n(3); i > 0; i-- {
		g.sc.Gets = append(g.sc.Gets, g.getCtx(getKeys))
	}
	cbs := g.callbacks()
	bulk := -1
	if g.n(3) == 0 { // a lot of data
		bulk = g.addBulk()
	}
	nt := []int{1, 1, 2, 3}[g.n(4)]
	for t := 0; t < nt; t++ {
		var ops []Op
		if t == 0 && bulk >= 0 {
			ops = append(ops, g.bulkOp(bulk, cbs))
		}
		built := map[int]bool{}
		for k := g.in(8, 60) / nt; k > 0; k-- {
			var op Op
			switch g.n(12) {
			case 0, 1, 2, 3:
				op = Op{K: "render", Tree: g.n(shared), Env: g.env(tagOf(t, len(ops)))}
			case 4, 5, 6, 7:
				i := own + g.n(local)
				if !built[i] || g.n(3) == 0 {
					ops = append(ops, Op{K: "build", Tree: i})
					built[i] = true
				}
				op = Op{K: "render", Tree: i, Local: true, Env: g.env(tagOf(t, len(ops)))}
			case 8, 9:
				if len(g.sc.Tpls) == 0 {
					continue
				}
				i := g.n(len(g.sc.Tpls))
				op = Op{K: "exec", Tree: i, Env: g.env(tagOf(t, len(ops)))}
				if g.n(3) == 0 {
					ops = append(ops, Op{K: "buildtpl", Tree: i})
					op.Local = true
				}
			case 10:
				o := g.genOp(g.document())
				o.Rep = 0
				if g.n(4) == 0 {
					g.readFault(o)
					o.RPanic = g.n(6) == 0
				}
				if g.n(3) == 0 {
					o.Faults = append(o.Faults, g.wfault(0, 100, 20))
				}
				ops = append(ops, Op{K: "gen", Gen: o})
				continue
			default:
				if len(g.sc.Gets) > 0 {
					for n := g.in(1, 4); n > 0; n-- {
						ops = append(ops, g.getOp(len(g.sc.Gets), getKeys, getTypes))
					}
				}
				continue
			}
			if g.n(5) < 2 {
				g.fault(&op, rootEnv(op.Env), 0, 1, 40, 50, cbs)
			}
			if g.n(3) == 0 && g.planned(&op, rootEnv(op.Env)).cost < 300 {
				op.Rep = []int{2, 3, 5, 10, 40}[g.n(5)]
			}
			ops = append(ops, op)
		}
		g.sc.Tasks = append(g.sc.Tasks, Task{ops})
	}
	g.sc.stamp(g)
}

// addBulk makes a tree that shows many items of data.
func (g *gen) addBulk() int {
	show := []*Node{{K: "text", V: []Val{{K: "dot"}}}}
	switch g.n(4) {
	case 0:
		show = []*Node{{K: "el", N: "li", C: []*Node{{K: "attr", N: "x-p", V: []Val{{K: "dot"}}}, show[0]}}}
	case 1:
		g.inIt++
		show = []*Node{g.node(2), show[0]}
		g.inIt--
		if isAttr((&model{sc: g.sc}).deref(show[0])) || show[0].K == "nilnode" {
			show = show[1:]
		}
	}
	g.sc.Trees = append(g.sc.Trees, &Node{K: "iterkey", Src: &Items{K: "data", S: "l9"}, C: show})
	return len(g.sc.Trees) - 1
}

func (g *gen) bulkOp(tree int, cbs map[int]cbKind) Op {
	n := g.in(20, 150)
	if g.n(4) == 0 {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "<p id=\"%d\" title=\"%s%d\">%s-%d</p>", i, phase, i, phase, i)
		}
		o := g.genOp(sb.String())
		o.Rep = 0
		return Op{K: "gen", Gen: o}
	}
	op := Op{K: "render", Tree: tree, Env: g.env("TB")}
	op.Env.NoData, op.Env.Share = false, 0
	l := make([]Val, n)
	for i := range l {
		l[i] = Val{K: "s", S: "i<" + strconv.Itoa(i)}
		if i%7 == 6 {
			l[i] = Val{K: "map", M: []KV{{"k0", l[i]}}}
		}
	}
	op.Env.Data = setKV(op.Env.Data, "l9", Val{K: "list", L: l})
	if g.n(3) == 0 {
		g.fault(&op, rootEnv(op.Env), 0, 1, 40, 50, cbs)
	}
	return op
}
