package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"verifsim/simrt"
)

// violation is one way in which an execution broke the property.
type violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Op    string `json:"op,omitempty"`
}

func viol(class, f string, a ...any) *violation {
	return &violation{Class: class, Msg: fmt.Sprintf(f, a...)}
}

func clip(b []byte, at int) string {
	lo, hi := at-40, at+40
	pre, post := "…", "…"
	if lo <= 0 {
		lo, pre = 0, ""
	}
	if hi >= len(b) {
		hi, post = len(b), ""
	}
	if lo > hi {
		lo = hi
	}
	return fmt.Sprintf("%s%q%s", pre, b[lo:hi], post)
}

func diffAt(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

// budget of steps for an operation of a given model cost (several times what is ever needed).
func stepBudget(cost, outLen int) int64 {
	return 4000 + int64(cost)*perCost + int64(outLen)*perByte
}

const (
	perCost = 300
	perByte = 10
)

type judge struct {
	w       *world
	races   int
	sources map[int]bool // ids of the sources of iterations
	// statistics
	ops, failedOps, exactOps, events int64
	maxRatio                         float64
}

// source says whether a callback is the source of an iteration.
func (j *judge) source(id int) bool {
	if j.sources == nil {
		j.sources = map[int]bool{}
		eachNode(j.w.sc, func(n *Node) {
			if (n.K == "iter" || n.K == "yield") && n.Src != nil {
				j.sources[n.Src.ID] = true
			}
		})
	}
	return j.sources[id]
}

// expectation of an operation: model output and events.
func (j *judge) model(r *opRun, env *menv) *model {
	m := &model{sc: j.w.sc, env: env, tag: r.tag}
	if r.op.K == "exec" {
		m.tpl(j.w.sc.Tpls[r.op.Tree].Pieces)
	} else {
		m.render(r.tree)
	}
	return m
}

func modelCost(sc *Scenario, op *Op, ts map[int]*menv) int64 {
	switch op.K {
	case "render", "exec":
		v := ts[op.Ctx]
		m := &model{sc: sc, subs: map[*IOp]int64{}}
		if op.Env != nil || v == nil {
			v = rootEnv(op.Env)
			if op.K == "render" {
				ts[op.Ctx] = v
			}
		}
		if op.Env != nil {
			m.tag = op.Env.Tag
		}
		v.before(op)
		m.env = v
		if op.K == "exec" {
			m.tpl(sc.Tpls[op.Tree].Pieces)
		} else {
			m.render(sc.Trees[op.Tree])
		}
		return m.sub + stepBudget(m.cost, len(m.out)+m.built)
	case "gen":
		n := op.Gen.Rep
		if n < 1 {
			n = 1
		}
		return stepBudget(50+3*n*len(op.Gen.In), 0)
	}
	return stepBudget(20, 0)
}

func opName(r *opRun) string {
	if r.task < 0 {
		return "setup"
	}
	s := fmt.Sprintf("task %d op %d (%s", r.task, r.seq, r.op.K)
	switch r.op.K {
	case "render", "exec", "build", "buildtpl":
		s += fmt.Sprintf(" %d", r.op.Tree)
	case "gen":
		s += " " + r.op.Gen.Pkg
	}
	if r.nested {
		s += ", from within a callback"
	}
	return s + ")"
}

// check returns the violations of an execution.
func (j *judge) check() []violation {
	w := j.w
	var vs []violation
	add := func(r *opRun, v *violation) {
		if v != nil {
			if r != nil {
				v.Op = opName(r)
			}
			vs = append(vs, *v)
		}
	}
	addAll := func(r *opRun, l []*violation) {
		for _, v := range l {
			add(r, v)
		}
	}
	if w.stats.Runaway || w.pstat.Runaway {
		add(nil, viol("runaway", "the run did not finish within %d steps", w.sc.Cfg.Budget))
		return vs
	}
	if w.stats.Deadlock || w.pstat.Deadlock {
		add(nil, viol("deadlock", "every live caller waits for a lock that is never released"))
		return vs
	}
	for _, st := range []*simrt.Stats{&w.stats, &w.pstat} {
		if st.Crashed {
			add(nil, viol("panic", "a goroutine started by the library panicked, which ends the process: %v", st.Crash))
			return vs
		}
	}
	if n := w.stats.Left; n > 64 && n > len(w.runs)/3 { // a pool of workers would be smaller
		add(nil, viol("leak", "%d goroutines of the library are left waiting for ever after %d operations", n, len(w.runs)))
	}
	if j.races > 0 {
		add(nil, viol("race", "%d unsynchronised conflicting accesses (race detector)", j.races))
	}
	for _, n := range w.notes {
		add(nil, viol(n.class, "%s", n.msg))
	}
	// per stream state, in the order of use
	type ss struct {
		env  *menv
		dead bool
	}
	envs := map[*stream]*ss{}
	for _, r := range w.runs {
		j.ops++
		for _, n := range r.notes {
			add(r, viol(n.class, "%s", n.msg))
		}
		switch r.op.K {
		case "build", "buildtpl":
			if r.paniced {
				add(r, viol("panic", "construction panicked: %v", r.panicV))
			}
			if len(r.evs) > 0 {
				add(r, viol("events", "callback %d was invoked while the tree was built", r.evs[0].id))
			}
			continue
		case "get":
			add(r, checkGet(r))
			continue
		case "gen":
			add(r, j.checkGen(r))
			continue
		}
		if r.st == nil {
			continue // the operation was skipped: its stream had failed before
		}
		if r.st.overlap {
			add(r, viol("stream", "Write was called while an earlier Write on the same writer had not returned"))
		}
		s := envs[r.st]
		if s == nil {
			s = &ss{env: rootEnv(r.env)}
			envs[r.st] = s
		}
		s.env.before(r.op)
		if s.dead && r.st.muted {
			continue
		}
		if s.dead {
			addAll(r, j.checkDead(r))
			continue
		}
		if r.st.first != nil && r.pre != nil {
			s.dead = true
			addAll(r, j.checkDead(r))
			continue
		}
		m := j.model(r, s.env)
		if r.st.muted { // that it ends is all that can be asked
			if r.paniced && !(r.st.panicked && r.panicV == r.st.pv) {
				add(r, viol("panic", "panicked: %v", r.panicV))
			}
		} else {
			addAll(r, j.checkRender(r, m))
		}
		if lim := stepBudget(m.cost, len(m.out)+m.built); r.steps > lim {
			add(r, viol("runaway", "took %d steps, more than %d, for %d output bytes", r.steps, lim, len(m.out)))
		}
		if m.cost > 0 {
			if x := float64(r.steps) / (float64(m.cost) + float64(len(m.out)+m.built)/30); x > j.maxRatio && r.steps > 2000 {
				j.maxRatio = x
			}
		}
		if r.st.failRun == r || r.st.panicRun == r {
			s.dead = true
		}
	}
	if w.sc.Scale && len(vs) == 0 {
		var one, two *opRun
		for _, r := range w.runs {
			if r.task == 0 {
				one, two = two, r
			}
		}
		if a, b := one.steps, two.steps; b > 3*a+3000 {
			add(two, viol("superlinear", "took %d steps for twice the work of an operation of %d steps", b, a))
		}
	}
	return vs
}

// sameErr says whether an error is the very one, not merely one that wraps it.
func sameErr(e, first error) bool {
	if e == nil || first == nil {
		return e == first
	}
	if t := reflect.TypeOf(e); t != reflect.TypeOf(first) || !t.Comparable() {
		return t == reflect.TypeOf(first) && errors.Is(e, first)
	}
	return e == first
}

// checkDead: a render through a context that already has an error.
func (j *judge) checkDead(r *opRun) (vs []*violation) {
	add := func(class, format string, args ...any) { vs = append(vs, viol(class, format, args...)) }
	if r.paniced {
		if !r.st.panicked || r.panicV != r.st.pv {
			add("panic", "panicked: %v", r.panicV)
		}
		return
	}
	if r.end != r.start {
		add("afterfail", "wrote %s through a context that had an error", clip(r.st.bytes()[r.start:r.end], 0))
	}
	if r.err == nil {
		add("lost", "returned nil although the context had the error %q from the start", r.st.first)
	} else if !sameErr(r.err, r.st.first) {
		add("wrongerr", "returned %q, the context had the error %q from the start", r.err, r.st.first)
	}
	if !sameErr(r.ctxErr, r.st.first) {
		add("wrongerr", "Context.Error is %v, was %q from the start", r.ctxErr, r.st.first)
	}
	for _, e := range r.evs {
		if e.fn {
			add("deadcall", "dynamic value %d was invoked although the context had an error from the start", e.id)
			break
		}
		if j.source(e.id) {
			add("deadcall", "the source of iteration %d was invoked although the context had an error from the start", e.id)
			break
		}
	}
	return
}

// checkRender judges one aspect after the other: bytes that are wrong do not hide callbacks that are.
func (j *judge) checkRender(r *opRun, m *model) (vs []*violation) {
	add := func(class, format string, args ...any) { vs = append(vs, viol(class, format, args...)) }
	got := r.st.bytes()[r.start:r.end]
	exp := m.out
	tpl := r.op.K == "exec"
	prefix := func(what string) {
		if !bytes.HasPrefix(exp, got) {
			at := diffAt(got, exp)
			add("prefix", "what was written before the %s is not a leading part of the declared output, from byte %d: got %s, want %s", what, at, clip(got, at), clip(exp, at))
		}
	}
	switch {
	case r.paniced:
		if r.st.panicRun != r {
			add("panic", "panicked: %v", r.panicV)
			return
		}
		if r.panicV != r.st.pv {
			add("panicvalue", "the caller received panic value %v, raised was %v", r.panicV, r.st.pv)
		}
		j.failedOps++
		prefix("panic")
		return
	case r.st.panicRun == r:
		// text/template turns panics of functions into errors
		j.failedOps++
		if !tpl {
			add("panicvalue", "the panic %v did not reach the caller", r.st.pv)
		} else if r.err == nil {
			add("lost", "returned nil although a node panicked")
		}
		return
	case r.st.failRun != r:
		n := 0
		if !bytes.Equal(got, exp) {
			n++
			at := diffAt(got, exp)
			add("bytes", "output differs from what the tree declares at byte %d of %d: got %s, want %s", at, len(exp), clip(got, at), clip(exp, at))
		}
		if r.err != nil {
			n++
			add("spurious", "returned %q although nothing failed", r.err)
		}
		if r.ctxErr != nil {
			n++
			add("spurious", "Context.Error is %q although nothing failed", r.ctxErr)
		}
		if n == 0 {
			j.exactOps++
		}
		if v := j.checkEvents(r, m, -1); v != nil {
			vs = append(vs, v)
		}
		return
	}
	j.failedOps++
	prefix("failure")
	if r.st.after > 0 {
		add("afterfail", "handed %d more bytes to the writer after %q: %q", r.st.after, r.st.first, r.st.afterStr)
	}
	switch {
	case r.err == nil:
		add("lost", "returned nil although %q happened", r.st.first)
	case tpl && !errors.Is(r.err, r.st.first) || !tpl && !sameErr(r.err, r.st.first):
		add("wrongerr", "returned %q, the first failure was %q", r.err, r.st.first)
	}
	switch {
	case tpl:
	case r.ctxErr == nil:
		add("lost", "Context.Error is nil although %q happened", r.st.first)
	case !sameErr(r.ctxErr, r.st.first):
		add("wrongerr", "Context.Error is %q, the first failure was %q", r.ctxErr, r.st.first)
	}
	if v := j.checkEvents(r, m, r.st.failEvs); v != nil {
		vs = append(vs, v)
	}
	return
}

// checkEvents: callbacks exactly once, in order, with the right view of the context, at the right
// position of the output. fail: number of callbacks begun when the failure happened, -1 none.
func (j *judge) checkEvents(r *opRun, m *model, fail int) *violation {
	n := len(r.evs)
	if fail >= 0 && fail < n {
		n = fail
	}
	for i := 0; i < n; i++ {
		e := &r.evs[i]
		j.events++
		if i >= len(m.evs) && e.back {
			return viol("streaming", "control returned to callback %d once more than there are calls", -e.id)
		}
		if i >= len(m.evs) {
			return viol("events", "callback %d was invoked once more than the tree declares (invocation %d)", e.id, i)
		}
		x := &m.evs[i]
		if e.id != x.id {
			if e.id < 0 {
				return viol("streaming", "control returned to callback %d before callback %d, which belongs to what it had rendered, was invoked", -e.id, x.id)
			}
			if x.id < 0 {
				return viol("streaming", "callback %d was invoked before control returned to callback %d", e.id, -x.id)
			}
			return viol("events", "invocation %d was of callback %d, should be of %d", i, e.id, x.id)
		}
		if e.view != "" && e.view != x.view {
			return viol("view", "callback %d (invocation %d) saw the contexts %s, should be %s", e.id, i, e.view, x.view)
		}
		if e.back && e.off != x.off {
			return viol("streaming", "when control returned to callback %d the writer held %d bytes, what it had rendered ends at %d", -e.id, e.off, x.off)
		}
		if e.off < x.lo {
			return viol("streaming", "when callback %d was invoked the writer held %d bytes, the node that contains it starts at %d", e.id, e.off, x.lo)
		}
		if e.off > x.off {
			return viol("streaming", "when callback %d was invoked the writer held %d bytes, its own output starts at %d", e.id, e.off, x.off)
		}
	}
	if fail < 0 {
		if len(r.evs) < len(m.evs) && m.evs[len(r.evs)].id < 0 {
			return viol("streaming", "control did not return to callback %d", -m.evs[len(r.evs)].id)
		}
		if len(r.evs) < len(m.evs) {
			return viol("events", "callback %d was not invoked (%d of %d invocations)", m.evs[len(r.evs)].id, len(r.evs), len(m.evs))
		}
		return nil
	}
	// everything whose turn came before the point of failure
	if len(m.evs) > n && m.evs[n].off < r.st.failOff-r.start && m.evs[n].id < 0 {
		return viol("streaming", "control did not return to callback %d although the end of what it had rendered, %d, was passed", -m.evs[n].id, m.evs[n].off)
	}
	if len(m.evs) > n && m.evs[n].off < r.st.failOff-r.start {
		return viol("events", "callback %d was not invoked although its output position %d was passed", m.evs[n].id, m.evs[n].off)
	}
	if m.set {
		return nil // what follows depends on callbacks that may or may not still be invoked
	}
	// those invoked after the failure are in order, and not of items that were not started before it
	k := n
	failAt := r.st.failOff - r.start
	isNew := func(x *mevent) (int, bool) {
		for _, it := range x.items {
			if it.off > failAt || it.ev > n {
				return it.off, true
			}
		}
		return 0, false
	}
	for i := n; i < len(r.evs); i++ {
		e := &r.evs[i]
		if j.source(e.id) {
			return viol("newitem", "after the failure (output position %d) iteration %d was started", failAt, e.id)
		}
		from := k
		for k < len(m.evs) {
			if m.evs[k].id == e.id {
				if _, nw := isNew(&m.evs[k]); !nw {
					break
				}
			}
			k++
		}
		if k == len(m.evs) {
			for k = from; k < len(m.evs); k++ {
				if m.evs[k].id == e.id {
					off, _ := isNew(&m.evs[k])
					return viol("newitem", "after the failure (output position %d) an iteration started a further item (at %d): callback %d", failAt, off, e.id)
				}
			}
			if e.back {
				return viol("streaming", "after the failure control returned to callback %d out of order", -e.id)
			}
			return viol("events", "after the failure callback %d was invoked again or out of order", e.id)
		}
		k++
	}
	return nil
}

func (j *judge) checkGen(r *opRun) *violation {
	g := r.op.Gen
	in := g.input()
	rd := r.rd
	if lim := int64(4000) + int64(len(in))*40 + int64(len(r.st.acc))*20 + int64(rd.empties)*8; r.steps > lim {
		return viol("runaway", "code generation took %d steps for %d bytes of input", r.steps, len(in))
	}
	if r.paniced {
		if r.st.panicked && r.panicV == r.st.pv {
			return nil
		}
		return viol("panic", "code generation panicked: %v", r.panicV)
	}
	if r.st.panicked {
		return viol("panicvalue", "the panic %v did not reach the caller", r.st.pv)
	}
	if r.st.muted {
		return nil
	}
	got := r.st.acc
	delivered := in
	if rd.failed != nil || g.Dead {
		delivered = in[:rd.pos]
		if rd.failed != nil {
			delivered = in[:rd.failAt]
		}
	}
	body, closing := refGenerate(g.Pkg, delivered)
	exp := body
	readBad := rd.failed != nil || g.Dead && rd.pos < len(in)
	if !readBad {
		full, _ := refGenerate(g.Pkg, in)
		body = full
		exp = full + closing
	}
	if r.st.first != nil { // a write failed
		full := exp
		if readBad {
			// the write may have failed before the reader did
			b2, c2 := refGenerate(g.Pkg, in)
			if !strings.HasPrefix(full, string(got)) && strings.HasPrefix(b2+c2, string(got)) {
				full = b2 + c2
			}
		}
		if !strings.HasPrefix(full, string(got)) {
			at := diffAt(got, []byte(full))
			return viol("prefix", "accepted code is not a leading part of the fault-free code, from byte %d: got %s, want %s", at, clip(got, at), clip([]byte(full), at))
		}
		if r.st.after > 0 {
			return viol("afterfail", "handed %d more bytes to the output after %q: %q", r.st.after, r.st.first, r.st.afterStr)
		}
		if r.err == nil {
			return viol("lost", "returned nil although %q happened", r.st.first)
		}
		if !sameErr(r.err, r.st.first) && !(rd.failed != nil && !r.st.wfirst && sameErr(r.err, rd.failed)) {
			return viol("wrongerr", "returned %q, the first failure was %q", r.err, r.st.first)
		}
		return nil
	}
	if !bytes.Equal(got, []byte(exp)) {
		at := diffAt(got, []byte(exp))
		return viol("gencode", "code differs from what the delivered input calls for at byte %d of %d: got %s, want %s", at, len(exp), clip(got, at), clip([]byte(exp), at))
	}
	if rd.failed != nil {
		if r.err == nil {
			return viol("lost", "returned nil although the reader failed with %q", rd.failed)
		}
		if !sameErr(r.err, rd.failed) {
			return viol("wrongerr", "returned %q, the reader failed with %q", r.err, rd.failed)
		}
		return nil
	}
	if readBad {
		if r.err == nil {
			return viol("lost", "returned nil although the input was never delivered")
		}
		return nil
	}
	if r.err != nil {
		return viol("spurious", "returned %q although nothing failed", r.err)
	}
	return nil
}
