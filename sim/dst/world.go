package main

import (
	"bytes"
	"fmt"
	"io"
	"maps"
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"verifsim/simrt"
)

// event is one invocation of a user callback.
type event struct {
	id   int
	off  int // bytes the writer had accepted
	view string
	fn   bool // dynamic value function
	back bool // not an invocation: a call made by the callback returned
}

type note struct{ class, msg string }

// stream is what one context's writer sees: the simulated output device.
type stream struct {
	acc      []byte
	faults   []Fault
	left     []int   // remaining strikes, 0: not yet struck
	same     []error // what faults reported that always report the same
	calls    int
	piece    int
	first    error // first failure of this stream
	panicked bool  // a panic was injected on this stream (pv is its value)
	pv       any
	rerr     error // first read failure (code generation)
	failOff  int
	wfirst   bool // a write had failed when the reader did
	failEvs  int
	failRun  *opRun // the operation in which the first error happened
	panicRun *opRun // the operation in which something panicked first
	after    int    // bytes handed over after the first failure
	afterStr string
	run      *opRun // operation that is using the stream
	inWrite  bool
	stray    bool // a write arrived when no operation used the stream
	overlap  bool
	muted    bool          // a write was accepted in part only, and nobody said so
	buf      *bytes.Buffer // plain buffer instead of a simulated device
	ts       *taskState
}

func (s *stream) offset() int {
	if s.buf != nil {
		return s.buf.Len()
	}
	return len(s.acc)
}

func (s *stream) bytes() []byte {
	if s.buf != nil {
		return s.buf.Bytes()
	}
	return s.acc
}

func (s *stream) fail(kind string, like int) error { return s.failAs(kind, like, nil) }

// failAs reports the failure e, or a new one.
func (s *stream) failAs(kind string, like int, e error) error {
	if e != nil {
		return e
	}
	if s.first != nil {
		like = 0
	}
	e = makeErr(kind, like, s.ts.nextErr())
	if like > 0 {
		s.ts.fired["error like those of the real world"]++
	}
	if s.first == nil {
		s.first = e
		s.failOff = s.offset()
		s.failRun = s.run
		if s.run != nil {
			s.failEvs = len(s.run.evs)
		}
	}
	return e
}

func (ts *taskState) nextErr() int { ts.errN++; return (ts.id+1)*1000 + ts.errN }

func panicVal(kind int, n int) any {
	switch kind {
	case 1:
		return &simErr{"panic", n}
	case 2:
		return "sim panic #" + strconv.Itoa(n)
	}
	return &simPanic{n}
}

func (s *stream) take(p []byte) {
	if s.piece > 0 {
		for len(p) > s.piece {
			s.acc = append(s.acc, p[:s.piece]...)
			p = p[s.piece:]
			simrt.Point()
		}
	}
	s.acc = append(s.acc, p...)
}

func (s *stream) write(p []byte) (int, error) {
	if s.inWrite || s.run != nil && s.run.inUser {
		s.overlap = true
	}
	if s.run == nil {
		s.ts.late("Write was called (with %.40q) when the operation had returned", p)
	}
	s.inWrite = true
	simrt.Point()
	defer func() { s.inWrite = false }()
	call := s.calls
	s.calls++
	if s.first != nil && len(p) > 0 {
		s.after += len(p)
		if len(s.afterStr) < 80 {
			s.afterStr += string(p)
		}
	}
	for i := range s.faults {
		f := &s.faults[i]
		at := 0
		if s.left[i] == 0 {
			hit := false
			if f.Byte >= 0 {
				o := len(s.acc)
				hit = len(p) > 0 && f.Byte >= o && f.Byte < o+len(p)
				at = f.Byte - o
			} else {
				hit = call == f.Call
				at = len(p) / 2
			}
			if !hit {
				continue
			}
			s.left[i] = f.N
			if f.N == 0 {
				s.left[i] = 1
			}
		} else if s.left[i] == -2 {
			continue
		}
		if s.left[i] > 0 {
			s.left[i]--
			if s.left[i] == 0 {
				s.left[i] = -2
			}
		}
		s.ts.fired[f.K]++
		switch f.K {
		case "stall":
			simrt.Sleep(f.Lat)
			continue
		case "nest":
			s.ts.nested(f.Tree, f.Env)
			continue
		case "err":
			return 0, s.strike(i, "write error")
		case "mute":
			at = []int{0, len(p) / 2, len(p) - 1}[f.PV%3]
			if at < 0 {
				at = 0
			}
			s.take(p[:at])
			s.muted = true
			return at, nil
		case "short":
			s.take(p[:at])
			return at, s.strike(i, "short write")
		case "full":
			s.take(p)
			return len(p), s.strike(i, "error after full write")
		case "panic", "panicmid", "panicafter":
			if f.K == "panicmid" {
				s.take(p[:at])
			} else if f.K == "panicafter" {
				s.take(p)
			}
			v := panicVal(f.PV, s.ts.nextErr())
			if !s.panicked {
				s.panicked, s.pv, s.panicRun = true, v, s.run
			}
			panic(v)
		}
	}
	s.take(p)
	return len(p), nil
}

// strike is the error of a fault that struck.
func (s *stream) strike(i int, kind string) error {
	f := &s.faults[i]
	if !f.Same {
		return s.fail(kind, f.E)
	}
	if s.same == nil {
		s.same = make([]error, len(s.faults))
	}
	s.same[i] = s.failAs(kind, f.E, s.same[i])
	return s.same[i]
}

type simWriter struct{ s *stream }

func (w *simWriter) Write(p []byte) (int, error) { return w.s.write(p) }

// richWriter also offers the optional interfaces real writers have.
type richWriter struct{ simWriter }

func (w *richWriter) WriteString(p string) (int, error) { return w.s.write([]byte(p)) }
func (w *richWriter) WriteByte(c byte) error            { _, err := w.s.write([]byte{c}); return err }
func (w *richWriter) Flush()                            { w.s.other("Flush") }

// fileWriter offers those of files and connections.
type fileWriter struct{ simWriter }

func (w *fileWriter) WriteString(p string) (int, error) { return w.s.write([]byte(p)) }
func (w *fileWriter) Sync() error                       { w.s.other("Sync"); return nil }
func (w *fileWriter) Close() error                      { w.s.other("Close"); return nil }

func (w *fileWriter) ReadFrom(r io.Reader) (n int64, err error) {
	p := make([]byte, 64)
	for {
		k, rerr := r.Read(p)
		if k > 0 {
			m, err := w.s.write(p[:k])
			n += int64(m)
			if err != nil {
				return n, err
			}
		}
		if rerr == io.EOF {
			return n, nil
		} else if rerr != nil {
			return n, rerr
		}
	}
}

// other is a call of the writer that writes nothing.
func (s *stream) other(what string) {
	if s.inWrite || s.run != nil && s.run.inUser {
		s.overlap = true
	}
	if s.run == nil {
		s.ts.late("%s was called when the operation had returned", what)
	} else if what == "Close" {
		s.run.note("owned", "the caller's writer was closed")
	}
	s.inWrite = true
	simrt.Point()
	s.inWrite = false
}

func (ts *taskState) newStream(e *Env, faults []Fault) (*stream, io.Writer) {
	s := &stream{ts: ts, faults: faults, left: make([]int, len(faults))}
	if e != nil {
		s.piece = e.Piece
		switch e.W {
		case "rich":
			return s, &richWriter{simWriter{s}}
		case "file":
			return s, &fileWriter{simWriter{s}}
		case "buffer":
			s.buf = &bytes.Buffer{}
			return s, s.buf
		}
	}
	return s, &simWriter{s}
}

// actx is a rendering context owned by one task.
type actx struct {
	ctx   *context.Context
	st    *stream
	wr    io.Writer
	env   *Env
	cargo any
	data  map[string]any
	pre   error
	up    *context.Context
}

// opRun records one operation of one task.
type opRun struct {
	op      *Op
	tries   int
	tree    *Node
	ts      *taskState
	w       *world
	tag     string
	ac      *actx
	st      *stream
	root    *context.Context
	evs     []event
	backs   int // events that are not invocations
	occ     map[int]int
	cocc    map[int]int
	conds   int
	lent    []lentBytes
	notes   []note
	start   int // stream offset before
	end     int // and after
	err     error
	ctxErr  error
	panicV  any
	paniced bool
	done    bool
	nested  bool
	steps   int64
	task    int
	seq     int
	get     *getRes
	rd      *simReader
	env     *Env
	sub     int64 // steps of nested operations
	pre     error // error of the context before the operation
	inUser  bool  // in the body of a callback
}

func (r *opRun) note(class, msg string) {
	if len(r.notes) < 4 {
		r.notes = append(r.notes, note{class, msg})
	}
}

// taskState is the private state of one caller.
type taskState struct {
	w     *world
	id    int
	cur   *opRun
	slots map[int]*actx
	built map[int]aitch.Node

	builtTpl map[int]*aitch.Template
	runs     []*opRun
	b        *builder
	errN     int
	fired    map[string]int
	gets     map[int]*getSlot

	over  map[*context.Context]bool // root contexts of operations that have returned
	stray *opRun                    // takes what comes when no operation is in progress
}

// late notes that something went on after an operation had returned.
func (ts *taskState) late(f string, a ...any) {
	ts.idle().note("late", fmt.Sprintf(f, a...))
}

func (ts *taskState) idle() *opRun {
	if ts.stray == nil {
		ts.stray = &opRun{ts: ts, w: ts.w, st: &stream{ts: ts}, task: ts.id}
	}
	return ts.stray
}

// world is one scenario being executed.
type world struct {
	sc    *Scenario
	b     *builder
	tasks []*taskState
	main  *taskState
	post  *taskState
	stats simrt.Stats
	pstat simrt.Stats

	shared []sharedEnv
	notes  []note
	runs   []*opRun
	rounds int // that followed
}

var curWorld *world

// sharedEnv is data that several contexts share.
type sharedEnv struct {
	data  map[string]any
	cargo any
}

// curRun is the operation the running code is part of.
func curRun() *opRun {
	ts := curWorld.main
	if l := simrt.Local(); l != nil {
		ts = l.(*taskState)
	}
	if ts.cur == nil {
		return ts.idle()
	}
	return ts.cur
}

func cargoRepr(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return strconv.Quote(x)
	case int:
		return strconv.Itoa(x)
	case bool:
		return strconv.FormatBool(x)
	case map[string]any:
		s, _ := x["_id"].(string)
		return "map:" + s
	case []any:
		return "list" + strconv.Itoa(len(x))
	}
	return fmt.Sprintf("%T", v)
}

func dataRepr(m map[string]any) string {
	if len(m) == 0 {
		return "-"
	}
	s, _ := m["_id"].(string)
	return s + "+" + strconv.Itoa(len(m))
}

// viewOf describes what a callback sees of its context: Data and Cargo of it and all its parents.
func viewOf(ctx *context.Context, r *opRun) string {
	var sb strings.Builder
	var last *context.Context
	own, over := false, false
	n := 0
	for c := ctx; c != nil && n < 400; c = c.Parent {
		sb.WriteString(dataRepr(c.Data))
		sb.WriteByte('/')
		sb.WriteString(cargoRepr(c.Cargo))
		sb.WriteByte('|')
		last = c
		own = own || c == r.root
		over = over || r.ts.over[c]
		n++
	}
	if r.root != nil && over {
		r.note("late", "a callback was invoked with the context of an operation that had returned")
	}
	if r.root == nil {
		delete(r.ts.over, last)
		r.root = last // a template makes its own context
	} else if !own {
		sb.WriteString("!foreign root context")
	}
	return sb.String()
}

// enter is called by every callback first.
func (r *opRun) enter(id int, ctx *context.Context, fn bool) (int, *CBFault) {
	r.user(id)
	n := len(r.evs) - r.backs
	off := 0
	if r.st != nil {
		off = r.st.offset() - r.start
	}
	ev := event{id: id, off: off, fn: fn}
	if ctx != nil {
		ev.view = viewOf(ctx, r)
	}
	r.evs = append(r.evs, ev)
	if r.op == nil || len(r.op.CB) == 0 {
		return n, nil
	}
	if r.occ == nil {
		r.occ = map[int]int{}
	}
	o := r.occ[id]
	r.occ[id] = o + 1
	for i := range r.op.CB {
		f := &r.op.CB[i]
		if f.ID == id && f.Occ == o && f.K == "nest" {
			r.ts.nested(f.Tree, f.Env)
			continue
		}
		if f.ID == id && (f.Occ == o || f.All && f.Occ < o) && f.K != "stall" && f.K != "nest" {
			return n, f
		}
		if f.ID == id && f.Occ == o && f.K == "stall" {
			r.ts.fired["callback stall"]++
			simrt.Sleep(f.Lat)
		}
	}
	return n, nil
}

// user is the body of a callback: other callers may go on, this render may not.
func (r *opRun) user(id int) {
	if r.inUser || r.st != nil && r.st.inWrite {
		r.note("overlap", fmt.Sprintf("callback %d was invoked while the same render was in another callback or in Write", id))
	}
	r.inUser = true
	simrt.Point()
	r.inUser = false
	if r == r.ts.stray {
		r.ts.late("callback %d was invoked when no operation was in progress", id)
	}
}

// back records that control has returned to a callback.
func (r *opRun) back(id int) {
	off := 0
	if r.st != nil {
		off = r.st.offset() - r.start
	}
	r.evs = append(r.evs, event{id: -id, off: off, back: true})
	r.backs++
}

// enterCond is the same for conditions, which may be asked any number of times.
func (r *opRun) enterCond(id int) *CBFault {
	r.user(id)
	r.conds++
	if r.op == nil || len(r.op.CB) == 0 {
		return nil
	}
	if r.cocc == nil {
		r.cocc = map[int]int{}
	}
	o := r.cocc[id]
	r.cocc[id] = o + 1
	for i := range r.op.CB {
		f := &r.op.CB[i]
		if f.ID == id && f.Occ == o && f.K == "nest" {
			r.ts.nested(f.Tree, f.Env)
			continue
		}
		if f.ID == id && (f.Occ == o || f.All && f.Occ < o) && f.K != "nest" {
			return f
		}
	}
	return nil
}

func (r *opRun) doPanic(f *CBFault) {
	r.ts.fired["callback panic"]++
	v := panicVal(f.PV, r.ts.nextErr())
	if !r.st.panicked {
		r.st.panicked, r.st.pv, r.st.panicRun = true, v, r
	}
	panic(v)
}

// raise performs a fault in a callback that can only set the context's error or panic.
func (r *opRun) raise(f *CBFault, ctx *context.Context) {
	if f.K == "panic" {
		r.doPanic(f)
	}
	if ctx.Error == nil {
		r.ts.fired["callback sets error"]++
		ctx.Error = r.st.fail("callback error", f.E)
	}
}

// raiseRet performs a fault in a callback that can return an error. nil: carry on.
func (r *opRun) raiseRet(f *CBFault, ctx *context.Context) error {
	switch f.K {
	case "panic":
		r.doPanic(f)
	case "set":
		if ctx.Error == nil {
			r.ts.fired["callback sets error"]++
			ctx.Error = r.st.fail("callback error", f.E)
		}
		return nil
	case "both":
		if ctx.Error == nil {
			r.ts.fired["callback sets and returns error"]++
			ctx.Error = r.st.fail("callback error", f.E)
		}
		return ctx.Error
	}
	r.ts.fired["callback returns error"]++
	return r.st.fail("callback error", f.E)
}

// dataOf makes the Data and Cargo of a context.
func (ts *taskState) dataOf(e *Env) (data map[string]any, cargo any) {
	if e.Share > 0 {
		s := ts.w.shared[e.Share-1]
		return s.data, s.cargo
	}
	if !e.NoData {
		data = ts.b.goMap(e.Data)
		ts.b.owned.add(data, "Data")
	}
	if e.Cargo != nil {
		cargo = ts.b.goVal(*e.Cargo)
		ts.b.owned.add(cargo, "Cargo")
	}
	return data, cargo
}

// newCtx puts a fresh context into a slot.
func (ts *taskState) newCtx(e *Env, faults []Fault) *actx {
	st, wr := ts.newStream(e, faults)
	ac := &actx{st: st, wr: wr, env: e}
	if e == nil {
		e = &Env{}
	}
	ac.data, ac.cargo = ts.dataOf(e)
	ac.ctx = context.New(wr, ac.data, ac.cargo)
	for at, up := ac.ctx, e.Up; up != nil; at, up = at.Parent, up.Up {
		d, c := ts.dataOf(up)
		at.Parent = &context.Context{Data: d, Cargo: c}
	}
	ac.up = ac.ctx.Parent
	if e.PreErr {
		st.first = makeErr("earlier error", e.PreE, ts.nextErr())
		ac.ctx.Error = st.first
		ac.pre = st.first
	}
	return ac
}

func (ts *taskState) begin(op *Op) *opRun {
	r := &opRun{op: op, ts: ts, w: ts.w, task: ts.id, seq: len(ts.runs)}
	ts.runs = append(ts.runs, r)
	return r
}

// guarded runs f as operation r, and records how it ended.
func (ts *taskState) guarded(r *opRun, f func()) {
	up := ts.cur
	ts.cur = r
	s0 := simrt.Steps()
	defer func() {
		total := simrt.Steps() - s0
		r.steps = total - r.sub // without those of renders nested in it
		if up != nil {
			up.sub += total
		}
		if v := recover(); v != nil {
			if a, ok := v.(simrt.Abort); ok {
				ts.cur = up
				panic(a)
			}
			r.paniced, r.panicV = true, v
		} else {
			r.done = true
		}
		if r.st != nil {
			r.end = r.st.offset()
			r.st.run = nil
			if r.st.inWrite {
				r.note("late", "returned while a Write was in progress")
			}
			if r.inUser {
				r.note("late", "returned while a callback was in progress")
			}
		}
		if r.rd != nil && r.rd.busy {
			r.note("late", "returned while a Read was in progress")
		}
		if r.root != nil {
			if ts.over == nil {
				ts.over = map[*context.Context]bool{}
			}
			ts.over[r.root] = true
		}
		ts.cur = up
	}()
	f()
}

// nested renders another tree through a context of its own from within a callback or writer.
func (ts *taskState) nested(tree int, env *Env) {
	if tree >= len(ts.w.b.trees) || ts.w.b.trees[tree] == nil {
		return
	}
	o := &Op{K: "render", Tree: tree, Env: env}
	r := ts.begin(o)
	r.nested = true
	ac := ts.newCtx(env, nil)
	ts.fired["render within a callback"]++
	ts.render(r, ac, ts.w.b.trees[tree], ts.w.sc.Trees[tree])
	if r.paniced {
		panic(r.panicV)
	}
}

func (ts *taskState) render(r *opRun, ac *actx, node aitch.Node, spec *Node) {
	r.ac, r.st, r.tree = ac, ac.st, spec
	r.root = ac.ctx
	r.start = ac.st.offset()
	r.env = ac.env
	if ac.env != nil {
		r.tag = ac.env.Tag
	}
	r.pre = ac.ctx.Error
	ac.st.run = r
	delete(ts.over, ac.ctx)
	ts.guarded(r, func() {
		r.err = node.Render(ac.ctx)
	})
	r.ctxErr = ac.ctx.Error
	c := ac.ctx
	if c.Writer != ac.wr {
		r.note("ctx", "Context.Writer was changed by the render")
	}
	if c.Parent != ac.up {
		r.note("ctx", "Context.Parent was changed by the render")
	}
	if cargoRepr(c.Cargo) != cargoRepr(ac.cargo) {
		r.note("ctx", "Context.Cargo was changed by the render: "+cargoRepr(c.Cargo)+", was "+cargoRepr(ac.cargo))
	}
	if (c.Data == nil) != (ac.data == nil) || dataRepr(c.Data) != dataRepr(ac.data) {
		r.note("ctx", "Context.Data was changed by the render: "+dataRepr(c.Data)+", was "+dataRepr(ac.data))
	}
	if c = ac.up; c != nil && (c.Error != nil || c.Writer != nil) {
		r.note("ctx", "the context's own parent was changed by the render")
	}
	ac.ctx.Writer, ac.ctx.Parent = ac.wr, ac.up
}

func (ts *taskState) do(op *Op) {
	if op.Think > 0 {
		simrt.Sleep(op.Think)
	}
	switch op.K {
	case "build":
		r := ts.begin(op)
		ts.guarded(r, func() { ts.built[op.Tree] = ts.b.build(ts.w.sc.Trees[op.Tree]) })
	case "render":
		var node aitch.Node
		if op.Local {
			node = ts.built[op.Tree]
		}
		if node == nil {
			node = ts.w.b.trees[op.Tree]
		}
		if node == nil {
			return // nothing was built (a minimised scenario)
		}
		r := ts.begin(op)
		if op.Env != nil || ts.slots[op.Ctx] == nil {
			nc := ts.newCtx(op.Env, op.Faults)
			if old := ts.slots[op.Ctx]; op.Again && old != nil {
				*old.ctx = *nc.ctx // a context struct that is used over and over
				nc.ctx = old.ctx
			}
			ts.slots[op.Ctx] = nc
		}
		ac := ts.slots[op.Ctx]
		if ac.st.panicked {
			return // the context of a render that panicked is not used again
		}
		if op.Clone && ac.data != nil {
			ac.data = maps.Clone(ac.data)
			ac.ctx.Data = ac.data
			ts.b.owned.add(ac.data, "Data")
		}
		for _, kv := range op.Set {
			if ac.ctx.Data != nil {
				ts.b.owned.set(ac.ctx.Data, kv.K, ts.b.goVal(kv.V))
			}
		}
		if op.Cargo != nil {
			ac.cargo = ts.b.goVal(*op.Cargo)
			ac.ctx.Cargo = ac.cargo
			ts.b.owned.add(ac.cargo, "Cargo")
		}
		for _, p := range op.Poke {
			ts.b.poke(ac, p)
		}
		ts.render(r, ac, node, ts.w.sc.Trees[op.Tree])
	case "buildtpl":
		r := ts.begin(op)
		ts.guarded(r, func() { ts.builtTpl[op.Tree] = ts.b.buildTpl(ts.w.sc.Tpls[op.Tree]) })
	case "exec":
		t := ts.w.b.tpls[op.Tree]
		if l := ts.builtTpl[op.Tree]; op.Local && l != nil {
			t = l
		}
		r := ts.begin(op)
		st, wr := ts.newStream(op.Env, op.Faults)
		r.st, r.env = st, op.Env
		r.tag = op.Env.Tag
		st.run = r
		data, cargo := ts.dataOf(op.Env)
		ts.guarded(r, func() { r.err = t.Execute(wr, data, cargo) })
	case "gen":
		ts.doGen(op)
	case "get":
		ts.doGet(op)
	}
}

func (w *world) taskFn(ts *taskState, ops []Op) func() {
	return func() {
		simrt.SetLocal(ts)
		for i := range ops {
			ts.do(&ops[i])
			for k := 1; k < ops[i].Rep; k++ {
				ts.do(&ops[i])
			}
		}
	}
}

func (w *world) newTask(id int) *taskState {
	nb := *w.b
	nb.lent, nb.tmpA, nb.tmpN, nb.tmpM = nil, nil, nil, nil
	nb.owned = &ownedList{}
	return &taskState{w: w, id: id, slots: map[int]*actx{}, built: map[int]aitch.Node{}, builtTpl: map[int]*aitch.Template{}, b: &nb, fired: map[string]int{}}
}

// needsLocal says whether a tree is only ever built by tasks.
func (sc *Scenario) localTrees() map[int]bool {
	loc := map[int]bool{}
	for _, t := range sc.Tasks {
		for _, o := range t.Ops {
			if o.K == "build" {
				loc[o.Tree] = true
			}
		}
	}
	used := func(o *Op) {
		if o.K == "render" && !o.Local {
			delete(loc, o.Tree)
		}
	}
	for i := range sc.Tasks {
		for k := range sc.Tasks[i].Ops {
			used(&sc.Tasks[i].Ops[k])
		}
	}
	for i := range sc.Post {
		used(&sc.Post[i])
	}
	return loc
}

// execute runs a scenario to its end.
func execute(sc *Scenario) *world { return executeAfter(nil, sc) }

// executeAfter does so with the trees and templates that an earlier world has built and kept.
func executeAfter(old *world, sc *Scenario) (w *world) {
	sc.link()
	w = &world{sc: sc}
	curWorld = w
	simrt.Reset()
	w.b = &builder{sc: sc, owned: &ownedList{}}
	w.main = &taskState{w: w, id: -1, b: w.b, fired: map[string]int{}}
	setup := &opRun{op: &Op{K: "build"}, ts: w.main, w: w, task: -1}
	w.main.runs = append(w.main.runs, setup)
	buildOK := false
	w.main.guarded(setup, func() {
		b := w.b
		if old != nil {
			b.inherit(old.b)
			w.shared = old.shared
			buildOK = true
			return
		}
		for _, e := range sc.Shared {
			var s sharedEnv
			s.data, s.cargo = w.main.dataOf(e)
			w.shared = append(w.shared, s)
		}
		for _, v := range sc.Vals {
			b.vals = append(b.vals, b.goVal(v))
		}
		b.makeArgs()
		b.makeMaps()
		for _, c := range sc.Comps {
			b.comps = append(b.comps, b.build(c))
		}
		b.makeKids()
		loc := sc.localTrees()
		for i, t := range sc.Trees {
			if loc[i] {
				b.trees = append(b.trees, nil)
			} else {
				b.trees = append(b.trees, b.build(t))
			}
		}
		if len(sc.Tpls) > 0 {
			b.nodeMap = b.newNodeMap()
		}
		for _, t := range sc.Tpls {
			b.tpls = append(b.tpls, b.buildTpl(t))
		}
		buildOK = true
	})
	w.runs = append(w.runs, setup)
	if !buildOK {
		return w
	}
	setup.done = true
	var fns []func()
	for i := range sc.Tasks {
		ts := w.newTask(i)
		w.tasks = append(w.tasks, ts)
		fns = append(fns, w.taskFn(ts, sc.Tasks[i].Ops))
	}
	w.stats = simrt.Run(sc.Cfg, fns)
	for _, ts := range w.tasks {
		w.runs = append(w.runs, ts.runs...)
		w.b.lent = append(w.b.lent, ts.b.lent...)
	}
	if len(sc.Post) > 0 && !w.stats.Runaway && !w.stats.Deadlock && !w.stats.Crashed {
		ts := w.newTask(len(sc.Tasks))
		w.post = ts
		cfg := sc.Cfg
		cfg.Strat.Kind = "serial"
		cfg.Script = nil
		w.pstat = simrt.Run(cfg, []func(){w.taskFn(ts, sc.Post)})
		w.runs = append(w.runs, ts.runs...)
		w.b.lent = append(w.b.lent, ts.b.lent...)
	}
	if m := w.b.mutated(); m != "" {
		w.notes = append(w.notes, note{"mutation", m})
	}
	for _, ts := range append([]*taskState{w.main, w.post}, w.tasks...) {
		if ts == nil {
			continue
		}
		if m := ts.b.owned.changed(); m != "" {
			w.notes = append(w.notes, note{"owned", "the caller's " + m})
		}
		if ts.stray != nil {
			w.notes = append(w.notes, ts.stray.notes...)
		}
	}
	for _, r := range w.runs {
		for _, l := range r.lent {
			if l.bad() {
				w.notes = append(w.notes, note{"mutation", fmt.Sprintf("%s: now %q, was %q", l.what, l.buf, l.copy)})
			}
		}
	}
	return w
}
