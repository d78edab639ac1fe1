package main

import (
	"strconv"
	"strings"
)

// The reference model: what a tree, rendered alone and without faults with given data, delivers, and
// which callbacks it invokes in which order. It is written from the documentation of the node types,
// works on the descriptions only, and shares no code with the library.

type mdata struct {
	m  map[string]Val
	id string
}

type menv struct {
	data   *mdata // nil: no data
	cargo  Val
	parent *menv
}

type itemMark struct{ off, ev int } // where an item of an iteration starts: output offset, events before

type mevent struct {
	id    int
	off   int // exact position of what the callback produces
	lo    int // start of the innermost node that contains the callback
	view  string
	items []itemMark
	fn    bool
}

type model struct {
	sc    *Scenario
	out   []byte
	evs   []mevent
	backs int // events that are not invocations
	env   *menv
	tag   string
	lo    int
	items []itemMark
	cost  int
	tries int
	set   bool // the tree changes its own data
	big   int
	work  int
	built int // bytes of strings of nodes built during the render

	sub  int64          // what renders from within this one may take
	subs map[*IOp]int64 // the same of each place, unless it is nil and they do not matter
}

func newMdata(kvs []KV) *mdata {
	d := &mdata{m: make(map[string]Val, len(kvs))}
	for _, kv := range kvs {
		d.m[kv.K] = kv.V
	}
	d.id = d.m["_id"].S
	return d
}

func rootEnv(e *Env) *menv {
	v := &menv{cargo: Val{K: "nil"}}
	if e == nil {
		v.data = newMdata(nil)
		return v
	}
	if !e.NoData {
		v.data = newMdata(e.Data)
	}
	if e.Cargo != nil {
		v.cargo = *e.Cargo
	}
	if e.Up != nil {
		v.parent = rootEnv(e.Up)
	}
	return v
}

func mEscape(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case 0:
		case '&':
			sb.WriteString("&amp;")
		case '<':
			sb.WriteString("&lt;")
		case '>':
			sb.WriteString("&gt;")
		case '"':
			sb.WriteString("&quot;")
		case '\'':
			sb.WriteString("&apos;")
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

// scalar is the text of a plain value.
func scalar(v Val) string {
	switch v.K {
	case "s":
		return mEscape(v.S)
	case "b", "stringer":
		return v.S
	case "anyfn":
		switch v.X {
		case "nil":
			return ""
		case "str", "fn":
			return v.S
		}
		return mEscape(v.S)
	case "nbsp":
		if v.I == 0 {
			return "&nbsp;"
		}
		return strings.Repeat("&nbsp;", max(0, int(v.I)))
	case "bool":
		if v.I != 0 {
			return "true"
		}
		return "false"
	case "int", "int8", "int16", "int32", "int64":
		return strconv.FormatInt(v.I, 10)
	case "uint", "uint8", "uint16", "uint32", "uint64":
		return strconv.FormatUint(uint64(v.I), 10)
	case "f32":
		return strconv.FormatFloat(float64(float32(v.F)), 'g', -1, 32)
	case "f64":
		return strconv.FormatFloat(v.F, 'g', -1, 64)
	}
	return "" // nil, maps, lists: nothing is written
}

func mStr(v Val, ok bool) string {
	if !ok {
		return "nil"
	}
	switch v.K {
	case "s":
		return v.S
	case "int":
		return strconv.FormatInt(v.I, 10)
	case "bool":
		return strconv.FormatBool(v.I != 0)
	case "nil":
		return "nil"
	}
	return "?"
}

func mCargo(v Val) string {
	switch v.K {
	case "", "nil":
		return "nil"
	case "s":
		return strconv.Quote(v.S)
	case "int":
		return strconv.FormatInt(v.I, 10)
	case "bool":
		return strconv.FormatBool(v.I != 0)
	case "map":
		for _, kv := range v.M {
			if kv.K == "_id" {
				return "map:" + kv.V.S
			}
		}
		return "map:"
	case "list":
		return "list" + strconv.Itoa(len(v.L))
	case "f64":
		return "float64"
	case "f32":
		return "float32"
	case "b", "nbsp":
		return "[]uint8"
	case "stringer":
		return "main.stringerVal"
	case "anyfn":
		return "func() interface {}"
	case "smap":
		return "map[string]string"
	case "nmap":
		return "main.namedData"
	}
	return v.K
}

func (m *model) view() string {
	var sb strings.Builder
	for e := m.env; e != nil; e = e.parent {
		if e.data == nil || len(e.data.m) == 0 {
			sb.WriteByte('-')
		} else {
			sb.WriteString(e.data.id)
			sb.WriteByte('+')
			sb.WriteString(strconv.Itoa(len(e.data.m)))
		}
		sb.WriteByte('/')
		sb.WriteString(mCargo(e.cargo))
		sb.WriteByte('|')
	}
	return sb.String()
}

func (m *model) lookup(key string) (Val, bool) {
	if m.env.data == nil {
		return Val{}, false
	}
	v, ok := m.env.data.m[key]
	return v, ok
}

func (m *model) event(id int, fn bool) int {
	n := len(m.evs) - m.backs
	v := m.view()
	m.evs = append(m.evs, mevent{id: id, off: len(m.out), lo: m.lo, view: v, items: m.items, fn: fn})
	m.cost++
	m.work += len(v)
	m.limit()
	return n
}

// back: control returns to a callback.
func (m *model) back(id int) {
	m.backs++
	m.evs = append(m.evs, mevent{id: -id, off: len(m.out), lo: len(m.out), items: m.items})
	m.cost++
}

// nested adds what a render of another tree from within this one may take.
func (m *model) nested(op *IOp) {
	if m.subs == nil || op.Tree >= len(m.sc.Trees) {
		return
	}
	c, ok := m.subs[op]
	if !ok {
		n := &model{sc: m.sc, env: rootEnv(op.Env), subs: m.subs}
		n.render(m.sc.Trees[op.Tree])
		c = n.sub + stepBudget(n.cost, len(n.out)+n.built)
		m.subs[op] = c
	}
	m.sub += c
	m.limit()
}

// tooBig is raised while a scenario is generated whose reference run is out of proportion.
type tooBig struct{}

func (m *model) limit() {
	if m.sc.planning && (m.cost > 25000 || len(m.out) > 400000 || m.work > 3000000 || m.sub > 20000000) {
		panic(tooBig{})
	}
}

// weigh adds what building a node costs.
func (m *model) weigh(n *Node) {
	m.cost += 3
	var val func(v *Val)
	val = func(v *Val) {
		m.cost++
		m.built += len(v.S) + len(v.X)
		for i := range v.L {
			val(&v.L[i])
		}
	}
	for i := range n.V {
		val(&n.V[i])
	}
	if n.Args > 0 {
		m.cost += len(m.sc.Args[n.Args-1])
	}
	for _, c := range n.C {
		m.weigh(c)
	}
	for _, c := range n.C2 {
		m.weigh(c)
	}
	for i := range n.Ops {
		for _, c := range n.Ops[i].C {
			m.weigh(c)
		}
	}
}

func (m *model) w(s string) { m.out = append(m.out, s...) }

// called: a value of the data may be a callback.
func (m *model) called(v Val) {
	if v.ID > 0 && (v.K == "stringer" || v.K == "anyfn") {
		m.event(v.ID, true)
	}
}

// val writes a value.
func (m *model) val(v Val) {
	m.cost++
	switch v.K {
	case "key":
		if dv, ok := m.lookup(v.S); ok {
			m.called(dv)
			m.w(scalar(dv))
		}
	case "dot":
		m.called(m.env.cargo)
		m.w(scalar(m.env.cargo))
	case "fn":
		n := m.event(v.ID, true)
		id := strconv.Itoa(v.ID)
		switch v.S {
		case "cargo":
			c := m.env.cargo
			m.w("c" + id + "(" + mStr(c, c.K != "") + ")")
		case "data":
			dv, ok := m.lookup(v.X)
			m.w("d" + id + "(" + mStr(dv, ok) + ")")
		case "get":
			s, ok := m.getStr(v.X)
			m.w("g" + id + "(" + s + strconv.FormatBool(ok) + ")")
		case "empty":
		case "const":
			m.w(v.X)
		default:
			m.w("f" + id + "." + m.tag + "." + strconv.Itoa(n) + v.X)
		}
	case "concat", "newvalue", "text", "frag", "comment", "coll":
		for _, x := range v.L {
			m.val(x)
		}
	case "unit":
		l := v.L
		if v.ID > 0 {
			l = m.sc.Args[v.ID-1]
		}
		for _, x := range l {
			m.val(x)
		}
		m.w(regUnits[v.R%len(regUnits)].Wire)
	case "hxvar":
		m.w(mEscape(v.S))
		m.w(": ")
		m.val(v.L[0])
	case "shared":
		m.val(m.sc.Vals[v.R])
	default:
		m.w(scalar(v))
	}
}

func (m *model) getStr(key string) (string, bool) {
	if v, ok := m.lookup(key); ok && v.K == "s" {
		return v.S, true
	}
	if m.env.cargo.K == "map" || m.env.cargo.K == "smap" || m.env.cargo.K == "nmap" {
		for _, kv := range m.env.cargo.M {
			if kv.K == key && kv.V.K == "s" {
				return kv.V.S, true
			}
		}
	}
	return "", false
}

func (m *model) getBool(key string) bool {
	if v, ok := m.lookup(key); ok && v.K == "bool" {
		return v.I != 0
	}
	if m.env.cargo.K == "map" || m.env.cargo.K == "nmap" {
		for _, kv := range m.env.cargo.M {
			if kv.K == key && kv.V.K == "bool" {
				return kv.V.I != 0
			}
		}
	}
	return false
}

// flat lists the separate values a constructor argument stands for.
func (m *model) flat(v Val, out []Val) []Val {
	switch v.K {
	case "nil":
		return out
	case "text", "frag", "comment", "coll":
		for _, x := range v.L {
			out = m.flat(x, out)
		}
		return out
	case "newvalue":
		var f []Val
		for _, x := range v.L {
			f = m.flat(x, f)
		}
		if len(f) == 1 {
			return append(out, f[0])
		}
		return append(out, v)
	case "shared":
		return m.flat(m.sc.Vals[v.R], out)
	}
	return append(out, v)
}

func (m *model) flatAll(n *Node) []Val {
	vs := n.V
	if n.Args > 0 {
		vs = m.sc.Args[n.Args-1]
	}
	switch n.Via {
	case "prop":
		l := append([]Val{{K: "b", S: propByFunc[n.Fn].Wire}}, vs...)
		return []Val{{K: "concat", L: l}}
	case "hxheaders", "hxheadersjs":
		merged := map[string]Val{}
		var keys []string
		for _, v := range vs {
			l := v.M
			if v.K == "hmap" {
				l = m.sc.HMaps[v.R]
			}
			for _, kv := range l {
				if _, ok := merged[kv.K]; !ok {
					keys = append(keys, kv.K)
				}
				merged[kv.K] = kv.V
			}
		}
		sortStrings(keys)
		var l []Val
		s := "{"
		if n.Via == "hxheadersjs" {
			s = "js:{"
		}
		for i, k := range keys {
			if i > 0 {
				s += ", "
			}
			s += "'" + strings.ReplaceAll(k, `"`, "&quot;") + "': "
			l = append(l, Val{K: "b", S: s}, merged[k])
			s = ""
		}
		l = append(l, Val{K: "b", S: s + "}"})
		return []Val{{K: "concat", L: l}}
	}
	var out []Val
	for _, v := range vs {
		out = m.flat(v, out)
	}
	return out
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

type mattr struct {
	n     *Node
	kind  string
	name  string
	delim string
	vals  []Val
}

func isAttr(n *Node) bool {
	switch n.K {
	case "attr", "battr", "dattr", "cattr":
		return true
	}
	return false
}

func (m *model) deref(n *Node) *Node {
	for n.K == "ref" {
		n = m.sc.Comps[n.Ref]
	}
	return n
}

func (m *model) mkAttr(n *Node) mattr {
	a := mattr{n: n, kind: n.K, name: n.N, delim: n.D}
	if n.K == "attr" || n.K == "dattr" {
		a.vals = m.flatAll(n)
	}
	return a
}

type mcattr struct {
	a     mattr
	conds []*Node
}

func (m *model) collectAttrs(ns []*Node, conds []*Node, attrs *[]mattr, cattrs *[]mcattr) {
	for _, n := range ns {
		n = m.deref(n)
		m.cost++
		switch {
		case isAttr(n):
			if len(conds) == 0 {
				*attrs = append(*attrs, m.mkAttr(n))
			} else {
				*cattrs = append(*cattrs, mcattr{m.mkAttr(n), conds})
			}
		case n.K == "coll" || n.K == "cond" && n.Cond.K == "nil":
			m.collectAttrs(n.C, conds, attrs, cattrs)
		case n.K == "cond":
			sub := append(append([]*Node(nil), conds...), n)
			m.collectAttrs(n.C, sub, attrs, cattrs)
		}
	}
}

func (m *model) holds(c *Cond) bool {
	m.cost++
	switch c.K {
	case "true", "nil":
		return true
	case "false":
		return false
	case "cargo":
		return mStr(m.env.cargo, m.env.cargo.K != "") == c.S
	case "get":
		return m.getBool(c.S)
	case "when":
		key := c.S
		neg := strings.HasPrefix(key, "!")
		if neg {
			key = key[1:]
		}
		v, ok := m.lookup(key)
		r := ok
		if ok && v.K == "bool" {
			r = v.I != 0
		}
		return r != neg
	}
	v, ok := m.lookup(c.S)
	return ok && v.K == "bool" && v.I != 0
}

func (m *model) writeAttr(a mattr) {
	m.cost++
	old := m.lo
	m.lo = len(m.out)
	switch a.kind {
	case "battr":
		m.w(" " + a.name)
	case "cattr":
		m.event(a.n.ID, false)
		m.w(" " + a.name + `="` + m.tag + `"`)
	default:
		m.w(" " + a.name + `="`)
		first := true
		for _, v := range a.vals {
			before := len(m.out)
			if a.kind == "dattr" && !first {
				m.w(a.delim)
				at := len(m.out)
				m.val(v)
				if len(m.out) == at { // nothing written: no delimiter either
					m.out = m.out[:before]
				}
			} else {
				m.val(v)
			}
			if len(m.out) > before {
				first = false
			}
		}
		m.w(`"`)
	}
	m.lo = old
}

func (m *model) attributes(contents []*Node) {
	var attrs []mattr
	var cattrs []mcattr
	m.collectAttrs(contents, nil, &attrs, &cattrs)
	type slot struct{ a mattr }
	var slots []slot
	idx := map[string]int{}
	merge := func(a mattr) {
		if i, ok := idx[a.name]; ok {
			if s := &slots[i].a; s.kind == "dattr" && a.kind == "dattr" {
				s.vals = append(append([]Val(nil), s.vals...), a.vals...)
				return
			}
			slots[i].a = a
			return
		}
		idx[a.name] = len(slots)
		slots = append(slots, slot{a})
	}
	for _, a := range attrs {
		merge(a)
	}
	for _, c := range cattrs {
		ok := true
		for _, cn := range c.conds {
			if !m.holds(cn.Cond) {
				ok = false
				break
			}
		}
		if ok {
			merge(c.a)
		}
	}
	for _, s := range slots {
		m.writeAttr(s.a)
	}
}

func (m *model) render(n *Node) {
	n = m.deref(n)
	m.cost++
	m.limit()
	old := m.lo
	m.lo = len(m.out)
	defer func() { m.lo = old }()
	switch n.K {
	case "nilnode", "nilfn":
	case "boom":
		m.event(n.ID, false)
		if m.tries > 0 {
			panic(boom{n.ID})
		}
	case "el":
		m.w("<" + n.N)
		m.attributes(n.C)
		m.w(">")
		m.kids(n.C)
		m.w("</" + n.N + ">")
	case "void":
		m.w("<" + n.N)
		m.attributes(n.C)
		m.w(">")
	case "attr", "dattr", "battr", "cattr":
		m.writeAttr(m.mkAttr(n))
	case "text", "frag":
		m.vals(n)
	case "comment":
		m.w("<!--")
		m.vals(n)
		m.w("-->")
	case "pi":
		m.w("<!" + n.N + " ")
		m.vals(n)
		m.w(">\n")
	case "doctype":
		m.w("<!DOCTYPE html>\n")
	case "coll":
		m.kids(n.C)
	case "cond":
		if m.holds(n.Cond) {
			m.kids(n.C)
		}
	case "iter", "yield", "iterkey":
		if n.K != "iterkey" {
			m.event(n.Src.ID, false)
		}
		l := m.srcItems(n)
		change := func() {
			m.set = true
			if m.env.data != nil {
				m.env.data.m[n.Src.New.K] = n.Src.New.V
			}
		}
		if n.K == "iter" && n.Src.New != nil {
			change()
		}
		for i, it := range l {
			if n.K == "yield" && n.Src.New != nil && i == n.Src.NewAt {
				change()
			}
			m.item(it, n.C)
			if n.K == "yield" {
				m.back(n.Src.ID)
			}
		}
	case "imp":
		m.event(n.ID, false)
		m.imperative(n)
	case "collect":
		m.event(n.ID, false)
		if n.Mode == "fresh" { // builds its nodes, also those that conditions leave out
			for _, c := range n.C {
				m.weigh(c)
			}
		}
		m.kids(n.C)
	case "custom":
		m.event(n.ID, false)
		m.w("[" + n.N + ":" + m.tag)
		m.kids(n.C)
		m.w("]")
	case "doc":
		m.w("<!DOCTYPE html>\n<html")
		if len(n.V) > 0 {
			m.writeAttr(mattr{kind: "attr", name: "lang", vals: n.V})
		}
		m.w(">")
		if len(n.C2) > 0 {
			m.w("<head")
			m.attributes(n.C2)
			m.w(">")
			m.kids(n.C2)
			m.w("</head>")
		}
		m.w("<body")
		m.attributes(n.C)
		m.w(">")
		m.kids(n.C)
		m.w("</body></html>")
	default:
		panic("harness: model kind " + n.K)
	}
}

func (m *model) vals(n *Node) {
	for _, v := range m.flatAll(n) {
		m.val(v)
	}
}

func (m *model) kids(ns []*Node) {
	for _, c := range ns {
		if d := m.deref(c); !isAttr(d) {
			m.render(c)
		}
	}
}

// try renders nodes that may panic.
func (m *model) try(ns []*Node) {
	env, items, tries := m.env, m.items, m.tries
	defer func() {
		m.env, m.items, m.tries = env, items, tries
		if v := recover(); v != nil {
			if _, ok := v.(boom); !ok {
				panic(v)
			}
		}
	}()
	m.tries++
	m.set = true // after a failure the nodes do not panic: what comes after them may be reached
	m.kids(ns)
}

func (m *model) srcItems(n *Node) []Val {
	switch {
	case n.K == "iterkey":
		v, ok := m.lookup(n.Src.S)
		if !ok {
			return nil
		}
		switch v.K {
		case "list", "strings", "ints", "maps", "nlist", "tlist":
			return v.L
		case "b", "nbsp":
			var r []Val
			for _, c := range []byte(scalar(v)) {
				r = append(r, Val{K: "uint8", I: int64(c)})
			}
			return r
		}
		return nil
	case n.Src.K == "data":
		if v, ok := m.lookup(n.Src.S); ok && v.K == "list" {
			return v.L
		}
		return nil
	case n.Src.K == "cargo":
		if m.env.cargo.K == "list" {
			return m.env.cargo.L
		}
		return nil
	}
	return n.Src.L
}

func (m *model) item(it Val, nodes []*Node) {
	outer := m.env
	e := &menv{data: outer.data, cargo: it, parent: outer}
	if it.K == "map" {
		e.data = newMdata(it.M)
		if it.S == "nil" {
			e.data = nil
		}
	}
	m.env = e
	oi := m.items
	m.items = append(append([]itemMark(nil), oi...), itemMark{len(m.out), len(m.evs)})
	m.kids(nodes)
	m.items = oi
	m.env = outer
}

func (m *model) imperative(n *Node) {
	var open []string
	for i := range n.Ops {
		op := &n.Ops[i]
		m.cost++
		old := m.lo
		m.lo = len(m.out)
		switch op.K {
		case "start":
			m.w("<" + op.N)
			m.impAttrs(op.C)
			m.w(">")
			if !op.Void {
				open = append(open, op.N)
			}
		case "end":
			if l := len(open); l > 0 {
				m.w("</" + open[l-1] + ">")
				open = open[:l-1]
			}
		case "endall":
			for l := len(open) - 1; l >= 0; l-- {
				m.w("</" + open[l] + ">")
			}
			open = nil
		case "str":
			m.w(mEscape(op.N))
		case "raw":
			m.w(op.N)
		case "ctxw", "direct":
			m.w(op.N)
		case "cargo":
			m.w(mEscape(mStr(m.env.cargo, m.env.cargo.K != "")))
		case "data":
			v, ok := m.lookup(op.N)
			m.w(mEscape(mStr(v, ok)))
		case "tag":
			m.w(m.tag)
		case "nested":
			m.nested(op)
		case "nodes":
			m.kids(op.C)
		case "try":
			m.try(op.C)
		case "setdata", "newdata":
			m.set = true
			if m.env.data != nil {
				m.env.data.m[op.N] = *op.V
			}
		case "deldata":
			m.set = true
			if m.env.data != nil {
				delete(m.env.data.m, op.N)
			}
		}
		m.lo = old
		if writes(op) {
			m.back(n.ID)
		}
	}
}

// impAttrs: only direct attribute nodes count; repeated delimited ones are joined, otherwise the last wins.
func (m *model) impAttrs(ns []*Node) {
	var slots []mattr
	for _, n := range ns {
		n = m.deref(n)
		if !isAttr(n) {
			continue
		}
		a := m.mkAttr(n)
		found := false
		for i := range slots {
			if slots[i].name == a.name {
				found = true
				if slots[i].kind == "dattr" && a.kind == "dattr" {
					slots[i].vals = append(append([]Val(nil), slots[i].vals...), a.vals...)
				} else {
					slots[i] = a
				}
			}
		}
		if !found {
			slots = append(slots, a)
		}
	}
	for _, s := range slots {
		lo := m.lo
		m.writeAttr(s)
		m.lo = lo
	}
}

// before applies what the caller does to its data ahead of an operation.
func (e *menv) before(op *Op) {
	for _, kv := range op.Set {
		if e.data != nil {
			e.data.m[kv.K] = kv.V
		}
	}
	if op.Cargo != nil {
		e.cargo = *op.Cargo
	}
	for _, p := range op.Poke {
		if p.Key == "." {
			e.cargo = poked(e.cargo, p)
		} else if e.data != nil {
			if v, ok := e.data.m[p.Key]; ok {
				e.data.m[p.Key] = poked(v, p)
			}
		}
	}
}

// poked is a value with a change somewhere in it.
func poked(v Val, p Poke) Val {
	into := func(x Val) Val {
		if x.K == "map" && x.S != "nil" {
			x.M = setKV(append([]KV(nil), x.M...), p.Sub, p.V)
		}
		return x
	}
	if p.I < 0 {
		if v.K == "map" && p.Sub != "" {
			return into(v)
		}
		return v
	}
	if p.I >= len(v.L) {
		return v
	}
	l := append([]Val(nil), v.L...)
	switch {
	case v.K == "list" && p.Sub == "":
		l[p.I] = p.V
	case v.K == "list":
		l[p.I] = into(l[p.I])
	case v.K == "strings":
		l[p.I] = Val{K: "s", S: p.V.S}
	case v.K == "ints":
		l[p.I] = Val{K: "int", I: p.V.I}
	case v.K == "maps" && p.Sub != "":
		l[p.I] = into(l[p.I])
	}
	v.L = l
	return v
}
