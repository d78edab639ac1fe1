package main

import (
	"slices"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// prof shapes the trees of a scenario.
type prof struct {
	el, void, text, frag, comment, pi, coll, cond, iter, imp, collect, custom, ref int
	attr                                                                           int // attributes per element, on average (tenths)
	condAttr                                                                       int // percent of attributes placed in conditions
	dyn                                                                            int // percent of values that are dynamic
	reg                                                                            int // percent made by named helpers
	depth                                                                          int
	nodes                                                                          int
	setdata                                                                        int // percent of imperatives that change data
	nested                                                                         int // percent of imperatives that render another tree
	big                                                                            int // per mille of scenarios with one outsized dimension
	args                                                                           int // percent of leaves using shared argument slices
	sharedV                                                                        int // percent of values that are shared values
	special                                                                        int // percent of strings with characters that need care
	kargs                                                                          int // percent of nodes whose contents are a shared slice
	headers                                                                        int // percent of attributes that are header maps
}

var baseProf = prof{el: 30, void: 6, text: 20, frag: 5, comment: 4, pi: 2, coll: 8, cond: 9, iter: 8, imp: 7, collect: 4, custom: 4, ref: 8,
	attr: 16, condAttr: 25, dyn: 35, reg: 50, depth: 5, nodes: 22, setdata: 15, nested: 12, big: 25, args: 6, sharedV: 6, special: 15, kargs: 8, headers: 1}

type gen struct {
	rng
	p      prof
	sc     *Scenario
	id     int
	left   int
	noRef  bool
	inIt   int
	comp   bool // generating a shared component
	nTree  int  // trees that may be rendered from within callbacks: only those before this one
	bigD   int  // which outsized dimension, 0 none
	noImp  bool
	newsrc bool // sources of iterations may give the context other data
	focus  bool // few names of attributes, many custom ones, conditional ones last

	tplNodes int   // trees that templates may use as content
	tplAttrs []int // and as attributes
	noPI     bool
}

func (g *gen) nid() int { g.id++; return g.id }

var (
	poolAttr, poolBattr, poolDattr []int // indices into regAttrs
	poolElem, poolVoid             []int
	voidNames                      = []string{"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"}
	wireVoid                       = map[string]bool{}
)

func init() {
	kinds := map[string]string{}
	bad := map[string]bool{}
	for _, a := range regAttrs {
		k := a.Kind + a.Delim
		if o, ok := kinds[a.Wire]; ok && o != k {
			bad[a.Wire] = true
		}
		kinds[a.Wire] = k
	}
	if kinds["style"] != "dattr; " {
		panic("harness: style")
	}
	for i, a := range regAttrs {
		if bad[a.Wire] {
			continue
		}
		switch a.Kind {
		case "attr":
			poolAttr = append(poolAttr, i)
		case "battr":
			poolBattr = append(poolBattr, i)
		case "dattr":
			poolDattr = append(poolDattr, i)
		}
	}
	for i, e := range regElems {
		if e.Void {
			poolVoid = append(poolVoid, i)
		} else {
			poolElem = append(poolElem, i)
		}
	}
	for _, v := range voidNames {
		wireVoid[v] = true
	}
}

var special = []string{"<", ">", "&", `"`, "'", "\x00", "é", "&amp;", "</p>", "a<b>c&d\"e'f", "\n", "\t", " ", "\xff", "日本"}

func (g *gen) str(nonEmpty bool) string {
	if !nonEmpty && g.n(12) == 0 {
		return ""
	}
	s := "s" + strconv.Itoa(g.n(100))
	if g.p.special > 0 && g.n(100) < g.p.special {
		for i := g.in(1, 3); i > 0; i-- {
			if g.n(2) == 0 {
				s += special[g.n(len(special))]
			} else {
				s = special[g.n(len(special))] + s + "z"
			}
		}
		if mEscape(s) == "" {
			s += "z"
		}
	}
	if g.n(60) == 0 {
		s += strings.Repeat("L"+strconv.Itoa(g.n(10)), g.in(20, 300))
	}
	if g.bigD == 1 && g.n(6) == 0 {
		s += strings.Repeat("big"+strconv.Itoa(g.n(10)), g.in(300, 4000))
		if g.n(8) == 0 {
			s += strings.Repeat("huge", bufSizes[g.n(len(bufSizes))]/4+g.in(-2, 2))
		}
	}
	return s
}

func (g *gen) scalar(nonEmpty bool) Val {
	switch g.n(14) {
	case 0:
		s := "<i>" + strconv.Itoa(g.n(100)) + "</i>&nbsp;"
		if g.p.special > 0 && g.n(4) == 0 {
			s += special[g.n(len(special))] // bytes are markup already
		}
		return Val{K: "b", S: s}
	case 1:
		return Val{K: "bool", I: int64(g.n(2))}
	case 2:
		return Val{K: "int", I: int64(g.n(2000)) - 1000}
	case 3:
		k := []string{"int8", "int16", "int32", "int64"}[g.n(4)]
		return Val{K: k, I: int64(g.n(255)) - 127}
	case 4:
		k := []string{"uint", "uint8", "uint16", "uint32", "uint64"}[g.n(5)]
		return Val{K: k, I: int64(g.n(256))}
	case 5:
		return Val{K: "f64", F: float64(g.n(100000))/8 - 1000}
	case 6:
		return Val{K: "f32", F: float64(float32(g.n(1000)) / 16)}
	case 7:
		return Val{K: "stringer", S: "str" + strconv.Itoa(g.n(100))}
	case 8:
		v := Val{K: "anyfn", S: g.str(true)}
		switch g.n(6) {
		case 0:
			v.X = "str"
		case 1:
			v.X = "fn"
		case 2:
			if !nonEmpty {
				v.X, v.S = "nil", ""
			}
		}
		return v
	case 9:
		if !nonEmpty {
			return Val{K: "nil"}
		}
	case 10:
		if g.n(3) == 0 {
			v := Val{K: "nbsp", I: int64(g.n(4))}
			if !nonEmpty && g.n(8) == 0 {
				v.I = int64(-1 - g.n(3)) // none of them
			}
			return v
		}
	}
	return Val{K: "s", S: g.str(nonEmpty)}
}

func (g *gen) fnVal(nonEmpty bool) Val {
	v := Val{K: "fn", ID: g.nid(), R: g.n(3)}
	switch g.n(10) {
	case 0, 1:
		v.S = "cargo"
	case 2:
		v.S, v.X = "data", g.dkey()
	case 3:
		v.S, v.X = "get", g.dkey()
	case 4:
		if !nonEmpty {
			v.S = "empty"
		}
	case 5:
		v.S, v.X = "const", "const"+strconv.Itoa(v.ID)
	case 6:
		if g.n(6) == 0 {
			v.X = g.large("fn")
		}
	}
	return v
}

// large is a long text, sometimes near the size of a buffer.
func (g *gen) large(s string) string {
	s += strconv.Itoa(g.n(10))
	if g.n(6) == 0 {
		n := bufSizes[g.n(len(bufSizes))] + g.in(-40, 40)
		if g.bigD == 0 && n > 10000 {
			n = 4000
		}
		return strings.Repeat(s, 1+n/len(s))
	}
	return strings.Repeat(s, g.in(10, 200))
}

// oddKeys are keys that are nearly those of something else.
var oddKeys = []string{"", "!", "!b0", "!!b0", "K1", "B0", "k1 ", " b0", "k", ".", "k1.x", "_ID"}

func (g *gen) dkey() string {
	switch g.n(8) {
	case 0:
		return "b" + strconv.Itoa(g.n(6))
	case 1:
		return "missing"
	case 2:
		if g.n(6) == 0 {
			return oddKeys[g.n(len(oddKeys))]
		}
		return "_id"
	}
	return "k" + strconv.Itoa(g.n(5))
}

func (g *gen) value(nonEmpty bool, depth int) Val {
	if g.n(100) < g.p.dyn {
		switch g.n(5) {
		case 0:
			if !nonEmpty {
				return Val{K: "dot"}
			}
			return g.fnVal(true)
		case 1, 2:
			if nonEmpty {
				return g.fnVal(true)
			}
			if k := g.dkey(); k != "." {
				return Val{K: "key", S: k}
			}
			return Val{K: "dot"}
		}
		return g.fnVal(nonEmpty)
	}
	if g.n(100) < g.p.sharedV && len(g.sc.Vals) > 0 && !g.comp {
		return Val{K: "shared", R: g.n(len(g.sc.Vals))}
	}
	if depth > 0 && g.n(6) == 0 {
		few := 3
		if g.n(12) == 0 {
			few = 12
		}
		k := []string{"concat", "newvalue", "text", "coll", "unit", "frag", "hxvar", "comment", "concat"}[g.n(9)]
		v := Val{K: k}
		switch k {
		case "newvalue":
			v.L = []Val{g.value(nonEmpty, depth-1)}
		case "hxvar":
			v.S = "v" + strconv.Itoa(g.n(10))
			v.L = []Val{g.value(nonEmpty, depth-1)}
		case "unit":
			v.R = g.n(len(regUnits))
			if g.n(100) < g.p.args*3 && len(g.sc.Args) > 0 {
				v.ID = 1 + g.n(len(g.sc.Args))
				break
			}
			fallthrough
		default:
			for i := g.in(1, few); i > 0; i-- {
				v.L = append(v.L, g.value(nonEmpty, depth-1))
			}
		}
		return v
	}
	return g.scalar(nonEmpty)
}

// values for a leaf; lastNonEmpty for delimited attributes.
func (g *gen) values(n int, allNonEmpty, lastNonEmpty bool) []Val {
	vs := make([]Val, n)
	for i := range vs {
		vs[i] = g.value(allNonEmpty || lastNonEmpty && i == n-1, 2)
	}
	return vs
}

var customDelims = []string{" ", "; ", ",", ", ", "|"}

// attrNode makes one attribute. strict: no empty values (imperative elements).
func (g *gen) attrNode(strict, noCustom bool) *Node {
	n := &Node{}
	reg := g.n(100) < g.p.reg
	nv := 1
	if g.focus {
		reg = reg && g.n(5) == 0
	}
	switch g.n(6) {
	case 0:
		nv = 0
	case 1:
		nv = 2
	case 2:
		nv = g.in(1, 4) + g.tail()
	}
	if g.n(100) < g.p.headers {
		return g.headersNode()
	}
	if g.bigD == 2 && g.n(10) == 0 {
		nv = []int{g.in(5, 50), g.in(50, 600)}[g.n(2)]
	}
	k := g.n(20)
	if g.focus && g.n(3) == 0 {
		k = 19
	}
	switch {
	case k < 8: // plain
		n.K = "attr"
		n.V = g.values(nv, strict, false)
		switch {
		case reg:
			a := &regAttrs[poolAttr[g.n(len(poolAttr))]]
			n.Via, n.Fn, n.N = "reg", a.Func, a.Wire
		case g.n(3) == 0:
			pre, via := "data-", "data"
			switch g.n(3) {
			case 0:
				pre, via = "aria-", "aria"
			case 1:
				pre, via = "hx-on:", "hxon"
			}
			n.Via = via
			n.N = pre + strings.Repeat("q", g.n(12)) + string(rune('a'+g.n(26)))
		default:
			n.N = "x-a" + strconv.Itoa(g.n(5))
			if g.n(2) == 0 {
				n.Via = "name"
			}
		}
	case k < 11:
		n.K = "battr"
		if reg {
			a := &regAttrs[poolBattr[g.n(len(poolBattr))]]
			n.Via, n.Fn, n.N = "reg", a.Func, a.Wire
		} else {
			n.N = "x-b" + strconv.Itoa(g.n(4))
			if g.n(2) == 0 {
				n.Via = "name"
			}
		}
	case k < 19 || noCustom:
		n.K = "dattr"
		n.V = g.values(nv, strict, true)
		switch {
		case g.n(4) == 0:
			p := &regProps[g.n(len(regProps))]
			n.Via, n.Fn, n.N, n.D = "prop", p.Func, "style", "; "
		case reg || g.n(3) == 0:
			a := &regAttrs[poolDattr[g.n(len(poolDattr))]]
			if g.n(2) == 0 {
				a = attrByFunc["html.Class"]
			}
			n.Via, n.Fn, n.N, n.D = "reg", a.Func, a.Wire, a.Delim
		default:
			i := g.n(len(customDelims))
			n.N, n.D = "x-d"+strconv.Itoa(i), customDelims[i]
			if g.n(2) == 0 {
				n.Via = "name"
			}
		}
	default:
		n.K = "cattr"
		n.N = "x-c" + strconv.Itoa(g.n(3))
		n.ID = g.nid()
	}
	if g.focus && strings.HasPrefix(n.N, "x-") && n.K != "dattr" && g.n(3) > 0 {
		n.N = n.N[:3] + "0"
	}
	if g.n(12) == 0 && (n.Via == "" || n.Via == "name") && n.K != "dattr" { // kinds of which the last wins
		n.N = "x-m" + strconv.Itoa(g.n(2))
	}
	if g.n(12) == 0 && strings.HasPrefix(n.N, "x-") { // names that differ in case only
		n.N = "x-" + strings.ToUpper(n.N[2:])
	}
	if n.K != "battr" && n.K != "cattr" && n.Via != "hxheaders" && n.Via != "hxheadersjs" && !g.comp && g.n(100) < g.p.args && len(g.sc.Args) > 0 {
		n.Args = 1 + g.n(len(g.sc.Args))
		n.V = nil
	}
	return n
}

var headerKeys = []string{"X-", "x-", "X-a", "x-A", "Accept", "accept", "ACCEPT", "ä", "Z", "a'b", `q"r`, "_"}

// headersNode: hx-headers from maps.
func (g *gen) headersNode() *Node {
	n := &Node{K: "attr", N: "hx-headers", Via: []string{"hxheaders", "hxheadersjs"}[g.n(2)]}
	style := g.n(3)
	for i := g.in(1, 2); i > 0; i-- {
		if len(g.sc.HMaps) > 0 && !g.comp && g.n(3) > 0 {
			n.V = append(n.V, Val{K: "hmap", R: g.n(len(g.sc.HMaps))})
			continue
		}
		m := Val{K: "map"}
		m.M = g.headerMap(style)
		n.V = append(n.V, m)
	}
	return n
}

func (g *gen) headerMap(style int) (m []KV) {
	for h := g.n(5); h >= 0; h-- {
		k := "X-" + strconv.Itoa(g.n(6))
		switch style {
		case 1:
			k = headerKeys[g.n(len(headerKeys))]
		case 2:
			k = headerKeys[g.n(len(headerKeys))] + strconv.Itoa(g.n(3))
		}
		m = setKV(m, k, g.value(false, 1))
	}
	return m
}

// makeMaps: header maps that are given to several helpers.
func (g *gen) makeMaps(n int) {
	g.comp = true
	style := g.n(3)
	for i := 0; i < n; i++ {
		g.sc.HMaps = append(g.sc.HMaps, g.headerMap(style))
	}
	g.comp = false
}

func setKV(m []KV, k string, v Val) []KV {
	for i := range m {
		if m[i].K == k {
			m[i].V = v
			return m
		}
	}
	return append(m, KV{k, v})
}

func (g *gen) condSpec() *Cond {
	switch g.n(14) {
	case 0:
		return &Cond{K: "true", ID: g.nid()}
	case 1:
		return &Cond{K: "false", ID: g.nid()}
	case 2:
		return &Cond{K: "cargo", S: strconv.Itoa(g.n(4)), ID: g.nid()}
	case 3:
		return &Cond{K: "get", S: "b" + strconv.Itoa(g.n(6)), ID: g.nid()}
	case 4:
		return &Cond{K: "nil"}
	case 5, 6, 7, 8:
		k := []string{"b", "b", "b", "k"}[g.n(4)] + strconv.Itoa(g.n(7))
		if g.n(12) == 0 {
			k = oddKeys[g.n(len(oddKeys))]
			if k == "." { // a value of that key is the cargo, a condition its data
				k = ""
			}
		}
		if g.n(3) == 0 {
			k = "!" + k
		}
		return &Cond{K: "when", S: k}
	}
	return &Cond{K: "data", S: "b" + strconv.Itoa(g.n(6)), ID: g.nid()}
}

// attrItems makes the attribute part of an element's contents.
func (g *gen) attrItems(strict bool) []*Node {
	var r []*Node
	n := 0
	for i := 0; i < g.p.attr; i += 10 {
		n += g.n(3)
	}
	if g.bigD == 2 && g.n(4) == 0 {
		n += g.in(10, 60)
	}
	if n > 0 && g.left > 0 {
		n += g.tail()
	}
	for i := 0; i < n; i++ {
		switch {
		case strict:
			r = append(r, g.attrNode(true, true))
		case g.n(100) < g.p.condAttr:
			r = append(r, g.condAttrs(g.in(0, 3)))
		case g.n(8) == 0:
			c := &Node{K: "coll"}
			for k := g.in(0, 3) + g.tail(); k > 0; k-- {
				c.C = append(c.C, g.attrNode(false, false))
			}
			r = append(r, c)
		case g.p.ref > 0 && !g.noRef && g.n(6) == 0:
			if x := g.refOf(func(c *Node) bool { return isAttr(c) }); x != nil {
				r = append(r, x)
				if c := g.sc.Comps[x.Ref]; c.K == "dattr" && g.n(2) == 0 { // more values for it
					r = append(r, g.sameName(c))
				}
			}
		default:
			r = append(r, g.attrNode(false, false))
		}
	}
	if g.focus {
		slices.SortStableFunc(r, func(a, b *Node) int {
			ca, cb := a.K == "cond", b.K == "cond"
			switch {
			case ca == cb:
				return 0
			case cb:
				return -1
			}
			return 1
		})
	}
	return r
}

// sameName makes another delimited attribute of the name of one.
func (g *gen) sameName(c *Node) *Node {
	n := &Node{K: "dattr", N: c.N, D: c.D, Via: c.Via, Fn: c.Fn, V: g.values(g.in(1, 2), false, true)}
	if n.Via == "prop" {
		n.Fn = regProps[g.n(len(regProps))].Func
	}
	return n
}

// condAttrs: attributes under conditions, direct ones first, nested conditions after them.
func (g *gen) condAttrs(depth int) *Node {
	c := &Node{K: "cond", Cond: g.condSpec()}
	for k := g.in(0, 2) + g.tail(); k > 0; k-- {
		if x := g.refOf(func(c *Node) bool { return isAttr(c) }); x != nil && g.n(4) == 0 {
			c.C = append(c.C, x)
		} else {
			c.C = append(c.C, g.attrNode(false, false))
		}
	}
	if depth > 0 {
		for k := g.n(3); k > 0; k-- {
			if g.n(4) == 0 {
				l := &Node{K: "coll"}
				for q := g.in(1, 2); q > 0; q-- {
					if g.n(2) == 0 {
						l.C = append(l.C, g.attrNode(false, false))
					} else {
						l.C = append(l.C, g.condAttrs(depth-1))
					}
				}
				c.C = append(c.C, l)
			} else {
				c.C = append(c.C, g.condAttrs(depth-1))
			}
		}
	}
	return c
}

func (g *gen) refOf(ok func(*Node) bool) *Node {
	if g.noRef || len(g.sc.Comps) == 0 {
		return nil
	}
	s := g.n(len(g.sc.Comps))
	for i := range g.sc.Comps {
		k := (s + i) % len(g.sc.Comps)
		if ok(g.sc.Comps[k]) {
			return &Node{K: "ref", Ref: k}
		}
	}
	return nil
}

// orderOK says whether the order of the element's attributes is fixed by the documentation: no
// unconditional attribute after a conditional one of the same name; conditional-only attributes of one
// name adjacent; direct attributes of a condition before those of conditions nested in it.
func (g *gen) orderOK(contents []*Node) bool {
	type ent struct {
		name string
		cond bool
	}
	var all []ent
	ok := true
	m := &model{sc: g.sc}
	var walk func(ns []*Node, cond bool)
	walk = func(ns []*Node, cond bool) {
		nestedSeen := false
		for _, n := range ns {
			n = m.deref(n)
			switch {
			case isAttr(n):
				if cond && nestedSeen {
					ok = false
				}
				all = append(all, ent{n.N, cond})
			case n.K == "coll" || n.K == "cond" && n.Cond.K == "nil":
				before := len(all)
				walk(n.C, cond)
				if len(all) > before {
					nestedSeen = true
				}
			case n.K == "cond":
				before := len(all)
				walk(n.C, true)
				if len(all) > before {
					nestedSeen = true
				}
			}
		}
	}
	walk(contents, false)
	unc := map[string]bool{}
	for _, e := range all {
		if !e.cond {
			unc[e.name] = true
		}
	}
	seenC := map[string]bool{}
	last := ""
	for _, e := range all {
		if e.cond {
			if !unc[e.name] {
				if seenC[e.name] && last != e.name {
					ok = false
				}
				last = e.name
			}
			seenC[e.name] = true
		} else if seenC[e.name] {
			ok = false
		}
	}
	return ok
}

// hasAttr says whether placing n directly among an element's contents adds attributes to it.
func (g *gen) hasAttr(n *Node) bool {
	m := &model{sc: g.sc}
	n = m.deref(n)
	if isAttr(n) {
		return true
	}
	if n.K == "coll" || n.K == "cond" {
		for _, c := range n.C {
			if g.hasAttr(c) {
				return true
			}
		}
	}
	return false
}

func (g *gen) element(depth int, void bool) *Node {
	n := &Node{K: "el"}
	if void {
		n.K = "void"
	}
	if g.n(100) < g.p.reg {
		pool := poolElem
		if void {
			pool = poolVoid
		}
		e := &regElems[pool[g.n(len(pool))]]
		n.Via, n.Fn, n.N = "reg", e.Func, e.Wire
	} else if void {
		n.N = voidNames[g.n(len(voidNames))]
		n.Via = []string{"", "name", "voidname"}[g.n(3)]
		if n.Via != "name" && g.n(3) == 0 {
			n.N = "x-void"
		}
	} else {
		n.N = []string{"div", "x-el", "section", "a.b", "ns:el"}[g.n(5)]
		n.Via = []string{"", "name"}[g.n(2)]
	}
	for try := 0; ; try++ {
		atts := g.attrItems(false)
		if try > 5 {
			atts = nil
			for k := g.n(3); k > 0; k-- {
				atts = append(atts, g.attrNode(false, false))
			}
		}
		var kids []*Node
		id0 := g.id
		left0 := g.left
		if !void || g.n(3) == 0 {
			kids = g.kids(depth - 1)
		}
		// interleave attributes and contents
		var all []*Node
		i, k := 0, 0
		for i < len(atts) || k < len(kids) {
			if k >= len(kids) || i < len(atts) && g.n(3) > 0 {
				all = append(all, atts[i])
				i++
			} else {
				all = append(all, kids[k])
				k++
			}
		}
		if g.orderOK(all) {
			n.C = all
			return n
		}
		if try > 8 {
			var plain []*Node
			for _, c := range all {
				if !g.hasAttr(c) {
					plain = append(plain, c)
				}
			}
			n.C = plain
			return n
		}
		g.id, g.left = id0, left0
	}
}

func (g *gen) kids(depth int) []*Node {
	n := g.in(0, 3)
	if g.bigD == 3 && g.n(8) == 0 {
		n += g.in(5, 40)
		g.left += n
	}
	var r []*Node
	for i := 0; i < n; i++ {
		r = append(r, g.node(depth))
	}
	if g.left > 0 {
		for i := g.tail(); i > 0; i-- {
			r = append(r, g.node(0))
		}
	}
	if g.n(15) == 0 {
		r = append(r, &Node{K: "nilnode"})
	}
	return r
}

// tail is what is rarely added to a number of things.
func (g *gen) tail() int {
	if g.n(50) > 0 {
		return 0
	}
	if g.n(4) > 0 {
		return g.in(4, 13)
	}
	if g.n(6) > 0 {
		return g.in(12, 40)
	}
	return g.in(40, 140)
}

// plainKids: contents for constructors that take nodes (not bare values); never nil nodes.
func (g *gen) plainKids(depth, lo, hi int) []*Node {
	var r []*Node
	for i := g.in(lo, hi); i > 0; i-- {
		n := g.node(depth)
		n.Raw = false
		r = append(r, n)
	}
	if g.left > 0 {
		for i := g.tail(); i > 0; i-- {
			n := g.node(0)
			n.Raw = false
			r = append(r, n)
		}
	}
	return r
}

func (g *gen) leaf(k string) *Node {
	n := &Node{K: k}
	nv := 1
	if g.n(3) == 0 {
		nv = g.in(0, 4) + g.tail()
	}
	n.V = g.values(nv, false, false)
	switch k {
	case "text":
		switch g.n(4) {
		case 0, 1:
			if len(n.V) == 1 && rawOK(n.V[0]) {
				n.Raw = true
			}
		case 2:
			n.Via = "reg"
		}
	case "pi":
		n.N = []string{"DOCTYPE", "ENTITY", "x"}[g.n(3)]
	}
	if n.Via == "" && (k == "text" || k == "comment" || k == "pi") && g.n(3) == 0 {
		n.Via = []string{"html", "svg"}[g.n(2)]
	}
	if !g.comp && g.n(100) < g.p.args && len(g.sc.Args) > 0 {
		n.Args = 1 + g.n(len(g.sc.Args))
		n.V, n.Raw = nil, false
	}
	return n
}

// rawOK: values whose Go form is not itself a node.
func rawOK(v Val) bool {
	switch v.K {
	case "text", "frag", "comment", "coll", "shared":
		return false
	}
	return true
}

func (g *gen) node(depth int) *Node {
	p := &g.p
	g.left--
	if depth <= 0 || g.left <= 0 {
		switch g.pick(8, 2, p.custom/3, p.imp/3) {
		case 1:
			return g.leaf("frag")
		case 2:
			return &Node{K: "custom", N: "cu", ID: g.nid(), Typ: g.customTyp(), Mode: g.customMode()}
		case 3:
			if !g.noImp {
				return g.imperative(0)
			}
		}
		return g.leaf("text")
	}
	switch g.pick(p.el, p.void, p.text, p.frag, p.comment, p.pi, p.coll, p.cond, p.iter, p.imp, p.collect, p.custom, p.ref) {
	case 0:
		return g.element(depth, false)
	case 1:
		return g.element(depth, true)
	case 2:
		return g.leaf("text")
	case 3:
		return g.leaf("frag")
	case 4:
		return g.leaf("comment")
	case 5:
		if g.n(4) == 0 {
			return &Node{K: "doctype"}
		}
		return g.leaf("pi")
	case 6:
		n := &Node{K: "coll", C: g.plainKids(depth-1, 0, 4)}
		if g.n(6) == 0 {
			n.C = append(n.C, &Node{K: "nilnode"})
		}
		return n
	case 7:
		n := &Node{K: "cond", Cond: g.condSpec()}
		if g.n(4) == 0 && p.condAttr > 0 {
			n.C = append(n.C, g.attrNode(false, false))
		}
		n.C = append(n.C, g.plainKids(depth-1, 1, 3)...)
		return n
	case 8:
		return g.iteration(depth)
	case 9:
		return g.imperative(depth - 1)
	case 10:
		if g.n(20) == 0 { // without a function
			return &Node{K: "nilfn", Mode: []string{"imp", "collect"}[g.n(2)]}
		}
		n := &Node{K: "collect", ID: g.nid(), C: g.plainKids(depth-1, 0, 3)}
		if g.n(3) == 0 {
			n.Mode = "fresh"
		}
		if g.n(4) == 0 {
			n.C = append(n.C, &Node{K: "nilnode"})
		}
		if g.n(4) == 0 {
			n.C = append(n.C, g.attrNode(false, true))
		}
		return n
	case 11:
		return &Node{K: "custom", N: "cu", ID: g.nid(), Typ: g.customTyp(), Mode: g.customMode(), C: g.plainKids(depth-1, 0, 2)}
	case 12:
		if r := g.refOf(func(c *Node) bool { return !isAttr(c) }); r != nil {
			return r
		}
	}
	return g.leaf("text")
}

func (g *gen) customTyp() int { return []int{0, 2, 3, 6, 77}[g.n(5)] }

func (g *gen) customMode() string {
	switch g.n(9) {
	case 0, 1, 2:
		return "direct"
	case 3, 4:
		return "wrap"
	}
	return ""
}

// item of an iteration.
func (g *gen) item(depth int) Val {
	switch g.n(10) {
	case 0:
		return Val{K: "nil"}
	case 1, 2:
		return Val{K: "int", I: int64(g.n(6))}
	case 3:
		return Val{K: "bool", I: int64(g.n(2))}
	case 4, 5, 6:
		m := Val{K: "map", M: []KV{{"_id", Val{K: "s", S: "I" + strconv.Itoa(g.n(1000))}}}}
		for k := g.n(4); k > 0; k-- {
			if g.n(3) == 0 {
				m.M = setKV(m.M, "b"+strconv.Itoa(g.n(6)), Val{K: "bool", I: int64(g.n(2))})
			} else {
				m.M = setKV(m.M, "k"+strconv.Itoa(g.n(5)), Val{K: "s", S: "it" + strconv.Itoa(g.n(100))})
			}
		}
		if depth > 0 && g.n(3) == 0 {
			m.M = setKV(m.M, "l"+strconv.Itoa(g.n(3)), g.list(depth-1))
		}
		return m
	case 7:
		if depth > 0 {
			return Val{K: "list", L: g.itemList(depth - 1)}
		}
	case 8:
		switch g.n(7) {
		case 3:
			return Val{K: "map"}
		case 4:
			return Val{K: "map", S: "nil"}
		case 5:
			return Val{K: "nmap", M: []KV{{"k1", Val{K: "s", S: "nm"}}, {"b1", Val{K: "bool", I: 1}}, {"_id", Val{K: "s", S: "NM"}}}}
		case 0:
			return Val{K: "smap", M: []KV{{"k1", Val{K: "s", S: "sm"}}, {"_id", Val{K: "s", S: "SM"}}}}
		case 1, 2:
			return g.live(g.scalar(false))
		}
	}
	return Val{K: "s", S: "i" + strconv.Itoa(g.n(100))}
}

// live makes a value of the data a recorded callback, if it can be one.
func (g *gen) live(v Val) Val {
	if (v.K == "stringer" || v.K == "anyfn") && g.n(4) > 0 {
		v.ID = g.nid()
	}
	return v
}

func (g *gen) itemList(depth int) []Val {
	n := g.n(5)
	if t := g.tail(); t > 0 && depth > 0 {
		n += t
		depth = 0
	}
	if g.bigD == 4 && depth >= 2 && g.n(3) == 0 {
		n = g.in(50, 400)
		if g.n(3) == 0 {
			n = g.in(400, 3000) // of flat items
			depth = 0
		}
	}
	l := make([]Val, n)
	for i := range l {
		l[i] = g.item(depth)
	}
	return l
}

// list is a value of Data to iterate over.
func (g *gen) list(depth int) Val {
	switch g.n(9) {
	case 8:
		v := Val{K: "tlist", X: []string{"f64", "bool", "int64", "b", "list", "stringer", "istringer", "smap", "nmap", "anyfn"}[g.n(10)]}
		for i := g.in(1, 4); i > 0; i-- {
			it := Val{K: v.X, S: "tl" + strconv.Itoa(g.n(50)), I: int64(g.n(50))}
			switch v.X {
			case "f64":
				it.F = float64(g.n(100)) / 4
			case "bool":
				it.I %= 2
			case "list":
				it.L = []Val{{K: "s", S: it.S}}
			case "istringer":
				it.K = "stringer"
				it = g.live(it)
			case "stringer", "anyfn":
				it = g.live(it)
			case "smap", "nmap":
				it.M = []KV{{"_id", Val{K: "s", S: it.S}}, {"k1", Val{K: "s", S: "tm"}}}
			}
			v.L = append(v.L, it)
		}
		if g.n(15) == 0 {
			v = Val{K: "plist"}
		}
		return v
	case 0:
		v := Val{K: "strings"}
		for i := g.n(4) + g.tail(); i > 0; i-- {
			v.L = append(v.L, Val{K: "s", S: "t" + strconv.Itoa(g.n(50))})
		}
		return v
	case 1:
		v := Val{K: "ints"}
		for i := g.n(4) + g.tail(); i > 0; i-- {
			v.L = append(v.L, Val{K: "int", I: int64(g.n(50))})
		}
		return v
	case 2:
		v := Val{K: "maps"}
		for i := g.n(4) + g.tail(); i > 0; i-- {
			it := g.item(0)
			if it.K != "map" {
				it = Val{K: "map", M: []KV{{"_id", Val{K: "s", S: "J" + strconv.Itoa(g.n(1000))}}, {"k1", Val{K: "s", S: "j"}}}}
			}
			v.L = append(v.L, it)
		}
		return v
	}
	v := Val{K: "list", L: g.itemList(depth)}
	if g.n(12) == 0 {
		v.K = "nlist"
	}
	return v
}

// pokes are changes of the caller's inside values of its data.
func (g *gen) pokes() (ps []Poke) {
	for k := g.in(1, 4); k > 0; k-- {
		p := Poke{Key: "l" + strconv.Itoa(g.n(3)), I: g.n(4), V: Val{K: "s", S: "poke" + strconv.Itoa(g.n(100)), I: int64(g.n(100))}}
		if g.n(5) == 0 {
			p.Key = "."
			if g.n(2) == 0 {
				p.I, p.Sub = -1, "k1"
			}
		}
		if p.I >= 0 && g.n(3) == 0 {
			p.Sub = "k" + strconv.Itoa(g.n(5))
		}
		if g.n(4) == 0 && p.Sub != "" {
			p.Sub, p.V = "b"+strconv.Itoa(g.n(6)), Val{K: "bool", I: int64(g.n(2))}
		} else if g.n(4) == 0 && p.Sub == "" {
			p.V = Val{K: "int", S: "int", I: int64(g.n(100))}
		}
		ps = append(ps, p)
	}
	return ps
}

func (g *gen) iteration(depth int) *Node {
	n := &Node{K: []string{"iter", "iterkey", "yield"}[g.n(3)]}
	key := "l" + strconv.Itoa(g.n(3))
	if g.n(15) == 0 {
		key = "k" + strconv.Itoa(g.n(5))
	}
	switch {
	case n.K == "iterkey":
		n.Src = &Items{K: "data", S: key}
	case g.n(3) == 0:
		n.Src = &Items{K: "data", S: key, ID: g.nid()}
	case g.n(4) == 0:
		n.Src = &Items{K: "cargo", ID: g.nid()}
	default:
		n.Src = &Items{K: "list", L: g.itemList(2), ID: g.nid()}
	}
	if n.K != "iterkey" && (g.p.setdata > 0 || g.newsrc) && g.inIt == 0 && !g.comp && g.n(12) == 0 {
		n.Src.New = &KV{"b" + strconv.Itoa(g.n(6)), Val{K: "bool", I: int64(g.n(2))}}
		if g.n(2) == 0 {
			n.Src.New = &KV{"k" + strconv.Itoa(g.n(5)), Val{K: "s", S: "new" + strconv.Itoa(g.n(100))}}
		}
		n.Src.NewAt = g.n(3)
	}
	g.inIt++
	n.C = g.plainKids(depth-1, 1, 3)
	if g.n(5) == 0 {
		n.C = append(n.C, g.attrNode(false, true)) // ignored
	}
	g.inIt--
	return n
}

var impNames = []string{"p", "ul", "li", "span", "x-i", "table", "b"}

func (g *gen) imperative(depth int) *Node {
	n := &Node{K: "imp", ID: g.nid()}
	if g.n(4) == 0 {
		n.Mode = "wrap"
	}
	cnt := g.in(1, 7) + g.tail()
	if g.n(80) == 0 { // many elements open at once
		for i := g.in(8, 70); i > 0; i-- {
			n.Ops = append(n.Ops, IOp{K: "start", N: impNames[g.n(len(impNames))]})
		}
		for i := g.n(20); i > 0; i-- {
			n.Ops = append(n.Ops, IOp{K: "end"})
		}
	}
	if g.bigD == 5 && g.n(3) == 0 {
		cnt = g.in(20, 120)
	}
	for i := 0; i < cnt; i++ {
		op := IOp{}
		switch g.pick(30, 20, 5, 12, 8, 8, 5, 5, g.p.setdata/4, g.p.nested/3, 4) {
		case 0:
			op.K = "start"
			op.N = impNames[g.n(len(impNames))]
			if g.n(4) == 0 {
				op.Void = true
				if g.n(4) > 0 {
					op.N = voidNames[g.n(len(voidNames))]
				}
			} else if g.n(20) == 0 {
				op.N = voidNames[g.n(len(voidNames))] // whether it is void is for the caller to say
			}
			op.C = g.impAttrItems()
		case 1:
			op.K = "end"
		case 2:
			op.K = "endall"
		case 3:
			op.K, op.N = "str", g.str(false)
			if g.n(60) == 0 {
				op.N = g.large(op.N)
			}
		case 4:
			op.K, op.N = "raw", "<u>"+strconv.Itoa(g.n(100))+"</u>"
			if g.n(40) == 0 {
				op.N = g.large("<u>")
			}
			if g.n(4) == 0 {
				op.K = []string{"ctxw", "direct"}[g.n(2)]
			}
		case 5:
			if depth > 0 && g.n(5) == 0 {
				op.K, op.C = "try", g.plainKids(depth-1, 1, 2)
				g.boom(&op.C)
			} else if depth > 0 {
				op.K, op.C = "nodes", g.plainKids(depth-1, 1, 2)
				if g.n(5) == 0 {
					op.C = append(op.C, g.attrNode(false, true))
				}
				if g.n(6) == 0 {
					op.C = append(op.C, &Node{K: "nilnode"})
				}
			} else {
				op.K = "tag"
			}
		case 6:
			op.K = "cargo"
		case 7:
			op.K, op.N = "data", g.dkey()
		case 8:
			if g.inIt > 0 || g.comp {
				op.K = "tag"
				break
			}
			op.K = "setdata"
			if g.n(2) == 0 {
				op.N = "b" + strconv.Itoa(g.n(6))
				op.V = &Val{K: "bool", I: int64(g.n(2))}
			} else {
				op.N = "k" + strconv.Itoa(g.n(5))
				op.V = &Val{K: "s", S: "set" + strconv.Itoa(g.n(100))}
			}
			switch g.n(5) {
			case 0:
				op.K, op.V = "deldata", nil
			case 1, 2:
				op.K = "newdata"
			}
		case 9:
			if g.nTree > 0 && !g.comp {
				op.K, op.Tree = "nested", g.n(g.nTree)
				op.Env = g.share(g.env("N" + strconv.Itoa(n.ID) + "x" + strconv.Itoa(i)))
			} else {
				op.K = "point"
			}
		default:
			op.K = "tag"
		}
		n.Ops = append(n.Ops, op)
	}
	if g.n(3) > 0 {
		n.Ops = append(n.Ops, IOp{K: "endall"})
	}
	return n
}

// boom puts a node that panics somewhere into the nodes.
func (g *gen) boom(l *[]*Node) {
	for {
		var in []*Node
		for _, n := range *l {
			switch n.K {
			case "el", "coll", "cond", "iter", "iterkey", "yield", "collect", "custom", "doc":
				if n.Kargs == 0 {
					in = append(in, n)
				}
			}
		}
		if len(in) == 0 || g.n(4) == 0 {
			break
		}
		l = &in[g.n(len(in))].C
	}
	i := g.n(len(*l) + 1)
	*l = slices.Insert(*l, i, &Node{K: "boom", ID: g.nid()})
}

func (g *gen) impAttrItems() []*Node {
	r := g.attrItems(true)
	for _, a := range r {
		if a.Args > 0 && a.K == "dattr" {
			a.Args, a.V = 0, g.values(1, true, true)
		}
	}
	if g.p.ref > 0 && g.n(4) == 0 {
		if x := g.refOf(func(c *Node) bool { return c.K == "attr" || c.K == "battr" || c.K == "dattr" && g.strictOK(c) }); x != nil {
			r = append(r, x)
		}
	}
	if g.n(10) == 0 {
		r = append(r, &Node{K: "nilnode"})
	}
	if g.n(10) == 0 {
		r = append(r, g.leaf("text")) // ignored
		r[len(r)-1].Raw = false
	}
	return r
}

// strictOK: no value of the attribute can be empty.
func (g *gen) strictOK(n *Node) bool {
	vs := n.V
	if n.Args > 0 {
		vs = g.sc.Args[n.Args-1]
	}
	for _, v := range vs {
		if !g.neverEmpty(v) {
			return false
		}
	}
	return true
}

func (g *gen) neverEmpty(v Val) bool {
	switch v.K {
	case "nil", "key", "dot":
		return false
	case "fn":
		return v.S != "empty"
	case "s":
		return mEscape(v.S) != ""
	case "anyfn":
		return v.X != "nil" && mEscape(v.S) != ""
	case "b", "stringer":
		return v.S != ""
	case "nbsp":
		return v.I >= 0
	case "concat", "newvalue", "text", "coll", "frag", "comment", "hxvar", "unit":
		for _, x := range v.L {
			if !g.neverEmpty(x) {
				return false
			}
		}
		return len(v.L) > 0 || v.K == "unit" || v.K == "hxvar"
	case "shared":
		return g.neverEmpty(g.sc.Vals[v.R])
	}
	return true
}

// env is the data of a fresh context.
func (g *gen) env(tag string) *Env {
	e := &Env{Tag: tag}
	if g.n(25) == 0 {
		e.NoData = true
	} else {
		e.Data = append(e.Data, KV{"_id", Val{K: "s", S: "D" + tag}})
		for i := 0; i < 5; i++ {
			k := "k" + strconv.Itoa(i)
			switch g.n(8) {
			case 0:
			case 1:
				e.Data = append(e.Data, KV{k, Val{K: "int", I: int64(g.n(100))}})
			case 2:
				e.Data = append(e.Data, KV{k, g.live(g.scalar(false))})
			default:
				s := k + "-" + tag
				if g.n(100) < g.p.special {
					s += special[g.n(len(special))]
				}
				e.Data = append(e.Data, KV{k, Val{K: "s", S: s}})
			}
		}
		for i := 0; i < 6; i++ {
			if g.n(8) > 0 {
				e.Data = append(e.Data, KV{"b" + strconv.Itoa(i), Val{K: "bool", I: int64(g.n(2))}})
			}
		}
		for i := 0; i < 3; i++ {
			if g.n(5) > 0 {
				e.Data = append(e.Data, KV{"l" + strconv.Itoa(i), g.list(2)})
			}
		}
		for i := g.tail(); i > 0; i-- {
			e.Data = append(e.Data, KV{"x" + strconv.Itoa(i), Val{K: "s", S: "unused-" + tag}})
		}
		if g.n(5) == 0 {
			for i := g.n(len(oddKeys)); i < len(oddKeys); i += 1 + g.n(3) {
				v := Val{K: "bool", I: int64(g.n(2))}
				if g.n(3) == 0 {
					v = Val{K: "s", S: "odd" + strconv.Itoa(i) + "-" + tag}
				}
				e.Data = append(e.Data, KV{oddKeys[i], v})
			}
		}
	}
	switch g.n(6) {
	case 0:
		e.Cargo = &Val{K: "s", S: "cargo-" + tag}
	case 1:
		e.Cargo = &Val{K: "int", I: int64(g.n(5))}
	case 2:
		e.Cargo = &Val{K: "map", M: []KV{{"_id", Val{K: "s", S: "C" + tag}}, {"k1", Val{K: "s", S: "ck-" + tag}}, {"b1", Val{K: "bool", I: int64(g.n(2))}}}}
	case 3:
		e.Cargo = &Val{K: "list", L: g.itemList(1)}
	case 5:
		if g.n(3) == 0 {
			e.Cargo = &Val{K: []string{"smap", "nmap"}[g.n(2)], M: []KV{{"_id", Val{K: "s", S: "C" + tag}}, {"k1", Val{K: "s", S: "ck-" + tag}}, {"k2", Val{K: "s", S: "cl-" + tag}}}}
		}
	case 4:
		if g.n(3) == 0 {
			c := g.live([]Val{{K: "stringer", S: "sc-" + tag}, {K: "anyfn", S: "fc-" + tag, X: []string{"", "", "nil", "str"}[g.n(4)]}, {K: "b", S: "<b>" + tag}}[g.n(3)])
			e.Cargo = &c
		}
	}
	switch g.n(10) {
	case 0, 1:
		e.W = "rich"
	case 2:
		e.W = "buffer"
	case 3:
		e.W = "file"
	}
	if g.n(3) == 0 {
		e.Piece = g.in(1, 6)
	}
	return e
}

// upper is the data of a context that is the parent of another: none of it may show.
func (g *gen) upper(tag string) *Env {
	e := &Env{Data: []KV{{"_id", Val{K: "s", S: "U" + tag}}}}
	for i := 0; i < 5; i++ {
		k := strconv.Itoa(i)
		e.Data = append(e.Data, KV{"k" + k, Val{K: "s", S: "UPPER-k" + k}}, KV{"b" + k, Val{K: "bool", I: int64(g.n(2))}})
		if i < 3 {
			e.Data = append(e.Data, KV{"l" + k, Val{K: "list", L: []Val{{K: "s", S: "UPPER-l" + k}}}})
		}
	}
	c := Val{K: "s", S: "UPPER-cargo"}
	e.Cargo = &c
	return e
}

// comps makes shared components: attributes, values, elements, collections.
func (g *gen) makeComps(n int) {
	g.comp = true
	for i := 0; i < n; i++ {
		save := g.left
		g.left = 6
		var c *Node
		switch g.n(8) {
		case 0, 1, 2:
			c = g.attrNode(false, false)
		case 3:
			c = g.element(2, false)
		case 4:
			c = &Node{K: "coll", C: g.plainKids(1, 1, 3)}
			if g.n(2) == 0 {
				c.C = append([]*Node{g.attrNode(false, false)}, c.C...)
			}
		case 5:
			c = g.condAttrs(2)
		case 6:
			c = g.imperative(1)
		default:
			c = g.node(2)
		}
		c.Raw = false
		g.left = save
		g.sc.Comps = append(g.sc.Comps, c)
	}
	g.comp = false
}

func (g *gen) makeVals(n int) {
	g.comp = true
	for i := 0; i < n; i++ {
		v := Val{K: []string{"concat", "text", "newvalue", "unit"}[g.n(4)], R: g.n(len(regUnits))}
		for k := g.in(1, 3); k > 0; k-- {
			v.L = append(v.L, g.value(true, 0))
		}
		v.L = g.withNils(v.L)
		g.sc.Vals = append(g.sc.Vals, v)
	}
	g.comp = false
}

// makeArgs: argument slices owned by the caller, most with spare capacity.
func (g *gen) makeArgs(n int) {
	g.comp = true
	for i := 0; i < n; i++ {
		var vs []Val
		for k := g.in(0, 3); k > 0; k-- {
			vs = append(vs, g.value(true, 0))
		}
		vs = g.withNils(vs)
		g.sc.Args = append(g.sc.Args, vs)
		g.sc.Slack = append(g.sc.Slack, g.n(4))
	}
	g.comp = false
}

// withNils puts absent values between the others.
func (g *gen) withNils(vs []Val) []Val {
	if g.n(3) > 0 {
		return vs
	}
	for k := g.in(1, 2); k > 0; k-- {
		i := g.n(len(vs) + 1)
		vs = append(vs[:i:i], append([]Val{{K: "nil"}}, vs[i:]...)...)
	}
	return vs
}

// makeKids: slices of nodes owned by the caller.
func (g *gen) makeKids(n int) {
	g.comp = true
	for i := 0; i < n; i++ {
		save := g.left
		g.left = 6
		var l []*Node
		if g.n(3) == 0 {
			l = append(l, g.attrNode(false, true))
		}
		l = append(l, g.plainKids(2, 1, 4)...)
		if g.n(2) == 0 {
			k := g.n(len(l) + 1)
			l = append(l[:k:k], append([]*Node{{K: "nilnode"}}, l[k:]...)...)
		}
		g.left = save
		g.sc.Kids = append(g.sc.Kids, l)
	}
	g.comp = false
}

// shareKids lets some nodes of the last tree take their contents from the shared slices.
func (g *gen) shareKids(pct int) {
	if len(g.sc.Kids) == 0 || pct == 0 {
		return
	}
	var node func(n *Node)
	node = func(n *Node) {
		switch n.K {
		case "coll", "cond", "iter", "yield", "iterkey", "collect", "custom", "el", "doc":
			if g.n(100) >= pct {
				break
			}
			old := n.C
			n.Kargs = 1 + g.n(len(g.sc.Kids))
			n.C = g.sc.Kids[n.Kargs-1]
			if valid(g.sc) {
				return
			}
			n.Kargs, n.C = 0, old
		}
		for _, c := range n.C {
			node(c)
		}
		for _, c := range n.C2 {
			node(c)
		}
		for i := range n.Ops {
			for _, c := range n.Ops[i].C {
				node(c)
			}
		}
	}
	node(g.sc.Trees[len(g.sc.Trees)-1])
}

func (g *gen) tree() *Node {
	g.left = g.p.nodes
	g.nTree = len(g.sc.Trees)
	d := g.p.depth
	if g.bigD == 6 {
		return g.deep(g.in(15, 60))
	}
	var n *Node
	switch g.n(12) {
	case 0:
		n = &Node{K: "coll", C: g.plainKids(d-1, 1, 5)}
	case 1:
		n = g.node(d)
	case 2:
		n = &Node{K: "doc", C: g.docPart(d - 1), C2: g.docPart(1)}
		if g.n(3) > 0 {
			n.V = []Val{g.value(true, 0)}
			if !docLang(n.V[0]) {
				n.V[0] = Val{K: "s", S: "en"}
			}
		}
	default:
		n = g.element(d, false)
	}
	n.Raw = false
	return n
}

func docLang(v Val) bool { return rawOK(v) && v.K != "nil" }

func (g *gen) docPart(d int) []*Node {
	e := g.element(d, false)
	return e.C
}

// deep nests nodes to a great depth: of all kinds, or mostly of one.
func (g *gen) deep(n int) *Node {
	kinds := []string{"coll", "cond", "iter", "yield", "imp", "el", "collect", "custom"}
	fav := ""
	switch g.n(3) {
	case 0:
		fav = kinds[g.n(len(kinds))]
	case 1:
		switch g.n(2) {
		case 0:
			return g.deepAttrs(n)
		case 1:
			e := &Node{K: "el", N: "div", C: []*Node{{K: "text", V: []Val{g.deepVal(n)}}}}
			if g.n(2) == 0 {
				e.C = append(e.C, &Node{K: "attr", N: "x-a1", V: []Val{g.deepVal(n)}})
			}
			return e
		}
	}
	cur := g.leaf("text")
	cur.Raw = false
	leafs := 0
	for i := 0; i < n; i++ {
		c := []*Node{cur}
		if g.n(6) == 0 && leafs < 8 {
			leafs++
			l := g.leaf("text")
			l.Raw = false
			if g.n(2) == 0 {
				c = append(c, l)
			} else {
				c = []*Node{l, cur}
			}
		}
		k := kinds[g.n(len(kinds))]
		if fav != "" && g.n(10) > 0 {
			k = fav
		}
		switch k {
		case "coll":
			cur = &Node{K: "coll", C: c}
		case "cond":
			cur = &Node{K: "cond", Cond: &Cond{K: "true", ID: g.nid()}, C: c}
		case "iter", "yield":
			cur = &Node{K: k, Src: &Items{K: "list", L: []Val{g.item(0)}, ID: g.nid()}, C: c}
		case "imp":
			cur = &Node{K: "imp", ID: g.nid(), Ops: []IOp{{K: "start", N: "p"}, {K: "nodes", C: c}, {K: "endall"}}}
		case "collect":
			cur = &Node{K: "collect", ID: g.nid(), C: c}
		case "custom":
			cur = &Node{K: "custom", N: "cu", ID: g.nid(), Typ: g.customTyp(), Mode: g.customMode(), C: c}
		default:
			cur = &Node{K: "el", N: "d" + strconv.Itoa(i), C: append([]*Node{g.attrNode(false, true)}, c...)}
		}
	}
	return g.ownRoot(cur)
}

// deepAttrs is an element with attributes many conditions deep.
func (g *gen) deepAttrs(n int) *Node {
	cur := &Node{K: "battr", N: "x-z" + strconv.Itoa(n)}
	for i := n - 1; i >= 0; i-- {
		if g.n(5) == 0 {
			cur = &Node{K: "coll", C: []*Node{cur}}
			continue
		}
		k := &Cond{K: "true", ID: g.nid()}
		if g.n(20) == 0 {
			k = g.condSpec()
		}
		c := &Node{K: "cond", Cond: k, C: []*Node{cur}}
		if g.n(2) == 0 {
			c.C = []*Node{{K: "battr", N: "x-z" + strconv.Itoa(i)}, cur}
		}
		cur = c
	}
	return &Node{K: "el", N: "div", C: []*Node{cur, g.leaf("text")}}
}

// deepVal is a value made of values made of values.
func (g *gen) deepVal(n int) Val {
	cur := g.fnVal(true)
	kinds := []string{"concat", "newvalue", "text", "frag", "coll"}
	fav := kinds[g.n(len(kinds))]
	for i := 0; i < n; i++ {
		k := fav
		if g.n(4) == 0 {
			k = kinds[g.n(len(kinds))]
		}
		l := []Val{cur}
		if k != "newvalue" && i%7 == 3 {
			l = append(l, g.scalar(true))
		}
		cur = Val{K: k, L: l}
	}
	return cur
}

func (g *gen) strategy(tasks int) simrt.Strategy {
	if tasks == 1 {
		return simrt.Strategy{Kind: "serial"}
	}
	switch g.n(12) {
	case 0:
		return simrt.Strategy{Kind: "serial"}
	case 1, 2, 3:
		return simrt.Strategy{Kind: "uniform", Gap: int64([]int{1, 2, 4, 8, 20, 60, 200}[g.n(7)])}
	case 4, 5, 6:
		return simrt.Strategy{Kind: "pct", D: g.in(1, 6)} // Len is filled in from the expected size
	case 7, 8:
		return simrt.Strategy{Kind: "io", P: []int{5, 20, 50, 90}[g.n(4)]}
	case 9, 10:
		return simrt.Strategy{Kind: "mixed", Gap: int64([]int{10, 40, 200}[g.n(3)]), P: []int{10, 40}[g.n(2)]}
	}
	return simrt.Strategy{Kind: "rr", Gap: int64(g.in(1, 40))}
}
