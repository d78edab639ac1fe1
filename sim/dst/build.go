package main

import (
	"fmt"
	"maps"
	"reflect"
	"strconv"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
	"verifsim/simrt"
)

// builder turns descriptions into the library's nodes, through its public API only.
type builder struct {
	sc    *Scenario
	comps []aitch.Node
	vals  []any
	args  [][]any
	argsF [][]any // full backing arrays
	argsC [][]any // copies taken when they were made
	kids  [][]aitch.Node
	kidsA [][]any // the same as arguments of element constructors
	kidsF [][]aitch.Node
	kidsG [][]any
	kidsC [][]aitch.Node // copies
	hmaps []map[string]any
	hmapC []map[string]any // copies
	tmpA  [][]any          // argument slices that belong to the constructor call in progress
	tmpN  [][]aitch.Node
	tmpM  []map[string]any
	lent  []lentBytes
	owned *ownedList // values of the caller's that are read during renders
	trees []aitch.Node
	tpls  []*aitch.Template

	nodeMap aitch.NodeMap // given to every template
}

// inherit takes over what another builder has built.
func (b *builder) inherit(o *builder) {
	n := *o
	n.sc, n.owned = b.sc, b.owned
	n.lent, n.tmpA, n.tmpN, n.tmpM = nil, nil, nil, nil
	*b = n
}

// lentBytes remembers bytes given to the library, with marked spare capacity behind them.
type lentBytes struct {
	buf  []byte // full length
	copy string
	what string
}

const spare = 12

func lend(s string) ([]byte, []byte) {
	buf := make([]byte, len(s)+spare)
	copy(buf, s)
	for i := len(s); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	return buf[:len(s)], buf
}

func (l lentBytes) bad() bool { return string(l.buf) != l.copy }

func (b *builder) lendStatic(s, what string) []byte {
	v, full := lend(s)
	b.lent = append(b.lent, lentBytes{full, string(full), what})
	return v
}

type sliceSentinel struct{ N int }

type stringerVal struct {
	s  string
	id int // of render data: its calls are recorded
}

func (s stringerVal) String() string {
	if s.id > 0 {
		called(s.id)
	}
	return s.s
}

// called records the invocation of a callback that is part of render data.
func called(id int) {
	r := curRun()
	if _, f := r.enter(id, nil, true); f != nil && f.K == "panic" {
		r.doPanic(f)
	}
}

type strKey string

// types of the user's own; what they are made of is not what they are
type namedData map[string]any
type namedList []any

// listTypes are types of items by the kind of the items.
var listTypes = map[string]reflect.Type{
	"f64":       reflect.TypeFor[float64](),
	"bool":      reflect.TypeFor[bool](),
	"int64":     reflect.TypeFor[int64](),
	"b":         reflect.TypeFor[[]byte](),
	"list":      reflect.TypeFor[[]any](),
	"stringer":  reflect.TypeFor[stringerVal](),
	"istringer": reflect.TypeFor[fmt.Stringer](),
	"smap":      reflect.TypeFor[map[string]string](),
	"nmap":      reflect.TypeFor[namedData](),
	"anyfn":     reflect.TypeFor[func() any](),
	"map":       reflect.TypeFor[any](),
}

// goVal makes the Go value of a description. inData says it is render data (not a construction value).
func (b *builder) goVal(v Val) any {
	switch v.K {
	case "s":
		return v.S
	case "b":
		return b.lendStatic(v.S, "[]byte value")
	case "bool":
		return v.I != 0
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int16":
		return int16(v.I)
	case "int32":
		return int32(v.I)
	case "int64":
		return v.I
	case "uint":
		return uint(v.I)
	case "uint8":
		return uint8(v.I)
	case "uint16":
		return uint16(v.I)
	case "uint32":
		return uint32(v.I)
	case "uint64":
		return uint64(v.I)
	case "f32":
		return float32(v.F)
	case "f64":
		return v.F
	case "nil":
		return nil
	case "stringer":
		return stringerVal{v.S, v.ID}
	case "anyfn":
		s, id, x := v.S, v.ID, v.X
		return func() any {
			if id > 0 {
				called(id)
			}
			switch x {
			case "nil":
				return nil
			case "str":
				return stringerVal{s, 0}
			case "fn":
				return func() any { return []byte(s) }
			}
			return s
		}
	case "smap":
		r := make(map[string]string, len(v.M))
		for _, kv := range v.M {
			r[kv.K] = kv.V.S
		}
		return r
	case "nbsp":
		mk := func() []byte {
			if v.I == 0 {
				return aitch.Nbsp()
			}
			if v.I < 0 {
				return aitch.Nbsps(int(v.I) + 1)
			}
			return aitch.Nbsps(int(v.I))
		}
		p, other := mk(), mk()
		for i := range other { // the caller's own bytes
			other[i] = '!'
		}
		_ = append(other, "OVERWRITTEN"...)
		b.lent = append(b.lent, lentBytes{p, string(p), "bytes of Nbsp"})
		return p
	case "nmap":
		return namedData(b.goMap(v.M))
	case "nlist":
		r := make(namedList, len(v.L), len(v.L)+1)
		for i, x := range v.L {
			r[i] = b.goVal(x)
		}
		r[:len(r)+1][len(r)] = sliceSentinel{3}
		return r
	case "map":
		if v.S == "nil" {
			return map[string]any(nil)
		}
		return b.goMap(v.M)
	case "list":
		n := len(v.L)
		r := make([]any, n, n+2)
		for i, x := range v.L {
			r[i] = b.goVal(x)
		}
		r[:n+2][n], r[:n+2][n+1] = sliceSentinel{1}, sliceSentinel{2}
		return r
	case "strings":
		n := len(v.L)
		r := make([]string, n, n+1)
		for i, x := range v.L {
			r[i] = x.S
		}
		r[:n+1][n] = "SPARE"
		return r
	case "ints":
		n := len(v.L)
		r := make([]int, n, n+1)
		for i, x := range v.L {
			r[i] = int(x.I)
		}
		r[:n+1][n] = -7777
		return r
	case "maps":
		r := make([]map[string]any, len(v.L), len(v.L)+1)
		for i, x := range v.L {
			r[i], _ = b.goVal(x).(map[string]any)
		}
		return r
	case "tlist":
		r := reflect.MakeSlice(reflect.SliceOf(listTypes[v.X]), len(v.L), len(v.L)+1)
		for i, x := range v.L {
			r.Index(i).Set(reflect.ValueOf(b.goVal(x)))
		}
		return r.Interface()
	case "plist": // not iterable: a pointer
		l := []any{"x", "y"}
		return &l
	case "arr": // not iterable: an array
		return [2]string{"x", "y"}
	// construction values
	case "key":
		return aitch.DynamicValueKey(v.S)
	case "dot":
		return aitch.DynamicValueKey(".")
	case "fn":
		f := b.valueFunc(v)
		switch v.R % 3 {
		case 1:
			return aitch.DynamicValueFunc(f)
		case 2:
			return html.DynamicValueFunc(f)
		}
		return f
	case "concat":
		return aitch.NewConcatValue(b.goVals(v.L)...)
	case "newvalue":
		if len(v.L) != 1 {
			return aitch.NewValue(aitch.Text(b.goVals(v.L)...))
		}
		return aitch.NewValue(b.goVal(v.L[0]))
	case "text":
		return aitch.Text(b.goVals(v.L)...)
	case "frag":
		return aitch.Fragment(b.goVals(v.L)...)
	case "comment":
		return aitch.Comment(b.goVals(v.L)...)
	case "coll":
		ns := make([]aitch.Node, len(v.L))
		for i, x := range v.L {
			ns[i] = aitch.Text(b.goVal(x))
		}
		return aitch.Collection(ns...)
	case "unit":
		if v.ID > 0 {
			return regUnits[v.R%len(regUnits)].Mk(b.args[v.ID-1]...)
		}
		return regUnits[v.R%len(regUnits)].Mk(b.goVals(v.L)...)
	case "hxvar":
		return htmx.Var(v.S, b.goVal(v.L[0]))
	case "shared":
		return b.vals[v.R]
	}
	panic("harness: value kind " + v.K)
}

// poke changes something inside a value, as its owner may between renders.
func (b *builder) poke(ac *actx, p Poke) {
	v := ac.cargo
	if p.Key != "." {
		var ok bool
		if v, ok = ac.ctx.Data[p.Key]; !ok {
			return
		}
	}
	into := func(x any) {
		if m, ok := x.(map[string]any); ok && m != nil {
			m[p.Sub] = b.goVal(p.V)
		}
	}
	if p.I < 0 {
		if p.Sub != "" {
			into(v)
		}
	} else {
		switch x := v.(type) {
		case []any:
			if p.I < len(x) && p.Sub == "" {
				x[p.I] = b.goVal(p.V)
			} else if p.I < len(x) {
				into(x[p.I])
			}
		case []string:
			if p.I < len(x) {
				x[p.I] = p.V.S
			}
		case []int:
			if p.I < len(x) {
				x[p.I] = int(p.V.I)
			}
		case []map[string]any:
			if p.I < len(x) && p.Sub != "" {
				into(x[p.I])
			}
		}
	}
	b.owned.again()
}

func (b *builder) goMap(m []KV) map[string]any {
	r := make(map[string]any, len(m))
	for _, kv := range m {
		r[kv.K] = b.goVal(kv.V)
	}
	return r
}

func (b *builder) goVals(vs []Val) []any {
	r := make([]any, len(vs))
	for i, v := range vs {
		r[i] = b.goVal(v)
	}
	return b.mine(r)
}

// mine notes a slice that only the constructor call in progress is given.
func (b *builder) mine(s []any) []any {
	if b.sc.Churn {
		b.tmpA = append(b.tmpA, s)
	}
	return s
}

type poison struct{}

func (poison) String() string { return "OVERWRITTEN" }

// churn overwrites what the constructor call that has returned was given.
func (b *builder) churn(a, n, m int) {
	for _, s := range b.tmpA[a:] {
		s = s[:cap(s)]
		for i := range s {
			s[i] = poison{}
		}
	}
	if len(b.tmpN) > n {
		p := aitch.Text("OVERWRITTEN")
		for _, s := range b.tmpN[n:] {
			s = s[:cap(s)]
			for i := range s {
				s[i] = p
			}
		}
	}
	for _, x := range b.tmpM[m:] {
		for k := range x {
			x[k] = "OVERWRITTEN"
		}
		x["OVER"] = "WRITTEN"
	}
	b.tmpA, b.tmpN, b.tmpM = b.tmpA[:a], b.tmpN[:n], b.tmpM[:m]
}

func dataStr(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case int:
		return strconv.Itoa(x)
	case bool:
		return strconv.FormatBool(x)
	case nil:
		return "nil"
	}
	return "?"
}

// valueFunc makes a dynamic value function; what it returns depends on the render it is called in.
func (b *builder) valueFunc(v Val) func(*context.Context) []byte {
	id, mode, x := v.ID, v.S, v.X
	return func(ctx *context.Context) []byte {
		r := curRun()
		n, f := r.enter(id, ctx, true)
		if f != nil {
			r.raise(f, ctx)
		}
		var s string
		switch mode {
		case "cargo":
			s = "c" + strconv.Itoa(id) + "(" + dataStr(ctx.Cargo) + ")"
		case "data":
			s = "d" + strconv.Itoa(id) + "(" + dataStr(ctx.Data[x]) + ")"
		case "get":
			g, ok := context.Get[string](ctx, x)
			s = "g" + strconv.Itoa(id) + "(" + g + strconv.FormatBool(ok) + ")"
		case "empty":
			return nil
		case "const":
			s = x
		default:
			s = "f" + strconv.Itoa(id) + "." + r.tag + "." + strconv.Itoa(n) + x
		}
		if n%3 != 0 {
			return []byte(s)
		}
		out, full := lend(s)
		r.lent = append(r.lent, lentBytes{full, string(full), "bytes returned by a value function"})
		return out
	}
}

func (b *builder) condFunc(c *Cond) aitch.ConditionalFunc {
	id, kind, key := c.ID, c.K, c.S
	return func(ctx *context.Context) bool {
		r := curRun()
		if f := r.enterCond(id); f != nil {
			r.raise(f, ctx)
		}
		switch kind {
		case "true":
			return true
		case "false":
			return false
		case "cargo":
			return dataStr(ctx.Cargo) == key
		case "get":
			v, _ := context.Get[bool](ctx, key)
			return v
		default:
			v, ok := ctx.Data[key].(bool)
			return ok && v
		}
	}
}

func (b *builder) nodes(ns []*Node) []aitch.Node {
	r := make([]aitch.Node, 0, len(ns))
	for _, n := range ns {
		r = append(r, b.build(n))
	}
	return r
}

// spread is the slice of nodes a constructor is given.
func (b *builder) spread(n *Node) []aitch.Node {
	if n.Kargs > 0 {
		if !b.sc.Churn {
			return b.kids[n.Kargs-1]
		}
		k := append([]aitch.Node(nil), b.kids[n.Kargs-1]...)
		b.tmpN = append(b.tmpN, k)
		return k
	}
	r := b.nodes(n.C)
	if b.sc.Churn {
		b.tmpN = append(b.tmpN, r)
	}
	return r
}

// inside is the same for constructors of elements.
func (b *builder) inside(n *Node) []any {
	if n.Kargs > 0 {
		if !b.sc.Churn {
			return b.kidsA[n.Kargs-1]
		}
		return b.mine(append([]any(nil), b.kidsA[n.Kargs-1]...))
	}
	return b.mine(b.contents(n.C))
}

// contents builds the arguments of an element constructor.
func (b *builder) contents(ns []*Node) []any {
	r := make([]any, 0, len(ns))
	for _, n := range ns {
		switch {
		case n.K == "nilnode":
			r = append(r, nil)
		case n.Raw && n.K == "text" && len(n.V) == 1:
			r = append(r, b.goVal(n.V[0]))
		default:
			r = append(r, b.build(n))
		}
	}
	return r
}

func (b *builder) leafArgs(n *Node) []any {
	if n.Args > 0 {
		if b.sc.Churn {
			return b.mine(append([]any(nil), b.args[n.Args-1]...))
		}
		return b.args[n.Args-1]
	}
	return b.goVals(n.V)
}

func (b *builder) build(n *Node) aitch.Node {
	if !b.sc.Churn {
		return b.make(n)
	}
	ta, tn, tm := len(b.tmpA), len(b.tmpN), len(b.tmpM)
	r := b.make(n)
	b.churn(ta, tn, tm)
	return r
}

func (b *builder) make(n *Node) aitch.Node {
	switch n.K {
	case "nilnode":
		return nil
	case "ref":
		return b.comps[n.Ref]
	case "el":
		switch n.Via {
		case "name":
			return aitch.Element(n.N, b.inside(n)...)
		case "reg":
			return elemByFunc[n.Fn].Mk(b.inside(n)...)
		}
		return aitch.NewElement(b.lendStatic(n.N, "element name"), b.inside(n)...)
	case "void":
		switch n.Via {
		case "name":
			return aitch.Element(n.N, b.inside(n)...)
		case "voidname":
			return aitch.VoidElement(n.N, b.inside(n)...)
		case "reg":
			return elemByFunc[n.Fn].Mk(b.inside(n)...)
		}
		return aitch.NewVoidElement(b.lendStatic(n.N, "element name"), b.inside(n)...)
	case "attr":
		switch n.Via {
		case "name":
			return aitch.Attribute(n.N, b.leafArgs(n)...)
		case "reg":
			return attrByFunc[n.Fn].Mk(b.leafArgs(n)...)
		case "data":
			return html.Data(n.N[len("data-"):], b.leafArgs(n)...)
		case "aria":
			return html.Aria(n.N[len("aria-"):], b.leafArgs(n)...)
		case "hxon":
			return htmx.On(n.N[len("hx-on:"):], b.leafArgs(n)...)
		case "hxheaders", "hxheadersjs":
			var ms []htmx.HeadersMap
			for _, v := range n.V {
				if v.K == "hmap" {
					ms = append(ms, htmx.HeadersMap(b.hmaps[v.R]))
					continue
				}
				hm := b.goMap(v.M)
				if b.sc.Churn {
					b.tmpM = append(b.tmpM, hm)
				}
				ms = append(ms, htmx.HeadersMap(hm))
			}
			if n.Via == "hxheadersjs" {
				return htmx.HeadersJS(ms...)
			}
			as := make([]any, len(ms))
			for i := range ms {
				as[i] = ms[i]
			}
			return htmx.Headers(as...)
		}
		return aitch.NewAttribute(b.lendStatic(n.N, "attribute name"), b.leafArgs(n)...)
	case "battr":
		switch n.Via {
		case "name":
			return aitch.BooleanAttribute(n.N)
		case "reg":
			return attrByFunc[n.Fn].Mk()
		}
		return aitch.NewBooleanAttribute(b.lendStatic(n.N, "attribute name"))
	case "dattr":
		switch n.Via {
		case "name":
			return aitch.DelimitedAttribute(n.N, n.D, b.leafArgs(n)...)
		case "reg":
			return attrByFunc[n.Fn].Mk(b.leafArgs(n)...)
		case "prop":
			return propByFunc[n.Fn].Mk(b.leafArgs(n)...)
		}
		return aitch.NewDelimitedAttribute(b.lendStatic(n.N, "attribute name"), b.lendStatic(n.D, "delimiter"), b.leafArgs(n)...)
	case "cattr":
		return &customNode{b: b, n: n, typ: aitch.AttributeNode}
	case "text":
		switch n.Via {
		case "reg", "html":
			return html.Text(b.leafArgs(n)...)
		case "svg":
			return svg.Text(b.leafArgs(n)...)
		}
		return aitch.Text(b.leafArgs(n)...)
	case "comment":
		switch n.Via {
		case "html":
			return html.Comment(b.leafArgs(n)...)
		case "svg":
			return svg.Comment(b.leafArgs(n)...)
		}
		return aitch.Comment(b.leafArgs(n)...)
	case "pi":
		if n.Via != "" {
			return html.PI(n.N, b.leafArgs(n)...)
		}
		return aitch.PI(n.N, b.leafArgs(n)...)
	case "doctype":
		return aitch.DocType()
	case "frag":
		return aitch.Fragment(b.leafArgs(n)...)
	case "coll":
		return aitch.Collection(b.spread(n)...)
	case "cond":
		ns := b.spread(n)
		switch n.Cond.K {
		case "when":
			return aitch.When(aitch.DynamicValueKey(n.Cond.S), ns...)
		case "nil":
			return aitch.Conditional(nil, ns...)
		}
		return aitch.Conditional(b.condFunc(n.Cond), ns...)
	case "iterkey":
		return aitch.IterateKey(n.Src.S, b.spread(n)...)
	case "iter":
		return aitch.Iterate(b.iterFunc(n.Src), b.spread(n)...)
	case "yield":
		return aitch.IterateYield(b.yieldFunc(n.Src), b.spread(n)...)
	case "nilfn":
		if n.Mode == "imp" {
			return aitch.Imperative(nil)
		}
		return aitch.ContentCollect(nil)
	case "imp":
		return aitch.Imperative(b.impFunc(n))
	case "collect":
		return aitch.ContentCollect(b.collectFunc(n))
	case "boom":
		return &boomNode{n}
	case "custom":
		kids := b.keep(n)
		return &customNode{b: b, n: n, typ: aitch.NodeType(n.Typ), kids: kids}
	case "doc":
		var lang any
		if len(n.V) > 0 {
			lang = b.goVal(n.V[0])
		}
		return html.Document(lang, b.mine(b.contents(n.C2)), b.inside(n))
	}
	panic("harness: node kind " + n.K)
}

// keep is a slice of nodes that a callback holds on to.
func (b *builder) keep(n *Node) []aitch.Node {
	if n.Kargs > 0 {
		return b.kids[n.Kargs-1]
	}
	return b.nodes(n.C)
}

func (b *builder) items(src *Items, ctx *context.Context, list []any) []any {
	switch src.K {
	case "data":
		l, _ := ctx.Data[src.S].([]any)
		return l
	case "cargo":
		l, _ := ctx.Cargo.([]any)
		return l
	}
	return list
}

// itemList makes the items a source function always returns.
func (b *builder) itemList(src *Items) []any {
	if src.K != "list" {
		return nil
	}
	l := b.goVal(Val{K: "list", L: src.L}).([]any)
	b.owned.add(l, "items")
	return l
}

func (b *builder) iterFunc(src *Items) func(*context.Context) []any {
	list := b.itemList(src)
	id := src.ID
	return func(ctx *context.Context) []any {
		r := curRun()
		if _, f := r.enter(id, ctx, false); f != nil {
			r.raise(f, ctx)
		}
		items := b.items(src, ctx, list)
		if src.New != nil {
			b.newData(r, ctx, src.New.K, src.New.V)
		}
		return items
	}
}

// newData replaces the Data of a context by a copy that differs in one entry.
func (b *builder) newData(r *opRun, ctx *context.Context, k string, v Val) {
	if ctx.Data == nil {
		return
	}
	d := maps.Clone(ctx.Data)
	d[k] = b.goVal(v)
	ctx.Data = d
	r.ts.b.owned.add(d, "Data")
	if r.ac != nil && r.ac.ctx == ctx {
		r.ac.data = d
	}
}

func (b *builder) yieldFunc(src *Items) func(*context.Context, func(any)) {
	list := b.itemList(src)
	id := src.ID
	return func(ctx *context.Context, yield func(any)) {
		r := curRun()
		_, f := r.enter(id, ctx, false)
		at := -1
		if f != nil {
			at = f.At
		}
		items := b.items(src, ctx, list)
		view := viewOf(ctx, r)
		for i, it := range items {
			if i == at {
				r.raise(f, ctx)
				f = nil
			}
			if src.New != nil && i == src.NewAt {
				b.newData(r, ctx, src.New.K, src.New.V)
				view = viewOf(ctx, r)
			}
			yield(it)
			simrt.Point()
			r.back(id)
			if v := viewOf(ctx, r); v != view {
				r.note("ctx", fmt.Sprintf("the enclosing context changed while item %d was rendered: %s, was %s", i, v, view))
			}
		}
		if f != nil && at >= len(items) {
			r.raise(f, ctx)
		}
	}
}

func (b *builder) collectFunc(n *Node) func(*context.Context) []aitch.Node {
	id := n.ID
	var kids []aitch.Node
	fresh := n.Mode == "fresh"
	if !fresh {
		kids = b.keep(n)
	}
	return func(ctx *context.Context) []aitch.Node {
		r := curRun()
		if _, f := r.enter(id, ctx, false); f != nil {
			r.raise(f, ctx)
		}
		if fresh {
			nb := *b // nodes made for this render alone; lent bytes are not tracked for them
			nb.lent, nb.tmpA, nb.tmpN, nb.tmpM = nil, nil, nil, nil
			nb.owned = &ownedList{}
			return nb.keep(n)
		}
		return kids
	}
}

type impStep struct {
	op   *IOp
	kids []aitch.Node
	name []byte
	raw  []byte
}

// writes says whether a step of an imperative function produces output through the library.
func writes(op *IOp) bool {
	switch op.K {
	case "start", "end", "endall", "str", "raw", "nodes", "ctxw":
		return true
	}
	return false
}

func (b *builder) impFunc(n *Node) func(aitch.ImperativeContext) error {
	id := n.ID
	steps := make([]impStep, len(n.Ops))
	for i := range n.Ops {
		op := &n.Ops[i]
		s := impStep{op: op}
		if op.K == "start" || op.K == "nodes" || op.K == "try" {
			s.kids = b.nodes(op.C)
		}
		if op.K == "start" {
			s.name = b.lendStatic(op.N, "imperative element name")
		}
		if op.K == "raw" {
			s.raw = b.lendStatic(op.N, "imperative raw bytes")
		}
		steps[i] = s
	}
	return func(ic aitch.ImperativeContext) error {
		r := curRun()
		ctx := ic.Context()
		_, f := r.enter(id, ctx, false)
		for i := range steps {
			if f != nil && f.At == i {
				if err := r.raiseRet(f, ctx); err != nil {
					return err
				}
				f = nil
			}
			s := &steps[i]
			switch s.op.K {
			case "start":
				ic.Start(s.name, s.op.Void, s.kids...)
			case "end":
				ic.End()
			case "endall":
				ic.EndAll()
			case "str":
				ic.WriteString(s.op.N)
			case "raw":
				ic.WriteRaw(s.raw)
			case "cargo":
				ic.WriteString(dataStr(ctx.Cargo))
			case "data":
				ic.WriteString(dataStr(ctx.Data[s.op.N]))
			case "tag":
				ic.WriteString(r.tag)
			case "nodes":
				ic.WriteNodes(s.kids...)
			case "try":
				r.try(func() { ic.WriteNodes(s.kids...) })
			case "setdata":
				if ctx.Data != nil {
					r.ts.b.owned.set(ctx.Data, s.op.N, b.goVal(*s.op.V))
				}
			case "newdata": // the callback gives the context other data
				b.newData(r, ctx, s.op.N, *s.op.V)
			case "deldata":
				r.ts.b.owned.del(ctx.Data, s.op.N)
			case "nested":
				r.ts.nested(s.op.Tree, s.op.Env)
			case "ctxw":
				ctx.Write([]byte(s.op.N))
			case "direct":
				if ctx.Error == nil {
					if _, err := ctx.Writer.Write([]byte(s.op.N)); err != nil {
						return err
					}
				}
			case "point":
				simrt.Point()
			}
			if writes(s.op) {
				r.back(id)
			}
		}
		if f != nil && f.At >= len(steps) {
			return r.raiseRet(f, ctx)
		}
		if n.Mode == "wrap" && ctx.Error != nil { // says where it failed
			return fmt.Errorf("in the imperative function: %w", ctx.Error)
		}
		return nil
	}
}

// customNode is a node type of the user's own.
type customNode struct {
	b    *builder
	n    *Node
	typ  aitch.NodeType
	kids []aitch.Node
}

// boomNode is a node of the user's that panics, if somebody is there to recover.
type boomNode struct{ n *Node }

type boom struct{ id int }

func (c *boomNode) Type() aitch.NodeType { return aitch.FragmentNode }
func (c *boomNode) Name() string         { return "boom" }

func (c *boomNode) Render(ctx *context.Context) error {
	r := curRun()
	if _, f := r.enter(c.n.ID, ctx, false); f != nil {
		if err := r.raiseRet(f, ctx); err != nil {
			return err
		}
	}
	if r.tries > 0 && ctx.Error == nil {
		r.ts.fired["panic recovered by a callback"]++
		panic(boom{c.n.ID})
	}
	return ctx.Error
}

// try is a callback that survives what it renders.
func (r *opRun) try(f func()) {
	n := r.tries
	r.tries = n + 1
	defer func() {
		r.tries = n
		if v := recover(); v != nil {
			if _, ok := v.(boom); !ok {
				panic(v)
			}
		}
	}()
	f()
}

func (c *customNode) Type() aitch.NodeType { return c.typ }
func (c *customNode) Name() string         { return c.n.N }

func (c *customNode) Render(ctx *context.Context) error {
	r := curRun()
	_, f := r.enter(c.n.ID, ctx, false)
	if c.n.K == "cattr" {
		ctx.Write([]byte(" " + c.n.N + `="` + r.tag))
		if f != nil {
			if err := r.raiseRet(f, ctx); err != nil {
				return err
			}
		}
		ctx.Write([]byte(`"`))
		return ctx.Error
	}
	if c.n.Mode == "direct" {
		// writes past the context, and reports what the writer reported without recording it
		if ctx.Error != nil {
			return ctx.Error
		}
		if _, err := ctx.Writer.Write([]byte("[" + c.n.N + ":" + r.tag)); err != nil {
			return err
		}
	} else {
		ctx.Write([]byte("[" + c.n.N + ":" + r.tag))
	}
	for i, k := range c.kids {
		if f != nil && f.At == i {
			if err := r.raiseRet(f, ctx); err != nil {
				return err
			}
			f = nil
		}
		if err := k.Render(ctx); err != nil {
			if c.n.Mode == "wrap" && ctx.Error != nil {
				return fmt.Errorf("in the custom node: %w", ctx.Error)
			}
			return err
		}
	}
	if f != nil {
		if err := r.raiseRet(f, ctx); err != nil {
			return err
		}
	}
	ctx.Write([]byte("]"))
	return ctx.Error
}

// Shared argument slices, with spare capacity holding sentinels.
func (b *builder) makeArgs() {
	for i, vs := range b.sc.Args {
		slack := 0
		if i < len(b.sc.Slack) {
			slack = b.sc.Slack[i]
		}
		full := make([]any, 0, len(vs)+slack)
		full = append(full, b.goVals(vs)...)
		for k := 0; k < slack; k++ {
			full = append(full, sliceSentinel{i*100 + k})
		}
		b.argsF = append(b.argsF, full)
		b.argsC = append(b.argsC, append([]any(nil), full...))
		b.args = append(b.args, full[:len(vs)])
	}
}

// makeMaps makes the shared header maps.
func (b *builder) makeMaps() {
	for _, m := range b.sc.HMaps {
		live, cp := b.goMap(m), map[string]any{}
		for k, v := range live {
			cp[k] = v
		}
		b.hmaps, b.hmapC = append(b.hmaps, live), append(b.hmapC, cp)
	}
}

// makeKids makes the shared slices of nodes, with spare capacity holding sentinels.
func (b *builder) makeKids() {
	for _, ns := range b.sc.Kids {
		l := b.nodes(ns)
		full := append(make([]aitch.Node, 0, len(l)+3), l...)
		for k := 0; k < len(l)%4; k++ {
			full = append(full, aitch.Text("SPARE"))
		}
		fullA := make([]any, 0, len(full))
		for _, n := range full {
			if n == nil {
				fullA = append(fullA, nil)
			} else {
				fullA = append(fullA, n)
			}
		}
		b.kidsF, b.kidsG = append(b.kidsF, full), append(b.kidsG, fullA)
		b.kidsC = append(b.kidsC, append([]aitch.Node(nil), full...))
		b.kids, b.kidsA = append(b.kids, full[:len(l)]), append(b.kidsA, fullA[:len(l)])
	}
}

func sameAny(a, b any) (same bool) {
	defer func() {
		if recover() != nil {
			same = true // not comparable (functions, slices): content is checked elsewhere
		}
	}()
	return a == b
}

// mutated reports caller-owned memory the library has changed.
func (b *builder) mutated() string {
	for i := range b.argsF {
		for k := range b.argsF[i] {
			x, y := b.argsF[i][k], b.argsC[i][k]
			if fmt.Sprintf("%T", x) != fmt.Sprintf("%T", y) || !sameAny(x, y) {
				return fmt.Sprintf("argument slice %d, index %d (length %d): now %T, was %T", i, k, len(b.args[i]), x, y)
			}
		}
	}
	for i, c := range b.kidsC {
		for k := range c {
			if !sameAny(b.kidsF[i][k], c[k]) || !sameAny(b.kidsG[i][k], c[k]) {
				return fmt.Sprintf("slice of nodes %d, index %d (length %d): is no longer the node it was", i, k, len(b.kids[i]))
			}
		}
	}
	for i, c := range b.hmapC {
		live := b.hmaps[i]
		for k, x := range c {
			if y, ok := live[k]; !ok || fmt.Sprintf("%T", x) != fmt.Sprintf("%T", y) || !sameAny(x, y) {
				return fmt.Sprintf("header map %d, key %q: now %T, was %T", i, k, y, x)
			}
		}
		if len(live) != len(c) {
			return fmt.Sprintf("header map %d: %d entries, had %d", i, len(live), len(c))
		}
	}
	if b.nodeMapChanged() {
		return "the node map of a template is no longer what it was"
	}
	for _, l := range b.lent {
		if l.bad() {
			return fmt.Sprintf("%s: now %q, was %q", l.what, l.buf, l.copy)
		}
	}
	return ""
}
