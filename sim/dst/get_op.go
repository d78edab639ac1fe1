package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/go-andiamo/aitch/context"
	"verifsim/simrt"
)

// Shapes of Cargo for lookups. Which fields a lookup may find is written down here by hand, not derived.

type namedKey string
type namedMap map[string]any

type inner struct {
	City  string
	Zip   int
	hide  string
	Level int
}

type InnerX struct {
	Street string
	Floor  int
	low    string
}

type person struct {
	Name  string
	Age   int
	Admin bool
	Tags  []string
	In    inner
	PIn   *inner
	Any   any
	Score float64
	Err   error
	Str   fmt.Stringer
	secr  string
	num   int
}

type withEmbed struct {
	InnerX
	Title string
	name  string
}

type withPtrEmbed struct {
	*InnerX
	Title string
}

type hiddenEmbed struct {
	inner // unexported type, exported fields are promoted
	Title string
}

type DeepC struct {
	Note  any
	Kind  fmt.Stringer
	Level int
	Err   error
}

type DeepB struct {
	*DeepC
	Level string // in front of the one further in
}

type deepA struct {
	DeepB
	Title string
}

type ifEmbed struct {
	fmt.Stringer
	Title any
	inner any
}

type ambigA struct{ Dup, OnlyA string }
type ambigB struct{ Dup, OnlyB string }
type ambiguous struct {
	ambigA
	ambigB
}

// Types that print alike and are not.
func rowA(s string, i int) (any, map[string]any) {
	type row struct {
		Name string
		Age  int
		secr string
		City string
	}
	r := row{s, i, "secret", s + "c"}
	return r, map[string]any{"Name": r.Name, "Age": r.Age, "City": r.City}
}

func rowB(s string, i int) (any, map[string]any) {
	type row struct {
		Age, n int
		Title  string
		Name   string
	}
	r := row{i, 5, s + "t", s}
	return &r, map[string]any{"Name": r.Name, "Age": r.Age, "Title": r.Title}
}

func rowC(s string, i int) (any, map[string]any) {
	type row struct {
		InnerX
		City int
		name string
	}
	r := row{InnerX{s, i, "l"}, i, "hidden"}
	return r, map[string]any{"InnerX": r.InnerX, "Street": s, "Floor": i, "City": i}
}

func rowD(s string, i int) (any, map[string]any) {
	type row map[string]string
	return row{"Name": s, "k": "k" + s}, map[string]any{"Name": s, "k": "k" + s}
}

type getEntry struct {
	v  any
	ok bool
}

// gcargo makes a cargo of a shape together with what its keys hold.
func gcargo(v Val) (cargo any, entries map[string]any) {
	e := map[string]any{}
	s, i := v.S, int(v.I)
	switch v.K {
	case "", "nil":
		return nil, e
	case "map":
		m := map[string]any{"Name": s, "n": i, "b": i%2 == 0, "nilv": nil, "Tags": []string{s}, "_": s + "_"}
		for k, x := range m {
			e[k] = x
		}
		return m, e
	case "pmap":
		m := map[string]any{"Name": s, "n": i}
		return &m, map[string]any{"Name": s, "n": i}
	case "smap":
		return map[string]string{"Name": s, "k": s + "k"}, map[string]any{"Name": s, "k": s + "k"}
	case "imap":
		return map[string]int{"Name": i, "n": i + 1}, map[string]any{"Name": i, "n": i + 1}
	case "nmap":
		return map[namedKey]any{"Name": s, "n": i}, map[string]any{"Name": s, "n": i}
	case "nnmap":
		return namedMap{"Name": s, "n": i}, map[string]any{"Name": s, "n": i}
	case "nsmap":
		return map[namedKey]string{"Name": s}, map[string]any{"Name": s}
	case "kmap": // not string-keyed
		return map[int]string{1: s}, e
	case "amap": // interface keys are not string keys
		return map[any]any{"Name": s}, e
	case "nilmap":
		return map[string]any(nil), e
	case "struct", "pstruct":
		in := inner{City: s + "c", Zip: i + 1, hide: "h", Level: 3}
		p := person{Name: s, Age: i, Admin: i%2 == 1, Tags: []string{s, "t"}, In: in, Any: nil, Score: float64(i) / 2, secr: "secret", num: 7}
		if i%3 != 0 {
			p.PIn = &in
			p.Any = s + "any"
			p.Err = errSample
			p.Str = stringerVal{s, 0}
		}
		e = map[string]any{"Name": p.Name, "Age": p.Age, "Admin": p.Admin, "Tags": p.Tags, "In": p.In, "PIn": p.PIn, "Score": p.Score}
		if i%3 != 0 {
			e["Any"], e["Err"], e["Str"] = p.Any, p.Err, p.Str
		}
		if v.K == "pstruct" {
			return &p, e
		}
		return p, e
	case "nilpstruct":
		return (*person)(nil), e
	case "embed", "pembed":
		w := withEmbed{InnerX: InnerX{s + "st", i, "low"}, Title: s, name: "n"}
		e = map[string]any{"InnerX": w.InnerX, "Street": s + "st", "Floor": i, "Title": s}
		if v.K == "pembed" {
			return &w, e
		}
		return w, e
	case "ptrembed":
		x := &InnerX{s + "st", i, "low"}
		return withPtrEmbed{InnerX: x, Title: s}, map[string]any{"InnerX": x, "Street": s + "st", "Floor": i, "Title": s}
	case "nilembed": // promoted fields of a nil embedded pointer do not exist
		return &withPtrEmbed{Title: s}, map[string]any{"InnerX": (*InnerX)(nil), "Title": s}
	case "hidembed":
		return hiddenEmbed{inner: inner{City: s, Zip: i, hide: "h", Level: 2}, Title: s},
			map[string]any{"City": s, "Zip": i, "Level": 2, "Title": s}
	case "deep", "pdeep":
		c := &DeepC{Level: i}
		w := deepA{DeepB: DeepB{DeepC: c, Level: s}, Title: s + "t"}
		e = map[string]any{"DeepB": w.DeepB, "DeepC": c, "Level": s, "Title": s + "t"}
		if i%3 != 0 {
			c.Note, c.Kind, c.Err = s+"n", stringerVal{s, 0}, errSample
			e["Note"], e["Kind"], e["Err"] = c.Note, c.Kind, c.Err
			w.DeepB.DeepC = c
		}
		if v.K == "pdeep" {
			return &w, e
		}
		return w, e
	case "ifembed":
		x := stringerVal{s, 0}
		return ifEmbed{x, i, s}, map[string]any{"Stringer": x, "Title": i}
	case "nilifembed":
		return &ifEmbed{Title: s}, map[string]any{"Title": s}
	case "ambig":
		return ambiguous{ambigA{"a", s}, ambigB{"b", s}}, map[string]any{"OnlyA": s, "OnlyB": s}
	case "rowA":
		return rowA(s, i)
	case "rowB":
		return rowB(s, i)
	case "rowC":
		return rowC(s, i)
	case "rowD":
		return rowD(s, i)
	case "scalar":
		return i, e
	case "str":
		return s, e
	case "slice":
		return []string{s}, e
	case "pp":
		p := &person{Name: s}
		return &p, e
	case "func":
		return func() string { return s }, e
	}
	panic("harness: cargo shape " + v.K)
}

var cargoShapes = []string{"nil", "map", "pmap", "smap", "imap", "nmap", "nnmap", "nsmap", "kmap", "amap", "nilmap",
	"struct", "pstruct", "nilpstruct", "embed", "pembed", "ptrembed", "nilembed", "hidembed", "deep", "pdeep", "ifembed", "nilifembed", "ambig", "rowA", "rowB", "rowC", "rowD", "scalar", "str", "slice", "pp", "func"}

var getKeys = []string{"Name", "Age", "Admin", "Tags", "In", "PIn", "Any", "Score", "Err", "Str", "secr", "num", "n", "b", "nilv", "_", "k",
	"InnerX", "Street", "Floor", "Title", "City", "Zip", "Level", "hide", "inner", "low", "name", "OnlyA", "Dup", "Note", "Kind", "DeepB", "DeepC", "Stringer", "missing", "", "x"}

var errSample = &simErr{"sample", 0}

// getters: one instantiation of the generic lookups per type.
type getter struct {
	get  func(*context.Context, string) (any, bool)
	must func(*context.Context, string) any
	is   func(any) bool
	zero any
}

func mkGetter[T any]() getter {
	var zero T
	return getter{
		get:  func(c *context.Context, k string) (any, bool) { v, ok := context.Get[T](c, k); return v, ok },
		must: func(c *context.Context, k string) any { return context.MustGet[T](c, k) },
		is:   func(x any) bool { _, ok := x.(T); return ok },
		zero: zero,
	}
}

var getters = map[string]getter{
	"string":   mkGetter[string](),
	"int":      mkGetter[int](),
	"bool":     mkGetter[bool](),
	"float64":  mkGetter[float64](),
	"any":      mkGetter[any](),
	"strings":  mkGetter[[]string](),
	"inner":    mkGetter[inner](),
	"pinner":   mkGetter[*inner](),
	"innerx":   mkGetter[InnerX](),
	"pinnerx":  mkGetter[*InnerX](),
	"error":    mkGetter[error](),
	"stringer": mkGetter[fmt.Stringer](),
	"map":      mkGetter[map[string]any](),
	"int64":    mkGetter[int64](),
	"namedkey": mkGetter[namedKey](),
}

var getTypes = []string{"string", "string", "string", "int", "int", "bool", "float64", "any", "any", "strings", "inner", "pinner", "innerx", "pinnerx", "error", "stringer", "map", "int64", "namedkey"}

// gdata are values put into Data for lookups.
func gdata(v Val) any {
	switch v.K {
	case "s":
		return v.S
	case "int":
		return int(v.I)
	case "int64":
		return v.I
	case "bool":
		return v.I != 0
	case "f64":
		return v.F
	case "nil":
		return nil
	case "strings":
		return []string{v.S}
	case "inner":
		return inner{City: v.S}
	case "error":
		return errSample
	case "stringer":
		return stringerVal{v.S, 0}
	case "map":
		return map[string]any{"q": v.S}
	case "namedkey":
		return namedKey(v.S)
	}
	panic("harness: lookup data " + v.K)
}

type getRes struct {
	v  any
	ok bool
	// expectation, fixed by the caller at the time of the call
	wv  any
	wok bool
}

type getSlot struct {
	ctx   *context.Context
	data  map[string]any
	cargo map[string]any
}

func (ts *taskState) getCtx(i int) *getSlot {
	if ts.gets == nil {
		ts.gets = map[int]*getSlot{}
	}
	if s, ok := ts.gets[i]; ok {
		return s
	}
	g := ts.w.sc.Gets[i]
	s := &getSlot{}
	c, e := gcargo(g.Cargo)
	s.cargo = e
	var data map[string]any
	if !g.Nil {
		data = map[string]any{}
		for _, kv := range g.Data {
			data[kv.K] = gdata(kv.V)
		}
	}
	s.data = data
	s.ctx = &context.Context{Data: data, Cargo: c}
	if g.Par { // lookups never go beyond the context they are given
		at := s.ctx
		for lvl := 0; lvl < 3; lvl++ {
			pd := map[string]any{}
			for i, k := range getKeys {
				switch (i + lvl + int(g.Cargo.I)) % 4 {
				case 0:
					pd[k] = -1 - lvl
				case 1:
					pd[k] = i%2 == 0
				default:
					pd[k] = "parent's " + k
				}
			}
			p := &context.Context{Data: pd, Cargo: person{Name: "parent", Age: -1, Admin: true, Tags: []string{"parent"}, In: inner{City: "parent"}}}
			at.Parent = p
			at = p
		}
	}
	ts.gets[i] = s
	return s
}

func (ts *taskState) doGet(op *Op) {
	g := op.Get
	gt := getters[g.T]
	r := ts.begin(op)
	res := &getRes{}
	r.get = res
	var ctx *context.Context
	if !g.Nil {
		s := ts.getCtx(g.Ctx)
		ctx = s.ctx
		for _, kv := range op.Set {
			if s.data != nil {
				if kv.V.K == "del" {
					delete(s.data, kv.K)
				} else {
					s.data[kv.K] = gdata(kv.V)
				}
			}
		}
		if op.Cargo != nil {
			c, e := gcargo(*op.Cargo)
			s.ctx.Cargo, s.cargo = c, e
		}
		// what the lookup has to give, now
		if x, ok := s.data[g.Key]; ok && gt.is(x) {
			res.wv, res.wok = x, true
		} else if x, ok := s.cargo[g.Key]; ok && gt.is(x) {
			res.wv, res.wok = x, true
		}
	}
	ts.guarded(r, func() {
		simrt.Point()
		if g.Must {
			res.v = gt.must(ctx, g.Key)
			res.ok = true
		} else {
			res.v, res.ok = gt.get(ctx, g.Key)
		}
	})
}

func checkGet(r *opRun) *violation {
	g := r.op.Get
	res := r.get
	desc := fmt.Sprintf("Get[%s](%q)", g.T, g.Key)
	if g.Must {
		desc = "Must" + desc
	}
	if r.paniced {
		if g.Must && !res.wok {
			if !strings.Contains(fmt.Sprint(r.panicV), g.Key) {
				return viol("lookup", "%s: panic value %q does not name the key", desc, fmt.Sprint(r.panicV))
			}
			return nil
		}
		return viol("panic", "%s panicked: %v", desc, r.panicV)
	}
	if g.Must && !res.wok {
		return viol("lookup", "%s returned %v, should have panicked", desc, res.v)
	}
	wv := res.wv
	if !res.wok {
		wv = getters[g.T].zero
	}
	if res.ok != res.wok {
		return viol("lookup", "%s = %v, %v; should be %v, %v", desc, res.v, res.ok, wv, res.wok)
	}
	if !sameVal(res.v, wv) {
		return viol("lookup", "%s = %v, should be %v", desc, res.v, wv)
	}
	return nil
}

func sameVal(a, b any) bool { return reflect.DeepEqual(a, b) }
