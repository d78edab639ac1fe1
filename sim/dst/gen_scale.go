package main

import (
	"strconv"
	"strings"
)

// Scenarios of one size and of double that size, in one dimension, one after the other, alone and without
// faults: twice the input must not take much more than twice the work.

func repeat(n int, f func(i int) *Node) []*Node {
	l := make([]*Node, n)
	for i := range l {
		l[i] = f(i)
	}
	return l
}

func text(s string) *Node { return &Node{K: "text", V: []Val{{K: "s", S: s}}} }

// chain nests n nodes made by f.
func chain(n int, f func(i int, inner []*Node) *Node) *Node {
	in := []*Node{text("x")}
	for i := 0; i < n; i++ {
		in = []*Node{f(i, in)}
	}
	return in[0]
}

const scaleKinds = 24

func (g *gen) scale(kind, n int) (*Node, []KV) {
	data := []KV{{"k0", Val{K: "s", S: "a&b"}}, {"b0", Val{K: "bool", I: 1}}, {"l0", Val{K: "list", L: []Val{{K: "int", I: 1}}}}}
	num := strconv.Itoa
	vals := func(n int) []Val {
		l := make([]Val, n)
		for i := range l {
			switch i % 3 {
			case 0:
				l[i] = Val{K: "s", S: "v"}
			case 1:
				l[i] = Val{K: "key", S: "k0"}
			default:
				l[i] = Val{K: "int", I: int64(i)}
			}
		}
		return l
	}
	attrs := func(n int) []*Node {
		return repeat(n, func(i int) *Node {
			if i%5 == 4 {
				return &Node{K: "battr", N: "x-f" + num(i)}
			}
			return &Node{K: "attr", N: "x-p" + num(i), V: []Val{{K: "s", S: "v"}}}
		})
	}
	classes := func(n int) []*Node {
		return repeat(n, func(i int) *Node {
			return &Node{K: "dattr", N: "class", D: " ", Via: "reg", Fn: "html.Class", V: []Val{{K: "s", S: "c" + num(i)}}}
		})
	}
	el := func(c []*Node) *Node { return &Node{K: "el", N: "div", C: c} }
	when := func(i int, c []*Node) *Node {
		return &Node{K: "cond", Cond: &Cond{K: "when", S: []string{"b0", "!b0", "k0", "nokey"}[i%4]}, C: c}
	}
	items := func(n int) []Val {
		l := make([]Val, n)
		for i := range l {
			if i%3 == 0 {
				l[i] = Val{K: "map", M: []KV{{"k0", Val{K: "s", S: "i"}}}}
			} else {
				l[i] = Val{K: "int", I: int64(i)}
			}
		}
		return l
	}
	dot := []*Node{{K: "text", V: []Val{{K: "dot"}, {K: "key", S: "k0"}}}}
	switch kind {
	case 0:
		return el(attrs(n)), data
	case 1:
		return el(classes(n)), data
	case 2:
		return el(repeat(n, func(i int) *Node { return when(i, attrs(1)[:1]) })), data
	case 3:
		return el(repeat(n, func(i int) *Node {
			return when(i, []*Node{{K: "attr", N: "x-p" + num(i), V: []Val{{K: "s", S: "v"}}}})
		})), data
	case 4:
		return el(repeat(n, func(i int) *Node { return when(i, classes(1)) })), data
	case 5:
		return el([]*Node{when(0, attrs(n))}), data
	case 6:
		return el(repeat(n, func(i int) *Node { return text("t") })), data
	case 7:
		return &Node{K: "coll", C: repeat(n, func(i int) *Node { return &Node{K: "void", N: "br"} })}, data
	case 8:
		return &Node{K: []string{"frag", "text", "comment"}[g.n(3)], V: vals(n)}, data
	case 9:
		return el([]*Node{{K: "attr", N: "x-p", V: vals(n)}}), data
	case 10:
		return el([]*Node{{K: "dattr", N: "class", D: " ", Via: "reg", Fn: "html.Class", V: vals(n - n%3)}}), data
	case 11:
		return &Node{K: "frag", V: []Val{{K: "concat", L: vals(n)}}}, data
	case 12, 13:
		ops := make([]IOp, 0, 2*n)
		for i := 0; i < n; i++ {
			ops = append(ops, IOp{K: "start", N: "i"})
		}
		if kind == 12 {
			ops = append(ops, IOp{K: "endall"})
		} else {
			for i := 0; i < n; i++ {
				ops = append(ops, IOp{K: "end"})
			}
		}
		return &Node{K: "imp", ID: g.nid(), Ops: ops}, data
	case 14:
		return &Node{K: "imp", ID: g.nid(), Ops: []IOp{{K: "start", N: "i", C: attrs(n)}, {K: "endall"}}}, data
	case 15:
		return &Node{K: "imp", ID: g.nid(), Ops: []IOp{{K: "start", N: "i", C: classes(n)}, {K: "endall"}}}, data
	case 16:
		return &Node{K: "imp", ID: g.nid(), Ops: []IOp{{K: "nodes", C: repeat(n, func(i int) *Node { return text("t") })}}}, data
	case 17:
		return &Node{K: []string{"iter", "yield"}[g.n(2)], ID: g.nid(), Src: &Items{K: "list", L: items(n), ID: g.nid()}, C: dot}, data
	case 18:
		data[2].V = Val{K: "list", L: items(n)}
		if g.n(2) == 0 {
			l := make([]Val, n)
			for i := range l {
				l[i] = Val{K: "s", S: "i" + num(i)}
			}
			data[2].V = Val{K: "strings", L: l}
		}
		return &Node{K: "iterkey", Src: &Items{K: "data", S: "l0"}, C: dot}, data
	case 19:
		return chain(n/4, func(i int, in []*Node) *Node { return el(in) }), data
	case 20:
		return chain(n/5, func(i int, in []*Node) *Node {
			if i%2 == 0 {
				return &Node{K: "cond", Cond: &Cond{K: "when", S: "b0"}, C: in}
			}
			return &Node{K: "coll", C: in}
		}), data
	case 21:
		return chain(n/8, func(i int, in []*Node) *Node {
			return &Node{K: "iterkey", Src: &Items{K: "data", S: "l0"}, C: in}
		}), data
	case 22:
		return &Node{K: "frag", V: []Val{{K: "s", S: strings.Repeat("a<\"&", 4*n)}}}, data
	default:
		for i := 0; i < n; i++ {
			data = append(data, KV{"z" + num(i), Val{K: "int", I: int64(i)}})
		}
		return el(repeat(20, func(i int) *Node {
			return &Node{K: "text", V: []Val{{K: "key", S: "k0"}, {K: "key", S: "none"}, {K: "key", S: "z7"}}}
		})), data
	}
}

func genScale(g *gen) {
	sc := g.sc
	n := g.in(200, 1000)
	sc.Scale = true
	var ops []Op
	switch k := g.n(scaleKinds + 4); k {
	case scaleKinds, scaleKinds + 1: // many tokens
		in := manyTokens[g.n(len(manyTokens))]
		pkg := []string{"html", "svg"}[g.n(2)]
		for _, m := range []int{n, 2 * n} {
			ops = append(ops, Op{K: "gen", Gen: &GenOp{Pkg: pkg, In: in, Rep: m, RErrAt: -1}})
		}
	case scaleKinds + 2: // one token with many attributes
		pkg := []string{"html", "svg"}[g.n(2)]
		for _, m := range []int{n, 2 * n} {
			var sb strings.Builder
			sb.WriteString("<p")
			for i := 0; i < m; i++ {
				sb.WriteString(" data-a" + strconv.Itoa(i) + "=\"1\"")
			}
			sb.WriteString(">x</p>")
			ops = append(ops, Op{K: "gen", Gen: &GenOp{Pkg: pkg, In: sb.String(), RErrAt: -1}})
		}
	case scaleKinds + 3: // many markers
		t, data := g.scale(8, 3)
		sc.Trees = []*Node{t}
		for i, m := range []int{n / 2, n / 2 * 2} {
			tp := &Tpl{}
			for k := 0; k < m; k++ {
				tp.Pieces = append(tp.Pieces, Piece{K: "lit", S: "<p>"}, Piece{K: "node", N: 0})
			}
			sc.Tpls = append(sc.Tpls, tp)
			ops = append(ops, Op{K: "exec", Tree: i, Env: &Env{Tag: tagOf(0, i), Data: data}})
		}
	default:
		seed := g.rng
		for i := range 2 {
			g.rng = seed // the same choices for both
			t, data := g.scale(k, n<<i)
			sc.Trees = append(sc.Trees, t)
			ops = append(ops, Op{K: "render", Tree: i, Env: &Env{Tag: tagOf(0, i), Data: data}})
		}
	}
	sc.Tasks = []Task{{ops}}
}
