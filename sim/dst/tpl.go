package main

import (
	"strconv"
	"strings"

	"github.com/go-andiamo/aitch"
)

// tplWriter puts together the text of a template.
type tplWriter struct {
	text, defs strings.Builder
	n          int
}

// pieces writes ps to sb; in: the dot is not the context.
func (t *tplWriter) pieces(ps []Piece, sb *strings.Builder, in bool) {
	dot, data := ".", ".Data"
	if in {
		dot, data = "$", "$.Data"
	}
	for _, p := range ps {
		n := "n" + strconv.Itoa(p.N)
		switch p.K {
		case "lit":
			sb.WriteString(p.S)
		case "node":
			sb.WriteString("{{" + n + " " + dot + "}}")
		case "nodectx": // the same through the root variable
			sb.WriteString("{{" + n + " $}}")
		case "attr":
			sb.WriteString("<" + p.S + "{{" + n + " " + dot + "}}>")
		case "id":
			sb.WriteString("{{" + data + "._id}}")
		case "if":
			sb.WriteString("{{if " + data + "." + p.S + "}}")
			t.pieces(p.L, sb, in)
			if len(p.E) > 0 {
				sb.WriteString("{{else}}")
				t.pieces(p.E, sb, in)
			}
			sb.WriteString("{{end}}")
		case "with", "range":
			k := ""
			if p.K == "range" {
				k = "." + p.S
			}
			sb.WriteString("{{" + p.K + " " + data + k + "}}")
			t.pieces(p.L, sb, true)
			if len(p.E) > 0 {
				sb.WriteString("{{else}}")
				t.pieces(p.E, sb, in)
			}
			sb.WriteString("{{end}}")
		case "sub":
			t.n++
			name := "sub" + strconv.Itoa(t.n)
			var body strings.Builder
			t.pieces(p.L, &body, false)
			t.defs.WriteString(`{{define "` + name + `"}}` + body.String() + "{{end}}")
			for i := 0; i <= p.N; i++ {
				sb.WriteString(`{{template "` + name + `" ` + dot + "}}")
			}
		}
	}
}

func (b *builder) buildTpl(t *Tpl) *aitch.Template {
	w := &tplWriter{}
	w.pieces(t.Pieces, &w.text, false)
	nm := b.nodeMap
	if b.sc.Churn {
		nm = b.newNodeMap()
	}
	r := aitch.MustNewTemplate("t", w.defs.String()+w.text.String(), nm)
	if b.sc.Churn { // the map is the caller's
		for k := range nm {
			nm[k] = aitch.Text("OVERWRITTEN")
		}
	}
	return r
}

// newNodeMap makes a map of all nodes by name.
func (b *builder) newNodeMap() aitch.NodeMap {
	nm := aitch.NodeMap{"unused": nil}
	for n, t := range b.trees {
		if t != nil {
			nm["n"+strconv.Itoa(n)] = t
		}
	}
	return nm
}

// nodeMapChanged says whether the map that templates share is not as it was made.
func (b *builder) nodeMapChanged() bool {
	if b.nodeMap == nil {
		return false
	}
	was := b.newNodeMap()
	for k, v := range b.nodeMap {
		if w, ok := was[k]; !ok || !sameAny(v, w) {
			return true
		}
	}
	return len(was) != len(b.nodeMap)
}

func (m *model) tpl(ps []Piece) {
	for _, p := range ps {
		m.cost += 20
		m.limit()
		switch p.K {
		case "lit":
			m.w(p.S)
		case "node", "nodectx":
			m.render(m.sc.Trees[p.N])
		case "attr":
			m.w("<" + p.S)
			m.render(m.sc.Trees[p.N])
			m.w(">")
		case "id":
			if v, ok := m.lookup("_id"); ok {
				m.w(v.S)
			}
		case "if":
			v, ok := m.lookup(p.S)
			truth := ok && (v.K == "bool" && v.I != 0 || v.K == "s" && v.S != "" || v.K == "int" && v.I != 0)
			if truth {
				m.tpl(p.L)
			} else {
				m.tpl(p.E)
			}
		case "with":
			if m.env.data != nil && len(m.env.data.m) > 0 {
				m.tpl(p.L)
			} else {
				m.tpl(p.E)
			}
		case "range":
			its := m.srcItems(&Node{K: "iterkey", Src: &Items{S: p.S}})
			if v, ok := m.lookup(p.S); ok && v.K == "plist" { // templates see through pointers
				its = make([]Val, 2)
			}
			if len(its) == 0 {
				m.tpl(p.E)
			}
			for range its {
				m.tpl(p.L)
			}
		case "sub":
			for i := 0; i <= p.N; i++ {
				m.tpl(p.L)
			}
		}
	}
}
