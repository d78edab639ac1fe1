package main

import (
	"bytes"
	"errors"
	"io"
	"strings"

	nethtml "golang.org/x/net/html"

	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/svg"
	"verifsim/simrt"
)

// simReader is the simulated input device of a code generation.
type simReader struct {
	ts      *taskState
	r       *opRun
	g       *GenOp
	in      []byte
	pos     int
	chunk   int
	reads   int
	empty   int // consecutive empty reads
	burst   int // of them still to come
	empties int // all empty reads, unless there is no end of them
	failed  error
	failAt  int // bytes delivered before it
	eofs    int
	after   int // reads after the failure
	busy    bool
}

func (d *simReader) Read(p []byte) (int, error) {
	if d.busy || d.r.inUser || d.r.st.inWrite {
		d.r.note("overlap", "Read was called during another Read or a Write")
	}
	if d.r.st.run == nil {
		d.ts.late("Read was called when the generation had returned")
	}
	d.busy = true
	defer func() { d.busy = false }()
	simrt.Point()
	d.reads++
	g := d.g
	if d.failed != nil {
		d.after++
		if !g.ROnce {
			return 0, d.failed
		}
	}
	if g.Stall > 0 && d.reads%3 == 1 {
		d.ts.fired["read stall"]++
		simrt.Sleep(g.Stall)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if g.Dead && d.chunk > len(g.Chunks) && d.pos < len(d.in) && d.failed == nil {
		d.ts.fired["dead reader"]++
		return 0, nil
	}
	if g.Empty > 0 && (d.reads%g.Empty == 0 && d.empty < 5 || d.burst > 0) {
		if d.burst > 0 {
			d.burst--
		} else if g.Burst > 0 && d.empty == 0 {
			d.burst = g.Burst - 1
		}
		d.empty++
		d.empties++
		d.ts.fired["empty read"]++
		return 0, nil
	}
	d.empty = 0
	limit := len(d.in)
	bad := g.RErrAt >= 0 && d.failed == nil
	if bad && g.RErrAt < limit {
		limit = g.RErrAt
	}
	if d.pos >= limit {
		return 0, d.end()
	}
	n := len(p)
	if len(g.Chunks) > 0 {
		if c := g.Chunks[d.chunk%len(g.Chunks)]; c > 0 && c < n {
			n = c
		}
		d.chunk++
		d.ts.fired["short read"]++
	}
	if d.pos+n > limit {
		n = limit - d.pos
	}
	if g.Dead && d.chunk > len(g.Chunks) {
		d.ts.fired["dead reader"]++
		return 0, nil
	}
	copy(p, d.in[d.pos:d.pos+n])
	d.pos += n
	if d.pos >= limit {
		if bad && g.RErrTg || !bad && g.EOFTog {
			return n, d.end()
		}
	}
	return n, nil
}

// richReader also offers the optional interfaces real readers have.
type richReader struct {
	*simReader
	last    byte
	unread  bool
	canUndo bool
}

func (d *richReader) Read(p []byte) (int, error) {
	d.canUndo = false
	if d.unread && len(p) > 0 {
		d.unread = false
		p[0] = d.last
		return 1, nil
	}
	return d.simReader.Read(p)
}

func (d *richReader) ReadByte() (byte, error) {
	var p [1]byte
	for n := 0; n < 100; n++ {
		k, err := d.Read(p[:])
		if k > 0 {
			d.last, d.canUndo = p[0], true
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (d *richReader) UnreadByte() error {
	if !d.canUndo {
		return errors.New("nothing to unread")
	}
	d.unread, d.canUndo = true, false
	return nil
}

func (d *richReader) Len() int { return len(d.in) - d.pos } // as far as is known so far

func (d *richReader) Close() error {
	if d.r.st.run == nil {
		d.ts.late("Close was called when the generation had returned")
	}
	d.r.note("owned", "the caller's reader was closed")
	return nil
}

func (d *richReader) WriteTo(w io.Writer) (n int64, err error) {
	p := make([]byte, 100)
	for i := 0; ; i++ {
		k, err := d.Read(p)
		if k > 0 {
			i = 0
			m, err := w.Write(p[:k])
			n += int64(m)
			if err != nil {
				return n, err
			}
		}
		if err == io.EOF {
			return n, nil
		} else if err != nil {
			return n, err
		}
		if i > 100 {
			return n, io.ErrNoProgress
		}
	}
}

func (d *simReader) end() error {
	if d.g.RErrAt >= 0 && d.failed == nil {
		if d.g.RPanic {
			d.ts.fired["read panic"]++
			v := panicVal(d.g.RErrAt%3, d.ts.nextErr())
			d.r.st.panicked, d.r.st.pv, d.r.st.panicRun = true, v, d.r
			panic(v)
		}
		d.ts.fired["read error"]++
		d.failed, d.failAt = d.r.st.failRead(d.g.RErrE), d.pos
		return d.failed
	}
	d.eofs++
	return io.EOF
}

// failRead records a read failure as the stream's first failure without counting later output as
// "after the failure": what was read before may still be turned into code.
func (s *stream) failRead(like int) error {
	e := makeErr("read error", like, s.ts.nextErr())
	if s.rerr == nil {
		s.rerr = e
		s.wfirst = s.first != nil
	}
	return e
}

func (ts *taskState) doGen(op *Op) {
	g := op.Gen
	r := ts.begin(op)
	st, wr := ts.newStream(&Env{W: g.W}, g.Faults)
	r.st = st
	st.run = r
	rd := &simReader{ts: ts, r: r, g: g, in: g.input()}
	r.rd = rd
	var in io.Reader = rd
	if g.R != "" {
		in = &richReader{simReader: rd}
	}
	ts.guarded(r, func() {
		if g.Pkg == "svg" {
			r.err = svg.GenerateCode(in, wr)
		} else {
			r.err = html.GenerateCode(in, wr)
		}
	})
}

func (g *GenOp) input() []byte {
	n := g.Rep
	if n < 1 {
		n = 1
	}
	return []byte(strings.Repeat(g.In, n))
}

// The reference generator: the code a document calls for, written from the documentation and examples
// of GenerateCode, over the whole document at once.
func refGenerate(pkg string, in []byte) (body string, closing string) {
	elems, attrs := genHtmlElems, genHtmlAttrs
	if pkg == "svg" {
		elems, attrs = genSvgElems, genSvgAttrs
	}
	var o strings.Builder
	depth := 1
	ind := func() string { return strings.Repeat("\t", depth) }
	esc := func(s string) string {
		var e strings.Builder
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '\\':
				e.WriteString(`\\`)
			case '\t':
				e.WriteString(`\t`)
			case '\n':
				e.WriteString(`\n`)
			case '"':
				e.WriteString(`\"`)
			default:
				e.WriteByte(s[i])
			}
		}
		return e.String()
	}
	o.WriteString("var template = aitch.Collection(\n")
	z := nethtml.NewTokenizer(bytes.NewReader(in))
	for {
		tt := z.Next()
		if tt == nethtml.ErrorToken {
			break
		}
		t := z.Token()
		switch tt {
		case nethtml.TextToken:
			if strings.Trim(t.Data, " \n\t") != "" {
				o.WriteString(ind() + pkg + `.Text("` + esc(t.Data) + "\"),\n")
			}
		case nethtml.StartTagToken, nethtml.SelfClosingTagToken:
			self := tt == nethtml.SelfClosingTagToken
			o.WriteString(ind())
			if f, ok := elems[strings.ToLower(t.Data)]; ok {
				o.WriteString(f + "(")
			} else {
				o.WriteString(`aitch.Element("` + t.Data + `", `)
			}
			if self && len(t.Attr) == 0 {
				o.WriteString("),\n")
				continue
			}
			for i, a := range t.Attr {
				if i > 0 {
					o.WriteString(", ")
				}
				k := strings.ToLower(a.Key)
				if f, ok := attrs[k]; ok {
					if pkg == "html" && genHtmlBool[k] {
						o.WriteString(f + "()")
					} else {
						o.WriteString(f + `("` + esc(a.Val) + `")`)
					}
				} else {
					o.WriteString(`aitch.Attribute("` + a.Key + `" ,"` + esc(a.Val) + `")`)
				}
			}
			if self {
				o.WriteString("),")
			} else if len(t.Attr) > 0 {
				o.WriteString(",")
			}
			o.WriteString("\n")
			if !self {
				depth++
			}
		case nethtml.EndTagToken:
			if depth > 0 {
				depth--
			}
			o.WriteString(ind() + "),\n")
		case nethtml.CommentToken:
			o.WriteString(ind() + pkg + `.Comment("` + esc(t.Data) + "\"),\n")
		case nethtml.DoctypeToken:
			if pkg == "html" {
				o.WriteString(ind() + `html.PI("DOCTYPE", "` + esc(t.Data) + "\"),\n")
			}
		}
	}
	if depth > 0 {
		depth--
	}
	return o.String(), ind() + ")\n\n"
}
