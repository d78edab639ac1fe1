package main

import (
	"encoding/json"
	"reflect"
	"sync"
	"unicode/utf8"

	"verifsim/simrt"
)

// A scenario is the complete, explicit description of one simulated execution: the trees that are
// shared, the callers (tasks) and what each does, the faults each meets, and the schedule. It is what a
// replay file holds. Nothing else influences a run.

// Val describes a value handed to the library (at construction, or as render data).
type Val struct {
	K  string  `json:"k"`
	S  string  `json:"s,omitempty"`
	X  string  `json:"x,omitempty"`
	I  int64   `json:"i,omitempty"`
	F  float64 `json:"f,omitempty"`
	L  []Val   `json:"l,omitempty"`
	M  []KV    `json:"m,omitempty"`
	ID int     `json:"id,omitempty"`
	R  int     `json:"r,omitempty"`
}

// KV is one entry of a map value.
type KV struct {
	K string `json:"k"`
	V Val    `json:"v"`
}

// Cond describes a condition function.
type Cond struct {
	K  string `json:"k"` // data | when | cargo | true | false | get | nil
	S  string `json:"s,omitempty"`
	ID int    `json:"id,omitempty"`
}

// Items describes the source of an iteration.
type Items struct {
	K  string `json:"k"` // list | data | cargo
	S  string `json:"s,omitempty"`
	L  []Val  `json:"l,omitempty"`
	ID int    `json:"id,omitempty"`

	New   *KV `json:"new,omitempty"`   // the source gives the context other data, with this changed
	NewAt int `json:"newAt,omitempty"` // yield: before this item
}

// IOp is one step of an imperative callback.
type IOp struct {
	K    string  `json:"k"` // start end endall str raw nodes try setdata newdata deldata nested cargo data point
	N    string  `json:"n,omitempty"`
	Void bool    `json:"void,omitempty"`
	C    []*Node `json:"c,omitempty"`
	V    *Val    `json:"v,omitempty"`
	Tree int     `json:"tree,omitempty"`
	Env  *Env    `json:"env,omitempty"`
}

// Node describes a node of a tree.
type Node struct {
	K    string  `json:"k"` // el void attr battr dattr cattr text comment pi frag coll cond iter iterkey yield imp collect custom boom doc ref nilnode
	N    string  `json:"n,omitempty"`
	D    string  `json:"d,omitempty"`
	Via  string  `json:"via,omitempty"` // "" bytes constructor, "name" string constructor, "reg" named helper, or a special helper
	Fn   string  `json:"fn,omitempty"`  // named helper
	V    []Val   `json:"v,omitempty"`
	C    []*Node `json:"c,omitempty"`
	C2   []*Node `json:"c2,omitempty"` // doc: head
	ID   int     `json:"id,omitempty"`
	Cond *Cond   `json:"cond,omitempty"`
	Src  *Items  `json:"src,omitempty"`
	Ops  []IOp   `json:"ops,omitempty"`
	Ref  int     `json:"ref,omitempty"`
	Raw  bool    `json:"raw,omitempty"`  // text: passed as a bare value
	Args int     `json:"args,omitempty"` // shared argument slice + 1, spread into the constructor
	Typ  int     `json:"typ,omitempty"`  // custom: node type
	Mode string  `json:"mode,omitempty"`

	Kargs int `json:"kargs,omitempty"` // contents are a shared slice of nodes (+1), spread into the constructor; C is then its description
}

// MarshalJSON leaves out contents that are described elsewhere.
func (n *Node) MarshalJSON() ([]byte, error) {
	type plain Node
	p := plain(*n)
	if p.Kargs > 0 {
		p.C = nil
	}
	return json.Marshal(p)
}

// link attaches the descriptions of shared contents.
func (sc *Scenario) link() {
	env := func(e *Env) {
		if e != nil && e.Share > 0 {
			s := sc.Shared[e.Share-1]
			e.Data, e.Cargo, e.NoData = s.Data, s.Cargo, s.NoData
		}
	}
	allOps(sc, func(op *Op) {
		env(op.Env)
		for i := range op.CB {
			env(op.CB[i].Env)
		}
		for i := range op.Faults {
			env(op.Faults[i].Env)
		}
	})
	var node func(n *Node)
	node = func(n *Node) {
		if n.Kargs > 0 {
			n.C = sc.Kids[n.Kargs-1]
			return
		}
		for _, c := range n.C {
			node(c)
		}
		for _, c := range n.C2 {
			node(c)
		}
		for i := range n.Ops {
			env(n.Ops[i].Env)
			for _, c := range n.Ops[i].C {
				node(c)
			}
		}
	}
	for _, n := range sc.Trees {
		node(n)
	}
	for _, n := range sc.Comps {
		node(n)
	}
	for _, l := range sc.Kids {
		for _, n := range l {
			node(n)
		}
	}
}

// Env is the data of one rendering context.
type Env struct {
	Tag    string `json:"tag,omitempty"`
	Data   []KV   `json:"data,omitempty"`
	NoData bool   `json:"noData,omitempty"`
	Cargo  *Val   `json:"cargo,omitempty"`
	PreErr bool   `json:"preErr,omitempty"` // the context carries an error before its first use
	PreE   int    `json:"preE,omitempty"`   // which one
	W      string `json:"w,omitempty"`      // writer: "" sim, rich, file, buffer
	Piece  int    `json:"piece,omitempty"`  // sim writer takes its bytes in pieces of this size
	Up     *Env   `json:"up,omitempty"`     // the context has a parent, with this data
	Share  int    `json:"share,omitempty"`  // Data and Cargo are those of Scenario.Shared (+1), the same Go values for all
}

// MarshalJSON leaves out what is described elsewhere.
func (e *Env) MarshalJSON() ([]byte, error) {
	type plain Env
	p := plain(*e)
	if p.Share > 0 {
		p.Data, p.Cargo, p.NoData = nil, nil, false
	}
	return json.Marshal(p)
}

// Fault is a fault of a stream (a writer or a reader).
type Fault struct {
	K    string `json:"k"`              // err short full panic panicmid panicafter stall
	Byte int    `json:"byte"`           // strikes the call that covers this byte, -1: by call
	Call int    `json:"call,omitempty"` // strikes this call (0-based)
	N    int    `json:"n,omitempty"`    // how many calls (from the first struck on) fail; -1 all further ones
	Lat  int64  `json:"lat,omitempty"`
	PV   int    `json:"pv,omitempty"`   // kind of panic value
	E    int    `json:"e,omitempty"`    // kind of error, 0: one of the simulator's own
	Same bool   `json:"same,omitempty"` // every strike reports the same error

	Tree int  `json:"tree,omitempty"` // nest: what is rendered
	Env  *Env `json:"env,omitempty"`
}

// CBFault is a fault raised by a user callback.
type CBFault struct {
	ID  int    `json:"id"`
	Occ int    `json:"occ"`
	K   string `json:"k"` // ret set both panic stall
	At  int    `json:"at,omitempty"`
	PV  int    `json:"pv,omitempty"`
	Lat int64  `json:"lat,omitempty"`
	E   int    `json:"e,omitempty"`
	All bool   `json:"all,omitempty"` // every later occurrence as well

	Tree int  `json:"tree,omitempty"` // nest: what is rendered
	Env  *Env `json:"env,omitempty"`
}

// Op is one action of a task.
type Op struct {
	K      string    `json:"k"` // build buildtpl render exec gen get
	Tree   int       `json:"tree,omitempty"`
	Ctx    int       `json:"ctx,omitempty"`   // context slot of the task
	Env    *Env      `json:"env,omitempty"`   // a fresh context is put into the slot
	Again  bool      `json:"again,omitempty"` // the fresh context takes the place of the old one in memory
	Clone  bool      `json:"clone,omitempty"` // the caller replaces the Data of the context by a copy first
	Set    []KV      `json:"set,omitempty"`   // the caller changes the data of the context first
	Poke   []Poke    `json:"poke,omitempty"`
	Cargo  *Val      `json:"cargo,omitempty"`
	Faults []Fault   `json:"faults,omitempty"` // of the fresh context's writer
	CB     []CBFault `json:"cb,omitempty"`
	Local  bool      `json:"local,omitempty"` // render: the tree this task built
	Think  int64     `json:"think,omitempty"`
	Rep    int       `json:"rep,omitempty"` // done this many times, each with a fresh context
	Gen    *GenOp    `json:"gen,omitempty"`
	Get    *GetOp    `json:"get,omitempty"`
}

// Poke is a change the caller makes inside a value of its Data or Cargo, in place.
type Poke struct {
	Key string `json:"key"`           // of Data, "." for Cargo
	I   int    `json:"i"`             // index in the list, -1: the value is itself a map
	Sub string `json:"sub,omitempty"` // key in the map there
	V   Val    `json:"v"`
}

// GenOp is a code generation.
type GenOp struct {
	Pkg    string  `json:"pkg"`
	In     string  `json:"in"`
	Rep    int     `json:"rep,omitempty"` // input is In repeated
	Chunks []int   `json:"chunks,omitempty"`
	Empty  int     `json:"empty,omitempty"`  // every so many reads, one returns nothing
	Burst  int     `json:"burst,omitempty"`  // that many empty reads in a row
	Dead   bool    `json:"dead,omitempty"`   // after the chunks, reads return nothing for ever
	EOFTog bool    `json:"eofTog,omitempty"` // last bytes together with EOF
	RErrAt int     `json:"rErrAt"`           // reader fails after this many bytes, -1 never
	RErrTg bool    `json:"rErrTg,omitempty"` // error together with the last bytes
	RErrE  int     `json:"rErrE,omitempty"`
	ROnce  bool    `json:"rOnce,omitempty"` // the reader fails once and then goes on
	Stall  int64   `json:"stall,omitempty"`
	RPanic bool    `json:"rPanic,omitempty"`
	Faults []Fault `json:"faults,omitempty"`
	R      string  `json:"r,omitempty"` // rich: the reader has optional interfaces
	W      string  `json:"w,omitempty"` // writer: "" sim, rich, file
}

// GetOp is a typed lookup.
type GetOp struct {
	Ctx  int    `json:"ctx"`
	Key  string `json:"key"`
	T    string `json:"t"`
	Must bool   `json:"must,omitempty"`
	Nil  bool   `json:"nil,omitempty"`
}

// Task is one caller.
type Task struct {
	Ops []Op `json:"ops"`
}

// Piece of a template text.
type Piece struct {
	K string  `json:"k"` // lit node nodectx attr id if with range sub
	S string  `json:"s,omitempty"`
	N int     `json:"n,omitempty"`
	L []Piece `json:"l,omitempty"`
	E []Piece `json:"e,omitempty"`
}

// Tpl is a template.
type Tpl struct {
	Pieces []Piece `json:"pieces"`
}

// GetCtx describes a context used for lookups.
type GetCtx struct {
	Data  []KV `json:"data,omitempty"`
	Nil   bool `json:"nil,omitempty"`
	Cargo Val  `json:"cargo"`
	Par   bool `json:"par,omitempty"`
}

// Scenario is one simulated execution.
type Scenario struct {
	Prop  string    `json:"prop"`
	Seed  uint64    `json:"seed"`
	Comps []*Node   `json:"comps,omitempty"`
	Vals  []Val     `json:"vals,omitempty"`
	Args  [][]Val   `json:"args,omitempty"`
	Slack []int     `json:"slack,omitempty"`
	HMaps [][]KV    `json:"hmaps,omitempty"` // shared header maps
	Kids  [][]*Node `json:"kids,omitempty"`  // shared slices of nodes
	Churn bool      `json:"churn,omitempty"` // callers overwrite their argument slices once a constructor has returned
	Trees []*Node   `json:"trees,omitempty"`
	Tpls  []*Tpl    `json:"tpls,omitempty"`
	Gets  []GetCtx  `json:"gets,omitempty"`

	Shared []*Env       `json:"shared,omitempty"` // data and cargo that several contexts share
	Tasks  []Task       `json:"tasks"`
	Post   []Op         `json:"post,omitempty"`
	Cfg    simrt.Config `json:"cfg"`

	Scale bool `json:"scale,omitempty"` // the second operation is twice the first

	Long bool `json:"long,omitempty"` // carried out again and again, with other contents each time

	planning bool // being generated
}

// JSON holds text only: bytes that are not UTF-8 travel as private code points.
const byteRune = 0xF700

func toText(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var o []byte
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && n == 1 {
			o = utf8.AppendRune(o, byteRune+rune(s[0]))
		} else {
			o = append(o, s[:n]...)
		}
		s = s[n:]
	}
	return string(o)
}

func fromText(s string) string {
	var o []byte
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r >= byteRune+0x80 && r <= byteRune+0xFF {
			if o == nil {
				o = append(make([]byte, 0, len(s)), s[:i]...)
			}
			o = append(o, byte(r-byteRune))
		} else if o != nil {
			o = append(o, s[i:i+n]...)
		}
		i += n
	}
	if o == nil {
		return s
	}
	return string(o)
}

// mapStrings replaces every string below v.
func mapStrings(v reflect.Value, f func(string) string) {
	switch v.Kind() {
	case reflect.String:
		if s := v.String(); s != "" {
			if t := f(s); t != s {
				v.SetString(t)
			}
		}
	case reflect.Pointer:
		if !v.IsNil() {
			mapStrings(v.Elem(), f)
		}
	case reflect.Slice:
		if k := v.Type().Elem().Kind(); k < reflect.Array { // numbers
			return
		}
		for i := 0; i < v.Len(); i++ {
			mapStrings(v.Index(i), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if x := v.Field(i); x.CanSet() {
				mapStrings(x, f)
			}
		}
	}
}

var jsonMu sync.Mutex

// MarshalJSON keeps every byte.
func (sc *Scenario) MarshalJSON() ([]byte, error) {
	type plain Scenario
	jsonMu.Lock()
	defer jsonMu.Unlock()
	mapStrings(reflect.ValueOf(sc).Elem(), toText)
	defer mapStrings(reflect.ValueOf(sc).Elem(), fromText)
	return json.Marshal((*plain)(sc))
}

// UnmarshalJSON is its inverse.
func (sc *Scenario) UnmarshalJSON(b []byte) error {
	type plain Scenario
	if err := json.Unmarshal(b, (*plain)(sc)); err != nil {
		return err
	}
	mapStrings(reflect.ValueOf(sc).Elem(), fromText)
	return nil
}
