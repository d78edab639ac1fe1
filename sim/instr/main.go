// Command instr writes instrumented copies of the library's source files and an overlay for the go
// command. It changes no behaviour: it inserts a preemption point before every statement, gives map
// ranges an order chosen by the simulator, and swaps package sync for its simulated counterpart.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct{ Path, Dir string }
}

// edit replaces del bytes at off. Insertions that close something (end) come before those that open
// something at the same place, innermost first.
type edit struct {
	off, del int
	text     string
	lazy     func() string
	end      bool
	seq      int
}

// apply is the text of src[lo:hi] with the edits made to it; eds is sorted. An edit that starts at hi
// belongs to the range if it closes something opened inside it.
func apply(src []byte, eds []edit, lo, hi int, whole bool) string {
	var o bytes.Buffer
	last := lo
	for _, e := range eds {
		if e.off < last || e.off > hi {
			continue // outside, or inside a replaced region
		}
		if !whole && (e.off == lo && e.end || e.off == hi && !e.end) {
			continue
		}
		o.Write(src[last:e.off])
		if e.lazy != nil {
			o.WriteString(e.lazy())
		} else {
			o.WriteString(e.text)
		}
		last = e.off + e.del
	}
	if last < hi {
		o.Write(src[last:hi])
	}
	return o.String()
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "library source tree")
	out := flag.String("out", "", "directory for instrumented files")
	overlay := flag.String("overlay", "", "overlay file to write")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var mine []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && p.Module.Path == "github.com/go-andiamo/aitch" && p.Name != "main" {
			mine = append(mine, p)
		}
	}
	if len(mine) == 0 {
		die("no packages found")
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	replace := map[string]string{}
	nst, nmap, nsync, ngo, nchan, ntime := 0, 0, 0, 0, 0, 0
	for _, p := range mine {
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, g := range p.GoFiles {
			name := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(name)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			names = append(names, name)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = conf.Check(p.ImportPath, fset, files, info)
		for i, f := range files {
			tf := fset.File(f.Pos())
			src := srcs[i]
			var eds []edit
			add := func(pos token.Pos, del int, text string) {
				eds = append(eds, edit{off: tf.Offset(pos), del: del, text: text, seq: len(eds)})
			}
			shut := func(pos token.Pos, text string) {
				eds = append(eds, edit{off: tf.Offset(pos), text: text, end: true, seq: len(eds)})
			}
			lazy := func(pos, to token.Pos, f func() string) {
				eds = append(eds, edit{off: tf.Offset(pos), del: tf.Offset(to) - tf.Offset(pos), lazy: f, seq: len(eds)})
			}
			text := func(n ast.Node) string { // with the edits inside it
				return apply(src, eds, tf.Offset(n.Pos()), tf.Offset(n.End()), false)
			}
			extra := ""
			isChan := func(e ast.Expr) bool {
				tv, ok := info.Types[e]
				if !ok || tv.Type == nil {
					return false
				}
				if _, tp := types.Unalias(tv.Type).(*types.TypeParam); tp {
					if u, ok := tv.Type.Underlying().(*types.Interface); ok && u.NumEmbeddeds() == 1 {
						if un, ok := u.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
							_, ok = un.Term(0).Type().Underlying().(*types.Chan)
							return ok
						}
					}
					return false
				}
				_, ok = tv.Type.Underlying().(*types.Chan)
				return ok
			}
			builtin := func(e ast.Expr) string {
				if id, ok := ast.Unparen(e).(*ast.Ident); ok {
					if b, ok := info.Uses[id].(*types.Builtin); ok {
						return b.Name()
					}
				}
				return ""
			}
			// static says that a call's function is not a value that could change before the call is made.
			static := func(e ast.Expr) bool {
				switch x := ast.Unparen(e).(type) {
				case *ast.Ident:
					_, ok := info.Uses[x].(*types.Func)
					return ok || builtin(x) != ""
				case *ast.SelectorExpr:
					if id, ok := x.X.(*ast.Ident); ok {
						_, pk := info.Uses[id].(*types.PkgName)
						_, fn := info.Uses[x.Sel].(*types.Func)
						return pk && fn
					}
				case *ast.IndexExpr, *ast.IndexListExpr:
					return true // an instantiated generic function
				}
				return false
			}
			commOps := map[ast.Node]bool{} // receives that a select clause contains: rewritten with it
			used, pipes := false, false
			stmts := func(list []ast.Stmt) {
				for _, s := range list {
					switch s.(type) {
					case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					add(s.Pos(), 0, "simrt.Y();")
					used = true
					nst++
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.CommClause:
					stmts(x.Body)
				case *ast.ForStmt:
					if len(x.Body.List) == 0 {
						add(x.Body.Lbrace+1, 0, "simrt.Y();")
						used = true
					}
				case *ast.RangeStmt:
					if len(x.Body.List) == 0 {
						add(x.Body.Lbrace+1, 0, "simrt.Y();")
						used = true
					}
					if tv, ok := info.Types[x.X]; ok && tv.Type != nil {
						if _, ok := tv.Type.Underlying().(*types.Map); ok {
							add(x.X.Pos(), 0, "simrt.MapSeq(")
							shut(x.X.End(), ")")
							used = true
							nmap++
						} else if isChan(x.X) {
							add(x.X.Pos(), 0, "simrt.ChanSeq(")
							shut(x.X.End(), ")")
							used = true
							nchan++
						}
					}
				case *ast.GoStmt:
					// go f(args) => evaluate function and args now, run the call as a task of the simulation
					lit, isLit := x.Call.Fun.(*ast.FuncLit)
					ngo++
					used = true
					ell := ""
					if x.Call.Ellipsis.IsValid() {
						ell = "..."
					}
					lazy(x.Pos(), x.End(), func() string {
						if isLit && len(x.Call.Args) == 0 {
							return "simrt.Go(" + text(lit) + ")"
						}
						t := "{ "
						fn := "simFn"
						if static(x.Call.Fun) {
							fn = text(x.Call.Fun)
						} else {
							t += "simFn := " + text(x.Call.Fun) + "; "
						}
						var args, names, vals []string
						for k, a := range x.Call.Args {
							if tv, ok := info.Types[a]; ok && tv.Value == nil && !tv.IsNil() && tv.IsValue() {
								if tu, ok := tv.Type.(*types.Tuple); ok { // f(g()) with several results
									for i := 0; i < tu.Len(); i++ {
										names = append(names, "simArg"+strconv.Itoa(i))
									}
									args = names
								} else {
									n := "simArg" + strconv.Itoa(k)
									names = append(names, n)
									args = append(args, n)
								}
								vals = append(vals, text(a))
							} else {
								args = append(args, text(a))
							}
						}
						if len(names) > 0 {
							t += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
						}
						return t + "simrt.Go(func() { " + fn + "(" + strings.Join(args, ", ") + ell + ") }) }"
					})
				case *ast.SendStmt:
					if commOps[x] {
						return true
					}
					add(x.Chan.Pos(), 0, "simrt.Send(")
					shut(x.Chan.End(), ")")
					add(x.Arrow, 2, "(")
					shut(x.Value.End(), ")")
					used = true
					nchan++
				case *ast.UnaryExpr:
					if x.Op != token.ARROW || commOps[x] {
						return true
					}
					f := "simrt.Recv("
					if tv, ok := info.Types[x]; ok {
						if _, tup := tv.Type.(*types.Tuple); tup {
							f = "simrt.Recv2("
						}
					}
					add(x.OpPos, 2, f)
					shut(x.X.End(), ")")
					used = true
					nchan++
				case *ast.SelectStmt:
					used = true
					nchan++
					if len(x.Body.List) == 0 {
						lazy(x.Pos(), x.End(), func() string { return "for { simrt.Select(false) }" })
						return false
					}
					def := false
					n := len(x.Body.List)
					var cases []func() string
					for k, st := range x.Body.List {
						cl := st.(*ast.CommClause)
						if cl.Comm == nil {
							def = true
							continue
						}
						i := len(cases)
						head := "case " + strconv.Itoa(i) + ":"
						hasDef := false
						for _, st := range x.Body.List {
							hasDef = hasDef || st.(*ast.CommClause).Comm == nil
						}
						if k == n-1 && !hasDef {
							head = "default:" // a select without default waits: the compiler must see that some case is taken
						}
						c := "simC" + strconv.Itoa(i)
						recv := func(e ast.Expr) *ast.UnaryExpr {
							u := ast.Unparen(e).(*ast.UnaryExpr)
							commOps[u] = true
							return u
						}
						switch cm := cl.Comm.(type) {
						case *ast.SendStmt:
							commOps[cm] = true
							cases = append(cases, func() string { return "simrt.CaseSend(" + text(cm.Chan) + ")(" + text(cm.Value) + ")" })
							add(cl.Case, tf.Offset(cl.Colon)+1-tf.Offset(cl.Case), head)
						case *ast.ExprStmt:
							u := recv(cm.X)
							cases = append(cases, func() string { return "simrt.CaseRecv(" + text(u.X) + ")" })
							add(cl.Case, tf.Offset(cl.Colon)+1-tf.Offset(cl.Case), head)
						case *ast.AssignStmt:
							u := recv(cm.Rhs[0])
							cases = append(cases, func() string { return "simrt.CaseRecv(" + text(u.X) + ")" })
							get := c + ".Get()"
							if len(cm.Lhs) == 2 {
								get = c + ".Get2()"
							}
							lazy(cl.Case, cl.Colon+1, func() string {
								var l []string
								for _, e := range cm.Lhs {
									l = append(l, text(e))
								}
								return head + " " + strings.Join(l, ", ") + " " + cm.Tok.String() + " " + get + ";"
							})
						}
					}
					lazy(x.Select, x.Body.Lbrace, func() string {
						var names, vals []string
						for i, f := range cases {
							names = append(names, "simC"+strconv.Itoa(i))
							vals = append(vals, f())
						}
						t := "switch "
						if len(names) > 0 {
							t += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
						}
						return t + "simrt.Select(" + strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", ") + ") "
					})
				case *ast.CallExpr:
					switch builtin(x.Fun) {
					case "close":
						add(x.Fun.Pos(), tf.Offset(x.Fun.End())-tf.Offset(x.Fun.Pos()), "simrt.Close")
						used = true
						nchan++
					case "len":
						if len(x.Args) == 1 && isChan(x.Args[0]) {
							add(x.Fun.Pos(), tf.Offset(x.Fun.End())-tf.Offset(x.Fun.Pos()), "simrt.Len")
							used = true
							nchan++
						}
					case "make":
						if isChan(x) {
							add(x.Pos(), 0, "simrt.MakeChan(")
							shut(x.End(), ")")
							used = true
							nchan++
						}
					}
				case *ast.SelectorExpr:
					if id, ok := x.X.(*ast.Ident); ok && x.Sel.Name == "Gosched" {
						if pk, ok := info.Uses[id].(*types.PkgName); ok && pk.Imported().Path() == "runtime" {
							add(x.Pos(), tf.Offset(x.End())-tf.Offset(x.Pos()), "simrt.Yield")
							extra += "\nvar _ = " + id.Name + ".Gosched\n"
							used = true
						}
					}
					if id, ok := x.X.(*ast.Ident); ok && (x.Sel.Name == "Pipe" || x.Sel.Name == "PipeReader" || x.Sel.Name == "PipeWriter") {
						if pk, ok := info.Uses[id].(*types.PkgName); ok && pk.Imported().Path() == "io" {
							add(x.Pos(), tf.Offset(x.End())-tf.Offset(x.Pos()), "simio."+x.Sel.Name)
							if !pipes {
								pipes = true
								extra += "\nvar _ = " + id.Name + ".EOF\n"
								add(f.Name.End(), 0, `; import simio "verifsim/simio"`)
							}
						}
					}
				case *ast.ImportSpec:
					if x.Path.Value == `"maps"` {
						if x.Name == nil {
							add(x.Path.Pos(), len(x.Path.Value), `maps "verifsim/simmaps"`)
						} else {
							add(x.Path.Pos(), len(x.Path.Value), `"verifsim/simmaps"`)
						}
					}
					if x.Path.Value == `"time"` {
						ntime++
						if x.Name == nil {
							add(x.Path.Pos(), len(x.Path.Value), `time "verifsim/simtime"`)
						} else {
							add(x.Path.Pos(), len(x.Path.Value), `"verifsim/simtime"`)
						}
					}
					if x.Path.Value == `"sync"` {
						nsync++
						if x.Name == nil {
							add(x.Path.Pos(), len(x.Path.Value), `sync "verifsim/simsync"`)
						} else {
							add(x.Path.Pos(), len(x.Path.Value), `"verifsim/simsync"`)
						}
					}
				}
				return true
			})
			if used {
				add(f.Name.End(), 0, `; import simrt "verifsim/simrt"`)
			}
			if len(eds) == 0 {
				continue
			}
			sort.SliceStable(eds, func(a, b int) bool {
				if eds[a].off != eds[b].off {
					return eds[a].off < eds[b].off
				}
				if eds[a].end != eds[b].end {
					return eds[a].end
				}
				if eds[a].end {
					return eds[a].seq > eds[b].seq
				}
				return eds[a].seq < eds[b].seq
			})
			var o bytes.Buffer
			o.WriteString(apply(src, eds, 0, len(src), true))
			o.WriteString(extra)
			rel, _ := filepath.Rel(*repo, names[i])
			dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
			if err := os.WriteFile(dst, o.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			if _, err := parser.ParseFile(token.NewFileSet(), dst, o.Bytes(), 0); err != nil {
				die("instrumented file does not parse: %v", err)
			}
			replace[names[i]] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(*overlay, j, 0o644); err != nil {
		die("%v", err)
	}
	st, _ := json.Marshal(map[string]int{"packages": len(mine), "files": len(replace), "statements": nst, "mapRanges": nmap, "syncImports": nsync, "goStatements": ngo, "channelOps": nchan, "timeImports": ntime})
	os.WriteFile(filepath.Join(*out, "instr.json"), st, 0o644)
	fmt.Fprintf(os.Stderr, "instr: %s\n", st)
}
