// Command instrument writes instrumented copies of the sources of the
// repository, and the overlay file that makes 'go build' use them. The
// repository itself is left alone.
//
//	mcbuild: iterations over maps get their order from shim/vorder
//	mcsched: function entries and synchronization become scheduling points of
//	         shim/vsched
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/tinne26/ggfnt"
const shim = module + "/verifmc/shim/"

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	ImportMap               map[string]string
	Standard                bool
}

type edit struct {
	from, to int
	text     string
}

var mode, out string

func main() {
	flag.StringVar(&mode, "mode", "mcbuild", "mcbuild or mcsched")
	repo := flag.String("repo", "/repo", "unused: the packages are found through go.mod")
	flag.StringVar(&out, "out", "", "directory for the results")
	flag.Parse()
	_ = repo
	cmd := exec.Command("go", "list", "-modfile="+filepath.Join(out, "go.mod"), "-e", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Standard", "./cmd/"+mode)
	cmd.Stderr = os.Stderr
	text, err := cmd.Output()
	if err != nil {
		die("go list:", err)
	}
	all := map[string]*pkg{}
	var order []string
	for dec := json.NewDecoder(bytes.NewReader(text)); ; {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		all[p.ImportPath] = p
		order = append(order, p.ImportPath)
	}
	replace := map[string]string{}
	for _, path := range order {
		p := all[path]
		if p.Standard || path != module && !strings.HasPrefix(path, module+"/") || strings.HasPrefix(path, module+"/verifmc") {
			continue
		}
		process(p, all, replace)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		die(err)
	}
}

func die(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instrument:"}, a...)...)
	os.Exit(2)
}

func process(p *pkg, all map[string]*pkg, replace map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var paths []string
	var sources [][]byte
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			die(err)
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die(err)
		}
		files, paths, sources = append(files, f), append(paths, path), append(sources, src)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(err error) {
		fmt.Fprintln(os.Stderr, "instrument: type checking:", err)
	}}
	_, _ = conf.Check(p.ImportPath, fset, files, info)
	for i, f := range files {
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		in := &instrumenter{p: p, f: f, src: sources[i], info: info, off: off}
		if mode == "mcbuild" {
			in.maps()
		} else {
			in.sched()
		}
		if len(in.edits) == 0 {
			continue
		}
		text := in.apply()
		name := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, module), "/", "_")+"_"+filepath.Base(paths[i]))
		if err := os.WriteFile(name, text, 0o644); err != nil {
			die(err)
		}
		replace[paths[i]] = name
	}
}

type instrumenter struct {
	p     *pkg
	f     *ast.File
	src   []byte
	info  *types.Info
	off   func(token.Pos) int
	edits []edit
	tail  string
}

func (in *instrumenter) add(from, to int, text string) {
	in.edits = append(in.edits, edit{from, to, text})
}

func (in *instrumenter) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

// use adds an import on the line of the package clause.
func (in *instrumenter) use(name string) {
	at := in.off(in.f.Name.End())
	in.add(at, at, fmt.Sprintf("; import %q", shim+name))
}

func (in *instrumenter) apply() []byte {
	sort.SliceStable(in.edits, func(i, j int) bool { return in.edits[i].from < in.edits[j].from })
	var b bytes.Buffer
	at := 0
	for _, e := range in.edits {
		if e.from < at {
			die("overlapping edits in", in.p.ImportPath)
		}
		b.Write(in.src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(in.src[at:])
	b.WriteString(in.tail)
	return b.Bytes()
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

// maps replaces the iterations over maps. Only the header of a loop is
// rewritten, so that loops may be nested.
func (in *instrumenter) maps() {
	count := 0
	ast.Inspect(in.f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			t := in.info.TypeOf(n.X)
			if t == nil {
				return true
			}
			isMap := false
			if tp, ok := t.(*types.TypeParam); ok {
				t = tp.Constraint().Underlying()
				for {
					i, ok := t.(*types.Interface)
					if !ok || i.NumEmbeddeds() != 1 {
						break
					}
					t = i.EmbeddedType(0)
					if u, ok := t.(*types.Union); ok && u.Len() == 1 {
						t = u.Term(0).Type()
					}
					t = t.Underlying()
				}
			}
			_, isMap = t.Underlying().(*types.Map)
			if !isMap {
				return true
			}
			it := fmt.Sprintf("vorderIt%d", count)
			count++
			var left, right []string
			if !blank(n.Key) {
				left, right = append(left, in.text(n.Key)), append(right, it+".Key()")
			}
			if !blank(n.Value) {
				left, right = append(left, in.text(n.Value)), append(right, it+".Val()")
			}
			assign := ""
			if len(left) > 0 {
				assign = strings.Join(left, ", ") + " " + n.Tok.String() + " " + strings.Join(right, ", ") + "; "
			}
			in.add(in.off(n.For), in.off(n.X.Pos()), "for "+it+" := vorder.New(")
			in.add(in.off(n.X.End()), in.off(n.Body.Lbrace)+1, "); "+it+".Next(); { "+assign+"{")
			in.add(in.off(n.Body.Rbrace), in.off(n.Body.Rbrace)+1, "}}")
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				return true
			}
			if pn, ok := in.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "maps" {
				switch n.Sel.Name {
				case "Keys", "Values", "All":
					in.add(in.off(n.Pos()), in.off(n.X.End()), "vorder")
					in.tail = "\nvar _ = " + id.Name + ".Clone[map[int]int]\n"
					count++
				}
			}
		}
		return true
	})
	if count > 0 {
		in.use("vorder")
		fmt.Printf("%s: %d\n", in.p.ImportPath, count)
	}
}

// sched turns function entries and synchronization operations into points.
func (in *instrumenter) sched() {
	count := 0
	wrap := func(fun ast.Expr) {
		in.add(in.off(fun.Pos()), in.off(fun.Pos()), "vsched.S(")
		in.add(in.off(fun.End()), in.off(fun.End()), ")")
		count++
	}
	inSelect, commaOk := map[ast.Node]bool{}, map[ast.Node]bool{}
	ast.Inspect(in.f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CommClause: // left alone
			if n.Comm != nil {
				ast.Inspect(n.Comm, func(c ast.Node) bool {
					if c != nil {
						inSelect[c] = true
					}
					return true
				})
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				commaOk[ast.Unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				commaOk[ast.Unparen(n.Values[0])] = true
			}
		case *ast.SendStmt:
			if !inSelect[n] {
				in.add(in.off(n.Chan.Pos()), in.off(n.Chan.Pos()), "vsched.Send(")
				in.add(in.off(n.Chan.End()), in.off(n.Value.Pos()), ", ")
				in.add(in.off(n.Value.End()), in.off(n.Value.End()), ")")
				count++
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inSelect[n] {
				name := "vsched.Recv("
				if commaOk[n] {
					name = "vsched.Recv2("
				}
				in.add(in.off(n.Pos()), in.off(n.X.Pos()), name)
				in.add(in.off(n.X.End()), in.off(n.X.End()), ")")
				count++
			}
		case *ast.FuncDecl:
			if n.Body != nil {
				at := in.off(n.Body.Lbrace) + 1
				in.add(at, at, " vsched.F(); ")
				count++
			}
		case *ast.CallExpr:
			fun := n.Fun
			if ix, ok := fun.(*ast.IndexExpr); ok {
				fun = ix.X
			}
			sel, ok := fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			f, ok := in.info.Uses[sel.Sel].(*types.Func)
			if !ok || f.Pkg() == nil {
				return true
			}
			path := f.Pkg().Path()
			if path != "sync" && path != "sync/atomic" {
				return true
			}
			recv := f.Type().(*types.Signature).Recv()
			if recv == nil {
				switch f.Name() {
				case "OnceFunc", "OnceValue", "OnceValues":
					in.add(in.off(sel.Pos()), in.off(sel.X.End()), "vsched")
					in.tail += "\nvar _ " + in.text(sel.X) + ".Mutex\n"
					count++
				default:
					wrap(n.Fun)
				}
				return true
			}
			t := recv.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			owner := ""
			if named, ok := t.(*types.Named); ok {
				owner = named.Obj().Name()
			}
			switch {
			case (owner == "Mutex" || owner == "RWMutex") && (f.Name() == "Lock" || f.Name() == "RLock"):
				in.add(in.off(sel.Pos()), in.off(sel.Pos()), "vsched.Lock(")
				in.add(in.off(sel.Sel.Pos()), in.off(sel.Sel.End()), "Try"+f.Name()+")")
				count++
			case owner == "Once" && f.Name() == "Do":
				text := "vsched.Once("
				if _, ok := in.info.TypeOf(sel.X).(*types.Pointer); !ok {
					text += "&"
				}
				at := in.info.TypeOf(sel.X)
				if p, ok := at.(*types.Pointer); ok {
					at = p.Elem()
				}
				field := ""
				if named, ok := at.(*types.Named); !ok || named.Obj().Pkg() == nil || named.Obj().Pkg().Path() != "sync" {
					field, text = ".Once", "vsched.Once(&" // embedded
				}
				in.add(in.off(sel.Pos()), in.off(sel.Pos()), text)
				in.add(in.off(sel.X.End()), in.off(sel.Sel.End()), field+")")
				count++
			default:
				wrap(n.Fun)
			}
		}
		return true
	})
	if count > 0 {
		in.use("vsched")
	}
}
