package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Instrumentation turns a copy of the module under test into one whose scheduling, clocks, randomness and map orders are
// decided by the simulator. It is textual, so line numbers stay as they are.

const simPath = "github.com/amarin/query/zz_verif/"

// Variant selects what is rewritten.
type Variant struct {
	Name   string
	Yields bool
	Shims  []string // import paths replaced
	Maps   bool
	Gos    bool
}

var shimOf = map[string]string{
	"sync": "simsync", "time": "simtime", "math/rand": "simrand", "math/rand/v2": "simrand2", "crypto/rand": "simcrand", "fmt": "simfmt",
}

var variants = []Variant{
	{"full", true, []string{"sync", "time", "math/rand", "math/rand/v2", "crypto/rand", "fmt"}, true, true},
	{"without the clock and randomness seams", true, []string{"sync", "fmt"}, true, true},
	{"without the formatting seam", true, []string{"sync"}, true, true},
	{"without the map order seam", true, []string{"sync"}, false, true},
	{"calls only (no switching inside calls)", false, nil, false, false},
}

// Site is one yield point.
type Site struct {
	File string
	Line int
	Func string
}

type edit struct {
	at, end int
	text    string
	seq     int
}

type fileEdits struct {
	src   []byte
	edits []edit
}

func (f *fileEdits) insert(at int, text string) {
	f.edits = append(f.edits, edit{at, at, text, len(f.edits)})
}
func (f *fileEdits) replace(at, end int, text string) {
	f.edits = append(f.edits, edit{at, end, text, len(f.edits)})
}

func (f *fileEdits) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool { return f.edits[i].at < f.edits[j].at })
	var out []byte
	pos := 0
	for _, e := range f.edits {
		if e.at < pos {
			continue // inside a replaced range
		}
		out = append(out, f.src[pos:e.at]...)
		out = append(out, e.text...)
		pos = e.end
	}
	return append(out, f.src[pos:]...)
}

type fakeImporter struct {
	real types.Importer
	m    map[string]*types.Package
}

func (i fakeImporter) Import(path string) (*types.Package, error) {
	if p, ok := i.m[path]; ok {
		return p, nil
	}
	name := path[strings.LastIndexByte(path, '/')+1:]
	p := types.NewPackage(path, name)
	p.MarkComplete()
	i.m[path] = p
	return p, nil
}

var _ = importer.Default

// goFiles lists the non-test Go files of the module, by directory.
func goFiles(root string) (map[string][]string, error) {
	res := map[string][]string{}
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := info.Name()
		if info.IsDir() {
			if p != root && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor" || name == "zz_verif") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go") {
			rel, _ := filepath.Rel(root, p)
			res[filepath.Dir(rel)] = append(res[filepath.Dir(rel)], rel)
		}
		return nil
	})
	return res, err
}

// instrument writes the rewritten module into dst and returns its yield points.
func instrument(repo, dst string, v Variant) (sites []Site, notes []string, err error) {
	dirs, err := goFiles(repo)
	if err != nil {
		return nil, nil, err
	}
	next := 2
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	for _, d := range names {
		files := dirs[d]
		sort.Strings(files)
		fset := token.NewFileSet()
		var asts []*ast.File
		var srcs [][]byte
		var used []string
		for _, f := range files {
			src, err := os.ReadFile(filepath.Join(repo, f))
			if err != nil {
				return nil, nil, err
			}
			a, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				return nil, nil, err
			}
			asts, srcs, used = append(asts, a), append(srcs, src), append(used, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		if v.Maps {
			conf := types.Config{Importer: fakeImporter{m: map[string]*types.Package{}}, Error: func(error) {}, FakeImportC: true}
			_, _ = conf.Check("p", fset, asts, info)
		}
		for i, a := range asts {
			ed := &fileEdits{src: srcs[i]}
			if a.Name.Name != "main" {
				s, n := rewrite(fset, a, ed, info, v, &next, used[i])
				sites, notes = append(sites, s...), append(notes, n...)
			}
			out := filepath.Join(dst, used[i])
			if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
				return nil, nil, err
			}
			if err := os.WriteFile(out, ed.apply(), 0o644); err != nil {
				return nil, nil, err
			}
		}
	}
	return sites, notes, nil
}

func rewrite(fset *token.FileSet, a *ast.File, ed *fileEdits, info *types.Info, v Variant, next *int, file string) (sites []Site, notes []string) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(ed.src[off(n.Pos()):off(n.End())]) }
	for _, imp := range a.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		for _, s := range v.Shims {
			if s != path {
				continue
			}
			name := ""
			if imp.Name == nil {
				name = path[strings.LastIndexByte(path, '/')+1:] + " "
				if path == "math/rand/v2" {
					name = "rand "
				}
			}
			ed.replace(off(imp.Path.Pos()), off(imp.Path.End()), name+strconv.Quote(simPath+shimOf[path]))
		}
	}
	if !v.Yields {
		return nil, nil
	}
	ed.insert(off(a.Name.End()), "; import zzsim \""+simPath+"simrt\"")
	ed.insert(len(ed.src), "\nvar _ = zzsim.Y\n")
	fn := ""
	yield := func(p token.Pos) string {
		n := *next
		*next++
		sites = append(sites, Site{file, fset.Position(p).Line, fn})
		return "zzsim.Y(" + strconv.Itoa(n) + "); "
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ed.insert(off(s.Pos()), yield(s.Pos()))
		}
	}
	skip := map[*ast.BlockStmt]bool{}
	comm, two := map[ast.Node]bool{}, map[ast.Node]bool{}
	for _, decl := range a.Decls {
		fd, ok := decl.(*ast.FuncDecl)
		if ok {
			fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				fn = strings.TrimPrefix(text(fd.Recv.List[0].Type), "*") + "." + fn
			}
		} else {
			fn = "init"
		}
		ast.Inspect(decl, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				skip[x.Body] = true
			case *ast.TypeSwitchStmt:
				skip[x.Body] = true
			case *ast.SelectStmt:
				skip[x.Body] = true
				if v.Gos {
					selectStmt(x, ed, off, text, comm)
				}
			case *ast.SendStmt:
				if v.Gos && !comm[x] {
					ed.insert(off(x.Pos()), "zzsim.Send(")
					ed.replace(off(x.Arrow), off(x.Arrow)+2, ")(")
					ed.insert(off(x.End()), ")")
				}
			case *ast.AssignStmt:
				if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
					two[ast.Unparen(x.Rhs[0])] = true
				}
			case *ast.ValueSpec:
				if len(x.Names) == 2 && len(x.Values) == 1 {
					two[ast.Unparen(x.Values[0])] = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW && v.Gos && !comm[x] {
					f := "zzsim.Recv("
					if two[x] {
						f = "zzsim.Recv2("
					}
					ed.replace(off(x.OpPos), off(x.OpPos)+2, f)
					ed.insert(off(x.End()), ")")
				}
			case *ast.CallExpr:
				id, ok := x.Fun.(*ast.Ident)
				if !ok || !v.Gos || id.Obj != nil || len(x.Args) == 0 {
					break
				}
				if _, isChan := x.Args[0].(*ast.ChanType); id.Name == "make" && isChan {
					if len(x.Args) == 1 {
						ed.insert(off(x.Args[0].End()), ", zzsim.Unbuffered")
					} else {
						ed.insert(off(x.Args[1].Pos()), "zzsim.Cap(")
						ed.insert(off(x.Args[1].End()), ")")
					}
				}
				if id.Name == "close" && len(x.Args) == 1 {
					ed.replace(off(id.Pos()), off(id.End()), "zzsim.Close")
				}
			case *ast.BlockStmt:
				if !skip[x] {
					list(x.List)
				}
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.ForStmt:
				if len(x.Body.List) == 0 {
					ed.insert(off(x.Body.Lbrace)+1, yield(x.Body.Lbrace))
				}
			case *ast.RangeStmt:
				tv, ok := info.Types[x.X]
				if !ok || tv.Type == nil || !v.Maps {
					break
				}
				if _, isChan := tv.Type.Underlying().(*types.Chan); isChan && v.Gos && x.Tok != token.ASSIGN {
					key, ok := "_", fmt.Sprintf("zzok%d", off(x.Pos()))
					if x.Key != nil {
						key = text(x.Key)
					}
					get := key + ", " + ok
					ed.replace(off(x.For), off(x.Body.Lbrace), "for "+get+" := zzsim.Recv2("+text(x.X)+"); "+ok+"; "+get+" = zzsim.Recv2("+text(x.X)+") ")
					break
				}
				if x.Key == nil {
					break
				}
				if _, isMap := tv.Type.Underlying().(*types.Map); !isMap {
					break
				}
				it := fmt.Sprintf("zzit%d", off(x.Pos()))
				var lhs, rhs []string
				for k, e := range []ast.Expr{x.Key, x.Value} {
					if e == nil || text(e) == "_" {
						continue
					}
					lhs = append(lhs, text(e))
					rhs = append(rhs, it+[]string{".K()", ".V()"}[k])
				}
				ed.replace(off(x.For), off(x.Body.Lbrace), "for "+it+" := zzsim.Iter("+text(x.X)+"); "+it+".Next(); ")
				if len(lhs) > 0 {
					ed.insert(off(x.Body.Lbrace)+1, " "+strings.Join(lhs, ", ")+" "+x.Tok.String()+" "+strings.Join(rhs, ", ")+"; ")
				}
			case *ast.GoStmt:
				if !v.Gos {
					break
				}
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
					ed.replace(off(x.Go), off(fl.Pos()), "zzsim.Spawn(")
					ed.replace(off(fl.End()), off(x.End()), ")")
				} else if len(x.Call.Args) > 0 && x.Call.Ellipsis == token.NoPos {
					var ns, as []string
					for k, arg := range x.Call.Args {
						ns = append(ns, fmt.Sprintf("zza%d", k))
						as = append(as, text(arg))
					}
					ed.replace(off(x.Go), off(x.End()), "{ "+strings.Join(ns, ", ")+" := "+strings.Join(as, ", ")+"; zzsim.Spawn(func() { "+text(x.Call.Fun)+"("+strings.Join(ns, ", ")+") }) }")
					return false
				} else {
					ed.replace(off(x.Go), off(x.End()), "zzsim.Spawn(func() { "+text(x.Call)+" })")
					return false
				}
			}
			return true
		})
	}
	return sites, notes
}

// selectStmt makes a select statement try its cases in order and wait for others in the simulator.
func selectStmt(x *ast.SelectStmt, ed *fileEdits, off func(token.Pos) int, text func(ast.Node) string, comm map[ast.Node]bool) {
	label := fmt.Sprintf("zzl%d", off(x.Pos()))
	open, wait := 0, true
	for i, c := range x.Body.List {
		cl := c.(*ast.CommClause)
		if cl.Comm == nil {
			wait = false
			if i+1 < len(x.Body.List) {
				return // a default clause in the middle
			}
		}
	}
	for i, c := range x.Body.List {
		cl := c.(*ast.CommClause)
		if cl.Comm == nil {
			break
		}
		if i > 0 {
			ed.insert(off(cl.Pos()), "default: select { ")
			open++
		}
		did := " zzsim.ChanDid(); "
		var recv ast.Expr
		switch y := cl.Comm.(type) {
		case *ast.SendStmt:
			comm[y] = true
		case *ast.ExprStmt:
			recv = y.X
		case *ast.AssignStmt:
			recv = y.Rhs[0]
		}
		if u, ok := recv.(*ast.UnaryExpr); ok {
			comm[u] = true
			switch u.X.(type) {
			case *ast.Ident, *ast.SelectorExpr:
				did = " zzsim.ChanTook(" + text(u.X) + "); "
			}
		}
		ed.insert(off(cl.Colon)+1, did)
	}
	end := off(x.Body.Rbrace)
	if wait {
		ed.insert(off(x.Pos()), label+": ")
		ed.insert(end, "default: zzsim.ChanWait(); goto "+label)
	}
	ed.insert(end, strings.Repeat("}", open))
}
