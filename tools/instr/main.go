// Command instr rewrites the packages under test so that every source of
// nondeterminism (goroutines, locks, channels, clocks, files, network, raft,
// map order) goes through the controlled scheduler of /verif/vsim. The
// rewritten copies are only reachable through a build overlay; the repository
// is not modified.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/strangelove-ventures/horcrux"
const vs = mod + "/vsim/"

type tgt struct{ pkg, name string }

func names(pkg string, ns ...string) map[string]tgt {
	m := map[string]tgt{}
	for _, n := range ns {
		a, b := n, n
		if i := strings.Index(n, ">"); i > 0 {
			a, b = n[:i], n[i+1:]
		}
		m[a] = tgt{vs + pkg, b}
	}
	return m
}

var table = map[string]map[string]tgt{
	"sync": names("vsync", "Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Map", "Locker", "OnceFunc", "OnceValue"),
	"github.com/tendermint/tendermint/libs/sync": names("vsync", "Mutex", "RWMutex"),
	"time":      names("vtime", "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Timer", "Ticker"),
	"context":   names("vcontext", "WithCancel", "WithTimeout", "WithDeadline"),
	"os":        names("vos", "OpenFile", "Open", "Create", "CreateTemp", "MkdirTemp", "Rename", "Remove", "RemoveAll", "ReadFile", "WriteFile", "Stat", "Lstat", "Mkdir", "MkdirAll", "ReadDir", "Chmod", "Truncate", "Link", "File", "Exit"),
	"io/ioutil": names("vos", "ReadFile", "WriteFile", "TempFile", "TempDir"),
	"net":       names("vnet", "Listen", "Dialer", "Dial", "DialTimeout"),
	"github.com/tendermint/tendermint/p2p/conn":          names("vnet", "MakeSecretConnection"),
	"google.golang.org/grpc":                             names("vgrpc", "Dial", "DialContext", "NewClient", "NewServer", "Server", "ClientConn"),
	"google.golang.org/grpc/reflection":                  names("vgrpc", "Register"),
	"github.com/Jille/raft-grpc-leader-rpc/leaderhealth": names("vgrpc", "Setup>Register"),
	"github.com/Jille/raftadmin":                         names("vgrpc", "Register"),
	"github.com/Jille/raft-grpc-transport":               names("vraft", "New>NewTransport", "Manager"),
	"github.com/hashicorp/raft":                          names("vraft", "NewRaft", "Raft", "NewFileSnapshotStore"),
	"github.com/hashicorp/raft-boltdb":                   names("vraft", "NewBoltStore>NewStore", "BoltStore>Store"),
	"crypto/rsa":                                         names("vrsa", "EncryptOAEP", "DecryptOAEP", "SignPSS", "VerifyPSS", "GenerateKey"),
	"crypto/rand":                                        names("vrand", "Read", "Reader", "Int"),
	"runtime":                                            names("vsched", "Gosched>Yield"),
	"os/signal":                                          names("vos", "Notify", "Stop>StopNotify", "NotifyContext", "Ignore>IgnoreSignal"),
	"os/exec":                                            names("vos", "Command", "CommandContext", "Cmd", "LookPath"),
	"log":                                                names("vos", "Fatal", "Fatalf", "Fatalln"),
	"github.com/tendermint/tendermint/libs/os":           names("vos", "TrapSignal", "FileExists", "EnsureDir", "Exit>ExitMsg"),
	"github.com/tendermint/tendermint/libs/tempfile":     names("tempfile", "WriteFileAtomic"),
}

// progTable are the additional names of the commands.
var progTable = map[string]map[string]tgt{
	"github.com/tendermint/tendermint/privval": names("privval", "LoadFilePV", "LoadFilePVEmptyState", "FilePV", "NewFilePV", "GenFilePV", "LoadOrGenFilePV"),
}

// outside are functions whose effects would not be those on the simulated
// world ("*": all that have no other name); a command with one of them is
// explored only as a binary.
var outside = map[string]string{
	"os":                    " Symlink Readlink Chown Lchown Chtimes StartProcess FindProcess Chdir NewFile Pipe CopyFS DirFS OpenRoot OpenInRoot ",
	"syscall":               "*",
	"golang.org/x/sys/unix": "*",
	"net/http":              "*",
	"io/ioutil":             " ReadDir ",
	"path/filepath":         " Walk WalkDir Glob EvalSymlinks ",
	"github.com/tendermint/tendermint/libs/os": "*",
	"github.com/tendermint/tendermint/privval": "*",
}

var notProgram string // why the commands are not explored

type pkgInfo struct {
	ImportPath string
	Export     string
	Dir        string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
}

var exports = map[string]string{}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	vsim := flag.String("vsim", "/verif/vsim", "")
	flag.Parse()
	roots := []string{"./signer", "./cmd/horcrux/cmd"}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Standard,Module"}, roots...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var pk []pkgInfo
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		pk = append(pk, p)
	}
	os.MkdirAll(filepath.Join(*out, "src"), 0755)
	overlay := map[string]string{}
	program := map[string]string{} // the commands, only used by the explorer of the whole program
	imp := importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range pk {
		own := p.Module != nil && p.Module.Path == mod && !strings.HasSuffix(p.ImportPath, "/proto")
		tmp := p.ImportPath == "github.com/tendermint/tendermint/libs/tempfile"
		fpv := p.ImportPath == "github.com/tendermint/tendermint/privval"
		if !own && !tmp && !fpv {
			continue
		}
		dst := p.Dir
		if tmp || fpv {
			dst = filepath.Join(*repo, "vsim", filepath.Base(p.ImportPath))
		}
		isCmd := own && strings.Contains(p.ImportPath, "/cmd/")
		if own {
			f := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_")+"__vsim_globals.go")
			os.WriteFile(f, globals(p), 0644)
			if isCmd {
				program[filepath.Join(dst, "vsim_globals.go")] = f
			} else {
				overlay[filepath.Join(dst, "vsim_globals.go")] = f
			}
		}
		for name, src := range rewrite(p, imp, own || fpv) {
			if fpv && name != "file.go" {
				continue
			}
			f := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_")+"__"+name)
			if err := os.WriteFile(f, src, 0644); err != nil {
				die("%v", err)
			}
			if isCmd {
				program[filepath.Join(dst, name)] = f
				continue
			}
			overlay[filepath.Join(dst, name)] = f
		}
	}
	filepath.Walk(*vsim, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*vsim, p)
			overlay[filepath.Join(*repo, "vsim", rel)] = p
		}
		return nil
	})
	ob, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0644)
	for k, v := range program {
		overlay[k] = v
	}
	ob, _ = json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if notProgram == "" {
		os.WriteFile(filepath.Join(*out, "program.json"), ob, 0644)
	} else {
		fmt.Fprintln(os.Stderr, "instr: the commands use", notProgram)
	}
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gm = regexp.MustCompile(`(?m)^go 1\.1[0-7]\s*$`).ReplaceAll(gm, []byte("go 1.20"))
	os.WriteFile(filepath.Join(*out, "go.mod"), gm, 0644)
	gs, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	os.WriteFile(filepath.Join(*out, "go.sum"), gs, 0644)
}

// globals is a file of package p that gives access to all its variables: they
// are those of one process, and the explorer runs many.
func globals(p pkgInfo) []byte {
	var b bytes.Buffer
	fset := token.NewFileSet()
	for _, g := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), nil, parser.SkipObjectResolution)
		if err != nil {
			die("parse: %v", err)
		}
		if b.Len() == 0 {
			fmt.Fprintf(&b, "package %s\n\n// VsimGlobals are pointers to all variables of the package.\nvar VsimGlobals = []interface{}{", f.Name.Name)
		}
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, sp := range gd.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							fmt.Fprintf(&b, "&%s, ", n.Name)
						}
					}
				}
			}
		}
	}
	b.WriteString("}\n")
	return b.Bytes()
}

type rw struct {
	info  *types.Info
	used  map[string]bool // virtual packages used in this file
	keep  map[string]bool // import names still used
	recv2 map[ast.Expr]bool
	mapW  map[*ast.IndexExpr]bool // assigned entries
	yield bool
	prog  bool // a file of the commands
	n     int
}

func rewrite(p pkgInfo, imp types.Importer, yield bool) map[string][]byte {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, g := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), nil, parser.SkipObjectResolution)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: imp, FakeImportC: true, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr: typecheck:", err) }}
	cfg.Check(p.ImportPath, fset, files, info)
	out := map[string][]byte{}
	for i, f := range files {
		r := &rw{info: info, used: map[string]bool{}, keep: map[string]bool{}, recv2: map[ast.Expr]bool{}, mapW: map[*ast.IndexExpr]bool{}, yield: yield, prog: strings.Contains(p.ImportPath, mod+"/cmd/")}
		for _, d := range f.Decls {
			r.children(reflect.ValueOf(d))
		}
		// imports
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.IMPORT {
				continue
			}
			for _, sp := range gd.Specs {
				is := sp.(*ast.ImportSpec)
				path, _ := strconv.Unquote(is.Path.Value)
				if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
					continue
				}
				if !r.keep[path] {
					is.Name = ast.NewIdent("_")
				}
			}
		}
		var ds []ast.Decl
		var vp []string
		for u := range r.used {
			vp = append(vp, u)
		}
		sort.Strings(vp)
		for _, u := range vp {
			ds = append(ds, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(alias(u)), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(u)}}}})
		}
		// new imports go after existing ones
		var imps, rest []ast.Decl
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				imps = append(imps, d)
			} else {
				rest = append(rest, d)
			}
		}
		f.Decls = append(append(imps, ds...), rest...)
		var buf bytes.Buffer
		if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&buf, fset, f); err != nil {
			die("print: %v", err)
		}
		out[p.GoFiles[i]] = buf.Bytes()
	}
	return out
}

func alias(path string) string { return "vsim_" + path[strings.LastIndex(path, "/")+1:] }

func (r *rw) v(pkg, name string) ast.Expr {
	r.used[vs+pkg] = true
	return &ast.SelectorExpr{X: ast.NewIdent(alias(vs + pkg)), Sel: ast.NewIdent(name)}
}

func (r *rw) call(pkg, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.v(pkg, name), Args: args}
}

func (r *rw) fresh(p string) string { r.n++; return fmt.Sprintf("vsim_%s%d", p, r.n) }

var (
	exprT  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT  = reflect.TypeOf((*ast.Node)(nil)).Elem()
	objT   = reflect.TypeOf((*ast.Object)(nil))
	scopeT = reflect.TypeOf((*ast.Scope)(nil))
)

// children rewrites everything below a node in place.
func (r *rw) children(v reflect.Value) {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	if v.CanAddr() {
		switch n := v.Addr().Interface().(type) {
		case *ast.ImportSpec:
			return
		case *ast.IncDecStmt:
			r.written(n.X)
		case *ast.AssignStmt:
			for _, e := range n.Lhs {
				r.written(e)
			}
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recv2[u] = true
				}
			}
		}
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		ft := f.Type()
		switch {
		case ft == objT || ft == scopeT:
		case ft == exprT:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
			}
		case ft == stmtT:
			if !f.IsNil() {
				ss := r.stmt(f.Interface().(ast.Stmt))
				if len(ss) == 1 {
					f.Set(reflect.ValueOf(ss[0]))
				} else {
					f.Set(reflect.ValueOf(ast.Stmt(&ast.BlockStmt{List: ss})))
				}
			}
		case ft.Kind() == reflect.Slice && ft.Elem() == exprT:
			for j := 0; j < f.Len(); j++ {
				if e := f.Index(j); !e.IsNil() {
					e.Set(reflect.ValueOf(r.expr(e.Interface().(ast.Expr))))
				}
			}
		case ft.Kind() == reflect.Slice && ft.Elem() == stmtT:
			f.Set(reflect.ValueOf(r.list(f.Interface().([]ast.Stmt), true)))
		case ft.Kind() == reflect.Slice && ft.Elem().Implements(nodeT):
			for j := 0; j < f.Len(); j++ {
				r.children(f.Index(j))
			}
		case ft.Kind() == reflect.Ptr && ft.Implements(nodeT):
			if !f.IsNil() {
				if id, ok := f.Interface().(*ast.Ident); ok {
					r.note(id)
				} else if ce, ok := f.Interface().(*ast.CallExpr); ok {
					if ne, ok := r.expr(ce).(*ast.CallExpr); ok {
						f.Set(reflect.ValueOf(ne))
					}
				} else if bs, ok := f.Interface().(*ast.BlockStmt); ok {
					loop := false
					if v.CanAddr() {
						switch v.Addr().Interface().(type) {
						case *ast.ForStmt, *ast.RangeStmt:
							loop = true
						case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
							for _, c := range bs.List {
								r.children(reflect.ValueOf(c))
							}
							continue
						}
					}
					bs.List = r.list(bs.List, true)
					if loop && len(bs.List) == 0 {
						bs.List = []ast.Stmt{&ast.ExprStmt{X: r.call("vsched", "Y")}}
					}
				} else {
					r.children(f)
				}
			}
		case ft.Kind() == reflect.Interface && ft.Implements(nodeT):
			r.children(f)
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) note(id *ast.Ident) {
	if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
		r.keep[pn.Imported().Path()] = true
	}
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

// written notes that an entry of a map is assigned.
func (r *rw) written(e ast.Expr) {
	if i, ok := unparen(e).(*ast.IndexExpr); ok {
		r.mapW[i] = true
	}
}

func (r *rw) isMap(e ast.Expr) bool {
	t := r.info.Types[e]
	if t.Type == nil || !t.IsValue() {
		return false
	}
	_, ok := t.Type.Underlying().(*types.Map)
	return ok
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		r.note(x)
		return x
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				t, ok := table[pn.Imported().Path()][x.Sel.Name]
				if !ok && r.prog {
					t, ok = progTable[pn.Imported().Path()][x.Sel.Name]
				}
				if ok {
					r.used[t.pkg] = true
					return &ast.SelectorExpr{X: &ast.Ident{Name: alias(t.pkg), NamePos: id.NamePos}, Sel: ast.NewIdent(t.name)}
				}
				r.keep[pn.Imported().Path()] = true
				if _, isf := r.info.Uses[x.Sel].(*types.Func); isf && r.prog {
					if l := outside[pn.Imported().Path()]; l == "*" || strings.Contains(l, " "+x.Sel.Name+" ") {
						notProgram = pn.Imported().Path() + "." + x.Sel.Name
					}
				}
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		two := r.recv2[x]
		r.children(reflect.ValueOf(x))
		if x.Op == token.ARROW {
			if two {
				return r.call("vsched", "Recv2", x.X)
			}
			return r.call("vsched", "Recv", x.X)
		}
		return x
	case *ast.IndexExpr:
		m := r.yield && r.isMap(x.X)
		r.children(reflect.ValueOf(x))
		if m && r.mapW[x] {
			x.X = r.call("vsched", "MapW", x.X)
		} else if m {
			x.X = r.call("vsched", "MapR", x.X)
		}
		return x
	case *ast.CallExpr:
		isClose := r.isBuiltin(x.Fun, "close")
		if r.yield && r.isBuiltin(x.Fun, "delete") && len(x.Args) == 2 {
			r.children(reflect.ValueOf(x))
			x.Args[0] = r.call("vsched", "MapW", x.Args[0])
			return x
		}
		r.children(reflect.ValueOf(x))
		if isClose {
			return r.call("vsched", "Close", x.Args[0])
		}
		return x
	}
	r.children(reflect.ValueOf(e))
	return e
}

func (r *rw) list(in []ast.Stmt, yields bool) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if _, ok := s.(*ast.CaseClause); ok {
			r.children(reflect.ValueOf(s))
			out = append(out, s)
			continue
		}
		if r.yield && yields {
			switch d := s.(type) {
			case *ast.EmptyStmt, *ast.DeclStmt:
			case *ast.BranchStmt:
				if d.Tok != token.FALLTHROUGH {
					out = append(out, &ast.ExprStmt{X: r.call("vsched", "Y")})
				}
			default:
				out = append(out, &ast.ExprStmt{X: r.call("vsched", "Y")})
			}
		}
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		ss := r.stmt(x.Stmt)
		x.Stmt = ss[len(ss)-1]
		if b, ok := x.Stmt.(*ast.BlockStmt); ok && isSelectBlock(b) {
			// label the switch inside
			b.List[len(b.List)-1] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[len(b.List)-1]}
			return []ast.Stmt{b}
		}
		return append(ss[:len(ss)-1:len(ss)-1], x)
	case *ast.SendStmt:
		r.children(reflect.ValueOf(x))
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("vsched", "SendTo", x.Chan), Args: []ast.Expr{x.Value}}}}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.RangeStmt:
		return []ast.Stmt{r.rangeStmt(x)}
	case *ast.SelectStmt:
		return []ast.Stmt{r.selectStmt(x)}
	case *ast.BlockStmt:
		x.List = r.list(x.List, true)
		return []ast.Stmt{x}
	}
	r.children(reflect.ValueOf(s))
	return []ast.Stmt{s}
}

func (r *rw) goStmt(g *ast.GoStmt) []ast.Stmt {
	c := g.Call
	closure := func(call ast.Expr) ast.Stmt {
		return &ast.ExprStmt{X: r.call("vsched", "Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}})}
	}
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return []ast.Stmt{closure(r.expr(c))}
		}
	}
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.children(reflect.ValueOf(fl))
		return []ast.Stmt{&ast.ExprStmt{X: r.call("vsched", "Go", fl)}}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if _, isLit := unparen(e).(*ast.FuncLit); isLit || tv.Value != nil || tv.IsNil() || tv.IsType() {
			return r.expr(e)
		}
		n := r.fresh("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return ast.NewIdent(n)
	}
	fun := c.Fun
	if _, isLit := unparen(fun).(*ast.FuncLit); isLit {
		fun = r.expr(fun)
	} else {
		fun = bind(fun)
	}
	nc := &ast.CallExpr{Fun: fun}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	for _, a := range c.Args {
		nc.Args = append(nc.Args, bind(a))
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, closure(nc))}}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.info.Types[x.X].Type
	if t == nil {
		r.children(reflect.ValueOf(x))
		return x
	}
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch t.Underlying().(type) {
	case *types.Map:
		r.children(reflect.ValueOf(x))
		en := r.fresh("e")
		var head []ast.Stmt
		head = append(head, &ast.IfStmt{
			Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(en), Sel: ast.NewIdent("Live")}}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !isBlank(x.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(en), Sel: ast.NewIdent("K")}}})
		}
		if !isBlank(x.Value) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(en), Sel: ast.NewIdent("V")}}}})
		}
		x.Body.List = append(head, x.Body.List...)
		x.Key = ast.NewIdent("_")
		x.Value = ast.NewIdent(en)
		x.Tok = token.DEFINE
		x.X = r.call("vsched", "Entries", x.X)
		return x
	case *types.Chan:
		r.children(reflect.ValueOf(x))
		cn, vn, okn := r.fresh("c"), r.fresh("v"), r.fresh("ok")
		first := ast.Expr(ast.NewIdent("_"))
		if !isBlank(x.Key) {
			first = ast.NewIdent(vn)
		}
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{first, ast.NewIdent(okn)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("vsched", "Recv2", ast.NewIdent(cn))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okn)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if !isBlank(x.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(vn)}})
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(cn)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}},
			Body: &ast.BlockStmt{List: append(body, x.Body.List...)}}
	}
	r.children(reflect.ValueOf(x))
	return x
}

var selectBlocks = map[*ast.BlockStmt]bool{}

func isSelectBlock(b *ast.BlockStmt) bool { return selectBlocks[b] }

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.call("vsched", "Forever")}, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}}
	}
	var pre []ast.Stmt
	var clauses []ast.Stmt
	var caseNames []ast.Expr
	hasDefault := false
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{Body: r.list(cc.Body, true)})
			continue
		}
		n := r.fresh("s")
		var body []ast.Stmt
		bindRecv := func(ch ast.Expr, lhs []ast.Expr, tok token.Token) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("vsched", "RecvCase", r.expr(ch))}})
			fields := []string{"V", "OK"}
			var l, rr []ast.Expr
			for i, e := range lhs {
				if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
					continue
				}
				l = append(l, r.expr(e))
				rr = append(rr, &ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent(fields[i])})
			}
			if len(l) > 0 {
				body = append(body, &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: rr})
			}
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{
				&ast.CallExpr{Fun: r.call("vsched", "SendCaseTo", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}}}})
		case *ast.ExprStmt:
			bindRecv(unparen(cm.X).(*ast.UnaryExpr).X, nil, token.ASSIGN)
		case *ast.AssignStmt:
			bindRecv(unparen(cm.Rhs[0]).(*ast.UnaryExpr).X, cm.Lhs, cm.Tok)
		}
		caseNames = append(caseNames, ast.NewIdent(n))
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(body, r.list(cc.Body, true)...)})
		idx++
	}
	if !hasDefault {
		clauses[len(clauses)-1].(*ast.CaseClause).List = nil
	}
	args := append([]ast.Expr{ast.NewIdent(strconv.FormatBool(hasDefault))}, caseNames...)
	sw := &ast.SwitchStmt{Tag: r.call("vsched", "Select", args...), Body: &ast.BlockStmt{List: clauses}}
	b := &ast.BlockStmt{List: append(pre, sw)}
	selectBlocks[b] = true
	return b
}
