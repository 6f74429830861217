package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// bodyPkgs names the standard packages whose function bodies are executed from source.
// Functions of every other standard package are external: they need a model.
var bodyPkgs = map[string]bool{
	"slices": true, "maps": true, "cmp": true, "sort": true, "iter": true, "errors": true,
	"path": true, "path/filepath": true, "internal/filepathlite": true, "unicode/utf8": true, "strings": true,
	"strconv": true, "bytes": true, "math/bits": true, "internal/stringslite": true,
	"container/list": true, "internal/itoa": true, "html": true, "internal/strconv": true,
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	ImportMap  map[string]string
	Standard   bool
	Error      *struct{ Err string }
}

type Program struct {
	prog   *ssa.Program
	fset   *token.FileSet
	pkgs   map[string]*types.Package
	main   *ssa.Package // the package holding the harnesses
	repo   map[*types.Package]bool
	sizes  types.Sizes
	initOK map[*types.Package]bool
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOWORK", "CGO_ENABLED", "GOCACHE", "GOMODCACHE", "GOTOOLCHAIN", "GOENV":
		default:
			env = append(env, kv)
		}
	}
	return append(env, "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0",
		"GOCACHE="+filepath.Join(cacheDir, "gocache"), "GOMODCACHE=/opt/vp/cache/gomod", "GOTOOLCHAIN=local", "GOENV=off")
}

// load type-checks pattern and everything it imports from source and builds SSA.
func load(srcdir, overlay, pattern, mainpath string) (*Program, error) {
	cmd := exec.Command("go", "list", "-deps", "-json=ImportPath,Dir,Name,GoFiles,ImportMap,Standard,Error", "-overlay", overlay, pattern)
	cmd.Dir = srcdir
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	var ov struct{ Replace map[string]string }
	ovb, err := os.ReadFile(overlay)
	if err != nil {
		return nil, err
	}
	if err := json.Unmarshal(ovb, &ov); err != nil {
		return nil, err
	}
	var list []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		list = append(list, p)
	}
	fset := token.NewFileSet()
	files := make([][]*ast.File, len(list))
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	errs := make([]error, len(list))
	for i, p := range list {
		files[i] = make([]*ast.File, len(p.GoFiles))
		for j, f := range p.GoFiles {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				name := f
				if !filepath.IsAbs(name) {
					name = filepath.Join(p.Dir, f)
				}
				real := name
				if r, ok := ov.Replace[name]; ok {
					real = r
				}
				src, err := os.ReadFile(real)
				if err == nil {
					files[i][j], err = parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
				}
				if err != nil {
					errs[i] = err
				}
			}()
		}
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	P := &Program{fset: fset, pkgs: map[string]*types.Package{"unsafe": types.Unsafe}, repo: map[*types.Package]bool{}, sizes: types.SizesFor("gc", "amd64"), initOK: map[*types.Package]bool{}}
	P.prog = ssa.NewProgram(fset, ssa.InstantiateGenerics)
	P.prog.CreatePackage(types.Unsafe, nil, nil, true)
	for i, p := range list {
		if p.ImportPath == "unsafe" {
			continue
		}
		inrepo := !p.Standard && strings.HasPrefix(p.Dir, srcdir)
		body := inrepo || (p.Standard && bodyPkgs[p.ImportPath])
		var terr error
		conf := types.Config{
			Importer:         impFunc(func(path string) (*types.Package, error) { return P.imp(p, path) }),
			IgnoreFuncBodies: !body,
			FakeImportC:      true,
			Sizes:            P.sizes,
			GoVersion:        "go1.27",
			Error: func(err error) {
				if terr == nil && body {
					terr = err
				}
			},
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
		}
		if !body {
			info = nil
		}
		tp, _ := conf.Check(p.ImportPath, fset, files[i], info)
		if terr != nil {
			return nil, fmt.Errorf("type check %s: %v", p.ImportPath, terr)
		}
		P.pkgs[p.ImportPath] = tp
		if body {
			P.prog.CreatePackage(tp, files[i], info, true)
			P.initOK[tp] = true
		} else {
			P.prog.CreatePackage(tp, nil, nil, true)
		}
		if inrepo {
			P.repo[tp] = true
		}
		if p.ImportPath == mainpath {
			P.main = P.prog.ImportedPackage(mainpath)
		}
	}
	P.prog.Build()
	if P.main == nil {
		return nil, fmt.Errorf("package %s not found", mainpath)
	}
	return P, nil
}

type impFunc func(path string) (*types.Package, error)

func (f impFunc) Import(path string) (*types.Package, error) { return f(path) }

func (P *Program) imp(p *listPkg, path string) (*types.Package, error) {
	if m, ok := p.ImportMap[path]; ok {
		path = m
	}
	if tp := P.pkgs[path]; tp != nil {
		return tp, nil
	}
	return nil, fmt.Errorf("import %q not loaded", path)
}
