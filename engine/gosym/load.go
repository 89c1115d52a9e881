//go:build go1.23

// Package gosym executes ordinary Go functions symbolically: it loads the repository's current source, builds
// its SSA form and runs it with terms for inputs.
package gosym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/engine/xt/go/gcexportdata"
	"verif/engine/xt/go/ssa"
)

// Prog is the loaded program: the root packages in SSA form, all others as declarations only.
type Prog struct {
	SSA  *ssa.Program
	Pkgs map[string]*ssa.Package
	Src  map[string]bool
	fset *token.FileSet
}

type listPkg struct {
	ImportPath, Dir, Export string
	GoFiles, Imports        []string
	ImportMap               map[string]string
	Standard                bool
	Error                   *struct{ Err string }
}

// Load type-checks the packages in roots from source (against export data for everything else).
func Load(engineDir, modfile, tags string, roots ...string) (*Prog, error) {
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Imports,ImportMap,Standard,Error"}
	if modfile != "" {
		args = append(args, "-modfile", modfile)
	}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	cmd := exec.Command("go", append(args, roots...)...)
	cmd.Dir = engineDir
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	isRoot := map[string]bool{}
	for _, r := range roots {
		isRoot[r] = true
	}
	fset := token.NewFileSet()
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	p := &Prog{SSA: prog, Pkgs: map[string]*ssa.Package{}, Src: isRoot, fset: fset}
	tpkgs := map[string]*types.Package{"unsafe": types.Unsafe}
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	var order []*listPkg
	for dec.More() {
		l := &listPkg{}
		if err := dec.Decode(l); err != nil {
			return nil, err
		}
		if l.Error != nil {
			return nil, fmt.Errorf("%s: %s", l.ImportPath, l.Error.Err)
		}
		exports[l.ImportPath] = l.Export
		order = append(order, l)
	}
	var load func(path string) (*types.Package, error)
	load = func(path string) (*types.Package, error) {
		if q := tpkgs[path]; q != nil && (q.Complete() || isRoot[path]) {
			return q, nil
		}
		f, err := os.Open(exports[path])
		if err != nil {
			return nil, fmt.Errorf("no export data for %s: %v", path, err)
		}
		defer f.Close()
		r, err := gcexportdata.NewReader(f)
		if err != nil {
			return nil, err
		}
		return gcexportdata.Read(r, fset, tpkgs, path)
	}
	for _, l := range order { // dependencies come first
		if !isRoot[l.ImportPath] {
			continue
		}
		var files []*ast.File
		for _, g := range l.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(l.Dir, g), nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		conf := types.Config{Sizes: types.SizesFor("gc", "amd64"), Importer: importerFunc(func(path string) (*types.Package, error) {
			if m, ok := l.ImportMap[path]; ok {
				path = m
			}
			return load(path)
		})}
		// an imported package may already have been created from another package's export data as an incomplete
		// shell; source packages are checked in dependency order, so this one is new unless such a shell exists.
		tp := types.NewPackage(l.ImportPath, "")
		if q := tpkgs[l.ImportPath]; q != nil {
			return nil, fmt.Errorf("package %s was reached through export data before its source: add its importers to the roots", l.ImportPath)
		}
		tp.SetName(files[0].Name.Name)
		tpkgs[l.ImportPath] = tp
		if err := types.NewChecker(&conf, fset, tp, info).Files(files); err != nil {
			return nil, fmt.Errorf("type-checking %s: %v", l.ImportPath, err)
		}
		for _, im := range tp.Imports() {
			p.create(im, exports)
		}
		p.Pkgs[l.ImportPath] = prog.CreatePackage(tp, files, info, true)
	}
	for _, tp := range tpkgs {
		{
			p.create(tp, exports)
		}
	}
	for r := range isRoot {
		if p.Pkgs[r] == nil {
			return nil, fmt.Errorf("package %s not found", r)
		}
		p.Pkgs[r].Build()
	}
	return p, nil
}

func (p *Prog) create(tp *types.Package, exports map[string]string) {
	if p.SSA.Package(tp) == nil {
		p.SSA.CreatePackage(tp, nil, nil, true)
	}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// Func finds a package-level function "path.Name" or method "path.Type.Name" / "path.*Type.Name".
func (p *Prog) Func(pkg, name string) (*ssa.Function, error) {
	q := p.Pkgs[pkg]
	if q == nil {
		return nil, fmt.Errorf("package %s is not loaded", pkg)
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn := strings.TrimPrefix(name[:i], "*")
		o, _ := q.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if o == nil {
			return nil, fmt.Errorf("no type %s in %s", tn, pkg)
		}
		var t types.Type = o.Type()
		if name[0] == '*' {
			t = types.NewPointer(t)
		}
		sel := p.SSA.MethodSets.MethodSet(t).Lookup(q.Pkg, name[i+1:])
		if sel == nil {
			return nil, fmt.Errorf("no method %s in %s", name, pkg)
		}
		return p.SSA.MethodValue(sel), nil
	}
	f := q.Func(name)
	if f == nil {
		return nil, fmt.Errorf("no function %s in %s", name, pkg)
	}
	return f, nil
}

// Type finds the named type.
func (p *Prog) Type(pkg, name string) types.Type {
	if q := p.Pkgs[pkg]; q != nil {
		if o := q.Pkg.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == pkg {
			if o := q.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}
