// mkoverlay rewrites selected functions of the code under test into "call the hook if one is set, else the original
// body", in copies used through go build -overlay. The copies are regenerated from the current source on every run.
//
//	mkoverlay OUTDIR DIR:Func DIR:Recv.Func ...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func main() {
	out := os.Args[1]
	repl := map[string]string{}
	bad := false
	byDir := map[string][]string{}
	var dirs []string
	imps := map[string]map[string]string{}
	for _, a := range os.Args[2:] {
		// DIR+FILE adds FILE to the package, DIR@OLD=NEW rewrites an import
		if i := strings.Index(a, "+"); i >= 0 {
			repl[filepath.Join(a[:i], "zz_"+filepath.Base(a[i+1:]))] = a[i+1:]
			continue
		}
		if i := strings.Index(a, "@"); i >= 0 {
			dir := a[:i]
			if imps[dir] == nil {
				imps[dir] = map[string]string{}
				if byDir[dir] == nil {
					dirs = append(dirs, dir)
					byDir[dir] = []string{}
				}
			}
			on := strings.SplitN(a[i+1:], "=", 2)
			imps[dir][on[0]] = on[1]
			continue
		}
		i := strings.LastIndex(a, ":")
		if byDir[a[:i]] == nil {
			dirs = append(dirs, a[:i])
		}
		byDir[a[:i]] = append(byDir[a[:i]], a[i+1:])
	}
	for di, dir := range dirs {
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		found := map[string]bool{}
		for fi, fn := range files {
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, fn, nil, parser.ParseComments)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			changed := false
			for _, im := range f.Imports {
				old := strings.Trim(im.Path.Value, "\"")
				if n, ok := imps[dir][old]; ok {
					changed = true
					if im.Name == nil {
						im.Name = ast.NewIdent(filepath.Base(old))
					}
					im.Path.Value = "\"" + n + "\""
				}
			}
			var extra []ast.Decl
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				name := fd.Name.Name
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if id, ok := t.(*ast.Ident); ok {
						name = id.Name + "." + name
					}
				}
				for _, want := range byDir[dir] {
					if want != name {
						continue
					}
					found[name] = true
					changed = true
					hook := "VerifHook" + strings.ReplaceAll(name, ".", "")
					orig := fd.Name.Name + "VerifOrig"
					var params, args []string
					n := 0
					typ := func(e ast.Expr) string {
						var b bytes.Buffer
						printer.Fprint(&b, fset, e)
						return b.String()
					}
					var recv, call string
					var ftypes []string
					if fd.Recv != nil {
						rt := typ(fd.Recv.List[0].Type)
						recv = "(verifRecv " + rt + ") "
						ftypes = append(ftypes, rt)
						args = append(args, "verifRecv")
						call = "verifRecv."
					}
					var pass []string
					for _, p := range fd.Type.Params.List {
						k := len(p.Names)
						if k == 0 {
							k = 1
						}
						for j := 0; j < k; j++ {
							v := fmt.Sprintf("verifP%d", n)
							n++
							t := typ(p.Type)
							params = append(params, v+" "+t)
							if strings.HasPrefix(t, "...") {
								ftypes = append(ftypes, "[]"+t[3:])
								args = append(args, v)
								pass = append(pass, v+"...")
							} else {
								ftypes = append(ftypes, t)
								args = append(args, v)
								pass = append(pass, v)
							}
						}
					}
					var res []string
					if fd.Type.Results != nil {
						for _, p := range fd.Type.Results.List {
							k := len(p.Names)
							if k == 0 {
								k = 1
							}
							for j := 0; j < k; j++ {
								res = append(res, typ(p.Type))
							}
						}
					}
					rs := "(" + strings.Join(res, ", ") + ")"
					ret := "return "
					if len(res) == 0 {
						ret = ""
					}
					src := "package x\nvar " + hook + " func(" + strings.Join(ftypes, ", ") + ") " + rs + "\n" +
						"func " + recv + fd.Name.Name + "(" + strings.Join(params, ", ") + ") " + rs + " {\n" +
						"if " + hook + " != nil {\n" + ret + hook + "(" + strings.Join(args, ", ") + ")\n"
					if len(res) == 0 {
						src += "return\n"
					}
					src += "}\n" + ret + call + orig + "(" + strings.Join(pass, ", ") + ")\n}\n"
					g, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
					if err != nil {
						fmt.Println(err, src)
						os.Exit(2)
					}
					_ = g
					extra = append(extra, &ast.BadDecl{})
					fd.Name.Name = orig
					extraSrc = append(extraSrc, src[len("package x\n"):])
				}
			}
			if !changed {
				continue
			}
			_ = extra
			var b bytes.Buffer
			if err := printer.Fprint(&b, fset, f); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			for _, s := range extraSrc {
				b.WriteString("\n" + s)
			}
			extraSrc = nil
			dst := filepath.Join(out, fmt.Sprintf("ov%d_%d_%s", di, fi, filepath.Base(fn)))
			if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			repl[fn] = dst
		}
		for _, w := range byDir[dir] {
			if !found[w] {
				fmt.Printf("ERROR: %s not found in %s\n", w, dir)
				bad = true
			}
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
	if bad {
		os.Exit(2)
	}
}

var extraSrc []string
