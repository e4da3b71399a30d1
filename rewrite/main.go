// Command rewrite makes the build overlay the simulator is compiled with.
//
//	rewrite REPO SIMHOOKDIR OUTDIR
//
// For every non-test Go file of REPO it writes a copy to OUTDIR in which a call simhook.Y(site)
// stands before every statement and the package sync is replaced by a cooperative version. It adds
// the package simhook itself, a table of the sites, and per package a file that registers the
// package-level variables. OUTDIR/overlay.json is the overlay for "go build -overlay". REPO is only
// read.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
	del  int
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(3)
	}
}

func main() {
	repo, hooks, out := os.Args[1], os.Args[2], os.Args[3]
	mod := ""
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	die(err)
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "module" {
			mod = strings.Trim(f[1], `"`)
			break
		}
	}
	hookPath := mod + "/simhook"
	replace := map[string]string{}
	var sites []string
	vars := map[string][]string{}  // dir -> names
	pkgName := map[string]string{} // dir -> package name
	nfile := 0
	die(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(p)
		if fi.IsDir() {
			if p != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") || strings.HasPrefix(base, "_") || strings.HasPrefix(base, ".") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		dir := filepath.Dir(p)
		if strings.Contains(string(src), "//go:build") || strings.Contains(string(src), "// +build") || strings.Contains(string(src), `import "C"`) {
			return nil // leave constrained files as they are
		}
		pkgName[dir] = f.Name.Name
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		var edits []ins
		edits = append(edits, ins{off: off(f.Name.End()), text: fmt.Sprintf("; import simhook %q", hookPath)})
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				t := fmt.Sprintf("%q", hookPath+"/simsync")
				if im.Name == nil {
					t = "sync " + t
				}
				edits = append(edits, ins{off: off(im.Path.Pos()), text: t, del: len(im.Path.Value)})
			}
		}
		site := func(pos token.Pos) string {
			n := len(sites)
			sites = append(sites, fmt.Sprintf("%s:%d", rel, fset.Position(pos).Line))
			return fmt.Sprintf("simhook.Y(%d); ", n)
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				edits = append(edits, ins{off: off(s.Pos()), text: site(s.Pos())})
			}
		}
		clauses := map[*ast.BlockStmt]bool{} // bodies that hold clauses, not statements
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				clauses[x.Body] = true
			case *ast.TypeSwitchStmt:
				clauses[x.Body] = true
			case *ast.SelectStmt:
				clauses[x.Body] = true
			case *ast.BlockStmt:
				if clauses[x] {
					return true
				}
				if len(x.List) == 0 {
					edits = append(edits, ins{off: off(x.Lbrace) + 1, text: " " + site(x.Lbrace)})
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				for _, name := range sp.(*ast.ValueSpec).Names {
					if name.Name != "_" {
						vars[dir] = append(vars[dir], name.Name)
					}
				}
			}
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var sb strings.Builder
		last := 0
		for _, e := range edits {
			sb.Write(src[last:e.off])
			sb.WriteString(e.text)
			last = e.off + e.del
		}
		sb.Write(src[last:])
		sb.WriteString("\nvar _ = simhook.N\n")
		dst := filepath.Join(out, fmt.Sprintf("f%d_%s", nfile, base))
		nfile++
		replace[p] = dst
		return os.WriteFile(dst, []byte(sb.String()), 0o644)
	}))
	for dir, names := range vars {
		sort.Strings(names)
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport simhook %q\n\nfunc init() {\n", pkgName[dir], hookPath)
		rel, _ := filepath.Rel(repo, dir)
		for _, n := range names {
			fmt.Fprintf(&sb, "\tsimhook.RegVar(%q, &%s)\n", rel+"."+n, n)
		}
		sb.WriteString("}\n")
		dst := filepath.Join(out, fmt.Sprintf("v%d_vars.go", nfile))
		nfile++
		replace[filepath.Join(dir, "zz_simhook_vars.go")] = dst
		die(os.WriteFile(dst, []byte(sb.String()), 0o644))
	}
	replace[filepath.Join(repo, "simhook", "simhook.go")] = filepath.Join(hooks, "simhook.go")
	sy, err := os.ReadFile(filepath.Join(hooks, "simsync", "simsync.go"))
	die(err)
	dst := filepath.Join(out, "simsync.go")
	die(os.WriteFile(dst, []byte(strings.ReplaceAll(string(sy), "SIMHOOK_PATH", hookPath)), 0o644))
	replace[filepath.Join(repo, "simhook", "simsync", "simsync.go")] = dst
	var sb strings.Builder
	sb.WriteString("package simhook\n\nfunc init() { Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "%q,\n", s)
	}
	sb.WriteString("}; Cov = make([]uint8, len(Sites)) }\n")
	dst = filepath.Join(out, "sites.go")
	die(os.WriteFile(dst, []byte(sb.String()), 0o644))
	replace[filepath.Join(repo, "simhook", "sites.go")] = dst
	j, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644))
}
