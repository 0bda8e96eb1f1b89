// Command overlay writes a go build overlay for the go-artnet sources in which
//
//   - the import "net" is replaced by verif/verifnet, the simulated network,
//   - the import "sync" by verif/verifsync, locks that wait on channels,
//   - channels made at package level are made anew for every simulated network, and
//   - with -points, a call of verifnet.Pt is put in front of every statement of
//     the root package, a scheduling point at which the workload may yield.
//
// Nothing else changes; line numbers stay.
//
//	overlay -repo /repo -out DIR [-points]   writes DIR/overlay.json and the changed files
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	lo, hi int
	text   string
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	points := flag.Bool("points", false, "add scheduling points to the root package")
	flag.Parse()
	rep := map[string]string{}
	npoints := 0
	err := filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			n := d.Name()
			if p != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "example" || n == "vendor" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		off := func(q token.Pos) int { return fset.Position(q).Offset }
		var edits []edit
		tail := ""
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			to := map[string]string{"net": "verif/verifnet", "sync": "verif/verifsync"}[path]
			if to == "" {
				continue
			}
			name := path + " "
			if im.Name != nil {
				name = ""
			}
			edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), name + strconv.Quote(to)})
		}
		// a package level channel is made anew in every bubble
		chans := 0
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Names) != 1 || len(v.Values) != 1 || v.Names[0].Name == "_" {
					continue
				}
				c, ok := v.Values[0].(*ast.CallExpr)
				if !ok || len(c.Args) == 0 {
					continue
				}
				if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "make" {
					continue
				}
				if _, ok := c.Args[0].(*ast.ChanType); !ok {
					continue
				}
				typ := string(src[off(c.Args[0].Pos()):off(c.Args[0].End())])
				if v.Type != nil {
					typ = string(src[off(v.Type.Pos()):off(v.Type.End())])
				}
				tail += fmt.Sprintf("\nvar _ = vpnet.Remake(func() { %s = %s })\n", v.Names[0].Name, src[off(c.Pos()):off(c.End())])
				edits = append(edits, edit{off(v.Names[0].End()), off(c.End()), " " + typ})
				chans++
			}
		}
		vpimport := func() {
			o := off(f.Name.End())
			edits = append(edits, edit{o, o, `; import vpnet "verif/verifnet"`})
		}
		if *points && filepath.Dir(p) == filepath.Clean(*repo) {
			n := 0
			list := func(stmts []ast.Stmt) {
				for _, s := range stmts {
					switch s.(type) {
					case *ast.DeclStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
						continue
					}
					o := off(s.Pos())
					edits = append(edits, edit{o, o, "vpnet.Pt(); "})
					n++
				}
			}
			ast.Inspect(f, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.BlockStmt:
					list(b.List)
				case *ast.CaseClause:
					list(b.Body)
				case *ast.CommClause:
					list(b.Body)
				}
				return true
			})
			if n > 0 || chans > 0 {
				vpimport()
			}
			npoints += n
		} else if chans > 0 {
			vpimport()
		}
		if len(edits) == 0 {
			return nil
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].lo < edits[j].lo })
		var dst []byte
		at := 0
		for _, e := range edits {
			dst = append(dst, src[at:e.lo]...)
			dst = append(dst, e.text...)
			at = e.hi
		}
		dst = append(dst, src[at:]...)
		dst = append(dst, tail...)
		rel, err := filepath.Rel(*repo, p)
		if err != nil {
			return err
		}
		to := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := os.WriteFile(to, dst, 0o644); err != nil {
			return err
		}
		rep[p] = to
		return nil
	})
	if err == nil {
		var b []byte
		if b, err = json.MarshalIndent(map[string]any{"Replace": rep}, "", " "); err == nil {
			err = os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "overlay:", err)
		os.Exit(2)
	}
	fmt.Println(len(rep), "files", npoints, "points")
}
