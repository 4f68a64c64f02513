// Command instrument writes instrumented copies of the repository's source files
// and an overlay file for 'go build -overlay'.
//
//	instrument REPO OUTDIR maps|points|plain
//
// maps: iterations over maps go through verifrt, which decides their order.
// points: in addition, verifrt.Point() is called before every statement of the library packages.
// plain: no rewriting (only the run-time package is added).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/mlange-42/bbn"

type pkg struct {
	ImportPath, Export, Dir string
	GoFiles                 []string
}

func main() {
	repo, out, mode := os.Args[1], os.Args[2], os.Args[3]
	rtText, err := os.ReadFile(filepath.Join(os.Args[4], "rt.go.txt"))
	check(err)
	check(os.MkdirAll(out, 0755))
	overlay := map[string]string{}

	inst := "true"
	if mode == "plain" {
		inst = "false"
	}
	rt := filepath.Join(out, "verifrt.go")
	check(os.WriteFile(rt, bytes.Replace(rtText, []byte("INSTRUMENTED"), []byte(inst), 1), 0644))
	overlay[filepath.Join(repo, "internal/verifrt/rt.go")] = rt

	if mode != "plain" {
		cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles", "./...")
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOWORK=off")
		cmd.Stderr = os.Stderr
		data, err := cmd.Output()
		check(err)
		pkgs := map[string]pkg{}
		dec := json.NewDecoder(bytes.NewReader(data))
		for {
			var p pkg
			if err := dec.Decode(&p); err == io.EOF {
				break
			} else {
				check(err)
			}
			pkgs[p.ImportPath] = p
		}
		names := []string{}
		for name := range pkgs {
			if name == module || strings.HasPrefix(name, module+"/") {
				names = append(names, name)
			}
		}
		sort.Strings(names)
		for _, name := range names {
			points := mode == "points" && (name == module || strings.HasSuffix(name, "/ve") || strings.HasSuffix(name, "/logic") || strings.HasSuffix(name, "/tui"))
			check(instrument(pkgs[name], pkgs, out, points, overlay))
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

type edit struct {
	pos  int
	text string
	del  int
}

func instrument(p pkg, all map[string]pkg, out string, points bool, overlay map[string]string) error {
	fset := token.NewFileSet()
	files := []*ast.File{}
	srcs := [][]byte{}
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs = append(srcs, src)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		q, ok := all[path]
		if !ok || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup)}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return err
	}
	for i, f := range files {
		src := srcs[i]
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		edits := []edit{}
		mapsUsed, mapsReplaced := 0, 0
		ast.Inspect(f, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.RangeStmt:
				tv, ok := info.Types[s.X]
				if !ok {
					return true
				}
				if _, isMap := tv.Type.Underlying().(*types.Map); isMap {
					edits = append(edits, edit{pos: off(s.X.Pos()), text: "verifrt.Range("}, edit{pos: off(s.X.End()), text: ")"})
				}
			case *ast.SelectorExpr:
				if id, ok := s.X.(*ast.Ident); ok {
					if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "maps" {
						mapsUsed++
						repl := map[string]string{"Keys": "Keys", "Values": "Values", "All": "Range"}[s.Sel.Name]
						if repl != "" {
							mapsReplaced++
							edits = append(edits, edit{pos: off(s.Pos()), del: off(s.End()) - off(s.Pos()), text: "verifrt." + repl})
						}
					}
				}
			case *ast.BlockStmt:
				if points {
					for _, st := range s.List {
						edits = addPoint(edits, st, off)
					}
				}
			case *ast.CaseClause:
				if points {
					for _, st := range s.Body {
						edits = addPoint(edits, st, off)
					}
				}
			case *ast.CommClause:
				if points {
					for _, st := range s.Body {
						edits = addPoint(edits, st, off)
					}
				}
			}
			return true
		})
		if len(edits) == 0 {
			continue
		}
		if hasBuildTag(src[:off(f.Package)]) {
			continue
		}
		if mapsUsed > 0 && mapsUsed == mapsReplaced { // keep the import used
			edits = append(edits, edit{pos: len(src), text: "\nvar _ = maps.Keys[map[int]int]\n"})
		}
		edits = append(edits, edit{pos: off(f.Name.End()), text: "; import verifrt \"" + module + "/internal/verifrt\""})
		sort.SliceStable(edits, func(a, b int) bool { return edits[a].pos < edits[b].pos })
		var buf bytes.Buffer
		path := filepath.Join(p.Dir, p.GoFiles[i])
		buf.WriteString("//go:build go1.23\n\n//line " + path + ":1\n")
		last := 0
		for _, e := range edits {
			buf.Write(src[last:e.pos])
			buf.WriteString(e.text)
			last = e.pos + e.del
		}
		buf.Write(src[last:])
		dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "__"))
		if err := os.WriteFile(dst, buf.Bytes(), 0644); err != nil {
			return err
		}
		overlay[path] = dst
	}
	return nil
}

func addPoint(edits []edit, st ast.Stmt, off func(token.Pos) int) []edit {
	switch st.(type) {
	case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
		return edits
	}
	return append(edits, edit{pos: off(st.Pos()), text: "verifrt.Point(); "})
}

func hasBuildTag(head []byte) bool { return bytes.Contains(head, []byte("//go:build")) }
