// Command instr writes copies of the non-test sources of the packages under
// test with a scheduling point before every statement and package sync
// replaced, and the overlay that puts them in place. It prints "free" when the
// sources start goroutines or use channels, which the controlled scheduler does
// not handle.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	args := os.Args[1:]
	plain := args[0] == "-plain" // only lay the scheduler in
	if plain {
		args = args[1:]
	}
	repo, harness, out, base := args[0], args[1], args[2], args[3]
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(base)
	die(err)
	die(json.Unmarshal(b, &ov))
	free := false
	points := 0
	for _, d := range packages(repo) {
		fs, err := filepath.Glob(filepath.Join(repo, d, "*.go"))
		die(err)
		for _, f := range fs {
			if plain || strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			die(err)
			set := token.NewFileSet()
			tree, err := parser.ParseFile(set, f, src, 0)
			die(err)
			type ins struct {
				at, del int
				text    string
			}
			var is []ins
			off := func(p token.Pos) int { return set.Position(p).Offset }
			list := func(l []ast.Stmt) {
				for _, s := range l {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					is = append(is, ins{off(s.Pos()), 0, "vsched.Point(); "})
					points++
				}
			}
			ast.Inspect(tree, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.ForStmt:
					if len(n.Body.List) == 0 { // a spin
						is = append(is, ins{off(n.Body.Rbrace), 0, " vsched.Point() "})
					}
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
					free = true
				case *ast.UnaryExpr:
					if n.Op == token.ARROW {
						free = true
					}
				}
				return true
			})
			// clauses are no statements of their block
			clause := map[int]bool{}
			ast.Inspect(tree, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clause[off(n.Pos())] = true
				}
				return true
			})
			var kept []ins
			for _, i := range is {
				if !clause[i.at] {
					kept = append(kept, i)
				}
			}
			is = kept
			if len(is) > 0 {
				is = append(is, ins{off(tree.Name.End()), 0, `; import vsched "github.com/mearaj/bips/vsched"`})
			}
			for _, im := range tree.Imports {
				if im.Path.Value == `"sync"` {
					name := "sync "
					if im.Name != nil {
						name = ""
					}
					is = append(is, ins{off(im.Path.Pos()), len(im.Path.Value), name + `"github.com/mearaj/bips/vsync"`})
				}
			}
			if len(is) == 0 {
				continue
			}
			sort.SliceStable(is, func(a, b int) bool { return is[a].at < is[b].at })
			var w strings.Builder
			at := 0
			for _, i := range is {
				w.Write(src[at:i.at])
				w.WriteString(i.text)
				at = i.at + i.del
			}
			w.Write(src[at:])
			o := filepath.Join(out, strings.ReplaceAll(d, "/", "_")+"_"+filepath.Base(f))
			die(os.WriteFile(o, []byte(w.String()), 0o644))
			ov.Replace[f] = o
		}
	}
	for _, p := range []string{"vsched", "vsync"} {
		fs, _ := filepath.Glob(filepath.Join(harness, "overlay", p, "*.go"))
		for _, f := range fs {
			ov.Replace[filepath.Join(repo, p, filepath.Base(f))] = f
		}
	}
	b, err = json.Marshal(ov)
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Println(points, "points")
	if free {
		fmt.Println("free")
	}
}

// packages lists the directories of the module's packages, the examples apart.
func packages(repo string) (l []string) {
	die(filepath.WalkDir(repo, func(p string, e os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if e.IsDir() {
			n := e.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "examples" || n == "vendor" || n == "testdata" || n == "node_modules") {
				return filepath.SkipDir
			}
			if p != repo {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if d, _ := filepath.Rel(repo, filepath.Dir(p)); strings.HasSuffix(p, ".go") && (len(l) == 0 || l[len(l)-1] != d) {
			l = append(l, d)
		}
		return nil
	}))
	return l
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}
