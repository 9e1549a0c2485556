// instr writes a build overlay in which every statement of arpc is preceded by a
// scheduling point.  Nothing else changes, and /repo itself is not touched: the
// instrumented copies exist only for the harness build.
//
//	instr REPO OUTDIR   writes OUTDIR/overlay.json
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `// Package verifhook is only present in harness builds.
package verifhook

import (
	"runtime"
	"sync/atomic"
)

var (
	pct   uint64
	burst uint64
	state uint64
)

// Set chooses how often (per 1000 statements) and for how long to yield.
func Set(permille, maxBurst int, seed uint64) {
	atomic.StoreUint64(&burst, uint64(maxBurst))
	atomic.StoreUint64(&state, seed)
	atomic.StoreUint64(&pct, uint64(permille))
}

// Y is a scheduling point.
func Y() {
	p := atomic.LoadUint64(&pct)
	if p == 0 {
		return
	}
	z := atomic.AddUint64(&state, 0x9e3779b97f4a7c15)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	if z%1000 >= p {
		return
	}
	n := (z>>32)%(atomic.LoadUint64(&burst)+1) + 1
	for i := uint64(0); i < n; i++ {
		runtime.Gosched()
	}
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	n := 0
	write := func(target string, b []byte) {
		n++
		p := filepath.Join(out, fmt.Sprintf("f%d.go", n))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
		replace[target] = p
	}
	write(filepath.Join(repo, "verifhook", "hook.go"), []byte(hook))
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && rel != "." || rel == "examples" || fi.Name() == "testdata" || fi.Name() == "node_modules" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		if b := rewrite(p, src); b != nil {
			write(p, b)
		}
		return nil
	})
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		panic(err)
	}
}

func rewrite(name string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil || f.Name.Name == "main" {
		return nil
	}
	var at []int
	add := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	sort.Ints(at)
	ins := fset.Position(f.Name.End()).Offset
	var b bytes.Buffer
	b.Write(src[:ins])
	b.WriteString("; import verifhook \"github.com/lesismal/arpc/verifhook\"")
	last := ins
	for _, o := range at {
		b.Write(src[last:o])
		b.WriteString("verifhook.Y(); ")
		last = o
	}
	b.Write(src[last:])
	return b.Bytes()
}
