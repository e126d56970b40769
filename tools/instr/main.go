// instr builds the instrumented view of /repo: a go build -overlay file, a
// go.mod replacing three dependencies by instrumented copies, and the virtual
// packages of the simulator under zz_verif.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "zntr.io/solid/zz_verif/"

var redirect = map[string]string{
	"sync":        base + "simsync",
	"time":        base + "simtime",
	"context":     base + "simcontext",
	"crypto/rand": base + "simrand",
	"math/rand":   base + "simmathrand",
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(2) }

type ins struct {
	off  int
	end  int // replace [off,end) when end>off
	text string
	ord  int
}

// instrument returns the transformed source. yields: insert Y before statements.
func instrument(path string, src []byte, yields bool, skip map[string]bool, red map[string]string) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		die("parse %s: %v", path, err)
	}
	tf := fs.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var all []ins
	add := func(o, e int, t string) { all = append(all, ins{o, e, t, len(all)}) }
	for _, im := range f.Imports {
		v, _ := strconv.Unquote(im.Path.Value)
		if r, ok := red[v]; ok {
			t := strconv.Quote(r)
			if im.Name == nil {
				n := v[strings.LastIndex(v, "/")+1:]
				t = n + " " + t
			}
			add(off(im.Path.Pos()), off(im.Path.End()), t)
		}
	}
	add(off(f.Name.End()), 0, `; import zzsimrt "`+base+`simrt"`)
	if yields {
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		chans := chanNames(f)
		nsel := 0
		var walk func(n ast.Node)
		var stmts func(l []ast.Stmt)
		sel := func(x *ast.SelectStmt, label string, from token.Pos) {
			nsel++
			def := false
			var decls, names []string
			for i, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				v := fmt.Sprintf("zzc%d_%d", nsel, i)
				head := fmt.Sprintf("case %d:", len(names))
				switch y := cc.Comm.(type) {
				case nil:
					def = true
					head = "default:"
				case *ast.SendStmt:
					decls = append(decls, v+" := zzsimrt.SendCase("+text(y.Chan)+")("+text(y.Value)+")")
					names = append(names, v)
				case *ast.ExprStmt:
					decls = append(decls, v+" := zzsimrt.RecvCase("+text(arrow(y.X).X)+")")
					names = append(names, v)
				case *ast.AssignStmt:
					decls = append(decls, v+" := zzsimrt.RecvCase("+text(arrow(y.Rhs[0]).X)+")")
					names = append(names, v)
					r := v + ".V"
					if len(y.Lhs) == 2 {
						r += ", " + v + ".OK"
					}
					head += string(src[off(y.Pos()):off(y.TokPos)]) + y.Tok.String() + " " + r + ";"
				}
				add(off(cc.Pos()), off(cc.Colon)+1, head)
			}
			if label != "" {
				label += ": "
			}
			pre := "{ "
			for _, d := range decls {
				pre += d + "; "
			}
			add(off(from), off(x.Body.Lbrace)+1, fmt.Sprintf("%s%sswitch zzsimrt.Select(%s) {", pre, label, strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", ")))
			end := "} }"
			if !def {
				end = "default: panic(\"unreachable\") } }"
			}
			add(off(x.Body.Rbrace), off(x.Body.Rbrace)+1, end)
			for _, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				stmts(cc.Body)
				for _, b := range cc.Body {
					walk(b)
				}
			}
		}
		recv2 := func(lhs int, rhs []ast.Expr) bool {
			if lhs != 2 || len(rhs) != 1 {
				return false
			}
			a := arrow(rhs[0])
			if a == nil {
				return false
			}
			add(off(a.OpPos), off(a.OpPos)+2, "zzsimrt.Recv2(")
			add(off(a.X.End()), 0, ")")
			walk(a.X)
			return true
		}
		stmts = func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				add(off(s.Pos()), 0, "zzsimrt.Y();")
			}
		}
		walk = func(n ast.Node) {
			ast.Inspect(n, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncDecl:
					if skip[x.Name.Name] {
						return false
					}
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.SendStmt:
					add(off(x.Pos()), 0, "zzsimrt.SendTo(")
					add(off(x.Arrow), off(x.Arrow)+2, ")(")
					add(off(x.Value.End()), 0, ")")
				case *ast.UnaryExpr:
					if x.Op == token.ARROW {
						add(off(x.OpPos), off(x.OpPos)+2, "zzsimrt.Recv(")
						add(off(x.X.End()), 0, ")")
					}
				case *ast.AssignStmt:
					if recv2(len(x.Lhs), x.Rhs) {
						for _, l := range x.Lhs {
							walk(l)
						}
						return false
					}
				case *ast.ValueSpec:
					if recv2(len(x.Names), x.Values) {
						return false
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
						add(off(id.Pos()), off(id.End()), "zzsimrt.Close")
					}
				case *ast.RangeStmt:
					if !chans[last(x.X)] {
						return true
					}
					// for v := range c {  =>  for zzch := c; ; { v, zzok := zzsimrt.Recv2(zzch); if !zzok { break };
					h := "_, zzok := "
					if x.Key != nil {
						h = text(x.Key) + ", zzok := "
						if x.Tok == token.ASSIGN {
							h = "var zzok bool; " + text(x.Key) + ", zzok = "
						}
					}
					add(off(x.Pos()), off(x.Body.Lbrace)+1, "for zzch := "+text(x.X)+"; ; { "+h+"zzsimrt.Recv2(zzch); if !zzok { break }; ")
					walk(x.Body)
					return false
				case *ast.LabeledStmt:
					if y, ok := x.Stmt.(*ast.SelectStmt); ok {
						sel(y, x.Label.Name, x.Pos())
						return false
					}
				case *ast.SwitchStmt:
					for _, c := range x.Body.List {
						walk(c)
					}
					if x.Init != nil {
						walk(x.Init)
					}
					if x.Tag != nil {
						walk(x.Tag)
					}
					return false
				case *ast.TypeSwitchStmt:
					for _, c := range x.Body.List {
						walk(c)
					}
					return false
				case *ast.SelectStmt:
					sel(x, "", x.Pos())
					return false
				case *ast.GoStmt:
					// go f(a, b)  =>  { zz0, zz1 := a, b; zzsimrt.Go(func() { f(zz0, zz1) }) }
					c := x.Call
					pre := ""
					var names []string
					for i, a := range c.Args {
						t := string(src[off(a.Pos()):off(a.End())])
						switch y := a.(type) {
						case *ast.BasicLit:
							names = append(names, t)
							continue
						case *ast.Ident:
							if y.Name == "nil" || y.Name == "true" || y.Name == "false" {
								names = append(names, t)
								continue
							}
						}
						n := fmt.Sprintf("zzarg%d", i)
						pre += n + " := " + t + "; "
						names = append(names, n)
					}
					ell := ""
					if c.Ellipsis.IsValid() {
						ell = "..."
					}
					add(off(x.Pos()), off(c.Fun.Pos()), "{ "+pre+"zzsimrt.Go(func() { ")
					// the arguments may span lines: keep the newlines of the original
					old := string(src[off(c.Lparen) : off(c.Rparen)+1])
					add(off(c.Lparen), off(c.Rparen)+1, "("+strings.Join(names, ", ")+ell+") }) }"+strings.Repeat("\n", strings.Count(old, "\n")))
					walk(c.Fun)
					return false
				}
				return true
			})
		}
		for _, d := range f.Decls {
			walk(d)
		}
	}
	sort.SliceStable(all, func(i, j int) bool {
		if all[i].off != all[j].off {
			return all[i].off < all[j].off
		}
		// insertions before replacements at the same offset
		ri, rj := all[i].end > all[i].off, all[j].end > all[j].off
		if ri != rj {
			return !ri
		}
		return all[i].ord < all[j].ord
	})
	var b strings.Builder
	p := 0
	for _, a := range all {
		if a.off < p {
			continue
		}
		b.Write(src[p:a.off])
		b.WriteString(a.text)
		p = a.off
		if a.end > p {
			p = a.end
		}
	}
	b.Write(src[p:])
	b.WriteString("\n\nvar _ = zzsimrt.Y\n")
	return []byte(b.String())
}

// arrow is the receive operation an expression consists of.
func arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
			return nil
		default:
			return nil
		}
	}
}

// last is the last identifier of a name or selector.
func last(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	case *ast.ParenExpr:
		return last(x.X)
	}
	return ""
}

// chanNames collects the names that are declared as channels in a file (types
// are not resolved: a loop over a channel is recognised by its name).
func chanNames(f *ast.File) map[string]bool {
	m := map[string]bool{}
	isChan := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.ChanType:
			return true
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 {
				_, ok := x.Args[0].(*ast.ChanType)
				return ok
			}
		}
		return false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Field:
			if isChan(x.Type) {
				for _, id := range x.Names {
					m[id.Name] = true
				}
			}
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if (x.Type != nil && isChan(x.Type)) || (i < len(x.Values) && isChan(x.Values[i])) {
					m[id.Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				if len(x.Lhs) == len(x.Rhs) && isChan(x.Rhs[i]) {
					m[last(l)] = true
				}
			}
		}
		return true
	})
	delete(m, "")
	return m
}

// reexport writes the part of a simulated package that is the real one's.
func reexport(goroot, pkg, except, out string) {
	have := map[string]bool{}
	for _, n := range strings.Fields(except) {
		have[n] = true
	}
	kinds := map[string][]string{}
	ents, err := os.ReadDir(filepath.Join(goroot, "src", pkg))
	if err != nil {
		die("%v", err)
	}
	seen := map[string]bool{}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(goroot, "src", pkg, n), nil, 0)
		if err != nil || f.Name.Name != pkg {
			continue
		}
		put := func(k, n string) {
			if ast.IsExported(n) && !have[n] && !seen[n] {
				seen[n] = true
				kinds[k] = append(kinds[k], n)
			}
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Type.TypeParams == nil {
					put("var", x.Name.Name)
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						put("type", y.Name.Name)
					case *ast.ValueSpec:
						for _, id := range y.Names {
							if x.Tok == token.CONST {
								put("const", id.Name)
							} else {
								put("var", id.Name)
							}
						}
					}
				}
			}
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package sim%s\n\nimport %q\n\n", pkg, pkg)
	for _, k := range []string{"type", "const", "var"} {
		sort.Strings(kinds[k])
		for _, n := range kinds[k] {
			fmt.Fprintf(&b, "%s %s = %s.%s\n", k, n, pkg, n)
		}
	}
	if err := os.WriteFile(out, []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	sim := flag.String("sim", "/verif/sim", "")
	out := flag.String("out", "", "output directory")
	goroot := flag.String("goroot", "", "")
	modcache := flag.String("modcache", "", "")
	flag.Parse()
	if *out == "" || *goroot == "" || *modcache == "" {
		die("missing flag")
	}
	ov := map[string]string{}
	must := func(err error) {
		if err != nil {
			die("%v", err)
		}
	}
	n := 0
	emit := func(virt string, b []byte) {
		n++
		p := filepath.Join(*out, "src", fmt.Sprintf("f%04d_%s", n, filepath.Base(virt)))
		must(os.WriteFile(p, b, 0o644))
		ov[virt] = p
	}
	must(os.MkdirAll(filepath.Join(*out, "src"), 0o755))
	for _, d := range []string{"sdk", "server", "client", "examples"} {
		root := filepath.Join(*repo, d)
		must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				if fi.Name() == "mock" || fi.Name() == "testdata" {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			emit(p, instrument(p, b, true, nil, redirect))
			return nil
		}))
	}
	// the simulator and the harness
	must(filepath.Walk(*sim, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*sim, p)
		ov[filepath.Join(*repo, "zz_verif", rel)] = p
		return nil
	}))
	for pkg, own := range map[string]string{
		"time":    "Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker",
		"context": "WithTimeout WithTimeoutCause WithDeadline WithDeadlineCause",
	} {
		gen := filepath.Join(*out, "src", pkg+"_reexport.go")
		reexport(*goroot, pkg, own, gen)
		ov[filepath.Join(*repo, "zz_verif/sim"+pkg+"/reexport.go")] = gen
	}

	// dependencies
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	gosum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	mod := string(gomod)
	for _, dep := range []struct {
		path   string
		yields bool
		skip   map[string]bool
	}{
		{"github.com/patrickmn/go-cache", true, map[string]bool{"Run": true, "stopJanitor": true, "runJanitor": true}},
		{"github.com/dchest/uniuri", false, nil},
		{"github.com/gofrs/uuid", false, nil},
	} {
		ver := version(string(gomod), dep.path)
		if ver == "" {
			continue
		}
		dir := filepath.Join(*modcache, dep.path+"@"+ver)
		dst := filepath.Join(*out, "deps", filepath.Base(dep.path))
		must(os.MkdirAll(dst, 0o755))
		ents, err := os.ReadDir(dir)
		must(err)
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, e.Name()))
			must(err)
			red := redirect
			if !dep.yields {
				red = map[string]string{"sync": redirect["sync"], "time": redirect["time"], "crypto/rand": redirect["crypto/rand"]}
			}
			b2 := instrument(filepath.Join(dir, e.Name()), b, dep.yields, dep.skip, red)
			must(os.WriteFile(filepath.Join(dst, e.Name()), b2, 0o644))
		}
		must(os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module "+dep.path+"\n\ngo 1.18\n"), 0o644))
		mod += fmt.Sprintf("\nreplace %s => %s\n", dep.path, dst)
	}
	// go-jose, unchanged but for who makes and checks ECDSA signatures
	const jose = "github.com/go-jose/go-jose/v4"
	if ver := version(string(gomod), jose); ver != "" {
		dir, dst := filepath.Join(*modcache, jose+"@"+ver), filepath.Join(*out, "deps", "go-jose")
		must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			if fi.IsDir() {
				if rel == "testutils" || rel == "jose-util" || fi.Name() == "testdata" {
					return filepath.SkipDir
				}
				return os.MkdirAll(filepath.Join(dst, rel), 0o755)
			}
			if rel != "go.mod" && (!strings.HasSuffix(rel, ".go") || strings.HasSuffix(rel, "_test.go")) {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if rel == "asymmetric.go" {
				b = bytes.Replace(b, []byte(`"crypto/ecdsa"`), []byte(`ecdsa "`+base+`simecdsa"`), 1)
			}
			return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
		}))
		mod += fmt.Sprintf("\nreplace %s => %s\n", jose, dst)
	}
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte(mod), 0o644))
	must(os.WriteFile(filepath.Join(*out, "go.sum"), gosum, 0o644))
	j, _ := json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
}

// version looks up a requirement of a go.mod file.
func version(gomod, path string) (ver string) {
	for _, l := range strings.Split(gomod, "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == path {
			ver = f[1]
		}
	}
	return
}
