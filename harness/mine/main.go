// mine lists the constants of the program under test, so that the generators can use them: a program
// treats differently what it compares with something, and what it compares with mostly stands in it.
// Only declarations which differ from the baseline (the tree the checks were made for) count: constants
// which the declaration of that name did not have are "new", the others in it "near".
// The list only says what is tried more often; it never decides anything.
//
//	mine DIR BASE          prints {"New":..., "Near":...}
//	mine -base DIR         prints the baseline
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type words struct {
	Ints  []int64
	Texts []string
}

type set struct {
	ints  map[int64]bool
	texts map[string]bool
}

func newSet() set { return set{map[int64]bool{}, map[string]bool{}} }

func (s set) words() (w words) {
	w.Ints, w.Texts = []int64{}, []string{}
	for i := range s.ints {
		w.Ints = append(w.Ints, i)
	}
	for t := range s.texts {
		w.Texts = append(w.Texts, t)
	}
	sort.Slice(w.Ints, func(i, j int) bool { return w.Ints[i] < w.Ints[j] })
	sort.Strings(w.Texts)
	return w
}

func (s set) add(v constant.Value) {
	switch v.Kind() {
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok {
			s.ints[i] = true
		}
	case constant.String:
		if t := constant.StringVal(v); t != "" && len(t) <= 64 {
			s.texts[t] = true
		}
	}
}

// consts are the package's constants, by name
type consts map[string]constant.Value

func (c consts) eval(e ast.Expr, iota int64) (v constant.Value) {
	defer func() {
		if recover() != nil { // a division by zero, mismatched kinds and the like
			v = constant.MakeUnknown()
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(e.Value, e.Kind, 0)
		if e.Kind == token.CHAR {
			v = constant.ToInt(v)
		}
		return v
	case *ast.ParenExpr:
		return c.eval(e.X, iota)
	case *ast.Ident:
		if e.Name == "iota" && iota >= 0 {
			return constant.MakeInt64(iota)
		}
		if v, ok := c[e.Name]; ok {
			return v
		}
	case *ast.UnaryExpr:
		if x := c.eval(e.X, iota); x.Kind() == constant.Int {
			return constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.BinaryExpr:
		x, y := c.eval(e.X, iota), c.eval(e.Y, iota)
		if x.Kind() == constant.Unknown || y.Kind() == constant.Unknown {
			break
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 64 {
				return constant.Shift(x, e.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT, token.REM:
			return constant.BinaryOp(x, e.Op, y)
		case token.QUO:
			return constant.BinaryOp(x, token.QUO_ASSIGN, y)
		}
	case *ast.CallExpr: // uint32(5)
		if len(e.Args) == 1 {
			if f, ok := e.Fun.(*ast.Ident); ok && (strings.HasPrefix(f.Name, "int") || strings.HasPrefix(f.Name, "uint") || f.Name == "byte" || f.Name == "rune" || f.Name == "string") {
				return c.eval(e.Args[0], iota)
			}
		}
	}
	return constant.MakeUnknown()
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mine:", err)
		os.Exit(1)
	}
}

type decl struct {
	name string
	hash string
	node ast.Node
	c    consts
}

func decls(root string) (ds []decl) {
	dirs := map[string][]*ast.File{}
	fset := token.NewFileSet()
	die(filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "testdata" || d.Name() == "testcase") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || !d.Type().IsRegular() {
			return nil
		}
		f, err := parser.ParseFile(fset, p, nil, 0)
		if f != nil {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], f)
		}
		return nil // what does not parse does not build either
	}))
	for dir, fs := range dirs {
		rel, err := filepath.Rel(root, dir)
		die(err)
		c := consts{}
		for pass := 0; pass < 4; pass++ { // constants of constants
			for _, f := range fs {
				for _, d := range f.Decls {
					g, ok := d.(*ast.GenDecl)
					if !ok || g.Tok != token.CONST {
						continue
					}
					var last []ast.Expr
					for i, s := range g.Specs {
						v := s.(*ast.ValueSpec)
						if v.Values != nil {
							last = v.Values
						}
						for j, n := range v.Names {
							if j < len(last) {
								if x := c.eval(last[j], int64(i)); x.Kind() != constant.Unknown {
									c[n.Name] = x
								}
							}
						}
					}
				}
			}
		}
		for _, f := range fs {
			for _, d := range f.Decls {
				var ns []ast.Node
				if g, ok := d.(*ast.GenDecl); ok {
					if g.Tok == token.IMPORT {
						continue
					}
					for _, s := range g.Specs {
						ns = append(ns, s)
					}
				} else {
					ns = append(ns, d)
				}
				for _, n := range ns {
					var b bytes.Buffer
					die(printer.Fprint(&b, token.NewFileSet(), n))
					h := sha256.Sum256([]byte(strings.Join(strings.Fields(b.String()), " ")))
					ds = append(ds, decl{rel + ":" + name(n), hex.EncodeToString(h[:8]), n, c})
				}
			}
		}
	}
	return ds
}

func name(n ast.Node) string {
	switch n := n.(type) {
	case *ast.FuncDecl:
		if n.Recv != nil && len(n.Recv.List) == 1 {
			t := n.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if i, ok := t.(*ast.Ident); ok {
				return i.Name + "." + n.Name.Name
			}
		}
		return n.Name.Name
	case *ast.TypeSpec:
		return n.Name.Name
	case *ast.ValueSpec:
		return n.Names[0].Name
	}
	return ""
}

func (d decl) mine(s set) {
	ast.Inspect(d.node, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec, *ast.Field:
			if f, ok := n.(*ast.Field); ok && f.Tag != nil {
				return false
			}
		case ast.Expr:
			if v := d.c.eval(n, -1); v.Kind() != constant.Unknown {
				s.add(v)
			}
		}
		return true
	})
}

func main() {
	if len(os.Args) != 3 {
		die(fmt.Errorf("mine DIR BASE.json | mine -base DIR"))
	}
	type known struct {
		Hashes []string
		words
	}
	if os.Args[1] == "-base" {
		sets, m := map[string]set{}, map[string]known{}
		for _, d := range decls(os.Args[2]) {
			if _, ok := sets[d.name]; !ok {
				sets[d.name] = newSet()
			}
			d.mine(sets[d.name])
			k := m[d.name]
			k.Hashes = append(k.Hashes, d.hash)
			sort.Strings(k.Hashes)
			k.words = sets[d.name].words()
			m[d.name] = k
		}
		names := []string{}
		for n := range m {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println("{")
		for i, n := range names {
			b, err := json.Marshal(m[n])
			die(err)
			fmt.Printf("%q: %s", n, b)
			if i+1 < len(names) {
				fmt.Print(",")
			}
			fmt.Println()
		}
		fmt.Println("}")
		return
	}
	b, err := os.ReadFile(os.Args[2])
	die(err)
	base := map[string]known{}
	die(json.Unmarshal(b, &base))
	fresh, near := newSet(), newSet()
decls:
	for _, d := range decls(os.Args[1]) {
		k := base[d.name]
		for _, h := range k.Hashes {
			if h == d.hash {
				continue decls
			}
		}
		old, s := map[any]bool{}, newSet()
		for _, i := range k.Ints {
			old[i] = true
		}
		for _, t := range k.Texts {
			old[t] = true
		}
		d.mine(s)
		for i := range s.ints {
			if old[i] {
				near.ints[i] = true
			} else {
				fresh.ints[i] = true
			}
		}
		for t := range s.texts {
			if old[t] {
				near.texts[t] = true
			} else {
				fresh.texts[t] = true
			}
		}
	}
	out, err := json.Marshal(struct{ New, Near words }{fresh.words(), near.words()})
	die(err)
	fmt.Println(string(out))
}
