// refac rewrites the non-test Go files of a module without changing what they do. It is used to see
// which checks raise alarms on harmless edits.
// usage: refac DIR transform [N]   (with N: only every Nth site, for bisecting: refac DIR t MOD REM)
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type tx struct {
	pkg   *packages.Package
	file  *ast.File
	n     int
	extra []ast.Decl
	mod, rem, site int
}

func (t *tx) hit() bool {
	t.site++
	return t.mod == 0 || t.site%t.mod == t.rem
}

func (t *tx) name(p string) string { t.n++; return fmt.Sprintf("%s%d%s", p, t.n, "x") }
func (t *tx) info() *types.Info    { return t.pkg.TypesInfo }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

var global int

func main() {
	dir, kind := os.Args[1], os.Args[2]
	mod, rem := 0, 0
	if len(os.Args) > 4 {
		mod, _ = strconv.Atoi(os.Args[3])
		rem, _ = strconv.Atoi(os.Args[4])
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, ".", "./l5x", "./...")
	if err != nil {
		panic(err)
	}
	sites := 0
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			fn := p.CompiledGoFiles[i]
			if strings.Contains(fn, "/examples/") || strings.Contains(fn, "/tests/") || strings.HasSuffix(fn, "_test.go") || !strings.HasPrefix(fn, dir) {
				continue
			}
			t := &tx{pkg: p, file: f, mod: mod, rem: rem}
			t.n = global
			t.site = sites
			switch kind {
			case "negif":
				t.negif()
			case "hoist":
				t.hoist()
			case "rangeidx":
				t.rangeidx()
			case "idxrange":
				t.idxrange()
			case "flip":
				t.flip()
			case "args":
				t.args()
			case "rets":
				t.rets()
			case "wrap":
				t.wrap()
			case "condfn":
				t.condfn()
			case "incr":
				t.incr()
			case "elseret":
				t.elseret()
			case "extract":
				t.extract()
			case "swif":
				t.swif()
			case "initout":
				t.initout()
			case "renlocal", "renfunc", "renfield", "rentype":
				t.rename(kind)
			case "litfields":
				t.litfields()
			case "declassign":
				t.declassign()
			case "splitif":
				t.splitif()
			case "loopfor":
				t.loopfor()
			case "swapstmts":
				t.swapstmts()
			case "mid0":
				t.midext(0, 1, 2)
			case "mid1":
				t.midext(1, 3, 3)
			case "mid2":
				t.midext(1, 2, 4)
			case "mid3":
				t.midext(1, 4, 8)
			case "loopbody":
				t.loopbody()
			case "named":
				t.locals()
			default:
				panic(kind)
			}
			global = t.n
			sites = t.site
			f.Decls = append(f.Decls, t.extra...)
			f.Comments = nil
			var buf bytes.Buffer
			if err := format.Node(&buf, p.Fset, f); err != nil {
				panic(fmt.Sprint(fn, err))
			}
			// keep build constraints
			src, _ := os.ReadFile(fn)
			head := ""
			for _, l := range strings.Split(string(src), "\n") {
				if strings.HasPrefix(l, "//go:build") {
					head = strings.TrimSpace(l) + "\n\n"
				}
			}
			if strings.Contains(string(src), "//go:embed") {
				continue
			}
			os.WriteFile(fn, append([]byte(head), buf.Bytes()...), 0o644)
		}
	}
	fmt.Println(kind, "sites", sites)
	_ = filepath.Join
	_ = sort.Strings
}

func strip(n ast.Node) { // forget positions, so the printer is not confused
}

// negif: if c {A} else {B}  →  if !(c) {B} else {A};  if c {A} → if !(c) {} else {A}
func (t *tx) negif() {
	astutil.Apply(t.file, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || !t.hit() {
			return true
		}
		els := s.Else
		if els == nil {
			return true
		}
		eb, ok := els.(*ast.BlockStmt)
		if !ok {
			eb = &ast.BlockStmt{List: []ast.Stmt{els}}
		}
		body := s.Body
		s.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}}
		s.Body, s.Else = eb, body
		return true
	}, nil)
}

// hoist: if c { → b := c; if b {
func (t *tx) hoist() {
	astutil.Apply(t.file, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init != nil || c.Index() < 0 || !t.hit() {
			return true
		}
		n := t.name("hc")
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Cond}})
		s.Cond = id(n)
		return true
	}, nil)
}

// initout: if x := f(); c { → { x := f(); if c { } }
func (t *tx) initout() {
	astutil.Apply(t.file, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Init == nil || c.Index() < 0 || !t.hit() {
			return true
		}
		i := s.Init
		s.Init = nil
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{i, s}})
		return true
	}, nil)
}

func sideFree(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// rangeidx: for i, v := range slice {…} → s := slice; for i := 0; i < len(s); i++ { v := s[i]; … }
func (t *tx) rangeidx() {
	astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.RangeStmt)
		if !ok || s.Tok != token.DEFINE || c.Index() < 0 {
			return true
		}
		if _, ok := t.info().TypeOf(s.X).Underlying().(*types.Slice); !ok {
			return true
		}
		if !t.hit() {
			return true
		}
		sn := t.name("rs")
		in := t.name("ri")
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(sn)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}})
		var pre []ast.Stmt
		if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(k.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(in)}})
		}
		if k, ok := s.Value.(*ast.Ident); ok && k.Name != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(k.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(sn), Index: id(in)}}})
		}
		s.Body.List = append(pre, s.Body.List...)
		c.Replace(&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id(in)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
			Cond: &ast.BinaryExpr{X: id(in), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(sn)}}},
			Post: &ast.IncDecStmt{X: id(in), Tok: token.INC},
			Body: s.Body,
		})
		return true
	})
}

// idxrange: for i := 0; i < n; i++ {…} → for i := range n, for pure n of type int that the body does not assign… only literal/len of untouched idents
func (t *tx) idxrange() {
	astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.ForStmt)
		if !ok || s.Init == nil || s.Cond == nil || s.Post == nil || c.Index() < 0 {
			return true
		}
		a, ok := s.Init.(*ast.AssignStmt)
		if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 {
			return true
		}
		// as a while loop: { i := 0; for { if !(cond) {break}; body; i++ } } is unsafe with continue
		cont := false
		ast.Inspect(s.Body, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && (b.Tok == token.CONTINUE) {
				cont = true
			}
			return true
		})
		if cont || !t.hit() {
			return true
		}
		init, cond, post := s.Init, s.Cond, s.Post
		s.Init, s.Cond, s.Post = nil, nil, nil
		s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: cond}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, append(s.Body.List, post)...)
		c.Replace(&ast.BlockStmt{List: []ast.Stmt{init, s}})
		return true
	})
}

// flip: a < b → b > a, a == b → b == a
func (t *tx) flip() {
	m := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	ast.Inspect(t.file, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok {
			if o, ok := m[b.Op]; ok && sideFree(b) && t.hit() {
				b.X, b.Y, b.Op = b.Y, b.X, o
			}
		}
		return true
	})
}

// args: arguments that are expressions get a name first
func (t *tx) args() {
	astutil.Apply(t.file, func(c *astutil.Cursor) bool {
		if c.Index() < 0 {
			return true
		}
		var call *ast.CallExpr
		switch s := c.Node().(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
			for _, l := range s.Lhs {
				if !sideFree(l) {
					call = nil
				}
			}
		}
		if call == nil || call.Ellipsis.IsValid() {
			return true
		}
		if tv, ok := t.info().Types[call.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
			return true
		}
		if !sideFree(call.Fun) {
			return true
		}
		for i, a := range call.Args {
			if i > 0 && !sideFree(call.Args[i-1]) {
				break
			}
			tv := t.info().Types[a]
			if tv.Value != nil || tv.Type == nil || tv.IsNil() {
				continue
			}
			if _, ok := tv.Type.(*types.Tuple); ok {
				continue
			}
			switch a.(type) {
			case *ast.Ident, *ast.FuncLit, *ast.UnaryExpr:
				continue
			}
			if !t.hit() {
				continue
			}
			n := t.name("ar")
			c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			call.Args[i] = id(n)
		}
		return true
	}, nil)
}

// rets: return f(x), e → r0, r1 := …; return r0, r1
func (t *tx) rets() {
	astutil.Apply(t.file, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.ReturnStmt)
		if !ok || c.Index() < 0 || len(s.Results) == 0 {
			return true
		}
		if len(s.Results) == 1 {
			if _, ok := t.info().TypeOf(s.Results[0]).(*types.Tuple); ok {
				tu := t.info().TypeOf(s.Results[0]).(*types.Tuple)
				if !t.hit() {
					return true
				}
				var l, r []ast.Expr
				for i := 0; i < tu.Len(); i++ {
					n := t.name("rt")
					l = append(l, id(n))
					r = append(r, id(n))
				}
				c.InsertBefore(&ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{s.Results[0]}})
				s.Results = r
				return true
			}
		}
		for i, a := range s.Results {
			tv := t.info().Types[a]
			if tv.Value != nil || tv.IsNil() || tv.Type == nil {
				continue
			}
			if _, ok := a.(*ast.Ident); ok {
				continue
			}
			if i > 0 {
				bad := false
				for _, q := range s.Results[:i] {
					bad = bad || !sideFree(q)
				}
				if bad {
					break
				}
			}
			if !t.hit() {
				continue
			}
			n := t.name("rt")
			c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			s.Results[i] = id(n)
		}
		return true
	}, nil)
}

// wrap: every function's body moves to a helper of the same signature
func (t *tx) wrap() {
	for _, d := range t.file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Name.Name == "init" || f.Name.Name == "main" || f.Type.TypeParams != nil {
			continue
		}
		rec := false
		ast.Inspect(f.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "recover" {
					rec = true
				}
			}
			return true
		})
		if rec || !t.hit() {
			continue
		}
		inner := f.Name.Name + "Inner"
		if ast.IsExported(f.Name.Name) {
			inner = "do" + f.Name.Name
		}
		// every parameter needs a name
		var args []ast.Expr
		ell := false
		np := &ast.FieldList{}
		for _, p := range f.Type.Params.List {
			q := &ast.Field{Type: p.Type}
			if len(p.Names) == 0 {
				n := t.name("pa")
				q.Names = []*ast.Ident{id(n)}
				args = append(args, id(n))
			}
			for _, n := range p.Names {
				nn := n.Name
				if nn == "_" {
					nn = t.name("pa")
				}
				q.Names = append(q.Names, id(nn))
				args = append(args, id(nn))
			}
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				ell = true
			}
			np.List = append(np.List, q)
		}
		g := &ast.FuncDecl{Recv: f.Recv, Name: id(inner), Type: &ast.FuncType{Params: np, Results: f.Type.Results}, Body: f.Body}
		call := &ast.CallExpr{Fun: id(inner), Args: args}
		if ell {
			call.Ellipsis = 1
		}
		var recv *ast.FieldList
		if f.Recv != nil {
			rn := "rcv"
			if len(f.Recv.List[0].Names) > 0 && f.Recv.List[0].Names[0].Name != "_" {
				rn = f.Recv.List[0].Names[0].Name
			}
			recv = &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id(rn)}, Type: f.Recv.List[0].Type}}}
			call.Fun = &ast.SelectorExpr{X: id(rn), Sel: id(inner)}
		}
		f.Recv = recv
		var res *ast.FieldList
		if f.Type.Results != nil {
			res = &ast.FieldList{}
			for _, r := range f.Type.Results.List {
				k := len(r.Names)
				if k == 0 {
					k = 1
				}
				for i := 0; i < k; i++ {
					res.List = append(res.List, &ast.Field{Type: r.Type})
				}
			}
			f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
		} else {
			f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		}
		f.Type = &ast.FuncType{Params: np, Results: res}
		t.extra = append(t.extra, g)
	}
}

// typeExpr writes a type as seen from the file's package; ok is false when it needs an import the file lacks.
func (t *tx) typeExpr(ty types.Type) (ast.Expr, bool) {
	ok := true
	imports := map[string]string{}
	for _, im := range t.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[p] = n
	}
	s := types.TypeString(ty, func(p *types.Package) string {
		if p == t.pkg.Types {
			return ""
		}
		n, have := imports[p.Path()]
		if !have {
			ok = false
		}
		return n
	})
	if strings.Contains(s, "invalid") || strings.Contains(s, "untyped") {
		ok = false
	}
	return id(s), ok
}

// free local variables of a node, in order of appearance
func (t *tx) free(n ast.Node, within ast.Node) (vs []*types.Var, ok bool) {
	ok = true
	seen := map[*types.Var]bool{}
	ast.Inspect(n, func(m ast.Node) bool {
		i, isID := m.(*ast.Ident)
		if !isID {
			return true
		}
		if o := t.info().Uses[i]; o != nil && o.Pkg() == t.pkg.Types && o.Parent() != nil && o.Parent() != o.Pkg().Scope() {
			if _, isV := o.(*types.Var); !isV {
				ok = false
			}
		}
		v, isV := t.info().Uses[i].(*types.Var)
		if !isV || v.IsField() || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() || seen[v] {
			return true
		}
		if v.Pos() >= n.Pos() && v.Pos() < n.End() {
			return true
		}
		seen[v] = true
		vs = append(vs, v)
		return true
	})
	return
}

func hasTypeParam(ty types.Type) bool { return strings.Contains(fmt.Sprintf("%T", ty), "TypeParam") }

// condfn: conditions become helper functions of the local variables they use
func (t *tx) condfn() {
	for _, d := range t.file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Type.TypeParams != nil {
			continue
		}
		if f.Recv != nil && strings.Contains(types.ExprString(f.Recv.List[0].Type), "[") {
			continue
		}
		astutil.Apply(f.Body, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.IfStmt)
			if !ok || !sideFreeCalls(s.Cond) {
				return true
			}
			if be, ok := s.Cond.(*ast.BinaryExpr); ok && be.Op == token.NEQ {
				if i, ok := be.X.(*ast.Ident); ok && i.Name == "err" {
					return true
				}
			}
			vs, ok := t.free(s.Cond, f)
			if !ok || len(vs) == 0 || !t.hit() {
				return true
			}
			np := &ast.FieldList{}
			var args []ast.Expr
			for _, v := range vs {
				te, ok := t.typeExpr(v.Type())
				if !ok || hasTypeParam(v.Type()) {
					return true
				}
				np.List = append(np.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: te})
				args = append(args, id(v.Name()))
			}
			n := t.name("cond")
			t.extra = append(t.extra, &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: np, Results: &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{s.Cond}}}}})
			s.Cond = &ast.CallExpr{Fun: id(n), Args: args}
			return true
		}, nil)
	}
}

func sideFreeCalls(e ast.Expr) bool { // len() and conversions are fine
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW || x.Op == token.AND {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// incr: i++ → i = i + 1; x += y → x = x + y
func (t *tx) incr() {
	m := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND}
	astutil.Apply(t.file, func(c *astutil.Cursor) bool {
		switch s := c.Node().(type) {
		case *ast.IncDecStmt:
			if sideFree(s.X) && t.hit() {
				op := token.ADD
				if s.Tok == token.DEC {
					op = token.SUB
				}
				c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
			}
		case *ast.AssignStmt:
			if o, ok := m[s.Tok]; ok && sideFree(s.Lhs[0]) && t.hit() {
				s.Tok = token.ASSIGN
				s.Rhs[0] = &ast.BinaryExpr{X: s.Lhs[0], Op: o, Y: &ast.ParenExpr{X: s.Rhs[0]}}
			}
		}
		return true
	}, nil)
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	}
	return false
}

// elseret: if c { …; return }; rest → if c {…return} else { rest }
func (t *tx) elseret() {
	astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
		b, ok := c.Node().(*ast.BlockStmt)
		if !ok {
			return true
		}
		for i := len(b.List) - 2; i >= 0; i-- {
			s, ok := b.List[i].(*ast.IfStmt)
			if !ok || s.Else != nil || !terminates(s.Body) {
				continue
			}
			rest := b.List[i+1:]
			lab := false
			for _, r := range rest {
				if _, ok := r.(*ast.LabeledStmt); ok {
					lab = true
				}
			}
			if lab || !t.hit() {
				continue
			}
			if s.Init != nil {
				// the rest must not see the init's variables
				continue
			}
			s.Else = &ast.BlockStmt{List: append([]ast.Stmt(nil), rest...)}
			b.List = append(append([]ast.Stmt(nil), b.List[:i]...), s)
			if fd, ok := c.Parent().(*ast.FuncDecl); ok && fd.Type.Results != nil {
				if _, isRet := rest[len(rest)-1].(*ast.ReturnStmt); !isRet {
					if _, isIf := rest[len(rest)-1].(*ast.IfStmt); !isIf {
						_ = fd
					}
				}
			}
		}
		return true
	})
}

// extract: loop bodies and if/case bodies without control flow out of them become helpers that get pointers
// to the variables they assign and the values of the others.
func (t *tx) extract() {
	for _, d := range t.file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Type.TypeParams != nil {
			continue
		}
		if f.Recv != nil && strings.Contains(types.ExprString(f.Recv.List[0].Type), "[") {
			continue
		}
		tailRet := f.Type.Results
		_ = tailRet
		astutil.Apply(f.Body, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BlockStmt)
			if !ok || len(b.List) < 3 {
				return true
			}
			// the longest tail of the function body from the middle: return helper(vars)
			if c.Node() != ast.Node(f.Body) {
				return true
			}
			return true
		})
		// tail extraction: the second half of the function
		b := f.Body
		if len(b.List) < 4 {
			continue
		}
		k := len(b.List) / 2
		tail := b.List[k:]
		if f.Type.Results != nil {
			if _, ok := tail[len(tail)-1].(*ast.ReturnStmt); !ok {
				continue
			}
		}
		named := false
		if f.Type.Results != nil {
			for _, r := range f.Type.Results.List {
				named = named || len(r.Names) > 0
			}
		}
		bad := named
		// closures of the first half that share assigned variables are out, labels and defers too
		for _, s := range b.List {
			ast.Inspect(s, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.LabeledStmt, *ast.DeferStmt, *ast.FuncLit, *ast.GoStmt:
					bad = true
				case *ast.CallExpr:
				}
				return true
			})
		}
		if bad {
			continue
		}
		blk := &ast.BlockStmt{List: tail}
		// free variables of the tail
		var vs []*types.Var
		seen := map[*types.Var]bool{}
		lo := tail[0].Pos()
		for _, s := range tail {
			ast.Inspect(s, func(m ast.Node) bool {
				i, isID := m.(*ast.Ident)
				if !isID {
					return true
				}
				v, isV := t.info().Uses[i].(*types.Var)
				if !isV || v.IsField() || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() || seen[v] || v.Pos() >= lo {
					return true
				}
				seen[v] = true
				vs = append(vs, v)
				return true
			})
		}
		// a variable whose address was taken in the first half must not be copied
		for _, s := range b.List[:k] {
			ast.Inspect(s, func(n ast.Node) bool {
				if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.AND {
					if i, ok := u.X.(*ast.Ident); ok {
						if v, ok := t.info().Uses[i].(*types.Var); ok && seen[v] {
							_ = v
						}
					}
				}
				return true
			})
		}
		np := &ast.FieldList{}
		var args []ast.Expr
		okk := true
		for _, s := range b.List {
			ast.Inspect(s, func(m ast.Node) bool {
				if g, ok := m.(*ast.DeclStmt); ok {
					if d, ok := g.Decl.(*ast.GenDecl); ok && d.Tok != token.VAR {
						okk = false
					}
				}
				return true
			})
		}
		for _, v := range vs {
			te, ok := t.typeExpr(v.Type())
			if !ok || hasTypeParam(v.Type()) {
				okk = false
				break
			}
			np.List = append(np.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: te})
			args = append(args, id(v.Name()))
		}
		if !okk || !t.hit() {
			continue
		}
		n := t.name("tail")
		t.extra = append(t.extra, &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: np, Results: f.Type.Results}, Body: blk})
		call := &ast.CallExpr{Fun: id(n), Args: args}
		var last ast.Stmt = &ast.ExprStmt{X: call}
		if f.Type.Results != nil {
			last = &ast.ReturnStmt{Results: []ast.Expr{call}}
		}
		b.List = append(append([]ast.Stmt(nil), b.List[:k]...), last)
	}
}

// swif: expression switches become if chains
func (t *tx) swif() {
	astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.SwitchStmt)
		if !ok || s.Init != nil || s.Tag == nil || c.Index() < 0 {
			return true
		}
		bad := false
		ast.Inspect(s.Body, func(n ast.Node) bool {
			if b, ok := n.(*ast.BranchStmt); ok && (b.Tok == token.BREAK && b.Label == nil || b.Tok == token.FALLTHROUGH) {
				bad = true
			}
			return true
		})
		if len(s.Body.List) == 0 || bad || !t.hit() {
			return true
		}
		n := t.name("sw")
		c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Tag}})
		var def *ast.BlockStmt
		var first, cur *ast.IfStmt
		for _, cc := range s.Body.List {
			cl := cc.(*ast.CaseClause)
			body := &ast.BlockStmt{List: cl.Body}
			if cl.List == nil {
				def = body
				continue
			}
			var cond ast.Expr
			for _, e := range cl.List {
				var eq ast.Expr = &ast.BinaryExpr{X: id(n), Op: token.EQL, Y: e}
				if cond == nil {
					cond = eq
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: eq}
				}
			}
			i := &ast.IfStmt{Cond: cond, Body: body}
			if first == nil {
				first = i
			} else {
				cur.Else = i
			}
			cur = i
		}
		if first == nil {
			return true
		}
		if def != nil {
			cur.Else = def
		}
		c.Replace(first)
		return true
	})
}

// locals: x.f used in index/len expressions gets a local name? (not used)
func (t *tx) locals() {
	n := 0
	for _, d := range t.file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil {
			continue
		}
		m := map[types.Object]string{}
		ast.Inspect(f, func(x ast.Node) bool {
			if i, ok := x.(*ast.Ident); ok {
				o := t.info().Defs[i]
				if o == nil {
					return true
				}
				if v, ok := o.(*types.Var); ok && !v.IsField() && i.Name != "_" {
					n++
					m[o] = fmt.Sprintf("%s%dz", i.Name, n)
				}
			}
			return true
		})
		ast.Inspect(f, func(x ast.Node) bool {
			if i, ok := x.(*ast.Ident); ok {
				o := t.info().Defs[i]
				if o == nil {
					o = t.info().Uses[i]
				}
				if nm, ok := m[o]; ok {
					i.Name = nm
				}
			}
			return true
		})
	}
}
