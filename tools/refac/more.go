package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

// rename gives the unexported objects of one kind another name.
func (t *tx) rename(kind string) {
	embedded := map[string]bool{}
	for _, f := range t.pkg.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.StructType); ok {
				for _, fl := range s.Fields.List {
					if len(fl.Names) == 0 {
						x := fl.Type
						if p, ok := x.(*ast.StarExpr); ok {
							x = p.X
						}
						if i, ok := x.(*ast.Ident); ok {
							embedded[i.Name] = true
						}
					}
				}
			}
			return true
		})
	}
	want := func(o types.Object) bool {
		if o == nil || o.Pkg() == nil || !strings.Contains(o.Pkg().Path(), "gologix") || o.Name() == "_" {
			return false
		}
		switch x := o.(type) {
		case *types.Func:
			return kind == "renfunc" && !ast.IsExported(x.Name()) && x.Name() != "init" && x.Name() != "main" && x.Pkg() == t.pkg.Types
		case *types.Var:
			if x.IsField() {
				return kind == "renfield" && !ast.IsExported(x.Name()) && !x.Embedded()
			}
			if x.Parent() == x.Pkg().Scope() {
				return kind == "rentype" && !ast.IsExported(x.Name())
			}
			return kind == "renlocal"
		case *types.TypeName, *types.Const:
			return kind == "rentype" && o.Parent() == o.Pkg().Scope() && !ast.IsExported(o.Name()) && !embedded[o.Name()]
		}
		return false
	}
	ast.Inspect(t.file, func(n ast.Node) bool {
		i, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := t.info().Defs[i]
		if o == nil {
			o = t.info().Uses[i]
		}
		if want(o) {
			i.Name = "zz" + strings.ToUpper(i.Name[:1]) + i.Name[1:] + "Q"
			if kind == "renlocal" {
				i.Name = "zz" + i.Name[len(i.Name)-2-1:]
				i.Name = i.Name + hash(o.Name())
			}
		}
		return true
	})
	if kind == "renlocal" { // the variable of a type switch has an object per clause
		ast.Inspect(t.file, func(n ast.Node) bool {
			s, ok := n.(*ast.TypeSwitchStmt)
			if !ok {
				return true
			}
			a, ok := s.Assign.(*ast.AssignStmt)
			if !ok {
				return true
			}
			i := a.Lhs[0].(*ast.Ident)
			if t.info().Defs[i] == nil {
				o := i.Name
				i.Name = "zz" + hash(o)
				i.Name = renLocal(o)
			}
			return true
		})
	}
}

func renLocal(o string) string {
	n := "zz" + strings.ToUpper(o[:1]) + o[1:] + "Q"
	return "zz" + n[len(n)-3:] + hash(o)
}

func hash(s string) string {
	h := uint32(17)
	for _, c := range s {
		h = h*31 + uint32(c)
	}
	const d = "abcdefghijklmnop"
	out := ""
	for i := 0; i < 6; i++ {
		out += string(d[h&15])
		h >>= 4
	}
	return out
}

// litfields: v := T{A: x, B: y}  →  var v T; v.A = x; v.B = y
func (t *tx) litfields() {
	astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.AssignStmt)
		if !ok || s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 || c.Index() < 0 {
			return true
		}
		v, ok := s.Lhs[0].(*ast.Ident)
		l, ok2 := s.Rhs[0].(*ast.CompositeLit)
		if !ok || !ok2 || l.Type == nil || t.info().Defs[v] == nil {
			return true
		}
		if _, ok := t.info().TypeOf(l).Underlying().(*types.Struct); !ok {
			return true
		}
		for _, e := range l.Elts {
			if _, ok := e.(*ast.KeyValueExpr); !ok {
				return true
			}
		}
		if !t.hit() {
			return true
		}
		c.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(v.Name)}, Type: l.Type}}}})
		for i, e := range l.Elts {
			kv := e.(*ast.KeyValueExpr)
			a := &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(v.Name), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}}
			if i == len(l.Elts)-1 {
				c.Replace(a)
			} else {
				c.InsertBefore(a)
			}
		}
		if len(l.Elts) == 0 {
			c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v.Name)}})
		}
		return true
	})
}

// declassign: v := e  →  var v T; v = e
func (t *tx) declassign() {
	astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.AssignStmt)
		if !ok || s.Tok != token.DEFINE || c.Index() < 0 {
			return true
		}
		var pre []ast.Stmt
		for _, l := range s.Lhs {
			v := l.(*ast.Ident)
			o := t.info().Defs[v]
			if o == nil {
				continue
			}
			te, ok := t.typeExpr(o.Type())
			if !ok || hasTypeParam(o.Type()) {
				return true
			}
			pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(v.Name)}, Type: te}}}})
			for _, r := range s.Rhs {
				bad := false
				ast.Inspect(r, func(n ast.Node) bool {
					if i, ok := n.(*ast.Ident); ok && i.Name == v.Name {
						bad = true
					}
					return true
				})
				if bad {
					return true
				}
			}
		}
		if _, isClause := c.Parent().(*ast.CommClause); isClause {
			if c.Name() == "Comm" {
				return true
			}
		}
		if !t.hit() {
			return true
		}
		for _, p := range pre {
			c.InsertBefore(p)
		}
		s.Tok = token.ASSIGN
		return true
	})
}

// splitif: if a && b {X}  →  if a { if b {X} };  if a || b {return}  →  if a {return}; if b {return}
func (t *tx) splitif() {
	astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil || c.Index() < 0 {
			return true
		}
		b, ok := s.Cond.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		switch b.Op {
		case token.LAND:
			if t.hit() {
				s.Cond = b.X
				s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
			}
		case token.LOR:
			if terminates(s.Body) && t.hit() {
				c.InsertBefore(&ast.IfStmt{Cond: b.X, Body: s.Body})
				s.Cond = b.Y
			}
		}
		return true
	})
}

// loopfor: for init; c; post {B}  →  for init; ; post { if !c {break}; B }
func (t *tx) loopfor() {
	astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
		s, ok := c.Node().(*ast.ForStmt)
		if !ok || s.Cond == nil || !t.hit() {
			return true
		}
		s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: s.Cond}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
		s.Cond = nil
		return true
	})
}

// swapstmts: adjacent simple assignments that have nothing to do with one another change places
func (t *tx) swapstmts() {
	vars := func(s ast.Stmt) (rd, wr map[string]bool, ok bool) {
		rd, wr = map[string]bool{}, map[string]bool{}
		ok = true
		pure := func(e ast.Expr) {
			ast.Inspect(e, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.Ident:
					rd[x.Name] = true
				case *ast.CallExpr:
					if tv, is := t.info().Types[x.Fun]; is && tv.IsType() {
						return true
					}
					if i, is := x.Fun.(*ast.Ident); is && (i.Name == "len" || i.Name == "make" || i.Name == "new") {
						return true
					}
					if n := types.ExprString(x.Fun); strings.HasPrefix(n, "newItem") || strings.HasPrefix(n, "bytes.NewBuffer") {
						return true
					}
					ok = false
				case *ast.UnaryExpr:
					if x.Op == token.ARROW || x.Op == token.AND {
						ok = false
					}
				case *ast.StarExpr, *ast.IndexExpr, *ast.SliceExpr, *ast.TypeAssertExpr, *ast.FuncLit:
					ok = false
				case *ast.BinaryExpr:
					if x.Op == token.QUO || x.Op == token.REM {
						ok = false
					}
				}
				return true
			})
		}
		switch x := s.(type) {
		case *ast.AssignStmt:
			if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
				return rd, wr, false
			}
			for _, r := range x.Rhs {
				pure(r)
			}
			for _, l := range x.Lhs {
				base := l
				for {
					if sel, is := base.(*ast.SelectorExpr); is {
						if _, ptr := t.info().TypeOf(sel.X).Underlying().(*types.Pointer); ptr {
							ok = false
						}
						base = sel.X
						continue
					}
					break
				}
				i, is := base.(*ast.Ident)
				if !is {
					return rd, wr, false
				}
				wr[i.Name] = true
			}
		case *ast.DeclStmt:
			g := x.Decl.(*ast.GenDecl)
			if g.Tok != token.VAR {
				return rd, wr, false
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for _, e := range v.Values {
					pure(e)
				}
				for _, n := range v.Names {
					wr[n.Name] = true
				}
			}
		default:
			return rd, wr, false
		}
		return rd, wr, ok
	}
	ast.Inspect(t.file, func(n ast.Node) bool {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return true
		}
		for i := 0; i+1 < len(b.List); i++ {
			r1, w1, ok1 := vars(b.List[i])
			r2, w2, ok2 := vars(b.List[i+1])
			if !ok1 || !ok2 {
				continue
			}
			clash := false
			for k := range w1 {
				clash = clash || r2[k] || w2[k]
			}
			for k := range w2 {
				clash = clash || r1[k]
			}
			if clash || !t.hit() {
				continue
			}
			b.List[i], b.List[i+1] = b.List[i+1], b.List[i]
			i++
		}
		return true
	})
}

// outline moves stmts of f into a helper that returns the variables used afterwards and an error. The result takes
// their place; nil when they can't be moved.
func (t *tx) outline(f *ast.FuncDecl, stmts []ast.Stmt, after []ast.Node, loop bool) []ast.Stmt {
	if len(stmts) == 0 || f.Type.TypeParams != nil || t.pkg.Name == "canned" {
		return nil
	}
	if f.Recv != nil && strings.Contains(types.ExprString(f.Recv.List[0].Type), "[") {
		return nil
	}
	var rets []*ast.ReturnStmt
	var conts []*ast.BranchStmt
	bad := false
	depth := 0
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt, *ast.SelectStmt:
				bad = true
				return false
			case *ast.ReturnStmt:
				rets = append(rets, x)
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.GOTO {
					bad = true
				}
				if depth == 0 {
					if x.Tok == token.CONTINUE && loop {
						conts = append(conts, x)
					} else {
						bad = true
					}
				} else if x.Tok == token.CONTINUE && loop {
					bad = true // keep it simple
				}
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				if m == n {
					return true
				}
				depth++
				walk(m)
				depth--
				return false
			case *ast.DeclStmt:
				if x.Decl.(*ast.GenDecl).Tok != token.VAR {
					bad = true
				}
			}
			return true
		})
	}
	for _, s := range stmts {
		switch s.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			depth++
			walk(s)
			depth--
		default:
			walk(s)
		}
	}
	if bad || len(conts) > 0 {
		return nil
	}
	// returns: all with a last error that isn't the literal nil, and the same other results
	nres := 0
	if f.Type.Results != nil {
		for _, r := range f.Type.Results.List {
			if len(r.Names) > 0 {
				return nil
			}
			nres++
		}
	}
	others := ""
	var otherEx []ast.Expr
	for i, r := range rets {
		if nres == 0 || len(r.Results) != nres || types.ExprString(f.Type.Results.List[nres-1].Type) != "error" {
			return nil
		}
		e := r.Results[nres-1]
		switch x := e.(type) {
		case *ast.CallExpr:
			if n := types.ExprString(x.Fun); n != "fmt.Errorf" && n != "errors.New" {
				return nil
			}
		case *ast.Ident:
			if x.Name != "err" {
				return nil
			}
		default:
			return nil
		}
		o := ""
		for _, x := range r.Results[:nres-1] {
			switch y := x.(type) {
			case *ast.BasicLit, *ast.CompositeLit:
				if c, ok := y.(*ast.CompositeLit); ok && len(c.Elts) > 0 {
					return nil
				}
			case *ast.Ident:
				if y.Name != "nil" && y.Name != "false" && y.Name != "true" {
					return nil
				}
			default:
				return nil
			}
			o += types.ExprString(x) + ","
		}
		if i > 0 && o != others {
			return nil
		}
		others, otherEx = o, r.Results[:nres-1]
	}
	lo, hi := stmts[0].Pos(), stmts[len(stmts)-1].End()
	in := map[*types.Var]bool{}
	var ins, outs []*types.Var
	assigned := map[*types.Var]bool{}
	local := map[*types.Var]bool{}
	for _, s := range stmts {
		ast.Inspect(s, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					root := l
					for {
						if sel, ok := root.(*ast.SelectorExpr); ok {
							if tt := t.info().TypeOf(sel.X); tt != nil {
								if _, ptr := tt.Underlying().(*types.Pointer); ptr {
									break
								}
							}
							root = sel.X
							continue
						}
						if ix, ok := root.(*ast.IndexExpr); ok {
							if _, arr := t.info().TypeOf(ix.X).Underlying().(*types.Array); arr {
								root = ix.X
								continue
							}
						}
						break
					}
					if i, ok := root.(*ast.Ident); ok {
						if v, ok := t.info().Uses[i].(*types.Var); ok {
							assigned[v] = true
						}
					}
				}
			case *ast.IncDecStmt:
				if i, ok := x.X.(*ast.Ident); ok {
					if v, ok := t.info().Uses[i].(*types.Var); ok {
						assigned[v] = true
					}
				} else {
					bad = true
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					root := x.X
					for {
						if sel, ok := root.(*ast.SelectorExpr); ok {
							root = sel.X
							continue
						}
						break
					}
					if i, ok := root.(*ast.Ident); ok {
						if v, ok := t.info().Uses[i].(*types.Var); ok {
							assigned[v] = true
						}
					}
				}
			case *ast.CallExpr: // a method that takes the address of its receiver
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
					if s := t.info().Selections[sel]; s != nil && s.Kind() == types.MethodVal {
						if sig, ok := s.Obj().Type().(*types.Signature); ok {
							if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
								if _, recvPtr := t.info().TypeOf(sel.X).Underlying().(*types.Pointer); !recvPtr {
									root := sel.X
									for {
										if q, ok := root.(*ast.SelectorExpr); ok {
											root = q.X
											continue
										}
										break
									}
									if i, ok := root.(*ast.Ident); ok {
										if v, ok := t.info().Uses[i].(*types.Var); ok {
											assigned[v] = true
										}
									} else {
										bad = true
									}
								}
							}
						}
					}
				}
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					bad = true
				}
			case *ast.Ident:
				switch o := t.info().Uses[x].(type) {
				case *types.TypeName, *types.Const:
					if o.Pkg() != nil && o.Parent() != o.Pkg().Scope() {
						bad = true
					}
				}
				if v, ok := t.info().Defs[x].(*types.Var); ok {
					local[v] = true
				}
				v, ok := t.info().Uses[x].(*types.Var)
				if ok && !v.IsField() && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() && !local[v] && !in[v] && (v.Pos() < lo || v.Pos() > hi) {
					in[v] = true
					ins = append(ins, v)
				}
			}
			return true
		})
	}
	if bad {
		return nil
	}
	used := map[*types.Var]bool{}
	addrBefore := map[*types.Var]bool{}
	ast.Inspect(f.Body, func(m ast.Node) bool {
		if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.AND {
			if i, ok := u.X.(*ast.Ident); ok {
				if v, ok := t.info().Uses[i].(*types.Var); ok && !(m.Pos() >= lo && m.End() <= hi) {
					addrBefore[v] = true
				}
			}
		}
		if fl, ok := m.(*ast.FuncLit); ok {
			ast.Inspect(fl, func(q ast.Node) bool {
				if i, ok := q.(*ast.Ident); ok {
					if v, ok := t.info().Uses[i].(*types.Var); ok {
						addrBefore[v] = true
					}
				}
				return true
			})
		}
		return true
	})
	for _, n := range after {
		ast.Inspect(n, func(m ast.Node) bool {
			if i, ok := m.(*ast.Ident); ok {
				if v, ok := t.info().Uses[i].(*types.Var); ok {
					used[v] = true
				}
			}
			return true
		})
	}
	for v := range assigned {
		if in[v] && addrBefore[v] {
			return nil
		}
		// handed over by pointer below? only plain values are
		if in[v] && used[v] {
			if _, isS := v.Type().Underlying().(*types.Struct); isS && strings.Contains(v.Type().String(), "sync.") {
				return nil
			}
		}
	}
	seen := map[*types.Var]bool{}
	var decl []*types.Var
	for _, s := range stmts {
		ast.Inspect(s, func(m ast.Node) bool {
			if i, ok := m.(*ast.Ident); ok {
				if v, ok := t.info().Defs[i].(*types.Var); ok && used[v] && !seen[v] {
					seen[v] = true
					outs, decl = append(outs, v), append(decl, v)
				}
			}
			return true
		})
	}
	for _, v := range ins {
		if assigned[v] && (used[v] || loop) && !seen[v] {
			seen[v] = true
			outs = append(outs, v)
		}
	}
	hasErr := len(rets) > 0
	for _, v := range append(append([]*types.Var(nil), ins...), outs...) {
		if localType(v.Type(), 0) {
			return nil
		}
	}
	np, rp := &ast.FieldList{}, &ast.FieldList{}
	var args, lhs, back, zeros []ast.Expr
	for _, v := range ins {
		te, ok := t.typeExpr(v.Type())
		if !ok || hasTypeParam(v.Type()) || strings.Contains(v.Type().String(), "sync.") && !strings.HasPrefix(v.Type().String(), "*") {
			return nil
		}
		np.List = append(np.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: te})
		args = append(args, id(v.Name()))
	}
	var pre []ast.Stmt
	for _, v := range outs {
		te, ok := t.typeExpr(v.Type())
		if !ok || hasTypeParam(v.Type()) {
			return nil
		}
		rp.List = append(rp.List, &ast.Field{Type: te})
		lhs, back = append(lhs, id(v.Name())), append(back, id(v.Name()))
		var z ast.Expr = id("nil")
		switch u := v.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				z = &ast.BasicLit{Kind: token.STRING, Value: `""`}
			case u.Info()&types.IsBoolean != 0:
				z = id("false")
			default:
				z = &ast.BasicLit{Kind: token.INT, Value: "0"}
			}
		case *types.Struct, *types.Array:
			z = &ast.CompositeLit{Type: te}
		}
		zeros = append(zeros, z)
	}
	for _, v := range decl {
		te, _ := t.typeExpr(v.Type())
		pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(v.Name())}, Type: te}}}})
	}
	if len(outs) > 5 || !t.hit() {
		return nil
	}
	n := t.name("part")
	body := append([]ast.Stmt(nil), stmts...)
	if hasErr {
		rp.List = append(rp.List, &ast.Field{Type: id("error")})
		back = append(back, id("nil"))
		for _, r := range rets {
			r.Results = append(append([]ast.Expr(nil), zeros...), r.Results[nres-1])
		}
	}
	if len(back) > 0 {
		body = append(body, &ast.ReturnStmt{Results: back})
	}
	ft := &ast.FuncType{Params: np}
	if len(rp.List) > 0 {
		ft.Results = rp
	}
	t.extra = append(t.extra, &ast.FuncDecl{Name: id(n), Type: ft, Body: &ast.BlockStmt{List: body}})
	call := &ast.CallExpr{Fun: id(n), Args: args}
	out := pre
	en := n + "Err"
	switch {
	case len(back) == 0:
		out = append(out, &ast.ExprStmt{X: call})
	case !hasErr:
		out = append(out, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{call}})
	default:
		out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(en)}, Type: id("error")}}}},
			&ast.AssignStmt{Lhs: append(lhs, id(en)), Tok: token.ASSIGN, Rhs: []ast.Expr{call}},
			&ast.IfStmt{Cond: &ast.BinaryExpr{X: id(en), Op: token.NEQ, Y: id("nil")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: append(append([]ast.Expr(nil), otherEx...), id(en))}}}})
	}
	return out
}

// midext: a middle part of each function becomes a helper (from num/den of it on, one third long)
func (t *tx) midext(num, den, span int) {
	for _, d := range t.file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || len(f.Body.List) < 4 {
			continue
		}
		l := f.Body.List
		done := false
		for i := len(l) * num / den; i < len(l)-1 && !done; i++ {
			for k := len(l) / span; k >= 2 && !done; k-- {
				if i+k >= len(l) {
					continue
				}
				var after []ast.Node
				for _, s := range l[i+k:] {
					after = append(after, s)
				}
				if n := t.outline(f, l[i:i+k], after, false); n != nil {
					f.Body.List = append(append(append([]ast.Stmt(nil), l[:i]...), n...), l[i+k:]...)
					done = true
				}
			}
		}
	}
}

// loopbody: bodies of loops become helpers
func (t *tx) loopbody() {
	for _, d := range t.file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil {
			continue
		}
		ast.Inspect(f.Body, func(n ast.Node) bool {
			var b *ast.BlockStmt
			var after []ast.Node
			switch x := n.(type) {
			case *ast.ForStmt:
				b = x.Body
			case *ast.RangeStmt:
				b = x.Body
			default:
				return true
			}
			if len(b.List) == 0 {
				return true
			}
			if o := t.outline(f, b.List, after, true); o != nil {
				// variables the body declares stay inside it
				b.List = o
				return false
			}
			return true
		})
	}
}

func localType(ty types.Type, d int) bool {
	if d > 6 {
		return false
	}
	switch x := ty.(type) {
	case *types.Named:
		o := x.Obj()
		return o.Pkg() != nil && o.Parent() != o.Pkg().Scope()
	case *types.Pointer:
		return localType(x.Elem(), d+1)
	case *types.Slice:
		return localType(x.Elem(), d+1)
	case *types.Array:
		return localType(x.Elem(), d+1)
	case *types.Map:
		return localType(x.Elem(), d+1) || localType(x.Key(), d+1)
	}
	return false
}
