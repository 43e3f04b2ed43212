package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// A table of functions that is only looked into is put back into the switch it stands for: in
//
//	if f, ok := table[k]; ok { f(x) }
//
// every entry becomes a case whose body calls the function of the entry. The same for a lookup that is followed by
// a test which leaves when there is no entry.

type table struct {
	v    *types.Var
	lit  *ast.CompositeLit
	decl ast.Stmt // of a local one
	uses int
}

// tables finds the maps from constants to functions whose variables are set where they are declared and only
// looked into after that.
func (n *normaliser) tables(p *packages.Package) map[*types.Var]*table {
	info := p.TypesInfo
	out := map[*types.Var]*table{}
	note := func(id *ast.Ident, e ast.Expr, decl ast.Stmt) {
		v, ok := info.Defs[id].(*types.Var)
		if !ok || v.Exported() && v.Parent() == p.Types.Scope() {
			return
		}
		lit, ok := ast.Unparen(e).(*ast.CompositeLit)
		if !ok || len(lit.Elts) == 0 || len(lit.Elts) > 24 {
			return
		}
		m, ok := v.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		if _, ok := m.Elem().Underlying().(*types.Signature); !ok {
			return
		}
		if _, ok := m.Key().Underlying().(*types.Basic); !ok {
			return
		}
		for _, el := range lit.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok || info.Types[kv.Key].Value == nil {
				return
			}
			switch f := ast.Unparen(kv.Value).(type) {
			case *ast.Ident:
				if _, ok := info.Uses[f].(*types.Func); !ok {
					return
				}
			case *ast.SelectorExpr:
				sel := info.Selections[f]
				if sel == nil || len(sel.Index()) != 1 {
					return
				}
				if sel.Kind() == types.MethodVal {
					x, ok := ast.Unparen(f.X).(*ast.Ident)
					if !ok || !n.fixedVar(p, x) || types.IsInterface(sel.Recv()) {
						return
					}
				} else if sel.Kind() != types.MethodExpr {
					return
				}
			case *ast.FuncLit:
				if decl == nil {
					return
				}
			default:
				return
			}
		}
		out[v] = &table{v: v, lit: lit, decl: decl}
	}
	for _, f := range p.Syntax {
		ast.Inspect(f, func(x ast.Node) bool {
			switch d := x.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR && len(vs.Names) == 1 && len(vs.Values) == 1 && p.TypesInfo.Defs[vs.Names[0]] != nil && p.TypesInfo.Defs[vs.Names[0]].Parent() == p.Types.Scope() {
						note(vs.Names[0], vs.Values[0], nil)
					}
				}
			case *ast.AssignStmt:
				if d.Tok == token.DEFINE && len(d.Lhs) == 1 && len(d.Rhs) == 1 {
					note(d.Lhs[0].(*ast.Ident), d.Rhs[0], d)
				}
			}
			return true
		})
	}
	if len(out) == 0 {
		return nil
	}
	// every use is a lookup
	good := map[*ast.Ident]bool{}
	for _, f := range p.Syntax {
		ast.Inspect(f, func(x ast.Node) bool {
			if a, ok := x.(*ast.AssignStmt); ok && len(a.Lhs) == 2 && len(a.Rhs) == 1 {
				if ix, ok := ast.Unparen(a.Rhs[0]).(*ast.IndexExpr); ok {
					if id, ok := ast.Unparen(ix.X).(*ast.Ident); ok {
						good[id] = true
					}
				}
			}
			return true
		})
	}
	for id, o := range info.Uses {
		if v, ok := o.(*types.Var); ok && out[v] != nil {
			out[v].uses++
			if !good[id] {
				delete(out, v)
			}
		}
	}
	for v, t := range out {
		if t.decl != nil && t.uses != 1 {
			delete(out, v)
		}
	}
	return out
}

// fixedVar: a variable that is never assigned to after its declaration and whose address is not taken.
func (n *normaliser) fixedVar(p *packages.Package, id *ast.Ident) bool {
	v, ok := p.TypesInfo.Uses[id].(*types.Var)
	if !ok || v.Parent() == p.Types.Scope() {
		return false
	}
	is := func(e ast.Expr) bool {
		i, ok := ast.Unparen(e).(*ast.Ident)
		return ok && p.TypesInfo.Uses[i] == v
	}
	fixed := true
	for _, f := range p.Syntax {
		if f.Pos() > v.Pos() || v.Pos() > f.End() {
			continue
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch s := x.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					fixed = fixed && !is(l)
				}
			case *ast.IncDecStmt:
				fixed = fixed && !is(s.X)
			case *ast.RangeStmt:
				fixed = fixed && !(s.Key != nil && is(s.Key)) && !(s.Value != nil && is(s.Value))
			case *ast.UnaryExpr:
				fixed = fixed && !(s.Op == token.AND && is(s.X))
			}
			return true
		})
	}
	return fixed
}

// movable: statements that may become the body of a case: no labels, no break that would end the switch instead.
func movable(l []ast.Stmt) bool {
	ok := true
	var walk func(x ast.Node, inner bool)
	walk = func(x ast.Node, inner bool) {
		ast.Inspect(x, func(y ast.Node) bool {
			if y == x {
				return true
			}
			switch s := y.(type) {
			case *ast.LabeledStmt:
				ok = false
			case *ast.BranchStmt:
				if s.Tok == token.BREAK && s.Label == nil && !inner || s.Tok == token.GOTO || s.Tok == token.FALLTHROUGH && !inner {
					ok = false
				}
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(y, true)
				return false
			case *ast.FuncLit:
				return false
			}
			return true
		})
	}
	for _, s := range l {
		if _, is := s.(*ast.LabeledStmt); is {
			return false
		}
		if b, is := s.(*ast.BranchStmt); is && b.Tok != token.CONTINUE {
			return false
		}
		_, a := s.(*ast.ForStmt)
		_, b := s.(*ast.RangeStmt)
		_, c := s.(*ast.SwitchStmt)
		_, d := s.(*ast.TypeSwitchStmt)
		_, e := s.(*ast.SelectStmt)
		walk(s, a || b || c || d || e)
	}
	return ok
}

func (n *normaliser) dispatch() bool {
	did := false
	for _, p := range n.pk {
		n.pkg = p
		ts := n.tables(p)
		if len(ts) == 0 {
			continue
		}
		drop := map[ast.Stmt]bool{}
		for _, f := range p.Syntax {
			var lists func(x ast.Node)
			lists = func(x ast.Node) {
				ast.Inspect(x, func(y ast.Node) bool {
					switch b := y.(type) {
					case *ast.BlockStmt:
						if l, ok := n.dispatchIn(p, ts, drop, b.List); ok {
							b.List = l
							n.files[f] = true
							did = true
						}
					case *ast.CaseClause:
						if l, ok := n.dispatchIn(p, ts, drop, b.Body); ok {
							b.Body = l
							n.files[f] = true
							did = true
						}
					}
					return true
				})
			}
			lists(f)
			if len(drop) > 0 {
				astutil.Apply(f, func(c *astutil.Cursor) bool {
					if s, ok := c.Node().(ast.Stmt); ok && drop[s] {
						c.Delete()
						return false
					}
					return true
				}, nil)
			}
		}
	}
	sort.Strings(n.notes)
	return did
}

// lookup: f, ok := table[k]
func (n *normaliser) tableLookup(p *packages.Package, ts map[*types.Var]*table, s ast.Stmt) (t *table, key ast.Expr, f, ok *types.Var) {
	a, is := s.(*ast.AssignStmt)
	if !is || a.Tok != token.DEFINE || len(a.Lhs) != 2 || len(a.Rhs) != 1 {
		return
	}
	ix, is := ast.Unparen(a.Rhs[0]).(*ast.IndexExpr)
	if !is {
		return
	}
	id, is := ast.Unparen(ix.X).(*ast.Ident)
	if !is {
		return
	}
	v, _ := p.TypesInfo.Uses[id].(*types.Var)
	if v == nil || ts[v] == nil {
		return
	}
	fid, _ := a.Lhs[0].(*ast.Ident)
	oid, _ := a.Lhs[1].(*ast.Ident)
	f, _ = p.TypesInfo.Defs[fid].(*types.Var)
	ok, _ = p.TypesInfo.Defs[oid].(*types.Var)
	if f == nil || ok == nil {
		return nil, nil, nil, nil
	}
	return ts[v], ix.Index, f, ok
}

func (n *normaliser) dispatchIn(p *packages.Package, ts map[*types.Var]*table, drop map[ast.Stmt]bool, l []ast.Stmt) ([]ast.Stmt, bool) {
	uses := func(l []ast.Stmt, v *types.Var) int {
		k := 0
		for _, s := range l {
			ast.Inspect(s, func(x ast.Node) bool {
				if i, ok := x.(*ast.Ident); ok && p.TypesInfo.Uses[i] == v {
					k++
				}
				return true
			})
		}
		return k
	}
	for i, s := range l {
		if ifs, is := s.(*ast.IfStmt); is && ifs.Init != nil {
			t, key, f, ok := n.tableLookup(p, ts, ifs.Init)
			if t == nil {
				continue
			}
			var els []ast.Stmt
			if ifs.Else != nil {
				els = []ast.Stmt{ifs.Else}
				if b, is := ifs.Else.(*ast.BlockStmt); is {
					els = b.List
				}
			}
			hit, miss := ifs.Body.List, els
			if c, is := ast.Unparen(ifs.Cond).(*ast.UnaryExpr); is && c.Op == token.NOT && isUse(p, c.X, ok) {
				hit, miss = els, ifs.Body.List
			} else if !isUse(p, ifs.Cond, ok) {
				continue
			}
			if uses(hit, ok)+uses(miss, ok)+uses(miss, f) > 0 || !movable(hit) || !movable(miss) {
				continue
			}
			sw, done := n.tableSwitch(p, t, key, f, hit, miss, drop)
			if !done {
				continue
			}
			n.notes = append(n.notes, fmt.Sprintf("lookups of %s made cases", t.v.Name()))
			return append(append(append([]ast.Stmt(nil), l[:i]...), sw), l[i+1:]...), true
		}
		t, key, f, ok := n.tableLookup(p, ts, s)
		if t == nil || i+1 >= len(l) {
			continue
		}
		ifs, is := l[i+1].(*ast.IfStmt)
		if !is || ifs.Init != nil || ifs.Else != nil || !leavesAlways(ifs.Body) {
			continue
		}
		c, is := ast.Unparen(ifs.Cond).(*ast.UnaryExpr)
		if !is || c.Op != token.NOT || !isUse(p, c.X, ok) {
			continue
		}
		hit, miss := l[i+2:], ifs.Body.List
		if uses(hit, ok)+uses(miss, ok)+uses(miss, f) > 0 || !movable(hit) || !movable(miss) {
			continue
		}
		sw, done := n.tableSwitch(p, t, key, f, hit, miss, drop)
		if !done {
			continue
		}
		n.notes = append(n.notes, fmt.Sprintf("lookups of %s made cases", t.v.Name()))
		return append(append([]ast.Stmt(nil), l[:i]...), sw), true
	}
	return nil, false
}

func isUse(p *packages.Package, e ast.Expr, v *types.Var) bool {
	i, ok := ast.Unparen(e).(*ast.Ident)
	return ok && p.TypesInfo.Uses[i] == v
}

func (n *normaliser) tableSwitch(p *packages.Package, t *table, key ast.Expr, f *types.Var, hit, miss []ast.Stmt, drop map[ast.Stmt]bool) (ast.Stmt, bool) {
	sw := &ast.SwitchStmt{Tag: cloneNode(key, nil), Body: &ast.BlockStmt{}}
	for _, el := range t.lit.Elts {
		kv := el.(*ast.KeyValueExpr)
		used := map[*ast.Ident]bool{}
		body := &ast.BlockStmt{}
		for _, s := range hit {
			body.List = append(body.List, cloneNode(s, func(old, new *ast.Ident) {
				if p.TypesInfo.Uses[old] == f {
					used[new] = true
				}
			}))
		}
		if len(used) == 0 {
			return nil, false
		}
		whole := true
		sel, _ := ast.Unparen(kv.Value).(*ast.SelectorExpr)
		expr := sel != nil && p.TypesInfo.Selections[sel].Kind() == types.MethodExpr
		astutil.Apply(body, func(c *astutil.Cursor) bool {
			switch x := c.Node().(type) {
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && used[id] && expr && len(x.Args) > 0 {
					x.Fun = &ast.SelectorExpr{X: x.Args[0], Sel: ident(sel.Sel.Name)}
					x.Args = x.Args[1:]
				}
			case *ast.Ident:
				if used[x] {
					if _, isLit := ast.Unparen(kv.Value).(*ast.FuncLit); isLit && len(used) > 1 {
						whole = false
					}
					c.Replace(&ast.ParenExpr{X: cloneNode(kv.Value, nil)})
					return false
				}
			}
			return true
		}, func(c *astutil.Cursor) bool {
			// calls of the plain function
			if x, ok := c.Node().(*ast.CallExpr); ok {
				if pe, ok := x.Fun.(*ast.ParenExpr); ok {
					if _, isLit := pe.X.(*ast.FuncLit); !isLit {
						x.Fun = pe.X
					}
				}
			}
			return true
		})
		if !whole {
			return nil, false
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{cloneNode(kv.Key, nil)}, Body: body.List})
	}
	if len(miss) > 0 {
		var body []ast.Stmt
		for _, s := range miss {
			body = append(body, cloneNode(s, nil))
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: body})
	}
	if t.decl != nil {
		drop[t.decl] = true
	}
	return sw, true
}
