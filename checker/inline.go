package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Before lowering, calls of functions whose body is one side-effect-free expression are replaced by that
// expression, in an in-memory copy of the sources with the same lines. An expression given a name in a helper
// function is then judged like the expression itself.

type inlCand struct {
	fn     *types.Func
	decl   *ast.FuncDecl
	file   *ast.File
	expr   ast.Expr
	params []*types.Var // receiver first
	uses   map[*types.Var]int
	always map[*types.Var]bool // evaluated whenever the expression is
	calls  bool                // the expression makes calls that are not known to be pure
}

type inliner struct {
	pkg   *packages.Package
	src   map[string][]byte
	cands map[*types.Func]*inlCand
	stack map[*types.Func]bool
	done  map[*ast.Ident]bool // references replaced
	n     int
}

func (in *inliner) info() *types.Info { return in.pkg.TypesInfo }

func (in *inliner) text(n ast.Node) (string, bool) {
	p, e := in.pkg.Fset.Position(n.Pos()), in.pkg.Fset.Position(n.End())
	s, ok := in.src[p.Filename]
	if !ok || p.Offset < 0 || e.Offset > len(s) || p.Offset > e.Offset {
		return "", false
	}
	return string(s[p.Offset:e.Offset]), true
}

var pureCalls = map[string]bool{"strings": true, "bytes.Equal": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Contains": true,
	"bytes.IndexByte": true, "bytes.Index": true, "slices.Contains": true, "slices.Equal": true, "slices.Index": true, "math": true, "unicode": true, "unicode/utf8": true,
	"errors.Is": true, "encoding/binary.Size": true, "math/bits": true}

// pureCall: a builtin, a conversion or a library function without effects.
func (in *inliner) pureCall(c *ast.CallExpr) bool {
	tv := in.info().Types[c.Fun]
	if tv.IsType() {
		return true
	}
	if tv.IsBuiltin() {
		if i, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
			switch i.Name {
			case "len", "cap", "min", "max":
				return true
			}
		}
		return false
	}
	if s, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		if f, ok := in.info().Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && f.Type().(*types.Signature).Recv() == nil {
			return pureCalls[f.Pkg().Path()] || pureCalls[f.Pkg().Path()+"."+f.Name()]
		}
	}
	return false
}

func (in *inliner) callee(c *ast.CallExpr) (*inlCand, *ast.Ident, ast.Expr) {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		if o, ok := in.info().Uses[f].(*types.Func); ok {
			return in.cands[o], f, nil
		}
	case *ast.SelectorExpr:
		if s := in.info().Selections[f]; s != nil && s.Kind() == types.MethodVal && len(s.Index()) == 1 {
			if o, ok := s.Obj().(*types.Func); ok {
				return in.cands[o], f.Sel, f.X
			}
		}
	}
	return nil, nil, nil
}

// pure tells whether evaluating e has no effect; panics reports that it may panic.
func (in *inliner) pure(e ast.Expr) (ok, panics bool) {
	ok = true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.TypeAssertExpr:
			panics = true
		case *ast.SelectorExpr:
			if s := in.info().Selections[x]; s != nil && (s.Indirect() || len(s.Index()) > 1) {
				panics = true
			}
		case *ast.BinaryExpr:
			if x.Op == token.QUO || x.Op == token.REM || x.Op == token.SHL || x.Op == token.SHR {
				panics = true
			}
		case *ast.CompositeLit:
			if _, isMap := in.info().TypeOf(x).Underlying().(*types.Map); isMap {
				ok = false
			}
		case *ast.CallExpr:
			if !in.pureCall(x) {
				c, _, _ := in.callee(x)
				if c == nil || c.calls || in.stack[c.fn] {
					ok = false
				}
				panics = true
			}
		}
		return ok
	})
	return
}

func newInliner(pkg *packages.Package, base map[string][]byte) *inliner {
	in := &inliner{pkg: pkg, src: map[string][]byte{}, cands: map[*types.Func]*inlCand{}, stack: map[*types.Func]bool{}, done: map[*ast.Ident]bool{}}
	for _, f := range pkg.CompiledGoFiles {
		if b, ok := base[f]; ok {
			in.src[f] = b
		} else if b, err := os.ReadFile(f); err == nil {
			in.src[f] = b
		}
	}
	for _, file := range pkg.Syntax {
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || len(fd.Body.List) != 1 || fd.Type.TypeParams != nil {
				continue
			}
			r, ok := fd.Body.List[0].(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 {
				continue
			}
			fn, ok := in.info().Defs[fd.Name].(*types.Func)
			if !ok {
				continue
			}
			sig := fn.Type().(*types.Signature)
			if sig.Variadic() || sig.Results().Len() != 1 || sig.RecvTypeParams().Len() > 0 {
				continue
			}
			if _, ok := sig.Results().At(0).Type().Underlying().(*types.Interface); ok {
				continue
			}
			c := &inlCand{fn: fn, decl: fd, file: file, expr: r.Results[0], uses: map[*types.Var]int{}, always: map[*types.Var]bool{}}
			if rv := sig.Recv(); rv != nil {
				c.params = append(c.params, rv)
			}
			for i := 0; i < sig.Params().Len(); i++ {
				c.params = append(c.params, sig.Params().At(i))
			}
			if s, ok := in.text(c.expr); !ok || strings.Contains(s, "`") || strings.Contains(s, "//") || strings.Contains(s, "/*") || len(s) > 600 {
				continue
			}
			if !in.scan(c) {
				continue
			}
			in.cands[fn] = c
		}
	}
	// calls of one another: pure as long as the callees are
	for ch := true; ch; {
		ch = false
		for _, c := range in.cands {
			if c.calls {
				continue
			}
			ast.Inspect(c.expr, func(n ast.Node) bool {
				if x, ok := n.(*ast.CallExpr); ok && !in.pureCall(x) {
					if g, _, _ := in.callee(x); g == nil || g.calls {
						if !c.calls {
							c.calls, ch = true, true
						}
					}
				}
				return true
			})
		}
	}
	return in
}

// scan counts the uses of the parameters and rejects expressions that are not just a value.
func (in *inliner) scan(c *inlCand) bool {
	if x, ok := ast.Unparen(c.expr).(*ast.CallExpr); ok && !in.pureCall(x) && !isBool(c.fn.Type().(*types.Signature).Results().At(0).Type()) {
		return false // a function that only calls another one is its other name, not an expression
	}
	par := map[types.Object]*types.Var{}
	for _, p := range c.params {
		par[p] = p
	}
	ok := true
	var walk func(n ast.Node, cond bool)
	walk = func(n ast.Node, cond bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit, *ast.CompositeLit:
				ok = false
			case *ast.UnaryExpr:
				if x.Op == token.ARROW || x.Op == token.AND {
					ok = false
				}
			case *ast.Ident:
				if v := par[in.info().Uses[x]]; v != nil {
					c.uses[v]++
					if !cond {
						c.always[v] = true
					}
				}
			case *ast.BinaryExpr:
				if x.Op == token.LAND || x.Op == token.LOR {
					walk(x.X, cond)
					walk(x.Y, true)
					return false
				}
			case *ast.CallExpr:
				// a pointer-receiver method of a parameter value would need its address
				if s, isSel := ast.Unparen(x.Fun).(*ast.SelectorExpr); isSel {
					if sel := in.info().Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
						if i, isID := ast.Unparen(s.X).(*ast.Ident); isID && par[in.info().Uses[i]] != nil {
							if _, isPtr := in.info().TypeOf(i).Underlying().(*types.Pointer); !isPtr {
								if g, isFn := sel.Obj().(*types.Func); isFn {
									if rv := g.Type().(*types.Signature).Recv(); rv != nil {
										if _, isPtr := rv.Type().Underlying().(*types.Pointer); isPtr {
											ok = false
										}
									}
								}
							}
						}
					}
				}
			}
			return ok
		})
	}
	walk(c.expr, false)
	return ok
}

// render writes a node with the parameters of env replaced and its calls inlined.
func (in *inliner) render(n ast.Node, env map[types.Object]string, at token.Pos, file *ast.File) (string, int, bool) {
	type ed struct {
		s, e int
		t    string
	}
	base := in.pkg.Fset.Position(n.Pos())
	raw, ok := in.text(n)
	if !ok {
		return "", 0, false
	}
	var eds []ed
	cnt := 0
	ast.Inspect(n, func(m ast.Node) bool {
		if !ok || m == nil {
			return false
		}
		off := func(p token.Pos) int { return in.pkg.Fset.Position(p).Offset - base.Offset }
		switch x := m.(type) {
		case *ast.Ident:
			if t, isP := env[in.info().Uses[x]]; isP && in.info().Uses[x] != nil {
				eds = append(eds, ed{off(x.Pos()), off(x.End()), "(" + t + ")"})
				cnt++
			}
		case *ast.KeyValueExpr:
			// field names are not variables
		case *ast.CallExpr:
			p := at
			if p == token.NoPos {
				p = x.Pos()
			}
			if t, can := in.tryInline(x, env, p, file); can {
				eds = append(eds, ed{off(x.Pos()), off(x.End()), t})
				cnt++
				return false
			}
		}
		return true
	})
	if !ok {
		return "", 0, false
	}
	sort.Slice(eds, func(i, j int) bool { return eds[i].s > eds[j].s })
	for _, e := range eds {
		raw = raw[:e.s] + e.t + raw[e.e:]
	}
	return raw, cnt, true
}

func flat(s string) string { return strings.NewReplacer("\r", " ", "\n", " ", "\t", " ").Replace(s) }

// typeText writes a type as the file sees it at a position.
func (in *inliner) typeText(t types.Type, at token.Pos, file *ast.File) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == in.pkg.Types {
			return ""
		}
		for _, im := range file.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path != p.Path() {
				continue
			}
			name := p.Name()
			if im.Name != nil {
				name = im.Name.Name
			}
			if _, isPkg := in.lookup(name, at).(*types.PkgName); isPkg {
				return name
			}
		}
		ok = false
		return p.Name()
	})
	if strings.ContainsAny(s, "\n`") {
		ok = false
	}
	// a local name must not hide the type's
	var names func(t types.Type, d int)
	names = func(t types.Type, d int) {
		if d > 6 {
			ok = false
			return
		}
		switch x := t.(type) {
		case *types.Named:
			if x.Obj().Pkg() == in.pkg.Types && in.lookup(x.Obj().Name(), at) != x.Obj() {
				ok = false
			}
		case *types.Basic:
			if o := in.lookup(x.Name(), at); o != nil && o.Parent() != types.Universe {
				ok = false
			}
		case *types.Pointer:
			names(x.Elem(), d+1)
		case *types.Slice:
			names(x.Elem(), d+1)
		case *types.Array:
			names(x.Elem(), d+1)
		case *types.Map:
			names(x.Key(), d+1)
			names(x.Elem(), d+1)
		}
	}
	names(t, 0)
	return s, ok
}

func (in *inliner) lookup(name string, at token.Pos) types.Object {
	s := in.pkg.Types.Scope().Innermost(at)
	if s == nil {
		return nil
	}
	_, o := s.LookupParent(name, at)
	return o
}

// visible: every global name the expression uses means the same at the call.
func (in *inliner) visible(c *inlCand, at token.Pos) bool {
	par := map[types.Object]bool{}
	for _, p := range c.params {
		par[p] = true
	}
	ok := true
	sels := map[*ast.Ident]bool{}
	ast.Inspect(c.expr, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			sels[x.Sel] = true
		case *ast.Ident:
			o := in.info().Uses[x]
			if sels[x] || o == nil || par[o] {
				return true
			}
			if pn, isPkg := o.(*types.PkgName); isPkg {
				q, same := in.lookup(x.Name, at).(*types.PkgName)
				if !same || q.Imported() != pn.Imported() {
					ok = false
				}
				return true
			}
			if in.lookup(x.Name, at) != o {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (in *inliner) tryInline(call *ast.CallExpr, env map[types.Object]string, at token.Pos, file *ast.File) (string, bool) {
	c, ref, recv := in.callee(call)
	if c == nil || in.stack[c.fn] || len(in.stack) > 4 || call.Ellipsis.IsValid() {
		return "", false
	}
	if !in.visible(c, at) {
		return "", false
	}
	var args []ast.Expr
	if recv != nil {
		args = append(args, recv)
	}
	args = append(args, call.Args...)
	if len(args) != len(c.params) {
		return "", false
	}
	sub := map[types.Object]string{}
	impure := 0
	for i, a := range args {
		p := c.params[i]
		pure, panics := in.pure(a)
		simple := false
		switch x := ast.Unparen(a).(type) {
		case *ast.Ident, *ast.BasicLit:
			simple = true
		case *ast.UnaryExpr:
			_, simple = x.X.(*ast.Ident)
		}
		if c.calls && !simple {
			return "", false
		}
		if !pure {
			impure++
			if c.uses[p] != 1 || !c.always[p] {
				return "", false
			}
		}
		if panics && !c.always[p] {
			return "", false
		}
		t, _, ok := in.render(a, env, at, file)
		if !ok || strings.Contains(t, "//") || strings.Contains(t, "/*") || strings.Contains(t, "`") {
			return "", false
		}
		t = flat(t)
		at0 := in.info().TypeOf(a)
		tv := in.info().Types[a]
		if at0 == nil || tv.IsNil() {
			return "", false
		}
		pt := p.Type()
		if i == 0 && recv != nil {
			_, ap := at0.Underlying().(*types.Pointer)
			_, pp := pt.Underlying().(*types.Pointer)
			switch {
			case ap && !pp:
				t = "*(" + t + ")"
				if !c.always[p] {
					return "", false
				}
				at0 = deref(at0)
			case !ap && pp:
				t = "&" + t
				at0 = types.NewPointer(at0)
			}
		}
		if !types.Identical(at0, pt) || tv.Value != nil {
			tt, ok := in.typeText(pt, at, file)
			if !ok {
				return "", false
			}
			t = "(" + tt + ")(" + t + ")"
		}
		sub[p] = t
	}
	if impure > 1 || impure == 1 && c.calls {
		return "", false
	}
	in.stack[c.fn] = true
	body, _, ok := in.render(c.expr, sub, at, file)
	delete(in.stack, c.fn)
	if !ok {
		return "", false
	}
	body = "(" + flat(body) + ")"
	rt := c.fn.Type().(*types.Signature).Results().At(0).Type()
	etv := in.info().Types[c.expr]
	if !types.Identical(etv.Type, rt) || etv.Value != nil {
		tt, ok := in.typeText(rt, at, file)
		if !ok {
			return "", false
		}
		body = "(" + tt + ")" + body
	}
	// keep the lines of the call
	a, b := in.pkg.Fset.Position(call.Pos()).Line, in.pkg.Fset.Position(call.End()).Line
	if len(in.stack) == 0 && env == nil && b > a {
		body = "(" + strings.Repeat("\n", b-a) + body + ")"
	}
	if env == nil {
		in.done[ref] = true
	}
	in.n++
	return body, true
}

// inlineHelpers gives the overlay for a package: its files with small expression functions inlined.
func inlineHelpers(pkg *packages.Package, remove bool, base, overlay map[string][]byte) int {
	in := newInliner(pkg, base)
	if len(in.cands) == 0 {
		return 0
	}
	type ed struct {
		s, e int
		t    string
	}
	eds := map[string][]ed{}
	add := func(n ast.Node, t string) {
		p, e := pkg.Fset.Position(n.Pos()), pkg.Fset.Position(n.End())
		eds[p.Filename] = append(eds[p.Filename], ed{p.Offset, e.Offset, t})
	}
	repl := map[ast.Node]string{}
	for _, file := range pkg.Syntax {
		file := file
		for _, d := range file.Decls {
			ast.Inspect(d, func(n ast.Node) bool {
				x, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				if t, can := in.tryInline(x, nil, x.Pos(), file); can {
					repl[x] = t
					return false
				}
				return true
			})
		}
	}
	// what every reference of was replaced is gone
	gone := map[*inlCand]bool{}
	if remove {
		left := map[*types.Func]bool{}
		for i, o := range in.info().Uses {
			if f, ok := o.(*types.Func); ok && in.cands[f] != nil && !in.done[i] {
				left[f] = true
			}
		}
		for f, c := range in.cands {
			if !left[f] && !f.Exported() {
				used := false
				for i, o := range in.info().Uses {
					used = used || o == types.Object(f) && in.done[i]
				}
				gone[c] = used
			}
		}
	}
	for _, file := range pkg.Syntax {
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if f, ok := in.info().Defs[fd.Name].(*types.Func); ok && in.cands[f] != nil && gone[in.cands[f]] {
					// keep the imports it needed, and its lines
					var keep []string
					ast.Inspect(fd, func(n ast.Node) bool {
						if s, ok := n.(*ast.SelectorExpr); ok {
							if i, ok := s.X.(*ast.Ident); ok {
								if _, ok := in.info().Uses[i].(*types.PkgName); ok {
									if in.info().Types[s].IsType() {
										keep = append(keep, "var _ "+i.Name+"."+s.Sel.Name)
									} else {
										keep = append(keep, "var _ = "+i.Name+"."+s.Sel.Name)
									}
								}
							}
						}
						return true
					})
					a, b := pkg.Fset.Position(fd.Pos()).Line, pkg.Fset.Position(fd.End()).Line
					add(fd, strings.Join(keep, "; ")+strings.Repeat("\n", b-a))
					continue
				}
			}
			ast.Inspect(d, func(n ast.Node) bool {
				if t, ok := repl[n]; ok {
					add(n, t)
					return false
				}
				return true
			})
		}
	}
	for f, es := range eds {
		b := append([]byte(nil), in.src[f]...)
		sort.Slice(es, func(i, j int) bool { return es[i].s > es[j].s })
		for _, e := range es {
			b = append(b[:e.s:e.s], append([]byte(e.t), b[e.e:]...)...)
		}
		overlay[f] = b
	}
	return in.n
}

// loadNormal loads the packages, with small expression functions inlined where that type-checks.
func loadNormal(dir string, base map[string][]byte, patterns []string) (pk []*packages.Package, inlined int, err error) {
	env := append(os.Environ(), "CGO_ENABLED=0")
	load := func(ov map[string][]byte) ([]*packages.Package, []string, error) {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Overlay: ov}
		pk, err := packages.Load(cfg, patterns...)
		var errs []string
		for _, p := range pk {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
		return pk, errs, err
	}
	pk, errs, err := load(base)
	if err != nil {
		return nil, 0, err
	}
	if len(errs) > 0 {
		return nil, 0, fmt.Errorf("type check failed: %s", strings.Join(errs, "; "))
	}
	for _, remove := range []bool{true, false} {
		ov := map[string][]byte{}
		for f, b := range base {
			ov[f] = b
		}
		n := 0
		for _, p := range pk {
			n += inlineHelpers(p, remove, base, ov)
		}
		if n == 0 {
			return pk, 0, nil
		}
		pk2, errs, err := load(ov)
		if err == nil && len(errs) == 0 {
			return pk2, n, nil
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("inline:", remove, errs, err)
			for f, b := range ov {
				os.WriteFile("/tmp/ov_"+f[strings.LastIndex(f, "/")+1:], b, 0o644)
			}
		}
	}
	return pk, 0, nil
}
