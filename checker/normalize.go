package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// A second, equivalent form of the program. Functions that the reference tree did not have and that nobody outside
// can call are put back into the places that call them, in memory; a property that holds for the program in that
// form holds for the program. Renamed functions, types and fields are given the names of the reference tree, which
// the tables of the rules use. Nothing here depends on what the helpers do.

//go:embed shape.json
var shapeJSON []byte

// shape is what the reference tree declares.
type shape struct {
	Funcs  map[string]shapeFunc // package path + receiver + name
	Types  map[string]shapeType // package path + name
	Values map[string]string    // package path + name → kind, type and value
}

type shapeFunc struct {
	Sig   string
	Words []string
}

type shapeType struct {
	Under  string
	Fields []string
}

func funcKey(f *types.Func) string {
	k := f.Pkg().Path() + "."
	if r := f.Signature().Recv(); r != nil {
		k += typeName(deref(r.Type())) + "."
	}
	return k + f.Name()
}

func shortQual(p *types.Package) string { return p.Name() }

func sigText(f *types.Func) string {
	s := f.Signature()
	var b strings.Builder
	if r := s.Recv(); r != nil {
		b.WriteString("(" + types.TypeString(r.Type(), shortQual) + ")")
	}
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(types.TypeString(s.Params().At(i).Type(), shortQual) + ",")
	}
	b.WriteString("→")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(types.TypeString(s.Results().At(i).Type(), shortQual) + ",")
	}
	return b.String()
}

func words(n ast.Node) []string {
	m := map[string]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.SelectorExpr:
			m[y.Sel.Name] = true
		case *ast.BasicLit:
			m[y.Value] = true
		}
		return true
	})
	var out []string
	for w := range m {
		out = append(out, w)
	}
	sort.Strings(out)
	return out
}

func fieldTypes(s *types.Struct) string {
	var b strings.Builder
	for i := 0; i < s.NumFields(); i++ {
		b.WriteString(types.TypeString(s.Field(i).Type(), shortQual) + ";")
	}
	return b.String()
}

func shapeOf(pk []*packages.Package) *shape {
	sh := &shape{map[string]shapeFunc{}, map[string]shapeType{}, map[string]string{}}
	for _, p := range pk {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok && fd.Name.Name != "init" {
						sh.Funcs[funcKey(o)] = shapeFunc{sigText(o), words(fd)}
					}
				}
			}
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				t := shapeType{}
				if s, ok := o.Type().Underlying().(*types.Struct); ok && !o.IsAlias() {
					t.Under = fieldTypes(s)
					for i := 0; i < s.NumFields(); i++ {
						t.Fields = append(t.Fields, s.Field(i).Name())
					}
				} else {
					t.Under = types.TypeString(o.Type().Underlying(), shortQual)
				}
				sh.Types[p.PkgPath+"."+n] = t
			case *types.Const:
				sh.Values[p.PkgPath+"."+n] = "const " + types.TypeString(o.Type(), shortQual) + " " + o.Val().ExactString()
			case *types.Var:
				sh.Values[p.PkgPath+"."+n] = "var " + types.TypeString(o.Type(), shortQual)
			}
		}
	}
	return sh
}

func init() { // dump-shape: writes the reference
	rules["dump-shape"] = func(c *Check) {
		pk, _, _, err := loadOverlay(c.P.Dir, libPatterns, nil)
		if err != nil {
			panic(err)
		}
		b, _ := json.MarshalIndent(shapeOf(pk), "", " ")
		os.Stdout.Write(append(b, '\n'))
		os.Exit(0)
	}
}

var libPatterns = []string{".", "./lgxtypes", "./l5x", "./canned"}

func loadOverlay(dir string, patterns []string, ov map[string][]byte) ([]*packages.Package, []string, map[string][]byte, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "CGO_ENABLED=0"), Overlay: ov}
	pk, err := packages.Load(cfg, patterns...)
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	return pk, errs, ov, err
}

// normalised gives the overlay that makes up the second form, and what was done; nil when there is nothing to do.
func normalised(dir string, renameOnly bool) (map[string][]byte, []string) {
	ref := &shape{}
	if err := json.Unmarshal(shapeJSON, ref); err != nil || len(ref.Funcs) == 0 {
		return nil, nil
	}
	ov := map[string][]byte{}
	var notes []string
	for round := 0; round < 9; round++ {
		pk, errs, _, err := loadOverlay(dir, libPatterns, ov)
		if err != nil || len(errs) > 0 {
			return nil, nil
		}
		n := &normaliser{ref: ref, pk: pk, files: map[*ast.File]bool{}, round: round}
		if !n.rename() && !renameOnly {
			if !n.dispatch() {
				n.inline()
			}
		}
		if len(n.files) == 0 {
			break
		}
		next := map[string][]byte{}
		for k, v := range ov {
			next[k] = v
		}
		for f := range n.files {
			name, src, ok := n.print(f)
			if !ok {
				return finish(ov, notes)
			}
			next[name] = src
		}
		_, errs, _, err = loadOverlay(dir, libPatterns, next)
		if err != nil || len(errs) > 0 {
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println("normalise:", round, errs, err)
				for f, b := range next {
					os.WriteFile("/tmp/nv_"+f[strings.LastIndex(f, "/")+1:], b, 0o644)
				}
			}
			// once more, one function at a time would be possible; what was reached so far is kept
			if !n.retry(dir, ov, &notes) {
				return finish(ov, notes)
			}
			continue
		}
		ov = next
		notes = append(notes, n.notes...)
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		for f, b := range ov {
			os.WriteFile("/tmp/nv_"+f[strings.LastIndex(f, "/")+1:], b, 0o644)
		}
	}
	return finish(ov, notes)
}

func finish(ov map[string][]byte, notes []string) (map[string][]byte, []string) {
	if len(ov) == 0 {
		return nil, nil
	}
	return ov, notes
}

type normaliser struct {
	ref   *shape
	pk    []*packages.Package
	pkg   *packages.Package
	files map[*ast.File]bool
	notes []string
	round int
	n     int
	only  string // inline this function only
	skip  map[string]bool
}

// retry does the round helper by helper and keeps those that type-check.
func (n *normaliser) retry(dir string, ov map[string][]byte, notes *[]string) bool {
	pk, errs, _, err := loadOverlay(dir, libPatterns, ov)
	if err != nil || len(errs) > 0 {
		return false
	}
	probe := &normaliser{ref: n.ref, pk: pk, files: map[*ast.File]bool{}}
	var names []string
	for _, p := range pk {
		probe.pkg = p
		for o, h := range probe.helpers() {
			names = append(names, probe.key(o, h))
		}
	}
	sort.Strings(names)
	done := false
	for i, name := range names {
		if i > 40 {
			break
		}
		pk, errs, _, err := loadOverlay(dir, libPatterns, ov)
		if err != nil || len(errs) > 0 {
			return done
		}
		one := &normaliser{ref: n.ref, pk: pk, files: map[*ast.File]bool{}, round: n.round*100 + i, only: name}
		one.inline()
		if len(one.files) == 0 {
			continue
		}
		next := map[string][]byte{}
		for k, v := range ov {
			next[k] = v
		}
		good := true
		for f := range one.files {
			nm, src, ok := one.print(f)
			good = good && ok
			next[nm] = src
		}
		if !good {
			continue
		}
		_, errs, _, err = loadOverlay(dir, libPatterns, next)
		if err != nil || len(errs) > 0 {
			continue
		}
		for k, v := range next {
			ov[k] = v
		}
		*notes = append(*notes, one.notes...)
		done = true
	}
	return done
}

func (n *normaliser) print(f *ast.File) (string, []byte, bool) {
	for _, p := range n.pk {
		for i, g := range p.Syntax {
			if g != f {
				continue
			}
			var head []byte
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:build") && c.Pos() < f.Package {
						head = append(head, (strings.TrimSpace(c.Text) + "\n\n")...)
					}
					if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
						return "", nil, false
					}
				}
			}
			f.Comments = nil
			var b bytes.Buffer
			if err := format.Node(&b, p.Fset, f); err != nil {
				return "", nil, false
			}
			return p.CompiledGoFiles[i], append(head, b.Bytes()...), true
		}
	}
	return "", nil, false
}

// ---- names

func similar(a, b []string) float64 {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	both := 0
	for _, x := range b {
		if m[x] {
			both++
		}
	}
	if len(a)+len(b)-both == 0 {
		return 1
	}
	return float64(both) / float64(len(a)+len(b)-both)
}

// rename gives declarations that only differ from a missing one of the reference by their name that name back.
func (n *normaliser) rename() bool {
	cur := shapeOf(n.pk)
	to := map[types.Object]string{}
	find := func(key string) types.Object {
		for _, p := range n.pk {
			if !strings.HasPrefix(key, p.PkgPath+".") {
				continue
			}
			rest := strings.Split(key[len(p.PkgPath)+1:], ".")
			o := p.Types.Scope().Lookup(rest[0])
			if len(rest) == 1 || o == nil {
				return o
			}
			if nt, ok := o.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					if nt.Method(i).Name() == rest[1] {
						return nt.Method(i)
					}
				}
			}
		}
		return nil
	}
	last := func(k string) string { return k[strings.LastIndex(k, ".")+1:] }
	owner := func(k string) string { return k[:strings.LastIndex(k, ".")] }
	// types
	for k, t := range n.ref.Types {
		if _, ok := cur.Types[k]; ok {
			continue
		}
		var hit []string
		for j, u := range cur.Types {
			if _, ok := n.ref.Types[j]; !ok && owner(j) == owner(k) && u.Under == t.Under && !token.IsExported(last(j)) && !token.IsExported(last(k)) {
				if len(t.Fields) == 0 || similar(t.Fields, u.Fields) > 0.5 {
					hit = append(hit, j)
				}
			}
		}
		if len(hit) == 1 {
			if o := find(hit[0]); o != nil {
				to[o] = last(k)
			}
		}
	}
	// fields, by their place
	for k, t := range n.ref.Types {
		u, ok := cur.Types[k]
		if !ok || u.Under != t.Under || len(u.Fields) != len(t.Fields) {
			continue
		}
		o := find(k)
		if o == nil {
			continue
		}
		s, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		have := map[string]bool{}
		for _, f := range u.Fields {
			have[f] = true
		}
		for i, f := range t.Fields {
			if u.Fields[i] != f && !have[f] && !s.Field(i).Embedded() && !s.Field(i).Exported() && !token.IsExported(f) {
				to[s.Field(i)] = f
			}
		}
	}
	// package variables and constants
	for k, t := range n.ref.Values {
		if _, ok := cur.Values[k]; ok || token.IsExported(last(k)) {
			continue
		}
		var hit []string
		for j, u := range cur.Values {
			if _, ok := n.ref.Values[j]; !ok && owner(j) == owner(k) && u == t && !token.IsExported(last(j)) {
				hit = append(hit, j)
			}
		}
		if len(hit) == 1 {
			if o := find(hit[0]); o != nil {
				to[o] = last(k)
			}
		}
	}
	// functions
	for k, t := range n.ref.Funcs {
		if _, ok := cur.Funcs[k]; ok || token.IsExported(last(k)) {
			continue
		}
		best, at, second := "", 0.0, 0.0
		for j, u := range cur.Funcs {
			if _, ok := n.ref.Funcs[j]; ok || owner(j) != owner(k) || u.Sig != t.Sig || token.IsExported(last(j)) {
				continue
			}
			s := similar(t.Words, u.Words)
			if s > at {
				best, at, second = j, s, at
			} else if s > second {
				second = s
			}
		}
		if best != "" && at > 0.5 && at > second {
			if o := find(best); o != nil {
				to[o] = last(k)
			}
		}
	}
	if len(to) == 0 {
		return false
	}
	for _, p := range n.pk {
		for _, f := range p.Syntax {
			ast.Inspect(f, func(x ast.Node) bool {
				i, ok := x.(*ast.Ident)
				if !ok {
					return true
				}
				o := p.TypesInfo.Defs[i]
				if o == nil {
					o = p.TypesInfo.Uses[i]
				}
				switch v := o.(type) {
				case *types.Var:
					o = v.Origin()
				case *types.Func:
					o = v.Origin()
				}
				if nm, ok := to[o]; ok && i.Name != nm {
					i.Name = nm
					n.files[f] = true
				}
				return true
			})
		}
	}
	for o, nm := range to {
		n.notes = append(n.notes, o.Name()+" named "+nm)
	}
	sort.Strings(n.notes)
	return len(n.files) > 0
}

// ---- helpers

type helper struct {
	obj    types.Object    // a function, or the variable that holds a closure
	local  *ast.AssignStmt // that defines the closure
	in     *ast.FuncDecl   // the function it is in
	decl   *ast.FuncDecl
	file   *ast.File
	params []*types.Var // receiver first; nil for one without a name
	ptypes []ast.Expr
	rtypes []ast.Expr
	named  []*types.Var
	ellip  bool
}

func (n *normaliser) info() *types.Info { return n.pkg.TypesInfo }

func (h *helper) sig() *types.Signature { return h.obj.Type().Underlying().(*types.Signature) }

func (n *normaliser) key(o types.Object, h *helper) string {
	if f, ok := o.(*types.Func); ok {
		return funcKey(f)
	}
	return fmt.Sprintf("%s.%s.%s.%d", n.pkg.PkgPath, h.in.Name.Name, o.Name(), n.pkg.Fset.Position(o.Pos()).Offset)
}

// closureHelpers adds the local closures that are only called.
func (n *normaliser) closureHelpers(all map[types.Object]*helper) {
	for _, f := range n.pkg.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if o := n.info().Defs[fd.Name]; o != nil && all[o] != nil {
				continue // when it has been put back itself
			}
			found := map[*types.Var]*helper{}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				a, ok := x.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
					return true
				}
				lit, ok := unparen(a.Rhs[0]).(*ast.FuncLit)
				id, ok2 := a.Lhs[0].(*ast.Ident)
				if !ok || !ok2 {
					return true
				}
				v, ok := n.info().Defs[id].(*types.Var)
				if !ok {
					return true
				}
				h := &helper{obj: v, local: a, in: fd, decl: &ast.FuncDecl{Name: id, Type: lit.Type, Body: lit.Body}, file: f}
				if n.describe(h) {
					found[v] = h
				}
				return false // what is defined inside follows in a later round
			})
			if len(found) == 0 {
				continue
			}
			called := map[*ast.Ident]bool{}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch y := x.(type) {
				case *ast.GoStmt:
					ast.Inspect(y.Call, func(z ast.Node) bool {
						if id, ok := z.(*ast.Ident); ok {
							if v, ok := n.info().Uses[id].(*types.Var); ok {
								delete(found, v)
							}
						}
						return true
					})
				case *ast.CallExpr:
					if id, ok := unparen(y.Fun).(*ast.Ident); ok {
						called[id] = true
					}
				}
				return true
			})
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && !called[id] {
					if v, ok := n.info().Uses[id].(*types.Var); ok {
						delete(found, v)
					}
				}
				return true
			})
			for v, h := range found {
				all[v] = h
			}
		}
	}
}

// describe fills in the parameters and results of a helper; false for one that can't be put back.
func (n *normaliser) describe(h *helper) bool {
	fd := h.decl
	good := true
	add := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, p := range fl.List {
			ty := p.Type
			if e, ok := ty.(*ast.Ellipsis); ok {
				h.ellip = true
				ty = &ast.ArrayType{Elt: e.Elt}
			}
			if len(p.Names) == 0 {
				h.params, h.ptypes = append(h.params, nil), append(h.ptypes, ty)
			}
			for _, nm := range p.Names {
				v, _ := n.info().Defs[nm].(*types.Var)
				h.params, h.ptypes = append(h.params, v), append(h.ptypes, ty)
			}
		}
	}
	if fd.Recv != nil {
		add(fd.Recv)
	}
	add(fd.Type.Params)
	if fd.Type.Results != nil {
		for _, r := range fd.Type.Results.List {
			if len(r.Names) == 0 {
				h.rtypes = append(h.rtypes, r.Type)
			}
			for _, nm := range r.Names {
				v, _ := n.info().Defs[nm].(*types.Var)
				h.rtypes = append(h.rtypes, r.Type)
				h.named = append(h.named, v)
				good = good && v != nil
			}
		}
	}
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.DeferStmt:
			good = false
		case *ast.CallExpr:
			if i, ok := y.Fun.(*ast.Ident); ok && i.Name == "recover" {
				good = false
			}
		case *ast.BranchStmt:
			if y.Tok == token.GOTO {
				good = false
			}
		}
		return true
	})
	return good
}

// helpers are the functions of the package that the reference doesn't have and that could be put back.
func (n *normaliser) helpers() map[types.Object]*helper {
	all := map[types.Object]*helper{}
	for _, f := range n.pkg.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Type.TypeParams != nil || fd.Name.IsExported() || fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Name.Name == "_" {
				continue
			}
			o, ok := n.info().Defs[fd.Name].(*types.Func)
			if !ok {
				continue
			}
			if _, known := n.ref.Funcs[funcKey(o)]; known {
				continue
			}
			h := &helper{obj: o, decl: fd, file: f}
			if fd.Recv != nil {
				if nt, ok := deref(o.Signature().Recv().Type()).(*types.Named); !ok || nt.TypeParams().Len() > 0 {
					continue
				}
			}
			good := n.describe(h)
			if good {
				all[o] = h
			}
		}
	}
	n.closureHelpers(all)
	// only those that don't call another one of them: the others follow in a later round
	leaf := map[types.Object]*helper{}
	for o, h := range all {
		calls := false
		ast.Inspect(h.decl.Body, func(x ast.Node) bool {
			if i, ok := x.(*ast.Ident); ok {
				if g := n.info().Uses[i]; g != nil && all[g] != nil {
					calls = true
				}
			}
			return true
		})
		if !calls {
			leaf[o] = h
		}
	}
	if n.only != "" {
		for o := range leaf {
			if n.key(o, leaf[o]) != n.only {
				delete(leaf, o)
			}
		}
	}
	return leaf
}

type site struct {
	h    *helper
	call *ast.CallExpr
	recv ast.Expr // receiver, adjusted
}

// inline puts every helper that can be put back into its callers.
func (n *normaliser) inline() {
	for _, p := range n.pk {
		n.pkg = p
		hs := n.helpers()
		if len(hs) == 0 {
			continue
		}
		left := map[types.Object]int{}
		count := func(d int) {
			for _, f := range p.Syntax {
				ast.Inspect(f, func(x ast.Node) bool {
					if i, ok := x.(*ast.Ident); ok {
						if o := p.TypesInfo.Uses[i]; o != nil && hs[o] != nil {
							left[o] += d
						}
					}
					return true
				})
			}
		}
		count(1)
		for o := range hs {
			if left[o] == 0 || left[o] > 12 {
				delete(hs, o)
			}
		}
		done := map[types.Object]int{}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				c := &inl{n: n, hs: hs, file: f, fd: fd, done: done, busy: map[*ast.FuncDecl]bool{}}
				c.body(fd.Body, fd.Type)
			}
		}
		for o, k := range done {
			n.notes = append(n.notes, fmt.Sprintf("%s put back at %d of %d places", o.Name(), k, left[o]))
			if k < left[o] {
				continue
			}
			h := hs[o]
			if h.local != nil {
				astutil.Apply(h.file, func(c *astutil.Cursor) bool {
					if c.Node() == ast.Node(h.local) && c.Index() >= 0 {
						c.Delete()
						return false
					}
					return true
				}, nil)
				n.files[h.file] = true
				continue
			}
			for i, d := range h.file.Decls {
				if d == ast.Decl(h.decl) {
					h.file.Decls = append(h.file.Decls[:i:i], h.file.Decls[i+1:]...)
					n.files[h.file] = true
					break
				}
			}
		}
		for f := range n.files {
			n.dropImports(p, f)
		}
	}
	sort.Strings(n.notes)
}

// dropImports removes the imports of a file that nothing in it uses any more.
func (n *normaliser) dropImports(p *packages.Package, f *ast.File) {
	in := false
	for _, g := range p.Syntax {
		in = in || g == f
	}
	if !in {
		return
	}
	used := map[string]bool{}
	ast.Inspect(f, func(x ast.Node) bool {
		if s, ok := x.(*ast.SelectorExpr); ok {
			if i, ok := s.X.(*ast.Ident); ok {
				used[i.Name] = true
			}
		}
		return true
	})
	for _, im := range append([]*ast.ImportSpec(nil), f.Imports...) {
		path := strings.Trim(im.Path.Value, `"`)
		name := ""
		if im.Name != nil {
			if im.Name.Name == "_" || im.Name.Name == "." {
				continue
			}
			name = im.Name.Name
		}
		at := name
		if at == "" {
			at = path[strings.LastIndex(path, "/")+1:]
			if ip := p.Imports[path]; ip != nil && ip.Name != "" {
				at = ip.Name
			}
		}
		if !used[at] {
			astutil.DeleteNamedImport(p.Fset, f, name, path)
		}
	}
}

type inl struct {
	n    *normaliser
	hs   map[types.Object]*helper
	file *ast.File
	fd   *ast.FuncDecl
	done map[types.Object]int
	busy map[*ast.FuncDecl]bool
	res  *types.Signature // of the function (or closure) the statements belong to
}

func (c *inl) info() *types.Info { return c.n.info() }

// body handles the statements of a function or closure.
func (c *inl) body(b *ast.BlockStmt, ft *ast.FuncType) {
	old := c.res
	if fd := c.fd; ft == fd.Type {
		c.res, _ = c.info().Defs[fd.Name].Type().(*types.Signature)
	} else if tv, ok := c.info().Types[ft]; ok {
		c.res, _ = tv.Type.(*types.Signature)
	} else {
		c.res = nil
	}
	c.block(b)
	c.res = old
}

func (c *inl) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = c.list(b.List)
	}
}

func (c *inl) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for i := 0; i < len(l); i++ {
		s := l[i]
		var next *ast.IfStmt
		if i+1 < len(l) {
			next, _ = l[i+1].(*ast.IfStmt)
		}
		repl, usedNext, ok := c.stmt(s, next)
		if ok {
			out = append(out, repl...)
			if usedNext {
				c.closures(next)
				i++
			}
			continue
		}
		c.inside(s)
		out = append(out, s)
	}
	return out
}

// inside goes on to the statements within s.
func (c *inl) inside(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		c.block(x)
	case *ast.IfStmt:
		c.closures(x.Cond)
		c.block(x.Body)
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			c.block(e)
		case *ast.IfStmt:
			r, _, ok := c.stmt(e, nil)
			if ok {
				x.Else = &ast.BlockStmt{List: r}
			} else {
				c.inside(e)
			}
		}
	case *ast.ForStmt:
		c.block(x.Body)
	case *ast.RangeStmt:
		c.block(x.Body)
	case *ast.SwitchStmt:
		for _, cl := range x.Body.List {
			cc := cl.(*ast.CaseClause)
			cc.Body = c.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		for _, cl := range x.Body.List {
			cc := cl.(*ast.CaseClause)
			cc.Body = c.list(cc.Body)
		}
	case *ast.SelectStmt:
		for _, cl := range x.Body.List {
			cc := cl.(*ast.CommClause)
			cc.Body = c.list(cc.Body)
		}
	case *ast.LabeledStmt:
		c.inside(x.Stmt)
	default:
		c.closures(s)
	}
}

// closures handles the function literals within an expression or simple statement.
func (c *inl) closures(x ast.Node) {
	if x == nil || reflect.ValueOf(x).IsNil() {
		return
	}
	ast.Inspect(x, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok {
			c.body(fl.Body, fl.Type)
			return false
		}
		return true
	})
}

// calleeOf gives the helper a call is of.
func (c *inl) calleeOf(e ast.Expr) *site {
	call, ok := unparen(e).(*ast.CallExpr)
	if !ok {
		return nil
	}
	switch f := unparen(call.Fun).(type) {
	case *ast.Ident:
		if o := c.info().Uses[f]; o != nil && c.hs[o] != nil && c.hs[o].decl != c.fd {
			return &site{c.hs[o], call, nil}
		}
	case *ast.SelectorExpr:
		sel := c.info().Selections[f]
		if sel == nil || sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
			return nil
		}
		o, ok := sel.Obj().(*types.Func)
		if !ok || c.hs[o] == nil || c.hs[o].decl == c.fd {
			return nil
		}
		r := f.X
		_, wantPtr := o.Signature().Recv().Type().(*types.Pointer)
		_, isPtr := sel.Recv().(*types.Pointer)
		switch {
		case wantPtr && !isPtr:
			r = &ast.UnaryExpr{Op: token.AND, X: r}
		case !wantPtr && isPtr:
			r = &ast.StarExpr{X: r}
		}
		return &site{c.hs[o], call, r}
	}
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// visible: what the helper's source names is named the same where it goes. It returns the imports to add.
func (c *inl) visible(h *helper, at token.Pos) bool {
	scope := c.n.pkg.Types.Scope().Innermost(at)
	if scope == nil {
		return false
	}
	ok := true
	ast.Inspect(h.decl, func(x ast.Node) bool {
		i, is := x.(*ast.Ident)
		if !is || !ok {
			return true
		}
		o := c.info().Uses[i]
		if o == nil {
			return true
		}
		if v, isV := o.(*types.Var); isV && v.IsField() {
			return true
		}
		if f, isF := o.(*types.Func); isF && f.Signature().Recv() != nil {
			return true
		}
		if v, isV := o.(*types.Var); isV && h.local != nil && v.Parent() != nil && o.Pkg() == c.n.pkg.Types && o.Parent() != o.Pkg().Scope() && (v.Pos() < h.local.Pos() || v.Pos() > h.local.End()) {
			// a variable the closure shares with the function around it
			if _, found := scope.LookupParent(i.Name, at); found != o {
				ok = false
			}
			return true
		}
		global := o.Parent() == types.Universe || o.Pkg() != nil && o.Parent() == o.Pkg().Scope()
		pn, isPkg := o.(*types.PkgName)
		if !global && !isPkg {
			return true
		}
		if o.Pkg() != c.n.pkg.Types && o.Parent() != types.Universe && !isPkg {
			return true // selected from another package
		}
		_, found := scope.LookupParent(i.Name, at)
		if isPkg {
			if fp, same := found.(*types.PkgName); same && fp.Imported() == pn.Imported() {
				return true
			}
			if found == nil && c.file != h.file {
				name := ""
				if pn.Name() != pn.Imported().Name() {
					name = pn.Name()
				}
				astutil.AddNamedImport(c.n.pkg.Fset, c.file, name, pn.Imported().Path())
				return true
			}
			ok = false
			return true
		}
		if found != o {
			ok = false
		}
		return true
	})
	return ok
}

// ---- copies

var (
	posType    = reflect.TypeOf(token.Pos(0))
	objType    = reflect.TypeOf((*ast.Object)(nil))
	scopeType  = reflect.TypeOf((*ast.Scope)(nil))
	commentTyp = reflect.TypeOf((*ast.CommentGroup)(nil))
)

func cloneNode[T ast.Node](x T, on func(old, new *ast.Ident)) T {
	return cloneVal(reflect.ValueOf(&x).Elem(), on).Interface().(T)
}

func cloneVal(v reflect.Value, on func(old, new *ast.Ident)) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type()).Elem()
		out.Set(cloneVal(v.Elem(), on))
		return out
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		if v.Type() == objType || v.Type() == scopeType || v.Type() == commentTyp {
			return reflect.Zero(v.Type())
		}
		out := reflect.New(v.Type().Elem())
		for i := 0; i < v.Elem().NumField(); i++ {
			if !out.Elem().Field(i).CanSet() {
				continue
			}
			if f := v.Elem().Field(i); f.Type() == posType {
				// a position that tells something apart from where it is
				name := v.Type().Elem().Field(i).Name
				if name == "Ellipsis" || name == "Arrow" || name == "TokPos" || name == "Lparen" || name == "Assign" {
					out.Elem().Field(i).Set(f)
				}
				continue
			}
			out.Elem().Field(i).Set(cloneVal(v.Elem().Field(i), on))
		}
		if id, ok := v.Interface().(*ast.Ident); ok && on != nil {
			on(id, out.Interface().(*ast.Ident))
		}
		return out
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(cloneVal(v.Index(i), on))
		}
		return out
	}
	return v
}

func ident(s string) *ast.Ident { return ast.NewIdent(s) }

func varDecl(name string, t ast.Expr, v ast.Expr) ast.Stmt {
	sp := &ast.ValueSpec{Names: []*ast.Ident{ident(name)}, Type: t}
	if v != nil {
		sp.Values = []ast.Expr{v}
	}
	return &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{sp}}}
}

func assign(l, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{r}}
}

// use where the results of an inlined call go.
type sink struct {
	tail    bool        // they are the caller's own results
	names   []string    // variables that take them ("_": dropped)
	conv    bool        // (unused)
	after   *ast.IfStmt // statement that follows the call and leaves when its condition holds
	results []string
}

// expand gives the statements that do what a call does.
func (c *inl) expand(st *site, sk *sink) ([]ast.Stmt, bool) {
	h := st.h
	if !c.visible(h, st.call.Pos()) {
		return nil, false
	}
	c.n.n++
	sfx := fmt.Sprintf("_i%d_%d", c.n.round, c.n.n)
	// arguments
	var args []ast.Expr
	if st.recv != nil {
		args = append(args, st.recv)
	}
	args = append(args, st.call.Args...)
	if h.ellip && !st.call.Ellipsis.IsValid() {
		k := len(h.params) - 1
		if len(args) < k {
			return nil, false
		}
		rest := args[k:]
		if len(rest) == 0 {
			args = append(args[:k:k], ident("nil"))
		} else {
			t := cloneNode(h.ptypes[k], nil)
			args = append(args[:k:k], &ast.CompositeLit{Type: t, Elts: append([]ast.Expr(nil), rest...)})
		}
	}
	if len(args) != len(h.params) {
		return nil, false // f(g())
	}
	if len(h.named) > 0 && len(h.named) != len(h.rtypes) {
		return nil, false
	}
	ren := map[types.Object]string{}
	ast.Inspect(h.decl, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok && i.Name != "_" {
			if o := c.info().Defs[i]; o != nil && o != h.obj {
				if v, isV := o.(*types.Var); isV && v.IsField() {
					return true
				}
				ren[o] = i.Name + sfx
			}
		}
		if ts, ok := x.(*ast.TypeSwitchStmt); ok {
			if a, ok := ts.Assign.(*ast.AssignStmt); ok {
				nm := a.Lhs[0].(*ast.Ident).Name
				for _, cl := range ts.Body.List {
					if o := c.info().Implicits[cl]; o != nil {
						ren[o] = nm + sfx
					}
				}
			}
		}
		return true
	})
	tsw := map[*ast.Ident]bool{}
	ast.Inspect(h.decl, func(x ast.Node) bool {
		if ts, ok := x.(*ast.TypeSwitchStmt); ok {
			if a, ok := ts.Assign.(*ast.AssignStmt); ok {
				tsw[a.Lhs[0].(*ast.Ident)] = true
			}
		}
		return true
	})
	on := func(old, nw *ast.Ident) {
		if tsw[old] {
			nw.Name = old.Name + sfx
			return
		}
		o := c.info().Defs[old]
		if o == nil {
			o = c.info().Uses[old]
		}
		if nm, ok := ren[o]; ok {
			nw.Name = nm
		}
	}
	var out []ast.Stmt
	for i, p := range h.params {
		a := cloneNode(args[i], nil)
		t := cloneNode(h.ptypes[i], nil)
		if p == nil || p.Name() == "_" {
			out = append(out, varDecl("arg"+fmt.Sprint(i)+sfx, t, a), assign(ident("_"), ident("arg"+fmt.Sprint(i)+sfx)))
			continue
		}
		out = append(out, varDecl(p.Name()+sfx, t, a), assign(ident("_"), ident(p.Name()+sfx)))
	}
	var inner []ast.Stmt
	for i, v := range h.named {
		nm := v.Name() + sfx
		if v.Name() == "_" {
			nm = fmt.Sprint("res", i) + sfx
		}
		inner = append(inner, varDecl(nm, cloneNode(h.rtypes[i], nil), nil), assign(ident("_"), ident(nm)))
	}
	label := "L" + sfx
	body := cloneNode(h.decl.Body, on)
	// returns of the copy, side by side with those of the original
	type ret struct{ old, nw *ast.ReturnStmt }
	var rs []ret
	var pair func(a, b ast.Node)
	collect := func(n ast.Node) (l []*ast.ReturnStmt) {
		ast.Inspect(n, func(x ast.Node) bool {
			if _, ok := x.(*ast.FuncLit); ok {
				return false
			}
			if r, ok := x.(*ast.ReturnStmt); ok {
				l = append(l, r)
			}
			return true
		})
		return
	}
	_ = pair
	o, w := collect(h.decl.Body), collect(body)
	for i := range o {
		rs = append(rs, ret{o[i], w[i]})
	}
	usedLabel := false
	repl := map[*ast.ReturnStmt][]ast.Stmt{}
	for _, r := range rs {
		vals := r.nw.Results
		olds := r.old.Results
		if len(vals) == 0 && len(h.rtypes) > 0 {
			olds = nil
			for i, v := range h.named {
				nm := v.Name() + sfx
				if v.Name() == "_" {
					nm = fmt.Sprint("res", i) + sfx
				}
				vals = append(vals, ident(nm))
			}
		}
		if sk.tail {
			repl[r.nw] = []ast.Stmt{&ast.ReturnStmt{Results: vals}}
			continue
		}
		last := len(body.List) > 0 && body.List[len(body.List)-1] == ast.Stmt(r.nw)
		var ss []ast.Stmt
		if len(h.rtypes) > 0 {
			var lhs []ast.Expr
			for _, nm := range sk.names {
				lhs = append(lhs, ident(nm))
			}
			ss = append(ss, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vals})
		}
		leaves := false
		if sk.after != nil {
			switch c.decides(sk, r.old, olds, h) {
			case 1:
				ss = append(ss, cloneNode(sk.after.Body, nil))
				leaves = true
			case 0:
				ss = append(ss, &ast.IfStmt{Cond: cloneNode(sk.after.Cond, nil), Body: cloneNode(sk.after.Body, nil)})
			}
		}
		if !last && !leaves {
			usedLabel = true
			ss = append(ss, &ast.BranchStmt{Tok: token.BREAK, Label: ident(label)})
		}
		repl[r.nw] = ss
	}
	astutil.Apply(body, func(cu *astutil.Cursor) bool {
		if _, ok := cu.Node().(*ast.FuncLit); ok {
			return false
		}
		r, ok := cu.Node().(*ast.ReturnStmt)
		if !ok {
			return true
		}
		ss, ok := repl[r]
		if !ok {
			return true
		}
		if cu.Index() < 0 {
			cu.Replace(&ast.BlockStmt{List: ss})
			return false
		}
		if len(ss) == 0 {
			cu.Replace(&ast.EmptyStmt{})
			return false
		}
		for _, s := range ss[:len(ss)-1] {
			cu.InsertBefore(s)
		}
		cu.Replace(ss[len(ss)-1])
		return false
	}, nil)
	inner = append(inner, body.List...)
	if sk.tail {
		if len(h.rtypes) == 0 {
			return nil, false
		}
		out = append(out, &ast.BlockStmt{List: inner})
		c.done[h.obj]++
		return out, true
	}
	if usedLabel {
		out = append(out, &ast.LabeledStmt{Label: ident(label), Stmt: &ast.SwitchStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.CaseClause{Body: inner}}}}})
	} else {
		out = append(out, &ast.BlockStmt{List: inner})
	}
	c.done[h.obj]++
	return out, true
}

// decides tells whether the condition that follows the call is known to hold (1) or not (-1) after this return.
func (c *inl) decides(sk *sink, r *ast.ReturnStmt, vals []ast.Expr, h *helper) int {
	if len(vals) != len(sk.names) {
		return 0
	}
	val := func(e ast.Expr) ast.Expr {
		i, ok := unparen(e).(*ast.Ident)
		if !ok {
			return nil
		}
		for k, nm := range sk.names {
			if nm == i.Name {
				return unparen(vals[k])
			}
		}
		return nil
	}
	truth := func(e ast.Expr) int {
		if i, ok := e.(*ast.Ident); ok {
			if c.info().Uses[i] == types.Universe.Lookup("true") {
				return 1
			}
			if c.info().Uses[i] == types.Universe.Lookup("false") {
				return -1
			}
		}
		return 0
	}
	nilness := func(e ast.Expr) int { // 1: not nil
		switch x := e.(type) {
		case *ast.Ident:
			if c.info().Uses[x] == types.Universe.Lookup("nil") {
				return -1
			}
			if c.guardedNonNil(h.decl.Body, r, x) {
				return 1
			}
		case *ast.CallExpr:
			if f, ok := x.Fun.(*ast.SelectorExpr); ok {
				if o := c.info().Uses[f.Sel]; o != nil && o.Pkg() != nil {
					if n := o.Pkg().Path() + "." + o.Name(); n == "fmt.Errorf" || n == "errors.New" {
						return 1
					}
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				return 1
			}
		}
		return 0
	}
	switch x := unparen(sk.after.Cond).(type) {
	case *ast.Ident:
		if v := val(x); v != nil {
			return truth(v)
		}
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			if v := val(x.X); v != nil {
				return -truth(v)
			}
		}
	case *ast.BinaryExpr:
		l, rr := x.X, x.Y
		if i, ok := unparen(rr).(*ast.Ident); !ok || i.Name != "nil" {
			l, rr = rr, l
		}
		if i, ok := unparen(rr).(*ast.Ident); ok && i.Name == "nil" {
			if v := val(l); v != nil {
				switch x.Op {
				case token.NEQ:
					return nilness(v)
				case token.EQL:
					return -nilness(v)
				}
			}
		}
	}
	return 0
}

// guardedNonNil: the return is where x was found not to be nil.
func (c *inl) guardedNonNil(body *ast.BlockStmt, r *ast.ReturnStmt, x *ast.Ident) bool {
	v, ok := c.info().Uses[x].(*types.Var)
	if !ok || v.Parent() == nil || v.Parent() == v.Pkg().Scope() {
		return false
	}
	found, shared := false, false
	ast.Inspect(body, func(m ast.Node) bool {
		switch s := m.(type) {
		case *ast.UnaryExpr:
			if i, ok := unparen(s.X).(*ast.Ident); ok && s.Op == token.AND && c.info().Uses[i] == types.Object(v) {
				shared = true
			}
		case *ast.FuncLit:
			ast.Inspect(s, func(q ast.Node) bool {
				if i, ok := q.(*ast.Ident); ok && c.info().Uses[i] == types.Object(v) {
					shared = true
				}
				return true
			})
		case *ast.IfStmt:
			b, ok := unparen(s.Cond).(*ast.BinaryExpr)
			if !ok || b.Op != token.NEQ {
				return true
			}
			i, ok := unparen(b.X).(*ast.Ident)
			k, ok2 := unparen(b.Y).(*ast.Ident)
			if !ok || !ok2 || c.info().Uses[k] != types.Universe.Lookup("nil") || c.info().Uses[i] != types.Object(v) {
				return true
			}
			in, assigned := false, false
			ast.Inspect(s.Body, func(q ast.Node) bool {
				switch y := q.(type) {
				case *ast.ReturnStmt:
					in = in || y == r
				case *ast.AssignStmt:
					for _, l := range y.Lhs {
						if j, ok := unparen(l).(*ast.Ident); ok && c.info().Uses[j] == types.Object(v) {
							assigned = true
						}
					}
				}
				return true
			})
			found = found || in && !assigned
		}
		return true
	})
	return found && !shared
}

// leavesAlways: the block ends by leaving the function or the iteration.
func leavesAlways(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	bad := false
	ast.Inspect(b, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.LabeledStmt, *ast.FuncLit:
			bad = true
		case *ast.BranchStmt:
			if x.Tok == token.BREAK && x.Label == nil || x.Tok == token.FALLTHROUGH {
				bad = true // would leave something else
			}
			if x.Tok == token.CONTINUE && x.Label == nil {
				bad = true
			}
		}
		return true
	})
	if bad {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.ExprStmt:
		if call, ok := x.X.(*ast.CallExpr); ok {
			if i, ok := call.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	}
	return false
}

// onlyResults: the condition looks at nothing but the results and does nothing.
func (c *inl) onlyResults(e ast.Expr, names []string) bool {
	ok, any := true, false
	ast.Inspect(e, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.Ident:
			if o := c.info().Uses[x]; o != nil && (o.Parent() == types.Universe) {
				return true
			}
			hit := false
			for _, n := range names {
				hit = hit || n == x.Name && n != "_"
			}
			any = any || hit
			ok = ok && hit
		case nil, *ast.BinaryExpr, *ast.UnaryExpr, *ast.ParenExpr, *ast.BasicLit:
		default:
			ok = false
		}
		return true
	})
	return ok && any
}

// stmt replaces a statement that calls a helper.
func (c *inl) stmt(s ast.Stmt, next *ast.IfStmt) (out []ast.Stmt, usedNext, ok bool) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		if st := c.calleeOf(x.X); st != nil {
			return c.toTemps(st)
		}
		return c.hoist(s, []*ast.Expr{&x.X})
	case *ast.ReturnStmt:
		if len(x.Results) == 1 {
			if st := c.calleeOf(x.Results[0]); st != nil {
				if c.res != nil && sameResults(c.res, st.h.sig()) && c.res.Results().Len() > 0 {
					if r, ok := c.expand(st, &sink{tail: true}); ok {
						return r, false, true
					}
				}
				if st.h.sig().Results().Len() > 1 {
					var names []string
					var pre []ast.Stmt
					var vals []ast.Expr
					c.n.n++
					for i, t := range st.h.rtypes {
						nm := fmt.Sprintf("ret%d_i%d_%d", i, c.n.round, c.n.n)
						names = append(names, nm)
						pre = append(pre, varDecl(nm, cloneNode(t, nil), nil))
						vals = append(vals, ident(nm))
					}
					r, ok := c.expand(st, &sink{names: names})
					if !ok {
						return nil, false, false
					}
					return append(append(pre, r...), &ast.ReturnStmt{Results: vals}), false, true
				}
			}
		}
		var es []*ast.Expr
		for i := range x.Results {
			es = append(es, &x.Results[i])
		}
		return c.hoist(s, es)
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 && (x.Tok == token.ASSIGN || x.Tok == token.DEFINE) {
			if st := c.calleeOf(x.Rhs[0]); st != nil && len(x.Lhs) == len(st.h.rtypes) {
				return c.assign(st, x.Lhs, x.Tok == token.DEFINE, next)
			}
		}
		var es []*ast.Expr
		if x.Tok == token.DEFINE || simpleIdents(x.Lhs) {
			for i := range x.Rhs {
				es = append(es, &x.Rhs[i])
			}
		}
		return c.hoist(s, es)
	case *ast.DeclStmt:
		if g := x.Decl.(*ast.GenDecl); g.Tok == token.VAR && len(g.Specs) == 1 {
			sp := g.Specs[0].(*ast.ValueSpec)
			var es []*ast.Expr
			for i := range sp.Values {
				es = append(es, &sp.Values[i])
			}
			return c.hoist(s, es)
		}
	case *ast.IfStmt:
		if x.Init != nil {
			if a, isA := x.Init.(*ast.AssignStmt); isA && len(a.Rhs) == 1 && (a.Tok == token.DEFINE || a.Tok == token.ASSIGN) {
				if st := c.calleeOf(a.Rhs[0]); st != nil && len(a.Lhs) == len(st.h.rtypes) {
					bare := &ast.IfStmt{Cond: x.Cond, Body: x.Body, Else: x.Else}
					r, used, ok := c.assign(st, a.Lhs, a.Tok == token.DEFINE, bare)
					if !ok {
						return nil, false, false
					}
					if !used {
						c.inside(bare)
						r = append(r, bare)
					} else {
						c.closures(bare)
					}
					return []ast.Stmt{&ast.BlockStmt{List: r}}, false, true
				}
			}
			return nil, false, false
		}
		r, _, ok := c.hoist(nil, []*ast.Expr{&x.Cond})
		if !ok {
			return nil, false, false
		}
		c.inside(x)
		return []ast.Stmt{&ast.BlockStmt{List: append(r, x)}}, false, true
	case *ast.SwitchStmt:
		if x.Init == nil && x.Tag != nil {
			r, _, ok := c.hoist(nil, []*ast.Expr{&x.Tag})
			if !ok {
				return nil, false, false
			}
			c.inside(x)
			return append(r, x), false, true
		}
	case *ast.RangeStmt:
		r, _, ok := c.hoist(nil, []*ast.Expr{&x.X})
		if !ok {
			return nil, false, false
		}
		c.inside(x)
		return append(r, x), false, true
	}
	return nil, false, false
}

func simpleIdents(l []ast.Expr) bool {
	for _, e := range l {
		if _, ok := e.(*ast.Ident); !ok {
			return false
		}
	}
	return true
}

func sameResults(a, b *types.Signature) bool {
	if a.Results().Len() != b.Results().Len() {
		return false
	}
	for i := 0; i < a.Results().Len(); i++ {
		if !types.Identical(a.Results().At(i).Type(), b.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func (c *inl) toTemps(st *site) ([]ast.Stmt, bool, bool) {
	var names []string
	var pre []ast.Stmt
	c.n.n++
	for i, t := range st.h.rtypes {
		nm := fmt.Sprintf("drop%d_i%d_%d", i, c.n.round, c.n.n)
		names = append(names, nm)
		pre = append(pre, varDecl(nm, cloneNode(t, nil), nil), assign(ident("_"), ident(nm)))
	}
	r, ok := c.expand(st, &sink{names: names})
	return append(pre, r...), false, ok
}

// assign: the results go to variables.
func (c *inl) assign(st *site, lhs []ast.Expr, define bool, next *ast.IfStmt) ([]ast.Stmt, bool, bool) {
	sig := st.h.sig()
	c.n.n++
	var names []string
	var decl, post []ast.Stmt
	direct := true
	for i, l := range lhs {
		id, isID := l.(*ast.Ident)
		tmp := fmt.Sprintf("res%d_i%d_%d", i, c.n.round, c.n.n)
		t := cloneNode(st.h.rtypes[i], nil)
		switch {
		case isID && id.Name == "_":
			names = append(names, tmp)
			decl = append(decl, varDecl(tmp, t, nil), assign(ident("_"), ident(tmp)))
		case isID && define && c.info().Defs[id] != nil:
			names = append(names, id.Name)
			decl = append(decl, varDecl(id.Name, t, nil), assign(ident("_"), ident(id.Name)))
		case isID && c.info().TypeOf(id) != nil && types.Identical(c.info().TypeOf(id), sig.Results().At(i).Type()):
			names = append(names, id.Name)
		default:
			direct = false
			names = append(names, tmp)
			decl = append(decl, varDecl(tmp, t, nil))
			post = append(post, assign(l, ident(tmp)))
		}
	}
	sk := &sink{names: names}
	if next != nil && direct && next.Init == nil && next.Else == nil && leavesAlways(next.Body) && c.onlyResults(next.Cond, names) {
		sk.after = next
	}
	r, ok := c.expand(st, sk)
	if !ok {
		return nil, false, false
	}
	// the parameters are evaluated before the new variables exist
	k := 2 * len(st.h.params)
	out := append([]ast.Stmt(nil), r[:k]...)
	out = append(out, decl...)
	out = append(out, r[k:]...)
	out = append(out, post...)
	return out, sk.after != nil, true
}

// hoist moves a helper's call out of the expressions of a statement, when nothing that matters is evaluated before.
func (c *inl) hoist(s ast.Stmt, es []*ast.Expr) ([]ast.Stmt, bool, bool) {
	var at *ast.Expr
	var st *site
	blocked := false
	var walk func(p *ast.Expr)
	walk = func(p *ast.Expr) {
		if blocked || st != nil || *p == nil {
			return
		}
		if q := c.calleeOf(*p); q != nil && len(q.h.rtypes) == 1 {
			at, st = p, q
			return
		}
		switch x := (*p).(type) {
		case *ast.Ident:
			if v, ok := c.info().Uses[x].(*types.Var); ok && (v.Parent() == v.Pkg().Scope() || c.captured(v)) {
				blocked = true
			}
		case *ast.BasicLit:
		case *ast.ParenExpr:
			walk(&x.X)
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				blocked = true
				return
			}
			walk(&x.X)
			if x.Op != token.NOT && x.Op != token.SUB && x.Op != token.AND {
				blocked = blocked || st == nil
			}
		case *ast.BinaryExpr:
			walk(&x.X)
			if x.Op == token.LAND || x.Op == token.LOR {
				blocked = true // the rest is evaluated only sometimes
				return
			}
			walk(&x.Y)
		case *ast.SelectorExpr:
			if i, ok := x.X.(*ast.Ident); ok {
				if _, isPkg := c.info().Uses[i].(*types.PkgName); isPkg {
					if _, isVar := c.info().Uses[x.Sel].(*types.Var); isVar {
						blocked = true
					}
					return
				}
			}
			walk(&x.X)
			if st == nil {
				if sel := c.info().Selections[x]; sel == nil || sel.Kind() != types.MethodVal {
					blocked = true
				}
			}
		case *ast.CallExpr:
			if tv, ok := c.info().Types[x.Fun]; !ok || !tv.IsType() {
				walk(&x.Fun)
			}
			for i := range x.Args {
				if tv, ok := c.info().Types[x.Args[i]]; ok && tv.IsType() {
					continue
				}
				walk(&x.Args[i])
			}
			if st == nil {
				if tv, ok := c.info().Types[x.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
					return
				}
				blocked = true
			}
		case *ast.CompositeLit:
			for i := range x.Elts {
				if kv, ok := x.Elts[i].(*ast.KeyValueExpr); ok {
					walk(&kv.Value)
				} else {
					walk(&x.Elts[i])
				}
			}
		case *ast.IndexExpr:
			walk(&x.X)
			walk(&x.Index)
			blocked = blocked || st == nil
		case *ast.SliceExpr:
			walk(&x.X)
			blocked = blocked || st == nil
		case *ast.TypeAssertExpr:
			walk(&x.X)
			blocked = blocked || st == nil
		case *ast.StarExpr:
			walk(&x.X)
			blocked = blocked || st == nil
		default:
			blocked = true
		}
	}
	for _, e := range es {
		walk(e)
	}
	if st == nil {
		return nil, false, false
	}
	c.n.n++
	nm := fmt.Sprintf("val_i%d_%d", c.n.round, c.n.n)
	r, ok := c.expand(st, &sink{names: []string{nm}})
	if !ok {
		return nil, false, false
	}
	k := 2 * len(st.h.params)
	out := append([]ast.Stmt(nil), r[:k]...)
	out = append(out, varDecl(nm, cloneNode(st.h.rtypes[0], nil), nil))
	out = append(out, r[k:]...)
	*at = ident(nm)
	if s != nil {
		c.closures(s)
		out = append(out, s)
	}
	return out, false, true
}

// captured: a closure or an address of the variable exists.
func (c *inl) captured(v *types.Var) bool {
	hit := false
	ast.Inspect(c.fd, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if i, ok := unparen(x.X).(*ast.Ident); ok && c.info().Uses[i] == types.Object(v) {
					hit = true
				}
			}
		case *ast.FuncLit:
			ast.Inspect(x, func(q ast.Node) bool {
				if i, ok := q.(*ast.Ident); ok && c.info().Uses[i] == types.Object(v) && (v.Pos() < x.Pos() || v.Pos() > x.End()) {
					hit = true
				}
				return true
			})
			return false
		}
		return true
	})
	return hit
}
