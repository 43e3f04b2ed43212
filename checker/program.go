package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/danomagnum/gologix"

// Prog is the resolved library program every rule works on.
type Prog struct {
	Dir       string
	Inlined   int // calls of expression functions replaced before lowering
	Fset      *token.FileSet
	SSA       *ssa.Program
	Pkgs      []*packages.Package
	Root      *ssa.Package
	Lgx       *ssa.Package
	L5x       *ssa.Package
	Canned    *ssa.Package
	Funcs     []*ssa.Function // every library function with a body, closures included, sorted by name
	lib       map[*ssa.Package]bool
	allNamed  []*types.Named
	msets     typeutil.MethodSetCache
	live      map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	implCache map[string][]*ssa.Function
	callersOf map[*ssa.Function][]ssa.CallInstruction
}

// LoadProg type-checks and lowers the library packages found under dir.
func LoadProg(dir string, base map[string][]byte, patterns ...string) (*Prog, error) {
	pk, inlined, err := loadNormal(dir, base, patterns)
	if err != nil {
		return nil, err
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	prog, sp := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Dir: dir, Inlined: inlined, SSA: prog, Fset: prog.Fset, Pkgs: pk, lib: map[*ssa.Package]bool{},
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, implCache: map[string][]*ssa.Function{}}
	for i, s := range sp {
		if s == nil {
			continue
		}
		p.lib[s] = true
		path := pk[i].PkgPath
		switch {
		case path == modPath || path == "selftest":
			p.Root = s
		case strings.HasSuffix(path, "/lgxtypes"):
			p.Lgx = s
		case strings.HasSuffix(path, "/l5x"):
			p.L5x = s
		case strings.HasSuffix(path, "/canned"):
			p.Canned = s
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if p.InLib(f) && len(f.Blocks) > 0 {
			p.Funcs = append(p.Funcs, f)
		}
	}
	// methods of generic types have no instance unless used: analyse their generic bodies
	have := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		have[f] = true
	}
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || have[f] || len(f.Blocks) == 0 {
			return
		}
		have[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for s := range p.lib {
		for _, m := range s.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
					for i := 0; i < n.NumMethods(); i++ {
						addFn(prog.FuncValue(n.Method(i)))
					}
				}
			}
			if f, ok := m.(*ssa.Function); ok {
				addFn(f)
			}
		}
	}
	for _, f := range p.Funcs {
		dropIdle(f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for s := range p.lib {
		for _, m := range s.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					p.allNamed = append(p.allNamed, n)
				}
			}
		}
	}
	sort.Slice(p.allNamed, func(i, j int) bool { return p.allNamed[i].String() < p.allNamed[j].String() })
	return p, nil
}

// dropIdle removes the reads of variables that nothing uses (_ = x).
func dropIdle(f *ssa.Function) {
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = x.X
				continue
			}
			return false
		}
	}
	for _, b := range f.Blocks {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			v, ok := b.Instrs[i].(ssa.Value)
			if !ok || v.Referrers() == nil || len(*v.Referrers()) > 0 {
				continue
			}
			var from ssa.Value
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && local(x.X) {
					from = x.X
				}
			case *ssa.FieldAddr:
				if local(x.X) {
					from = x.X
				}
			}
			if from == nil {
				continue
			}
			refs := from.Referrers()
			var keep []ssa.Instruction
			for _, r := range *refs {
				if r != b.Instrs[i] {
					keep = append(keep, r)
				}
			}
			*refs = keep
			b.Instrs = append(b.Instrs[:i:i], b.Instrs[i+1:]...)
		}
	}
}

// Src reports whether f is written in the source (not a wrapper the compiler made).
func Src(f *ssa.Function) bool {
	return f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "instance of") || f.Synthetic == "package initializer"
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg
	}
	if o := f.Origin(); o != nil {
		return o.Pkg
	}
	return nil
}

// InLib reports whether f belongs to one of the library packages.
func (p *Prog) InLib(f *ssa.Function) bool {
	if pk := pkgOf(f); pk != nil {
		return p.lib[pk]
	}
	// synthetic wrappers: judge by receiver/object package
	if o := f.Object(); o != nil && o.Pkg() != nil {
		for s := range p.lib {
			if s.Pkg == o.Pkg() {
				return true
			}
		}
	}
	return false
}

// SrcFuncs lists source functions of the given packages (all library packages when none given).
func (p *Prog) SrcFuncs(pkgs ...*ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance of") {
			continue
		}
		if len(pkgs) > 0 {
			ok := false
			for _, k := range pkgs {
				if pkgOf(f) == k {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

// Pos renders a position relative to the analysed directory.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// FnName is a short stable name: (*Client).Read, parseX, (*Client).Read$1.
func FnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.RelString(nil)
	if pk := pkgOf(f); pk != nil {
		s = f.RelString(pk.Pkg)
		if pk.Pkg.Path() != modPath && pk.Pkg.Path() != "selftest" {
			s = pk.Pkg.Name() + "." + s
		}
	}
	return s
}

// Method finds a method of a named root-package type.
func (p *Prog) Method(typ, name string) *ssa.Function { return p.MethodIn(p.Root, typ, name) }

func (p *Prog) MethodIn(pk *ssa.Package, typ, name string) *ssa.Function {
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

// Func finds a package-level function of the root package.
func (p *Prog) Func(name string) *ssa.Function {
	if p.Root == nil {
		return nil
	}
	return p.Root.Func(name)
}

func (p *Prog) Named(name string) *types.Named {
	if p.Root == nil {
		return nil
	}
	if o := p.Root.Pkg.Scope().Lookup(name); o != nil {
		if n, ok := o.Type().(*types.Named); ok {
			return n
		}
	}
	return nil
}

// Methods returns all methods declared on a root-package type.
func (p *Prog) Methods(typ string) []*ssa.Function {
	n := p.Named(typ)
	var out []*ssa.Function
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.SSA.FuncValue(n.Method(i)); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// Impl resolves an interface method call to the in-library methods it may reach.
func (p *Prog) Impl(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		return nil
	}
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := c.Value.Type().String() + "." + c.Method.Name()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, n := range p.allNamed {
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		if n.TypeParams().Len() > 0 {
			continue
		}
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if !types.Implements(t, iface) {
				continue
			}
			ms := p.msets.MethodSet(t)
			sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			if fo, ok := sel.Obj().(*types.Func); ok {
				if f := p.SSA.FuncValue(fo); f != nil && len(f.Blocks) > 0 && p.InLib(f) {
					dup := false
					for _, o := range out {
						if o == f {
							dup = true
						}
					}
					if !dup {
						out = append(out, f)
					}
				}
			}
		}
	}
	p.implCache[key] = out
	return out
}

// Callees of a call within the library: static callee, closure, or interface implementers.
func (p *Prog) Callees(ci ssa.CallInstruction) []*ssa.Function {
	c := ci.Common()
	if c.IsInvoke() {
		return p.Impl(c)
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

// CallersOf returns the static call sites of f in the library.
func (p *Prog) CallersOf(f *ssa.Function) []ssa.CallInstruction {
	if p.callersOf == nil {
		p.callersOf = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						for _, c := range p.Callees(ci) {
							p.callersOf[c] = append(p.callersOf[c], ci)
						}
					}
				}
			}
		}
	}
	return p.callersOf[f]
}

// Reach returns the functions reachable from the roots over library calls, closures included.
func (p *Prog) Reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !p.InLib(f) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					for _, c := range p.Callees(ci) {
						visit(c)
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// deref strips one pointer.
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// namedOf returns the named type behind t (through one pointer), or nil.
func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// typeName is "pkg.Name" ("Name" for root package types).
func typeName(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return ""
	}
	o := n.Origin().Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	if o.Pkg().Path() == modPath || o.Pkg().Path() == "selftest" {
		return o.Name()
	}
	return o.Pkg().Path() + "." + o.Name()
}

// fieldOf names the struct type and field of a FieldAddr or Field instruction.
func fieldOf(v ssa.Value) (typ, field string, ok bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st, k := deref(x.X.Type()).Underlying().(*types.Struct)
		if !k {
			return "", "", false
		}
		return typeName(deref(x.X.Type())), st.Field(x.Field).Name(), true
	case *ssa.Field:
		st, k := x.X.Type().Underlying().(*types.Struct)
		if !k {
			return "", "", false
		}
		return typeName(x.X.Type()), st.Field(x.Field).Name(), true
	}
	return "", "", false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// calleeName gives "pkgpath.Func" or "pkgpath.(T).Method" for static callees and
// "invoke:<iface>.<method>" for interface calls; "builtin:x" for builtins.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke:" + typeString(c.Value.Type()) + "." + c.Method.Name()
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return "builtin:" + v.Name()
	case *ssa.Function:
		return fullName(v)
	case *ssa.MakeClosure:
		return fullName(v.Fn.(*ssa.Function))
	}
	return "dynamic"
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func fullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Signature.Recv() != nil {
		return "(" + typeString(f.Signature.Recv().Type()) + ")." + f.Name()
	}
	if pk := pkgOf(f); pk != nil {
		return pk.Pkg.Path() + "." + f.Name()
	}
	return f.String()
}

// Live returns the live-in values of each block.
func (p *Prog) Live(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := p.live[f]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	changed := true
	for changed {
		changed = false
		for bi := len(f.Blocks) - 1; bi >= 0; bi-- {
			b := f.Blocks[bi]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				pi := -1
				for k, q := range s.Preds {
					if q == b {
						pi = k
					}
				}
				for _, i := range s.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
					_ = pi
				}
				for _, i := range s.Instrs {
					phi, ok := i.(*ssa.Phi)
					if !ok {
						break
					}
					for k, q := range s.Preds {
						if q == b {
							live[phi.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if v, ok := i.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	p.live[f] = in
	return in
}

// Relevant returns the functions that contain a matching instruction, directly, in a closure, or in a callee.
func (p *Prog) Relevant(match func(f *ssa.Function, i ssa.Instruction) bool) map[*ssa.Function]bool {
	return p.RelevantStop(match, nil)
}

// RelevantStop does not look past functions for which stop is true.
func (p *Prog) RelevantStop(match func(f *ssa.Function, i ssa.Instruction) bool, stop func(f *ssa.Function) bool) map[*ssa.Function]bool {
	rel := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	for _, f := range p.Funcs {
		hit := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if !hit && match(f, i) {
					hit = true
				}
				if ci, ok := i.(ssa.CallInstruction); ok {
					for _, c := range p.Callees(ci) {
						callers[c] = append(callers[c], f)
					}
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
		if f.Parent() != nil {
			callers[f] = append(callers[f], f.Parent())
		}
		if hit {
			rel[f] = true
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if stop != nil && stop(f) {
			continue
		}
		for _, g := range callers[f] {
			if !rel[g] {
				rel[g] = true
				work = append(work, g)
			}
		}
	}
	return rel
}
