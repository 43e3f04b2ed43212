package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Memory value numbering: which stores and calls may change what a load sees.

// mclass is what a store or a load touches: a field of a struct type, the elements of a slice type,
// what a pointer of some type points to, or (alloc != nil) the same inside one local variable.
type mclass struct {
	alloc *ssa.Alloc
	tf    string
}

// vtok is a version of a class: the point that last may have changed it.
type vtok struct {
	key   string
	ins   ssa.Instruction // store, call or alloc
	phi   *ssa.BasicBlock
	entry bool
	cls   mclass
}

type astep struct {
	field string // "" for an index step
	fidx  int
	index string // constant index or value key
	iv    ssa.Value
	typ   types.Type // type of the struct holding the field
}

// apath is an address: a root (local, pointer value or loaded pointer) and the steps taken from it.
type apath struct {
	root  ssa.Value
	ld    *mload
	steps []astep
	typ   types.Type // type stored at the address
}

type mload struct {
	addr *apath
	ver  *vtok
}

func (a *apath) key() string {
	var b strings.Builder
	if a.ld != nil {
		b.WriteString("*(" + a.ld.key() + ")")
	} else {
		b.WriteString(vname(a.root))
	}
	for _, s := range a.steps {
		if s.field != "" {
			b.WriteString("." + s.field)
		} else {
			b.WriteString("[" + s.index + "]")
		}
	}
	return b.String()
}

func (m *mload) key() string { return m.addr.key() + "@" + m.ver.key }

func vname(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return "global:" + x.String()
	case *ssa.Const:
		return "const:" + x.String()
	case *ssa.Function:
		return x.String()
	}
	return v.Name()
}

// class of the last step of an address.
func (a *apath) class() mclass {
	var c mclass
	if al, ok := a.root.(*ssa.Alloc); ok && a.ld == nil {
		c.alloc = al
		for _, s := range a.steps {
			if s.index != "" {
				// an element of a local array stays inside the local
				if _, ok := s.typ.Underlying().(*types.Array); !ok {
					c.alloc = nil
				}
			}
		}
	}
	n := len(a.steps)
	if n == 0 {
		switch r := a.root.(type) {
		case *ssa.Global:
			if a.ld == nil {
				c.tf = "global:" + r.String()
				return c
			}
		}
		c.tf = "*" + typeString(a.typ)
		return c
	}
	s := a.steps[n-1]
	if s.field != "" {
		c.tf = typeString(s.typ) + "." + s.field
	} else {
		c.tf = "[]" + typeString(a.typ)
	}
	return c
}

// modset of a function: the classes (by tf) it or its callees may store to; "all" is never used.
func (b *bounds) modset(f *ssa.Function) map[string]bool {
	if m, ok := b.mods[f]; ok {
		return m
	}
	if b.modsAll == nil {
		b.computeMods()
	}
	return b.mods[f]
}

func (b *bounds) computeMods() {
	b.modsAll = map[*ssa.Function]bool{}
	b.mods = map[*ssa.Function]map[string]bool{}
	fs := b.p.Funcs
	for _, f := range fs {
		b.mods[f] = map[string]bool{}
	}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fs {
		m := b.mods[f]
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					// purely local variables are invisible outside
					if root, esc := allocRoot(x.Addr); root != nil && !esc {
						continue
					}
					for _, t := range storeClasses(x) {
						m[t] = true
					}
				case ssa.CallInstruction:
					for _, c := range b.p.Callees(x) {
						callees[f] = append(callees[f], c)
					}
					for t := range externMods(b.p, x) {
						m[t] = true
					}
					if g := x.Common().StaticCallee(); g != nil && b.p.InLib(g) {
						argMods(b.p, x, m, true)
					}
					for _, op := range x.Operands(nil) {
						if g, ok := (*op).(*ssa.MakeClosure); ok {
							callees[f] = append(callees[f], g.Fn.(*ssa.Function))
						}
						if g, ok := (*op).(*ssa.Function); ok && b.p.InLib(g) {
							callees[f] = append(callees[f], g)
						}
					}
				case *ssa.MakeClosure:
					callees[f] = append(callees[f], x.Fn.(*ssa.Function))
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			for _, g := range callees[f] {
				for t := range b.mods[g] {
					if !b.mods[f][t] {
						b.mods[f][t] = true
						ch = true
					}
				}
			}
		}
	}
}

// allocRoot walks an address to the local it lies in; esc says the local's address is stored or captured somewhere.
func allocRoot(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil, false
			}
			v = x.X
		case *ssa.Alloc:
			return x, allocEscapes(x)
		default:
			return nil, false
		}
	}
}

var escCache = map[*ssa.Alloc]bool{}

// allocEscapes: the address is kept somewhere a later store through another pointer could reach.
func allocEscapes(a *ssa.Alloc) bool {
	if e, ok := escCache[a]; ok {
		return e
	}
	escCache[a] = false
	seen := map[ssa.Value]bool{}
	var esc func(v ssa.Value) bool
	esc = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					// stored into a variadic argument array of a call is a call argument
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
							continue
						}
					}
					return true
				}
			case *ssa.FieldAddr:
				if esc(x) {
					return true
				}
			case *ssa.IndexAddr:
				if esc(x) {
					return true
				}
			case *ssa.MakeInterface:
				if esc(x) {
					return true
				}
			case *ssa.ChangeInterface:
				if esc(x) {
					return true
				}
			case *ssa.ChangeType:
				if esc(x) {
					return true
				}
			case *ssa.Slice:
				if esc(x) {
					return true
				}
			case *ssa.MakeClosure, *ssa.Phi, *ssa.Return, *ssa.Send, *ssa.MapUpdate, *ssa.Go, *ssa.Defer:
				return true
			}
		}
		return false
	}
	r := esc(a)
	escCache[a] = r
	return r
}

// storeClasses lists the tf classes a store may change (whole-struct stores change every field).
func storeClasses(s *ssa.Store) []string {
	var out []string
	switch x := s.Addr.(type) {
	case *ssa.FieldAddr:
		t, f, ok := fieldOfT(x)
		if ok {
			out = append(out, typeString(t)+"."+f)
		}
	case *ssa.IndexAddr:
		out = append(out, "[]"+typeString(deref(x.Type())))
	case *ssa.Global:
		out = append(out, "global:"+x.String())
	default:
	}
	out = append(out, "*"+typeString(deref(s.Addr.Type())))
	out = append(out, structClasses(deref(s.Addr.Type()), 0)...)
	return out
}

func structClasses(t types.Type, d int) []string {
	var out []string
	if d > 4 {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, typeString(t)+"."+u.Field(i).Name())
			out = append(out, structClasses(u.Field(i).Type(), d+1)...)
		}
	case *types.Array:
		out = append(out, "[]"+typeString(u.Elem()))
		out = append(out, structClasses(u.Elem(), d+1)...)
	}
	return out
}

func fieldOfT(v *ssa.FieldAddr) (types.Type, string, bool) {
	t := deref(v.X.Type())
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, "", false
	}
	return t, st.Field(v.Field).Name(), true
}

var pureExtern = map[string]bool{"fmt.Errorf": true, "errors.New": true, "fmt.Sprintf": true, "fmt.Sprint": true, "errors.Is": true,
	"encoding/binary.Size": true, "reflect.ValueOf": true, "reflect.TypeOf": true, "log/slog.Any": true, "fmt.Printf": true, "fmt.Println": true, "log.Printf": true, "log.Print": true, "log.Println": true,
	"slices.Contains": true, "slices.Equal": true, "bytes.Equal": true, "slices.Index": true, "slices.IndexFunc": true, "slices.ContainsFunc": true}

// externMods: what a call outside the library may change through its arguments.
func externMods(p *Prog, ci ssa.CallInstruction) map[string]bool {
	c := ci.Common()
	out := map[string]bool{}
	ext := false
	if c.IsInvoke() {
		ext = true
		if strings.Contains(typeString(c.Value.Type()), "LoggerInterface") {
			return out
		}
	} else if f := c.StaticCallee(); f != nil {
		ext = !p.InLib(f)
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" || b.Name() == "append" || b.Name() == "clear" {
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && b.Name() != "append" {
				out["[]"+typeString(s.Elem())] = true
				for _, t := range structClasses(s.Elem(), 0) {
					out[t] = true
				}
			}
		}
		return out
	} else {
		ext = true
	}
	if !ext || pureExtern[calleeName(c)] {
		return out
	}
	argMods(p, ci, out, false)
	return out
}

// argMods adds what may change through the arguments of a call (ifaceOnly: only those passed as interfaces).
func argMods(p *Prog, ci ssa.CallInstruction, out map[string]bool, ifaceOnly bool) {
	c := ci.Common()
	hdrKept := func(i int) bool {
		if calleeName(c) == "encoding/binary.Read" {
			return true
		}
		f := c.StaticCallee()
		return f != nil && p.InLib(f) && i < len(f.Params) && binOnly(p, f, f.Params[i], 0)
	}
	seen := map[string]bool{}
	var add func(t types.Type, d int, keep bool)
	add = func(t types.Type, d int, keep bool) {
		if d > 5 || seen[typeString(t)] {
			return
		}
		seen[typeString(t)] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if _, isSl := u.Elem().Underlying().(*types.Slice); !isSl || !keep {
				out["*"+typeString(u.Elem())] = true
			}
			for _, k := range structClasses(u.Elem(), 0) {
				out[k] = true
			}
			add(u.Elem(), d+1, keep)
		case *types.Slice:
			out["[]"+typeString(u.Elem())] = true
			for _, k := range structClasses(u.Elem(), 0) {
				out[k] = true
			}
			if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
				add(u.Elem(), d+1, keep)
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				switch u.Field(i).Type().Underlying().(type) {
				case *types.Pointer, *types.Slice:
					add(u.Field(i).Type(), d+1, keep)
				}
			}
		}
	}
	visit := func(v ssa.Value, i int) {
		iface := false
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v, iface = x.X, true
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			}
			break
		}
		// a field's or element's own address: that place may change
		place := func(v ssa.Value) {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				if t, f, ok := fieldOfT(x); ok {
					if _, isSl := deref(x.Type()).Underlying().(*types.Slice); !isSl || !hdrKept(i) {
						out[typeString(t)+"."+f] = true
					}
				}
			case *ssa.IndexAddr:
				out["[]"+typeString(deref(x.Type()))] = true
			}
		}
		if sl, ok := v.(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, rr := range *ia.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
								x := st.Val
								if mi, ok := x.(*ssa.MakeInterface); ok {
									x = mi.X
								} else if ifaceOnly {
									continue
								}
								place(x)
								add(x.Type(), 0, hdrKept(i))
							}
						}
					}
				}
				return
			}
		}
		if ifaceOnly && !iface {
			// a pointer handed on as a pointer: the callee's own stores say what changes,
			// but the class of the field it points at is only known here
			place2 := v
			if _, ok := v.Type().Underlying().(*types.Pointer); ok {
				place(place2)
			}
			return
		}
		place(v)
		add(v.Type(), 0, hdrKept(i))
	}
	for i, a := range c.Args {
		visit(a, i)
	}
	if c.IsInvoke() && !ifaceOnly {
		visit(c.Value, -1)
	}
}

var binOnlyCache = map[*ssa.Parameter]int{}

// binOnly: an interface parameter is only ever handed to encoding/binary.Read, which fills what
// it points at and never replaces a slice header.
func binOnly(p *Prog, f *ssa.Function, q *ssa.Parameter, d int) bool {
	if r, ok := binOnlyCache[q]; ok {
		return r == 1
	}
	if d > 4 || q.Referrers() == nil {
		return false
	}
	binOnlyCache[q] = 1
	ok := true
	for _, r := range *q.Referrers() {
		ci, isCall := r.(ssa.CallInstruction)
		if !isCall {
			if _, isDbg := r.(*ssa.DebugRef); isDbg {
				continue
			}
			ok = false
			break
		}
		c := ci.Common()
		n := calleeName(c)
		if n == "encoding/binary.Read" || n == "encoding/binary.Size" {
			continue
		}
		g := c.StaticCallee()
		if g == nil || !p.InLib(g) {
			ok = false
			break
		}
		for i, a := range c.Args {
			if a == ssa.Value(q) && (i >= len(g.Params) || !binOnly(p, g, g.Params[i], d+1)) {
				ok = false
			}
		}
	}
	if !ok {
		binOnlyCache[q] = 0
	}
	return ok
}

// fnA holds per-function facts.
type fnA struct {
	b     *bounds
	f     *ssa.Function
	vin   map[mclass]map[*ssa.BasicBlock]*vtok
	vout  map[mclass]map[*ssa.BasicBlock]*vtok
	toks  map[string]*vtok
	ins   map[ssa.Instruction]int
	calls map[ssa.Instruction]map[string]bool
}

func (b *bounds) fn(f *ssa.Function) *fnA {
	if a, ok := b.fns[f]; ok {
		return a
	}
	a := &fnA{b: b, f: f, vin: map[mclass]map[*ssa.BasicBlock]*vtok{}, vout: map[mclass]map[*ssa.BasicBlock]*vtok{}, toks: map[string]*vtok{}, ins: map[ssa.Instruction]int{}, calls: map[ssa.Instruction]map[string]bool{}}
	n := 0
	for _, blk := range f.Blocks {
		for _, i := range blk.Instrs {
			a.ins[i] = n
			n++
		}
	}
	b.fns[f] = a
	return a
}

func (a *fnA) tok(key string, mk func() *vtok) *vtok {
	if t, ok := a.toks[key]; ok {
		return t
	}
	t := mk()
	t.key = key
	a.toks[key] = t
	return t
}

// callMods: the classes a call may change.
func (a *fnA) callMods(ci ssa.CallInstruction) map[string]bool {
	if m, ok := a.calls[ci]; ok {
		return m
	}
	m := map[string]bool{}
	merge := func(s map[string]bool) {
		for k := range s {
			m[k] = true
		}
	}
	for _, f := range a.b.p.Callees(ci) {
		if a.b.p.InLib(f) {
			merge(a.b.modset(f))
		}
	}
	for k := range externMods(a.b.p, ci) {
		m[k] = true
	}
	if g := ci.Common().StaticCallee(); g != nil && a.b.p.InLib(g) {
		argMods(a.b.p, ci, m, true)
	}
	// arguments that are library types handed to outside code: their methods may run
	if f := ci.Common().StaticCallee(); f != nil && !a.b.p.InLib(f) && !pureExtern[calleeName(ci.Common())] || ci.Common().IsInvoke() {
		for _, arg := range ci.Common().Args {
			v := arg
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if n := namedOf(deref(v.Type())); n != nil {
				for i := 0; i < n.NumMethods(); i++ {
					if g := a.b.p.SSA.FuncValue(n.Method(i)); g != nil && a.b.p.InLib(g) && len(g.Blocks) > 0 {
						switch g.Name() {
						case "Read", "Write", "ReadByte", "WriteByte", "Bytes", "Len", "String", "Error", "Pack", "Unpack":
							merge(a.b.modset(g))
						}
					}
				}
			}
		}
	}
	// closures
	for _, op := range ci.Operands(nil) {
		if mc, ok := (*op).(*ssa.MakeClosure); ok {
			merge(a.b.modset(mc.Fn.(*ssa.Function)))
		}
		if g, ok := (*op).(*ssa.Function); ok && a.b.p.InLib(g) && len(g.Blocks) > 0 {
			merge(a.b.modset(g))
		}
	}
	// a dynamic call of an unknown function value may run any closure of this function
	if ci.Common().StaticCallee() == nil && !ci.Common().IsInvoke() {
		if _, ok := ci.Common().Value.(*ssa.Builtin); !ok {
			for _, an := range a.f.AnonFuncs {
				merge(a.b.modset(an))
			}
		}
	}
	a.calls[ci] = m
	return m
}

// takesAlloc: the call receives an address inside the local.
func takesAlloc(ci ssa.CallInstruction, al *ssa.Alloc) bool {
	var in func(v ssa.Value, d int) bool
	in = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Alloc:
			if x == al {
				return true
			}
			if x.Comment == "varargs" {
				for _, r := range *x.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, rr := range *ia.Referrers() {
							if s, ok := rr.(*ssa.Store); ok && s.Addr == ia && in(s.Val, d+1) {
								return true
							}
						}
					}
				}
			}
		case *ssa.FieldAddr:
			return in(x.X, d+1)
		case *ssa.IndexAddr:
			return in(x.X, d+1)
		case *ssa.MakeInterface:
			return in(x.X, d+1)
		case *ssa.ChangeInterface:
			return in(x.X, d+1)
		case *ssa.ChangeType:
			return in(x.X, d+1)
		case *ssa.Slice:
			return in(x.X, d+1)
		case *ssa.MakeClosure:
			for _, bd := range x.Bindings {
				if in(bd, d+1) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range ci.Common().Args {
		if in(a, 0) {
			return true
		}
	}
	if in(ci.Common().Value, 0) {
		return true
	}
	return false
}

// kills says whether an instruction may change a class.
func (a *fnA) kills(c mclass, i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.Alloc:
		return c.alloc == x
	case *ssa.Store:
		root, _ := allocRoot(x.Addr)
		if c.alloc != nil {
			if root != nil && root != c.alloc {
				return false
			}
			if root == nil && !allocEscapes(c.alloc) {
				return false
			}
			if root == c.alloc {
				// same local: compare the class, or an enclosing whole store
				for _, t := range storeClasses(x) {
					if t == c.tf {
						return true
					}
				}
				return x.Addr == ssa.Value(c.alloc)
			}
		} else if root != nil && !allocEscapes(root) {
			// the general class cannot be inside a local that no pointer reaches,
			// unless the pointer is the local's own address held in a value
			return false
		}
		for _, t := range storeClasses(x) {
			if t == c.tf {
				return true
			}
		}
		return false
	case *ssa.Go:
		return false
	case ssa.CallInstruction:
		if _, ok := x.(*ssa.Defer); ok {
			return false
		}
		if c.alloc != nil {
			if !takesAlloc(x, c.alloc) && !allocEscapes(c.alloc) {
				return false
			}
			if takesAlloc(x, c.alloc) {
				// library callee: by its mod set; otherwise assume it writes
				cs := a.b.p.Callees(x)
				f := x.Common().StaticCallee()
				if len(cs) == 0 || f != nil && !a.b.p.InLib(f) || x.Common().IsInvoke() {
					n := calleeName(x.Common())
					if n == "encoding/binary.Read" {
						return a.callMods(x)[c.tf]
					}
					if _, ok := x.Common().Value.(*ssa.Builtin); ok {
						return a.callMods(x)[c.tf]
					}
					return !pureExtern[n]
				}
			}
		}
		return a.callMods(x)[c.tf]
	case *ssa.RunDefers:
		return true
	}
	return false
}

func (a *fnA) solve(c mclass) {
	if _, ok := a.vin[c]; ok {
		return
	}
	in, out := map[*ssa.BasicBlock]*vtok{}, map[*ssa.BasicBlock]*vtok{}
	a.vin[c], a.vout[c] = in, out
	ck := fmt.Sprintf("%p/%s", c.alloc, c.tf)
	entry := a.tok(ck+"#entry", func() *vtok { return &vtok{entry: true, cls: c} })
	last := map[*ssa.BasicBlock]*vtok{}
	for _, b := range a.f.Blocks {
		for _, i := range b.Instrs {
			if a.kills(c, i) {
				i := i
				last[b] = a.tok(fmt.Sprintf("%s#%d", ck, a.ins[i]), func() *vtok { return &vtok{ins: i, cls: c} })
			}
		}
	}
	phi := map[*ssa.BasicBlock]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range a.f.Blocks {
			var m *vtok
			if b.Index == 0 {
				m = entry
			} else if phi[b] {
				b := b
				m = a.tok(fmt.Sprintf("%s#phi%d", ck, b.Index), func() *vtok { return &vtok{phi: b, cls: c} })
			} else {
				for _, p := range b.Preds {
					o := out[p]
					if o == nil {
						continue
					}
					if m == nil {
						m = o
					} else if m != o {
						phi[b] = true
						b := b
						m = a.tok(fmt.Sprintf("%s#phi%d", ck, b.Index), func() *vtok { return &vtok{phi: b, cls: c} })
						break
					}
				}
			}
			if m == nil {
				continue
			}
			if in[b] != m {
				in[b] = m
				ch = true
			}
			o := m
			if l := last[b]; l != nil {
				o = l
			}
			if out[b] != o {
				out[b] = o
				ch = true
			}
		}
	}
}

// verAt is the version of class c seen just before instruction i.
func (a *fnA) verAt(c mclass, i ssa.Instruction) *vtok {
	a.solve(c)
	b := i.Block()
	ck := fmt.Sprintf("%p/%s", c.alloc, c.tf)
	v := a.vin[c][b]
	for _, j := range b.Instrs {
		if j == i {
			break
		}
		if t, ok := a.toks[fmt.Sprintf("%s#%d", ck, a.ins[j])]; ok {
			v = t
		}
	}
	if v == nil {
		v = a.tok(ck+"#dead", func() *vtok { return &vtok{entry: false, cls: c} })
	}
	return v
}

func (a *fnA) verEnd(c mclass, b *ssa.BasicBlock) *vtok {
	a.solve(c)
	if v := a.vout[c][b]; v != nil {
		return v
	}
	return a.tok("dead", func() *vtok { return &vtok{cls: c} })
}

// path of an address expression (nil: none).
func (a *fnA) path(v ssa.Value) *apath {
	switch x := v.(type) {
	case *ssa.Alloc:
		return &apath{root: x, typ: deref(x.Type())}
	case *ssa.Global:
		return &apath{root: x, typ: deref(x.Type())}
	case *ssa.FieldAddr:
		p := a.path(x.X)
		if p == nil {
			return nil
		}
		t, f, ok := fieldOfT(x)
		if !ok {
			return nil
		}
		n := &apath{root: p.root, ld: p.ld, steps: append(append([]astep(nil), p.steps...), astep{field: f, fidx: x.Field, typ: t}), typ: deref(x.Type())}
		return n
	case *ssa.IndexAddr:
		var p *apath
		var ht types.Type
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			p = a.path(x.X)
			ht = pt.Elem()
		} else {
			p = a.valuePath(x.X)
			ht = x.X.Type()
		}
		if p == nil {
			return nil
		}
		ix := ""
		if c, ok := x.Index.(*ssa.Const); ok {
			ix = c.Value.String()
		} else {
			ix = "v:" + vname(x.Index)
		}
		return &apath{root: p.root, ld: p.ld, steps: append(append([]astep(nil), p.steps...), astep{index: ix, iv: x.Index, typ: ht}), typ: deref(x.Type())}
	}
	if _, ok := v.Type().Underlying().(*types.Pointer); ok {
		p := a.valuePath(v)
		if p != nil {
			p.typ = deref(v.Type())
		}
		return p
	}
	return nil
}

// valuePath: a path rooted at a pointer or slice value.
func (a *fnA) valuePath(v ssa.Value) *apath {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if m := a.load(x); m != nil {
				if st := m.ver.store(); st != nil && st.path == m.addr.key() {
					if _, isLoad := st.val.(*ssa.UnOp); !isLoad {
						return a.valuePathNoLoad(st.val)
					}
					return a.valuePath(st.val)
				}
				return &apath{ld: m}
			}
		}
	case *ssa.ChangeType:
		return a.valuePath(x.X)
	}
	return a.valuePathNoLoad(v)
}

func (a *fnA) valuePathNoLoad(v ssa.Value) *apath {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return a.path(v)
	case *ssa.ChangeType:
		return a.valuePath(x.X)
	}
	return &apath{root: v}
}

type storeInfo struct {
	path string
	val  ssa.Value
	ap   *apath
	ins  *ssa.Store
}

func (t *vtok) store() *storeInfo {
	if t == nil || t.ins == nil {
		return nil
	}
	s, ok := t.ins.(*ssa.Store)
	if !ok {
		return nil
	}
	a := curBounds.fn(s.Parent())
	p := a.path(s.Addr)
	if p == nil {
		return nil
	}
	return &storeInfo{p.key(), s.Val, p, s}
}

// curBounds is the analysis in progress (one per process).
var curBounds *bounds

// load describes a load instruction (nil when its address has no path).
func (a *fnA) load(u *ssa.UnOp) *mload {
	p := a.path(u.X)
	if p == nil {
		return nil
	}
	return &mload{p, a.verAt(p.class(), u)}
}
