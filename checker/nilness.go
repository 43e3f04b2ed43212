package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// derefs lists the pointer and interface values whose nil would crash f where they are used.
func (b *bounds) derefs(f *ssa.Function) []oblig {
	var out []oblig
	add := func(i ssa.Instruction, v ssa.Value) {
		switch v.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.MakeClosure, *ssa.Function, *ssa.FreeVar, *ssa.Builtin:
			return
		}
		out = append(out, oblig{"nil", i, b.text(v)})
	}
	for _, blk := range f.Blocks {
		for _, i := range blk.Instrs {
			switch x := i.(type) {
			case *ssa.FieldAddr:
				add(i, x.X)
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					add(i, x.X)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					add(i, x.X)
				}
			case *ssa.Store:
				add(i, x.Addr)
			case ssa.CallInstruction:
				c := x.Common()
				if c.IsInvoke() {
					add(i, c.Value)
				} else if _, ok := c.Value.(*ssa.Function); !ok {
					add(i, c.Value)
				}
			}
		}
	}
	return out
}

func derefValue(i ssa.Instruction) ssa.Value {
	switch x := i.(type) {
	case *ssa.FieldAddr:
		return x.X
	case *ssa.IndexAddr:
		return x.X
	case *ssa.UnOp:
		return x.X
	case *ssa.Store:
		return x.Addr
	case ssa.CallInstruction:
		return x.Common().Value
	}
	return nil
}

func (b *bounds) checkNil(o oblig) (bool, string) {
	return b.nonNilIn(b.root(o.ins.Parent()), derefValue(o.ins), point{b.root(o.ins.Parent()), o.ins.Block(), o.ins}, 0)
}

// nonNilIn decides that v is not nil at a point of an instance.
func (b *bounds) nonNilIn(ctx *pctx, v ssa.Value, pt point, d int) (bool, string) {
	if d > 12 {
		return false, "could not be followed"
	}
	cv := b.canon(ctx, v)
	if b.knownNonNil(cv, pt, d) {
		return true, ""
	}
	if cv.ld != nil {
		return b.nonNilLoad(cv, v)
	}
	busy := "nn" + cv.key
	if b.busy[busy] {
		return true, "" // coinduction over loops and recursion
	}
	b.busy[busy] = true
	defer delete(b.busy, busy)
	switch x := cv.v.(type) {
	case *ssa.Const:
		return x.Value != nil, "is nil"
	case *ssa.Parameter:
		f := x.Parent()
		if exportedFn(f) || f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == x {
			return true, "" // what callers of the package pass is theirs
		}
		if cs, ok := b.callers(cv.ctx); ok && d < 6 {
			for _, c := range cs {
				top := c
				for top.parent != nil && top.parent.parent != nil {
					top = top.parent
				}
				a := b.arg(top, x)
				if a == nil {
					continue
				}
				if ok, w := b.nonNilIn(top.parent, a, point{top.parent, top.site.Block(), top.site}, d+1); !ok {
					return false, w + " in a call from " + FnName(top.parent.fn)
				}
			}
		}
		return true, ""
	case *ssa.Phi:
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			pp := point{cv.ctx, p, nil}
			ecv := b.canon(cv.ctx, e)
			ef := b.edgePF(cv.ctx, x.Block(), i)
			if n, ok := ef.isNil[ecv.key]; ok && !n {
				continue
			}
			if ok, w := b.nonNilIn(cv.ctx, e, pp, d+1); !ok {
				if b.contradict(b.facts(pt), ef) {
					continue // this edge cannot lead to the point
				}
				return false, w
			}
		}
		return true, ""
	case *ssa.Lookup:
		return false, "a missing map entry is nil"
	case *ssa.TypeAssert:
		return true, ""
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return b.nonNilCall(cv.ctx, t, x.Index, pt, d)
		case *ssa.TypeAssert:
			if b.facts(pt).asrt[b.canon(cv.ctx, t.X).key+"|"+typeString(t.AssertedType)] {
				return true, ""
			}
			return false, "the type assertion may have failed"
		case *ssa.Lookup:
			return false, "a missing map entry is nil"
		}
		return true, ""
	case *ssa.Call:
		return b.nonNilCall(cv.ctx, x, 0, pt, d)
	}
	return true, ""
}

// contradict: what holds at one point rules out what holds at the other.
func (b *bounds) contradict(f, g *pfacts) bool {
	cs := append(append([]lin(nil), f.ge...), g.ge...)
	var ne []lin
	for _, n := range append(append([]lin(nil), f.ne...), g.ne...) {
		rel := false
		for _, t := range n.t {
			for _, c := range cs {
				rel = rel || c.coef(t.a) != 0
			}
		}
		if rel && len(ne) < 4 {
			ne = append(ne, n)
		}
	}
	for k, v := range f.isNil {
		if w, ok := g.isNil[k]; ok && v != w {
			return true
		}
	}
	return b.neSplit(cs, linConst(0), ne)
}

// knownNonNil: a dominating comparison, directly or in a helper whose answer was tested.
func (b *bounds) knownNonNil(cv cval, pt point, d int) bool {
	pf := b.facts(pt)
	if n, ok := pf.isNil[cv.key]; ok && !n {
		return true
	}
	if d > 4 {
		return false
	}
	for _, g := range pf.guards {
		f := g.call.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 || g.ctx.depth > 4 {
			continue
		}
		child := b.ctx(f, g.ctx, g.call, nil)
		all, n := true, 0
		for _, blk := range f.Blocks {
			r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
			if !ok || g.idx >= len(r.Results) {
				continue
			}
			rp := point{child, blk, r}
			rf := b.facts(rp)
			rv := r.Results[g.idx]
			ff := newPF()
			if g.nilOK {
				if b.nonNilErr(child, rv, rf) {
					continue
				}
				b.nilFacts(child, rv, true, false, ff)
			} else if isBool(rv.Type()) {
				if k, ok := b.canon(child, rv).v.(*ssa.Const); ok {
					if (k.Value.String() == "true") != g.truth {
						continue
					}
				} else {
					b.condFacts(child, rv, g.truth, ff, 1)
				}
			}
			n++
			v1, ok1 := rf.isNil[cv.key]
			v2, ok2 := ff.isNil[cv.key]
			if !(ok1 && !v1 || ok2 && !v2) {
				all = false
				break
			}
		}
		if all && n > 0 {
			return true
		}
	}
	return false
}

// nonNilCall decides the result of a call: an error that came with it must have been tested.
func (b *bounds) nonNilCall(ctx *pctx, c *ssa.Call, idx int, pt point, d int) (bool, string) {
	res := c.Call.Signature().Results()
	f := c.Call.StaticCallee()
	lib := f != nil && b.p.InLib(f) && len(f.Blocks) > 0
	pf := b.facts(pt)
	last := res.Len() - 1
	errNil, okTrue := false, false
	if last > idx {
		if e := extractOf(c, last); e != nil {
			if isErrorType(res.At(last).Type()) {
				n, ok := pf.isNil[b.canon(ctx, e).key]
				errNil = ok && n
			} else if isBool(res.At(last).Type()) {
				for _, g := range pf.guards {
					if g.call == c && g.idx == last && g.truth {
						okTrue = true
					}
				}
			}
		}
	}
	if !lib {
		if last > idx && isErrorType(res.At(last).Type()) && !errNil {
			return false, "the error of " + shortCallee(&c.Call) + " has not been tested"
		}
		return true, ""
	}
	if ctx.depth > 5 {
		return true, ""
	}
	child := b.ctx(f, ctx, c, nil)
	for _, blk := range f.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		rp := point{child, blk, r}
		if errNil && b.nonNilErr(child, r.Results[last], b.facts(rp)) {
			continue
		}
		if okTrue {
			if k, ok := b.canon(child, r.Results[last]).v.(*ssa.Const); ok && k.Value.String() == "false" {
				continue
			}
		}
		more := newPF()
		if errNil {
			b.nilFacts(child, r.Results[last], true, false, more) // the inner error was nil too
		}
		if okTrue {
			b.condFacts(child, r.Results[last], true, more, 1)
		}
		var ok2 bool
		var w string
		b.assuming(rp, more, func() { ok2, w = b.nonNilIn(child, r.Results[idx], rp, d+1) })
		if !ok2 {
			if last > idx && isErrorType(res.At(last).Type()) && !errNil {
				return false, "the error of " + FnName(f) + " has not been tested"
			}
			return false, FnName(f) + " may return nil (" + w + ")"
		}
	}
	return true, ""
}

// nonNilLoad decides a value read from memory. A field every construction and store of the library
// fills is established; a field nothing in the library stores is either decoded from a document,
// where it may be absent, or set up by the user of the package.
func (b *bounds) nonNilLoad(cv cval, v ssa.Value) (bool, string) {
	p := cv.ld.addr
	if len(p.steps) == 0 || p.steps[len(p.steps)-1].field == "" {
		return true, "" // variables and elements
	}
	st := p.steps[len(p.steps)-1]
	typ := namedOf(st.typ)
	if typ == nil {
		return true, ""
	}
	if typ.Obj().Pkg() == nil || !b.libPkg(typ.Obj().Pkg()) {
		return true, ""
	}
	if b.decoded(typ) {
		return false, "the element may be absent"
	}
	ok, why := b.fieldFilled(typ, st.field)
	if !ok {
		if in, isIns := v.(ssa.Instruction); isIns && b.setBefore(in.Parent(), typ, st.field, map[*ssa.Function]bool{}) {
			return true, ""
		}
	}
	return ok, why
}

func (b *bounds) libPkg(pk *types.Package) bool {
	for s := range b.p.lib {
		if s.Pkg == pk {
			return true
		}
	}
	return false
}

// decoded: a type filled from a document, field by field as far as the document has them.
func (b *bounds) decoded(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if strings.Contains(st.Tag(i), "xml:") {
			return true
		}
	}
	return false
}

// storesFilled: every store to the field stores something.
func (b *bounds) storesFilled(n *types.Named, field string) (stores int, why string) {
	for _, f := range b.p.Funcs {
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nm := namedOf(deref(fa.X.Type()))
				if nm == nil || nm.Origin() != n.Origin() || structFieldName(deref(fa.X.Type()), fa.Field) != field {
					continue
				}
				stores++
				if x, ok := s.Val.(*ssa.Extract); ok {
					// stored together with an error that is looked at before the field is used
					if c, ok := x.Tuple.(*ssa.Call); ok && isErrorType(c.Call.Signature().Results().At(c.Call.Signature().Results().Len()-1).Type()) {
						continue
					}
				}
				if _, isParam := s.Val.(*ssa.Parameter); isParam {
					continue
				}
				if ok, w := b.nonNilIn(b.root(f), s.Val, point{b.root(f), blk, i}, 6); !ok {
					why = field + " may be set to nil in " + FnName(f) + ": " + w
				}
			}
		}
	}
	return
}

// fieldFilled: every store to the field stores something, and every structure made by the library gets it.
func (b *bounds) fieldFilled(n *types.Named, field string) (bool, string) {
	key := "ff" + typeString(n) + "." + field
	if r, ok := b.filled[key]; ok {
		return r == "", r
	}
	b.filled[key] = ""
	stores, why := b.storesFilled(n, field)
	if stores == 0 {
		b.filled[key] = ""
		return true, "" // set up by the user
	}
	// structures made without the field
	for _, f := range b.p.Funcs {
		if f.Synthetic != "" {
			continue
		}
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				a, ok := i.(*ssa.Alloc)
				if !ok || !a.Heap {
					continue
				}
				nm := namedOf(deref(a.Type()))
				if nm == nil || nm.Origin() != n.Origin() {
					continue
				}
				set := b.filledAt(a, n, field, 0)
				if !set {
					why = FnName(f) + " makes a " + n.Obj().Name() + " without " + field
				}
			}
		}
	}
	b.filled[key] = why
	return why == "", why
}

// filledAt: a structure made by the library is given the field.
func (b *bounds) filledAt(a *ssa.Alloc, n *types.Named, field string, depth int) bool {
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.FieldAddr:
			if structFieldName(deref(y.X.Type()), y.Field) == field {
				for _, q := range *y.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
						return true
					}
				}
			}
		case *ssa.Store:
			if y.Addr != ssa.Value(a) {
				continue
			}
			switch v := y.Val.(type) {
			case *ssa.Const:
			case *ssa.UnOp:
				if from, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL && depth < 4 {
					if b.filledAt(from, n, field, depth+1) {
						return true
					}
					continue
				}
				return true
			default:
				return true
			}
		case *ssa.Call:
			// an initialiser
			if g := y.Call.StaticCallee(); g != nil && b.storesField(g, n, field) {
				return true
			}
		}
	}
	return false
}

// setBefore: wherever the function is entered, the field has been set to something before.
func (b *bounds) setBefore(g *ssa.Function, n *types.Named, field string, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return true
	}
	seen[g] = true
	at := func(f *ssa.Function, site ssa.Instruction) bool {
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nm := namedOf(deref(fa.X.Type()))
				if nm == nil || nm.Origin() != n.Origin() || structFieldName(deref(fa.X.Type()), fa.Field) != field {
					continue
				}
				before := blk != site.Block() && blk.Dominates(site.Block())
				if blk == site.Block() {
					for _, j := range blk.Instrs {
						if j == i {
							before = true
						}
						if j == site {
							break
						}
					}
				}
				if !before {
					continue
				}
				if ok, _ := b.nonNilIn(b.root(f), s.Val, point{b.root(f), site.Block(), site}, 6); ok {
					return true
				}
			}
		}
		return b.setBefore(f, n, field, seen)
	}
	any := false
	if g.Parent() != nil {
		for _, blk := range g.Parent().Blocks {
			for _, i := range blk.Instrs {
				if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(g) {
					any = true
					if !at(g.Parent(), m) {
						return false
					}
				}
			}
		}
		return any
	}
	if o := g.Object(); o == nil || o.Exported() {
		return false
	}
	for _, c := range b.p.CallersOf(g) {
		if !b.p.InLib(c.Parent()) {
			continue
		}
		any = true
		if !at(c.Parent(), c) {
			return false
		}
	}
	return any
}

func (b *bounds) storesField(g *ssa.Function, n *types.Named, field string) bool {
	for _, blk := range g.Blocks {
		for _, i := range blk.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					nm := namedOf(deref(fa.X.Type()))
					if nm != nil && nm.Origin() == n.Origin() && structFieldName(deref(fa.X.Type()), fa.Field) == field {
						return true
					}
				}
			}
		}
	}
	return false
}

func init() {
	rules["NIL"] = func(c *Check) {
		b := newBounds(c.P)
		for _, f := range c.P.SrcFuncs() {
			for _, o := range b.derefs(f) {
				ok, why := b.checkNil(o)
				if !ok {
					println(FnName(f) + "|" + o.text + "|" + c.P.Pos(o.ins.Pos()) + "|" + why)
				}
			}
		}
	}
}
