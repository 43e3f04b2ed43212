package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"regexp/syntax"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The bounds prover: decides linear facts about integers and lengths at a program point from the
// source alone. Values are normalised to linear expressions over atoms (SSA values, lengths, memory
// versions); the facts are the conditions, accesses and definitions that dominate the point; the
// goal is refuted by Fourier–Motzkin elimination, with case splits over phis, returns of library
// callees, guards in helpers and, for unexported functions, over every caller.

type bounds struct {
	p       *Prog
	mods    map[*ssa.Function]map[string]bool
	modsAll map[*ssa.Function]bool
	fns     map[*ssa.Function]*fnA

	ctxs   map[string]*pctx
	atoms  []*batom
	akeys  map[string]int
	lins   map[string]lin
	busy   map[string]bool
	ind    map[string]int
	pfs    map[string]*pfacts
	afacts map[int][]lin
	work   int
	limit  int

	sameLens map[string]bool
	filled   map[string]string
	assume   map[string]*pfacts
	recs     map[*ssa.Function]map[*ssa.Function]bool
	nb       int

	invs  []typeInv
	trace bool
}

// typeInv: 0 ≤ lo field ≤ len(hi field) of a struct type, kept by every store in the library.
type typeInv struct{ typ, lo, hi string }

func newBounds(p *Prog) *bounds {
	b := &bounds{p: p, fns: map[*ssa.Function]*fnA{}, ctxs: map[string]*pctx{}, akeys: map[string]int{}, lins: map[string]lin{}, busy: map[string]bool{}, ind: map[string]int{}, pfs: map[string]*pfacts{}, afacts: map[int][]lin{}, limit: 4000, sameLens: map[string]bool{}, filled: map[string]string{}, assume: map[string]*pfacts{}, recs: map[*ssa.Function]map[*ssa.Function]bool{}}
	b.invs = []typeInv{{p.Root.Pkg.Path() + ".CIPItem", "Pos", "Data"}}
	b.trace = os.Getenv("BTRACE") != ""
	curBounds = b
	return b
}

// pctx is one instance of a function: on its own, or called from a site of another instance.
type pctx struct {
	id     int
	fn     *ssa.Function
	parent *pctx
	site   ssa.Instruction
	clo    *ssa.MakeClosure
	depth  int
}

func (b *bounds) ctx(fn *ssa.Function, parent *pctx, site ssa.Instruction, clo *ssa.MakeClosure) *pctx {
	k := fmt.Sprintf("%p/%p/%p/%p", fn, parent, site, clo)
	if c, ok := b.ctxs[k]; ok {
		return c
	}
	c := &pctx{id: len(b.ctxs), fn: fn, parent: parent, site: site, clo: clo}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	b.ctxs[k] = c
	return c
}

func (b *bounds) root(fn *ssa.Function) *pctx { return b.ctx(fn, nil, nil, nil) }

type batom struct {
	id    int
	key   string
	cv    cval
	isLen bool
	conv  ssa.Value // opaque arithmetic result
	typ   types.Type
}

// cval is a canonical value: an SSA value of an instance, or a memory load at a version.
type cval struct {
	ctx *pctx
	v   ssa.Value
	ld  *mload
	key string
}

func (b *bounds) arg(ctx *pctx, p *ssa.Parameter) ssa.Value {
	if ctx.parent == nil || ctx.site == nil {
		return nil
	}
	ci, ok := ctx.site.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	c := ci.Common()
	if ctx.clo != nil && c.StaticCallee() != ctx.fn {
		return nil
	}
	for i, q := range ctx.fn.Params {
		if q == p {
			if c.IsInvoke() {
				if i == 0 {
					return nil
				}
				i--
			}
			if i < len(c.Args) {
				return c.Args[i]
			}
		}
	}
	return nil
}

func (b *bounds) freeVar(ctx *pctx, f *ssa.FreeVar) ssa.Value {
	if ctx.clo == nil || ctx.parent == nil || ctx.parent.fn != ctx.clo.Parent() {
		return nil
	}
	for i, q := range ctx.fn.FreeVars {
		if q == f && i < len(ctx.clo.Bindings) {
			return ctx.clo.Bindings[i]
		}
	}
	return nil
}

// canon follows parameters, conversions and forwarded loads to the value that defines v.
func (b *bounds) canon(ctx *pctx, v ssa.Value) cval {
	for n := 0; n < 60; n++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if a := b.arg(ctx, x); a != nil {
				ctx, v = ctx.parent, a
				continue
			}
		case *ssa.FreeVar:
			if a := b.freeVar(ctx, x); a != nil {
				ctx, v = ctx.parent, a
				continue
			}
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.TypeAssert:
			if !x.CommaOk {
				in := b.canon(ctx, x.X)
				if mi, ok := in.v.(*ssa.MakeInterface); ok && types.Identical(mi.X.Type(), x.AssertedType) {
					ctx, v = in.ctx, mi.X
					continue
				}
				return cval{ctx, v, nil, "ta(" + typeString(x.AssertedType) + "," + in.key + ")"}
			}
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				in := b.canon(ctx, ta.X)
				if mi, ok := in.v.(*ssa.MakeInterface); ok && types.Identical(mi.X.Type(), ta.AssertedType) {
					ctx, v = in.ctx, mi.X
					continue
				}
				return cval{ctx, v, nil, "ta(" + typeString(ta.AssertedType) + "," + in.key + ")"}
			}
		case *ssa.Field:
			in := b.canon(ctx, x.X)
			if u, ok := in.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if cv, ok := b.fieldOfLoad(in.ctx, u, []astep{{field: structFieldName(x.X.Type(), x.Field), fidx: x.Field, typ: x.X.Type()}}, x.Type()); ok {
					if cv.ld == nil {
						ctx, v = cv.ctx, cv.v
						continue
					}
					return cv
				}
			}
			return cval{ctx, v, nil, in.key + "." + structFieldName(x.X.Type(), x.Field)}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				cv, ok := b.resolveLoad(ctx, x)
				if ok && cv.ld == nil {
					if cv.ctx == ctx && cv.v == v {
						return cval{ctx, v, nil, fmt.Sprintf("%d|%s", ctx.id, v.Name())}
					}
					ctx, v = cv.ctx, cv.v
					continue
				}
				if ok {
					return cv
				}
			}
		case *ssa.Phi:
			// a phi of one value
			var one ssa.Value
			same := true
			for _, e := range x.Edges {
				if e == ssa.Value(x) {
					continue
				}
				if one == nil {
					one = e
				} else if one != e {
					same = false
				}
			}
			if same && one != nil {
				v = one
				continue
			}
		case *ssa.Call:
			if k := b.reflectKey(ctx, x); k != "" {
				return cval{ctx, v, nil, k}
			}
		case *ssa.BinOp:
			if first := sameOp(x); first != x {
				v = first
				continue
			}
		case *ssa.Const:
			return cval{nil, v, nil, "const:" + x.String()}
		case *ssa.Global:
			return cval{nil, v, nil, "global:" + x.String()}
		case *ssa.Function:
			return cval{nil, v, nil, "fn:" + x.String()}
		}
		break
	}
	return cval{ctx, v, nil, fmt.Sprintf("%d|%s", ctx.id, v.Name())}
}

var sameOps = map[*ssa.BinOp]*ssa.BinOp{}

// sameOp is the first instruction that computes the same from the same values and that has always
// been executed when x is.
func sameOp(x *ssa.BinOp) *ssa.BinOp {
	if f, ok := sameOps[x]; ok {
		return f
	}
	first := x
	if isInt(x.Type()) && !wide(x.Type()) {
		same := func(a, b ssa.Value) bool {
			if a == b {
				return true
			}
			p, ok := a.(*ssa.Const)
			q, ok2 := b.(*ssa.Const)
			return ok && ok2 && p.Value != nil && q.Value != nil && p.Value.ExactString() == q.Value.ExactString()
		}
		for _, blk := range x.Parent().Blocks {
			if !blk.Dominates(x.Block()) {
				continue
			}
			for _, i := range blk.Instrs {
				if i == ssa.Instruction(x) {
					break
				}
				y, ok := i.(*ssa.BinOp)
				if ok && y.Op == x.Op && types.Identical(y.Type(), x.Type()) && same(x.X, y.X) && same(x.Y, y.Y) && (first == x || y.Block().Dominates(first.Block())) {
					first = y
				}
			}
		}
	}
	sameOps[x] = first
	return first
}

func (b *bounds) fieldOfLoad(ctx *pctx, u *ssa.UnOp, steps []astep, t types.Type) (cval, bool) {
	a := b.fn(u.Parent())
	p := a.path(u.X)
	if p == nil {
		return cval{}, false
	}
	np := &apath{root: p.root, ld: p.ld, steps: append(append([]astep(nil), p.steps...), steps...), typ: t}
	return b.resolve(ctx, &mload{np, a.verAt(np.class(), u)}, 0)
}

func (b *bounds) resolveLoad(ctx *pctx, u *ssa.UnOp) (cval, bool) {
	a := b.fn(u.Parent())
	m := a.load(u)
	if m == nil {
		return cval{}, false
	}
	return b.resolve(ctx, m, 0)
}

func distinctPaths(x, y *apath) bool {
	if (x.ld == nil) != (y.ld == nil) {
		return false
	}
	if x.ld != nil && x.ld.key() != y.ld.key() || x.ld == nil && x.root != y.root {
		// two different locals never overlap
		if x.ld == nil && y.ld == nil {
			xa, ok1 := x.root.(*ssa.Alloc)
			ya, ok2 := y.root.(*ssa.Alloc)
			if ok1 && ok2 && xa != ya && len(x.steps) > 0 && len(y.steps) > 0 && x.steps[0].field != "" && y.steps[0].field != "" {
				return true
			}
		}
		return false
	}
	for i := 0; i < len(x.steps) && i < len(y.steps); i++ {
		a, c := x.steps[i], y.steps[i]
		if a.field != "" || c.field != "" {
			if a.field != c.field {
				return a.field != "" && c.field != ""
			}
			continue
		}
		if a.index != c.index {
			_, ok1 := a.iv.(*ssa.Const)
			_, ok2 := c.iv.(*ssa.Const)
			return ok1 && ok2
		}
	}
	return false
}

// resolve forwards a load to the value stored, or translates it to the calling instance.
func (b *bounds) resolve(ctx *pctx, m *mload, d int) (cval, bool) {
	if d > 20 {
		return cval{ctx, nil, m, fmt.Sprintf("%d|*%s", ctx.id, m.key())}, true
	}
	key := m.addr.key()
	for n := 0; n < 40; n++ {
		st := m.ver.store()
		if st == nil {
			break
		}
		if st.path == key {
			return cval{ctx: ctx, v: st.val}, true
		}
		if distinctPaths(st.ap, m.addr) {
			m = &mload{m.addr, b.fn(st.ins.Parent()).verAt(m.addr.class(), st.ins)}
			continue
		}
		// a whole-struct store
		if strings.HasPrefix(key, st.path) && len(st.ap.steps) < len(m.addr.steps) {
			rest := m.addr.steps[len(st.ap.steps):]
			allF := true
			for _, s := range rest {
				if s.field == "" {
					allF = false
				}
			}
			if allF {
				src := b.canon(ctx, st.val)
				if u, ok := src.v.(*ssa.UnOp); ok && u.Op == token.MUL && src.ctx != nil {
					return b.fieldOfLoad(src.ctx, u, rest, m.addr.typ)
				}
				if src.ld != nil {
					a := src.ld.addr
					np := &apath{root: a.root, ld: a.ld, steps: append(append([]astep(nil), a.steps...), rest...), typ: m.addr.typ}
					nm := &mload{np, src.ld.ver}
					if src.ld.ver.entry && src.ctx != nil {
						if t := b.fn(src.ctx.fn).neverWritten(np.class()); t != nil {
							nm.ver = t
							return b.resolve(src.ctx, nm, d+1)
						}
					}
					k := ""
					for _, s := range rest {
						k += "." + s.field
					}
					return cval{src.ctx, nil, nm, src.key + k}, true
				}
				k := ""
				for _, s := range rest {
					k += "." + s.field
				}
				return cval{ctx, nil, m, src.key + k}, true
			}
		}
		break
	}
	// a fresh local is zero
	if al, ok := m.ver.ins.(*ssa.Alloc); ok && m.addr.ld == nil && m.addr.root == ssa.Value(al) {
		if z := zeroConst(m.addr.typ); z != nil {
			return cval{ctx: nil, v: z, key: "const:" + z.String()}, true
		}
	}
	// seen from the caller
	if ctx.parent != nil && ctx.site != nil {
		if nm, ok := b.lift(ctx, m); ok {
			return b.resolve(ctx.parent, nm, d+1)
		}
	}
	return cval{ctx, nil, m, fmt.Sprintf("%d|*%s", ctx.id, m.key())}, true
}

func zeroConst(t types.Type) *ssa.Const {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return ssa.NewConst(constant.MakeInt64(0), t)
		}
		if u.Info()&types.IsString != 0 {
			return ssa.NewConst(constant.MakeString(""), t)
		}
		if u.Info()&types.IsBoolean != 0 {
			return ssa.NewConst(constant.MakeBool(false), t)
		}
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface, *types.Chan, *types.Signature:
		return ssa.NewConst(nil, t)
	}
	return nil
}

// lift rewrites a load of an instance at its entry state into the caller's state at the call.
func (b *bounds) lift(ctx *pctx, m *mload) (*mload, bool) {
	if !m.ver.entry {
		return nil, false
	}
	na, ok := b.liftPath(ctx, m.addr)
	if !ok {
		return nil, false
	}
	pa := b.fn(ctx.parent.fn)
	return &mload{na, pa.verAt(na.class(), ctx.site)}, true
}

func (b *bounds) liftPath(ctx *pctx, p *apath) (*apath, bool) {
	pa := b.fn(ctx.parent.fn)
	var base *apath
	if p.ld != nil {
		nm, ok := b.lift(ctx, p.ld)
		if !ok {
			return nil, false
		}
		base = &apath{ld: nm}
		if st := nm.ver.store(); st != nil && st.path == nm.addr.key() {
			base = pa.valuePath(st.val)
		}
	} else {
		switch r := p.root.(type) {
		case *ssa.Parameter:
			av := b.arg(ctx, r)
			if av == nil {
				return nil, false
			}
			if _, ok := r.Type().Underlying().(*types.Pointer); ok {
				base = pa.path(av)
				if base == nil {
					base = pa.valuePath(av)
				}
			} else {
				base = pa.valuePath(av)
			}
		case *ssa.FreeVar:
			av := b.freeVar(ctx, r)
			if av == nil {
				return nil, false
			}
			base = pa.path(av)
			if base == nil {
				base = pa.valuePath(av)
			}
		case *ssa.Global:
			base = &apath{root: r}
		default:
			return nil, false
		}
	}
	if base == nil {
		return nil, false
	}
	n := &apath{root: base.root, ld: base.ld, steps: append([]astep(nil), base.steps...), typ: p.typ}
	for _, s := range p.steps {
		if s.iv != nil {
			if _, ok := s.iv.(*ssa.Const); !ok {
				pr, ok := s.iv.(*ssa.Parameter)
				if !ok {
					return nil, false
				}
				av := b.arg(ctx, pr)
				if av == nil {
					return nil, false
				}
				s.iv = av
				if c, ok := av.(*ssa.Const); ok {
					s.index = c.Value.String()
				} else {
					s.index = "v:" + vname(av)
				}
			}
		}
		n.steps = append(n.steps, s)
	}
	return n, true
}

func (b *bounds) atom(key string, mk func() *batom) int {
	if i, ok := b.akeys[key]; ok {
		return i
	}
	a := mk()
	a.id, a.key = len(b.atoms), key
	b.atoms = append(b.atoms, a)
	b.akeys[key] = a.id
	return a.id
}

// intRange of an integer type; hasMax/hasMin false when it does not fit int64.
func intRange(t types.Type) (lo, hi int64, okLo, okHi bool) {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false, false
	}
	switch bt.Kind() {
	case types.Int8:
		return -128, 127, true, true
	case types.Int16:
		return -32768, 32767, true, true
	case types.Int32:
		return math.MinInt32, math.MaxInt32, true, true
	case types.Uint8:
		return 0, 255, true, true
	case types.Uint16:
		return 0, 65535, true, true
	case types.Uint32:
		return 0, math.MaxUint32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false
	case types.Int, types.Int64:
		return math.MinInt64, math.MaxInt64, false, false
	}
	return 0, 0, false, false
}

func wide(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch bt.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return true
	}
	return false
}

// lin normalises an integer value of an instance.
func (b *bounds) lin(ctx *pctx, v ssa.Value) lin {
	cv := b.canon(ctx, v)
	return b.linCV(cv, v.Type())
}

func (b *bounds) linCV(cv cval, t types.Type) lin {
	if cv.ld != nil || cv.v == nil {
		return linAtom(b.atom("i:"+cv.key, func() *batom { return &batom{cv: cv, typ: t} }))
	}
	v := cv.v
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return linConst(0)
		}
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return linConst(i)
		}
	}
	if l, ok := b.lins[cv.key]; ok {
		return l
	}
	self := func() lin {
		return linAtom(b.atom("i:"+cv.key, func() *batom { return &batom{cv: cv, typ: v.Type()} }))
	}
	if b.busy[cv.key] {
		return self()
	}
	b.busy[cv.key] = true
	l := b.linOf(cv.ctx, v, self)
	delete(b.busy, cv.key)
	if !l.ok {
		l = self()
	}
	b.lins[cv.key] = l
	return l
}

// fits decides whether l (the exact result of the instruction) lies in t's range.
func (b *bounds) fits(l lin, t types.Type, at ssa.Instruction, ctx *pctx) bool {
	lo, hi, okLo, okHi := intRange(t)
	pt := point{ctx, at.Block(), at}
	bt := t.Underlying().(*types.Basic)
	if okLo && !b.prove(l.addK(-lo), pt, nil, 1) {
		return false
	}
	if okHi {
		if !b.prove(linConst(hi).sub(l), pt, nil, 1) {
			return false
		}
	} else if bt.Kind() == types.Int || bt.Kind() == types.Int64 {
		// 64-bit signed arithmetic on lengths, counters and wire values is assumed not to overflow
	}
	return true
}

func (b *bounds) linOf(ctx *pctx, v ssa.Value, self func() lin) lin {
	switch x := v.(type) {
	case *ssa.BinOp:
		if !isInt(x.Type()) {
			return self()
		}
		var l lin
		switch x.Op {
		case token.ADD:
			l = b.lin(ctx, x.X).add(b.lin(ctx, x.Y))
		case token.SUB:
			l = b.lin(ctx, x.X).sub(b.lin(ctx, x.Y))
		case token.MUL:
			p, q := b.lin(ctx, x.X), b.lin(ctx, x.Y)
			if p.isConst() {
				l = q.scale(p.k)
			} else if q.isConst() {
				l = p.scale(q.k)
			} else {
				return self()
			}
		case token.SHL:
			q := b.lin(ctx, x.Y)
			if q.isConst() && q.k >= 0 && q.k < 62 {
				l = b.lin(ctx, x.X).scale(1 << uint(q.k))
			} else {
				return self()
			}
		default:
			return self()
		}
		if !l.ok {
			return self()
		}
		if wide(x.Type()) {
			return l
		}
		if b.fits(l, x.Type(), x, ctx) {
			return l
		}
		return self()
	case *ssa.UnOp:
		if x.Op == token.SUB && wide(x.Type()) {
			return b.lin(ctx, x.X).scale(-1)
		}
		return self()
	case *ssa.Convert:
		if !isInt(x.X.Type()) || !isInt(x.Type()) {
			return self()
		}
		l := b.lin(ctx, x.X)
		if b.convFits(x.X.Type(), x.Type()) {
			return l
		}
		_, _, _, srcHi := intRange(x.X.Type())
		bt := x.Type().Underlying().(*types.Basic)
		if (bt.Kind() == types.Int || bt.Kind() == types.Int64) && !srcHi {
			// from a 64-bit unsigned value: only when an upper bound is known
			if b.prove(linConst(math.MaxInt32).sub(l), point{ctx, x.Block(), x}, nil, 1) {
				return l
			}
			return self()
		}
		if b.fits(l, x.Type(), x, ctx) {
			return l
		}
		return self()
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len":
				return b.lenOf(ctx, x.Call.Args[0])
			}
		}
		if calleeName(x.Common()) == "(reflect.Value).Len" {
			return b.reflectLen(ctx, x.Call.Args[0], self)
		}
		return self()
	}
	return self()
}

func (b *bounds) convFits(from, to types.Type) bool {
	lo, hi, okLo, okHi := intRange(from)
	tlo, thi, tokLo, tokHi := intRange(to)
	if wide(to) {
		return okHi || wide(from)
	}
	if !okLo || tokLo && lo < tlo {
		return false
	}
	if !tokHi {
		return true // 64-bit unsigned target, non-negative source
	}
	if !okHi || hi > thi {
		return false
	}
	return true
}

// lenOf normalises the length of a string, slice, array, map or channel.
func (b *bounds) lenOf(ctx *pctx, v ssa.Value) lin {
	if a, ok := deref(v.Type()).Underlying().(*types.Array); ok {
		return linConst(a.Len())
	}
	cv := b.canon(ctx, v)
	return b.lenCV(cv, v.Type())
}

func (b *bounds) lenCV(cv cval, t types.Type) lin {
	self := func() lin {
		return linAtom(b.atom("l:"+cv.key, func() *batom { return &batom{cv: cv, isLen: true, typ: t} }))
	}
	if cv.ld != nil || cv.v == nil {
		return self()
	}
	k := "len " + cv.key
	if l, ok := b.lins[k]; ok {
		return l
	}
	if b.busy[k] {
		return self()
	}
	b.busy[k] = true
	l := b.lenOf1(cv.ctx, cv.v, self)
	delete(b.busy, k)
	if !l.ok {
		l = self()
	}
	b.lins[k] = l
	return l
}

func (b *bounds) lenOf1(ctx *pctx, v ssa.Value, self func() lin) lin {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return linConst(0)
		}
		if x.Value.Kind() == constant.String {
			return linConst(int64(len(constant.StringVal(x.Value))))
		}
	case *ssa.MakeSlice:
		return b.lin(ctx, x.Len)
	case *ssa.Slice:
		lo, hi := linConst(0), lin{}
		if x.Low != nil {
			lo = b.lin(ctx, x.Low)
		}
		if x.High != nil {
			hi = b.lin(ctx, x.High)
		} else {
			hi = b.lenOf(ctx, x.X)
		}
		return hi.sub(lo)
	case *ssa.Convert:
		f, t := x.X.Type().Underlying(), x.Type().Underlying()
		if isString(x.Type()) {
			if s, ok := f.(*types.Slice); ok {
				if e, ok := s.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
					return b.lenOf(ctx, x.X)
				}
			}
			if isString(x.X.Type()) {
				return b.lenOf(ctx, x.X)
			}
		}
		if s, ok := t.(*types.Slice); ok && isString(x.X.Type()) {
			if e, ok := s.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				return b.lenOf(ctx, x.X)
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			return b.lenOf(ctx, x.X).add(b.lenOf(ctx, x.Y))
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			if len(x.Call.Args) == 1 {
				return b.lenOf(ctx, x.Call.Args[0])
			}
			return b.lenOf(ctx, x.Call.Args[0]).add(b.lenOf(ctx, x.Call.Args[1]))
		}
		n := calleeName(x.Common())
		for s, w := range map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
			if strings.HasPrefix(n, "(encoding/binary.") && strings.HasSuffix(n, ".Append"+s) {
				return b.lenOf(ctx, x.Call.Args[1]).addK(w)
			}
		}
		switch n {
		case "bytes.Clone", "slices.Clone", "strings.Clone":
			return b.lenOf(ctx, x.Call.Args[0])
		}
	}
	return self()
}

type point struct {
	ctx *pctx
	blk *ssa.BasicBlock
	at  ssa.Instruction // nil: the end of the block
}

// bguard is a library call whose result is known at a point.
type bguard struct {
	ctx   *pctx
	call  *ssa.Call
	idx   int
	nilOK bool // the error result is nil (else: boolean result with value truth)
	truth bool
}

type pfacts struct {
	ge     []lin
	ne     []lin
	guards []bguard
	isNil  map[string]bool // canonical value → known nil (true) or non-nil (false)
	asrt   map[string]bool // canonical asserted values known to have the type
	kind   map[string]int64
	stored map[string]bool // fields (of a canonical object) that have been stored to
}

func newPF() *pfacts {
	return &pfacts{isNil: map[string]bool{}, asrt: map[string]bool{}, kind: map[string]int64{}, stored: map[string]bool{}}
}

// facts that hold at a point, from its dominators and the calling instances.
func (b *bounds) facts(pt point) *pfacts {
	k := fmt.Sprintf("%d/%d/%p", pt.ctx.id, pt.blk.Index, pt.at)
	if f, ok := b.pfs[k]; ok && b.assume[k] == nil {
		return f
	}
	f := newPF()
	if b.busy["pf"+k] {
		return f
	}
	b.busy["pf"+k] = true
	b.collect(pt, f, 0)
	delete(b.busy, "pf"+k)
	if more := b.assume[k]; more != nil {
		f.ge = append(f.ge, more.ge...)
		f.guards = append(f.guards, more.guards...)
		for x, n := range more.isNil {
			f.isNil[x] = n
		}
		return f
	}
	if len(b.busy) == 0 {
		b.pfs[k] = f
	}
	return f
}

// assuming runs f with more facts at one point.
func (b *bounds) assuming(pt point, more *pfacts, f func()) {
	k := fmt.Sprintf("%d/%d/%p", pt.ctx.id, pt.blk.Index, pt.at)
	old := b.assume[k]
	b.assume[k] = more
	f()
	if old == nil {
		delete(b.assume, k)
	} else {
		b.assume[k] = old
	}
}

func (b *bounds) collect(pt point, f *pfacts, d int) {
	blk, at := pt.blk, pt.at
	for blk != nil {
		for _, i := range blk.Instrs {
			if i == at {
				break
			}
			b.instrFacts(pt.ctx, i, f)
		}
		if len(blk.Preds) == 1 {
			b.edgeFacts(pt.ctx, blk.Preds[0], blk, f, d)
		}
		blk, at = blk.Idom(), nil
	}
	if pt.ctx.parent != nil && pt.ctx.site != nil {
		b.collect(point{pt.ctx.parent, pt.ctx.site.Block(), pt.ctx.site}, f, d)
	}
	if pt.ctx.clo != nil {
		b.closureFacts(pt.ctx, f)
	}
}

func (b *bounds) edgeFacts(ctx *pctx, p, s *ssa.BasicBlock, f *pfacts, d int) {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return
	}
	b.condFacts(ctx, iff.Cond, s == p.Succs[0], f, d)
}

// instrFacts: an access that completed was in bounds.
func (b *bounds) instrFacts(ctx *pctx, i ssa.Instruction, f *pfacts) {
	switch x := i.(type) {
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Slice, *ssa.MakeSlice:
		for _, g := range b.goals(ctx, x) {
			if g.l.ok {
				f.ge = append(f.ge, g.l)
			}
		}
		// (Go only checks a slice's end against the capacity; that it is within the length is an
		// obligation of its own, so it can be relied upon here.)
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			f.stored[b.canon(ctx, fa.X).key+"."+structFieldName(deref(fa.X.Type()), fa.Field)] = true
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			f.asrt[b.canon(ctx, x.X).key+"|"+typeString(x.AssertedType)] = true
		}
	case *ssa.Call:
		n := calleeName(x.Common())
		if strings.HasPrefix(n, "(encoding/binary.") && (strings.Contains(n, "ndian).Uint") || strings.Contains(n, "ndian).PutUint")) {
			for _, g := range b.goals(ctx, x) {
				f.ge = append(f.ge, g.l)
			}
		}
	}
}

func (b *bounds) condFacts(ctx *pctx, v ssa.Value, truth bool, f *pfacts, d int) {
	if d > 6 {
		return
	}
	cv := b.canon(ctx, v)
	if cv.v == nil {
		return
	}
	ctx, v = cv.ctx, cv.v
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b.condFacts(ctx, x.X, !truth, f, d)
		}
	case *ssa.BinOp:
		op := x.Op
		if !truth {
			op = negate(op)
		}
		switch {
		case isInt(x.X.Type()) && isInt(x.Y.Type()):
			p, q := b.lin(ctx, x.X), b.lin(ctx, x.Y)
			b.cmpFacts(p, op, q, f)
		case isString(x.X.Type()):
			p, q := b.lenOf(ctx, x.X), b.lenOf(ctx, x.Y)
			if op == token.EQL {
				f.ge = append(f.ge, p.sub(q), q.sub(p))
				if k, ok := strings.CutSuffix(b.canon(ctx, x.X).key, ".PkgPath"); ok && q.isConst() && q.k == 0 {
					b.exportedFact(ctx, k, f)
				}
			} else if op == token.NEQ {
				if q.isConst() && q.k == 0 || p.isConst() && p.k == 0 {
					f.ne = append(f.ne, p.sub(q))
				}
			}
		case isBool(x.X.Type()):
			if c, ok := x.Y.(*ssa.Const); ok && (op == token.EQL || op == token.NEQ) {
				b.condFacts(ctx, x.X, constant.BoolVal(c.Value) == (op == token.EQL), f, d+1)
			}
		default:
			if typeString(x.X.Type()) == "reflect.Type" && op == token.EQL {
				b.typeFact(ctx, "eq", x.X, x.Y, f)
			}
			if c, ok := x.Y.(*ssa.Const); ok && c.Value == nil {
				b.nilFacts(ctx, x.X, op == token.EQL, op == token.NEQ, f)
			} else if c, ok := x.X.(*ssa.Const); ok && c.Value == nil {
				b.nilFacts(ctx, x.Y, op == token.EQL, op == token.NEQ, f)
			}
		}
	case *ssa.Phi:
		if isLoopHeader(x.Block()) {
			return
		}
		// the edges that can deliver this truth value
		var live []int
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && constant.BoolVal(c.Value) != truth {
				continue
			}
			live = append(live, i)
		}
		if len(live) == 1 {
			i := live[0]
			p := x.Block().Preds[i]
			b.edgeFacts(ctx, p, x.Block(), f, d+1)
			b.collectLocal(point{ctx, p, nil}, x.Block(), f, d+1)
			if _, ok := x.Edges[i].(*ssa.Const); !ok {
				b.condFacts(ctx, x.Edges[i], truth, f, d+1)
			}
		}
	case *ssa.Call:
		n := calleeName(x.Common())
		a := x.Call.Args
		switch n {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
			if truth {
				f.ge = append(f.ge, b.lenOf(ctx, a[0]).sub(b.lenOf(ctx, a[1])))
				if k, ok := a[1].(*ssa.Const); ok && n == "strings.HasSuffix" {
					b.suffixFacts(ctx, a[0], constant.StringVal(k.Value), f)
				}
			}
		case "invoke:reflect.Type.AssignableTo", "invoke:reflect.Type.ConvertibleTo":
			if truth {
				rel := "asg"
				if strings.HasSuffix(n, "ConvertibleTo") {
					rel = "conv"
				}
				b.typeFact(ctx, rel, x.Call.Value, a[0], f)
			}
		case "(reflect.Value).CanConvert":
			if truth {
				f.asrt["conv|"+rnorm("Type", []string{b.rkey(ctx, a[0])})+"|"+b.rkey(ctx, a[1])] = true
			}
		case "(reflect.Value).IsNil":
			if !truth {
				f.ge = append(f.ge, b.ratom(ctx, rnorm("Kind", []string{rnorm("Elem", []string{b.rkey(ctx, a[0])})})).addK(-1))
			}
		case "(reflect.Value).IsValid":
			if truth {
				f.ge = append(f.ge, b.rkind(ctx, a[0]).addK(-1))
			}
		case "(reflect.Value).CanSet", "(reflect.Value).CanInterface":
			if truth {
				f.ge = append(f.ge, b.rexported(ctx, b.rkey(ctx, a[0])).addK(-1))
			}
		case "(reflect.StructField).IsExported":
			if truth {
				b.exportedFact(ctx, b.canon(ctx, a[0]).key, f)
			}
		case "slices.Contains", "strings.ContainsRune", "strings.ContainsAny":
			if truth {
				f.ge = append(f.ge, b.lenOf(ctx, a[0]).addK(-1))
			}
		case "bytes.Equal", "slices.Equal":
			if truth {
				l := b.lenOf(ctx, a[0]).sub(b.lenOf(ctx, a[1]))
				f.ge = append(f.ge, l, l.scale(-1))
			}
		default:
			if g := x.Call.StaticCallee(); g != nil && b.p.InLib(g) && len(g.Blocks) > 0 {
				f.guards = append(f.guards, bguard{ctx: ctx, call: x, truth: truth})
			}
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			// an entry that exists (nothing stores nil entries)
			if v := extractOfTuple(t, 0); x.Index == 1 && truth && v != nil {
				f.isNil[b.canon(ctx, v).key] = false
			}
		case *ssa.TypeAssert:
			if x.Index == 1 && truth {
				f.asrt[b.canon(ctx, t.X).key+"|"+typeString(t.AssertedType)] = true
			}
		case *ssa.Call:
			if g := t.Call.StaticCallee(); g != nil && b.p.InLib(g) && len(g.Blocks) > 0 {
				f.guards = append(f.guards, bguard{ctx: ctx, call: t, idx: x.Index, truth: truth})
			}
			n := calleeName(t.Common())
			if (n == "strings.Cut" || n == "strings.CutPrefix" || n == "strings.CutSuffix") && truth {
				f.ge = append(f.ge, b.lenOf(ctx, t.Call.Args[0]).sub(b.lenOf(ctx, t.Call.Args[1])))
			}
		case *ssa.Next:
			if x.Index == 0 && truth {
				b.rangeFacts(ctx, t, f)
			}
		}
	}
}

// suffixFacts: a text found in s that cannot overlap a known ending of s ends before it.
func (b *bounds) suffixFacts(ctx *pctx, s ssa.Value, suf string, f *pfacts) {
	key := b.canon(ctx, s).key
	for _, blk := range ctx.fn.Blocks {
		for _, i := range blk.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			switch calleeName(c.Common()) {
			case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune":
			default:
				continue
			}
			k, ok := c.Call.Args[1].(*ssa.Const)
			if !ok || b.canon(ctx, c.Call.Args[0]).key != key {
				continue
			}
			sub := ""
			if k.Value.Kind() == constant.String {
				sub = constant.StringVal(k.Value)
			} else if r, ok := constant.Int64Val(k.Value); ok && r < 128 {
				sub = string(rune(r))
			}
			if len(sub) != 1 || strings.Contains(suf, sub) {
				continue
			}
			f.ge = append(f.ge, b.lenOf(ctx, s).addK(-int64(len(suf))-1).sub(b.lin(ctx, c)))
		}
	}
}

// collectLocal adds the facts of the blocks from p up to (not including) the dominator of join.
func (b *bounds) collectLocal(pt point, join *ssa.BasicBlock, f *pfacts, d int) {
	stop := join.Idom()
	blk := pt.blk
	for blk != nil && blk != stop {
		for _, i := range blk.Instrs {
			b.instrFacts(pt.ctx, i, f)
		}
		if len(blk.Preds) == 1 {
			b.edgeFacts(pt.ctx, blk.Preds[0], blk, f, d)
		}
		blk = blk.Idom()
	}
}

// rangeFacts: inside a range over a map, a counter stepped at most once per turn stays below its length.
func (b *bounds) rangeFacts(ctx *pctx, n *ssa.Next, f *pfacts) {
	r, ok := n.Iter.(*ssa.Range)
	if !ok || n.IsString {
		return
	}
	h := n.Block()
	if !isLoopHeader(h) {
		return
	}
	for blk := range loopBody(h) {
		for _, i := range blk.Instrs {
			if mu, ok := i.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type(), r.X.Type()) {
				return
			}
		}
	}
	ln := b.lenOf(ctx, r.X)
	f.ge = append(f.ge, ln.addK(-1))
	for _, i := range h.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		isSlice := false
		if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			isSlice = true
		}
		if !isInt(ph.Type()) && !isSlice {
			continue
		}
		me := b.lenOrLin(ctx, ph)
		var init lin
		good := true
		for j, e := range ph.Edges {
			l := b.lenOrLin(ctx, e)
			if h.Dominates(h.Preds[j]) {
				df := l.sub(me)
				if !df.isConst() || df.k < 0 || df.k > 1 {
					good = false
				}
			} else if !init.ok {
				init = l
			} else if s := init.sub(l); !s.isConst() || s.k != 0 {
				good = false
			}
		}
		if good && init.ok {
			f.ge = append(f.ge, ln.addK(-1).sub(me).add(init))
		}
	}
}

func (b *bounds) lenOrLin(ctx *pctx, v ssa.Value) lin {
	if isInt(v.Type()) {
		return b.lin(ctx, v)
	}
	return b.lenOf(ctx, v)
}

func (b *bounds) cmpFacts(p lin, op token.Token, q lin, f *pfacts) {
	if !p.ok || !q.ok {
		return
	}
	switch op {
	case token.EQL:
		f.ge = append(f.ge, p.sub(q), q.sub(p))
	case token.NEQ:
		f.ne = append(f.ne, p.sub(q))
	case token.LSS:
		f.ge = append(f.ge, q.sub(p).addK(-1))
	case token.LEQ:
		f.ge = append(f.ge, q.sub(p))
	case token.GTR:
		f.ge = append(f.ge, p.sub(q).addK(-1))
	case token.GEQ:
		f.ge = append(f.ge, p.sub(q))
	}
}

func (b *bounds) nilFacts(ctx *pctx, v ssa.Value, isNil, notNil bool, f *pfacts) {
	cv := b.canon(ctx, v)
	if isNil {
		f.isNil[cv.key] = true
	} else if notNil {
		f.isNil[cv.key] = false
	}
	switch v.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
		if isNil {
			f.ge = append(f.ge, b.lenCV(cv, v.Type()).scale(-1))
		}
	}
	if c, ok := cv.v.(*ssa.Call); ok && notNil {
		if re := b.regexOf(c); re != nil {
			w := int64(0)
			switch c.Call.StaticCallee().Name() {
			case "FindStringIndex", "FindIndex":
				w = 2
			case "FindStringSubmatch", "FindSubmatch":
				w = int64(re.MaxCap() + 1)
			case "FindStringSubmatchIndex", "FindSubmatchIndex":
				w = 2 * int64(re.MaxCap()+1)
			}
			if w > 0 {
				l := b.lenCV(cv, v.Type()).addK(-w)
				f.ge = append(f.ge, l, l.scale(-1))
			}
		}
	}
	if !isNil || cv.v == nil || !isErrorType(v.Type()) {
		return
	}
	var call *ssa.Call
	idx := 0
	switch x := cv.v.(type) {
	case *ssa.Call:
		call = x
	case *ssa.Extract:
		call, _ = x.Tuple.(*ssa.Call)
		idx = x.Index
	}
	if call == nil {
		return
	}
	if g := call.Call.StaticCallee(); g != nil && b.p.InLib(g) && len(g.Blocks) > 0 {
		f.guards = append(f.guards, bguard{ctx: cv.ctx, call: call, idx: idx, nilOK: true})
		b.sameLenFacts(cv.ctx, call, func(l lin) { f.ge = append(f.ge, l) })
		return
	}
	// outside calls that succeeded
	switch calleeName(call.Common()) {
	case "(*bytes.Buffer).ReadString", "(*bufio.Reader).ReadString", "(*bytes.Buffer).ReadBytes":
		if v := extractOf(call, 0); v != nil {
			f.ge = append(f.ge, b.lenOf(cv.ctx, v).addK(-1))
		}
	case "io.ReadFull":
		if v := extractOf(call, 0); v != nil {
			l := b.lin(cv.ctx, v).sub(b.lenOf(cv.ctx, call.Call.Args[1]))
			f.ge = append(f.ge, l, l.scale(-1))
		}
	}
}

// regexOf: the expression of a method call on a regexp compiled from a constant into a global.
func (b *bounds) regexOf(c *ssa.Call) *syntax.Regexp {
	f := c.Call.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || typeString(f.Signature.Recv().Type()) != "*regexp.Regexp" {
		return nil
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return nil
	}
	var src *ssa.Call
	n := 0
	for _, fn := range append(slices.Clone(b.p.Funcs), g.Pkg.Func("init")) {
		if fn == nil {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, i := range blk.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				v := st.Val
				if e, ok := v.(*ssa.Extract); ok {
					v = e.Tuple
				}
				s, _ := v.(*ssa.Call)
				if s != src {
					src = s
					n++
				}
			}
		}
	}
	if n != 1 || src == nil {
		return nil
	}
	if cn := calleeName(src.Common()); cn != "regexp.Compile" && cn != "regexp.MustCompile" {
		return nil
	}
	k, ok := src.Call.Args[0].(*ssa.Const)
	if !ok || k.Value == nil {
		return nil
	}
	re, err := syntax.Parse(constant.StringVal(k.Value), syntax.Perl)
	if err != nil {
		return nil
	}
	return re
}

// reMin is the length of the shortest text an expression matches.
func reMin(r *syntax.Regexp) int64 {
	switch r.Op {
	case syntax.OpLiteral:
		return int64(len(string(r.Rune)))
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return reMin(r.Sub[0])
	case syntax.OpRepeat:
		return int64(r.Min) * reMin(r.Sub[0])
	case syntax.OpConcat:
		n := int64(0)
		for _, s := range r.Sub {
			n += reMin(s)
		}
		return n
	case syntax.OpAlternate:
		n := reMin(r.Sub[0])
		for _, s := range r.Sub[1:] {
			n = min(n, reMin(s))
		}
		return n
	}
	return 0
}

// regexFacts: the ends of a match are ordered, inside the text, and at least the shortest match apart.
func (b *bounds) regexFacts(a *batom, me lin, ge func(lin)) {
	ad := a.cv.ld.addr
	c, ok := ad.root.(*ssa.Call)
	if !ok || ad.ld != nil || len(ad.steps) != 1 || ad.steps[0].field != "" {
		return
	}
	re := b.regexOf(c)
	ix := ad.steps[0].index
	if re == nil || c.Call.StaticCallee().Name() != "FindStringIndex" || ix != "0" && ix != "1" || a.cv.ld.ver.phi != nil {
		return
	}
	ge(me)
	ge(b.lenOf(a.cv.ctx, c.Call.Args[1]).sub(me))
	other := "1"
	if ix == "1" {
		other = "0"
	}
	o := lin{}
	for id := 0; id < len(b.atoms); id++ {
		x := b.atoms[id]
		if x.cv.ld == nil || x.isLen || x.cv.ctx != a.cv.ctx || x.cv.ld.addr.root != ad.root || x.cv.ld.addr.ld != nil || len(x.cv.ld.addr.steps) != 1 || x.cv.ld.addr.steps[0].index != other {
			continue
		}
		o = linAtom(id)
		d := o.sub(me)
		if ix == "1" {
			d = me.sub(o)
		}
		ge(d.addK(-reMin(re)))
	}
}

func extractOfTuple(t ssa.Value, i int) ssa.Value {
	for _, r := range *t.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

func extractOf(c ssa.Value, i int) ssa.Value {
	if c.Referrers() == nil {
		return nil
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

// closureFacts: what the standard library guarantees about the arguments of a callback.
func (b *bounds) closureFacts(ctx *pctx, f *pfacts) {
	ci, ok := ctx.site.(ssa.CallInstruction)
	if !ok {
		return
	}
	c := ci.Common()
	n := calleeName(c)
	switch n {
	case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
		x := c.Args[0]
		if mi, ok := x.(*ssa.MakeInterface); ok {
			x = mi.X
		}
		ln := b.lenOf(ctx.parent, x)
		for _, p := range ctx.fn.Params {
			l := b.lin(ctx, p)
			f.ge = append(f.ge, l, ln.sub(l).addK(-1))
		}
	case "sort.Search":
		for _, p := range ctx.fn.Params {
			l := b.lin(ctx, p)
			f.ge = append(f.ge, l, b.lin(ctx.parent, c.Args[0]).sub(l).addK(-1))
		}
	}
}

type goal struct {
	l    lin
	what string
	alts [][]lin // instead of l: one of these conjunctions
}

// goals of an instruction: the linear facts it needs in order not to panic.
func (b *bounds) goals(ctx *pctx, i ssa.Instruction) []goal {
	idx := func(x, ix ssa.Value) []goal {
		l := b.lin(ctx, ix)
		ln := b.lenOf(ctx, x)
		return []goal{{l: l, what: "index may be negative"}, {l: ln.sub(l).addK(-1), what: "index may reach the length"}}
	}
	switch x := i.(type) {
	case *ssa.IndexAddr:
		return idx(x.X, x.Index)
	case *ssa.Index:
		return idx(x.X, x.Index)
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			return idx(x.X, x.Index)
		}
	case *ssa.Slice:
		lo := linConst(0)
		if x.Low != nil {
			lo = b.lin(ctx, x.Low)
		}
		ln := b.lenOf(ctx, x.X)
		if x.High == nil {
			if x.Low == nil {
				return nil
			}
			return []goal{{l: lo, what: "start may be negative"}, {l: ln.sub(lo), what: "start may pass the end"}}
		}
		hi := b.lin(ctx, x.High)
		return []goal{{l: lo, what: "start may be negative"}, {l: hi.sub(lo), what: "start may pass the end"}, {l: ln.sub(hi), what: "end may pass the length"}}
	case *ssa.MakeSlice:
		return []goal{{l: b.lin(ctx, x.Len), what: "length may be negative"}, {l: b.lin(ctx, x.Cap).sub(b.lin(ctx, x.Len)), what: "length may exceed capacity"}}
	case *ssa.MakeChan:
		return []goal{{l: b.lin(ctx, x.Size), what: "size may be negative"}}
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			if isInt(x.X.Type()) {
				return []goal{{l: b.lin(ctx, x.Y).addK(-1), what: "divisor may be zero"}}
			}
		case token.SHL, token.SHR:
			return []goal{{l: b.lin(ctx, x.Y), what: "shift count may be negative"}}
		}
	case ssa.CallInstruction:
		c := x.Common()
		n := calleeName(c)
		switch {
		case strings.HasPrefix(n, "(encoding/binary."):
			w := int64(8)
			if strings.HasSuffix(n, "16") {
				w = 2
			} else if strings.HasSuffix(n, "32") {
				w = 4
			}
			k := len(c.Args) - 1
			if strings.Contains(n, "Put") {
				k--
			}
			return []goal{{l: b.lenOf(ctx, c.Args[k]).addK(-w), what: fmt.Sprintf("fewer than %d bytes may be left", w)}}
		case n == "time.NewTicker" || n == "time.Tick":
			return []goal{{l: b.lin(ctx, c.Args[0]).addK(-1), what: "interval may be zero or negative"}}
		case n == "strings.Repeat" || n == "bytes.Repeat":
			return []goal{{l: b.lin(ctx, c.Args[1]), what: "count may be negative"}}
		case n == "(*bytes.Buffer).Next":
			return []goal{{l: b.lin(ctx, c.Args[1]), what: "count may be negative"}}
		case strings.HasPrefix(n, "(reflect.") || strings.HasPrefix(n, "reflect.") || strings.HasPrefix(n, "invoke:reflect."):
			return b.reflectGoals(ctx, x, n)
		case n == "(*bytes.Buffer).Grow", n == "(*bytes.Buffer).Truncate":
			return []goal{{l: b.lin(ctx, c.Args[1]), what: "count may be negative"}}
		}
	}
	return nil
}

func key0(a *batom) string { return a.key }

// defFacts are facts about an atom that follow from how it is computed.
func (b *bounds) defFacts(id int) []lin {
	if f, ok := b.afacts[id]; ok {
		return f
	}
	b.afacts[id] = nil
	a := b.atoms[id]
	me := linAtom(id)
	var out []lin
	ge := func(l lin) {
		if l.ok {
			out = append(out, l)
		}
	}
	if strings.HasPrefix(key0(a), "i:rf:Len(") || strings.HasPrefix(key0(a), "i:rf:NumField(") {
		ge(me)
	}
	if a.isLen {
		ge(me)
		ge(linConst(1 << 48).sub(me))
	} else {
		lo, hi, okLo, okHi := intRange(a.typ)
		if okLo {
			ge(me.addK(-lo))
		}
		if okHi {
			ge(linConst(hi).sub(me))
		}
	}
	if a.cv.ld != nil && !a.isLen {
		b.regexFacts(a, me, ge)
	}
	if a.cv.ld != nil && a.isLen && len(a.cv.ld.addr.steps) == 0 && a.cv.ld.addr.ld == nil {
		var call *ssa.Call
		switch r := a.cv.ld.addr.root.(type) {
		case *ssa.Call:
			call = r
		case *ssa.Extract:
			call, _ = r.Tuple.(*ssa.Call)
		}
		if call != nil {
			if f := call.Call.StaticCallee(); f != nil && b.p.InLib(f) {
				ge(me.addK(-b.bufferAtLeast(b.ctx(f, b.root(call.Parent()), call, nil))))
			}
		}
	}
	if a.cv.ld != nil && !a.isLen && a.cv.v == nil && len(a.cv.ld.addr.steps) == 2 {
		b.checkedAll(a, me, ge)
	}
	// type invariants
	if a.cv.ld != nil && len(a.cv.ld.addr.steps) > 0 {
		s := a.cv.ld.addr.steps[len(a.cv.ld.addr.steps)-1]
		for _, iv := range b.invs {
			if s.field == "" || typeString(s.typ) != iv.typ {
				continue
			}
			if s.field == iv.lo && !a.isLen || s.field == iv.hi && a.isLen {
				if o, ok := b.sibling(a, iv); ok {
					lo, hi := me, o
					if s.field == iv.hi {
						lo, hi = o, me
					}
					ge(lo)
					ge(hi.sub(lo))
				}
			}
		}
	}
	v, ctx := a.cv.v, a.cv.ctx
	if v != nil {
		switch x := v.(type) {
		case *ssa.Phi:
			b.monotone(ctx, x, a.isLen, me, ge)
			b.inStep(ctx, x, a.isLen, me, ge)
			if !a.isLen {
				b.naturalBound(ctx, x, me, ge)
			}
			if !a.isLen && b.neverNeg(ctx, x, map[ssa.Value]bool{}, 0) {
				ge(me)
			}
		case *ssa.BinOp:
			if !a.isLen {
				b.binFacts(ctx, x, me, ge)
			}
		case *ssa.Convert:
			// a conversion that may wrap keeps only its type's range, but never exceeds a non-negative source
			if isInt(x.X.Type()) && !a.isLen {
				if l := b.lin(ctx, x.X); l.ok && (b.nonNeg(l) || b.prove(l, point{ctx, x.Block(), x}, nil, 1)) {
					ge(l.sub(me))
				}
			}
			if a.isLen {
				// []rune(s), string(runes)
				if isString(x.X.Type()) {
					ge(b.lenOf(ctx, x.X).sub(me))
				}
			}
		case *ssa.Call:
			b.callFacts(ctx, x, -1, a.isLen, me, ge)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Call:
				b.callFacts(ctx, t, x.Index, a.isLen, me, ge)
			case *ssa.Next:
				if t.IsString && x.Index == 1 && !a.isLen {
					if r, ok := t.Iter.(*ssa.Range); ok {
						ge(me)
						ge(b.lenOf(ctx, r.X).addK(-1).sub(me))
					}
				}
			}
		}
	}
	b.afacts[id] = out
	return out
}

// sibling finds the atom of the other field of an invariant, at the moment this one was loaded.
func (b *bounds) sibling(a *batom, iv typeInv) (lin, bool) {
	ad := a.cv.ld.addr
	n := len(ad.steps)
	s := ad.steps[n-1]
	other := iv.hi
	if s.field == iv.hi {
		other = iv.lo
	}
	st, ok := s.typ.Underlying().(*types.Struct)
	if !ok {
		return lin{}, false
	}
	var ft types.Type
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == other {
			ft = st.Field(i).Type()
		}
	}
	if ft == nil {
		return lin{}, false
	}
	steps := append([]astep(nil), ad.steps...)
	steps[n-1] = astep{field: other, typ: s.typ}
	np := &apath{root: ad.root, ld: ad.ld, steps: steps, typ: ft}
	fa := b.fn(a.cv.ctx.fn)
	// a point at which this version is current: right after what produced it
	ver := a.cv.ld.ver
	var ov *vtok
	cl := np.class()
	switch {
	case ver.entry:
		ov = fa.tokEntry(cl)
	case ver.phi != nil:
		fa.solve(cl)
		ov = fa.vin[cl][ver.phi]
	case ver.ins != nil:
		if ver.store() != nil {
			return lin{}, false
		}
		ov = fa.verAfter(cl, ver.ins)
	}
	if ov == nil {
		return lin{}, false
	}
	cv, ok := b.resolve(a.cv.ctx, &mload{np, ov}, 0)
	if !ok {
		return lin{}, false
	}
	if cv.key == "" {
		cv = b.canon(cv.ctx, cv.v)
	}
	if other == iv.hi {
		return b.lenCV(cv, ft), true
	}
	return b.linCV(cv, ft), true
}

// neverWritten: the entry version of a class, if the function never changes it.
func (a *fnA) neverWritten(c mclass) *vtok {
	t := a.tokEntry(c)
	for _, blk := range a.f.Blocks {
		if a.vin[c][blk] != nil && a.vin[c][blk] != t {
			return nil
		}
		for _, i := range blk.Instrs {
			if a.kills(c, i) {
				return nil
			}
		}
	}
	return t
}

func (a *fnA) tokEntry(c mclass) *vtok {
	a.solve(c)
	return a.vin[c][a.f.Blocks[0]]
}

func (a *fnA) verAfter(c mclass, i ssa.Instruction) *vtok {
	if a.kills(c, i) {
		a.solve(c)
		ck := fmt.Sprintf("%p/%s", c.alloc, c.tf)
		return a.toks[fmt.Sprintf("%s#%d", ck, a.ins[i])]
	}
	return a.verAt(c, i)
}

// monotone: a loop counter that only grows (shrinks) stays on its side of its start.
func (b *bounds) monotone(ctx *pctx, x *ssa.Phi, isLen bool, me lin, ge func(lin)) {
	h := x.Block()
	if !isLoopHeader(h) {
		return
	}
	var init lin
	up, down := true, true
	val := func(v ssa.Value) lin {
		if isLen {
			return b.lenOf(ctx, v)
		}
		return b.lin(ctx, v)
	}
	for j, e := range x.Edges {
		l := val(e)
		if !h.Dominates(h.Preds[j]) {
			if !init.ok {
				init = l
			} else if s := init.sub(l); !s.isConst() || s.k != 0 {
				return
			}
			continue
		}
		d := l.sub(me)
		if !d.ok {
			return
		}
		lo, hi := d.k, d.k
		okLo, okHi := true, true
		for _, t := range d.t {
			at := b.atoms[t.a]
			rlo, rhi, k1, k2 := int64(0), int64(0), false, false
			if at.isLen {
				k1 = true
			} else if at.typ != nil {
				rlo, rhi, k1, k2 = intRange(at.typ)
			}
			if t.c < 0 {
				rlo, rhi, k1, k2 = -rhi, -rlo, k2, k1
			}
			okLo, okHi = okLo && k1 && rlo >= 0, okHi && k2 && rhi <= 0
		}
		up = up && okLo && lo >= 0
		down = down && okHi && hi <= 0
	}
	if !init.ok {
		return
	}
	if up {
		ge(me.sub(init))
	}
	if down {
		ge(init.sub(me))
	}
}

// neverNeg: v is non-negative whatever happens, by induction over the phis it is built from.
func (b *bounds) neverNeg(ctx *pctx, v ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if d > 40 {
		return false
	}
	if seen[v] {
		return true
	}
	if lo, _, ok, _ := intRange(v.Type()); ok && lo >= 0 {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		i, ok := constant.Int64Val(constant.ToInt(x.Value))
		return ok && i >= 0
	case *ssa.Phi:
		seen[x] = true
		for _, e := range x.Edges {
			if !b.neverNeg(ctx, e, seen, d+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL:
			if !wide(x.Type()) {
				return false
			}
			for _, o := range []ssa.Value{x.X, x.Y} {
				if !b.neverNeg(ctx, o, seen, d+1) && !b.testedNonNeg(ctx, o, x) {
					return false
				}
			}
			return true
		case token.QUO, token.AND, token.OR, token.XOR:
			return b.neverNeg(ctx, x.X, seen, d+1) && b.neverNeg(ctx, x.Y, seen, d+1)
		case token.REM, token.SHR:
			return b.neverNeg(ctx, x.X, seen, d+1)
		}
	case *ssa.Convert:
		return isInt(x.X.Type()) && (b.convFits(x.X.Type(), x.Type()) || wide(x.Type()) && wide(x.X.Type())) && b.neverNeg(ctx, x.X, seen, d+1) ||
			isInt(x.X.Type()) && wide(x.Type()) && b.neverNeg(ctx, x.X, seen, d+1) && b.provesFromDefs(linConst(1<<62).sub(b.lin(ctx, x.X)))
	case *ssa.Call, *ssa.Extract:
		l := b.lin(ctx, v)
		return b.provesFromDefs(l)
	}
	return false
}

// testedNonNeg: the tests passed on the way to a point leave no negative value.
func (b *bounds) testedNonNeg(ctx *pctx, v ssa.Value, at ssa.Instruction) bool {
	l := b.lin(ctx, v)
	if !l.ok {
		return false
	}
	return infeasible(append([]lin{l.scale(-1).addK(-1)}, b.facts(point{ctx, at.Block(), at}).ge...))
}

// provesFromDefs: l ≥ 0 follows from how its atoms are defined.
func (b *bounds) provesFromDefs(l lin) bool {
	if !l.ok || len(l.t) > 3 {
		return false
	}
	cs := []lin{l.scale(-1).addK(-1)}
	for _, t := range l.t {
		cs = append(cs, b.defFacts(t.a)...)
	}
	return infeasible(cs)
}

// inStep: two loop variables that grow by the same amount on every turn keep their distance.
func (b *bounds) inStep(ctx *pctx, x *ssa.Phi, isLen bool, me lin, ge func(lin)) {
	h := x.Block()
	if !isLoopHeader(h) {
		return
	}
	for _, i := range h.Instrs {
		y, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if y == x {
			continue
		}
		var yl lin
		switch y.Type().Underlying().(type) {
		case *types.Slice:
			yl = b.lenOf(ctx, y)
		default:
			if !isInt(y.Type()) || !wide(y.Type()) {
				continue
			}
			yl = b.lin(ctx, y)
		}
		if !isLen && !wide(x.Type()) {
			continue
		}
		val := func(v ssa.Value) lin { return b.lenOrLin(ctx, v) }
		base := me.sub(yl)
		if !base.ok {
			continue
		}
		var init lin
		good := true
		for j := range x.Edges {
			if h.Dominates(h.Preds[j]) {
				if !b.sameStep(ctx, x.Edges[j], y.Edges[j], me, yl, val, h, 0) {
					good = false
					break
				}
				continue
			}
			l := val(x.Edges[j]).sub(val(y.Edges[j]))
			if !init.ok {
				init = l
			} else if s := init.sub(l); !s.isConst() || s.k != 0 {
				good = false
			}
			if !l.ok {
				good = false
			}
		}
		if good && init.ok {
			d := base.sub(init)
			ge(d)
			ge(d.scale(-1))
		}
	}
}

// bufferAtLeast: the function returns a pointer to the contents of a local buffer; the number of bytes in it
// whenever it succeeds is at least the fixed-size values written to it on the way.
func (b *bounds) bufferAtLeast(ctx *pctx) int64 {
	least := int64(-1)
	if ctx.depth > 6 {
		return 0
	}
	for _, blk := range ctx.fn.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		if c, ok := r.Results[0].(*ssa.Const); ok && c.Value == nil {
			continue
		}
		n := int64(0)
		if c := callOf(r.Results[0]); c != nil {
			g := c.Call.StaticCallee()
			if g == nil || g == ctx.fn || !b.p.InLib(g) || len(g.Blocks) == 0 {
				return 0
			}
			n = b.bufferAtLeast(b.ctx(g, ctx, c, nil))
		} else {
			al, ok := r.Results[0].(*ssa.Alloc)
			if !ok {
				return 0
			}
			var buf ssa.Value
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					c, ok := st.Val.(*ssa.Call)
					if !ok || calleeName(c.Common()) != "(*bytes.Buffer).Bytes" || buf != nil {
						return 0
					}
					buf = c.Call.Args[0]
				}
			}
			if buf == nil {
				return 0
			}
			n, ok = b.writtenTo(ctx, buf, r, nil)
			if !ok {
				return 0
			}
		}
		if least < 0 || n < least {
			least = n
		}
	}
	return max(least, 0)
}

// writtenTo: the buffer is only written, and before the instruction at least the number of bytes was.
func (b *bounds) writtenTo(ctx *pctx, buf ssa.Value, at, site ssa.Instruction) (int64, bool) {
	n := int64(0)
	switch x := buf.(type) {
	case *ssa.Alloc:
	case *ssa.Parameter:
		a := b.arg(ctx, x)
		if a == nil || ctx.parent == nil {
			return 0, false
		}
		m, ok := b.writtenTo(ctx.parent, a, ctx.site, ctx.site)
		if !ok {
			return 0, false
		}
		n = m
	default:
		return 0, false
	}
	pf := b.facts(point{ctx, at.Block(), at})
	for _, u := range *buf.Referrers() {
		switch x := u.(type) {
		case *ssa.Call:
			if u == site {
				continue
			}
			switch calleeName(x.Common()) {
			case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes":
			default:
				return 0, false
			}
		case *ssa.MakeInterface:
			for _, w := range *x.Referrers() {
				c, ok := w.(*ssa.Call)
				if !ok || calleeName(c.Common()) != "encoding/binary.Write" {
					return 0, false
				}
				mi, ok := c.Call.Args[2].(*ssa.MakeInterface)
				if !ok || !pf.isNil[b.canon(ctx, c).key] || !c.Block().Dominates(at.Block()) {
					continue
				}
				n += fixedSize(mi.X.Type())
			}
		case *ssa.DebugRef:
		default:
			return 0, false
		}
	}
	return n, true
}

// fixedSize is the number of bytes encoding/binary writes for a type, 0 if that varies.
func fixedSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	case *types.Array:
		return u.Len() * fixedSize(u.Elem())
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			w := fixedSize(u.Field(i).Type())
			if w == 0 {
				return 0
			}
			n += w
		}
		return n
	}
	return 0
}

// elemLimits: what a loop over a whole slice found of a field of every element.
type elemLimits struct {
	nonNeg bool
	max    map[int64]bool
}

func (l *elemLimits) empty() bool { return l == nil || !l.nonNeg && len(l.max) == 0 }

// checkedAll: a field of a slice's element that an earlier loop over the whole slice found to be
// non-negative, unless it left the function. The loop is in the same function, in a helper that returned no
// error, or in a caller.
func (b *bounds) checkedAll(a *batom, me lin, ge func(lin)) {
	ad, ctx := a.cv.ld.addr, a.cv.ctx
	if ad.ld != nil || ad.root == nil || ad.steps[0].field != "" || ad.steps[1].field == "" || ad.steps[0].iv == nil {
		return
	}
	ins, ok := ad.steps[0].iv.(ssa.Instruction)
	if !ok || b.nb > 2 {
		return
	}
	b.nb++
	defer func() { b.nb-- }()
	use, root, ver := ins.Block(), ad.root, a.cv.ld.ver
	for {
		if use == nil || use.Parent() != ctx.fn {
			return
		}
		for _, l := range []*elemLimits{b.loopLimits(ctx, use, root, ad, ver, a.typ), b.helperLimits(ctx, use, root, ad, ver, a.typ)} {
			if l.empty() {
				continue
			}
			if l.nonNeg {
				ge(me)
			}
			for k := range l.max {
				ge(linConst(k).sub(me))
			}
		}
		p, ok := root.(*ssa.Parameter)
		if !ok || !ver.entry || ctx.parent == nil || ctx.site == nil {
			return
		}
		av := b.arg(ctx, p)
		if av == nil {
			return
		}
		pa := b.fn(ctx.parent.fn)
		base := pa.valuePath(av)
		if base == nil || base.ld != nil || len(base.steps) > 0 || base.root == nil {
			return
		}
		ver = pa.verAt((&apath{root: base.root, steps: ad.steps, typ: ad.typ}).class(), ctx.site)
		root, use, ctx = base.root, ctx.site.Block(), ctx.parent
	}
}

// helperLimits: what the library functions that were given the slice before found, which returned no error.
func (b *bounds) helperLimits(ctx *pctx, use *ssa.BasicBlock, root ssa.Value, ad *apath, ver *vtok, typ types.Type) *elemLimits {
	var pf *pfacts
	pa := b.fn(ctx.fn)
	cls := (&apath{root: root, steps: ad.steps, typ: ad.typ}).class()
	for _, blk := range ctx.fn.Blocks {
		if !blk.Dominates(use) || blk == use {
			continue
		}
		for _, i := range blk.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !b.p.InLib(g) || len(g.Blocks) == 0 || g == ctx.fn {
				continue
			}
			n := g.Signature.Results().Len()
			if n == 0 || !isErrorType(g.Signature.Results().At(n-1).Type()) {
				continue
			}
			var ev ssa.Value = c
			if n > 1 {
				ev = extractOf(c, n-1)
			}
			if ev == nil {
				continue
			}
			for j, av := range c.Call.Args {
				if av != root || j >= len(g.Params) {
					continue
				}
				if v := pa.verAt(cls, c); v != ver {
					continue
				}
				if !testedNil(ev, use) {
					if pf == nil {
						pf = b.facts(point{ctx, use, nil})
					}
					if !pf.isNil[b.canon(ctx, ev).key] {
						continue
					}
				}
				child := b.ctx(g, ctx, c, nil)
				var out *elemLimits
				for _, rb := range g.Blocks {
					r, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return)
					if !ok || b.nonNilErr(child, r.Results[n-1], b.facts(point{child, rb, r})) {
						continue
					}
					l := b.loopLimits(child, rb, g.Params[j], ad, nil, typ)
					if l == nil {
						l = &elemLimits{}
					}
					if out == nil {
						out = l
						continue
					}
					out.nonNeg = out.nonNeg && l.nonNeg
					for k := range out.max {
						if !l.max[k] {
							delete(out.max, k)
						}
					}
				}
				if !out.empty() {
					return out
				}
			}
		}
	}
	return nil
}

// loopLimits: a loop of ctx's function over all of root, passed before use is reached; ver is the state of the
// elements it has to look at (nil: the one the function is entered with).
func (b *bounds) loopLimits(ctx *pctx, use *ssa.BasicBlock, root ssa.Value, ad *apath, ver *vtok, typ types.Type) *elemLimits {
	var all *elemLimits
	for _, blk := range ctx.fn.Blocks {
		if !isLoopHeader(blk) || blk == use || !blk.Dominates(use) {
			continue
		}
		body := loopBody(blk)
		if body[use] {
			continue
		}
		// the only ways out of the loop: its header's test, or out of the function
		cx, op, cy, ok := loopCond(blk)
		if !ok || op != token.LSS {
			continue
		}
		exits := true
		for x := range body {
			for _, s := range x.Succs {
				if !body[s] && x != blk && reachesAvoiding(s, use, blk) {
					exits = false
				}
			}
		}
		if !exits {
			continue
		}
		// counts every index from zero to the length
		var ph *ssa.Phi
		off := int64(0)
		switch x := cx.(type) {
		case *ssa.Phi:
			ph = x
		case *ssa.BinOp:
			p, ok := x.X.(*ssa.Phi)
			k, ok2 := x.Y.(*ssa.Const)
			if ok && ok2 && x.Op == token.ADD {
				ph, off = p, k.Int64()
			}
		}
		if ph == nil || ph.Block() != blk {
			continue
		}
		counts := true
		for j, e := range ph.Edges {
			l := b.lin(ctx, e)
			if blk.Dominates(blk.Preds[j]) {
				l = l.sub(b.lin(ctx, ph)).addK(-1)
			} else {
				l = l.addK(off)
			}
			if !l.ok || !l.isConst() || l.k != 0 {
				counts = false
			}
		}
		if !counts {
			continue
		}
		if d := b.lin(ctx, cy).sub(b.lenOf(ctx, root)); !d.ok || !d.isConst() || d.k != 0 {
			continue
		}
		// the element's field as the loop saw it
		steps := append([]astep(nil), ad.steps...)
		steps[0].iv, steps[0].index = cx, "v:"+vname(cx)
		np := &apath{root: root, steps: steps, typ: ad.typ}
		at := ver
		if at == nil {
			if at = b.fn(ctx.fn).verAt(np.class(), blk.Instrs[len(blk.Instrs)-1]); at == nil || !at.entry {
				continue
			}
		}
		cv, ok := b.resolve(&pctx{id: ctx.id, fn: ctx.fn}, &mload{np, at}, 0)
		if !ok || cv.ld == nil {
			continue
		}
		cv.ctx = ctx
		l := b.linCV(cv, typ)
		everyTurn := func(g lin) bool {
			for j, p := range blk.Preds {
				if !blk.Dominates(p) || b.prove(g, point{ctx, p, nil}, nil, 2) {
					continue
				}
				ef := b.edgePF(ctx, blk, j)
				if !b.proveWith(g, point{ctx, p, nil}, ef.ge, ef, 2) {
					return false
				}
			}
			return true
		}
		out := &elemLimits{nonNeg: everyTurn(l), max: map[int64]bool{}}
		// upper limits: the constants the turns compare with
		tried := map[int64]bool{}
		for x := range body {
			for _, i := range x.Instrs {
				cmp, ok := i.(*ssa.BinOp)
				if !ok || !isInt(cmp.X.Type()) {
					continue
				}
				switch cmp.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					continue
				}
				for _, o := range []ssa.Value{cmp.X, cmp.Y} {
					if k, ok := constInt64(o); ok && k > 0 && len(tried) < 3 && !tried[k] {
						tried[k] = true
						if everyTurn(linConst(k).sub(l)) {
							out.max[k] = true
						}
					}
				}
			}
		}
		if all == nil {
			all = out
			continue
		}
		all.nonNeg = all.nonNeg || out.nonNeg
		for k := range out.max {
			all.max[k] = true
		}
	}
	return all
}

// testedNil: use is only reached where a comparison found v to be nil.
func testedNil(v ssa.Value, use *ssa.BasicBlock) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		cmp, ok := r.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		if !isNilConst(cmp.X) && !isNilConst(cmp.Y) {
			continue
		}
		for _, u := range *cmp.Referrers() {
			if _, ok := u.(*ssa.If); !ok {
				continue
			}
			s := u.Block().Succs[0]
			if cmp.Op == token.NEQ {
				s = u.Block().Succs[1]
			}
			if len(s.Preds) == 1 && s.Dominates(use) {
				return true
			}
		}
	}
	return false
}

// reachesAvoiding: to can be reached from from without passing over the block not.
func reachesAvoiding(from, to, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{not: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		if x == to {
			return true
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// naturalBound: a counter whose loop runs while it is below a fixed limit never passes that limit,
// if every turn can be shown not to overshoot.
// loopCond is the comparison under which a loop's header enters its body, written with < , <= , == or !=.
func loopCond(h *ssa.BasicBlock) (x ssa.Value, op token.Token, y ssa.Value, ok bool) {
	iff, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf {
		return
	}
	body := loopBody(h)
	if body[h.Succs[0]] == body[h.Succs[1]] {
		return
	}
	neg := body[h.Succs[1]]
	cond := iff.Cond
	for {
		u, isNot := cond.(*ssa.UnOp)
		if !isNot || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	c, isCmp := cond.(*ssa.BinOp)
	if !isCmp {
		return
	}
	x, op, y = c.X, c.Op, c.Y
	if neg {
		op = negate(op)
	}
	switch op {
	case token.GTR:
		x, op, y = y, token.LSS, x
	case token.GEQ:
		x, op, y = y, token.LEQ, x
	}
	return x, op, y, true
}

func (b *bounds) naturalBound(ctx *pctx, x *ssa.Phi, me lin, ge func(lin)) {
	h := x.Block()
	if !isLoopHeader(h) {
		return
	}
	cx, op, cy, ok := loopCond(h)
	if ok && op == token.NEQ && cy == ssa.Value(x) {
		cx, cy = cy, cx
	}
	if !ok || cx != ssa.Value(x) || op != token.LSS && op != token.NEQ {
		return
	}
	g := b.lin(ctx, cy).sub(me)
	if !g.ok || g.isConst() || b.nb > 2 {
		return
	}
	b.nb++
	defer func() { b.nb-- }()
	if b.induct(g, ctx, h, nil, 2, point{ctx, h, nil}) {
		ge(g)
	}
}

// sameStep: along one back edge (and through joins before it) x-x0 equals y-y0.
func (b *bounds) sameStep(ctx *pctx, ex, ey ssa.Value, x0, y0 lin, val func(ssa.Value) lin, h *ssa.BasicBlock, d int) bool {
	df := val(ex).sub(x0).sub(val(ey).sub(y0))
	if df.ok && df.isConst() && df.k == 0 {
		return true
	}
	if d > 6 {
		return false
	}
	px, ok1 := ex.(*ssa.Phi)
	py, ok2 := ey.(*ssa.Phi)
	if ok1 && (isLoopHeader(px.Block()) || !h.Dominates(px.Block())) {
		ok1 = false
	}
	if ok2 && (isLoopHeader(py.Block()) || !h.Dominates(py.Block())) {
		ok2 = false
	}
	switch {
	case ok1 && ok2 && px.Block() == py.Block():
		for j := range px.Edges {
			if !b.sameStep(ctx, px.Edges[j], py.Edges[j], x0, y0, val, h, d+1) {
				return false
			}
		}
		return true
	case ok1:
		for j := range px.Edges {
			if !b.sameStep(ctx, px.Edges[j], ey, x0, y0, val, h, d+1) {
				return false
			}
		}
		return true
	case ok2:
		for j := range py.Edges {
			if !b.sameStep(ctx, ex, py.Edges[j], x0, y0, val, h, d+1) {
				return false
			}
		}
		return true
	}
	// a length the callee promises
	if df.ok && len(df.t) <= 3 {
		i, ok := ex.(ssa.Instruction)
		if !ok {
			i, ok = ey.(ssa.Instruction)
		}
		if ok && i.Block() != nil && h.Dominates(i.Block()) {
			pt := point{ctx, i.Block(), nil}
			if b.trace {
				fmt.Println("sameStep", b.show(df), b.prove(df, pt, nil, 2), b.prove(df.scale(-1), pt, nil, 2))
			}
			return b.prove(df, pt, nil, 2) && b.prove(df.scale(-1), pt, nil, 2)
		}
	}
	return false
}

func (b *bounds) nonNeg(l lin) bool {
	if !l.ok {
		return false
	}
	if l.k < 0 {
		return false
	}
	for _, t := range l.t {
		at := b.atoms[t.a]
		if t.c < 0 {
			return false
		}
		if at.isLen {
			continue
		}
		lo, _, ok, _ := intRange(at.typ)
		if !ok || lo < 0 {
			return false
		}
	}
	return true
}

func (b *bounds) binFacts(ctx *pctx, x *ssa.BinOp, me lin, ge func(lin)) {
	if !isInt(x.Type()) {
		return
	}
	p, q := b.lin(ctx, x.X), b.lin(ctx, x.Y)
	nn := func(l lin, v ssa.Value) bool {
		if b.nonNeg(l) {
			return true
		}
		return b.prove(l, point{ctx, x.Block(), x}, nil, 1)
	}
	switch x.Op {
	case token.REM:
		if q.isConst() && q.k > 0 {
			ge(linConst(q.k - 1).sub(me))
			if nn(p, x.X) {
				ge(me)
				ge(p.sub(me))
			} else {
				ge(me.addK(q.k - 1))
			}
		} else {
			if nn(p, x.X) {
				ge(me)
				ge(p.sub(me))
			}
			if nn(q.addK(-1), x.Y) {
				ge(q.sub(me).addK(-1))
				ge(me.add(q).addK(-1))
			}
		}
	case token.QUO:
		if q.isConst() && q.k > 0 && nn(p, x.X) {
			ge(p.sub(me.scale(q.k)))
			ge(me.scale(q.k).addK(q.k - 1).sub(p))
		}
	case token.SHR:
		if q.isConst() && q.k >= 0 && q.k < 62 {
			c := int64(1) << uint(q.k)
			ge(p.sub(me.scale(c)))
			ge(me.scale(c).addK(c - 1).sub(p))
		}
	case token.AND:
		for _, s := range [][2]lin{{p, q}, {q, p}} {
			if s[1].isConst() && s[1].k >= 0 {
				ge(me)
				ge(linConst(s[1].k).sub(me))
				if nn(s[0], x.X) {
					ge(s[0].sub(me))
				}
			}
		}
		if b.nonNeg(p) && b.nonNeg(q) {
			ge(p.sub(me))
			ge(q.sub(me))
		}
	case token.OR, token.XOR:
		if b.nonNeg(p) && b.nonNeg(q) {
			ge(me)
			ge(p.add(q).sub(me))
			if x.Op == token.OR {
				ge(me.sub(p))
				ge(me.sub(q))
			}
		}
	case token.AND_NOT:
		if b.nonNeg(p) {
			ge(me)
			ge(p.sub(me))
		}
	case token.MUL:
		if wide(x.Type()) && nn(p, x.X) && nn(q, x.Y) {
			ge(me)
		}
	case token.ADD, token.SUB, token.SHL:
		// may wrap: only the type's range
	}
}

func (b *bounds) callFacts(ctx *pctx, c *ssa.Call, idx int, isLen bool, me lin, ge func(lin)) {
	cc := c.Common()
	a := cc.Args
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy":
			ge(me)
			ge(b.lenOf(ctx, a[0]).sub(me))
			ge(b.lenOf(ctx, a[1]).sub(me))
		case "cap":
			ge(me.sub(b.lenOf(ctx, a[0])))
		case "min":
			for _, v := range a {
				ge(b.lin(ctx, v).sub(me))
			}
			// min ≥ c when every argument is a known non-negative
			all := true
			for _, v := range a {
				if l := b.lin(ctx, v); !b.nonNeg(l) && !b.provesFromDefs(l) {
					all = false
				}
			}
			if all {
				ge(me)
			}
		case "max":
			for _, v := range a {
				ge(me.sub(b.lin(ctx, v)))
			}
		}
		return
	}
	if f := cc.StaticCallee(); f != nil && b.p.InLib(f) && len(f.Blocks) > 0 {
		if !isLen && b.recursive(f) != nil {
			i := max(idx, 0)
			for _, k := range []int64{1, 0} {
				if b.lowerBound(f, i, k) {
					ge(me.addK(-k))
					break
				}
			}
		}
		if !isLen && b.recursive(f) == nil {
			if lo, hi, ok := b.constRange(f, max(idx, 0), 0); ok {
				ge(me.addK(-lo))
				ge(linConst(hi).sub(me))
			}
		}
		if isLen && !isErrorType(f.Signature.Results().At(f.Signature.Results().Len()-1).Type()) {
			b.sameLenFacts(ctx, c, ge)
		}
		return
	}
	n := calleeName(cc)
	if idx == 0 && cc.IsInvoke() && !isLen {
		switch cc.Method.Name() {
		case "Pack", "Unpack":
			ge(me) // a count of bytes, by contract
		}
	}
	if isLen {
		switch n {
		case "strings.Split", "strings.SplitAfter", "bytes.Split":
			l := b.lenOf(ctx, a[1])
			if l.isConst() && l.k > 0 {
				ge(me.addK(-1))
			}
		case "strings.SplitN", "bytes.SplitN":
			l, k := b.lenOf(ctx, a[1]), b.lin(ctx, a[2])
			if l.isConst() && l.k > 0 && k.isConst() && k.k != 0 {
				ge(me.addK(-1))
				if k.k > 0 {
					ge(linConst(k.k).sub(me))
				}
			}
		case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimFunc", "bytes.TrimSpace", "bytes.Trim", "bytes.TrimRight", "bytes.TrimLeft":
			ge(b.lenOf(ctx, a[0]).sub(me))
		case "strings.TrimPrefix", "strings.TrimSuffix", "bytes.TrimPrefix", "bytes.TrimSuffix":
			ge(b.lenOf(ctx, a[0]).sub(me))
			ge(me.sub(b.lenOf(ctx, a[0])).add(b.lenOf(ctx, a[1])))
		case "strings.Cut", "bytes.Cut":
			if idx == 0 || idx == 1 {
				ge(b.lenOf(ctx, a[0]).sub(me))
			}
		case "(*bytes.Buffer).Next":
			if l := b.lin(ctx, a[1]); l.ok {
				ge(l.sub(me))
			}
		}
		return
	}
	switch {
	case n == "strings.Index" || n == "strings.LastIndex" || n == "bytes.Index" || n == "bytes.LastIndex":
		ge(me.addK(1))
		sub := b.lenOf(ctx, a[1])
		if sub.isConst() && sub.k >= 1 {
			ge(b.lenOf(ctx, a[0]).addK(-1).sub(me))
		} else {
			ge(b.lenOf(ctx, a[0]).sub(me))
		}
	case n == "strings.IndexByte" || n == "strings.IndexRune" || n == "strings.IndexAny" || n == "strings.IndexFunc" || n == "strings.LastIndexByte" || n == "strings.LastIndexAny" || n == "bytes.IndexByte" || n == "slices.Index" || n == "slices.IndexFunc":
		ge(me.addK(1))
		ge(b.lenOf(ctx, a[0]).addK(-1).sub(me))
	case n == "strings.Count", n == "(*bytes.Buffer).Len", n == "(reflect.Value).Len", n == "(reflect.Value).NumField", n == "invoke:reflect.Type.NumField", n == "unicode/utf8.RuneCountInString", n == "(*bytes.Reader).Len", n == "(*strings.Builder).Len", n == "invoke:reflect.Type.Len", n == "(reflect.Value).NumMethod":
		ge(me)
	case n == "invoke:reflect.Type.Size":
		ge(linConst(1 << 40).sub(me))
	case n == "invoke:reflect.Type.Align", n == "invoke:reflect.Type.FieldAlign":
		ge(me.addK(-1))
	case n == "encoding/binary.Size":
		ge(me.addK(1))
	case n == "io.ReadFull" && idx == 0, n == "io.ReadAtLeast" && idx == 0:
		ge(me)
		ge(b.lenOf(ctx, a[1]).sub(me))
	case n == "math/rand.Intn" || n == "math/rand.Int63n" || n == "math/rand.Int31n":
		ge(me)
		ge(b.lin(ctx, a[0]).sub(me).addK(-1))
	case idx == 0 && (strings.HasSuffix(n, ".Read") || strings.HasSuffix(n, ".Write") || strings.HasSuffix(n, ".ReadFrom") || strings.HasSuffix(n, ".ReadFromUDP")) && !b.p.InLibCall(cc):
		for _, v := range a {
			if s, ok := v.Type().Underlying().(*types.Slice); ok && isInt(s.Elem()) {
				ge(me)
				ge(b.lenOf(ctx, v).sub(me))
				break
			}
		}
	case n == "unicode/utf8.DecodeRuneInString" && idx == 1 || n == "unicode/utf8.DecodeRune" && idx == 1:
		ge(me)
		ge(linConst(4).sub(me))
		ge(b.lenOf(ctx, a[0]).sub(me))
	}
}

// InLibCall: the static callee belongs to the library.
func (p *Prog) InLibCall(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && p.InLib(f)
}

const maxDepth = 5

// prove decides goal ≥ 0 at a point.
func (b *bounds) prove(g lin, pt point, extra []lin, depth int) bool {
	if !g.ok {
		return false
	}
	if g.isConst() && (g.k >= 0 || len(extra) == 0) {
		return g.k >= 0
	}
	b.work++
	cs, ne, guards, pf := b.gather(g, pt, extra)
	neg := g.scale(-1).addK(-1)
	if os.Getenv("BT2") != "" {
		fmt.Println(strings.Repeat("  ", depth), "prove", b.show(g))
		for _, c := range cs {
			fmt.Println(strings.Repeat("  ", depth), "     ", b.show(c))
		}
	}
	if infeasible(append(append([]lin(nil), cs...), neg)) {
		return true
	}
	if depth >= maxDepth || b.work > b.limit {
		return false
	}
	// a ≠ b
	for i, n := range ne {
		if i > 6 {
			break
		}
		l := append(append([]lin(nil), cs...), neg, n.addK(-1))
		r := append(append([]lin(nil), cs...), neg, n.scale(-1).addK(-1))
		lb, rb := infeasible(l), infeasible(r)
		if lb && rb {
			return true
		}
		if lb {
			cs = append(cs, n.scale(-1).addK(-1))
			extra = append(append([]lin(nil), extra...), n.scale(-1).addK(-1))
		}
		if rb {
			cs = append(cs, n.addK(-1))
			extra = append(append([]lin(nil), extra...), n.addK(-1))
		}
	}
	// pairs of a ≠ b
	if len(ne) >= 2 && len(ne) <= 5 {
		if b.neSplit(cs, neg, ne) {
			return true
		}
	}
	cand := b.candidates(g, cs)
	if len(extra) <= 32 {
		n := len(cand)
		for _, l := range extra {
			for _, t := range l.t {
				if !slices.Contains(cand, t.a) && len(cand) < n+4 && b.splittable(t.a) {
					cand = append(cand, t.a)
				}
			}
		}
	}
	tried := map[string]bool{}
	for _, id := range cand {
		a := b.atoms[id]
		if b.work > b.limit {
			return false
		}
		if a.cv.v != nil {
			switch x := a.cv.v.(type) {
			case *ssa.Phi:
				k := fmt.Sprintf("%d/%p", a.cv.ctx.id, x.Block())
				if tried[k] {
					continue
				}
				tried[k] = true
				if isLoopHeader(x.Block()) {
					if g.coef(id) != 0 && b.induct(g, a.cv.ctx, x.Block(), extra, depth, pt) {
						return true
					}
				} else if b.splitPhi(g, a.cv.ctx, x.Block(), pt, extra, depth) {
					return true
				}
			case *ssa.Call:
				k := fmt.Sprintf("%d/%p", a.cv.ctx.id, x)
				if !tried[k] {
					tried[k] = true
					if b.splitReturns(g, a.cv.ctx, x, nil, pt, extra, depth, pf) {
						return true
					}
				}
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					k := fmt.Sprintf("%d/%p", a.cv.ctx.id, c)
					if !tried[k] {
						tried[k] = true
						if b.splitReturns(g, a.cv.ctx, c, nil, pt, extra, depth, pf) {
							return true
						}
					}
				}
			}
		} else if a.cv.ld != nil && a.cv.ld.ver.phi != nil {
			h := a.cv.ld.ver.phi
			k := fmt.Sprintf("%d/%p", a.cv.ctx.id, h)
			if tried[k] {
				continue
			}
			tried[k] = true
			if isLoopHeader(h) {
				if g.coef(id) != 0 && b.induct(g, a.cv.ctx, h, extra, depth, pt) {
					return true
				}
			} else if b.splitPhi(g, a.cv.ctx, h, pt, extra, depth) {
				return true
			}
		}
	}
	for i := range guards {
		if i >= 6 || b.work > b.limit {
			break
		}
		gd := guards[i]
		if gd.ctx.depth > 6 {
			continue
		}
		k := fmt.Sprintf("g%d/%p", gd.ctx.id, gd.call)
		if tried[k] || tried[fmt.Sprintf("%d/%p", gd.ctx.id, gd.call)] {
			continue
		}
		tried[k] = true
		if b.splitReturns(g, gd.ctx, gd.call, &gd, pt, extra, depth+1, pf) {
			return true
		}
	}
	return false
}

// splittable: prove can take the atom apart.
func (b *bounds) splittable(id int) bool {
	a := b.atoms[id]
	if a.cv.v != nil {
		switch x := a.cv.v.(type) {
		case *ssa.Phi, *ssa.Call:
			return true
		case *ssa.Extract:
			_, ok := x.Tuple.(*ssa.Call)
			return ok
		}
		return false
	}
	return a.cv.ld != nil && a.cv.ld.ver.phi != nil
}

func (b *bounds) neSplit(cs []lin, neg lin, ne []lin) bool {
	var rec func(i int, cur []lin) bool
	rec = func(i int, cur []lin) bool {
		if infeasible(append(append([]lin(nil), cur...), neg)) {
			return true
		}
		if i >= len(ne) {
			return false
		}
		return rec(i+1, append(append([]lin(nil), cur...), ne[i].addK(-1))) && rec(i+1, append(append([]lin(nil), cur...), ne[i].scale(-1).addK(-1)))
	}
	return rec(0, cs)
}

// candidates orders the atoms to split on: the goal's own, then those of the facts near it.
func (b *bounds) candidates(g lin, cs []lin) []int {
	var out []int
	seen := map[int]bool{}
	for _, t := range g.t {
		out = append(out, t.a)
		seen[t.a] = true
	}
	n := len(out)
	for _, c := range cs {
		rel := false
		for _, t := range c.t {
			if g.coef(t.a) != 0 {
				rel = true
			}
		}
		if !rel {
			continue
		}
		for _, t := range c.t {
			if !seen[t.a] {
				seen[t.a] = true
				out = append(out, t.a)
			}
		}
	}
	if len(out) > n+8 {
		out = out[:n+8]
	}
	return out
}

// gather closes the facts at a point over the atoms the goal mentions.
func (b *bounds) gather(g lin, pt point, extra []lin) (cs, ne []lin, guards []bguard, pf *pfacts) {
	pf = b.facts(pt)
	rel := map[int]bool{}
	var q []int
	addL := func(l lin) {
		for _, t := range l.t {
			if !rel[t.a] {
				rel[t.a] = true
				q = append(q, t.a)
			}
		}
	}
	addL(g)
	if g.isConst() || len(extra) <= 16 {
		// a split case: are the facts that led here consistent?
		for _, l := range extra {
			addL(l)
		}
	}
	used := map[string]bool{}
	take := func(l lin) {
		k := l.key()
		if !used[k] {
			used[k] = true
			cs = append(cs, l)
			addL(l)
		}
	}
	for round := 0; round < 5 && len(rel) < 60; round++ {
		n := len(cs)
		for len(q) > 0 {
			id := q[0]
			q = q[1:]
			for _, l := range b.defFacts(id) {
				take(l)
			}
		}
		for _, set := range [][]lin{extra, pf.ge} {
			for _, l := range set {
				if !l.ok || len(l.t) == 0 {
					if l.ok && l.k < 0 {
						take(l)
					}
					continue
				}
				for _, t := range l.t {
					if rel[t.a] {
						take(l)
						break
					}
				}
			}
		}
		if len(cs) == n && len(q) == 0 {
			break
		}
	}
	for _, l := range pf.ne {
		for _, t := range l.t {
			if rel[t.a] {
				ne = append(ne, l)
				break
			}
		}
	}
	return cs, ne, pf.guards, pf
}

// eqs of all phis (values, lengths, memory) of a block along one incoming edge.
func (b *bounds) phiEqs(ctx *pctx, blk *ssa.BasicBlock, e int) []lin {
	var out []lin
	eq := func(a, v lin) {
		if a.ok && v.ok {
			d := a.sub(v)
			if len(d.t) > 0 {
				out = append(out, d, d.scale(-1))
			}
		}
	}
	for _, i := range blk.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		cv := b.canon(ctx, ph)
		if id, ok := b.akeys["i:"+cv.key]; ok && cv.v == ssa.Value(ph) {
			eq(linAtom(id), b.lin(ctx, ph.Edges[e]))
		}
		if id, ok := b.akeys["l:"+cv.key]; ok && cv.v == ssa.Value(ph) {
			eq(linAtom(id), b.lenOf(ctx, ph.Edges[e]))
		}
	}
	n := len(b.atoms)
	for id := 0; id < n; id++ {
		a := b.atoms[id]
		if a.cv.ld != nil && a.cv.ctx == ctx && a.cv.ld.ver.phi == blk {
			if l, ok := b.memAt(a, blk.Preds[e]); ok {
				eq(linAtom(id), l)
			}
		}
	}
	return out
}

// memAt is the atom's memory read at the end of a predecessor.
func (b *bounds) memAt(a *batom, p *ssa.BasicBlock) (lin, bool) {
	fa := b.fn(a.cv.ctx.fn)
	m := &mload{a.cv.ld.addr, fa.verEnd(a.cv.ld.addr.class(), p)}
	cv, ok := b.resolve(a.cv.ctx, m, 0)
	if !ok {
		return lin{}, false
	}
	if cv.key == "" {
		cv = b.canon(cv.ctx, cv.v)
	}
	if a.isLen {
		return b.lenCV(cv, a.typ), true
	}
	return b.linCV(cv, a.typ), true
}

func (b *bounds) splitPhi(g lin, ctx *pctx, blk *ssa.BasicBlock, pt point, extra []lin, depth int) bool {
	if len(blk.Preds) > 8 {
		return false
	}
	for e := range blk.Preds {
		ex := append(append([]lin(nil), extra...), b.phiEqs(ctx, blk, e)...)
		f := b.edgePF(ctx, blk, e)
		ex = append(ex, f.ge...)
		ng := g
		for _, t := range g.t {
			a := b.atoms[t.a]
			if ph, ok := a.cv.v.(*ssa.Phi); ok && ph.Block() == blk && a.cv.ctx == ctx {
				if a.isLen {
					ng = substOld(ng, g, t.a, b.lenOf(ctx, ph.Edges[e]))
				} else {
					ng = substOld(ng, g, t.a, b.lin(ctx, ph.Edges[e]))
				}
			} else if a.cv.ld != nil && a.cv.ctx == ctx && a.cv.ld.ver.phi == blk {
				if l, ok := b.memAt(a, blk.Preds[e]); ok {
					ng = substOld(ng, g, t.a, l)
				}
			}
		}
		if !ng.ok {
			ng = g
		}
		if !b.proveWith(ng, pt, ex, f, depth+1) {
			return false
		}
	}
	return true
}

func (b *bounds) edgePF(ctx *pctx, blk *ssa.BasicBlock, e int) *pfacts {
	p := blk.Preds[e]
	f := newPF()
	b.edgeFacts(ctx, p, blk, f, 0)
	pf := b.facts(point{ctx, p, nil})
	f.ge = append(f.ge, pf.ge...)
	f.ne = append(f.ne, pf.ne...)
	f.guards = append(f.guards, pf.guards...)
	for k, v := range pf.isNil {
		f.isNil[k] = v
	}
	return f
}

// proveWith proves with the extra disequalities of an edge.
func (b *bounds) proveWith(g lin, pt point, ex []lin, f *pfacts, depth int) bool {
	if b.prove(g, pt, ex, depth) {
		return true
	}
	if len(f.ne) == 0 {
		return false
	}
	cs, _, _, _ := b.gather(g, pt, ex)
	var ne []lin
	for _, n := range f.ne {
		rel := false
		for _, t := range n.t {
			for _, c := range cs {
				if c.coef(t.a) != 0 {
					rel = true
				}
			}
			if g.coef(t.a) != 0 {
				rel = true
			}
		}
		if rel {
			ne = append(ne, n)
		}
	}
	if len(ne) > 5 {
		ne = ne[:5]
	}
	return b.neSplit(cs, g.scale(-1).addK(-1), ne)
}

// invariantAtom: the atom does not change while the loop of h runs.
func (b *bounds) invariantAtom(a *batom, ctx *pctx, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	if a.cv.ctx == nil {
		return true
	}
	// an atom of an enclosing instance is fixed while this instance runs
	for c := ctx.parent; c != nil; c = c.parent {
		if a.cv.ctx == c {
			return true
		}
	}
	if a.cv.ctx != ctx {
		// an instance called from this one: fixed if its call is outside the loop
		c := a.cv.ctx
		for c != nil && c.parent != ctx {
			c = c.parent
		}
		return c != nil && c.site != nil && !body[c.site.Block()]
	}
	if a.cv.ld != nil {
		v := a.cv.ld.ver
		if v.ins != nil && body[v.ins.Block()] || v.phi != nil && body[v.phi] {
			return false
		}
		return b.pathInv(a.cv.ld.addr, body)
	}
	return valueOutside(a.cv.v, body)
}

func valueOutside(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	if i, ok := v.(ssa.Instruction); ok && i.Block() != nil {
		return !body[i.Block()]
	}
	return true
}

func (b *bounds) pathInv(p *apath, body map[*ssa.BasicBlock]bool) bool {
	if p.ld != nil {
		v := p.ld.ver
		if v.ins != nil && body[v.ins.Block()] || v.phi != nil && body[v.phi] || !b.pathInv(p.ld.addr, body) {
			return false
		}
	} else if !valueOutside(p.root, body) {
		return false
	}
	for _, s := range p.steps {
		if s.iv != nil && !valueOutside(s.iv, body) {
			return false
		}
	}
	return true
}

// induct proves a goal over loop-carried atoms: it holds on entry and every turn keeps it.
func (b *bounds) induct(g lin, ctx *pctx, h *ssa.BasicBlock, extra []lin, depth int, at point) bool {
	body := loopBody(h)
	for _, t := range g.t {
		a := b.atoms[t.a]
		if ph, ok := a.cv.v.(*ssa.Phi); ok && ph.Block() == h && a.cv.ctx == ctx {
			continue
		}
		if a.cv.ld != nil && a.cv.ctx == ctx && a.cv.ld.ver.phi == h && b.pathInv(a.cv.ld.addr, body) {
			continue
		}
		if !b.invariantAtom(a, ctx, h, body) {
			return false
		}
	}
	// a nested loop's invariant may be needed again while its enclosing loop's is proved
	key := fmt.Sprintf("ind%d/%p/%s", ctx.id, h, g.key())
	if b.ind[key] >= 2 {
		return false
	}
	b.ind[key]++
	defer func() { b.ind[key]-- }()
	// extra facts about the point do not hold in other turns; keep those over invariant atoms only
	var ex []lin
	for _, l := range extra {
		ok := true
		for _, t := range l.t {
			if !b.invariantAtom(b.atoms[t.a], ctx, h, body) {
				ok = false
			}
		}
		if ok {
			ex = append(ex, l)
		}
	}
	for e, p := range h.Preds {
		ng := g
		for _, t := range g.t {
			a := b.atoms[t.a]
			if ph, ok := a.cv.v.(*ssa.Phi); ok && ph.Block() == h && a.cv.ctx == ctx {
				if a.isLen {
					ng = substOld(ng, g, t.a, b.lenOf(ctx, ph.Edges[e]))
				} else {
					ng = substOld(ng, g, t.a, b.lin(ctx, ph.Edges[e]))
				}
			} else if a.cv.ld != nil && a.cv.ctx == ctx && a.cv.ld.ver.phi == h {
				l, ok := b.memAt(a, p)
				if !ok {
					return false
				}
				ng = substOld(ng, g, t.a, l)
			}
		}
		if !ng.ok {
			return false
		}
		f := b.edgePF(ctx, h, e)
		cur := append(append([]lin(nil), ex...), f.ge...)
		if h.Dominates(p) {
			cur = append(cur, g)
		}
		if !b.proveWith(ng, point{ctx, p, nil}, cur, f, depth+1) {
			return false
		}
	}
	return true
}

// substOld replaces the original occurrence of an atom (coefficient taken from g, not from earlier replacements).
func substOld(ng, g lin, a int, by lin) lin {
	c := g.coef(a)
	return ng.addMul(lin{t: []term{{a, 1}}, ok: true}, -c).addMul(by, c)
}

// nonNilErr: the returned error is certainly not nil at the return.
func (b *bounds) nonNilErr(ctx *pctx, v ssa.Value, pf *pfacts) bool {
	cv := b.canon(ctx, v)
	if n, ok := pf.isNil[cv.key]; ok && !n {
		return true
	}
	switch x := cv.v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "fmt.Errorf", "errors.New":
			return true
		}
	}
	if cv.ld != nil && len(cv.ld.addr.steps) == 0 {
		if _, ok := cv.ld.addr.root.(*ssa.Global); ok {
			return true
		}
	}
	return false
}

// splitReturns proves the goal for every return of a library callee that is possible here.
func (b *bounds) splitReturns(g lin, ctx *pctx, c *ssa.Call, gd *bguard, pt point, extra []lin, depth int, pf *pfacts) bool {
	f := c.Call.StaticCallee()
	if f == nil || !b.p.InLib(f) || len(f.Blocks) == 0 || ctx.depth > 5 {
		return false
	}
	for q := ctx; q != nil; q = q.parent {
		if q.fn == f {
			return false
		}
	}
	for _, blk := range f.Blocks {
		for _, i := range blk.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				// results may be changed by deferred calls
				if blk.Parent().Signature.Results().Len() > 0 && namedResults(f) {
					return false
				}
			}
		}
	}
	var rets []*ssa.Return
	for _, blk := range f.Blocks {
		if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			rets = append(rets, r)
		}
	}
	if len(rets) == 0 || len(rets) > 48 {
		return false
	}
	child := b.ctx(f, ctx, c, nil)
	if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
		child = b.ctx(f, ctx, c, mc)
	}
	n := f.Signature.Results().Len()
	res := func(i int) ssa.Value {
		if n == 1 {
			return c
		}
		return extractOf(c, i)
	}
	for _, r := range rets {
		rp := point{child, r.Block(), r}
		rf := b.facts(rp)
		skip := false
		ex := append([]lin(nil), extra...)
		ex = append(ex, rf.ge...)
		ng := g
		ff := newPF()
		ff.ne = append(ff.ne, rf.ne...)
		// results handed on from another call: what is known about them is known about that call
		var on *ssa.Call
		var onPF *pfacts
		var onGd *bguard
		for i := 0; i < n; i++ {
			rv := res(i)
			rt := f.Signature.Results().At(i).Type()
			if isErrorType(rt) && rv != nil {
				cv := b.canon(ctx, rv)
				if isn, ok := pf.isNil[cv.key]; ok {
					if isn && b.nonNilErr(child, r.Results[i], rf) {
						skip = true
					}
					if !isn {
						if k, ok := b.canon(child, r.Results[i]).v.(*ssa.Const); ok && k.Value == nil {
							skip = true
						}
					}
					if isn {
						// the inner error was nil too
						b.nilFacts(child, r.Results[i], true, false, ff)
					}
					if c2 := callOf(r.Results[i]); c2 != nil {
						on = c2
						onPF = newPF()
						for k, v := range pf.isNil {
							onPF.isNil[k] = v
						}
						onPF.isNil[b.canon(child, r.Results[i]).key] = isn
					}
				}
			}
			if gd != nil && !gd.nilOK && gd.idx == i && isBool(rt) {
				cv := b.canon(child, r.Results[i])
				if k, ok := cv.v.(*ssa.Const); ok {
					if constant.BoolVal(k.Value) != gd.truth {
						skip = true
					}
				} else {
					b.condFacts(child, r.Results[i], gd.truth, ff, 1)
					if c2 := callOf(r.Results[i]); c2 != nil {
						if on = c2; onPF == nil {
							onPF = pf
						}
						ix := 0
						if e, ok := r.Results[i].(*ssa.Extract); ok {
							ix = e.Index
						}
						g2 := *gd
						g2.ctx, g2.call, g2.idx = child, c2, ix
						onGd = &g2
					}
				}
			}
			if rv == nil {
				continue
			}
			cv := b.canon(ctx, rv)
			if id, ok := b.akeys["i:"+cv.key]; ok && cv.v == rv {
				l := b.lin(child, r.Results[i])
				d := linAtom(id).sub(l)
				ex = append(ex, d, d.scale(-1))
				ng = substOld(ng, g, id, l)
			}
			if id, ok := b.akeys["l:"+cv.key]; ok && cv.v == rv {
				l := b.lenOf(child, r.Results[i])
				d := linAtom(id).sub(l)
				ex = append(ex, d, d.scale(-1))
				ng = substOld(ng, g, id, l)
			}
		}
		if skip {
			continue
		}
		ex = append(ex, ff.ge...)
		if !ng.ok {
			ng = g
		}
		if !b.proveWith(ng, pt, ex, ff, depth+1) {
			if on == nil || depth >= maxDepth || !b.splitReturns(ng, child, on, onGd, pt, ex, depth+1, onPF) {
				return false
			}
		}
	}
	return true
}

// callOf is the call a result is taken from as it is.
func callOf(v ssa.Value) *ssa.Call {
	if e, ok := v.(*ssa.Extract); ok {
		c, _ := e.Tuple.(*ssa.Call)
		return c
	}
	c, _ := v.(*ssa.Call)
	return c
}

func namedResults(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if r.At(i).Name() != "" && r.At(i).Name() != "_" {
			return true
		}
	}
	return false
}

// sameLenFacts: slice results that are as long as a slice argument.
func (b *bounds) sameLenFacts(ctx *pctx, c *ssa.Call, ge func(lin)) {
	f := c.Call.StaticCallee()
	sl := func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if !sl(f.Signature.Results().At(i).Type()) {
			continue
		}
		var rv ssa.Value = c
		if f.Signature.Results().Len() > 1 {
			if rv = extractOf(c, i); rv == nil {
				continue
			}
		}
		for j, p := range f.Params {
			if !sl(p.Type()) || !b.sameLen(f, i, j) {
				continue
			}
			d := b.lenOf(ctx, rv).sub(b.lenOf(ctx, c.Call.Args[j]))
			ge(d)
			ge(d.scale(-1))
		}
	}
}

// slicePair: the i-th result and the j-th parameter of f are slices of one length whenever f returns no error.
type slicePair struct {
	f    *ssa.Function
	i, j int
}

// sameLen: whenever f returns no error its i-th result has the length of its j-th parameter (by induction over the
// calls of f and the functions it is recursive with).
func (b *bounds) sameLen(f *ssa.Function, i, j int) bool {
	key := func(q slicePair) string { return fmt.Sprintf("%p/%d/%d", q.f, q.i, q.j) }
	if v, ok := b.sameLens[key(slicePair{f, i, j})]; ok {
		return v
	}
	group := b.recursive(f)
	if group == nil {
		group = map[*ssa.Function]bool{f: true}
	}
	sl := func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
	var all []slicePair
	hyp := map[slicePair]bool{}
	for g := range group {
		if g == f && len(group) == 1 {
			all = append(all, slicePair{f, i, j})
			continue
		}
		for i := 0; i < g.Signature.Results().Len(); i++ {
			for j, p := range g.Params {
				if sl(p.Type()) && sl(g.Signature.Results().At(i).Type()) {
					all = append(all, slicePair{g, i, j})
				}
			}
		}
	}
	sort.Slice(all, func(x, y int) bool {
		if n, m := FnName(all[x].f), FnName(all[y].f); n != m {
			return n < m
		}
		return all[x].i*100+all[x].j < all[y].i*100+all[y].j
	})
	for _, q := range all {
		b.sameLens[key(q)] = false
		hyp[q] = !(namedResults(q.f) && hasDefer(q.f))
	}
	afacts, busy, ind, work, nb := b.afacts, b.busy, b.ind, b.work, b.nb
	for ch := true; ch; {
		ch = false
		b.afacts, b.busy, b.ind, b.work, b.nb = map[int][]lin{}, map[string]bool{"sl": true}, map[string]int{}, 0, 0
		for _, q := range all {
			if hyp[q] && !b.sameLen1(q, all, hyp) {
				hyp[q] = false
				ch = true
			}
		}
	}
	b.afacts, b.busy, b.ind, b.work, b.nb = afacts, busy, ind, work, nb
	for _, q := range all {
		b.sameLens[key(q)] = hyp[q]
	}
	return hyp[slicePair{f, i, j}]
}

func (b *bounds) sameLen1(q slicePair, all []slicePair, hyp map[slicePair]bool) bool {
	f := q.f
	ctx := b.root(f)
	n := f.Signature.Results().Len()
	ei := -1
	if isErrorType(f.Signature.Results().At(n - 1).Type()) {
		ei = n - 1
	}
	good, any := true, false
	for _, blk := range f.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || !good {
			continue
		}
		pt := point{ctx, blk, r}
		if ei >= 0 && b.nonNilErr(ctx, r.Results[ei], b.facts(pt)) {
			continue
		}
		ff := newPF()
		if ei >= 0 {
			b.nilFacts(ctx, r.Results[ei], true, false, ff)
		}
		any = true
		d := b.lenOf(ctx, r.Results[q.i]).sub(b.lenOf(ctx, f.Params[q.j]))
		b.assuming(pt, ff, func() {
			pf := b.facts(pt)
			var ex []lin
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil {
						continue
					}
					g := c.Call.StaticCallee()
					gn := g.Signature.Results().Len()
					for _, h := range all {
						if !hyp[h] || h.f != g {
							continue
						}
						var rv ssa.Value = c
						if gn > 1 {
							rv = extractOf(c, h.i)
						}
						if rv == nil {
							continue
						}
						if isErrorType(g.Signature.Results().At(gn - 1).Type()) {
							ev := extractOf(c, gn-1)
							if ev == nil || !pf.isNil[b.canon(ctx, ev).key] {
								continue
							}
						}
						x := b.lenOf(ctx, rv).sub(b.lenOf(ctx, c.Call.Args[h.j]))
						ex = append(ex, x, x.scale(-1))
					}
				}
			}
			good = d.ok && b.prove(d, pt, ex, 2) && b.prove(d.scale(-1), pt, ex, 2)
		})
		if b.trace {
			fmt.Println("sameLen", FnName(f), q.i, q.j, b.p.Pos(r.Pos()), good, b.show(d))
		}
	}
	return good && any
}

func hasDefer(f *ssa.Function) bool {
	for _, blk := range f.Blocks {
		for _, i := range blk.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

// recursive gives the library functions that call f and are called by it, f included; nil when f does not recurse.
func (b *bounds) recursive(f *ssa.Function) map[*ssa.Function]bool {
	if r, ok := b.recs[f]; ok {
		return r
	}
	static := func(g *ssa.Function) (out []*ssa.Function) {
		for _, blk := range g.Blocks {
			for _, i := range blk.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if h := c.Call.StaticCallee(); h != nil && b.p.InLib(h) && len(h.Blocks) > 0 {
						out = append(out, h)
					}
				}
			}
		}
		return
	}
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		work := static(from)
		for len(work) > 0 {
			g := work[0]
			work = work[1:]
			if seen[g] {
				continue
			}
			seen[g] = true
			work = append(work, static(g)...)
		}
		return seen
	}
	var out map[*ssa.Function]bool
	if fw := reach(f); fw[f] {
		out = map[*ssa.Function]bool{}
		for g := range fw {
			if reach(g)[f] {
				out[g] = true
			}
		}
	}
	b.recs[f] = out
	return out
}

// constRange: a function whose result is always one of a few constants.
func (b *bounds) constRange(f *ssa.Function, i, d int) (lo, hi int64, ok bool) {
	if d > 4 || i >= f.Signature.Results().Len() || !isInt(f.Signature.Results().At(i).Type()) || namedResults(f) && hasDefer(f) {
		return 0, 0, false
	}
	first := true
	add := func(l, h int64) {
		if first || l < lo {
			lo = l
		}
		if first || h > hi {
			hi = h
		}
		first = false
	}
	var val func(v ssa.Value, seen map[ssa.Value]bool) bool
	val = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			k, ok := constInt64(x)
			if ok {
				add(k, k)
			}
			return ok
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !val(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Call, *ssa.Extract:
			c, j := x, 0
			if e, ok := x.(*ssa.Extract); ok {
				c, j = e.Tuple, e.Index
			}
			cl, ok := c.(*ssa.Call)
			if !ok {
				return false
			}
			g := cl.Call.StaticCallee()
			if g == nil || !b.p.InLib(g) || len(g.Blocks) == 0 {
				return false
			}
			l, h, ok := b.constRange(g, j, d+1)
			if ok {
				add(l, h)
			}
			return ok
		}
		return false
	}
	for _, blk := range f.Blocks {
		if r, isR := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); isR {
			if !val(r.Results[i], map[ssa.Value]bool{}) {
				return 0, 0, false
			}
		}
	}
	return lo, hi, !first
}

// lowerBound: an integer result of functions that call one another is never below k, given that the results of
// their inner calls are not.
func (b *bounds) lowerBound(f *ssa.Function, i int, k int64) bool {
	key := func(g *ssa.Function, j int) string { return fmt.Sprintf("lb%p/%d/%d", g, j, k) }
	if v, ok := b.sameLens[key(f, i)]; ok {
		return v
	}
	type item struct {
		g *ssa.Function
		j int
	}
	var all []item
	for g := range b.recursive(f) {
		for j := 0; j < g.Signature.Results().Len(); j++ {
			if isInt(g.Signature.Results().At(j).Type()) {
				all = append(all, item{g, j})
				b.sameLens[key(g, j)] = !(namedResults(g) && hasDefer(g))
			}
		}
	}
	afacts, busy, ind, work, nb := b.afacts, b.busy, b.ind, b.work, b.nb
	defer func() { b.afacts, b.busy, b.ind, b.work, b.nb = afacts, busy, ind, work, nb }()
	for ch := true; ch; {
		ch = false
		b.afacts, b.busy, b.ind, b.work, b.nb = map[int][]lin{}, map[string]bool{"lb": true}, map[string]int{}, 0, 0
		for _, it := range all {
			if b.sameLens[key(it.g, it.j)] && !b.lowerBound1(it.g, it.j, k, key) {
				b.sameLens[key(it.g, it.j)] = false
				ch = true
			}
		}
	}
	return b.sameLens[key(f, i)]
}

func (b *bounds) lowerBound1(f *ssa.Function, i int, k int64, key func(*ssa.Function, int) string) bool {
	ctx := b.root(f)
	for _, blk := range f.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var ex []lin
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				g := c.Call.StaticCallee()
				for j := 0; j < g.Signature.Results().Len(); j++ {
					if !b.sameLens[key(g, j)] {
						continue
					}
					var rv ssa.Value = c
					if g.Signature.Results().Len() > 1 {
						rv = extractOf(c, j)
					}
					if rv != nil {
						ex = append(ex, b.lin(ctx, rv).addK(-k))
					}
				}
			}
		}
		if k == 0 && b.neverNeg(ctx, r.Results[i], map[ssa.Value]bool{}, 0) {
			continue
		}
		if !b.prove(b.lin(ctx, r.Results[i]).addK(-k), point{ctx, blk, r}, ex, 1) {
			return false
		}
	}
	return true
}

// instances of f to prove an obligation in: on its own, or (unexported) as called from every caller.
func (b *bounds) callers(ctx *pctx) ([]*pctx, bool) {
	top := ctx
	var chain []*pctx
	for top.parent != nil {
		chain = append(chain, top)
		top = top.parent
	}
	f := top.fn
	if len(chain) > 3 || exportedFn(f) || b.addrTaken(f) && f.Parent() == nil {
		return nil, false
	}
	var out []*pctx
	rebuild := func(nt *pctx) *pctx {
		cur := nt
		for i := len(chain) - 1; i >= 0; i-- {
			cur = b.ctx(chain[i].fn, cur, chain[i].site, chain[i].clo)
		}
		return cur
	}
	if f.Parent() != nil {
		// a closure: where it is made and used
		n := 0
		for _, blk := range f.Parent().Blocks {
			for _, i := range blk.Instrs {
				mc, ok := i.(*ssa.MakeClosure)
				if !ok || mc.Fn != ssa.Value(f) {
					continue
				}
				for _, r := range *mc.Referrers() {
					ci, ok := r.(ssa.CallInstruction)
					if !ok {
						return nil, false
					}
					n++
					out = append(out, rebuild(b.ctx(f, b.root(f.Parent()), ci, mc)))
				}
			}
		}
		return out, n > 0
	}
	cs := b.p.CallersOf(f)
	if len(cs) == 0 {
		return nil, false
	}
	for _, ci := range cs {
		if ci.Parent() == f && len(chain) > 0 {
			return nil, false
		}
		out = append(out, rebuild(b.ctx(f, b.root(ci.Parent()), ci, nil)))
	}
	return out, true
}

func exportedFn(f *ssa.Function) bool {
	if f.Parent() != nil {
		return false
	}
	n := f.Name()
	if n == "" || !token.IsExported(n) {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		if nm := namedOf(deref(r.Type())); nm != nil && !nm.Obj().Exported() {
			// methods of unexported types can still be called through interfaces
			return true
		}
	}
	return true
}

func (b *bounds) addrTaken(f *ssa.Function) bool {
	for _, g := range b.p.Funcs {
		for _, blk := range g.Blocks {
			for _, i := range blk.Instrs {
				for k, op := range i.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					if ci, ok := i.(ssa.CallInstruction); ok && k == 0 && ci.Common().Value == ssa.Value(f) {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

// decide proves every goal of an instruction; it returns the first goal that fails.
func (b *bounds) decide(i ssa.Instruction, mk func(ctx *pctx) []goal) (bool, string) {
	ok, w := b.decideIn(b.root(i.Parent()), i, mk, 0)
	if !ok && len(b.busy) == 0 {
		// facts that were found while others were still being looked for may be incomplete: once more, from this goal
		b.afacts = map[int][]lin{}
		return b.decideIn(b.root(i.Parent()), i, mk, 0)
	}
	return ok, w
}

func (b *bounds) proveGoal(g goal, pt point) bool {
	if g.alts == nil {
		return b.prove(g.l, pt, nil, 0)
	}
	for _, alt := range g.alts {
		b.work = 0
		ok := true
		for _, l := range alt {
			if !b.prove(l, pt, nil, 0) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (b *bounds) decideIn(ctx *pctx, i ssa.Instruction, mk func(ctx *pctx) []goal, d int) (bool, string) {
	why := ""
	for _, g := range mk(ctx) {
		b.work = 0
		if os.Getenv("BT2") != "" {
			fmt.Println("== ", g.what, FnName(i.Parent()), b.show(g.l))
		}
		if !b.proveGoal(g, point{ctx, i.Block(), i}) {
			why = g.what
			if b.trace {
				fmt.Printf("-- %s in %s: goal %s work %d\n", why, FnName(i.Parent()), b.show(g.l), b.work)
				cs, ne, gs, _ := b.gather(g.l, point{ctx, i.Block(), i}, nil)
				for _, c := range cs {
					fmt.Println("     ", b.show(c))
				}
				for _, c := range ne {
					fmt.Println("      ≠", b.show(c))
				}
				fmt.Println("      guards", len(gs))
			}
			break
		}
	}
	if why == "" {
		return true, ""
	}
	if d > 3 {
		return false, why
	}
	cs, ok := b.callers(ctx)
	if !ok || len(cs) > 40 {
		return false, why
	}
	for _, c := range cs {
		if ok, w := b.decideIn(c, i, mk, d+1); !ok {
			t := c
			for t.parent != nil && t.parent.parent != nil {
				t = t.parent
			}
			if t.parent != nil && !strings.Contains(w, "called from") {
				w += " (called from " + FnName(t.parent.fn) + ")"
			}
			return false, w
		}
	}
	return true, ""
}

func (b *bounds) show(l lin) string {
	var s []string
	for _, t := range l.t {
		a := b.atoms[t.a]
		n := ""
		if a.cv.v != nil {
			n = exprText(a.cv.v) + "/" + a.cv.v.Name()
		} else if a.cv.ld != nil {
			n = "*" + a.cv.ld.key()
		} else {
			n = a.key
		}
		if a.isLen {
			n = "len(" + n + ")"
		}
		s = append(s, fmt.Sprintf("%+d·%s", t.c, n))
	}
	sort.Strings(s)
	return fmt.Sprintf("%s %+d ≥ 0", strings.Join(s, " "), l.k)
}

func (b *bounds) text(v ssa.Value) string { return exprText(v) }

func init() {
	rules["OB"] = func(c *Check) {
		b := newBounds(c.P)
		n, bad := 0, 0
		only := os.Getenv("OBFN")
		for _, f := range c.P.SrcFuncs() {
			if only != "" && !strings.Contains(FnName(f), only) {
				continue
			}
			for _, o := range b.obligations(f) {
				switch o.kind {
				case "nilmap", "panic":
					fmt.Printf("SKIP %s|%s|%s|%s\n", FnName(f), o.kind, o.text, c.P.Pos(o.ins.Pos()))
					continue
				}
				n++
				ok, why := b.check(o)
				if !ok {
					bad++
					fmt.Printf("%s|%s|%s|%s|%s\n", FnName(f), o.kind, o.text, c.P.Pos(o.ins.Pos()), why)
				}
			}
		}
		fmt.Println(n, bad)
	}
}

// check decides one obligation.
func (b *bounds) check(o oblig) (bool, string) {
	switch x := o.ins.(type) {
	case *ssa.TypeAssert:
		return b.decideAssert(b.root(x.Parent()), x, 0)
	}
	return b.decide(o.ins, func(ctx *pctx) []goal { return b.goals(ctx, o.ins) })
}

func (b *bounds) decideAssert(ctx *pctx, x *ssa.TypeAssert, d int) (bool, string) {
	in := b.canon(ctx, x.X)
	if mi, ok := in.v.(*ssa.MakeInterface); ok {
		if types.Identical(mi.X.Type(), x.AssertedType) {
			return true, ""
		}
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok && types.Implements(mi.X.Type(), it) {
			return true, ""
		}
	}
	f := b.facts(point{ctx, x.Block(), x})
	if f.asrt[in.key+"|"+typeString(x.AssertedType)] {
		return true, ""
	}
	if d < 3 {
		if cs, ok := b.callers(ctx); ok {
			for _, c := range cs {
				if ok, w := b.decideAssert(c, x, d+1); !ok {
					return false, w
				}
			}
			return true, ""
		}
	}
	return false, "the value may have another type"
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}
