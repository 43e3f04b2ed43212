package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reflection: what the reflect package panics on, as conditions on kinds and lengths.

// reflectPure are the calls whose result is determined by their operands.
var reflectPure = map[string]bool{
	"(reflect.Value).Kind": true, "(reflect.Value).Type": true, "(reflect.Value).Elem": true, "(reflect.Value).Field": true,
	"(reflect.Value).Index": true, "(reflect.Value).NumField": true, "(reflect.Value).Len": true, "(reflect.Value).CanSet": true,
	"(reflect.Value).IsNil": true, "(reflect.Value).IsValid": true, "(reflect.Value).Interface": true, "(reflect.Value).Slice": true, "(reflect.Value).CanInterface": true, "(reflect.Value).CanAddr": true,
	"reflect.ValueOf": true, "reflect.TypeOf": true, "reflect.Indirect": true,
	"invoke:reflect.Type.Kind": true, "invoke:reflect.Type.Elem": true, "invoke:reflect.Type.NumField": true, "invoke:reflect.Type.Field": true, "invoke:reflect.Type.Len": true, "invoke:reflect.Type.Size": true,
}

// reflectKey names the result of a pure reflect call by its operands.
func (b *bounds) reflectKey(ctx *pctx, x *ssa.Call) string {
	n := calleeName(x.Common())
	if !reflectPure[n] {
		return ""
	}
	var ks []string
	if x.Call.IsInvoke() {
		ks = append(ks, b.rkey(ctx, x.Call.Value))
	}
	for _, a := range x.Call.Args {
		ks = append(ks, b.rkey(ctx, a))
	}
	short := n[strings.LastIndex(n, ".")+1:]
	if strings.HasPrefix(n, "invoke:") && (short == "Elem" || short == "Len" || short == "Field") {
		short = "T" + short
	}
	return rnorm(short, ks)
}

// rnorm names a reflect expression, with equal expressions named alike.
func rnorm(short string, ks []string) string {
	k0 := ks[0]
	inner := func(f string) (string, bool) {
		k, ok := strings.CutPrefix(k0, "rf:"+f+"(")
		if !ok {
			return "", false
		}
		return strings.TrimSuffix(k, ")"), true
	}
	switch short {
	case "TypeOf":
		return rnorm("Type", []string{rnorm("ValueOf", ks)})
	case "ValueOf":
		if k, ok := inner("Interface"); ok {
			return k
		}
	case "Type":
		if k, ok := inner("Index"); ok {
			if i := lastArg(k); i >= 0 {
				return "rf:TElem(" + rnorm("Type", []string{k[:i]}) + ")"
			}
		}
		if k, ok := inner("Slice"); ok {
			return rnorm("Type", []string{k})
		}
	case "Kind":
		if k, ok := inner("Type"); ok {
			return rnorm("Kind", []string{k})
		}
		if k, ok := inner("Slice"); ok {
			return rnorm("Kind", []string{k})
		}
		if k, ok := inner("Index"); ok {
			if i := lastArg(k); i >= 0 {
				return "rf:Kind(rf:TElem(" + rnorm("Type", []string{k[:i]}) + "))"
			}
		}
	case "NumField":
		if k, ok := inner("Type"); ok {
			return rnorm("NumField", []string{k})
		}
	case "TLen":
		if k, ok := inner("Type"); ok {
			return rnorm("Len", []string{k})
		}
	case "Slice":
		ks = ks[:1]
	}
	return "rf:" + short + "(" + strings.Join(ks, ",") + ")"
}

// lastArg finds the comma before the last operand of a name.
func lastArg(s string) int {
	d := 0
	for i := len(s) - 1; i >= 0; i-- {
		switch s[i] {
		case ')':
			d++
		case '(':
			d--
		case ',':
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

// rkey is the canonical key of an operand; an interface made of a value is named by the value.
func (b *bounds) rkey(ctx *pctx, v ssa.Value) string {
	cv := b.canon(ctx, v)
	if mi, ok := cv.v.(*ssa.MakeInterface); ok {
		return "mi(" + typeString(mi.X.Type()) + "," + b.canon(cv.ctx, mi.X).key + ")"
	}
	return cv.key
}

// reflectLen is the length of a reflected value that was cut or made.
func (b *bounds) reflectLen(ctx *pctx, v ssa.Value, self func() lin) lin {
	cv := b.canon(ctx, v)
	c, ok := cv.v.(*ssa.Call)
	if !ok {
		return self()
	}
	switch calleeName(c.Common()) {
	case "(reflect.Value).Slice":
		return b.lin(cv.ctx, c.Call.Args[2]).sub(b.lin(cv.ctx, c.Call.Args[1]))
	case "reflect.MakeSlice":
		return b.lin(cv.ctx, c.Call.Args[1])
	}
	return self()
}

// rlen is the length of the reflected value v.
func (b *bounds) rlen(ctx *pctx, v ssa.Value) lin {
	key := rnorm("Len", []string{b.rkey(ctx, v)})
	return b.reflectLen(ctx, v, func() lin { return b.ratom(ctx, key) })
}

func (b *bounds) ratom(ctx *pctx, key string) lin {
	return linAtom(b.atom("i:"+key, func() *batom { return &batom{cv: cval{ctx, nil, nil, key}, typ: types.Typ[types.Int]} }))
}

// rkind is the kind of the reflected value (or type) v.
func (b *bounds) rkind(ctx *pctx, v ssa.Value) lin {
	if t := b.staticType(ctx, v, 0); t != nil {
		if k, ok := kindOfType(t); ok {
			return linConst(int64(k))
		}
	}
	return b.ratom(ctx, rnorm("Kind", []string{b.rkey(ctx, v)}))
}

// staticType is the type of a reflected value where the source fixes it.
func (b *bounds) staticType(ctx *pctx, v ssa.Value, d int) types.Type {
	if d > 6 {
		return nil
	}
	cv := b.canon(ctx, v)
	c, ok := cv.v.(*ssa.Call)
	if !ok {
		return nil
	}
	switch n := calleeName(c.Common()); n {
	case "reflect.ValueOf", "reflect.TypeOf":
		if mi, ok := b.canon(cv.ctx, c.Call.Args[0]).v.(*ssa.MakeInterface); ok {
			if _, isTP := mi.X.Type().(*types.TypeParam); isTP {
				return nil
			}
			return mi.X.Type()
		}
		if in := b.canon(cv.ctx, c.Call.Args[0]); in.v != nil {
			if ic, ok := in.v.(*ssa.Call); ok && calleeName(ic.Common()) == "(reflect.Value).Interface" {
				return b.staticType(in.ctx, ic.Call.Args[0], d+1)
			}
		}
	case "(reflect.Value).Type":
		return b.staticType(cv.ctx, c.Call.Args[0], d+1)
	case "(reflect.Value).Elem", "invoke:reflect.Type.Elem", "(reflect.Value).Index":
		x := c.Call.Value
		if !c.Call.IsInvoke() {
			x = c.Call.Args[0]
		}
		if t := b.staticType(cv.ctx, x, d+1); t != nil {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return u.Elem()
			case *types.Slice:
				return u.Elem()
			case *types.Array:
				return u.Elem()
			case *types.Map:
				return u.Elem()
			}
		}
	case "reflect.New", "(reflect.Value).Addr":
		if n == "(reflect.Value).Addr" {
			if t := b.staticType(cv.ctx, c.Call.Args[0], d+1); t != nil {
				return types.NewPointer(t)
			}
		}
		return types.NewPointer(types.NewStruct(nil, nil)) // a pointer, to something
	case "reflect.MakeSlice", "reflect.SliceOf":
		return types.NewSlice(types.NewStruct(nil, nil))
	}
	return nil
}

func kindOfType(t types.Type) (reflect.Kind, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool, true
		case types.Int:
			return reflect.Int, true
		case types.Int8:
			return reflect.Int8, true
		case types.Int16:
			return reflect.Int16, true
		case types.Int32:
			return reflect.Int32, true
		case types.Int64:
			return reflect.Int64, true
		case types.Uint:
			return reflect.Uint, true
		case types.Uint8:
			return reflect.Uint8, true
		case types.Uint16:
			return reflect.Uint16, true
		case types.Uint32:
			return reflect.Uint32, true
		case types.Uint64:
			return reflect.Uint64, true
		case types.Float32:
			return reflect.Float32, true
		case types.Float64:
			return reflect.Float64, true
		case types.String:
			return reflect.String, true
		}
	case *types.Pointer:
		return reflect.Pointer, true
	case *types.Slice:
		return reflect.Slice, true
	case *types.Array:
		return reflect.Array, true
	case *types.Map:
		return reflect.Map, true
	case *types.Struct:
		return reflect.Struct, true
	case *types.Chan:
		return reflect.Chan, true
	case *types.Signature:
		return reflect.Func, true
	}
	return 0, false
}

// structArg are the encoders whose argument is documented to be a structure (or a pointer to one): its
// type is the caller's choice, made when the program is written.
var structArg = map[string]bool{"Pack": true, "Unpack": true, "TypeEncode": true}

// argKind tells whether the kind of v is fixed by the type a caller chose for such an argument, or for a type parameter.
func (b *bounds) argKind(ctx *pctx, v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	cv := b.canon(ctx, v)
	if cv.ld != nil {
		// the type in the description of a field of the argument
		for c := ctx; c != nil; c = c.parent {
			if structArg[c.fn.Name()] && c.fn.Signature.Recv() == nil {
				return true
			}
		}
		return false
	}
	switch x := cv.v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != ssa.Value(x) && !b.argKind(cv.ctx, e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		n := calleeName(x.Common())
		switch n {
		case "reflect.ValueOf", "reflect.TypeOf":
			a := b.canon(cv.ctx, x.Call.Args[0])
			if p, ok := a.v.(*ssa.Parameter); ok {
				return structArg[p.Parent().Name()] && p.Parent().Signature.Recv() == nil
			}
			if mi, ok := a.v.(*ssa.MakeInterface); ok {
				_, tp := mi.X.Type().(*types.TypeParam)
				return tp
			}
			return false
		}
		if strings.HasPrefix(n, "(reflect.Value).") {
			return b.argKind(cv.ctx, x.Call.Args[0], d+1)
		}
		if strings.HasPrefix(n, "invoke:reflect.Type.") {
			return b.argKind(cv.ctx, x.Call.Value, d+1)
		}
	}
	return false
}

func (b *bounds) kindIs(ctx *pctx, v ssa.Value, what string, ks ...reflect.Kind) goal {
	if b.argKind(ctx, v, 0) {
		return goal{l: linConst(0), what: what}
	}
	k := b.rkind(ctx, v)
	var alts [][]lin
	for _, w := range ks {
		d := k.addK(-int64(w))
		alts = append(alts, []lin{d, d.scale(-1)})
	}
	return goal{alts: alts, what: what}
}

// reflectGoals are the conditions of one reflect call.
func (b *bounds) reflectGoals(ctx *pctx, ci ssa.CallInstruction, n string) []goal {
	gs := b.reflectGoals1(ctx, ci, n)
	m, ok := strings.CutPrefix(n, "(reflect.Value).")
	if ok && (m == "Interface" || strings.HasPrefix(m, "Set")) {
		gs = append(gs, b.exported(ctx, ci.Common().Args[0])...)
		if m == "Set" {
			gs = append(gs, b.exported(ctx, ci.Common().Args[1])...)
		}
	}
	return gs
}

func (b *bounds) reflectGoals1(ctx *pctx, ci ssa.CallInstruction, n string) []goal {
	c := ci.Common()
	var v ssa.Value
	if c.IsInvoke() {
		v = c.Value
	} else if len(c.Args) > 0 {
		v = c.Args[0]
	}
	switch n {
	case "(reflect.Value).Index":
		i := b.lin(ctx, c.Args[1])
		if k, ok := c.Args[1].(*ssa.Const); ok && k.Int64() == 0 && b.argKind(ctx, v, 0) {
			return nil // an array type of no elements is the caller's choice as well
		}
		return []goal{b.kindIs(ctx, v, "the value may not be a list", reflect.Slice, reflect.Array, reflect.String), {l: i, what: "index may be negative"}, {l: b.rlen(ctx, v).sub(i).addK(-1), what: "index may reach the length"}}
	case "(reflect.Value).Slice":
		lo, hi := b.lin(ctx, c.Args[1]), b.lin(ctx, c.Args[2])
		return []goal{b.kindIs(ctx, v, "the value may not be a list", reflect.Slice, reflect.String), {l: lo, what: "start may be negative"}, {l: hi.sub(lo), what: "start may pass the end"}, {l: b.rlen(ctx, v).sub(hi), what: "end may pass the length"}}
	case "(reflect.Value).Len":
		return []goal{b.kindIs(ctx, v, "the value may have no length", reflect.Slice, reflect.Array, reflect.String, reflect.Map, reflect.Chan)}
	case "(reflect.Value).Elem":
		return []goal{b.kindIs(ctx, v, "the value may not be a pointer", reflect.Pointer, reflect.Interface)}
	case "invoke:reflect.Type.Elem":
		return []goal{b.kindIs(ctx, v, "the type may have no element type", reflect.Slice, reflect.Array, reflect.Pointer, reflect.Map, reflect.Chan)}
	case "(reflect.Value).IsNil":
		return []goal{b.kindIs(ctx, v, "the value may not be of a kind that can be nil", reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func)}
	case "(reflect.Value).NumField", "invoke:reflect.Type.NumField", "reflect.VisibleFields":
		return []goal{b.kindIs(ctx, v, "the value may not be a structure", reflect.Struct)}
	case "(reflect.Value).Field", "invoke:reflect.Type.Field":
		return []goal{b.kindIs(ctx, v, "the value may not be a structure", reflect.Struct)}
	case "(reflect.Value).Bool", "(reflect.Value).SetBool":
		return []goal{b.kindIs(ctx, v, "the value may not be a bool", reflect.Bool)}
	case "(reflect.Value).Int", "(reflect.Value).SetInt":
		return []goal{b.kindIs(ctx, v, "the value may not be a signed integer", reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)}
	case "(reflect.Value).Uint", "(reflect.Value).SetUint":
		return []goal{b.kindIs(ctx, v, "the value may not be an unsigned integer", reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64)}
	case "(reflect.Value).Float", "(reflect.Value).SetFloat":
		return []goal{b.kindIs(ctx, v, "the value may not be a float", reflect.Float32, reflect.Float64)}
	case "(reflect.Value).SetString":
		return []goal{b.kindIs(ctx, v, "the value may not be a string", reflect.String)}
	case "(reflect.Value).MapKeys", "(reflect.Value).MapIndex", "(reflect.Value).SetMapIndex", "(reflect.Value).MapRange":
		return []goal{b.kindIs(ctx, v, "the value may not be a map", reflect.Map)}
	case "reflect.MakeSlice":
		l := b.lin(ctx, c.Args[1])
		return []goal{b.kindIs(ctx, v, "the type may not be a slice", reflect.Slice), {l: l, what: "length may be negative"}, {l: b.lin(ctx, c.Args[2]).sub(l), what: "length may exceed the capacity"}}
	}
	bad := linConst(-1)
	switch n {
	case "(reflect.Value).Type", "(reflect.Value).Interface", "(reflect.Value).Addr", "(reflect.Value).Convert":
		if !b.valid(ctx, v, point{ctx, ci.Block(), ci}) {
			return []goal{{l: bad, what: "there may be no value"}}
		}
	case "(reflect.Value).Set":
		if !b.valid(ctx, v, point{ctx, ci.Block(), ci}) || !b.valid(ctx, c.Args[1], point{ctx, ci.Block(), ci}) {
			return []goal{{l: bad, what: "there may be no value"}}
		}
	}
	return nil
}

// rexported is 1 when the reflected value was reached through exported fields only.
func (b *bounds) rexported(ctx *pctx, key string) lin {
	return b.ratom(ctx, "rf:Exported("+key+")")
}

// exportedFact: the field of a structure type that k describes is exported, and so is the value it holds.
func (b *bounds) exportedFact(ctx *pctx, k string, f *pfacts) {
	if os.Getenv("VERIF_DEBUG") == "exp" {
		fmt.Fprintln(os.Stderr, "exported", k)
	}
	k, ok := strings.CutPrefix(k, "rf:TField(rf:Type(")
	if !ok {
		return
	}
	k = strings.TrimSuffix(k, ")")
	i := lastArg(k)
	if i < 1 || k[i-1] != ')' {
		return
	}
	f.ge = append(f.ge, b.rexported(ctx, rnorm("Field", []string{k[:i-1], k[i+1:]})).addK(-1))
}

// exported: a value taken from a field of a structure the caller chose may only be used like a value
// of the library's own when the field is exported.
func (b *bounds) exported(ctx *pctx, v ssa.Value) []goal {
	if b.argKind(ctx, v, 0) {
		return nil
	}
	var alts [][]lin
	for d := 0; d < 8; d++ {
		cv := b.canon(ctx, v)
		var call *ssa.Call
		switch x := cv.v.(type) {
		case *ssa.Call:
			call = x
		case *ssa.Extract:
			call, _ = x.Tuple.(*ssa.Call)
		}
		if call == nil || cv.ld != nil {
			return nil
		}
		alts = append(alts, []lin{b.rexported(cv.ctx, cv.key).addK(-1)})
		switch calleeName(call.Common()) {
		case "(reflect.Value).Field", "(reflect.Value).FieldByName", "(reflect.Value).FieldByIndex", "(reflect.Value).FieldByIndexErr":
			return []goal{{alts: alts, what: "the field may not be exported"}}
		case "(reflect.Value).Index", "(reflect.Value).Slice", "(reflect.Value).Addr", "(reflect.Value).Elem", "(reflect.Value).Convert":
			ctx, v = cv.ctx, call.Call.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// valid decides whether a reflected value was made from something. Only values the library itself
// produces are in question: what a caller hands over, and what lies in memory, is taken as given.
func (b *bounds) valid(ctx *pctx, v ssa.Value, pt point) bool {
	cv := b.canon(ctx, v)
	c, ok := cv.v.(*ssa.Call)
	if !ok || calleeName(c.Common()) != "reflect.ValueOf" {
		return true
	}
	if b.prove(b.rkind(ctx, v).addK(-1), pt, nil, 0) {
		return true
	}
	return !b.mayBeNil(cv.ctx, c.Call.Args[0], 0)
}

// mayBeNil tells whether an interface value made by the library can be nil although no error came with it.
func (b *bounds) mayBeNil(ctx *pctx, v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	cv := b.canon(ctx, v)
	var call *ssa.Call
	idx := 0
	switch x := cv.v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Phi:
		k := fmt.Sprintf("mbn%p", x)
		if b.busy[k] {
			return false
		}
		b.busy[k] = true
		defer delete(b.busy, k)
		for _, e := range x.Edges {
			if b.mayBeNil(cv.ctx, e, d+1) {
				return true
			}
		}
		return false
	case *ssa.Parameter:
		if cs, ok := b.callers(cv.ctx); ok {
			for _, c := range cs {
				if b.mayBeNil(c, x, d+1) {
					return true
				}
			}
		}
		return false
	case *ssa.Call:
		call = x
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		call, idx = c, x.Index
	default:
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || !b.p.InLib(f) || len(f.Blocks) == 0 {
		return false
	}
	k := fmt.Sprintf("mbn%p/%d", f, idx)
	if b.busy[k] {
		return false
	}
	b.busy[k] = true
	defer delete(b.busy, k)
	fc := b.ctx(f, cv.ctx, call, nil)
	for _, blk := range f.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		last := r.Results[len(r.Results)-1]
		if isErrorType(last.Type()) && len(r.Results) > 1 {
			if b.nonNilErr(fc, last, b.facts(point{fc, blk, r})) {
				continue
			}
		}
		if b.mayBeNil(fc, r.Results[idx], d+1) {
			return true
		}
	}
	return false
}

// typeKey names the type of a reflected value.
func (b *bounds) typeKey(ctx *pctx, v ssa.Value) string {
	cv := b.canon(ctx, v)
	if c, ok := cv.v.(*ssa.Call); ok && calleeName(c.Common()) == "(reflect.Value).Index" {
		in := b.canon(cv.ctx, c.Call.Args[0])
		if m, ok := in.v.(*ssa.Call); ok && calleeName(m.Common()) == "reflect.MakeSlice" {
			st := b.canon(in.ctx, m.Call.Args[0])
			if s, ok := st.v.(*ssa.Call); ok && calleeName(s.Common()) == "reflect.SliceOf" {
				return b.rkey(st.ctx, s.Call.Args[0])
			}
			return rnorm("TElem", []string{b.rkey(in.ctx, m.Call.Args[0])})
		}
	}
	return rnorm("Type", []string{b.rkey(ctx, v)})
}

// typeFact records a comparison of two reflected types.
func (b *bounds) typeFact(ctx *pctx, rel string, x, y ssa.Value, f *pfacts) {
	f.asrt[rel+"|"+b.rkey(ctx, x)+"|"+b.rkey(ctx, y)] = true
	if rel == "eq" {
		f.asrt[rel+"|"+b.rkey(ctx, y)+"|"+b.rkey(ctx, x)] = true
	}
}

// checkSet: a value stored or converted through reflect has a type that permits it.
func (b *bounds) checkSet(o oblig) (bool, string) {
	ci := o.ins.(ssa.CallInstruction)
	c := ci.Common()
	return b.typesAgree(b.root(o.ins.Parent()), c, o.ins, 0)
}

func (b *bounds) typesAgree(ctx *pctx, c *ssa.CallCommon, at ssa.Instruction, d int) (bool, string) {
	f := b.facts(point{ctx, at.Block(), at})
	have := func(rel, x, y string) bool { return x == y || f.asrt[rel+"|"+x+"|"+y] || f.asrt["eq|"+x+"|"+y] }
	if calleeName(c) == "(reflect.Value).Convert" {
		if have("conv", b.typeKey(ctx, c.Args[0]), b.rkey(ctx, c.Args[1])) {
			return true, ""
		}
	} else {
		dst, src := b.typeKey(ctx, c.Args[0]), b.typeKey(ctx, c.Args[1])
		if have("asg", src, dst) {
			return true, ""
		}
		if t := b.staticType(ctx, c.Args[0], 0); t != nil {
			if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				return true, ""
			}
			if s := b.staticType(ctx, c.Args[1], 0); s != nil && types.AssignableTo(s, t) {
				return true, ""
			}
		}
		// a value a library function made to be of the type
		sv := b.canon(ctx, c.Args[1])
		if vo, ok := sv.v.(*ssa.Call); ok && calleeName(vo.Common()) == "reflect.ValueOf" {
			if b.resultOfType(sv.ctx, vo.Call.Args[0], dst, f) {
				return true, ""
			}
		}
	}
	if d < 3 {
		if cs, ok := b.callers(ctx); ok {
			for _, k := range cs {
				if ok, w := b.typesAgree(k, c, at, d+1); !ok {
					return false, w
				}
			}
			return true, ""
		}
	}
	return false, "the types may not agree"
}

// resultOfType: v is the result of a library call whose every successful return has the named type.
func (b *bounds) resultOfType(ctx *pctx, v ssa.Value, want string, pf *pfacts) bool {
	cv := b.canon(ctx, v)
	e, ok := cv.v.(*ssa.Extract)
	if !ok {
		return false
	}
	call, ok := e.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || !b.p.InLib(f) || len(f.Blocks) == 0 {
		return false
	}
	last := f.Signature.Results().Len() - 1
	er := extractOf(call, last)
	if er == nil || !isErrorType(er.Type()) {
		return false
	}
	if n, ok := pf.isNil[b.canon(cv.ctx, er).key]; !ok || !n {
		return false
	}
	child := b.ctx(f, cv.ctx, call, nil)
	for _, blk := range f.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		rf := b.facts(point{child, blk, r})
		if b.nonNilErr(child, r.Results[last], rf) {
			continue
		}
		// both results handed on from another call
		if c2 := callOf(r.Results[e.Index]); c2 != nil && callOf(r.Results[last]) == c2 && child.depth < 6 {
			on := newPF()
			on.isNil[b.canon(child, r.Results[last]).key] = true
			if b.resultOfType(child, r.Results[e.Index], want, on) {
				continue
			}
		}
		rv := b.canon(child, r.Results[e.Index])
		if c, ok := rv.v.(*ssa.Call); ok && calleeName(c.Common()) == "(reflect.Value).Interface" {
			in := b.canon(rv.ctx, c.Call.Args[0])
			if k, ok := in.v.(*ssa.Call); ok && calleeName(k.Common()) == "(reflect.Value).Convert" && b.rkey(in.ctx, k.Call.Args[1]) == want {
				continue
			}
		}
		have := rnorm("Type", []string{rnorm("ValueOf", []string{rv.key})})
		if have == want || rf.asrt["eq|"+have+"|"+want] || rf.asrt["asg|"+have+"|"+want] {
			continue
		}
		return false
	}
	return true
}
