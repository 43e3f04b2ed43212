package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C16"] = segments }

// C16: the segment encoders and decoders are evaluated on an arbitrary value (an interval refined by the
// branches taken) and what they write and read is compared with the segment format.

// flatten lists what a byte string consists of: single bytes, and pieces of unknown contents.
type piece struct {
	b   Val // one byte
	all Val // or a whole value of unknown bytes
}

func (ev *Eval) flatten(st *evState, v Val) []piece {
	switch x := v.(type) {
	case *slVal:
		if x.symLen == nil {
			bs, _ := ev.sliceBytes(st, x)
			var out []piece
			for _, b := range bs {
				out = append(out, piece{b: b})
			}
			return out
		}
		if x.contents != nil {
			return ev.flatten(st, x.contents)
		}
	case *exprVal:
		if x.op == "cat" {
			return append(ev.flatten(st, x.x), ev.flatten(st, x.y)...)
		}
		if x.op == "conv" || x.op == "string" {
			return ev.flatten(st, x.x)
		}
	case *kVal:
		if bs, ok := ev.sliceBytes(st, x); ok {
			var out []piece
			for _, b := range bs {
				out = append(out, piece{b: b})
			}
			return out
		}
	}
	return []piece{{all: v}}
}

// isByteOf: b is byte i (little end first) of v.
func (ev *Eval) isByteOf(st *evState, b, v Val, i int) bool {
	if n, ok := constInt(b); ok {
		if l, h, ok := ev.interval(st, v); ok && l.Cmp(h) == 0 {
			return new(big.Int).And(new(big.Int).Rsh(l, uint(8*i)), big.NewInt(255)).Cmp(big.NewInt(int64(n))) == 0
		}
		if n != 0 {
			return false
		}
		l, h, ok := ev.interval(st, v)
		return ok && l.Sign() >= 0 && h.BitLen() <= 8*i
	}
	for {
		e, ok := b.(*exprVal)
		if !ok {
			break
		}
		if e.op == "conv" && width(e.t) == 1 {
			b = e.x
			continue
		}
		if e.op == "&" {
			if n, ok := constInt(e.y); ok && n == 255 {
				b = e.x
				continue
			}
		}
		break
	}
	if i == 0 && ev.sameVal(st, b, v) {
		return true
	}
	// conversions between integers keep the bytes both have
	low := func(v Val) Val {
		for {
			e, ok := v.(*exprVal)
			if !ok || e.op != "conv" || !isIntType(e.t) || i >= width(e.t) || i >= intWidth(e.x) {
				return v
			}
			v = e.x
		}
	}
	if e, ok := b.(*exprVal); ok {
		if e.op == fmt.Sprintf("byte%d", i) {
			return ev.sameVal(st, e.x, v) || low(e.x).key() == low(v).key()
		}
		if n, ok := constIntOr(e.y); ok && e.op == ">>" && n == 8*i {
			return ev.sameVal(st, e.x, v)
		}
	}
	return false
}

// intWidth is the number of bytes of an integer, 0 if it is not known to be one.
func intWidth(v Val) int {
	var t types.Type
	switch x := v.(type) {
	case *symVal:
		t = x.t
	case *exprVal:
		t = x.t
	}
	if t == nil || !isIntType(t) {
		return 0
	}
	return width(t)
}

func constIntOr(v Val) (int, bool) {
	if v == nil {
		return 0, false
	}
	return constInt(v)
}

// sameVal: one is the other, apart from conversions that don't change its value.
func (ev *Eval) sameVal(st *evState, a, b Val) bool {
	strip := func(v Val) Val {
		for {
			e, ok := v.(*exprVal)
			if !ok || e.op != "conv" {
				return v
			}
			l, h, ok := ev.interval(st, e.x)
			tl, th, ok2 := typeRange(e.t)
			if !ok || !ok2 || l.Cmp(tl) < 0 || h.Cmp(th) > 0 {
				return v
			}
			v = e.x
		}
	}
	return strip(a).key() == strip(b).key()
}

// segment checks that bytes are a logical segment of a type for a value.
func (ev *Eval) segment(st *evState, bs []piece, base int, v Val) (sel int, why string) {
	if len(bs) == 0 || bs[0].b == nil {
		return 0, "the segment doesn't start with a format byte"
	}
	sel, ok := constInt(bs[0].b)
	if !ok || sel < base || sel > base+2 {
		return sel, fmt.Sprintf("the format byte is %s; it must be %#x, %#x or %#x", bs[0].b.key(), base, base+1, base+2)
	}
	w := 1 << uint(sel-base)
	want := 1 + w
	if w > 1 {
		want++
	}
	if len(bs) != want {
		return sel, fmt.Sprintf("format %#x has %d bytes, %d are written", sel, want, len(bs))
	}
	for _, b := range bs {
		if b.b == nil {
			return sel, "bytes of unknown contents are written"
		}
	}
	if w > 1 {
		if n, ok := constInt(bs[1].b); !ok || n != 0 {
			return sel, fmt.Sprintf("the pad byte of format %#x is not 0", sel)
		}
	}
	l, h, ok := ev.interval(st, v)
	if !ok || l.Sign() < 0 || h.BitLen() > 8*w {
		return sel, fmt.Sprintf("a value up to %v is written in the %d bytes of format %#x", h, w, sel)
	}
	for i := 0; i < w; i++ {
		if !ev.isByteOf(st, bs[len(bs)-w+i].b, v, i) {
			return sel, fmt.Sprintf("byte %d of the value isn't what follows format %#x (%s is)", i, sel, bs[len(bs)-w+i].b.key())
		}
	}
	return sel, ""
}

// odd: whether a number is odd in a state.
func (ev *Eval) odd(st *evState, n Val) (odd, known bool) {
	if k, ok := constInt(n); ok {
		return k%2 == 1, true
	}
	for _, e := range []Val{
		&exprVal{"%", n, kNum(2), types.Typ[types.Int]},
		&exprVal{"&", n, kNum(1), types.Typ[types.Int]},
		&exprVal{"%", &exprVal{"conv", n, nil, types.Typ[types.Byte]}, kNum(2), types.Typ[types.Byte]},
		&exprVal{"&", &exprVal{"conv", n, nil, types.Typ[types.Byte]}, kNum(1), types.Typ[types.Byte]},
	} {
		if l, h, ok := ev.interval(st, e); ok && l.Cmp(h) == 0 {
			return l.Sign() != 0, true
		}
	}
	return false, false
}

// paddedLen: n rounded up to an even number.
func paddedLen(v, n Val) bool {
	var strip func(v Val) Val
	strip = func(v Val) Val {
		if e, ok := v.(*exprVal); ok && e.op == "conv" {
			return strip(e.x)
		}
		return v
	}
	is := func(v Val) bool { return strip(v).key() == strip(n).key() }
	num := func(v Val, k int) bool { i, ok := constInt(v); return ok && i == k }
	bin := func(v Val, op string) (x, y Val, ok bool) {
		e, is := strip(v).(*exprVal)
		if !is || e.op != op || e.y == nil {
			return nil, nil, false
		}
		return e.x, e.y, true
	}
	bit := func(v Val) bool {
		if x, y, ok := bin(v, "%"); ok && is(x) && num(y, 2) {
			return true
		}
		x, y, ok := bin(v, "&")
		return ok && (is(x) && num(y, 1) || is(y) && num(x, 1))
	}
	next := func(v Val) bool {
		x, y, ok := bin(v, "+")
		return ok && (is(x) && num(y, 1) || is(y) && num(x, 1))
	}
	if x, y, ok := bin(v, "+"); ok && (is(x) && bit(y) || is(y) && bit(x)) {
		return true
	}
	if x, y, ok := bin(v, "&^"); ok && next(x) && num(y, 1) {
		return true
	}
	if x, y, ok := bin(v, "*"); ok && num(y, 2) {
		if a, b, ok := bin(x, "/"); ok && next(a) && num(b, 2) {
			return true
		}
		if a, b, ok := bin(x, ">>"); ok && next(a) && num(b, 1) {
			return true
		}
	}
	return false
}

// symbolic checks that bytes are a symbolic segment.
func (ev *Eval) symbolic(st *evState, bs []piece) (n int, why string, known bool) {
	if len(bs) < 3 || bs[0].b == nil || bs[1].b == nil {
		return 0, "not a symbolic segment", false
	}
	if k, ok := constInt(bs[0].b); !ok || k != 0x91 {
		return 0, fmt.Sprintf("the segment starts with %s instead of 0x91", bs[0].b.key()), true
	}
	if bs[2].all == nil {
		return 0, "", false
	}
	ln := ev.length(bs[2].all)
	if l, h, ok := ev.interval(st, ln); !ok || l.Sign() < 0 || h.BitLen() > 8 {
		return 0, fmt.Sprintf("the length of the name, up to %v, is written in one byte", h), true
	}
	if !ev.isByteOf(st, bs[1].b, ln, 0) {
		return 0, fmt.Sprintf("the length byte (%s) is not the length of the name that follows", bs[1].b.key()), true
	}
	odd, k := ev.odd(st, ln)
	pad := len(bs) > 3 && bs[3].b != nil
	if pad {
		if z, ok := constInt(bs[3].b); !ok || z != 0 {
			pad = false
		}
	}
	if !k {
		return 0, fmt.Sprintf("the name is followed by %d more bytes whether its length is odd or even", len(bs)-3), true
	}
	if odd && !pad {
		return 0, "a name of odd length has no pad byte", true
	}
	if odd {
		return 4, "", true
	}
	return 3, "", true
}

var inByte = regexp.MustCompile(`^in\((.*)\)@(\d+):(\d+)$`)

func segments(c *Check) {
	p := c.P
	ev := NewEval(p)
	ev.Globals(p.Root)
	c.Rule("format", "every segment consists of the format byte for its width, the pad byte of the wider formats, and the value unchanged; a value is never cut to a narrower format")
	c.Rule("len", "the advertised length of a segment, path or header is the number of bytes it encodes to")
	c.Rule("decode", "a decoder accepts exactly the formats its encoder emits, consumes the bytes of that format and yields the value it carried")
	c.Rule("build", "the path builder and Serialize append exactly the segment of the value they are given")
	c.Rule("symbolic", "a symbolic segment is 0x91, the length of the name, the name, and a pad byte exactly when that length is odd")
	c.Rule("index", "an array index in a tag name becomes an element segment of the width it needs, and a decoder takes it back")

	logical := []struct {
		name string
		base int
	}{{"CIPClass", 0x20}, {"CIPInstance", 0x24}, {"CIPElement", 0x28}, {"CIPAttribute", 0x30}}
	isLogical := map[string]int{}
	emitted := map[string]map[int]bool{}
	for _, lg := range logical {
		t := p.namedType(p.Root, lg.name)
		if !c.Anchor(t != nil, lg.name) {
			continue
		}
		isLogical[lg.name] = lg.base
		emitted[lg.name] = map[int]bool{}
		enc, ln := p.methodOf(t, "Bytes"), p.methodOf(t, "Len")
		if !c.Anchor(enc != nil, lg.name+".Bytes") {
			continue
		}
		v := ev.sym("v", t)
		for _, o := range ev.Run(enc, []Val{v}, ev.newState()) {
			id := FnName(enc)
			if o.dead || len(o.res) != 1 {
				c.Oblige(o.dead, "format", id, p.Pos(enc.Pos()), "encoding can panic")
				continue
			}
			bs := ev.flatten(o.st, o.res[0])
			sel, why := ev.segment(o.st, bs, lg.base, v)
			l, h, _ := ev.interval(o.st, v)
			id = fmt.Sprintf("%s %v..%v", id, l, h)
			c.Oblige(why == "", "format", id, p.Pos(enc.Pos()), why)
			if why == "" {
				emitted[lg.name][sel] = true
			}
			if ln != nil {
				for _, o2 := range ev.Run(ln, []Val{v}, o.st.clone()) {
					n, ok := constInt(o2.res[0])
					c.Oblige(ok && n == len(bs), "len", fmt.Sprintf("%s %v..%v", FnName(ln), l, h), p.Pos(ln.Pos()), fmt.Sprintf("a value of %v..%v is encoded in %d bytes but its length is given as %s", l, h, len(bs), o2.res[0].key()))
				}
				c.undecided(ev, "len", FnName(ln), ln)
			}
		}
		c.undecided(ev, "format", FnName(enc), enc)
		if rd := p.methodOf(t, "Read"); rd != nil && len(rd.Params) == 2 {
			c.readsSegment(ev, rd, t, lg.base, emitted[lg.name])
		}
	}
	c.Floor("format", 10)
	c.Floor("decode", 7)

	// anything with bytes and a length
	for _, pk := range p.Pkgs {
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 || types.IsInterface(nt) {
				continue
			}
			if _, is := isLogical[n]; is {
				continue
			}
			c.lenAgrees(ev, nt)
		}
	}
	c.Floor("len", 10)

	c.builders(ev, isLogical)
	c.Floor("build", 10)

	c.Rule("path", "a path put together by hand or from several segments consists of whole segments whose values are not cut")
	for _, f := range p.SrcFuncs(p.Root) {
		if f.Parent() != nil || len(f.Blocks) == 0 || len(loopsOf(f)) > 0 {
			continue
		}
		sg := f.Signature
		res := sg.Results()
		whole := sg.Recv() != nil && f.Name() == "Bytes" && sg.Params().Len() == 0
		whole = whole && (typeName(f.Params[0].Type()) == "KnownTag" || typeName(f.Params[0].Type()) == "KnownProgram")
		if res.Len() != 1 || typeString(res.At(0).Type()) != "[]byte" || !whole && (sg.Recv() != nil || sg.Params().Len() != 1 || !isIntType(sg.Params().At(0).Type())) {
			continue
		}
		ev.Call = opaqueLoops(p)
		st := ev.newState()
		for _, o := range ev.Run(f, []Val{ev.load(st, "v", f.Params[0].Type())}, st) {
			if o.dead || len(o.res) != 1 {
				continue
			}
			bs := ev.flatten(o.st, o.res[0])
			if !whole {
				if len(bs) == 0 || bs[0].b == nil {
					continue
				}
				if n, ok := constInt(bs[0].b); !ok || n < 0x20 || n > 0x22 {
					continue
				}
			}
			why := ev.path(o.st, bs)
			c.Oblige(why == "", "path", FnName(f), p.Pos(f.Pos()), why)
		}
		if whole {
			c.undecided(ev, "path", FnName(f), f)
		}
		ev.bad = ""
		ev.Call = nil
	}
	c.Floor("path", 2)

	// symbolic segments; how the name is parsed doesn't matter
	ev.Call = opaqueLoops(p)
	if f := p.Func("marshalIOIPart"); f != nil {
		outs := ev.Run(f, []Val{ev.sym("name", types.Typ[types.String])}, ev.newState())
		for _, o := range outs {
			if o.dead || len(o.res) != 2 || !isNilVal(o.res[1]) {
				continue
			}
			bs := ev.flatten(o.st, o.res[0])
			n, why, known := ev.symbolic(o.st, bs)
			if known {
				c.Oblige(why == "" && n == len(bs), "symbolic", FnName(f), p.Pos(f.Pos()), firstOf(why, "bytes follow the segment"))
			} else {
				c.Info["symbolic segment not recognised"] = true
			}
		}
		c.undecided(ev, "symbolic", FnName(f), f)
	}
	ev.Call = nil
	c.elementLoop(ev, emitted["CIPElement"])
	c.pathDecoder(ev)
	c.Floor("index", 5)
}

func firstOf(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

func setOf(m map[int]bool) string {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%#x", k))
	}
	return strings.Join(s, ", ")
}

// readsSegment evaluates a segment decoder with each possible format byte.
func (c *Check) readsSegment(ev *Eval, f *ssa.Function, t *types.Named, base int, emitted map[int]bool) {
	p := c.P
	rd := ev.sym("r", f.Params[1].Type())
	for sel := 0; sel < 256; sel++ {
		st := ev.newState()
		st.mem["in(r)@0:1"] = &kVal{constant.MakeInt64(int64(sel)), types.Typ[types.Byte]}
		id := fmt.Sprintf("%s %#x", FnName(f), sel)
		accepted := false
		for _, o := range ev.Run(f, []Val{&ptrVal{"dst"}, rd}, st) {
			if o.dead || len(o.res) == 0 || !isNilVal(o.res[len(o.res)-1]) {
				continue
			}
			accepted = true
			if !emitted[sel] {
				continue
			}
			w := 1 << uint(sel-base)
			want, at := 1+w, 1
			if w > 1 {
				want, at = 2+w, 2
			}
			c.Oblige(o.st.pos("r") == want, "decode", id, p.Pos(f.Pos()), fmt.Sprintf("format %#x has %d bytes; the decoder consumes %d", sel, want, o.st.pos("r")))
			got := ev.load(o.st, "dst", t)
			c.Oblige(ev.sameVal(o.st, got, ev.sym(fmt.Sprintf("in(r)@%d:%d", at, w), types.Typ[types.Uint64])) || isInput(got, "r", at, w), "decode", id, p.Pos(f.Pos()), fmt.Sprintf("the value decoded from format %#x is %s, not the %d bytes at %d", sel, got.key(), w, at))
		}
		if emitted[sel] {
			c.Oblige(accepted, "decode", id, p.Pos(f.Pos()), fmt.Sprintf("the encoder emits format %#x but the decoder never accepts it", sel))
		} else {
			c.Oblige(!accepted, "decode", id, p.Pos(f.Pos()), fmt.Sprintf("the decoder accepts format %#x; the encoder emits only %s", sel, setOf(emitted)))
		}
		c.undecided(ev, "decode", id, f)
	}
}

// isInput: v is the input bytes at a position, whatever it was read as.
func isInput(v Val, on string, at, w int) bool {
	for {
		if e, ok := v.(*exprVal); ok && e.op == "conv" && width(e.t) >= w {
			v = e.x
			continue
		}
		break
	}
	m := inByte.FindStringSubmatch(v.key())
	if m == nil {
		return false
	}
	a, _ := strconv.Atoi(m[2])
	n, _ := strconv.Atoi(m[3])
	return m[1] == on && a == at && n == w
}

func (c *Check) lenAgrees(ev *Eval, nt *types.Named) {
	p := c.P
	for _, t := range []types.Type{nt, types.NewPointer(nt)} {
		enc, ln := ev.method(t, "Bytes"), ev.method(t, "Len")
		if enc == nil || ln == nil || !p.InLib(enc) || !p.InLib(ln) || len(enc.Blocks) == 0 || len(ln.Blocks) == 0 {
			continue
		}
		if enc.Signature.Params().Len() != 0 || ln.Signature.Params().Len() != 0 || sigString(enc.Signature) != "func() []byte" || sigString(ln.Signature) != "func() int" {
			continue
		}
		st := ev.newState()
		var recv Val
		if _, isP := t.(*types.Pointer); isP {
			if enc.Synthetic != "" {
				continue // the value type was looked at
			}
			recv = &ptrVal{"r"}
		} else {
			recv = ev.load(st, "r", nt)
		}
		id := FnName(ln)
		// a length that is the length of the bytes
		marker := ev.sym("#bytes", types.Typ[types.Int])
		ev.Call = func(ev *Eval, st *evState, call *ssa.CallCommon, args []Val) ([]evOut, bool) {
			if g := call.StaticCallee(); g == enc && len(args) == 1 && args[0].key() == recv.key() {
				return []evOut{{st: st, res: []Val{&slVal{base: "#bytes", symLen: marker, t: types.NewSlice(types.Typ[types.Byte])}}}}, true
			}
			return nil, false
		}
		direct := true
		for _, o := range ev.Run(ln, []Val{recv}, st.clone()) {
			if o.dead || len(o.res) != 1 || o.res[0].key() != marker.key() {
				direct = false
			}
		}
		ev.Call = nil
		if direct && ev.bad == "" {
			c.Oblige(true, "len", id, p.Pos(ln.Pos()), "")
			continue
		}
		ev.bad = ""
		for _, o := range ev.Run(enc, []Val{recv}, st.clone()) {
			if o.dead || len(o.res) != 1 {
				continue
			}
			want := ev.length(o.res[0])
			for _, o2 := range ev.Run(ln, []Val{recv}, o.st.clone()) {
				if o2.dead || len(o2.res) != 1 {
					continue
				}
				c.Oblige(o2.res[0].key() == want.key(), "len", id, p.Pos(ln.Pos()), fmt.Sprintf("the length is given as %s, the bytes are %s", o2.res[0].key(), want.key()))
			}
		}
		c.undecided(ev, "len", id, ln)
	}
}

func (c *Check) builders(ev *Eval, isLogical map[string]int) {
	p := c.P
	pb := p.namedType(p.Root, "PathBuilder")
	if !c.Anchor(pb != nil, "PathBuilder") {
		return
	}
	st0, _ := pb.Underlying().(*types.Struct)
	buf, errf := -1, -1
	for i := 0; i < st0.NumFields(); i++ {
		switch {
		case typeString(st0.Field(i).Type()) == "bytes.Buffer":
			buf = i
		case isErrorType(st0.Field(i).Type()):
			errf = i
		}
	}
	if !c.Anchor(buf >= 0 && errf >= 0, "PathBuilder's buffer and error") {
		return
	}
	check := func(id string, f *ssa.Function, st *evState, contents Val, pt types.Type, v Val, skip int) {
		bs := ev.flatten(st, contents)
		if len(bs) < skip {
			c.Oblige(false, "build", id, p.Pos(f.Pos()), "what was there before is lost")
			return
		}
		for i := 0; i < skip; i++ {
			if bs[i].b == nil || bs[i].b.key() != fmt.Sprintf("old%d", i) {
				c.Oblige(false, "build", id, p.Pos(f.Pos()), "what was there before is changed")
				return
			}
		}
		bs = bs[skip:]
		if base, is := isLogical[typeName(pt)]; is {
			_, why := ev.segment(st, bs, base, v)
			c.Oblige(why == "", "build", id, p.Pos(f.Pos()), why)
			return
		}
		w := width(pt)
		ok := len(bs) == w
		for i := 0; ok && i < w; i++ {
			ok = bs[i].b != nil && ev.isByteOf(st, bs[i].b, v, i)
		}
		c.Oblige(ok, "build", id, p.Pos(f.Pos()), "what is appended is not the value")
	}
	for _, f := range p.Methods("PathBuilder") {
		if len(f.Params) != 2 || f.Signature.Results().Len() != 1 || width(f.Params[1].Type()) <= 0 || len(f.Blocks) == 0 {
			continue
		}
		st := ev.newState()
		at := "zpb"
		bb := ev.mkBytes(st, []Val{ev.sym("old0", types.Typ[types.Byte]), ev.sym("old1", types.Typ[types.Byte])})
		st.mem[fmt.Sprintf("%s.%d#buf", at, buf)] = bb
		v := ev.sym("v", f.Params[1].Type())
		n := 0
		for _, o := range ev.Run(f, []Val{&ptrVal{at}, v}, st) {
			if o.dead {
				continue
			}
			if !isNilVal(ev.load(o.st, fmt.Sprintf("%s.%d", at, errf), types.Universe.Lookup("error").Type())) {
				continue
			}
			n++
			check(FnName(f), f, o.st, o.st.mem[fmt.Sprintf("%s.%d#buf", at, buf)], f.Params[1].Type(), v, 2)
		}
		c.Oblige(n > 0 || ev.bad != "", "build", FnName(f), p.Pos(f.Pos()), "nothing is ever appended")
		c.undecided(ev, "build", FnName(f), f)
	}
	if f := p.Func("Serialize"); c.Anchor(f != nil, "Serialize") {
		for n := range isLogical {
			t := p.namedType(p.Root, n)
			st := ev.newState()
			v := ev.sym("v", t)
			st.mem["zargs[0]"] = &ifVal{t, v}
			id := FnName(f) + " " + n
			for _, o := range ev.Run(f, []Val{&slVal{base: "zargs", n: 1, t: f.Params[0].Type()}}, st) {
				if o.dead || len(o.res) != 2 || !isNilVal(o.res[1]) {
					continue
				}
				ptr, ok := o.res[0].(*ptrVal)
				if !ok {
					continue
				}
				check(id, f, o.st, o.st.mem[ptr.at+"#buf"], t, v, 0)
			}
			c.undecided(ev, "build", id, f)
		}
	}
	if f := p.Method("PathBuilder", "Symbolic"); f != nil {
		ev.Call = opaqueLoops(p)
		defer func() { ev.Call = nil }()
		st := ev.newState()
		at := "zpb"
		st.mem[fmt.Sprintf("%s.%d#buf", at, buf)] = ev.mkBytes(st, nil)
		for _, o := range ev.Run(f, []Val{&ptrVal{at}, ev.sym("v", types.Typ[types.String])}, st) {
			if o.dead || !isNilVal(ev.load(o.st, fmt.Sprintf("%s.%d", at, errf), types.Universe.Lookup("error").Type())) {
				continue
			}
			bs := ev.flatten(o.st, o.st.mem[fmt.Sprintf("%s.%d#buf", at, buf)])
			n, why, known := ev.symbolic(o.st, bs)
			if known {
				c.Oblige(why == "" && n == len(bs), "symbolic", FnName(f), p.Pos(f.Pos()), firstOf(why, "bytes follow the segment"))
			}
		}
		c.undecided(ev, "symbolic", FnName(f), f)
	}
}

// loops of a function, by header.
func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if isLoopHeader(b) {
			out[b] = loopBody(b)
		}
	}
	return out
}

// appended finds what was added to byte strings kept in memory or carried round a loop.
func (ev *Eval) appended(o evOut, h *ssa.BasicBlock, start map[ssa.Value]Val) [][]piece {
	var out [][]piece
	for k, v := range o.st.mem {
		s, ok := v.(*slVal)
		if !ok || s.contents == nil {
			continue
		}
		bs := ev.flatten(o.st, s)
		if len(bs) > 1 && bs[0].all != nil && bs[0].all.key() == k {
			out = append(out, bs[1:])
		}
	}
	if o.at == h {
		for _, i := range h.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for n, pr := range h.Preds {
				if pr != o.pred {
					continue
				}
				v, has := o.env[ph.Edges[n]]
				if !has {
					continue
				}
				s, ok := v.(*slVal)
				if !ok || s.contents == nil {
					continue
				}
				bs := ev.flatten(o.st, s)
				if before, has := start[ph]; has && len(bs) > 1 && bs[0].all != nil && bs[0].all.key() == before.key() {
					out = append(out, bs[1:])
				}
			}
		}
	}
	return out
}

// elementLoop evaluates one turn of the loop that encodes the indices of a tag name, for an arbitrary index.
func (c *Check) elementLoop(ev *Eval, emitted map[int]bool) {
	p := c.P
	found := false
	for _, f := range p.SrcFuncs(p.Root) {
		for h, body := range loopsOf(f) {
			pins := map[ssa.Value]Val{}
			v := ev.sym("index", types.Typ[types.Int])
			simple := true
			for b := range body {
				for _, i := range b.Instrs {
					if u, ok := i.(*ssa.UnOp); ok && u.Op.String() == "*" {
						if ia, ok := u.X.(*ssa.IndexAddr); ok && typeString(ia.X.Type()) == "[]int" {
							pins[u] = v
						}
					}
					if bl := b; bl != h && isLoopHeader(bl) {
						simple = false
					}
				}
			}
			if len(pins) == 0 || !simple {
				continue
			}
			for _, s := range h.Succs {
				if !body[s] || s == h {
					continue
				}
				env := map[ssa.Value]Val{}
				start := map[ssa.Value]Val{}
				for _, i := range h.Instrs {
					if val, ok := i.(ssa.Value); ok {
						x := ev.unk(val.Type())
						if ph, ok := i.(*ssa.Phi); ok {
							x = ev.sym("was:"+ph.Name(), val.Type())
						}
						env[val], start[val] = x, x
					}
				}
				st := ev.newState()
				one := big.NewInt(1)
				st.iv["index"] = [2]*big.Int{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, 63), one)}
				ev.pin = pins
				outs := ev.Region(f, s, env, st, func(b *ssa.BasicBlock) bool { return b == h || !body[b] })
				ev.pin = nil
				type res struct {
					o  evOut
					bs []piece
				}
				var rs []res
				encodes := false
				for _, o := range outs {
					if o.dead || o.at == nil {
						continue
					}
					as := ev.appended(o, h, start)
					for _, bs := range as {
						rs = append(rs, res{o, bs})
						if n, ok := constIntOr(bs[0].b); ok && n >= 0x28 && n <= 0x2A {
							encodes = true
						}
					}
				}
				if !encodes {
					ev.bad = ""
					continue
				}
				found = true
				id := fmt.Sprintf("%s encodes an index", FnName(f))
				for _, o := range outs {
					// every turn that goes on has written a segment
					if o.dead || o.at != h {
						continue
					}
					as := ev.appended(o, h, start)
					l, hi, _ := ev.interval(o.st, v)
					if l != nil && l.Cmp(hi) > 0 {
						continue
					}
					if len(as) == 0 {
						if len(o.st.events) == 0 {
							c.Oblige(false, "index", id, p.Pos(f.Pos()), fmt.Sprintf("an index of %v..%v is not encoded", l, hi))
						}
						continue
					}
					for _, bs := range as {
						sel, why := ev.segment(o.st, bs, 0x28, v)
						c.Oblige(why == "", "index", fmt.Sprintf("%s %v..%v", id, l, hi), p.Pos(f.Pos()), why)
						if why == "" {
							emitted[sel] = true
						}
					}
				}
				c.undecided(ev, "index", id, f)
			}
		}
	}
	c.Anchor(found, "the loop that encodes array indices")
}

// pathDecoder evaluates one turn of the loop that reads a tag path, for each format byte.
func (c *Check) pathDecoder(ev *Eval) {
	p := c.P
	f := p.Func("getTagFromPath")
	if f == nil || len(loopsOf(f)) == 0 {
		for _, g := range p.SrcFuncs(p.Root) {
			if g.Parent() == nil && g.Signature.Recv() == nil && sigString(g.Signature) == "func(*CIPItem) (string, error)" && len(loopsOf(g)) > 0 {
				f = g
			}
		}
	}
	if !c.Anchor(f != nil, "getTagFromPath") {
		return
	}
	item := f.Params[0]
	de := p.Method("CIPItem", "DeSerialize")
	ev.Call = func(ev *Eval, st *evState, call *ssa.CallCommon, args []Val) ([]evOut, bool) {
		if g := call.StaticCallee(); g != nil && g == de && len(args) == 2 {
			return ev.readInto(st, streamName(args[0]), args[1], nil, call.Pos(), "little"), true
		}
		return nil, false
	}
	defer func() { ev.Call = nil }()
	for h, body := range loopsOf(f) {
		outer := true
		for h2, b2 := range loopsOf(f) {
			if h2 != h && b2[h] {
				outer = false
			}
		}
		if !outer {
			continue
		}
		for sel := 0; sel < 256; sel++ {
			env := map[ssa.Value]Val{item: &ptrVal{"item"}}
			for _, i := range h.Instrs {
				if ph, ok := i.(*ssa.Phi); ok {
					env[ph] = ev.sym("was:"+ph.Name(), ph.Type())
				}
			}
			st := ev.newState()
			st.mem["in(item)@0:1"] = &kVal{constant.MakeInt64(int64(sel)), types.Typ[types.Byte]}
			// allocations made before the loop
			id := fmt.Sprintf("%s %#x", FnName(f), sel)
			goesOn := false
			started := false
			outs := ev.Region(f, h, env, st, func(b *ssa.BasicBlock) bool {
				if b == h {
					return true
				}
				return !body[b] && !leadsToReturn(b)
			})
			_ = started
			w := map[int]int{0x28: 1, 0x29: 2, 0x2A: 4}[sel]
			for _, o := range outs {
				if o.dead || o.at != h {
					continue
				}
				goesOn = true
				read := o.st.pos("item")
				switch {
				case w > 0:
					want, at := 1+w, 1
					if w > 1 {
						want, at = 2+w, 2
					}
					c.Oblige(read == want, "index", id, p.Pos(f.Pos()), fmt.Sprintf("format %#x has %d bytes; the decoder consumes %d", sel, want, read))
					name := fmt.Sprintf("in(item)@%d:%d", at, w)
					seen := false
					for _, i := range h.Instrs {
						ph, ok := i.(*ssa.Phi)
						if !ok {
							break
						}
						for n, pr := range h.Preds {
							if pr == o.pred {
								if v, has := o.env[ph.Edges[n]]; has && strings.Contains(v.key(), name) {
									seen = true
								}
							}
						}
					}
					for _, v := range o.st.mem {
						if strings.Contains(v.key(), name) && strings.Contains(v.key(), "sprintf") {
							seen = true
						}
					}
					c.Oblige(seen, "index", id, p.Pos(f.Pos()), fmt.Sprintf("the index in the %d bytes of format %#x does not become part of the tag's name", w, sel))
				case sel == 0x91:
					// the length, the name, and a pad byte for an odd length
					ln := ev.sym("in(item)@1:1", types.Typ[types.Byte])
					odd, k := ev.odd(o.st, ln)
					var ws []string
					for _, e := range o.st.events {
						if e.on == "item" {
							ws = append(ws, fmt.Sprint(e.width))
						}
					}
					got := strings.Join(ws, ",")
					ok := k && (odd && got == "1,1,-1,1" || !odd && got == "1,1,-1")
					if !ok && !k && got == "1,1,-1" {
						// the pad byte may be read along with the name
						for _, e := range o.st.events {
							if e.on == "item" && e.width == -1 && e.v != nil && paddedLen(e.v, ln) {
								ok = true
							}
						}
					}
					c.Oblige(ok, "symbolic", id, p.Pos(f.Pos()), fmt.Sprintf("reading a symbolic segment of odd length: %v (known: %v) reads pieces of %s bytes", odd, k, got))
				default:
					c.Oblige(false, "index", id, p.Pos(f.Pos()), fmt.Sprintf("byte %#x is taken for a path segment; none is encoded that way", sel))
				}
			}
			if w > 0 || sel == 0x91 {
				c.Oblige(goesOn, "index", id, p.Pos(f.Pos()), fmt.Sprintf("segments of format %#x are encoded but not accepted", sel))
			}
			c.undecided(ev, "index", id, f)
		}
	}
}

func leadsToReturn(b *ssa.BasicBlock) bool { return false }

// opaqueLoops makes library functions that loop yield unknown results.
func opaqueLoops(p *Prog) func(*Eval, *evState, *ssa.CallCommon, []Val) ([]evOut, bool) {
	return func(ev *Eval, st *evState, call *ssa.CallCommon, args []Val) ([]evOut, bool) {
		g := call.StaticCallee()
		if g == nil || !p.InLib(g) || len(loopsOf(g)) == 0 {
			return nil, false
		}
		for i, a := range args {
			if ptr, ok := a.(*ptrVal); ok && i < len(g.Params) {
				ev.store(st, ptr.at, ev.unkParts(deref(g.Params[i].Type())))
			}
		}
		bad := st.clone()
		rs := g.Signature.Results()
		var good, fail []Val
		hasErr := false
		for i := 0; i < rs.Len(); i++ {
			if isErrorType(rs.At(i).Type()) {
				good, fail, hasErr = append(good, nilErr()), append(fail, ev.newErr()), true
				continue
			}
			good, fail = append(good, ev.unkParts(rs.At(i).Type())), append(fail, ev.unk(rs.At(i).Type()))
		}
		outs := []evOut{{st: st, res: good}}
		if hasErr {
			outs = append(outs, evOut{st: bad, res: fail})
		}
		return outs, true
	}
}

// unkParts is an unknown value whose fields can be told apart.
func (ev *Eval) unkParts(t types.Type) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		a := &aggVal{t, map[string]Val{}}
		for i := 0; i < s.NumFields(); i++ {
			a.f["."+fmt.Sprint(i)] = ev.unkParts(s.Field(i).Type())
		}
		return a
	}
	return ev.unk(t)
}

// path checks that bytes are a sequence of segments.
func (ev *Eval) path(st *evState, bs []piece) string {
	for len(bs) > 0 {
		if bs[0].all != nil {
			return "" // an unknown path goes first or in between; what follows can't be lined up for sure
		}
		sel, ok := constInt(bs[0].b)
		if !ok {
			return "the format byte " + bs[0].b.key() + " depends on a value"
		}
		if sel == 0x91 {
			n, why, known := ev.symbolic(st, bs)
			if why != "" && known {
				return why
			}
			if !known {
				return ""
			}
			bs = bs[n:]
			continue
		}
		base := sel &^ 3
		if sel-base == 3 || base < 0x20 || base > 0x30 || base == 0x2C {
			return fmt.Sprintf("%#x is not the format of a segment", sel)
		}
		w := 1 << uint(sel-base)
		n := 1 + w
		if w > 1 {
			n++
		}
		if len(bs) < n {
			return fmt.Sprintf("format %#x has %d bytes, %d are left of the path", sel, n, len(bs))
		}
		v := bs[n-w].b
		if e, ok := v.(*exprVal); ok && e.op == "byte0" {
			v = e.x
		} else if ok && e.op == "conv" {
			v = e.x
		}
		allConst := true
		for i := 1; i < n; i++ {
			if bs[i].b == nil {
				return "a segment is cut short"
			}
			if _, ok := constInt(bs[i].b); !ok {
				allConst = false
			}
		}
		if !allConst {
			if _, why := ev.segment(st, bs[:n], base, v); why != "" {
				return why
			}
		}
		bs = bs[n:]
	}
	return ""
}
