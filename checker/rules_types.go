package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C17"] = typeTables }

// C17: every function that maps a type code to something is evaluated with each code as a constant, and its
// result compared with the elementary type that code stands for.

type elemType struct {
	code int
	name string
	bits int
	kind types.BasicKind
}

var elementary = []elemType{
	{0xC1, "BOOL", 8, types.Bool},
	{0xC2, "SINT", 8, types.Int8},
	{0xC3, "INT", 16, types.Int16},
	{0xC4, "DINT", 32, types.Int32},
	{0xC5, "LINT", 64, types.Int64},
	{0xC6, "USINT", 8, types.Uint8},
	{0xC7, "UINT", 16, types.Uint16},
	{0xC8, "UDINT", 32, types.Uint32},
	{0xC9, "ULINT", 64, types.Uint64},
	{0xCA, "REAL", 32, types.Float32},
	{0xCB, "LREAL", 64, types.Float64},
	{0xD1, "BYTE", 8, types.Uint8},
	{0xD2, "WORD", 16, types.Uint16},
	{0xD3, "DWORD", 32, types.Uint32},
	{0xD4, "LWORD", 64, types.Uint64},
}

func (e elemType) goType() types.Type { return types.Typ[e.kind] }

func sameBasic(t types.Type, k types.BasicKind) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == k
}

func typeTables(c *Check) {
	p := c.P
	ev := NewEval(p)
	ev.Globals(p.Root)
	ct := p.namedType(p.Root, "CIPType")
	if !c.Anchor(ct != nil, "CIPType") {
		return
	}
	c.Rule("size", "a type code's framing size is the width of the type it stands for")
	c.Rule("decode", "decoding a type code reads exactly its size and yields the value read, as the Go type of that code; it never succeeds otherwise")
	c.Rule("gotype", "a Go type maps to a type code whose values have that Go type, with the number of elements")
	c.Rule("zero", "the placeholder for a type code has the Go type of that code, and a placeholder for several elements is a slice of it with that many")
	c.Rule("bit", "bit access to a decoded value yields that bit for each of its bits, and fails for every other bit number and for types without bits")
	c.Rule("name", "the displayed name of a type code gives the code and the name of its type")

	// helpers are found by name, or by what they take and return should they have been renamed
	fn := func(name, sig string) *ssa.Function {
		if f := p.Root.Func(name); f != nil {
			return f
		}
		var found *ssa.Function
		for _, f := range p.SrcFuncs(p.Root) {
			if f.Parent() == nil && f.Signature.Recv() == nil && sigString(f.Signature) == sig {
				if found != nil {
					return nil
				}
				found = f
			}
		}
		return found
	}
	size := p.methodOf(ct, "Size")
	str := p.methodOf(ct, "String")
	read := fn("readValue", "func(CIPType, Reader) (any, error)")
	goVar := fn("GoVarToCIPType", "")
	bit := fn("getBit", "func(CIPType, any, int) (bool, error)")
	zero := fn("zeroValueForTagDef", "func(TagDef) any")
	dts := fn("dataTableTypeSize", "func(CIPType) (uint16, error)")
	ddv := fn("decodeDataTableValue", "func(CIPType, []byte) (any, error)")
	newBuf := p.methodOf(ct, "NewBuffer")
	readM := p.methodOf(ct, "readValue")
	code := func(e elemType) Val { return &kVal{constant.MakeInt64(int64(e.code)), ct} }

	intOf := func(f *ssa.Function, args ...Val) (int, bool) {
		o, ok := ev.only(f, args, ev.newState())
		if !ok || len(o.res) == 0 {
			return 0, false
		}
		return constInt(o.res[0])
	}
	for _, e := range elementary {
		if c.Anchor(size != nil, "CIPType.Size") {
			n, ok := intOf(size, code(e))
			c.Oblige(ok && n == e.bits/8, "size", fmt.Sprintf("%s %s", FnName(size), e.name), p.Pos(size.Pos()), fmt.Sprintf("the size of %s (%#x) is given as %d; it is %d", e.name, e.code, n, e.bits/8))
		}
		if dts != nil {
			st := ev.newState()
			for _, o := range ev.Run(dts, []Val{code(e)}, st) {
				if o.dead || len(o.res) != 2 {
					continue
				}
				n, ok := constInt(o.res[0])
				c.Oblige(ok && n == e.bits/8 && isNilVal(o.res[1]), "size", fmt.Sprintf("%s %s", FnName(dts), e.name), p.Pos(dts.Pos()), fmt.Sprintf("the data table slot size of %s (%#x) is given as %d, error %s; it is %d", e.name, e.code, n, o.res[1].key(), e.bits/8))
			}
			c.undecided(ev, "size", FnName(dts)+" "+e.name, dts)
		}
		if newBuf != nil {
			o, ok := ev.only(newBuf, []Val{code(e)}, ev.newState())
			if ok && len(o.res) == 1 {
				if ptr, is := o.res[0].(*ptrVal); is {
					s, is := o.st.mem[ptr.at].(*slVal)
					c.Oblige(is && s.symLen == nil && s.n == e.bits/8, "size", fmt.Sprintf("%s %s", FnName(newBuf), e.name), p.Pos(newBuf.Pos()), fmt.Sprintf("the buffer made for %s does not have its size", e.name))
				}
			}
		}
		for _, rf := range []*ssa.Function{read, readM, ddv} {
			if rf == nil || rf == readM && readM.Signature.Recv() == nil {
				continue
			}
			c.decodes(ev, rf, e, code(e))
		}
		if c.Anchor(str != nil, "CIPType.String") {
			o, ok := ev.only(str, []Val{code(e)}, ev.newState())
			s := ""
			if ok && len(o.res) == 1 {
				s, ok = constString(o.res[0])
			}
			up := strings.ToUpper(s)
			good := ok && strings.Contains(up, strings.ToUpper(fmt.Sprintf("%02X", e.code)))
			if good {
				named := false
				for _, w := range strings.FieldsFunc(up, func(r rune) bool { return !(r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') }) {
					if w == e.name {
						named = true
					}
				}
				good = named
			}
			c.Oblige(good, "name", fmt.Sprintf("%s %s", FnName(str), e.name), p.Pos(str.Pos()), fmt.Sprintf("%s (%#x) is displayed as %q", e.name, e.code, s))
		}
		if c.Anchor(zero != nil, "zeroValueForTagDef") {
			c.zeroOf(ev, zero, e, code(e))
		}
		if c.Anchor(bit != nil, "getBit") {
			c.bitsOfType(ev, bit, e, code(e))
		}
	}
	c.Anchor(read != nil, "readValue")

	// types without bits or fixed decoding
	if str != nil {
		seen := map[string]int{}
		for k := 0; k < 256; k++ {
			o, ok := ev.only(str, []Val{&kVal{constant.MakeInt64(int64(k)), ct}}, ev.newState())
			if !ok || len(o.res) != 1 {
				continue
			}
			s, _ := constString(o.res[0])
			if strings.Contains(s, "Unknown") || s == "" {
				continue
			}
			good := strings.Contains(strings.ToUpper(s), fmt.Sprintf("%02X", k))
			if j, dup := seen[s]; dup {
				c.Oblige(false, "name", fmt.Sprintf("%s %#x", FnName(str), k), p.Pos(str.Pos()), fmt.Sprintf("codes %#x and %#x are both displayed as %q", j, k, s))
			}
			seen[s] = k
			c.Oblige(good, "name", fmt.Sprintf("%s %#x", FnName(str), k), p.Pos(str.Pos()), fmt.Sprintf("code %#x is displayed as %q", k, s))
		}
	}

	// Go types to codes
	if c.Anchor(goVar != nil, "GoVarToCIPType") {
		byCode := map[int]elemType{}
		for _, e := range elementary {
			byCode[e.code] = e
		}
		kinds := map[types.BasicKind]bool{}
		for _, e := range elementary {
			kinds[e.kind] = true
		}
		kinds[types.String] = true
		for k := range kinds {
			bt := types.Typ[k]
			for _, form := range []string{"value", "pointer", "slice"} {
				if form == "slice" && k == types.Bool {
					continue // arrays of bits are packed into words: they have no element code
				}
				var arg Val
				st := ev.newState()
				want := Val(kNum(1))
				switch form {
				case "value":
					arg = &ifVal{bt, &symVal{"v", bt}}
				case "pointer":
					arg = &ifVal{types.NewPointer(bt), &ptrVal{"p:v"}}
				case "slice":
					n := &symVal{"n", types.Typ[types.Int]}
					st.iv["n"] = [2]*big.Int{big.NewInt(0), big.NewInt(1 << 40)}
					arg = &ifVal{types.NewSlice(bt), &slVal{base: "s:v", symLen: n, t: types.NewSlice(bt)}}
					want = n
				}
				id := fmt.Sprintf("%s %s %s", FnName(goVar), form, bt)
				outs := ev.Run(goVar, []Val{arg}, st)
				c.undecided(ev, "gotype", id, goVar)
				for _, o := range outs {
					if o.dead || len(o.res) != 2 {
						c.Oblige(false, "gotype", id, p.Pos(goVar.Pos()), "panics")
						continue
					}
					n, ok := constInt(o.res[0])
					good := ok
					if k == types.String {
						good = good && n == 0xFF
					} else {
						good = good && byCode[n].kind == k
					}
					c.Oblige(good, "gotype", id, p.Pos(goVar.Pos()), fmt.Sprintf("a %s of %s is given type code %#x", form, bt, n))
					c.Oblige(o.res[1].key() == want.key(), "gotype", id+" count", p.Pos(goVar.Pos()), fmt.Sprintf("a %s of %s is counted as %s elements instead of %s", form, bt, o.res[1].key(), want.key()))
				}
			}
		}
	}
	c.Floor("size", 30)
	c.Floor("decode", 15)
	c.Floor("gotype", 40)
	c.Floor("zero", 30)
	c.Floor("bit", 15)
	c.Floor("name", 15)
	c.Info["type_codes"] = len(elementary)
}

// undecided turns an evaluation that did not settle into a finding.
func (c *Check) undecided(ev *Eval, rule, id string, f *ssa.Function) {
	if ev.bad != "" {
		c.Oblige(false, rule, id, c.P.Pos(f.Pos()), "could not be decided: "+ev.bad)
		ev.bad = ""
	}
}

func (c *Check) decodes(ev *Eval, f *ssa.Function, e elemType, code Val) {
	p := c.P
	id := fmt.Sprintf("%s %s", FnName(f), e.name)
	pos := p.Pos(f.Pos())
	var args []Val
	for _, pr := range f.Params {
		if types.Identical(pr.Type(), code.(*kVal).t) {
			args = append(args, code)
		} else if sl, ok := pr.Type().Underlying().(*types.Slice); ok {
			args = append(args, &slVal{base: "s:raw", n: e.bits / 8, t: sl})
		} else {
			args = append(args, &symVal{"r", pr.Type()})
		}
	}
	outs := ev.Run(f, args, ev.newState())
	c.undecided(ev, "decode", id, f)
	good := 0
	for _, o := range outs {
		if o.dead || len(o.res) != 2 {
			c.Oblige(false, "decode", id, pos, "decoding can panic")
			continue
		}
		if isErr(o.res[1]) {
			continue
		}
		if !isNilVal(o.res[1]) {
			c.Oblige(false, "decode", id, pos, "whether decoding succeeds cannot be determined")
			continue
		}
		good++
		n := 0
		for _, x := range o.st.events {
			if x.kind == "r" || x.kind == "skip" {
				n += x.width
			}
		}
		iv, ok := o.res[0].(*ifVal)
		switch {
		case n != e.bits/8:
			c.Oblige(false, "decode", id, pos, fmt.Sprintf("decoding %s (%#x) reads %d bytes instead of %d", e.name, e.code, n, e.bits/8))
		case !ok:
			c.Oblige(false, "decode", id, pos, fmt.Sprintf("decoding %s (%#x) yields no value", e.name, e.code))
		case !sameBasic(iv.dyn, e.kind):
			c.Oblige(false, "decode", id, pos, fmt.Sprintf("decoding %s (%#x) yields a %s instead of a %s", e.name, e.code, typeString(iv.dyn), e.goType()))
		case !strings.HasPrefix(iv.v.key(), "in(") || !strings.Contains(iv.v.key(), ")@0:"):
			c.Oblige(false, "decode", id, pos, fmt.Sprintf("decoding %s (%#x) yields %s instead of the value read", e.name, e.code, iv.v.key()))
		default:
			c.Oblige(true, "decode", id, pos, "")
		}
	}
	c.Oblige(good > 0, "decode", id+" supported", pos, fmt.Sprintf("%s (%#x) cannot be decoded", e.name, e.code))
}

func (c *Check) zeroOf(ev *Eval, f *ssa.Function, e elemType, code Val) {
	p := c.P
	pos := p.Pos(f.Pos())
	su, _ := f.Params[0].Type().Underlying().(*types.Struct)
	if su == nil {
		return
	}
	for _, many := range []bool{false, true} {
		id := fmt.Sprintf("%s %s", FnName(f), e.name)
		st := ev.newState()
		a := &aggVal{f.Params[0].Type(), map[string]Val{}}
		var n Val
		for i := 0; i < su.NumFields(); i++ {
			ft := su.Field(i).Type()
			var v Val = &symVal{"def." + su.Field(i).Name(), ft}
			switch {
			case types.Identical(ft, code.(*kVal).t):
				v = code
			case su.Field(i).Name() == "Elements":
				n = v
				st.iv[v.key()] = [2]*big.Int{big.NewInt(0), big.NewInt(1)}
				if many {
					st.iv[v.key()] = [2]*big.Int{big.NewInt(2), big.NewInt(65535)}
				}
			}
			a.f[fmt.Sprintf(".%d", i)] = v
		}
		if many {
			id += " slice"
		}
		outs := ev.Run(f, []Val{a}, st)
		c.undecided(ev, "zero", id, f)
		for _, o := range outs {
			if o.dead || len(o.res) != 1 {
				c.Oblige(false, "zero", id, pos, "making a placeholder can panic")
				continue
			}
			iv, ok := o.res[0].(*ifVal)
			if !ok {
				c.Oblige(false, "zero", id, pos, "no placeholder for "+e.name)
				continue
			}
			t := iv.dyn
			if many {
				s, ok := t.(*types.Slice)
				v, isSl := iv.v.(*slVal)
				if !ok || !isSl {
					c.Oblige(false, "zero", id, pos, fmt.Sprintf("the placeholder for several %s is a %s", e.name, typeString(t)))
					continue
				}
				t = s.Elem()
				if n != nil && ev.length(v).key() != n.key() {
					c.Oblige(false, "zero", id, pos, fmt.Sprintf("the placeholder for several %s has %s elements", e.name, ev.length(v).key()))
					continue
				}
			}
			c.Oblige(sameBasic(t, e.kind), "zero", id, pos, fmt.Sprintf("the placeholder for %s (%#x) has type %s instead of %s", e.name, e.code, typeString(iv.dyn), e.goType()))
		}
	}
}

func (c *Check) bitsOfType(ev *Eval, f *ssa.Function, e elemType, code Val) {
	p := c.P
	pos := p.Pos(f.Pos())
	id := fmt.Sprintf("%s %s", FnName(f), e.name)
	if len(f.Params) != 3 {
		c.Oblige(false, "bit", id, pos, "the function no longer takes a code, a value and a bit")
		return
	}
	t := e.goType()
	hasBits := e.kind != types.Float32 && e.kind != types.Float64
	n := e.bits
	if e.kind == types.Bool {
		n = 1
	}
	eval := func(v Val, b int) (res Val, err Val, ok bool) {
		st := ev.newState()
		o, one := ev.only(f, []Val{code, &ifVal{t, v}, kNum(int64(b))}, st)
		if !one || len(o.res) != 2 {
			return nil, nil, false
		}
		return o.res[0], o.res[1], true
	}
	// bit numbers that do not exist
	bad := []int{-1, n, n + 1, 63, 64, 1000}
	if !hasBits {
		bad = []int{-1, 0, 1, 31, 63, 64}
	}
	for _, b := range bad {
		if b >= 0 && b < n && hasBits {
			continue
		}
		_, er, ok := eval(&symVal{"v", t}, b)
		if !ok || !isErr(er) {
			c.Oblige(false, "bit", id, pos, fmt.Sprintf("asking for bit %d of a %s does not fail", b, e.name))
			return
		}
	}
	if !hasBits {
		c.Oblige(true, "bit", id, pos, "")
		return
	}
	mk := func(b int, inv bool) Val {
		if e.kind == types.Bool {
			return &kVal{constant.MakeBool(!inv), t}
		}
		x := new(big.Int).Lsh(big.NewInt(1), uint(b))
		if inv {
			x.Sub(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(e.bits)), big.NewInt(1)), x)
		}
		return ev.convert(ev.newState(), &kVal{constant.Make(x), types.Typ[types.Uint64]}, t)
	}
	for b := 0; b < n; b++ {
		for _, inv := range []bool{false, true} {
			r, er, ok := eval(mk(b, inv), b)
			v, isB := Val(nil), false
			got := false
			if ok {
				v = r
				got, isB = constBool(v)
			}
			switch {
			case !ok || !isB && !isErr(er):
				c.Oblige(false, "bit", id, pos, fmt.Sprintf("bit %d of a %s cannot be determined", b, e.name))
				return
			case isErr(er):
				c.Oblige(false, "bit", id, pos, fmt.Sprintf("bit %d of a decoded %s is refused", b, e.name))
				return
			case got == inv:
				c.Oblige(false, "bit", id, pos, fmt.Sprintf("bit %d of a %s is read as %v when it is %v", b, e.name, got, !inv))
				return
			}
		}
	}
	c.Oblige(true, "bit", id, pos, "")
}

// sigString renders a signature by types alone.
func sigString(s *types.Signature) string {
	q := func(*types.Package) string { return "" }
	var ps, rs []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, types.TypeString(s.Params().At(i).Type(), q))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, types.TypeString(s.Results().At(i).Type(), q))
	}
	r := strings.Join(rs, ", ")
	if len(rs) > 1 {
		r = "(" + r + ")"
	}
	return strings.TrimSpace("func(" + strings.Join(ps, ", ") + ") " + r)
}
