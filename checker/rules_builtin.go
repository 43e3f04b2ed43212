package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C18"] = builtinTypes
	rules["C19"] = stringLengths
}

// C18: Pack and Unpack of each built-in structured type are evaluated with each flag and each control word
// bit on its own, and compared with each other and with the controller's layout.

type layout struct {
	name   string
	handle int
	abbr   string
	fields []string       // in the order of their 4 bytes after the control word
	bits   map[string]int // flags that must be there
	spare  map[string]int // flags the controller does not define; kept or left out
}

var layouts = []layout{
	{"TIMER", 0x0F83, "TIMER,DINT,DINT,DINT", []string{"PRE", "ACC"}, map[string]int{"EN": 31, "TT": 30, "DN": 29}, map[string]int{"FS": 28, "LS": 27, "OV": 26, "ER": 25}},
	{"COUNTER", 0x0F82, "COUNTER,DINT,DINT,DINT", []string{"PRE", "ACC"}, map[string]int{"CU": 31, "CD": 30, "DN": 29, "OV": 28, "UN": 27}, nil},
	{"CONTROL", 0x0F81, "CONTROL,DINT,DINT,DINT", []string{"LEN", "POS"}, map[string]int{"EN": 31, "EU": 30, "DN": 29, "EM": 28, "ER": 27, "UL": 26, "IN": 25, "FD": 24}, nil},
	{"STRING", 0x0FCE, "STRING,DINT,SINT[82]", nil, nil, nil},
}

// writtenTo collects the bytes written to a stream.
func writtenTo(st *evState, on string) ([]Val, bool) {
	var out []Val
	for _, e := range st.events {
		if e.kind == "w" && e.on == on {
			if e.bs == nil && e.width != 0 {
				return nil, false
			}
			out = append(out, e.bs...)
		}
	}
	return out, true
}

func wordOf(bs []Val) (uint32, bool) {
	var w uint32
	for i, b := range bs {
		n, ok := constInt(b)
		if !ok {
			return 0, false
		}
		w |= uint32(n) << uint(8*i)
	}
	return w, true
}

func builtinTypes(c *Check) {
	p := c.P
	ev := NewEval(p)
	ev.Globals(p.Root)
	c.Rule("pack", "packing writes the control word, with exactly the bit of each set flag, and then the values in the controller's order")
	c.Rule("unpack", "unpacking sets each flag to its bit of the control word, whatever it was before, and each value from its own bytes")
	c.Rule("count", "packing and unpacking report the number of bytes of the layout")
	c.Rule("handle", "the type handle and abbreviation of a built-in type are the published ones wherever they are given")
	c.Rule("abbr", "the abbreviation describes the bytes that are packed")
	pk := p.Lgx
	if !c.Anchor(pk != nil, "package lgxtypes") {
		return
	}
	handles := map[int]bool{}
	for _, l := range layouts {
		handles[l.handle] = true
		tn, _ := pk.Pkg.Scope().Lookup(l.name).(*types.TypeName)
		if !c.Anchor(tn != nil, "lgxtypes."+l.name) {
			continue
		}
		t := tn.Type().(*types.Named)
		st, ok := t.Underlying().(*types.Struct)
		if !c.Anchor(ok, "struct lgxtypes."+l.name) {
			continue
		}
		pack, unpack, abbr := ev.method(types.NewPointer(t), "Pack"), ev.method(types.NewPointer(t), "Unpack"), ev.method(t, "TypeAbbr")
		if v := ev.method(t, "Pack"); v != nil {
			pack = v
		}
		if c.Anchor(abbr != nil, l.name+".TypeAbbr") {
			for _, o := range ev.Run(abbr, []Val{zeroVal(t)}, ev.newState()) {
				if len(o.res) != 2 {
					continue
				}
				s, _ := constString(o.res[0])
				h, _ := constInt(o.res[1])
				c.Oblige(h == l.handle && s == l.abbr, "handle", FnName(abbr), p.Pos(abbr.Pos()), fmt.Sprintf("%s is given as %q, handle %#x; it is %q, %#x", l.name, s, h, l.abbr, l.handle))
				n := abbrSize(s)
				want := 4 + 4*len(l.fields)
				if l.fields == nil {
					want = abbrSize(l.abbr)
				}
				c.Oblige(n == want, "abbr", FnName(abbr), p.Pos(abbr.Pos()), fmt.Sprintf("%q describes %d bytes, %d are packed", s, n, want))
			}
			c.undecided(ev, "handle", FnName(abbr), abbr)
		}
		if l.fields == nil {
			// packed field by field
			c.Oblige(fieldsMatch(st, l.abbr), "abbr", "type "+l.name, p.Pos(tn.Pos()), fmt.Sprintf("the fields of %s are not those of %q", l.name, l.abbr))
			continue
		}
		if !c.Anchor(pack != nil && unpack != nil, l.name+" Pack and Unpack") {
			continue
		}
		idx := map[string]int{}
		for i := 0; i < st.NumFields(); i++ {
			idx[st.Field(i).Name()] = i
		}
		names := []string{""}
		for n := range l.bits {
			names = append(names, n)
		}
		for n := range l.spare {
			names = append(names, n)
		}
		sort.Strings(names)
		bit := func(n string) (int, bool, bool) {
			if b, ok := l.bits[n]; ok {
				return b, true, true
			}
			b, ok := l.spare[n]
			return b, false, ok
		}
		size := 4 + 4*len(l.fields)
		keeps := map[string]bool{} // spare flags that are packed
		for _, n := range names {
			if _, has := idx[n]; !has && n != "" {
				_, must, _ := bit(n)
				c.Oblige(!must, "pack", l.name+"."+n, p.Pos(tn.Pos()), fmt.Sprintf("%s has no field for the flag %s", l.name, n))
				continue
			}
			// fields
			s := ev.newState()
			a := &aggVal{t, map[string]Val{}}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				k := "." + fmt.Sprint(i)
				if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					a.f[k] = kBool(f.Name() == n)
				} else {
					a.f[k] = ev.sym("f."+f.Name(), f.Type())
				}
			}
			var recv Val = a
			if _, isP := pack.Params[0].Type().(*types.Pointer); isP {
				ev.store(s, "recv", a)
				recv = &ptrVal{"recv"}
			}
			id := fmt.Sprintf("%s.%s", l.name, firstOf(n, "no flag"))
			done := 0
			for _, o := range ev.Run(pack, []Val{recv, ev.sym("w", pack.Params[1].Type())}, s) {
				if o.dead || len(o.res) != 2 || !isNilVal(o.res[1]) {
					continue
				}
				done++
				bs, ok := writtenTo(o.st, "w")
				if !ok || len(bs) < 4 {
					c.Oblige(false, "pack", id, p.Pos(pack.Pos()), "the bytes written can't be told")
					continue
				}
				w, ok := wordOf(bs[:4])
				var want uint32
				if n != "" {
					b, must, _ := bit(n)
					want = 1 << uint(b)
					if !must && ok && w == 0 {
						want = 0
					} else if !must {
						keeps[n] = true
					}
				}
				c.Oblige(ok && w == want, "pack", id, p.Pos(pack.Pos()), fmt.Sprintf("with %s set the control word is %#08x; it is %#08x on the controller", firstOf(n, "no flag"), w, want))
				good := len(bs) == size
				for i, fn := range l.fields {
					for j := 0; good && j < 4; j++ {
						good = ev.isByteOf(o.st, bs[4+4*i+j], ev.sym("f."+fn, types.Typ[types.Int32]), j)
					}
				}
				c.Oblige(good, "pack", id, p.Pos(pack.Pos()), fmt.Sprintf("after the control word %s are not written as 4 bytes each, in this order", strings.Join(l.fields, ", ")))
				nn, ok := constInt(o.res[0])
				c.Oblige(ok && nn == size, "count", id, p.Pos(pack.Pos()), fmt.Sprintf("packing reports %s bytes, there are %d", o.res[0].key(), size))
			}
			c.Oblige(done > 0 || ev.bad != "", "pack", id, p.Pos(pack.Pos()), "packing never succeeds")
			c.undecided(ev, "pack", id, pack)
		}
		// decoding
		for b := -1; b < 32; b++ {
			s := ev.newState()
			var w uint32
			if b >= 0 {
				w = 1 << uint(b)
			}
			s.mem["in(r)@0:4"] = &kVal{constant.MakeUint64(uint64(w)), types.Typ[types.Uint32]}
			for i := 0; i < 4; i++ {
				s.mem[fmt.Sprintf("in(r)@%d:1", i)] = &kVal{constant.MakeUint64(uint64(w >> uint(8*i) & 255)), types.Typ[types.Byte]}
			}
			id := fmt.Sprintf("%s bit %d", l.name, b)
			done := 0
			for _, o := range ev.Run(unpack, []Val{&ptrVal{"dst"}, ev.sym("r", unpack.Params[1].Type())}, s) {
				if o.dead || len(o.res) != 2 || !isNilVal(o.res[1]) {
					continue
				}
				done++
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					v := ev.load(o.st, fmt.Sprintf("dst.%d", i), f.Type())
					if fb, must, ok := bit(f.Name()); ok {
						got, known := constBool(v)
						if !must && !known && !keeps[f.Name()] {
							continue // neither packed nor unpacked
						}
						c.Oblige(known && got == (fb == b), "unpack", id, p.Pos(unpack.Pos()), fmt.Sprintf("from a control word of %#08x %s becomes %s", w, f.Name(), v.key()))
						if !must && known && got {
							c.Oblige(keeps[f.Name()], "unpack", id, p.Pos(unpack.Pos()), fmt.Sprintf("%s is unpacked but never packed", f.Name()))
						}
						continue
					}
					for j, fn := range l.fields {
						if fn == f.Name() {
							c.Oblige(isInput(v, "r", 4+4*j, 4), "unpack", id, p.Pos(unpack.Pos()), fmt.Sprintf("%s is %s, not the 4 bytes at %d", fn, v.key(), 4+4*j))
						}
					}
				}
				c.Oblige(o.st.pos("r") == size, "unpack", id, p.Pos(unpack.Pos()), fmt.Sprintf("unpacking consumes %d bytes of %d", o.st.pos("r"), size))
				nn, ok := constInt(o.res[0])
				c.Oblige(ok && nn == size, "count", id, p.Pos(unpack.Pos()), fmt.Sprintf("unpacking reports %s bytes, there are %d", o.res[0].key(), size))
			}
			c.Oblige(done > 0 || ev.bad != "", "unpack", id, p.Pos(unpack.Pos()), "unpacking never succeeds")
			c.undecided(ev, "unpack", id, unpack)
		}
	}
	c.handleSites(handles)
	c.Floor("pack", 14)
	c.Floor("unpack", 60)
	c.Floor("handle", 5)
}

// abbrSize is the number of bytes a type abbreviation describes.
func abbrSize(s string) int {
	parts := strings.Split(s, ",")
	n := 0
	for _, t := range parts[1:] {
		k := 1
		if i := strings.IndexByte(t, '['); i >= 0 {
			fmt.Sscanf(t[i:], "[%d]", &k)
			t = t[:i]
		}
		w := map[string]int{"SINT": 1, "INT": 2, "DINT": 4, "LINT": 8, "REAL": 4, "LREAL": 8, "USINT": 1, "UINT": 2, "UDINT": 4, "ULINT": 8}[t]
		if w == 0 {
			return -1
		}
		n += w * k
	}
	return n
}

func fieldsMatch(st *types.Struct, abbr string) bool {
	parts := strings.Split(abbr, ",")[1:]
	if len(parts) != st.NumFields() {
		return false
	}
	for i, t := range parts {
		k := -1
		if j := strings.IndexByte(t, '['); j >= 0 {
			fmt.Sscanf(t[j:], "[%d]", &k)
			t = t[:j]
		}
		ft := st.Field(i).Type().Underlying()
		if k >= 0 {
			a, ok := ft.(*types.Array)
			if !ok || int(a.Len()) != k {
				return false
			}
			ft = a.Elem().Underlying()
		}
		b, ok := ft.(*types.Basic)
		if !ok {
			return false
		}
		switch t {
		case "SINT":
			ok = b.Kind() == types.Int8 || b.Kind() == types.Uint8
		case "DINT":
			ok = b.Kind() == types.Int32 || b.Kind() == types.Uint32
		default:
			ok = false
		}
		if !ok {
			return false
		}
	}
	return true
}

// handleSites looks at every structured type marker (0xA0 0x02 and a handle) put together from constants
// and every comparison with a constant in the range of these handles.
func (c *Check) handleSites(handles map[int]bool) {
	p := c.P
	isHandle := func(n int) bool { return n&0xFF00 == 0x0F00 }
	for _, f := range p.SrcFuncs(p.Root, p.L5x, p.Canned) {
		bytesAt := map[ssa.Value]map[int]int{}
		put := func(base ssa.Value, i, n int) {
			if bytesAt[base] == nil {
				bytesAt[base] = map[int]int{}
			}
			bytesAt[base][i] = n
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						i, ok1 := ssaInt(ia.Index)
						n, ok2 := ssaInt(x.Val)
						if ok1 && ok2 && width(deref(ia.Type())) == 1 {
							put(sliceRoot(ia.X), i, n)
						}
					}
				case *ssa.Call:
					if g := x.Common().StaticCallee(); g != nil && g.Name() == "PutUint16" && fnPkg(g) == "encoding/binary" && len(x.Common().Args) == 3 {
						n, ok := ssaInt(x.Common().Args[2])
						root, off, ok2 := sliceOff(x.Common().Args[1])
						if ok && ok2 {
							put(root, off, n&255)
							put(root, off+1, n>>8)
						}
					}
				case *ssa.BinOp:
					if x.Op != token.EQL && x.Op != token.NEQ {
						continue
					}
					for _, o := range []ssa.Value{x.X, x.Y} {
						if n, ok := ssaInt(o); ok && bitsOf(o.Type()) == 16 && isHandle(n) {
							c.Oblige(handles[n], "handle", FnName(f)+" compares", p.Pos(x.Pos()), fmt.Sprintf("%#x is compared with a type handle; no built-in type has it", n))
						}
					}
				}
			}
		}
		for base, m := range bytesAt {
			for i, n := range m {
				if n == 0xA0 && m[i+1] == 0x02 {
					lo, ok1 := m[i+2]
					hi, ok2 := m[i+3]
					if !ok1 || !ok2 {
						continue
					}
					h := hi<<8 | lo
					c.Oblige(handles[h], "handle", FnName(f)+" marks", p.Pos(base.Pos()), fmt.Sprintf("values are marked with type handle %#x; no built-in type has it", h))
					c.Oblige(h == 0x0FCE, "handle", FnName(f)+" marks", p.Pos(base.Pos()), fmt.Sprintf("strings are marked with type handle %#x instead of 0xfce", h))
				}
			}
		}
	}
}

func ssaInt(v ssa.Value) (int, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(k.Value)
	return int(n), ok
}

func sliceRoot(v ssa.Value) ssa.Value {
	r, _, _ := sliceOff(v)
	return r
}

// sliceOff is the array or slice a value is a part of, and at which constant offset.
func sliceOff(v ssa.Value) (ssa.Value, int, bool) {
	off, ok := 0, true
	for {
		s, is := v.(*ssa.Slice)
		if !is {
			return v, off, ok
		}
		if s.Low != nil {
			n, k := ssaInt(s.Low)
			off += n
			ok = ok && k
		}
		v = s.X
	}
}

// C19: every string encoder is evaluated on a string of arbitrary length.

func stringLengths(c *Check) {
	p := c.P
	ev := NewEval(p)
	ev.Globals(p.Root)
	ev.limit = 3000000
	c.Rule("length", "the length written with a string is its length, or the number of its bytes that are sent when it is cut")
	str := types.Typ[types.String]
	lim := func(st *evState, names ...string) {
		for _, n := range names {
			st.iv[(&exprVal{"len", ev.sym(n, str), nil, types.Typ[types.Int]}).key()] = [2]*big.Int{big.NewInt(0), big.NewInt(1<<31 - 1)}
		}
	}
	// checkSlots: prefix bytes, then for each string a 4 byte length and the characters
	checkSlots := func(id string, f *ssa.Function, st *evState, bs []piece, names []string, skip int) {
		if len(bs) < skip {
			c.Oblige(false, "length", id, p.Pos(f.Pos()), "the marker is missing")
			return
		}
		bs = bs[skip:]
		for _, n := range names {
			v := ev.sym(n, str)
			if len(bs) < 4 || bs[3].b == nil {
				c.Oblige(false, "length", id, p.Pos(f.Pos()), "there is no length of 4 bytes before the characters")
				return
			}
			// the length
			ln := ev.length(v)
			var L Val
			if w, ok := wordOf([]Val{bs[0].b, bs[1].b, bs[2].b, bs[3].b}); ok {
				L = kNum(int64(w))
			} else {
				ok := true
				for i := 0; i < 4; i++ {
					ok = ok && bs[i].b != nil && ev.isByteOf(st, bs[i].b, ln, i)
				}
				if ok {
					L = ln
				} else {
					e, is := bs[0].b.(*exprVal)
					if is && (e.op == "byte0" || e.op == "conv") {
						L = e.x
					} else {
						L = bs[0].b
					}
				}
			}
			bs = bs[4:]
			var room Val
			chars := 0
			if len(bs) > 0 && bs[0].all != nil {
				room = ev.length(bs[0].all)
				bs = bs[1:]
			} else {
				for chars < len(bs) && bs[chars].b != nil {
					e, ok := bs[chars].b.(*exprVal)
					if !ok || e.op != fmt.Sprintf("byte%d", chars) || !strings.Contains(e.x.key(), n) {
						break
					}
					chars++
				}
				room = kNum(int64(chars))
				bs = bs[chars:]
			}
			_, lh, ok1 := ev.interval(st, L)
			rl, _, ok2 := ev.interval(st, room)
			fits := ok1 && ok2 && lh.Cmp(rl) <= 0 || ev.sameVal(st, L, room)
			c.Oblige(fits, "length", id, p.Pos(f.Pos()), fmt.Sprintf("a length of up to %v is written with %s characters", lh, room.key()))
			_, sl, ok3 := ev.interval(st, ln)
			ll, _, _ := ev.interval(st, ln)
			_ = sl
			isLen := ev.sameVal(st, L, ln)
			cut := ok1 && ok3 && lh.Cmp(ll) <= 0
			L2 := L
			for {
				e, ok := L2.(*exprVal)
				if !ok || e.op != "conv" {
					break
				}
				L2 = e.x
			}
			if e, ok := L2.(*exprVal); ok && e.op == "min" {
				cut = cut || ev.sameVal(st, e.x, ln) || ev.sameVal(st, e.y, ln)
			}
			c.Oblige(isLen || cut, "length", id, p.Pos(f.Pos()), fmt.Sprintf("the length written (%s) can exceed the string's", L.key()))
			// the rest of the slot
			for len(bs) > 0 && bs[0].b != nil {
				if k, ok := constInt(bs[0].b); !ok || k != 0 {
					break
				}
				bs = bs[1:]
			}
		}
	}
	done := map[*ssa.Function]bool{}
	if f := p.Func("Serialize"); c.Anchor(f != nil, "Serialize") {
		done[f] = true
		st := ev.newState()
		lim(st, "s0")
		st.mem["zargs[0]"] = &ifVal{str, ev.sym("s0", str)}
		n := 0
		for _, o := range ev.Run(f, []Val{&slVal{base: "zargs", n: 1, t: f.Params[0].Type()}}, st) {
			if o.dead || len(o.res) != 2 || !isNilVal(o.res[1]) {
				continue
			}
			if ptr, ok := o.res[0].(*ptrVal); ok {
				n++
				checkSlots(FnName(f), f, o.st, ev.flatten(o.st, o.st.mem[ptr.at+"#buf"]), []string{"s0"}, 0)
			}
		}
		c.Oblige(n > 0 || ev.bad != "", "length", FnName(f), p.Pos(f.Pos()), "no string is ever encoded")
		c.undecided(ev, "length", FnName(f), f)
	}
	if f := p.Method("CIPItem", "Serialize"); c.Anchor(f != nil, "CIPItem.Serialize") {
		done[f] = true
		it := p.Named("CIPItem")
		data := fieldIndex(it, "Data")
		for _, names := range [][]string{{"s0"}, {"s0", "s1"}} {
			st := ev.newState()
			lim(st, names...)
			ev.store(st, "zitem", zeroVal(it))
			st.mem[fmt.Sprintf("zitem.%d", data)] = &slVal{base: "zdata", n: 0, t: types.NewSlice(types.Typ[types.Byte])}
			if len(names) == 1 {
				st.mem["zargs[0]"] = &ifVal{str, ev.sym("s0", str)}
			} else {
				for i, n := range names {
					st.mem[fmt.Sprintf("zstrs[%d]", i)] = ev.sym(n, str)
				}
				st.mem["zargs[0]"] = &ifVal{types.NewSlice(str), &slVal{base: "zstrs", n: len(names), t: types.NewSlice(str)}}
			}
			id := fmt.Sprintf("%s %d", FnName(f), len(names))
			n := 0
			for _, o := range ev.Run(f, []Val{&ptrVal{"zitem"}, &slVal{base: "zargs", n: 1, t: f.Params[1].Type()}}, st) {
				if o.dead || len(o.res) != 1 || !isNilVal(o.res[0]) {
					continue
				}
				n++
				checkSlots(id, f, o.st, ev.flatten(o.st, ev.load(o.st, fmt.Sprintf("zitem.%d", data), types.NewSlice(types.Typ[types.Byte]))), names, 0)
			}
			c.Oblige(n > 0 || ev.bad != "", "length", id, p.Pos(f.Pos()), "no string is ever encoded")
			c.undecided(ev, "length", id, f)
		}
	}
	// string types with their own encoding
	for _, pk := range []*ssa.Package{p.Root, p.Lgx, p.L5x, p.Canned} {
		if pk == nil {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || !isString(tn.Type()) {
				continue
			}
			f := ev.method(tn.Type(), "Bytes")
			if f == nil || !p.InLib(f) || sigString(f.Signature) != "func() []byte" {
				continue
			}
			done[f] = true
			st := ev.newState()
			lim(st, "s0")
			for _, o := range ev.Run(f, []Val{ev.sym("s0", tn.Type())}, st) {
				if o.dead || len(o.res) != 1 {
					continue
				}
				bs := ev.flatten(o.st, o.res[0])
				skip := 0
				if len(bs) > 1 {
					if k, ok := constIntOr(bs[0].b); ok && k == 0xA0 {
						skip = 4
					}
				}
				checkSlots(FnName(f), f, o.st, bs, []string{"s0"}, skip)
			}
			c.undecided(ev, "length", FnName(f), f)
		}
	}
	c.Floor("length", 2)
}

func fieldIndex(t *types.Named, name string) int {
	if t == nil {
		return -1
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}
