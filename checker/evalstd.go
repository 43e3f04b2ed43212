package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the interpreter knows of the standard library: encoding/binary, bytes.Buffer, errors and the few
// functions the encoders and decoders use. Everything else yields unknown values.

func kNum(n int64) Val { return &kVal{constant.MakeInt64(n), types.Typ[types.Int]} }
func kBool(b bool) Val { return &kVal{constant.MakeBool(b), types.Typ[types.Bool]} }
func nilErr() Val      { return &kVal{nil, types.Universe.Lookup("error").Type()} }
func isErr(v Val) bool { return nonNilVal(v) && !isNilVal(v) }
func (ev *Eval) newErr() Val {
	ev.nsym++
	return &exprVal{"newerr", &symVal{fmt.Sprintf("e%d", ev.nsym), nil}, nil, types.Universe.Lookup("error").Type()}
}

// width is the number of bytes encoding/binary uses for a type, or -1.
func width(t types.Type) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr) {
		return -1
	}
	if n := int(fixedSize(t)); n > 0 {
		return n
	}
	return -1
}

func fnPkg(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// bytesOf splits a value of fixed size into its bytes, little end first unless big.
func (ev *Eval) bytesOf(st *evState, v Val, t types.Type, big_ bool) ([]Val, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w := width(t)
		if w <= 0 {
			return nil, false
		}
		out := make([]Val, w)
		for i := range out {
			n := i
			if big_ {
				n = w - 1 - i
			}
			out[i] = ev.byteOf(st, v, n, w, t)
		}
		return out, true
	case *types.Struct:
		var out []Val
		for i := 0; i < u.NumFields(); i++ {
			k := fmt.Sprintf(".%d", i)
			var x Val
			if a, ok := v.(*aggVal); ok {
				x = a.f[k]
			}
			if x == nil {
				x = &exprVal{"part" + k, v, nil, u.Field(i).Type()}
			}
			bs, ok := ev.bytesOf(st, x, u.Field(i).Type(), big_)
			if !ok {
				return nil, false
			}
			out = append(out, bs...)
		}
		return out, true
	case *types.Array:
		if u.Len() > 4096 {
			return nil, false
		}
		var out []Val
		for i := 0; i < int(u.Len()); i++ {
			k := fmt.Sprintf("[%d]", i)
			var x Val
			if a, ok := v.(*aggVal); ok {
				x = a.f[k]
			}
			if x == nil {
				x = &exprVal{"part" + k, v, nil, u.Elem()}
			}
			bs, ok := ev.bytesOf(st, x, u.Elem(), big_)
			if !ok {
				return nil, false
			}
			out = append(out, bs...)
		}
		return out, true
	case *types.Slice:
		s, ok := v.(*slVal)
		if !ok && isNilVal(v) {
			return nil, true
		}
		if !ok || s.symLen != nil {
			return nil, false
		}
		var out []Val
		for i := 0; i < s.n; i++ {
			bs, ok := ev.bytesOf(st, ev.load(st, fmt.Sprintf("%s[%d]", s.base, s.off+i), u.Elem()), u.Elem(), big_)
			if !ok {
				return nil, false
			}
			out = append(out, bs...)
		}
		return out, true
	case *types.Pointer:
		if p, ok := v.(*ptrVal); ok {
			return ev.bytesOf(st, ev.load(st, p.at, u.Elem()), u.Elem(), big_)
		}
	}
	return nil, false
}

// byteOf is byte n (from the little end) of a w byte value.
func (ev *Eval) byteOf(st *evState, v Val, n, w int, t types.Type) Val {
	bt := types.Typ[types.Byte]
	if k, ok := v.(*kVal); ok && k.v != nil {
		if k.v.Kind() == constant.Bool {
			if constant.BoolVal(k.v) {
				return &kVal{constant.MakeInt64(1), bt}
			}
			return &kVal{constant.MakeInt64(0), bt}
		}
		if b, ok := bigOf(constant.ToInt(k.v)); ok && isIntType(t) {
			x := new(big.Int).Set(b)
			if x.Sign() < 0 {
				x.Add(x, new(big.Int).Lsh(big.NewInt(1), uint(8*w)))
			}
			x.Rsh(x, uint(8*n))
			x.And(x, big.NewInt(255))
			return &kVal{constant.Make(x), bt}
		}
	}
	if w == 1 {
		return ev.convert(st, v, bt)
	}
	// the value may itself fit in fewer bytes
	if l, h, ok := ev.interval(st, v); ok && l.Sign() >= 0 && isIntType(t) {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n))
		if h.Cmp(lim) < 0 && n > 0 {
			return &kVal{constant.MakeInt64(0), bt}
		}
		if n == 0 && h.Cmp(big.NewInt(255)) <= 0 {
			return v
		}
	}
	return &exprVal{fmt.Sprintf("byte%d", n), v, nil, bt}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// joinBytes puts bytes back together: the value they were split from when they are all its bytes.
func (ev *Eval) joinBytes(st *evState, bs []Val, t types.Type) Val {
	var src Val
	all := true
	sum := new(big.Int)
	for i, b := range bs {
		if k, ok := b.(*kVal); ok && k.v != nil {
			if n, ok := bigOf(k.v); ok {
				sum.Or(sum, new(big.Int).Lsh(n, uint(8*i)))
				continue
			}
		}
		all = false
		if e, ok := b.(*exprVal); ok && e.op == fmt.Sprintf("byte%d", i) {
			if src == nil && i == 0 {
				src = e.x
				continue
			}
			if src != nil && src.key() == e.x.key() {
				continue
			}
		}
		src = nil
		break
	}
	if all {
		return ev.convert(st, &kVal{constant.Make(sum), types.Typ[types.Uint64]}, t)
	}
	if src != nil {
		return ev.convert(st, src, t)
	}
	if v := joinInput(bs); v != nil {
		return ev.convert(st, v, t)
	}
	a := &aggVal{t, map[string]Val{}}
	for i, b := range bs {
		a.f[fmt.Sprintf("[%d]", i)] = b
	}
	return &exprVal{"join", a, nil, t}
}

// joinInput: consecutive bytes of one input, read as one little-endian number.
func joinInput(bs []Val) Val {
	on, at := "", -1
	for i, b := range bs {
		m := inByte.FindStringSubmatch(b.key())
		if m == nil || m[3] != "1" {
			return nil
		}
		n, _ := strconv.Atoi(m[2])
		switch {
		case i == 0:
			on, at = m[1], n
		case m[1] != on || n != at+i:
			return nil
		}
	}
	t := map[int]types.Type{1: types.Typ[types.Uint8], 2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[len(bs)]
	if t == nil {
		return nil
	}
	return &symVal{fmt.Sprintf("in(%s)@%d:%d", on, at, len(bs)), t}
}

func (ev *Eval) mkBytes(st *evState, bs []Val) *slVal {
	*st.nobj++
	base := fmt.Sprintf("z%d", *st.nobj)
	for i, b := range bs {
		st.mem[fmt.Sprintf("%s[%d]", base, i)] = b
	}
	return &slVal{base: base, n: len(bs), t: types.NewSlice(types.Typ[types.Byte])}
}

func (ev *Eval) sliceBytes(st *evState, v Val) ([]Val, bool) {
	switch s := v.(type) {
	case *slVal:
		if s.symLen != nil {
			return nil, false
		}
		var out []Val
		for i := 0; i < s.n; i++ {
			out = append(out, ev.load(st, fmt.Sprintf("%s[%d]", s.base, s.off+i), types.Typ[types.Byte]))
		}
		return out, true
	case *kVal:
		if s.v == nil {
			return nil, true
		}
		if s.v.Kind() == constant.String {
			var out []Val
			for _, c := range []byte(constant.StringVal(s.v)) {
				out = append(out, &kVal{constant.MakeInt64(int64(c)), types.Typ[types.Byte]})
			}
			return out, true
		}
	}
	return nil, false
}

// streamName names what bytes are written to or read from.
func streamName(v Val) string {
	switch x := v.(type) {
	case *ifVal:
		return streamName(x.v)
	case *ptrVal:
		return x.at
	}
	return v.key()
}

// pos is how many bytes have been read from a stream so far, -1 if unknown.
func (s *evState) pos(on string) int {
	n := 0
	for _, e := range s.events {
		if e.on == on && (e.kind == "r" || e.kind == "skip") {
			if e.width < 0 {
				return -1
			}
			n += e.width
		}
	}
	return n
}

// input gives the value read from a stream at its present position.
func (ev *Eval) input(st *evState, on string, t types.Type, off *int) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &aggVal{t, map[string]Val{}}
		for i := 0; i < u.NumFields(); i++ {
			a.f[fmt.Sprintf(".%d", i)] = ev.input(st, on, u.Field(i).Type(), off)
		}
		return a
	case *types.Array:
		a := &aggVal{t, map[string]Val{}}
		for i := 0; i < int(u.Len()) && u.Len() <= 512; i++ {
			a.f[fmt.Sprintf("[%d]", i)] = ev.input(st, on, u.Elem(), off)
		}
		return a
	}
	w := width(t)
	if *off < 0 || w < 0 {
		*off = -1
		return ev.unk(t)
	}
	v := &symVal{fmt.Sprintf("in(%s)@%d:%d", on, *off, w), t}
	*off += w
	if k, ok := st.mem[v.name]; ok {
		return ev.convert(st, k, t)
	}
	return v
}

// readInto models filling memory from a stream.
func (ev *Eval) readInto(st *evState, on string, dst Val, dt types.Type, posn token.Pos, order string) []evOut {
	bad := st.clone()
	if iv, ok := dst.(*ifVal); ok {
		dst, dt = iv.v, iv.dyn
	}
	off := st.pos(on)
	switch d := dst.(type) {
	case *ptrVal:
		et := deref(dt)
		if sl, ok := et.Underlying().(*types.Slice); ok {
			v := ev.load(st, d.at, et)
			if s, ok := v.(*slVal); ok && s.symLen == nil {
				o := off
				for i := 0; i < s.n; i++ {
					ev.store(st, fmt.Sprintf("%s[%d]", s.base, s.off+i), ev.input(st, on, sl.Elem(), &o))
				}
				w := -1
				if width(sl.Elem()) > 0 {
					w = width(sl.Elem()) * s.n
				}
				st.events = append(st.events, evEvent{kind: "r", on: on, width: w, dst: et, pos: posn, order: order})
			} else {
				st.events = append(st.events, evEvent{kind: "r", on: on, width: -1, v: ev.length(v), dst: et, pos: posn, order: order})
			}
			break
		}
		o := off
		v := ev.input(st, on, et, &o)
		ev.store(st, d.at, v)
		st.events = append(st.events, evEvent{kind: "r", on: on, width: width(et), v: v, dst: et, pos: posn, order: order})
		ev.havocPath(bad, d.at, et)
	case *slVal:
		if d.symLen == nil {
			o := off
			for i := 0; i < d.n; i++ {
				ev.store(st, fmt.Sprintf("%s[%d]", d.base, d.off+i), ev.input(st, on, elemOf(d.t), &o))
			}
			w := -1
			if width(elemOf(d.t)) > 0 {
				w = width(elemOf(d.t)) * d.n
			}
			st.events = append(st.events, evEvent{kind: "r", on: on, width: w, dst: d.t, pos: posn, order: order})
		} else {
			st.events = append(st.events, evEvent{kind: "r", on: on, width: -1, v: d.symLen, dst: d.t, pos: posn, order: order})
		}
	default:
		ev.havoc(st, dst)
		st.events = append(st.events, evEvent{kind: "r", on: on, width: -1, pos: posn, order: order})
	}
	return []evOut{{st: st, res: []Val{nilErr()}}, {st: bad, res: []Val{ev.newErr()}}}
}

func (ev *Eval) havocPath(st *evState, at string, t types.Type) {
	ev.store(st, at, ev.unk(t))
}

func orderName(v Val) string {
	if iv, ok := v.(*ifVal); ok {
		s := typeString(iv.dyn)
		switch {
		case strings.Contains(s, "littleEndian"):
			return "little"
		case strings.Contains(s, "bigEndian"):
			return "big"
		}
	}
	return "?"
}

// writeTo hands bytes to a writer. bs nil: contents unknown, v and n (a length) describe them.
func (ev *Eval) writeTo(st *evState, w Val, bs []Val, known bool, e evEvent, d int) []evOut {
	var wt types.Type
	wv := w
	if iv, ok := w.(*ifVal); ok {
		wt, wv = iv.dyn, iv.v
	}
	if wt != nil {
		if strings.HasSuffix(typeString(wt), "bytes.Buffer") {
			if p, ok := wv.(*ptrVal); ok {
				ev.bufAppend(st, p.at, bs, known, e)
				return []evOut{{st: st, res: []Val{nilErr()}}}
			}
		}
		if m := ev.method(wt, "Write"); m != nil && ev.p.InLib(m) && len(m.Blocks) > 0 && known {
			outs := ev.run(m, []Val{wv, ev.mkBytes(st, bs)}, nil, st, d+1)
			var r []evOut
			for _, o := range outs {
				if o.dead || len(o.res) != 2 {
					continue
				}
				r = append(r, evOut{st: o.st, res: []Val{o.res[1]}})
			}
			return r
		}
	}
	bad := st.clone()
	e.kind, e.on = "w", streamName(w)
	if known {
		e.width, e.bs = len(bs), bs
	}
	st.events = append(st.events, e)
	return []evOut{{st: st, res: []Val{nilErr()}}, {st: bad, res: []Val{ev.newErr()}}}
}

func (ev *Eval) method(t types.Type, name string) *ssa.Function {
	ms := ev.p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ev.p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// a bytes.Buffer's contents live beside it in memory
func (ev *Eval) bufAppend(st *evState, at string, bs []Val, known bool, e evEvent) {
	cur, ok := st.mem[at+"#buf"].(*slVal)
	if !ok {
		cur = ev.mkBytes(st, nil)
		if _, has := st.mem[at+"#buf"]; has || !strings.HasPrefix(at, "z") {
			st.mem[at+"#buf"] = ev.unk(nil)
			return
		}
	}
	if !known || cur.symLen != nil {
		var n Val = e.v
		if known {
			n = kNum(int64(len(bs)))
		}
		if e.kind == "len" || known {
			*st.nobj++
			s := &slVal{base: fmt.Sprintf("u%d", *st.nobj), symLen: ev.binop(st, token.ADD, ev.length(cur), n, types.Typ[types.Int]), t: cur.t}
			var add Val = e.whole
			if known {
				add = ev.mkBytes(st, bs)
			}
			if add != nil {
				s.contents = &exprVal{"cat", cur, add, cur.t}
			}
			st.mem[at+"#buf"] = s
			return
		}
		st.mem[at+"#buf"] = ev.unk(nil)
		return
	}
	old, _ := ev.sliceBytes(st, cur)
	st.mem[at+"#buf"] = ev.mkBytes(st, append(append([]Val(nil), old...), bs...))
}

func (ev *Eval) std(st *evState, f *ssa.Function, cm *ssa.CallCommon, args []Val, x *ssa.Call, d int) ([]evOut, bool) {
	pk := fnPkg(f)
	name := f.Name()
	one := func(vs ...Val) ([]evOut, bool) { return []evOut{{st: st, res: vs}}, true }
	recv := ""
	if f.Signature.Recv() != nil {
		recv = typeString(f.Signature.Recv().Type())
	}
	switch pk {
	case "encoding/binary":
		big_ := strings.Contains(recv, "bigEndian")
		switch {
		case name == "Write" && recv == "" && len(args) == 3:
			var t types.Type
			v := args[2]
			if iv, ok := v.(*ifVal); ok {
				t, v = iv.dyn, iv.v
			}
			if t == nil {
				return ev.writeTo(st, args[0], nil, false, evEvent{v: v, width: -1, order: orderName(args[1]), pos: x.Pos()}, d), true
			}
			bs, known := ev.bytesOf(st, v, t, orderName(args[1]) == "big")
			if p, ok := v.(*ptrVal); ok {
				t = deref(t)
				v = ev.load(st, p.at, t)
			}
			w := width(t)
			e := evEvent{v: v, width: w, order: orderName(args[1]), dst: t, pos: x.Pos()}
			if _, isSl := t.Underlying().(*types.Slice); isSl && !known {
				e.width = -1
			}
			return ev.writeTo(st, args[0], bs, known, e, d), true
		case name == "Read" && recv == "" && len(args) == 3:
			return ev.readInto(st, streamName(args[0]), args[2], nil, x.Pos(), orderName(args[1])), true
		case strings.HasPrefix(name, "PutUint") && recv != "" && len(args) == 3:
			w := bitsOf(f.Signature.Params().At(1).Type()) / 8
			bs, _ := ev.bytesOf(st, args[2], f.Signature.Params().At(1).Type(), big_)
			if s, ok := args[1].(*slVal); ok {
				if s.symLen == nil && s.n < w {
					return []evOut{{st: st, dead: true}}, true
				}
				if s.symLen == nil {
					for i, b := range bs {
						ev.store(st, fmt.Sprintf("%s[%d]", s.base, s.off+i), b)
					}
				}
			}
			return one()
		case strings.HasPrefix(name, "AppendUint") && recv != "" && len(args) == 3:
			bs, _ := ev.bytesOf(st, args[2], f.Signature.Params().At(1).Type(), big_)
			return one(ev.builtin(st, "append", []Val{args[1], ev.mkBytes(st, bs)}, f.Signature.Results().At(0).Type()))
		case strings.HasPrefix(name, "Uint") && recv != "" && len(args) == 2:
			t := f.Signature.Results().At(0).Type()
			w := bitsOf(t) / 8
			if s, ok := args[1].(*slVal); ok && s.symLen == nil {
				if s.n < w {
					return []evOut{{st: st, dead: true}}, true
				}
				var bs []Val
				for i := 0; i < w; i++ {
					n := i
					if big_ {
						n = w - 1 - i
					}
					bs = append(bs, ev.load(st, fmt.Sprintf("%s[%d]", s.base, s.off+n), types.Typ[types.Byte]))
				}
				return one(ev.joinBytes(st, bs, t))
			}
			return one(&exprVal{fmt.Sprintf("le%d", w), args[1], nil, t})
		case name == "Size" && len(args) == 1:
			if iv, ok := args[0].(*ifVal); ok {
				w := width(iv.dyn)
				if w > 0 {
					return one(kNum(int64(w)))
				}
			}
		}
	case "fmt":
		switch name {
		case "Errorf":
			return one(ev.newErr())
		case "Sprintf", "Sprint", "Sprintln":
			return one(ev.sprintf(st, args, x.Type()))
		}
	case "strconv":
		if (name == "Itoa" || name == "FormatInt" || name == "FormatUint") && len(args) > 0 {
			return one(&exprVal{"sprintf", args[0], nil, x.Type()})
		}
	case "errors":
		if name == "New" {
			return one(ev.newErr())
		}
	case "io":
		switch name {
		case "CopyN":
			if len(args) == 3 {
				bad := st.clone()
				n, ok := constInt(args[2])
				if !ok {
					n = -1
				}
				st.events = append(st.events, evEvent{kind: "skip", on: streamName(args[1]), width: n, v: args[2], pos: x.Pos()})
				return []evOut{{st: st, res: []Val{args[2], nilErr()}}, {st: bad, res: []Val{ev.unk(types.Typ[types.Int64]), ev.newErr()}}}, true
			}
		case "ReadFull":
			if len(args) == 2 {
				outs := ev.readInto(st, streamName(args[0]), args[1], nil, x.Pos(), "")
				for i := range outs {
					outs[i].res = []Val{ev.length(args[1]), outs[i].res[0]}
				}
				return outs, true
			}
		}
	case "math":
		if len(args) == 1 && x.Type() != nil {
			return one(&exprVal{"math." + name, args[0], nil, x.Type()})
		}
	case "bytes":
		switch {
		case name == "NewBuffer" || name == "NewReader" || name == "NewBufferString":
			*st.nobj++
			at := fmt.Sprintf("z%d", *st.nobj)
			if s, ok := args[0].(*slVal); ok {
				st.mem[at+"#buf"] = s
			}
			return one(&ptrVal{at})
		case strings.HasSuffix(recv, "bytes.Buffer"):
			p, ok := args[0].(*ptrVal)
			if !ok {
				return nil, false
			}
			switch name {
			case "Write", "WriteString":
				bs, known := ev.sliceBytes(st, args[1])
				ev.bufAppend(st, p.at, bs, known, evEvent{kind: "len", v: ev.length(args[1]), whole: args[1]})
				return one(ev.length(args[1]), nilErr())
			case "WriteByte":
				ev.bufAppend(st, p.at, []Val{args[1]}, true, evEvent{})
				return one(nilErr())
			case "Bytes":
				if s, ok := st.mem[p.at+"#buf"]; ok {
					return one(s)
				}
				if strings.HasPrefix(p.at, "z") {
					return one(&kVal{nil, x.Type()})
				}
			case "Len":
				if s, ok := st.mem[p.at+"#buf"].(*slVal); ok {
					return one(ev.length(s))
				}
				if _, has := st.mem[p.at+"#buf"]; !has && strings.HasPrefix(p.at, "z") {
					return one(kNum(0))
				}
			}
		}
	}
	return nil, false
}

func (ev *Eval) sprintf(st *evState, args []Val, t types.Type) Val {
	if len(args) == 0 {
		return ev.unk(t)
	}
	a := &aggVal{t, map[string]Val{}}
	if len(args) > 1 {
		if s, ok := args[1].(*slVal); ok && s.symLen == nil {
			for i := 0; i < s.n; i++ {
				a.f[fmt.Sprintf("[%d]", i)] = ev.load(st, fmt.Sprintf("%s[%d]", s.base, s.off+i), elemOf(s.t))
			}
		}
	}
	if len(a.f) == 0 {
		if k, ok := args[0].(*kVal); ok {
			return k
		}
	}
	// constants are formatted, unless a method of theirs would be called
	if k, ok := args[0].(*kVal); ok && k.v != nil && k.v.Kind() == constant.String {
		f := constant.StringVal(k.v)
		var goArgs []any
		fine := !strings.ContainsAny(f, "*[")
		for i := 0; i < len(a.f); i++ {
			iv, ok := a.f[fmt.Sprintf("[%d]", i)].(*ifVal)
			if !ok {
				fine = false
				break
			}
			kk, ok := iv.v.(*kVal)
			if !ok || kk.v == nil {
				fine = false
				break
			}
			if n, ok := iv.dyn.(*types.Named); ok && n.NumMethods() > 0 && (strings.Contains(f, "%v") || strings.Contains(f, "%s") || strings.Contains(f, "%+v") || strings.Contains(f, "%q") || strings.Contains(f, "%x")) && (ev.method(n, "String") != nil || ev.method(n, "Error") != nil) {
				fine = false
				break
			}
			switch kk.v.Kind() {
			case constant.Int:
				if n, ok := constant.Int64Val(kk.v); ok {
					goArgs = append(goArgs, n)
				} else {
					fine = false
				}
			case constant.String:
				goArgs = append(goArgs, constant.StringVal(kk.v))
			case constant.Bool:
				goArgs = append(goArgs, constant.BoolVal(kk.v))
			default:
				fine = false
			}
		}
		if fine {
			return &kVal{constant.MakeString(fmt.Sprintf(f, goArgs...)), t}
		}
	}
	return &exprVal{"sprintf", args[0], a, t}
}

func (ev *Eval) invoke(st *evState, cm *ssa.CallCommon, args []Val, x *ssa.Call, d int) ([]evOut, bool) {
	switch cm.Method.Name() {
	case "Write":
		if len(args) == 2 {
			bs, known := ev.sliceBytes(st, args[1])
			e := evEvent{v: args[1], width: -1, pos: x.Pos()}
			outs := ev.writeTo(st, args[0], bs, known, e, d)
			for i := range outs {
				n := ev.length(args[1])
				if isErr(outs[i].res[0]) {
					n = ev.unk(types.Typ[types.Int])
				}
				outs[i].res = []Val{n, outs[i].res[0]}
			}
			return outs, true
		}
	}
	return nil, false
}
