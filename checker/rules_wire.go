package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C32"] = wireOrder
}

// C32: byte order and platform independence of everything that is encoded or decoded.

func pkgFunc(f *ssa.Function, pkg, name string) bool {
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == pkg && f.Name() == name && f.Signature.Recv() == nil
}

// byteOrders: the byte orders a value of type binary.ByteOrder (or a concrete order) may be.
func byteOrders(p *Prog, v ssa.Value) map[string]bool {
	out := map[string]bool{}
	// the native order is made of the order of the machine it is built for
	switch x := v.(type) {
	case *ssa.Field:
		if strings.Contains(typeString(x.X.Type()), "ativeEndian") {
			return map[string]bool{"native": true}
		}
	case *ssa.FieldAddr:
		if strings.Contains(typeString(x.X.Type()), "ativeEndian") {
			return map[string]bool{"native": true}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && strings.Contains(typeString(fa.X.Type()), "ativeEndian") {
			return map[string]bool{"native": true}
		}
	}
	for _, o := range origins(p, v, 0, map[ssa.Value]bool{}) {
		n := "unknown"
		if o.v != nil {
			t := typeString(o.v.Type())
			if u, ok := o.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok {
					t = g.Name() + " " + t
				}
			}
			switch {
			case strings.Contains(t, "ittleEndian"):
				n = "little"
			case strings.Contains(t, "igEndian"):
				n = "big"
			case strings.Contains(t, "ativeEndian"):
				n = "native"
			}
			if n == "unknown" {
				if _, ok := o.v.(*ssa.Parameter); ok {
					n = "caller"
				}
			}
		}
		out[n] = true
	}
	return out
}

// isSockStruct: the struct holding a socket address (family and port).
func isSockStruct(t types.Type) bool {
	t = deref(t)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	fam, port := false, false
	for i := 0; i < s.NumFields(); i++ {
		n := strings.ToLower(s.Field(i).Name())
		fam = fam || strings.Contains(n, "family")
		port = port || n == "port" || strings.HasSuffix(n, "port")
	}
	return fam && port
}

// sockPart: the value (or the target it points at) belongs to a socket address: "port", "family", "const2"
// (possibly the address family), "struct", or "".
func sockPart(p *Prog, v ssa.Value) string {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	if isSockStruct(v.Type()) {
		return "struct"
	}
	if fa, ok := v.(*ssa.FieldAddr); ok && isSockStruct(fa.X.Type()) {
		return "port"
	}
	os := origins(p, v, 0, map[ssa.Value]bool{})
	part := ""
	for _, o := range os {
		switch {
		case o.t != nil && isSockStruct(o.t):
			part = "port"
		case o.typ == "net.TCPAddr" && o.field == "Port", o.typ == "net.UDPAddr" && o.field == "Port":
			part = "port"
		}
	}
	if part == "" && len(os) == 1 && os[0].konst {
		if k, ok := os[0].v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == 2 {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Uint16 || b.Kind() == types.Int16) {
				part = "const2"
			}
		}
	}
	return part
}

// notFixed explains why a value of the type has no fixed, platform-independent encoding ("" = it has).
// constraintTerms are the types a type parameter is limited to; none when it isn't.
func constraintTerms(tp *types.TypeParam) (out []types.Type) {
	i, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for k := 0; k < i.NumEmbeddeds(); k++ {
		switch e := i.EmbeddedType(k).(type) {
		case *types.Union:
			for j := 0; j < e.Len(); j++ {
				out = append(out, e.Term(j).Type())
			}
		default:
			if _, isI := e.Underlying().(*types.Interface); !isI {
				out = append(out, e)
			}
		}
	}
	return
}

func notFixed(t types.Type, d int) string {
	if d > 12 {
		return ""
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		// what it may stand for
		ts := constraintTerms(tp)
		for _, u := range ts {
			if w := notFixed(u, d+1); w != "" {
				return w
			}
		}
		if len(ts) > 0 {
			return ""
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.UntypedInt:
			return "the platform-sized " + types.TypeString(t, func(*types.Package) string { return "" })
		case types.String, types.UntypedString:
			return "a string"
		case types.UnsafePointer:
			return "a pointer"
		}
		return ""
	case *types.Array:
		return notFixed(u.Elem(), d+1)
	case *types.Slice:
		return notFixed(u.Elem(), d+1)
	case *types.Pointer:
		if d == 0 {
			return notFixed(u.Elem(), d+1)
		}
		return "a pointer"
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if w := notFixed(u.Field(i).Type(), d+1); w != "" {
				return "field " + u.Field(i).Name() + ", " + w
			}
		}
		return ""
	case *types.Interface:
		if d == 0 {
			return ""
		}
		return "an interface"
	case *types.Map, *types.Chan, *types.Signature:
		return "a " + typeString(t)
	}
	return ""
}

// sinkParams: parameters whose value is encoded with encoding/binary. serial marks those that also accept
// strings and types that encode themselves.
type sinkParam struct {
	f      *ssa.Function
	i      int
	serial bool
	read   bool
}

func wireSinks(p *Prog) map[*ssa.Parameter]*sinkParam {
	out := map[*ssa.Parameter]*sinkParam{}
	add := func(v ssa.Value, serial, read bool) bool {
		changed := false
		for _, q := range sinkValues(v) {
			x, ok := q.(*ssa.Parameter)
			if !ok {
				continue
			}
			it, isI := x.Type().Underlying().(*types.Interface)
			if sl, ok := x.Type().Underlying().(*types.Slice); ok {
				it, isI = sl.Elem().Underlying().(*types.Interface)
			}
			if !isI || it.NumMethods() > 0 {
				continue
			}
			if out[x] == nil {
				out[x] = &sinkParam{f: x.Parent(), serial: serial || switchesOn(x), read: read}
				for i, y := range x.Parent().Params {
					if y == x {
						out[x].i = i
					}
				}
				changed = true
			}
		}
		return changed
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.SrcFuncs() {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cm := ci.Common()
					sc := cm.StaticCallee()
					switch {
					case pkgFunc(sc, "encoding/binary", "Write"):
						changed = add(cm.Args[2], false, false) || changed
					case pkgFunc(sc, "encoding/binary", "Read"):
						changed = add(cm.Args[2], false, true) || changed
					case pkgFunc(sc, "encoding/binary", "Size"):
						changed = add(cm.Args[0], false, false) || changed
					default:
						for _, g := range p.Callees(ci) {
							for _, sp := range out {
								if sp.f == g {
									a := cm.Args
									if cm.IsInvoke() {
										a = append([]ssa.Value{cm.Value}, a...)
									}
									if sp.i < len(a) {
										changed = add(a[sp.i], sp.serial, sp.read) || changed
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

// switchesOn: the function distinguishes the string type of (an element of) the parameter.
func switchesOn(x *ssa.Parameter) bool {
	for _, b := range x.Parent().Blocks {
		for _, i := range b.Instrs {
			if ta, ok := i.(*ssa.TypeAssert); ok && ta.CommaOk {
				if bt, ok := ta.AssertedType.Underlying().(*types.Basic); ok && bt.Kind() == types.String {
					return true
				}
			}
		}
	}
	return false
}

// sinkValues: the values an interface (or a list of interfaces) handed to an encoder was made from.
func sinkValues(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.IndexAddr:
					for _, s := range *y.Referrers() {
						if st, ok := s.(*ssa.Store); ok && st.Addr == y {
							walk(st.Val)
						}
					}
				case *ssa.Store:
					if y.Addr == x {
						walk(y.Val)
					}
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					walk(ia.X)
					return
				}
				if a, ok := x.X.(*ssa.Alloc); ok {
					walk(a)
					return
				}
			}
			out = append(out, v)
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 && ta.CommaOk {
				if _, isI := ta.AssertedType.Underlying().(*types.Interface); isI {
					walk(ta.X)
					return
				}
			}
			out = append(out, v)
		case *ssa.TypeAssert:
			if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				walk(x.X)
				return
			}
			out = append(out, v)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				for _, a := range x.Call.Args {
					walk(a)
				}
				return
			}
			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	walk(v)
	return out
}

func encodesItself(t types.Type) bool {
	ms := types.NewMethodSet(t)
	b, l := ms.Lookup(nil, "Bytes"), ms.Lookup(nil, "Len")
	return b != nil && l != nil
}

func wireOrder(c *Check) {
	p := c.P
	c.Rule("read-order", "every binary.Read uses little-endian order, except that the socket address of the identity reply is read big-endian")
	c.Rule("write-order", "every binary.Write uses little-endian order, except that the family and port of the socket address are written big-endian")
	c.Rule("method-order", "every direct use of a byte order (Uint16, PutUint32, ...) is little-endian, the socket address excepted")
	c.Rule("hand-order", "integers put together or taken apart byte by byte are little-endian")
	c.Rule("fixed-size", "every value handed to an encoder or decoder has a fixed size that does not depend on the platform")
	c.Rule("host-order", "no memory is reinterpreted through unsafe.Pointer, so the host's byte order never reaches the wire")
	funcs := p.SrcFuncs()
	sinks := wireSinks(p)
	checkSize := func(f *ssa.Function, ci ssa.CallInstruction, v ssa.Value, serial, read bool) {
		for _, x := range sinkValues(v) {
			mi, ok := x.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			t := mi.X.Type()
			if _, ok := types.Unalias(deref(t)).(*types.TypeParam); ok {
				continue
			}
			chosen := false // the caller's type argument
			for _, a := range f.TypeArgs() {
				chosen = chosen || types.Identical(a, deref(t))
			}
			if chosen {
				continue
			}
			if serial && !read {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					continue
				}
				if s, ok := t.Underlying().(*types.Slice); ok {
					if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						continue
					}
				}
				if encodesItself(t) {
					continue
				}
			}
			w := notFixed(t, 0)
			c.Oblige(w == "", "fixed-size", FnName(f)+" "+shortCallee(ci.Common())+" "+typeString(t), p.Pos(ci.Pos()),
				"a value of type "+typeString(t)+" is encoded or decoded, but it contains "+w+", which has no fixed wire size")
		}
	}
	for _, f := range funcs {
		// the write that directly precedes the port's within a block holds the address family
		for _, b := range f.Blocks {
			var prevConst *ssa.Call
			for _, i := range b.Instrs {
				if cv, ok := i.(*ssa.Convert); ok {
					ft, tt := cv.X.Type(), cv.Type()
					if isUnsafePtr(ft) || isUnsafePtr(tt) {
						c.Fail("host-order", FnName(f)+" unsafe", p.Pos(cv.Pos()), "memory is reinterpreted through unsafe.Pointer: the result depends on the host's byte order and layout")
					}
				}
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := ci.Common()
				sc := cm.StaticCallee()
				switch {
				case pkgFunc(sc, "encoding/binary", "Read"), pkgFunc(sc, "encoding/binary", "Decode"):
					read := sc.Name() == "Read"
					k, t := 1, 2
					if !read {
						k, t = 2, 1 // Decode(buf, order, data)
						k, t = 1, 2
					}
					part := sockPart(p, stripI(cm.Args[t]))
					what := FnName(f) + " " + targetName(cm.Args[t])
					for o := range byteOrders(p, cm.Args[k]) {
						switch {
						case o == "caller":
						case part == "struct" || part == "port":
							c.Oblige(o == "big", "read-order", what, p.Pos(ci.Pos()), "the socket address is sent in network order but read as "+o+"-endian")
						default:
							c.Oblige(o == "little", "read-order", what, p.Pos(ci.Pos()), "a value that is little-endian on the wire is read as "+o+"-endian")
						}
					}
					checkSize(f, ci, cm.Args[t], false, true)
				case pkgFunc(sc, "encoding/binary", "Write"), pkgFunc(sc, "encoding/binary", "Append"):
					part := sockPart(p, stripI(cm.Args[2]))
					what := FnName(f) + " " + targetName(cm.Args[2])
					call, _ := i.(*ssa.Call)
					for o := range byteOrders(p, cm.Args[1]) {
						switch {
						case o == "caller":
						case part == "struct" || part == "port":
							c.Oblige(o == "big", "write-order", what, p.Pos(ci.Pos()), "the port of the socket address is written as "+o+"-endian, it is sent in network order")
							if prevConst != nil {
								for po := range byteOrders(p, prevConst.Call.Args[1]) {
									c.Oblige(po == "big", "write-order", what+" family", p.Pos(prevConst.Pos()), "the family of the socket address is written as "+po+"-endian, it is sent in network order")
								}
							}
						case part == "const2" && o == "big":
							// allowed only as the family: directly followed by the port
							c.Oblige(nextIsPort(p, call), "write-order", what, p.Pos(ci.Pos()), "a constant that is not the address family of a socket address is written as big-endian")
						default:
							c.Oblige(o == "little", "write-order", what, p.Pos(ci.Pos()), "a value that is little-endian on the wire is written as "+o+"-endian")
						}
					}
					prevConst = nil
					if part == "const2" {
						prevConst = call
					}
					checkSize(f, ci, cm.Args[2], false, false)
				case pkgFunc(sc, "encoding/binary", "Size"):
					checkSize(f, ci, cm.Args[0], false, false)
				case sc != nil && sc.Pkg != nil && sc.Pkg.Pkg.Path() == "encoding/binary" && strings.Contains(strings.ToLower(sc.Name()), "varint"):
					c.Fail("fixed-size", FnName(f)+" "+sc.Name(), p.Pos(ci.Pos()), "an integer is encoded with a variable length: every integer of the protocol has a fixed size")
				case sc != nil && sc.Pkg != nil && sc.Pkg.Pkg.Path() == "math/bits" && strings.HasPrefix(sc.Name(), "ReverseBytes"):
					c.Fail("hand-order", FnName(f)+" "+sc.Name(), p.Pos(ci.Pos()), "the bytes of an integer are reversed: integers are little-endian on the wire")
				default:
					// methods of a byte order
					var recv ssa.Value
					name := ""
					if cm.IsInvoke() {
						if n := namedOf(cm.Value.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/binary" {
							recv, name = cm.Value, cm.Method.Name()
						}
					} else if sc != nil && sc.Signature.Recv() != nil && sc.Pkg != nil && sc.Pkg.Pkg.Path() == "encoding/binary" {
						recv, name = cm.Args[0], sc.Name()
					}
					if recv != nil && (strings.Contains(name, "int") || strings.Contains(name, "Uint")) {
						sock := false
						if call, ok := i.(*ssa.Call); ok {
							if strings.HasPrefix(name, "Uint") {
								sock = flowsToSock(call)
							} else {
								v := cm.Args[len(cm.Args)-1]
								pt := sockPart(p, v)
								sock = pt == "port" || pt == "const2"
							}
						}
						for o := range byteOrders(p, recv) {
							if o == "caller" {
								continue
							}
							c.Oblige(o == "little" || o == "big" && sock, "method-order", FnName(f)+" "+name, p.Pos(ci.Pos()), "an integer that is little-endian on the wire is handled as "+o+"-endian")
						}
						continue
					}
					for _, g := range p.Callees(ci) {
						for _, sp := range sinks {
							if sp.f != g {
								continue
							}
							a := cm.Args
							if cm.IsInvoke() {
								a = append([]ssa.Value{cm.Value}, a...)
							}
							if sp.i < len(a) {
								checkSize(f, ci, a[sp.i], sp.serial, sp.read)
							}
						}
					}
				}
			}
		}
		handOrder(c, f)
	}
	c.Info["functions"] = len(funcs)
	ns := []string{}
	for _, s := range sinks {
		ns = append(ns, fmt.Sprintf("%s#%d", FnName(s.f), s.i))
	}
	c.Info["encoding parameters"] = len(ns)
	c.Instance("host-order", "all functions")
	c.Floor("read-order", 60)
	c.Floor("write-order", 30)
	c.Floor("method-order", 15)
	c.Floor("fixed-size", 60)
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func stripI(v ssa.Value) ssa.Value {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X
	}
	return v
}

func targetName(v ssa.Value) string {
	v = stripI(v)
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if t, f, ok := fieldOf(x); ok {
			return t + "." + f
		}
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	}
	return typeString(v.Type())
}

// nextIsPort: the next binary write in the same block writes a socket address' port.
func nextIsPort(p *Prog, call *ssa.Call) bool {
	if call == nil {
		return false
	}
	after := false
	for blk, n := call.Block(), 0; blk != nil && n < 4; n++ {
		for _, i := range blk.Instrs {
			if i == call {
				after = true
				continue
			}
			if !after {
				continue
			}
			if c2, ok := i.(*ssa.Call); ok {
				if pkgFunc(c2.Call.StaticCallee(), "encoding/binary", "Write") || pkgFunc(c2.Call.StaticCallee(), "encoding/binary", "Append") {
					return sockPart(p, stripI(c2.Call.Args[2])) == "port"
				}
			}
		}
		// follow the path on which the write succeeded
		var nx *ssa.BasicBlock
		for _, s := range blk.Succs {
			if !returnsOnly(s) {
				nx = s
			}
		}
		blk = nx
	}
	return false
}

func returnsOnly(b *ssa.BasicBlock) bool {
	if len(b.Succs) > 0 {
		return false
	}
	return true
}

// flowsToSock: the decoded integer is stored in a socket address.
func flowsToSock(call *ssa.Call) bool {
	for _, r := range *call.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isSockStruct(fa.X.Type()) {
				return true
			}
		case *ssa.Convert:
			for _, r2 := range *x.Referrers() {
				if s, ok := r2.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && (isSockStruct(fa.X.Type()) || typeName(deref(fa.X.Type())) == "net.TCPAddr" || typeName(deref(fa.X.Type())) == "net.UDPAddr") {
						return true
					}
				}
			}
		}
	}
	return false
}

// affine: v = base + off, or scale*base + off with base a non constant value.
func affine(v ssa.Value) (base ssa.Value, scale, off int64) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return nil, 0, x.Int64()
		}
	case *ssa.Convert:
		return affine(x.X)
	case *ssa.ChangeType:
		return affine(x.X)
	case *ssa.BinOp:
		b1, s1, o1 := affine(x.X)
		b2, s2, o2 := affine(x.Y)
		switch x.Op {
		case token.ADD:
			if b1 == nil {
				return b2, s2, o1 + o2
			}
			if b2 == nil {
				return b1, s1, o1 + o2
			}
		case token.SUB:
			if b2 == nil {
				return b1, s1, o1 - o2
			}
			if b1 == nil {
				return b2, -s2, o1 - o2
			}
		case token.MUL:
			if b1 == nil {
				return b2, s2 * o1, o2 * o1
			}
			if b2 == nil {
				return b1, s1 * o2, o1 * o2
			}
		case token.SHL:
			if b2 == nil && o2 >= 0 && o2 < 32 {
				return b1, s1 << o2, o1 << o2
			}
		}
	}
	return v, 1, 0
}

func affineText(v ssa.Value) (string, int64, int64) {
	b, s, o := affine(v)
	if b == nil {
		return "", s, o
	}
	return symText(b), s, o
}

// symText identifies a value: its text, made unique where the text alone is ambiguous.
func symText(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Phi, *ssa.Alloc, *ssa.Call, *ssa.MakeSlice, *ssa.Extract:
		return fmt.Sprintf("%s@%d.%s", x.Name(), x.(ssa.Instruction).Block().Index, exprText(v))
	case *ssa.UnOp:
		return "*" + symText(x.X)
	case *ssa.FieldAddr:
		return symText(x.X) + "." + fmt.Sprint(x.Field)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return symText(x.X)
		}
		return x.Name()
	}
	return exprText(v)
}

func bitsOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

type bytePos struct {
	ib string // base of the position
	is int64
	io int64
	kb string // base of the shift
	ks int64
	ko int64
	at token.Pos
}

// bytewise: v is one byte of a wider integer: the integer and the shift.
func bytewise(v ssa.Value) (x, k ssa.Value, ok bool) {
	cv, ok := v.(*ssa.Convert)
	if !ok || bitsOf(cv.Type()) != 8 || bitsOf(cv.X.Type()) < 16 {
		return nil, nil, false
	}
	y := cv.X
	if bo, ok := y.(*ssa.BinOp); ok && bo.Op == token.AND {
		y = bo.X
	}
	if bo, ok := y.(*ssa.BinOp); ok && bo.Op == token.SHR {
		return stripConv(bo.X), bo.Y, true
	}
	return stripConv(y), nil, true
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// handOrder: bytes of an integer stored or assembled one by one.
func handOrder(c *Check, f *ssa.Function) {
	p := c.P
	type key struct {
		x    ssa.Value
		base string
		m    string
	}
	baseOf := func(ia *ssa.IndexAddr) string { return symText(ia.X) }
	groups := map[key][]bytePos{}
	seq := map[ssa.Value]int64{}
	put := func(k key, idx, sh ssa.Value, n int64, at token.Pos) {
		var bp bytePos
		bp.at = at
		if idx != nil {
			bp.ib, bp.is, bp.io = affineText(idx)
		} else {
			bp.io = n
		}
		if sh != nil {
			bp.kb, bp.ks, bp.ko = affineText(sh)
		}
		groups[k] = append(groups[k], bp)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if w, k, ok := bytewise(x.Val); ok {
					put(key{w, baseOf(ia), "store"}, ia.Index, k, 0, x.Pos())
				}
			case *ssa.Call:
				n := x.Call.Value.Name()
				if x.Call.IsInvoke() {
					n = x.Call.Method.Name()
				}
				if n == "WriteByte" && len(x.Call.Args) > 0 {
					a := x.Call.Args[len(x.Call.Args)-1]
					if w, k, ok := bytewise(a); ok {
						put(key{w, "", "write"}, nil, k, seq[w], x.Pos())
						seq[w]++
					}
				}
			case *ssa.BinOp:
				if x.Op != token.OR && x.Op != token.ADD || bitsOf(x.Type()) < 16 {
					continue
				}
				// only the root of a combination
				root := true
				for _, r := range *x.Referrers() {
					if y, ok := r.(*ssa.BinOp); ok && (y.Op == token.OR || y.Op == token.ADD) {
						root = false
					}
				}
				if !root {
					continue
				}
				var leaves func(v ssa.Value)
				leaves = func(v ssa.Value) {
					if y, ok := v.(*ssa.BinOp); ok && (y.Op == token.OR || y.Op == token.ADD) {
						leaves(y.X)
						leaves(y.Y)
						return
					}
					var sh ssa.Value
					if y, ok := v.(*ssa.BinOp); ok && y.Op == token.SHL {
						v, sh = y.X, y.Y
					}
					cv, ok := v.(*ssa.Convert)
					if !ok || bitsOf(cv.X.Type()) != 8 {
						return
					}
					if u, ok := cv.X.(*ssa.UnOp); ok && u.Op == token.MUL {
						if ia, ok := u.X.(*ssa.IndexAddr); ok {
							put(key{x, baseOf(ia), "load"}, ia.Index, sh, 0, x.Pos())
						}
					}
				}
				leaves(x)
			}
		}
	}
	for k, g := range groups {
		bad := ""
		n := 0
		for i, a := range g {
			if a.kb != "" { // shift computed from a counter
				if a.ib == a.kb && a.ib != "" {
					n++
					if a.ks*a.is < 0 {
						bad = "the shift falls as the position rises"
					}
				}
				continue
			}
			for _, b := range g[:i] {
				if b.kb != "" || a.ib != b.ib || a.is != b.is || a.ko == b.ko || a.io == b.io {
					continue
				}
				n++
				if (a.ko-b.ko)*(a.io-b.io) < 0 {
					bad = "the byte at the higher position is the less significant one"
				}
			}
		}
		if n > 0 {
			c.Oblige(bad == "", "hand-order", FnName(f)+" "+k.m, p.Pos(g[0].at), "an integer is handled byte by byte in big-endian order: "+bad)
		}
	}
}
