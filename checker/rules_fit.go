package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: lengths, counts and sizes fit the fields they are sent in.

func init() { rules["C20"] = fieldsFit }

func intBits(t types.Type) int {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return 0
	}
	switch bt.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

var quantityName = regexp.MustCompile(`(?i)(len|length|size|count|qty|quantity|elements|words)s?$|^(len|size|count|qty|num|n)([A-Z_]|$)`)
var sequenceName = regexp.MustCompile(`(?i)seq`)

func isQuantityName(n string) bool {
	return quantityName.MatchString(n) && !sequenceName.MatchString(n)
}

type fitCheck struct {
	c    *Check
	p    *Prog
	b    *bounds
	qSee map[ssa.Value]bool
}

// quantity: v is computed from a length, a count or a size.
func (k *fitCheck) quantity(v ssa.Value, d int) bool {
	if d > 12 || k.qSee[v] {
		return false
	}
	k.qSee[v] = true
	defer delete(k.qSee, v)
	switch x := v.(type) {
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() == "len" || bi.Name() == "cap" || bi.Name() == "copy"
		}
		return k.quantityResult(x, 0, d)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return k.quantityResult(c, x.Index, d)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.SHL, token.SHR, token.AND, token.REM, token.OR:
			return k.quantity(x.X, d+1) || k.quantity(x.Y, d+1)
		}
	case *ssa.Convert:
		return isInt(x.X.Type()) && k.quantity(x.X, d+1)
	case *ssa.ChangeType:
		return k.quantity(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k.quantity(e, d+1) {
				return true
			}
		}
		// something counted up in a loop
		if types.Identical(x.Type(), types.Typ[types.Int]) && isLoopHeader(x.Block()) {
			_, isInd := k.counted(x)
			return isInd
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		if t, fld, ok := fieldOf(x.X); ok {
			return strings.TrimSpace(t) != "" && isQuantityName(fld)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al && k.quantity(s.Val, d+1) {
					return true
				}
			}
		}
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return isQuantityName(st.Field(x.Field).Name())
		}
	case *ssa.Parameter:
		if isQuantityName(x.Name()) {
			return true
		}
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			for _, ci := range k.p.CallersOf(x.Parent()) {
				cm := ci.Common()
				if !cm.IsInvoke() && i < len(cm.Args) && k.quantity(cm.Args[i], d+4) {
					return true
				}
			}
		}
	}
	return false
}

// counted: a loop variable that only goes up by a constant.
func (k *fitCheck) counted(x *ssa.Phi) (int64, bool) {
	step := int64(0)
	for j, e := range x.Edges {
		if !x.Block().Dominates(x.Block().Preds[j]) {
			continue
		}
		if e == x {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != x {
			return 0, false
		}
		n, ok := constInt64(bo.Y)
		if !ok {
			return 0, false
		}
		step = n
	}
	return step, step > 0
}

func constInt64(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func (k *fitCheck) quantityResult(c *ssa.Call, i, d int) bool {
	cm := c.Common()
	n := calleeName(cm)
	if j := strings.LastIndexAny(n, ".)"); j >= 0 {
		switch n[j+1:] {
		case "Len", "Size", "Cap", "Available", "SizeOf", "NumField", "Write", "WriteString":
			return true
		}
	}
	f := cm.StaticCallee()
	if f == nil || !k.p.InLib(f) {
		return false
	}
	if isQuantityName(f.Name()) {
		return true
	}
	if d > 8 {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) && k.quantity(r.Results[i], d+4) {
			return true
		}
	}
	return false
}

// sent: the value may end up in something other than a measurement or a comparison.
func (k *fitCheck) sent(v ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.If, *ssa.MakeSlice:
		case *ssa.Slice:
			if x.X == v {
				return true
			}
		case *ssa.IndexAddr:
			if x.X == v {
				return true
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				continue
			}
			if k.sent(x, seen, d) {
				return true
			}
		case *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.MakeInterface:
			if k.sent(r.(ssa.Value), seen, d) {
				return true
			}
		case *ssa.Store:
			if x.Val != v {
				return true
			}
			if k.storeSent(x.Addr, seen, d) {
				return true
			}
		case *ssa.Call:
			if k.argSent(x, v, seen, d) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// storeSent: what was stored at the address may be sent.
func (k *fitCheck) storeSent(addr ssa.Value, seen map[ssa.Value]bool, d int) bool {
	root := addr
	for {
		switch x := root.(type) {
		case *ssa.FieldAddr:
			root = x.X
			continue
		case *ssa.IndexAddr:
			root = x.X
			continue
		case *ssa.Slice:
			root = x.X
			continue
		}
		break
	}
	switch root.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
	default:
		return true
	}
	var uses func(v ssa.Value) bool
	uses = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
				if uses(r.(ssa.Value)) {
					return true
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && k.sent(x, seen, d) {
					return true
				}
			case *ssa.MakeInterface, *ssa.Phi:
				if k.sent(r.(ssa.Value), seen, d) {
					return true
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				if k.argSent(x, v, seen, d) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return uses(root)
}

func (k *fitCheck) argSent(c *ssa.Call, v ssa.Value, seen map[ssa.Value]bool, d int) bool {
	cm := c.Common()
	if isLogging(cm) {
		return false
	}
	f := cm.StaticCallee()
	switch {
	case pkgFunc(f, "encoding/binary", "Size"):
		return false
	case pkgFunc(f, "encoding/binary", "Write"):
		return !k.measured(cm.Args[0], map[ssa.Value]bool{}, 0)
	case f != nil && strings.HasPrefix(calleeName(cm), "(*bytes.Buffer).Write"):
		return !k.measured(cm.Args[0], map[ssa.Value]bool{}, 0)
	case f != nil && pkgOf(f) != nil && pkgOf(f).Pkg.Path() == "log/slog", strings.HasPrefix(calleeName(cm), "fmt.Errorf"), strings.HasPrefix(calleeName(cm), "errors."):
		return false
	case f != nil && k.p.InLib(f) && d < 3:
		for i, a := range cm.Args {
			if a == v && i < len(f.Params) && k.sent(f.Params[i], seen, d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// measured: the buffer is only written to and asked for its length.
func (k *fitCheck) measured(buf ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if seen[buf] {
		return true
	}
	seen[buf] = true
	switch x := buf.(type) {
	case *ssa.MakeInterface:
		return k.measured(x.X, seen, d)
	case *ssa.ChangeInterface:
		return k.measured(x.X, seen, d)
	case *ssa.Alloc:
	default:
		return false
	}
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if d > 4 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeInterface:
				if !ok(x, d) {
					return false
				}
			case *ssa.Store:
				if x.Val == v {
					return false
				}
			case *ssa.Call:
				n := calleeName(x.Common())
				switch {
				case strings.HasPrefix(n, "(*bytes.Buffer).Write"), n == "(*bytes.Buffer).Len", n == "(*bytes.Buffer).Cap",
					n == "(*bytes.Buffer).Grow", n == "(*bytes.Buffer).Reset", n == "(*bytes.Buffer).Truncate", n == "(*bytes.Buffer).Available":
				case n == "encoding/binary.Write":
					if x.Call.Args[0] != v {
						return false
					}
				default:
					f := x.Call.StaticCallee()
					if f == nil || !k.p.InLib(f) {
						return false
					}
					for i, a := range x.Call.Args {
						if a == v && !ok(f.Params[i], d+1) {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(buf, d)
}

// lenMax is an upper bound for the length of what v holds, from the way it was put together.
func (k *fitCheck) lenMax(ctx *pctx, v ssa.Value, at ssa.Instruction, d int) (int64, bool) {
	if d > 8 {
		return 0, false
	}
	for _, lim := range []int64{0, 4, 16, 255, 256, 1024, 32767} {
		l := b0len(k.b, ctx, v)
		if !l.ok {
			break
		}
		k.b.work = 0
		if k.b.prove(linConst(lim).sub(l), point{ctx, at.Block(), at}, nil, 0) {
			return lim, true
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return 0, x.IsNil()
	case *ssa.Convert:
		return k.lenMax(ctx, x.X, at, d+1)
	case *ssa.ChangeType:
		return k.lenMax(ctx, x.X, at, d+1)
	case *ssa.MakeSlice:
		if n, ok := constInt64(x.Len); ok {
			return n, true
		}
	case *ssa.Slice:
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			return a.Len(), true
		}
		return k.lenMax(ctx, x.X, at, d+1)
	case *ssa.Phi:
		max := int64(0)
		for j, e := range x.Edges {
			pr := x.Block().Preds[j]
			n, ok := k.lenMax(ctx, e, pr.Instrs[len(pr.Instrs)-1], d+2)
			if !ok {
				return 0, false
			}
			if n > max {
				max = n
			}
		}
		return max, true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return k.lenMaxResult(c, x.Index, d)
		}
	case *ssa.Call:
		return k.lenMaxResult(x, 0, d)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		cs := k.p.CallersOf(f)
		if idx < 0 || len(cs) == 0 || len(cs) > 20 || exportedFn(f) || k.b.addrTaken(f) {
			return 0, false
		}
		max := int64(0)
		for _, ci := range cs {
			if ci.Common().IsInvoke() {
				return 0, false
			}
			n, ok := k.lenMax(k.b.root(ci.Parent()), ci.Common().Args[idx], ci, d+1)
			if !ok {
				return 0, false
			}
			if n > max {
				max = n
			}
		}
		return max, true
	}
	return 0, false
}

func b0len(b *bounds, ctx *pctx, v ssa.Value) lin { return b.lenOf(ctx, v) }

func (k *fitCheck) lenMaxResult(c *ssa.Call, i, d int) (int64, bool) {
	cm := c.Common()
	n := calleeName(cm)
	if n == "(*bytes.Buffer).Bytes" || n == "(*bytes.Buffer).String" {
		return k.bufMax(cm.Args[0], d)
	}
	f := cm.StaticCallee()
	if f == nil || !k.p.InLib(f) || len(f.Blocks) == 0 {
		return 0, false
	}
	max := int64(0)
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if i >= len(r.Results) {
			return 0, false
		}
		m, ok := k.lenMax(k.b.root(f), r.Results[i], r, d+1)
		if !ok {
			return 0, false
		}
		if m > max {
			max = m
		}
	}
	return max, true
}

// bufMax adds up what is written to a local buffer outside of loops.
func (k *fitCheck) bufMax(buf ssa.Value, d int) (int64, bool) {
	al, ok := buf.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	sum := int64(0)
	var uses func(v ssa.Value) bool
	usesIn := func(v ssa.Value) bool {
		d++
		defer func() { d-- }()
		return d < 7 && uses(v)
	}
	uses = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeInterface:
				if !uses(x) {
					return false
				}
			case *ssa.Call:
				n := calleeName(x.Common())
				add := int64(0)
				switch n {
				case "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Cap", "(*bytes.Buffer).Grow":
					continue
				case "(*bytes.Buffer).WriteByte":
					add = 1
				case "(*bytes.Buffer).WriteRune":
					add = 4
				case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
					m, ok := k.lenMax(k.b.root(x.Parent()), x.Call.Args[1], x, d+1)
					if !ok {
						return false
					}
					add = m
				case "encoding/binary.Write":
					mi, ok := x.Call.Args[2].(*ssa.MakeInterface)
					if !ok {
						return false
					}
					if add = fixedSize(deref(mi.X.Type())); add <= 0 {
						return false
					}
				default:
					f := x.Call.StaticCallee()
					if f == nil || !k.p.InLib(f) || d > 6 {
						return false
					}
					before := sum
					for i, a := range x.Call.Args {
						if a == v && !usesIn(f.Params[i]) {
							return false
						}
					}
					add, sum = sum-before, before
				}
				if inLoopWith(x.Block(), x.Block()) && cyclic(x.Block(), nil) {
					return false
				}
				sum += add
			default:
				return false
			}
		}
		return true
	}
	if !uses(al) {
		return 0, false
	}
	return sum, true
}

// sibling: the other bytes of the same quantity are taken as well (v>>8, v>>16, ...).
func siblingShift(x ssa.Value, bits int) int {
	n := 0
	seen := map[int64]bool{}
	if x.Referrers() == nil {
		return 0
	}
	for _, r := range *x.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || bo.Op != token.SHR || bo.X != x {
			continue
		}
		s, ok := constInt64(bo.Y)
		if !ok || seen[s] || s%int64(bits) != 0 {
			continue
		}
		for _, q := range *bo.Referrers() {
			if cv, ok := q.(*ssa.Convert); ok && intBits(cv.Type()) == bits {
				seen[s] = true
			}
		}
	}
	for s := int64(bits); seen[s]; s += int64(bits) {
		n++
	}
	return n
}

// loopShift: v counts 0, bits, 2*bits, ... in a loop with constant bounds; the bits taken in all.
func loopShift(v ssa.Value, bits int) int {
	mul := int64(1)
	for {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		bo, ok := v.(*ssa.BinOp)
		if !ok {
			break
		}
		x, y := bo.X, bo.Y
		if _, ok := constInt64(x); ok {
			x, y = y, x
		}
		n, ok := constInt64(y)
		switch {
		case ok && bo.Op == token.MUL:
			mul *= n
		case ok && bo.Op == token.SHL && y == bo.Y && n < 8:
			mul <<= uint(n)
		default:
			return 0
		}
		v = x
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || len(ph.Edges) != 2 {
		return 0
	}
	start, step := int64(-1), int64(0)
	for _, e := range ph.Edges {
		if n, ok := constInt64(e); ok {
			start = n
		} else if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ph {
			step, _ = constInt64(bo.Y)
		}
	}
	if start != 0 || step*mul != int64(bits) {
		return 0
	}
	iff, ok := ph.Block().Instrs[len(ph.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cond.X != ph || cond.Op != token.LSS {
		return 0
	}
	k, ok := constInt64(cond.Y)
	if !ok || k <= 0 {
		return 0
	}
	return int((k + step - 1) / step * step * mul)
}

// textRoot is the value that v is a cut of.
func textRoot(v ssa.Value, seen map[ssa.Value]bool) ssa.Value {
	for {
		if seen[v] {
			return nil
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Slice:
			if _, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.Phi:
			var root ssa.Value
			for _, e := range x.Edges {
				r := textRoot(e, seen)
				if r == nil {
					continue
				}
				if root != nil && root != r {
					return v
				}
				root = r
			}
			return root
		default:
			return v
		}
	}
}

// sameBytes: where the length of a text is written in front of it, what follows has that length.
func (k *fitCheck) sameBytes(x *ssa.Convert) {
	cl, ok := x.X.(*ssa.Call)
	if !ok {
		return
	}
	if bi, ok := cl.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return
	}
	text := cl.Call.Args[0]
	root := textRoot(text, map[ssa.Value]bool{})
	if root == nil {
		return
	}
	// the buffers the length is written to
	bufOf := func(c *ssa.Call) (ssa.Value, ssa.Value) {
		switch n := calleeName(c.Common()); n {
		case "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
			return c.Call.Args[0], c.Call.Args[1]
		case "encoding/binary.Write":
			mi, ok := c.Call.Args[0].(*ssa.MakeInterface)
			v, ok2 := c.Call.Args[2].(*ssa.MakeInterface)
			if ok && ok2 {
				return mi.X, v.X
			}
		}
		return nil, nil
	}
	var at *ssa.Call
	var buf ssa.Value
	for _, r := range *x.Referrers() {
		if mi, ok := r.(*ssa.MakeInterface); ok {
			for _, q := range *mi.Referrers() {
				if c, ok := q.(*ssa.Call); ok {
					if b, v := bufOf(c); b != nil && v == x {
						at, buf = c, b
					}
				}
			}
		}
		if c, ok := r.(*ssa.Call); ok {
			if b, v := bufOf(c); b != nil && v == x {
				at, buf = c, b
			}
		}
	}
	if at == nil {
		return
	}
	for _, blk := range x.Parent().Blocks {
		for _, i := range blk.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok || c == at || !before(at, c) || !at.Block().Dominates(c.Block()) {
				continue
			}
			bb, v := bufOf(c)
			if bb != buf || v == nil {
				continue
			}
			if _, isS := v.Type().Underlying().(*types.Slice); !isS && !isString(v.Type()) {
				continue
			}
			ctx := k.b.root(x.Parent())
			if r := textRoot(v, map[ssa.Value]bool{}); r == nil || k.b.canon(ctx, r).key != k.b.canon(ctx, root).key {
				continue
			}
			ok = false
			d := k.b.lenOf(ctx, v).sub(k.b.lenOf(ctx, text))
			k.b.work = 0
			if d.ok {
				pt := point{ctx, c.Block(), c}
				ok = k.b.prove(d, pt, nil, 0) && k.b.prove(d.scale(-1), pt, nil, 0)
			}
			k.c.Oblige(ok, "same", FnName(x.Parent())+" "+k.b.text(v), k.p.Pos(c.Pos()), "the length written is that of "+k.b.text(text)+", but "+k.b.text(v)+" is sent and may be of another length")
		}
	}
}

// usesOf are the instructions that use a converted value, comparisons aside; nil when they can't be told.
func usesOf(x ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			return nil
		case *ssa.BinOp:
			switch u.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				continue
			}
			out = append(out, u)
		case *ssa.MakeInterface:
			out = append(out, usesOf(u)...)
		case *ssa.Store:
			if al, ok := u.Addr.(*ssa.Alloc); ok && !al.Heap {
				for _, q := range *al.Referrers() {
					if l, ok := q.(*ssa.UnOp); ok {
						out = append(out, l)
					} else if q != u {
						return []ssa.Instruction{u}
					}
				}
				continue
			}
			out = append(out, u)
		default:
			out = append(out, r)
		}
	}
	return out
}

func fieldsFit(c *Check) {
	k := &fitCheck{c: c, p: c.P, b: newBounds(c.P), qSee: map[ssa.Value]bool{}}
	b := k.b
	c.Rule("fits", "a length, count or size that is converted to a narrower integer and may be sent is proved to fit it where it is converted")
	c.Rule("arith", "arithmetic on lengths, counts and sizes in narrow integers is proved not to wrap")
	c.Rule("packed", "a size that is combined with flag bits is proved to stay below them")
	c.Rule("same", "where the length of a text is written in front of it, what follows has that length")
	c.Rule("examined", "the error of a step that fails because a length or count doesn't fit is examined or passed on")
	c.Rule("reported", "when a length or count doesn't fit, the operation fails")
	measures := map[*ssa.Function]bool{}
	unsent := 0
	for _, f := range c.P.SrcFuncs(c.P.Root, c.P.Lgx, c.P.Canned) {
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				switch x := i.(type) {
				case *ssa.Convert:
					if !isInt(x.X.Type()) || !isInt(x.Type()) {
						continue
					}
					from, to := intBits(x.X.Type()), intBits(x.Type())
					if to >= 32 || from <= to {
						continue
					}
					if _, ok := x.X.(*ssa.Const); ok {
						continue
					}
					if !k.quantity(x.X, 0) {
						continue
					}
					measures[f] = true
					what := FnName(f) + " " + typeString(x.Type()) + " ← " + b.text(x.X)
					if !k.sent(x, map[ssa.Value]bool{}, 0) {
						unsent++
						c.Instance("fits", what+" (never sent)")
						continue
					}
					src, hiBits := x.X, to
					if bo, ok := src.(*ssa.BinOp); ok {
						// a mask or remainder that cuts the quantity does not make it fit
						n, isC := constInt64(bo.Y)
						switch {
						case bo.Op == token.AND && isC && n > 7, bo.Op == token.REM && isC && n >= 255:
							src = bo.X
						case bo.Op == token.SHR && isC && n > 0 && n%int64(to) == 0 && siblingShift(bo.X, to) >= int(n)/to:
							src = bo.X
							hiBits = to * (1 + siblingShift(bo.X, to))
						case bo.Op == token.SHR && !isC:
							if n := loopShift(bo.Y, to); n > 0 {
								src, hiBits = bo.X, n
							}
						}
					}
					if src == x.X {
						hiBits = to * (1 + siblingShift(src, to))
					}
					if hiBits >= 32 {
						c.Instance("fits", what)
						continue
					}
					lo, hi := int64(0), int64(1)<<hiBits-1
					if bt := x.Type().Underlying().(*types.Basic); bt.Info()&types.IsUnsigned == 0 {
						lo, hi = -(hi+1)/2, hi/2
					}
					k.sameBytes(x)
					goals := func(ctx *pctx) []goal {
						l := b.lin(ctx, src)
						return []goal{{l: l.addK(-lo), what: "it may be negative"}, {l: linConst(hi).sub(l), what: fmt.Sprintf("it may exceed %d", hi)}}
					}
					ok, why := b.decide(i, goals)
					if !ok {
						// converted first, checked before it is used
						if us := usesOf(x); len(us) > 0 {
							ok = true
							for _, u := range us {
								if good, _ := b.decide(u, goals); !good {
									ok = false
									break
								}
							}
						}
					}
					if !ok {
						if cl, isCall := src.(*ssa.Call); isCall {
							if bi, isB := cl.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
								if m, known := k.lenMax(b.root(f), cl.Call.Args[0], i, 0); known && m <= hi {
									ok = true
								}
							}
						}
					}
					c.Oblige(ok, "fits", what, c.P.Pos(x.Pos()), "the quantity "+b.text(x.X)+" is sent as "+typeString(x.Type())+" but "+why)
				case *ssa.BinOp:
					if !isInt(x.Type()) || intBits(x.Type()) >= 32 {
						if x.Op != token.OR || intBits(x.Type()) != 32 {
							continue
						}
					}
					switch x.Op {
					case token.ADD, token.SUB, token.MUL, token.SHL:
						if !k.quantity(x, 0) || !k.sent(x, map[ssa.Value]bool{}, 0) {
							continue
						}
						ok, why := b.decide(i, func(ctx *pctx) []goal {
							lo, hi, _, _ := intRange(x.Type())
							var l lin
							p, q := b.lin(ctx, x.X), b.lin(ctx, x.Y)
							switch {
							case x.Op == token.ADD:
								l = p.add(q)
							case x.Op == token.SUB:
								l = p.sub(q)
							case x.Op == token.MUL && q.isConst():
								l = p.scale(q.k)
							case x.Op == token.MUL && p.isConst():
								l = q.scale(p.k)
							case x.Op == token.SHL && q.isConst() && q.k >= 0 && q.k < 32:
								l = p.scale(1 << uint(q.k))
							default:
								return []goal{{l: linConst(-1), what: "it may wrap"}}
							}
							return []goal{{l: l.addK(-lo), what: "it may go below the range"}, {l: linConst(hi).sub(l), what: fmt.Sprintf("it may exceed %d", hi)}}
						})
						c.Oblige(ok, "arith", FnName(f)+" "+b.text(x), c.P.Pos(x.Pos()), "the quantity "+b.text(x)+" is computed as "+typeString(x.Type())+" but "+why)
					case token.OR:
						flags, size := x.X, x.Y
						n, isC := constInt64(flags)
						if !isC {
							flags, size = size, flags
							n, isC = constInt64(flags)
						}
						if !isC || n <= 0 || !k.quantity(size, 0) {
							continue
						}
						low := n & -n
						ok, why := b.decide(i, func(ctx *pctx) []goal {
							l := b.lin(ctx, size)
							return []goal{{l: l, what: "it may be negative"}, {l: linConst(low - 1).sub(l), what: fmt.Sprintf("it may exceed %d", low-1)}}
						})
						c.Oblige(ok, "packed", FnName(f)+" "+b.text(x), c.P.Pos(x.Pos()), "the size "+b.text(size)+" shares a field with the flags "+fmt.Sprintf("%#x", n)+" but "+why)
					}
				}
			}
		}
	}
	// steps that fail because a quantity doesn't fit, and the steps that fail with them
	fails := map[*ssa.Function]bool{}
	for f := range measures {
		if errIndex(f.Signature) >= 0 {
			fails[f] = true
		}
	}
	for round := 0; round < 2; round++ {
		next := map[*ssa.Function]bool{}
		for _, f := range c.P.SrcFuncs(c.P.Root, c.P.Lgx, c.P.Canned) {
			if fails[f] || errIndex(f.Signature) < 0 {
				continue
			}
			for _, blk := range f.Blocks {
				for _, i := range blk.Instrs {
					if ci, ok := i.(*ssa.Call); ok {
						for _, g := range c.P.Callees(ci) {
							if fails[g] {
								next[f] = true
							}
						}
					}
				}
			}
		}
		for f := range next {
			fails[f] = true
		}
	}
	e := newErrCheck(c)
	e.only = func(ci ssa.CallInstruction) bool {
		for _, g := range c.P.Callees(ci) {
			if fails[g] {
				return true
			}
		}
		// a full item refuses what is encoded into it
		n := calleeName(ci.Common())
		if n == "encoding/binary.Write" || strings.HasSuffix(n, "io.Writer).Write") {
			t := ci.Common().Args
			if mi, ok := t[0].(*ssa.MakeInterface); ok {
				for f := range fails {
					if r := f.Signature.Recv(); r != nil && f.Name() == "Write" && types.Identical(deref(r.Type()), deref(mi.X.Type())) {
						return true
					}
				}
			}
		}
		return false
	}
	for _, f := range c.P.SrcFuncs(c.P.Root, c.P.Lgx) {
		e.function(f)
	}
	c.Info["quantities converted but never sent"] = unsent
	c.Info["functions that fail when a quantity doesn't fit"] = len(fails)
	c.Floor("fits", 8)
	c.Floor("packed", 1)
	c.Floor("same", 1)
	c.Floor("examined", 20)
	c.Floor("reported", 20)
}
