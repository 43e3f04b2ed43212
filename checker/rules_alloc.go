package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C34: what received lengths and counts make the library allocate is bounded.

func init() { rules["C34"] = boundedAlloc }

type allocCheck struct {
	c       *Check
	p       *Prog
	b       *bounds
	decoded map[*types.Named]bool // types that are filled from received data
	stores  map[string][]ssa.Value
	memo    map[ssa.Value]int
}

func isDecode(p *Prog, cm *ssa.CallCommon) bool {
	n := calleeName(cm)
	switch {
	case n == "encoding/binary.Read", n == "encoding/binary.Decode":
		return true
	case strings.HasSuffix(n, ".DeSerialize"), strings.HasSuffix(n, ".Unpack"):
		return true
	}
	return false
}

func newAllocCheck(c *Check) *allocCheck {
	k := &allocCheck{c: c, p: c.P, b: newBounds(c.P), decoded: map[*types.Named]bool{}, stores: map[string][]ssa.Value{}, memo: map[ssa.Value]int{}}
	for _, f := range c.P.SrcFuncs() {
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				switch x := i.(type) {
				case *ssa.Call:
					if isDecode(c.P, x.Common()) {
						for _, a := range x.Call.Args {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								k.decodedType(mi.X.Type())
							}
						}
					}
				case *ssa.Store:
					if t, fld, ok := fieldOf(x.Addr); ok {
						k.stores[t+"."+fld] = append(k.stores[t+"."+fld], x.Val)
					}
				}
			}
		}
	}
	return k
}

func (k *allocCheck) decodedType(t types.Type) {
	t = deref(t)
	if n := namedOf(t); n != nil {
		if k.decoded[n.Origin()] {
			return
		}
		k.decoded[n.Origin()] = true
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			k.decodedType(s.Field(i).Type())
		}
	}
}

// received: the integer comes from received data (a length of something in memory does not).
func (k *allocCheck) received(v ssa.Value) bool {
	if r, ok := k.memo[v]; ok {
		return r == 1
	}
	k.memo[v] = 0
	r := k.received1(v)
	if r {
		k.memo[v] = 1
	}
	return r
}

func (k *allocCheck) received1(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		return k.received(x.X) || k.received(x.Y)
	case *ssa.Convert:
		return isInt(x.X.Type()) && k.received(x.X)
	case *ssa.ChangeType:
		return k.received(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k.received(e) {
				return true
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return k.result(c, x.Index)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return k.received(ta.X)
		}
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok {
			n := x.Call.Value.Name()
			if n == "min" || n == "max" {
				for _, a := range x.Call.Args {
					if k.received(a) {
						return true
					}
				}
			}
			return false
		}
		return k.result(x, 0)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return k.received(x.X)
		}
		return k.loaded(x.X)
	case *ssa.Field:
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return k.field(x.X.Type(), st.Field(x.Field).Name())
		}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			for _, ci := range k.p.CallersOf(x.Parent()) {
				cm := ci.Common()
				j := i
				if cm.IsInvoke() {
					j--
				}
				if j >= 0 && j < len(cm.Args) && k.received(cm.Args[j]) {
					return true
				}
			}
		}
	case *ssa.FreeVar:
		return k.loaded(x)
	}
	return false
}

func (k *allocCheck) field(t types.Type, name string) bool {
	n := namedOf(deref(t))
	if n != nil && k.decoded[n.Origin()] {
		return true
	}
	tn := typeName(deref(t))
	for _, s := range k.stores[tn+"."+name] {
		if k.received(s) {
			return true
		}
	}
	return false
}

func (k *allocCheck) loaded(addr ssa.Value) bool {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		st, ok := deref(x.X.Type()).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		return k.field(x.X.Type(), st.Field(x.Field).Name())
	case *ssa.IndexAddr:
		// an element: received when the bytes are
		if s, ok := x.X.Type().Underlying().(*types.Slice); ok {
			if bt, ok := s.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				return true
			}
		}
		return k.container(x.X, map[ssa.Value]bool{})
	case *ssa.Alloc, *ssa.FreeVar:
		if x.Referrers() == nil {
			return false
		}
		return k.filled(x, 0)
	}
	return false
}

// container: a slice or array that was decoded into, or that received values were stored in.
func (k *allocCheck) container(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		return k.container(x.X, seen)
	case *ssa.Alloc, *ssa.MakeSlice:
		return k.filled(v, 0)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k.container(e, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return k.loaded(fa)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			return k.filled(al, 0)
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if _, ok := a.Type().Underlying().(*types.Slice); ok && k.container(a, seen) {
				return true
			}
		}
	}
	return false
}

func (k *allocCheck) filled(v ssa.Value, d int) bool {
	if d > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v && k.received(x.Val) {
				return true
			}
		case *ssa.MakeInterface:
			for _, q := range *x.Referrers() {
				if c, ok := q.(*ssa.Call); ok && isDecode(k.p, c.Common()) {
					return true
				}
			}
		case *ssa.IndexAddr, *ssa.Slice:
			if k.filled(r.(ssa.Value), d+1) {
				return true
			}
		case *ssa.MakeClosure:
			for i, bnd := range x.Bindings {
				if bnd == v {
					if k.filled(x.Fn.(*ssa.Function).FreeVars[i], d+1) {
						return true
					}
				}
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || !k.p.InLib(f) {
				continue
			}
			for i, a := range x.Call.Args {
				if a == v && i < len(f.Params) && k.filled(f.Params[i], d+1) {
					return true
				}
			}
		}
	}
	return false
}

func (k *allocCheck) result(c *ssa.Call, i int) bool {
	n := calleeName(c.Common())
	if strings.HasPrefix(n, "(encoding/binary.") && strings.Contains(n, "ndian).Uint") || strings.HasPrefix(n, "encoding/binary.ReadUvarint") || strings.HasPrefix(n, "encoding/binary.Uvarint") ||
		n == "(*bytes.Buffer).ReadByte" || n == "(*bytes.Reader).ReadByte" || strings.HasPrefix(n, "strconv.") && false {
		return true
	}
	for _, f := range k.p.Callees(c) {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) && k.received(r.Results[i]) {
				return true
			}
		}
	}
	return false
}

const allocCap = 1 << 20

// bounded: v is at most the cap, or at most a few times the length of something in memory.
func (k *allocCheck) bounded(v ssa.Value, i ssa.Instruction) (bool, string) {
	b := k.b
	ok, why := b.decide(i, func(ctx *pctx) []goal {
		l := b.lin(ctx, v)
		alts := [][]lin{{linConst(allocCap).sub(l)}}
		cs, _, _, _ := b.gather(l, point{ctx, i.Block(), i}, nil)
		seen := map[int]bool{}
		for _, c := range append(cs, l) {
			for _, t := range c.t {
				if !seen[t.a] && inMemory(b.atoms[t.a]) && len(seen) < 8 {
					seen[t.a] = true
					alts = append(alts, []lin{linConst(allocCap).add(linAtom(t.a).scale(4)).sub(l)})
				}
			}
		}
		return []goal{{alts: alts, what: "it may exceed what is in memory"}}
	})
	return ok, why
}

// inMemory: the atom is the length of something.
func inMemory(a *batom) bool {
	if a.isLen {
		return true
	}
	c, ok := a.cv.v.(*ssa.Call)
	return ok && strings.HasSuffix(calleeName(c.Common()), ").Len")
}

func boundedAlloc(c *Check) {
	k := newAllocCheck(c)
	b := k.b
	c.Rule("alloc", "the size of every allocation that follows from received data is at most 2^20 elements or a small multiple of what is already in memory")
	c.Rule("loop", "a loop that stores something in every turn and whose number of turns was received is limited the same way, or ends when the received data does")
	c.Rule("read", "nothing reads from a connection until it ends")
	free := 0
	for _, f := range c.P.SrcFuncs(c.P.Root, c.P.Lgx, c.P.Canned) {
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				var n []ssa.Value
				switch x := i.(type) {
				case *ssa.MakeSlice:
					n = append(n, x.Len)
					if x.Cap != x.Len {
						n = append(n, x.Cap)
					}
				case *ssa.MakeChan:
					n = append(n, x.Size)
				case *ssa.MakeMap:
					if x.Reserve != nil {
						n = append(n, x.Reserve)
					}
				case *ssa.Call:
					switch calleeName(x.Common()) {
					case "strings.Repeat", "bytes.Repeat", "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "slices.Grow":
						n = append(n, x.Call.Args[1])
					case "reflect.MakeSlice":
						n = append(n, x.Call.Args[1], x.Call.Args[2])
					case "reflect.MakeMapWithSize", "reflect.MakeChan", "reflect.ArrayOf":
						n = append(n, x.Call.Args[len(x.Call.Args)-1])
						if calleeName(x.Common()) == "reflect.ArrayOf" {
							n[len(n)-1] = x.Call.Args[0]
						}
					case "io.ReadAll", "io/ioutil.ReadAll", "(*bytes.Buffer).ReadFrom", "io.Copy":
						src := x.Call.Args[len(x.Call.Args)-1]
						c.Oblige(!k.fromSocket(src, 0), "read", FnName(f)+" "+shortCallee(x.Common()), c.P.Pos(x.Pos()), "everything a peer sends is read into memory")
					}
				}
				for _, v := range n {
					if _, ok := constInt64(v); ok {
						continue
					}
					if !k.received(v) {
						free++
						continue
					}
					ok, why := k.bounded(v, i)
					c.Oblige(ok, "alloc", FnName(f)+" "+b.text(v), c.P.Pos(posOf(i)), "the received number "+b.text(v)+" decides how much is allocated, but "+why)
				}
			}
		}
		k.loops(f)
	}
	c.Info["allocations whose size is not received"] = free
	c.Floor("alloc", 20)
}

func (k *allocCheck) fromSocket(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return k.fromSocket(x.X, d+1)
	case *ssa.ChangeInterface:
		return k.fromSocket(x.X, d+1)
	case *ssa.Call:
		if n := calleeName(x.Common()); n == "io.LimitReader" {
			return false
		} else if strings.HasPrefix(n, "bufio.NewReader") {
			return k.fromSocket(x.Call.Args[0], d+1)
		}
	case *ssa.UnOp, *ssa.Parameter, *ssa.Extract:
		return strings.Contains(typeString(v.Type()), "net.")
	}
	return strings.Contains(typeString(v.Type()), "net.")
}

// loops: counted loops that store in every turn.
func (k *allocCheck) loops(f *ssa.Function) {
	for _, h := range f.Blocks {
		if !isLoopHeader(h) {
			continue
		}
		body := loopBody(h)
		grows := false
		reads := false
		for blk := range body {
			for _, i := range blk.Instrs {
				switch x := i.(type) {
				case *ssa.MapUpdate:
					grows = true
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						grows = true
					}
					n := calleeName(x.Common())
					if strings.HasPrefix(n, "(*bytes.Buffer).Write") {
						grows = true
					}
					// a step that takes something from the received data and ends the loop when it fails
					if (isDecode(k.p, x.Common()) || strings.Contains(n, ".Read") || k.takes(x.Common())) && errIndex(x.Call.Signature()) >= 0 {
						if e := errVal(x); e != nil && leavesOn(e, body) {
							reads = true
						}
					}
				}
			}
		}
		if !grows || reads {
			continue
		}
		limited := false
		type limit struct {
			v   ssa.Value
			iff *ssa.If
			why string
		}
		var open []limit
		for blk := range body {
			iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
			if !ok || body[blk.Succs[0]] && body[blk.Succs[1]] {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok || !isInt(cmp.X.Type()) {
				continue
			}
			sides := []ssa.Value{cmp.X, cmp.Y}
			if from := countsDown(cmp.X, body); from != nil {
				sides = []ssa.Value{from}
			} else if from := countsDown(cmp.Y, body); from != nil {
				sides = []ssa.Value{from}
			}
			for _, v := range sides {
				if definedIn(v, body) {
					continue
				}
				if _, isC := v.(*ssa.Const); isC || !k.received(v) {
					if cmp.Op != token.EQL && cmp.Op != token.NEQ {
						limited = true
					}
					continue
				}
				if ok, why := k.bounded(v, iff); ok {
					limited = true
					k.c.Instance("loop", FnName(f)+" "+k.b.text(v))
				} else {
					open = append(open, limit{v, iff, why})
				}
			}
		}
		if limited {
			continue
		}
		for _, o := range open {
			k.c.Fail("loop", FnName(f)+" "+k.b.text(o.v), k.p.Pos(posOf(o.iff)), "the received number "+k.b.text(o.v)+" decides how often the loop stores something, but "+o.why)
		}
	}
}

// countsDown: the value a variable starts from when every turn takes something from it.
func countsDown(v ssa.Value, body map[*ssa.BasicBlock]bool) ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.SUB {
		v = b.X
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || !body[ph.Block()] {
		return nil
	}
	var from ssa.Value
	down := false
	for j, e := range ph.Edges {
		if !body[ph.Block().Preds[j]] {
			from = e
		} else if b, ok := e.(*ssa.BinOp); ok && b.Op == token.SUB && b.X == ph {
			down = true
		}
	}
	if down {
		return from
	}
	return nil
}

func definedIn(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return false // a field read again in every turn
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return definedIn(x.X, body)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
			for _, a := range x.Call.Args {
				if definedIn(a, body) {
					return true
				}
			}
			return false
		}
	case *ssa.Field:
		return definedIn(x.X, body)
	case *ssa.BinOp:
		return definedIn(x.X, body) || definedIn(x.Y, body)
	}
	return body[i.Block()]
}

// takes: a method of an item that reads from it.
func (k *allocCheck) takes(cm *ssa.CallCommon) bool {
	f := cm.StaticCallee()
	if f == nil || !k.p.InLib(f) {
		return false
	}
	if r := f.Signature.Recv(); r != nil && typeName(deref(r.Type())) == "CIPItem" {
		return true
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok && isDecode(k.p, c.Common()) {
				return true
			}
		}
	}
	return false
}

// leavesOn: a test of the error leads out of the loop.
func leavesOn(e ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				if visit(x) {
					return true
				}
			case *ssa.BinOp:
				for _, q := range *x.Referrers() {
					if iff, ok := q.(*ssa.If); ok {
						s := iff.Block().Succs[0]
						if x.Op == token.EQL {
							s = iff.Block().Succs[1]
						}
						if !reachesHeader(s, body) {
							return true
						}
					}
				}
			case *ssa.Return:
				return true
			}
		}
		return false
	}
	return visit(e)
}

// reachesHeader: from s the loop can go on.
func reachesHeader(s *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	return body[s]
}
