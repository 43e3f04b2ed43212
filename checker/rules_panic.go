package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Panic freedom (C13, C14, C15, C35): every instruction that panics unless a condition holds is an
// obligation, and the condition is proved from what dominates it.

var panicRuleText = map[string]string{
	"index":   "every index lies within the length of what it indexes",
	"slice":   "the bounds of every slice expression are ordered and within the length",
	"toarray": "a slice converted to an array is long enough",
	"div":     "no divisor is zero",
	"shift":   "no shift count is negative",
	"make":    "no length or capacity of a new slice or channel is negative or out of order",
	"assert":  "a type assertion without a second result is made on a value known to have the type",
	"binary":  "a fixed-width decode or encode is given enough bytes",
	"ticker":  "a ticker's interval is positive",
	"repeat":  "no repeat count is negative",
	"bufneg":  "no buffer is advanced by a negative count",
	"nilmap":  "every map that is written to has been made",
	"nil":     "every pointer, interface and function value used is known not to be nil",
	"reflect": "every reflect operation is applied to a value of a kind that has it, within its length, and to an existing value",
	"set":     "a value stored or converted through reflect is known to be of a type that permits it",
	"panic":   "nothing calls panic",
}

// panicAssumed are obligations the source alone cannot settle, each with the reason it holds.
var panicAssumed = map[string]string{
	"(multiError).Is|index|e.errs[0]": "only errors that occurred are collected, and the value is returned only when there is one",
}

// callsOnly tells whether the function value of a call is decided elsewhere.
func (b *bounds) isConn(o oblig) bool {
	v := derefValue(o.ins)
	cv := b.canon(b.root(o.ins.Parent()), v)
	if cv.ld == nil {
		return false
	}
	s := cv.ld.addr.steps
	return len(s) > 0 && s[len(s)-1].field == "conn" && typeName(s[len(s)-1].typ) == "Client"
}

// partition of the library's functions by who drives them.
type drive struct{ server, client, l5x map[*ssa.Function]bool }

func driven(p *Prog) drive {
	var sroots, croots []*ssa.Function
	for _, n := range []string{"Serve"} {
		if f := p.Method("Server", n); f != nil {
			sroots = append(sroots, f)
		}
	}
	var ep *types.Interface
	if n := p.Named("CIPEndpoint"); n != nil {
		ep, _ = n.Underlying().(*types.Interface)
	}
	isEndpoint := func(n *types.Named) bool {
		if ep == nil {
			return false
		}
		if types.Implements(types.NewPointer(n), ep) {
			return true
		}
		if n.TypeParams().Len() == 0 {
			return false
		}
		have := map[string]bool{}
		for i := 0; i < n.NumMethods(); i++ {
			have[n.Method(i).Name()] = true
		}
		for i := 0; i < ep.NumMethods(); i++ {
			if !have[ep.Method(i).Name()] {
				return false
			}
		}
		return true
	}
	endpoint := map[*types.Named]bool{}
	for _, n := range p.allNamed {
		if _, ok := n.Underlying().(*types.Interface); !ok && isEndpoint(n) {
			endpoint[n] = true
		}
	}
	serverType := func(n *types.Named) bool {
		if n == nil {
			return false
		}
		return endpoint[n.Origin()] || n.Obj().Name() == "Server"
	}
	for _, f := range p.SrcFuncs(p.Root, p.Lgx, p.Canned) {
		if f.Parent() != nil {
			continue
		}
		var rn *types.Named
		if r := f.Signature.Recv(); r != nil {
			rn = namedOf(deref(r.Type()))
		}
		if rn != nil && endpoint[rn.Origin()] {
			sroots = append(sroots, f)
			continue
		}
		if exportedFn(f) && !serverType(rn) {
			croots = append(croots, f)
		}
	}
	d := drive{server: p.Reach(sroots...), client: p.Reach(croots...), l5x: map[*ssa.Function]bool{}}
	for _, f := range p.SrcFuncs(p.Root, p.Lgx, p.Canned) {
		if !d.server[f] && !d.client[f] {
			d.client[f] = true
		}
	}
	for _, f := range p.SrcFuncs(p.L5x) {
		d.l5x[f] = true
	}
	return d
}

// panicRules decides every obligation of the given functions that keep admits.
func panicRules(c *Check, fns map[*ssa.Function]bool, keep func(b *bounds, o oblig) bool) {
	b := newBounds(c.P)
	nf := 0
	used := map[string]string{}
	for _, f := range c.P.SrcFuncs() {
		if !fns[f] {
			continue
		}
		nf++
		seen := map[string]int{}
		for _, o := range append(b.obligations(f), b.derefs(f)...) {
			if o.kind == "panic" && !o.ins.Pos().IsValid() {
				continue // of the compiler's making: a blocking select without a matching case
			}
			if o.kind == "nil" && b.isConn(o) {
				continue // decided by C09
			}
			if c.Rules[o.kind] == "" {
				c.Rule(o.kind, panicRuleText[o.kind])
			}
			key := FnName(f) + "|" + o.text
			ok, why := b.checkAny(o)
			if !ok {
				ak := FnName(f) + "|" + o.kind + "|" + o.text
				if f.Signature.Recv() != nil && len(f.Params) > 0 {
					if rest, ok := strings.CutPrefix(o.text, f.Params[0].Name()+"."); ok {
						ak = FnName(f) + "|" + o.kind + "|e." + rest
					}
				}
				if r := panicAssumed[ak]; r != "" {
					used[ak] = r
					ok = true
				}
			}
			if !ok && !keep(b, o) {
				continue // belongs to the other property
			}
			_ = seen
			c.Oblige(ok, o.kind, key, c.P.Pos(posOf(o.ins)), FnName(f)+": "+o.kind+" "+o.text+": "+why)
		}
	}
	c.Info["functions_analysed"] = nf
	c.Info["assumed"] = used
}

// checkAny decides one obligation of any kind.
func (b *bounds) checkAny(o oblig) (bool, string) {
	switch o.kind {
	case "nil":
		return b.checkNil(o)
	case "nilmap":
		return b.checkNilMap(o)
	case "panic":
		return false, "explicit panic"
	case "set":
		return b.checkSet(o)
	}
	return b.check(o)
}

// checkNilMap: the map of an update was made, or holds an entry.
func (b *bounds) checkNilMap(o oblig) (bool, string) {
	mu := o.ins.(*ssa.MapUpdate)
	return b.mapMadeAt(b.root(mu.Parent()), mu, 0)
}

// mapMadeAt: in the function on its own, or as every caller reaches it.
func (b *bounds) mapMadeAt(ctx *pctx, mu *ssa.MapUpdate, d int) (bool, string) {
	ok, w := b.mapMade(ctx, mu.Map, point{ctx, mu.Block(), mu}, 0)
	if ok || d > 3 {
		return ok, w
	}
	cs, all := b.callers(ctx)
	if !all || len(cs) > 40 {
		return false, w
	}
	for _, c := range cs {
		if ok, w := b.mapMadeAt(c, mu, d+1); !ok {
			return false, w
		}
	}
	return true, ""
}

func (b *bounds) mapMade(ctx *pctx, v ssa.Value, pt point, d int) (bool, string) {
	if d > 10 {
		return false, "the map could not be followed"
	}
	cv := b.canon(ctx, v)
	if n, ok := b.facts(pt).isNil[cv.key]; ok && !n {
		return true, ""
	}
	b.work = 0
	if b.prove(b.lenOf(ctx, v).addK(-1), pt, nil, 0) {
		return true, ""
	}
	if cv.ld != nil {
		p := cv.ld.addr
		if len(p.steps) == 0 || p.steps[len(p.steps)-1].field == "" {
			return false, "the map may not have been made"
		}
		st := p.steps[len(p.steps)-1]
		n := namedOf(st.typ)
		if n == nil || !b.libPkg(n.Obj().Pkg()) {
			return false, "the map may not have been made"
		}
		if u, isLoad := v.(*ssa.UnOp); isLoad {
			if fa, isField := u.X.(*ssa.FieldAddr); isField && b.facts(pt).stored[b.canon(ctx, fa.X).key+"."+st.field] {
				if _, w := b.storesFilled(n, st.field); w == "" {
					return true, "" // made earlier on every path here, and never set to nil
				}
			}
		}
		ok, w := b.fieldFilled(n, st.field)
		if ok && !b.everStored(n, st.field) {
			return false, "nothing makes the map " + st.field
		}
		return ok, w
	}
	k := "mm" + cv.key
	if b.busy[k] {
		return true, ""
	}
	b.busy[k] = true
	defer delete(b.busy, k)
	switch x := cv.v.(type) {
	case *ssa.MakeMap:
		return true, ""
	case *ssa.Phi:
		for i, e := range x.Edges {
			ef := b.edgePF(cv.ctx, x.Block(), i)
			if n, ok := ef.isNil[b.canon(cv.ctx, e).key]; ok && !n {
				continue
			}
			if ok, w := b.mapMade(cv.ctx, e, point{cv.ctx, x.Block().Preds[i], nil}, d+1); !ok {
				if b.contradict(b.facts(pt), ef) {
					continue
				}
				return false, w
			}
		}
		return true, ""
	case *ssa.Parameter:
		if cs, ok := b.callers(cv.ctx); ok {
			for _, c := range cs {
				if ok, w := b.mapMade(c, x, point{c, c.fn.Blocks[0], c.fn.Blocks[0].Instrs[0]}, d+1); !ok {
					return false, w
				}
			}
			return true, ""
		}
		return false, "the caller may pass a nil map"
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return b.mapFromCall(cv.ctx, c, x.Index, pt, d)
		}
	case *ssa.Call:
		return b.mapFromCall(cv.ctx, x, 0, pt, d)
	case *ssa.UnOp:
		return true, "" // an element or a captured variable
	}
	return false, "the map may not have been made"
}

func (b *bounds) mapFromCall(ctx *pctx, c *ssa.Call, idx int, pt point, d int) (bool, string) {
	f := c.Call.StaticCallee()
	if f == nil || !b.p.InLib(f) || len(f.Blocks) == 0 {
		return false, "the map comes from " + shortCallee(&c.Call)
	}
	child := b.ctx(f, ctx, c, nil)
	last := f.Signature.Results().Len() - 1
	errNil := false
	if e := extractOf(c, last); e != nil && last > idx && isErrorType(f.Signature.Results().At(last).Type()) {
		n, ok := b.facts(pt).isNil[b.canon(ctx, e).key]
		errNil = ok && n
	}
	for _, blk := range f.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		rp := point{child, blk, r}
		if errNil && b.nonNilErr(child, r.Results[last], b.facts(rp)) {
			continue
		}
		more := newPF()
		if errNil {
			b.nilFacts(child, r.Results[last], true, false, more)
		}
		var ok2 bool
		var w string
		b.assuming(rp, more, func() { ok2, w = b.mapMade(child, r.Results[idx], rp, d+1) })
		if !ok2 {
			return false, w
		}
	}
	return true, ""
}

func (b *bounds) everStored(n *types.Named, field string) bool {
	for _, f := range b.p.Funcs {
		if b.storesField(f, n, field) {
			return true
		}
	}
	return false
}

// posOf gives an instruction's position, or that of its neighbours.
func posOf(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	blk := i.Block()
	at := -1
	for k, j := range blk.Instrs {
		if j == i {
			at = k
		}
	}
	for d := 1; d < len(blk.Instrs); d++ {
		for _, k := range []int{at - d, at + d} {
			if k >= 0 && k < len(blk.Instrs) && blk.Instrs[k].Pos().IsValid() {
				return blk.Instrs[k].Pos()
			}
		}
	}
	return i.Parent().Pos()
}

// source tells what decides the operands of an instruction: received data, arguments of exported functions.
func (b *bounds) source(ins ssa.Instruction) (recv, args bool) {
	seen := map[ssa.Value]bool{}
	n := 0
	readers := func(name string) bool {
		return strings.Contains(name, "encoding/binary.Read") || strings.HasSuffix(name, ".DeSerialize") || strings.HasSuffix(name, ".recvData") || strings.HasSuffix(name, ".readItems") ||
			strings.HasSuffix(name, "io.ReadFull") || strings.HasSuffix(name, ".Unpack") || strings.HasSuffix(name, ".send_recv_data") || strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasPrefix(name, "(*bytes.Reader).") || strings.HasPrefix(name, "invoke:io.Reader")
	}
	var visit func(v ssa.Value)
	var addr func(v ssa.Value)
	call := func(c *ssa.Call, idx int) {
		nm := calleeName(&c.Call)
		if readers(nm) {
			recv = true
		}
		if f := c.Call.StaticCallee(); f != nil && b.p.InLib(f) && len(f.Blocks) > 0 {
			for _, blk := range f.Blocks {
				if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
					visit(r.Results[idx])
				}
			}
			return
		}
		for _, a := range c.Call.Args {
			visit(a)
		}
	}
	addr = func(v ssa.Value) {
		switch x := v.(type) {
		case *ssa.Alloc:
			if x.Referrers() == nil {
				return
			}
			var uses func(v ssa.Value, d int)
			uses = func(v ssa.Value, d int) {
				if v.Referrers() == nil || d > 4 {
					return
				}
				for _, r := range *v.Referrers() {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr == v {
							visit(y.Val)
						}
					case *ssa.MakeInterface:
						uses(y, d+1)
					case *ssa.FieldAddr:
						uses(y, d+1)
					case *ssa.IndexAddr:
						uses(y, d+1)
					case *ssa.Slice:
						uses(y, d+1)
					case *ssa.Call:
						if readers(calleeName(&y.Call)) {
							recv = true
						}
					}
				}
			}
			uses(x, 0)
		case *ssa.FieldAddr:
			t, fl, _ := fieldOf(x)
			if t == "CIPItem" || t == "cipItemHeader" || t == "eipHeader" {
				recv = true
			}
			addr(x.X)
			visit(x.X)
			if n < 400 {
				nm := namedOf(deref(x.X.Type()))
				for _, f := range b.p.Funcs {
					if nm == nil || pkgOf(f) == nil {
						continue
					}
					for _, blk := range f.Blocks {
						for _, i := range blk.Instrs {
							if s, ok := i.(*ssa.Store); ok {
								if fa, ok := s.Addr.(*ssa.FieldAddr); ok && structFieldName(deref(fa.X.Type()), fa.Field) == fl {
									if m := namedOf(deref(fa.X.Type())); m != nil && m.Origin() == nm.Origin() {
										visit(s.Val)
									}
								}
							}
						}
					}
				}
			}
		case *ssa.IndexAddr:
			visit(x.X)
		default:
			visit(v)
		}
	}
	visit = func(v ssa.Value) {
		if v == nil || seen[v] || n > 3000 {
			return
		}
		seen[v] = true
		n++
		switch x := v.(type) {
		case *ssa.Parameter:
			f := x.Parent()
			if exportedFn(f) {
				if nm := namedOf(deref(x.Type())); nm != nil && (nm.Obj().Name() == "CIPItem" || nm.Obj().Name() == "Buffer" || nm.Obj().Name() == "Reader") {
					recv = true
				}
				if f.Signature.Recv() == nil || len(f.Params) == 0 || f.Params[0] != x {
					args = true
				}
			}
			for _, ci := range b.p.CallersOf(f) {
				c := ci.Common()
				for i, q := range f.Params {
					if q != x {
						continue
					}
					if c.IsInvoke() {
						i--
					}
					if i >= 0 && i < len(c.Args) {
						visit(c.Args[i])
					}
				}
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				call(c, x.Index)
				return
			}
			visit(x.Tuple)
		case *ssa.Call:
			call(x, 0)
		case *ssa.UnOp:
			if x.Op.String() == "*" {
				addr(x.X)
				return
			}
			visit(x.X)
		case *ssa.Alloc:
			addr(x)
		case *ssa.FreeVar:
			f := x.Parent()
			for i, q := range f.FreeVars {
				if q != x || f.Parent() == nil {
					continue
				}
				for _, blk := range f.Parent().Blocks {
					for _, in := range blk.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
							visit(mc.Bindings[i])
						}
					}
				}
			}
		default:
			if in, ok := v.(ssa.Instruction); ok {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						visit(*op)
					}
				}
			}
		}
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil {
			visit(*op)
		}
	}
	return
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func init() {
	rules["C13"] = func(c *Check) {
		d := driven(c.P)
		panicRules(c, d.client, func(b *bounds, o oblig) bool {
			recv, args := b.source(o.ins)
			return recv || !args
		})
		itemInvariant(c)
		ends(c, d.client)
		c.Floor("index", 60)
		c.Floor("slice", 40)
		c.Floor("nil", 120)
		c.Floor("item-pos", 8)
	}
	rules["C15"] = func(c *Check) {
		d := driven(c.P)
		panicRules(c, d.client, func(b *bounds, o oblig) bool {
			recv, args := b.source(o.ins)
			return args || !recv
		})
		c.Floor("index", 60)
		c.Floor("slice", 40)
		c.Floor("nilmap", 10)
	}
	rules["C14"] = func(c *Check) {
		d := driven(c.P)
		panicRules(c, d.server, func(b *bounds, o oblig) bool { return true })
		itemInvariant(c)
		ends(c, d.server)
		c.Floor("index", 60)
		c.Floor("slice", 20)
		c.Floor("ticker", 1)
		c.Floor("nil", 100)
	}
	rules["C35"] = func(c *Check) {
		d := driven(c.P)
		panicRules(c, d.l5x, func(b *bounds, o oblig) bool { return true })
		ends(c, d.l5x)
		c.Floor("nil", 30)
		c.Floor("nilmap", 6)
		c.Floor("index", 3)
	}
}

// itemInvariant: the read position of an item stays within its data. The decoders rely on it.
func itemInvariant(c *Check) {
	c.Rule("item-pos", "every store to an item's read position keeps it between zero and the length of the item's data")
	c.Rule("item-data", "an item's data is never replaced by something shorter than its read position, unless the position is reset at once")
	b := newBounds(c.P)
	sib := func(ctx *pctx, fa *ssa.FieldAddr, name string, at ssa.Instruction) (cval, types.Type, bool) {
		st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
		if !ok {
			return cval{}, nil, false
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != name {
				continue
			}
			a := b.fn(fa.Parent())
			p := a.path(fa)
			if p == nil {
				return cval{}, nil, false
			}
			steps := append([]astep(nil), p.steps...)
			if len(steps) == 0 {
				return cval{}, nil, false
			}
			last := steps[len(steps)-1]
			last.field, last.fidx = name, i
			steps[len(steps)-1] = last
			np := &apath{root: p.root, ld: p.ld, steps: steps, typ: st.Field(i).Type()}
			cv, ok := b.resolve(ctx, &mload{np, a.verAt(np.class(), at)}, 0)
			return cv, st.Field(i).Type(), ok
		}
		return cval{}, nil, false
	}
	for _, f := range c.P.SrcFuncs() {
		for _, blk := range f.Blocks {
			for k, i := range blk.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t, fl, _ := fieldOf(fa)
				if t != "CIPItem" {
					continue
				}
				switch fl {
				case "Pos":
					con := FnName(f) + "|Pos=" + b.text(s.Val)
					ok, why := b.decide(i, func(ctx *pctx) []goal {
						v := b.lin(ctx, s.Val)
						cv, dt, ok := sib(ctx, fa, "Data", s)
						if !ok {
							return []goal{{l: linConst(-1), what: "the data could not be followed"}}
						}
						return []goal{{l: v, what: "position may be negative"}, {l: b.lenCV(cv, dt).sub(v), what: "position may pass the end of the data"}}
					})
					if !ok {
						if base, k := backBy(s); k > 0 && b.justRead(base, k, s, 0) {
							ok = true // a position that has advanced by at least as much goes back
						}
					}
					c.Oblige(ok, "item-pos", con, c.P.Pos(s.Pos()), FnName(f)+": "+why)
				case "Data":
					con := FnName(f) + "|Data=" + b.text(s.Val)
					reset := false
					for _, j := range blk.Instrs[k+1:] {
						if _, isCall := j.(ssa.CallInstruction); isCall {
							break
						}
						if s2, ok := j.(*ssa.Store); ok {
							if fa2, ok := s2.Addr.(*ssa.FieldAddr); ok {
								if t, fl, _ := fieldOf(fa2); t == "CIPItem" && fl == "Pos" && b.text(fa2.X) == b.text(fa.X) {
									reset = true
								}
							}
						}
					}
					if reset {
						c.Oblige(true, "item-data", con, "", "")
						continue
					}
					ok, why := b.decide(i, func(ctx *pctx) []goal {
						cv, pt, ok := sib(ctx, fa, "Pos", s)
						if !ok {
							return []goal{{l: linConst(-1), what: "the position could not be followed"}}
						}
						return []goal{{l: b.lenOf(ctx, s.Val).sub(b.linCV(cv, pt)), what: "the position may pass the end of the new data"}}
					})
					if !ok && b.freshItem(fa.X, 0) {
						ok = true // nothing has been read from it yet
					}
					c.Oblige(ok, "item-data", con, c.P.Pos(s.Pos()), FnName(f)+": "+why)
				}
			}
		}
	}
}

// backBy recognises item.Pos = item.Pos - k and gives the item and k.
func backBy(s *ssa.Store) (ssa.Value, int64) {
	fa := s.Addr.(*ssa.FieldAddr)
	bo, ok := s.Val.(*ssa.BinOp)
	if !ok {
		return nil, 0
	}
	u, ok := bo.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, 0
	}
	fb, ok := u.X.(*ssa.FieldAddr)
	if !ok || fb.X != fa.X || fb.Field != fa.Field {
		return nil, 0
	}
	k, ok := bo.Y.(*ssa.Const)
	if !ok || k.Value == nil {
		return nil, 0
	}
	n := k.Int64()
	switch bo.Op {
	case token.SUB:
	case token.ADD:
		n = -n
	default:
		return nil, 0
	}
	if n <= 0 {
		return nil, 0
	}
	return fa.X, n
}

// justRead: on every path to an instruction a value of at least k bytes was read from the item, and the
// position has not been moved back since.
func (b *bounds) justRead(item ssa.Value, k int64, at ssa.Instruction, d int) bool {
	f := at.Parent()
	if d > 3 {
		return false
	}
	// the only place here that moves the position back
	for _, blk := range f.Blocks {
		for _, i := range blk.Instrs {
			if s, ok := i.(*ssa.Store); ok && i != at {
				if t, fl, _ := fieldOf(s.Addr); t == "CIPItem" && fl == "Pos" {
					return false
				}
			}
		}
	}
	ctx := b.root(f)
	pf := b.facts(point{ctx, at.Block(), at})
	key := b.canon(ctx, item).key
	for _, blk := range f.Blocks {
		if !blk.Dominates(at.Block()) {
			continue
		}
		for _, i := range blk.Instrs {
			if i == at {
				break
			}
			c, ok := i.(*ssa.Call)
			if !ok || b.readSize(c, func(v ssa.Value) bool { return b.canon(ctx, v).key == key }) < k {
				continue
			}
			e := ssa.Value(c)
			if n := c.Call.Signature().Results().Len(); n > 1 {
				e = extractOf(c, n-1)
			}
			if e == nil {
				continue
			}
			if isNil, ok := pf.isNil[b.canon(ctx, e).key]; !ok || !isNil {
				continue
			}
			// and again before every repetition
			if cyclic(at.Block(), blk) {
				continue
			}
			return true
		}
	}
	p, ok := item.(*ssa.Parameter)
	if !ok {
		return false
	}
	cs, ok := b.callers(ctx)
	if !ok || len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		ci, ok := c.site.(ssa.CallInstruction)
		if !ok || !b.justRead(b.arg(c, p), k, ci, d+1) {
			return false
		}
	}
	return true
}

// readSize is the number of bytes a call reads from an item when it succeeds.
func (b *bounds) readSize(c *ssa.Call, isItem func(ssa.Value) bool) int64 {
	a := c.Call.Args
	unwrap := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			default:
				return v
			}
		}
	}
	target := func(v ssa.Value) int64 {
		if p, ok := unwrap(v).Type().Underlying().(*types.Pointer); ok {
			return fixedSize(p.Elem())
		}
		return 0
	}
	switch n := calleeName(&c.Call); {
	case n == "encoding/binary.Read" && len(a) == 3 && isItem(unwrap(a[0])):
		return target(a[2])
	case strings.HasSuffix(n, "CIPItem).DeSerialize") && len(a) == 2 && isItem(a[0]):
		return target(a[1])
	}
	g := c.Call.StaticCallee()
	if g == nil || !b.p.InLib(g) || g.Signature.Recv() == nil || len(a) == 0 || !isItem(a[0]) || len(g.Params) == 0 {
		return 0
	}
	if r := g.Signature.Results(); r.Len() != 2 || !isErrorType(r.At(1).Type()) {
		return 0
	}
	most := int64(0)
	for _, blk := range g.Blocks {
		for _, i := range blk.Instrs {
			if cc, ok := i.(*ssa.Call); ok && blk.Index == 0 {
				if k := b.readSize(cc, func(v ssa.Value) bool { return v == ssa.Value(g.Params[0]) }); k > most {
					most = k
				}
			}
		}
	}
	return most
}

// cyclic: a block can be reached from itself without passing through cut.
func cyclic(from, cut *ssa.BasicBlock) bool {
	if from == cut {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), from.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == from {
			return true
		}
		if seen[x] || x == cut {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// freshItem: an item made in this function from which nothing has been read: nobody else has it, and its
// position is never set here.
func (b *bounds) freshItem(v ssa.Value, d int) bool {
	var made ssa.Value
	switch x := v.(type) {
	case *ssa.Parameter:
		cs, ok := b.callers(b.root(x.Parent()))
		if !ok || len(cs) == 0 || d > 3 {
			return false
		}
		for _, c := range cs {
			if !b.freshItem(b.arg(c, x), d+1) {
				return false
			}
		}
		return true
	case *ssa.Alloc:
		made = x
	case *ssa.IndexAddr:
		switch y := x.X.(type) {
		case *ssa.MakeSlice:
			made = y
		case *ssa.Slice:
			if al, ok := y.X.(*ssa.Alloc); ok {
				made = al
			}
		}
	}
	if made == nil || made.Referrers() == nil {
		return false
	}
	ok := true
	var uses func(v ssa.Value, d int)
	uses = func(v ssa.Value, d int) {
		if d > 5 || v.Referrers() == nil {
			ok = false
			return
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				uses(y, d+1)
			case *ssa.Slice:
				uses(y, d+1)
			case *ssa.FieldAddr:
				switch structFieldName(deref(y.X.Type()), y.Field) {
				case "Pos":
					for _, q := range *y.Referrers() {
						if s, isStore := q.(*ssa.Store); isStore && s.Addr == ssa.Value(y) {
							ok = false
						}
					}
				case "Data", "Header":
				default:
					ok = false
				}
			case *ssa.UnOp, *ssa.Return, *ssa.DebugRef, *ssa.Phi:
				// read, or handed out at the end
			case *ssa.Call:
				if bi, isB := y.Call.Value.(*ssa.Builtin); isB && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				g := y.Call.StaticCallee()
				if g == nil || !b.p.InLib(g) || len(g.Blocks) == 0 {
					ok = false
					continue
				}
				for t := range b.modset(g) {
					if strings.HasSuffix(t, ".CIPItem.Pos") {
						ok = false
					}
				}
			default:
				ok = false
			}
		}
	}
	uses(made, 0)
	return ok
}
