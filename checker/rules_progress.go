package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: operations that take several exchanges make progress with each of them, or end.

func init() { rules["C08"] = progress }

type progCheck struct {
	c      *Check
	p      *Prog
	b      *bounds
	ex     map[*ssa.Function]bool // functions that may take part in an exchange
	local  bool                   // not about exchanges: whether what moves on is sent does not matter
	flow   map[string]bool
	round  map[string]bool
	own    bool // spread: within the function's own values only
	itself bool // spread: the value itself, not what is looked up or asked for with it
}

// writesConn: the instruction puts bytes on a connection.
func writesConn(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	c := ci.Common()
	if c.IsInvoke() {
		return strings.HasPrefix(c.Method.Name(), "Write") && isConn(c.Value.Type())
	}
	if connWriteFuncs[calleeName(c)] && len(c.Args) > 0 {
		v := c.Args[0]
		if ch, ok := v.(*ssa.ChangeInterface); ok {
			v = ch.X
		}
		return isConn(v.Type())
	}
	if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && strings.HasPrefix(f.Name(), "Write") {
		return isConn(f.Signature.Recv().Type())
	}
	return false
}

func isConn(t types.Type) bool {
	switch typeString(t) {
	case "net.Conn", "*net.TCPConn", "*net.UDPConn":
		return true
	}
	return false
}

// closesConn: the function, or a closure of it, closes a connection: it ends things rather than continuing them.
func closesConn(f *ssa.Function) bool {
	for _, blk := range f.Blocks {
		for _, i := range blk.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if c.IsInvoke() && c.Method.Name() == "Close" && isConn(c.Value.Type()) {
				return true
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if closesConn(a) {
			return true
		}
	}
	return false
}

// teardown: a function without arguments that closes the connection, itself or through what it calls.
func (k *progCheck) teardown(f *ssa.Function) bool {
	if len(f.Params) > 1 {
		return false
	}
	if closesConn(f) {
		return true
	}
	for _, blk := range f.Blocks {
		for _, i := range blk.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, g := range k.p.Callees(ci) {
				if g != f && len(g.Params) <= 1 && k.p.InLib(g) && closesConn(g) {
					return true
				}
			}
		}
	}
	return false
}

func progress(c *Check) {
	p := c.P
	k := &progCheck{c: c, p: p, b: newBounds(p), flow: map[string]bool{}}
	c.Rule("loop", "every turn of a loop that exchanges frames with the device moves something on: a counter or offset strictly, a collection by at least one element, or received data by what was taken from it")
	c.Rule("varies", "what moves on decides the next request of the loop: the request is not the one just sent")
	c.Rule("recursion", "an operation that calls itself to continue passes a strictly larger start, a strictly shorter list, or refuses what it is already working on")
	c.Rule("continues", "what the recursive call moves on decides the request it sends")
	k.ex = p.Relevant(func(f *ssa.Function, i ssa.Instruction) bool { return writesConn(i) })
	client := p.Reach(p.Methods("Client")...)
	var srv []*ssa.Function
	for _, f := range p.Funcs {
		if r := f.Signature.Recv(); r != nil {
			if n := strings.ToLower(typeName(deref(r.Type()))); strings.HasPrefix(n, "server") {
				srv = append(srv, f)
			}
		}
	}
	server := p.Reach(srv...)
	var fs []*ssa.Function
	for _, f := range p.SrcFuncs() {
		if k.ex[f] && (client[f] || !server[f]) {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		for _, h := range f.Blocks {
			if isLoopHeader(h) {
				k.loop(f, h)
			}
		}
	}
	k.recursion(fs)
	c.Info["functions_that_exchange"] = len(fs)
	c.Floor("loop", 4)
	c.Floor("varies", 3)
	c.Floor("recursion", 2)
}

// exchanges: the instructions of the blocks that may exchange frames.
func (k *progCheck) exchanges(blocks map[*ssa.BasicBlock]bool) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for blk := range blocks {
		for _, i := range blk.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, isGo := i.(*ssa.Go); isGo {
				continue
			}
			hit := writesConn(i)
			for _, g := range k.p.Callees(ci) {
				hit = hit || k.ex[g]
			}
			for _, a := range ci.Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok {
					hit = hit || k.ex[mc.Fn.(*ssa.Function)]
				}
				if g, ok := a.(*ssa.Function); ok {
					hit = hit || k.ex[g]
				}
			}
			if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
				hit = hit || k.ex[mc.Fn.(*ssa.Function)]
			}
			if hit {
				out = append(out, ci)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// waits: the instruction blocks until an event, itself or in the library function it calls.
func (k *progCheck) waits(i ssa.Instruction, d int) bool {
	switch x := i.(type) {
	case *ssa.Select:
		return x.Blocking
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			g = mc.Fn.(*ssa.Function)
		}
		if g == nil || d > 2 || !k.p.InLib(g) || len(g.Blocks) == 0 {
			return false
		}
		for _, b := range g.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
				continue
			}
			on := false
			for _, q := range g.Blocks {
				if q.Dominates(b) {
					for _, j := range q.Instrs {
						on = on || k.waits(j, d+1)
					}
				}
			}
			if !on {
				return false
			}
		}
		return true
	}
	return false
}

// paced: every turn of the loop waits for an event and the function runs on its own.
func (k *progCheck) paced(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	waits := false
	for blk := range body {
		dom := true
		for _, p := range h.Preds {
			if h.Dominates(p) && !blk.Dominates(p) {
				dom = false
			}
		}
		if !dom {
			continue
		}
		for _, i := range blk.Instrs {
			waits = waits || k.waits(i, 0)
		}
	}
	if !waits {
		return false
	}
	seen := map[*ssa.Function]bool{}
	var started func(g *ssa.Function) bool
	started = func(g *ssa.Function) bool {
		if seen[g] {
			return true
		}
		seen[g] = true
		n := 0
		for _, ci := range k.p.CallersOf(g) {
			n++
			if _, ok := ci.(*ssa.Go); !ok && !started(ci.Parent()) {
				return false
			}
		}
		if g.Parent() != nil {
			for _, blk := range g.Parent().Blocks {
				for _, i := range blk.Instrs {
					if gi, ok := i.(*ssa.Go); ok {
						if mc, ok := gi.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(g) {
							n++
						}
						if gi.Call.Value == ssa.Value(g) {
							n++
						}
					}
				}
			}
		}
		return n > 0
	}
	return started(f)
}

func (k *progCheck) loop(f *ssa.Function, h *ssa.BasicBlock) {
	body := loopBody(h)
	exs := k.exchanges(body)
	if len(exs) == 0 {
		return
	}
	what := FnName(f) + " loop of " + shortCallee(exs[0].Common())
	pos := k.p.Pos(exs[0].Pos())
	if k.paced(f, h, body) {
		k.c.Instance("loop", what+" (waits for an event each turn)")
		return
	}
	var moved [][]ssa.Value // sources that strictly move on
	for _, i := range h.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if k.moves(f, h, body, ph) {
			moved = append(moved, []ssa.Value{ph})
		}
	}
	for blk := range body {
		for _, i := range blk.Instrs {
			switch x := i.(type) {
			case *ssa.Next:
				if !x.IsString && blk == h || blk.Dominates(h) || k.everyTurn(blk, h) {
					moved = append(moved, []ssa.Value{x})
				}
			}
		}
	}
	if s := k.consumed(h, body); len(s) > 0 {
		moved = append(moved, s)
	}
	moved = append(moved, k.collected(f, h, body)...)
	if len(moved) == 0 {
		k.c.Fail("loop", what, pos, "nothing is shown to move on between one exchange of the loop and the next: when the device returns nothing new, the same request is sent for ever")
		return
	}
	k.c.Instance("loop", what)
	for _, x := range exs {
		ok := false
		for _, m := range moved {
			ok = ok || k.reaches(m, f, body, x)
		}
		k.c.Oblige(ok, "varies", FnName(f)+" "+shortCallee(x.Common()), k.p.Pos(x.Pos()), "the request of "+shortCallee(x.Common())+" does not depend on what the loop moves on, so every turn sends the same request")
	}
}

// everyTurn: no turn of the loop avoids the block.
func (k *progCheck) everyTurn(blk, h *ssa.BasicBlock) bool {
	for _, p := range h.Preds {
		if h.Dominates(p) && !blk.Dominates(p) {
			return false
		}
	}
	return true
}

// atEdge proves a goal at the end of every turn.
func (k *progCheck) atEdge(h *ssa.BasicBlock, mk func(ctx *pctx, e int) lin) bool {
	var in func(ctx *pctx, d int) bool
	in = func(ctx *pctx, d int) bool {
		ok := true
		for e, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			g := mk(ctx, e)
			if !g.ok {
				return false
			}
			pf := k.b.edgePF(ctx, h, e)
			k.b.work = 0
			if !k.b.proveWith(g, point{ctx, p, nil}, pf.ge, pf, 0) && !k.byWays(g, ctx, h, p, pf) {
				if k.b.trace {
					fmt.Println("-- not shown:", FnName(h.Parent()), k.b.show(g))
				}
				ok = false
				break
			}
		}
		if ok {
			return true
		}
		if d > 2 {
			return false
		}
		cs, can := k.b.callers(ctx)
		if !can || len(cs) > 20 {
			return false
		}
		for _, c := range cs {
			if !in(c, d+1) {
				return false
			}
		}
		return true
	}
	return in(k.b.root(h.Parent()), 0)
}

// byWays proves a goal at the end of a turn for each way into a block that every turn passes.
func (k *progCheck) byWays(g lin, ctx *pctx, h, p *ssa.BasicBlock, pf *pfacts) bool {
	for j := p; j != nil && j != h; j = j.Idom() {
		if n := len(j.Preds); n < 2 || n > 4 || isLoopHeader(j) {
			continue
		}
		ok := true
		for e := range j.Preds {
			w := k.b.edgePF(ctx, j, e)
			w.ge = append(w.ge, pf.ge...)
			w.ne = append(w.ne, pf.ne...)
			k.b.work = 0
			if !k.b.proveWith(g, point{ctx, p, nil}, w.ge, w, 0) && !k.b.proveWith(linConst(-1), point{ctx, p, nil}, w.ge, w, 0) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// moves: the loop variable is strictly further on after every turn.
func (k *progCheck) moves(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ph *ssa.Phi) bool {
	b := k.b
	switch {
	case isInt(ph.Type()):
		if k.atEdge(h, func(ctx *pctx, e int) lin { return b.lin(ctx, ph.Edges[e]).sub(b.lin(ctx, ph)).addK(-1) }) {
			return true
		}
		if k.atEdge(h, func(ctx *pctx, e int) lin { return b.lin(ctx, ph).sub(b.lin(ctx, ph.Edges[e])).addK(-1) }) {
			return true
		}
		// what the transport says it has written: all of it, when there was no error
		all := true
		for e, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			add, ok := ph.Edges[e].(*ssa.BinOp)
			all = all && ok && add.Op == token.ADD && (add.X == ssa.Value(ph) && k.written(add.Y) || add.Y == ssa.Value(ph) && k.written(add.X))
		}
		return all
	case isList(ph.Type()):
		if k.atEdge(h, func(ctx *pctx, e int) lin { return b.lenOf(ctx, ph.Edges[e]).sub(b.lenOf(ctx, ph)).addK(-1) }) {
			return true
		}
		if k.atEdge(h, func(ctx *pctx, e int) lin { return b.lenOf(ctx, ph).sub(b.lenOf(ctx, ph.Edges[e])).addK(-1) }) {
			return true
		}
		all := true
		for e, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			s, ok := ph.Edges[e].(*ssa.Slice)
			all = all && ok && s.X == ssa.Value(ph) && s.Low != nil && s.High == nil && k.written(s.Low)
		}
		return all
	}
	return false
}

func isList(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return true
	}
	return isString(t)
}

// written: the count returned by a write to a connection.
func (k *progCheck) written(v ssa.Value) bool {
	e, ok := v.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return false
	}
	i, ok := e.Tuple.(ssa.Instruction)
	if !ok {
		return false
	}
	if writesConn(i) {
		return true
	}
	// a helper that passes the count on
	c, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil || !k.p.InLib(g) || len(g.Blocks) == 0 {
		return false
	}
	n := 0
	for _, blk := range g.Blocks {
		if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			if c, isC := r.Results[0].(*ssa.Const); isC && c.Value != nil {
				continue // with an error
			}
			n++
			if !k.written(r.Results[0]) {
				return false
			}
		}
	}
	return n > 0
}

// consumed: every turn takes something from received data, and the loop ends when that fails.
func (k *progCheck) consumed(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []ssa.Value {
	var out []ssa.Value
	al := &allocCheck{p: k.p}
	for blk := range body {
		if !k.everyTurn(blk, h) {
			continue
		}
		for _, i := range blk.Instrs {
			x, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			cm := x.Common()
			n := calleeName(cm)
			if !(isDecode(k.p, cm) || strings.HasPrefix(n, "(*bytes.") && strings.Contains(n, ".Read") || al.takes(cm)) {
				continue
			}
			if k.p.InLibCall(cm) {
				ex := false
				for _, g := range k.p.Callees(x) {
					ex = ex || k.ex[g]
				}
				if ex {
					continue
				}
			}
			if errIndex(cm.Signature()) < 0 {
				continue
			}
			e := errVal(x)
			if e == nil || !leavesOn(e, body) {
				continue
			}
			// the data must outlive the turn
			src := ssa.Value(nil)
			if cm.IsInvoke() {
				src = cm.Value
			} else if len(cm.Args) > 0 {
				src = cm.Args[0]
			}
			if src == nil || !k.outlives(src, body) {
				continue
			}
			if x.Referrers() != nil {
				out = append(out, x)
			}
			for _, a := range cm.Args[1:] {
				out = append(out, rootOf(a))
			}
		}
	}
	return out
}

// outlives: the value was made before the loop.
func (k *progCheck) outlives(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	r := rootOf(v)
	i, ok := r.(ssa.Instruction)
	return !ok || i.Block() == nil || !body[i.Block()]
}

type clientFieldKey struct {
	f *ssa.Function
	n int
}

var clientFields = map[clientFieldKey]ssa.Value{}

// ownField stands for a field of the client within a function: the fields are objects of their own.
func ownField(x *ssa.FieldAddr) ssa.Value {
	key := clientFieldKey{x.Parent(), x.Field}
	if clientFields[key] == nil {
		clientFields[key] = x
	}
	return clientFields[key]
}

// rootOf is the object an address or wrapped value leads to.
func rootOf(v ssa.Value) ssa.Value {
	for d := 0; d < 40; d++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if isClientPtr(x.X.Type()) {
				return ownField(x)
			}
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
	return v
}

// collected: buffers that hold more after every turn.
func (k *progCheck) collected(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) [][]ssa.Value {
	var out [][]ssa.Value
	for blk := range body {
		if !k.everyTurn(blk, h) {
			continue
		}
		for _, i := range blk.Instrs {
			x, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			n := calleeName(x.Common())
			if n != "(*bytes.Buffer).Write" && n != "(*bytes.Buffer).WriteString" {
				continue
			}
			buf, d := x.Call.Args[0], x.Call.Args[1]
			if !k.outlives(buf, body) {
				continue
			}
			shrinks := false
			for b2 := range body {
				for _, j := range b2.Instrs {
					if c, ok := j.(*ssa.Call); ok && len(c.Call.Args) > 0 && rootOf(c.Call.Args[0]) == rootOf(buf) {
						switch m := calleeName(c.Common()); {
						case strings.HasSuffix(m, ".Reset"), strings.HasSuffix(m, ".Truncate"), strings.HasSuffix(m, ".Next"), strings.Contains(m, ".Read"):
							shrinks = true
						}
					}
				}
			}
			if !shrinks && k.atEdge(h, func(ctx *pctx, e int) lin { return k.b.lenOf(ctx, d).addK(-1) }) {
				out = append(out, []ssa.Value{rootOf(buf)})
			}
		}
	}
	return out
}

func isClientPtr(t types.Type) bool { return typeName(deref(t)) == "Client" }

// reaches: what src holds has a part in the frame that the exchange x sends.
func (k *progCheck) reaches(src []ssa.Value, f *ssa.Function, body map[*ssa.BasicBlock]bool, x ssa.CallInstruction) bool {
	taint := k.spread(src, f, body)
	return k.callSends(taint, x, 0)
}

func (k *progCheck) spread(src []ssa.Value, f *ssa.Function, body map[*ssa.BasicBlock]bool) map[ssa.Value]bool {
	t := map[ssa.Value]bool{}
	for _, s := range src {
		t[s] = true
	}
	has := func(v ssa.Value) bool { return v != nil && (t[v] || t[rootOf(v)]) }
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value) {
			if v != nil && !t[v] {
				fa, isF := v.(*ssa.FieldAddr)
				if k.own && isF && isClientPtr(fa.X.Type()) {
					return // what the client remembers from call to call
				}
				if _, isC := v.(*ssa.Const); !isC {
					t[v] = true
					changed = true
				}
			}
		}
		for _, blk := range f.Blocks {
			if body != nil && !body[blk] {
				continue
			}
			for _, i := range blk.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if has(x.Val) {
						set(rootOf(x.Addr))
					}
				case *ssa.MapUpdate:
					if has(x.Value) || has(x.Key) {
						set(rootOf(x.Map))
					}
				case ssa.CallInstruction:
					cm := x.Common()
					if k.itself && len(cm.Args) > 0 && isClientPtr(cm.Args[0].Type()) {
						continue
					}
					hit := has(cm.Value)
					for _, a := range cm.Args {
						hit = hit || has(a) && !(isClientPtr(a.Type()) && !t[rootOf(a)])
					}
					if !hit {
						continue
					}
					if v, ok := x.(*ssa.Call); ok {
						set(v)
					}
					for _, a := range k.filledBy(x, has) {
						if r := rootOf(a); !isClientPtr(r.Type()) {
							set(r)
						}
					}
				case ssa.Value:
					if _, isL := x.(*ssa.Lookup); isL && k.itself {
						continue
					}
					for _, op := range i.Operands(nil) {
						if has(*op) {
							set(x)
						}
					}
				}
			}
		}
	}
	return t
}

// filledBy: the arguments of a call whose memory may hold what its tainted arguments hold afterwards.
func (k *progCheck) filledBy(x ssa.CallInstruction, has func(ssa.Value) bool) []ssa.Value {
	cm := x.Common()
	args := cm.Args
	if cm.IsInvoke() {
		args = append([]ssa.Value{cm.Value}, args...)
	}
	holds := func(a ssa.Value) bool {
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			return true
		}
		return false
	}
	var out []ssa.Value
	lib := k.p.InLibCall(cm)
	for _, g := range k.p.Callees(x) {
		if len(g.Blocks) == 0 || !k.p.InLib(g) {
			continue
		}
		lib = true
		for i, a := range args {
			if !has(a) || i >= len(g.Params) {
				continue
			}
			for j, q := range args {
				if j < len(g.Params) && j != i && holds(q) && k.into(g, i, j) {
					out = append(out, q)
				}
			}
		}
	}
	if lib {
		return out
	}
	n := calleeName(cm)
	recv := cm.IsInvoke() || cm.Signature().Recv() != nil
	for i, a := range args {
		if !holds(a) {
			continue
		}
		switch {
		case strings.HasPrefix(n, "encoding/binary."), strings.HasPrefix(n, "io."), n == "builtin:copy", strings.HasPrefix(n, "invoke:io."):
			out = append(out, a)
		case recv && (i == 0 || strings.Contains(n, ".Read")) && !strings.Contains(n, "slog."):
			out = append(out, a)
		}
	}
	return out
}

// into: after g, the memory of parameter j may hold what parameter i holds.
func (k *progCheck) into(g *ssa.Function, i, j int) bool {
	key := fmt.Sprint("into ", FnName(g), i, " ", j, k.own)
	return k.fix(key, func() bool { return k.spread([]ssa.Value{g.Params[i]}, g, nil)[g.Params[j]] })
}

// callSends: a tainted argument of the call has a part in a frame it sends.
func (k *progCheck) callSends(t map[ssa.Value]bool, x ssa.CallInstruction, d int) bool {
	cm := x.Common()
	has := func(v ssa.Value) bool { return v != nil && (t[v] || t[rootOf(v)]) }
	if writesConn(x) {
		for _, a := range cm.Args {
			if has(a) {
				return true
			}
		}
		return false
	}
	for _, g := range k.p.Callees(x) {
		if !k.ex[g] {
			continue
		}
		var ps []int
		args := cm.Args
		if cm.IsInvoke() {
			args = append([]ssa.Value{cm.Value}, args...)
		}
		for i, a := range args {
			stored := false
			if isClientPtr(a.Type()) {
				for v := range t {
					fa, ok := v.(*ssa.FieldAddr)
					stored = stored || ok && isClientPtr(fa.X.Type())
				}
			}
			if has(a) || stored {
				ps = append(ps, i)
				if _, ok := a.(*ssa.MakeClosure); ok {
					return true
				}
			}
		}
		if len(ps) > 0 && k.paramSends(g, ps, d) {
			return true
		}
	}
	// handed over as a function
	for _, a := range append([]ssa.Value{cm.Value}, cm.Args...) {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if has(b) {
					return true
				}
			}
		}
	}
	return false
}

// paramSends: the parameters have a part in a frame that the function sends.
func (k *progCheck) paramSends(g *ssa.Function, ps []int, d int) bool {
	key := fmt.Sprint(FnName(g), ps)
	return k.fix(key, func() bool { return k.paramSends1(g, ps, d) })
}

// fix decides a question about calls that may ask itself: the least answer, found in rounds.
func (k *progCheck) fix(key string, ask func() bool) bool {
	if r, ok := k.flow[key]; ok {
		return r
	}
	if k.round != nil {
		if k.round[key] {
			return false
		}
		k.round[key] = true
		if ask() {
			k.flow[key] = true
			return true
		}
		return false
	}
	for {
		n := len(k.flow)
		k.round = map[string]bool{key: true}
		if ask() {
			k.flow[key] = true
		}
		seen := k.round
		k.round = nil
		if k.flow[key] {
			return true
		}
		if len(k.flow) == n {
			for s := range seen {
				k.flow[s] = k.flow[s]
			}
			return false
		}
	}
}

func (k *progCheck) paramSends1(g *ssa.Function, ps []int, d int) bool {
	var src []ssa.Value
	for _, i := range ps {
		if i < len(g.Params) {
			src = append(src, g.Params[i])
		}
	}
	t := k.spread(src, g, nil)
	all := map[*ssa.BasicBlock]bool{}
	for _, blk := range g.Blocks {
		all[blk] = true
	}
	for _, x := range k.exchanges(all) {
		if k.callSends(t, x, d+1) {
			return true
		}
	}
	return false
}

// ---- recursion ----

// ends: the recursion of functions that work on one document or value comes to an end.
func ends(c *Check, in map[*ssa.Function]bool) {
	c.Rule("recursion", "a function that calls itself passes a strictly larger start, a strictly shorter list or a part of what it was given, or refuses what it is already working on")
	k := &progCheck{c: c, p: c.P, b: newBounds(c.P), flow: map[string]bool{}, local: true}
	var fs []*ssa.Function
	for _, f := range c.P.SrcFuncs() {
		if in[f] {
			fs = append(fs, f)
		}
	}
	k.recursion(fs)
	c.Instance("recursion", fmt.Sprintf("%d functions searched for calls back into themselves", len(fs)))
}

// descends: every call back passes, for one parameter, a part of what the caller got for it: a node further
// down a decoded document, the element of a value.
func (k *progCheck) descends(comp []*ssa.Function, edges []recEdge) bool {
	idx := map[*ssa.Function]int{}
	for i, f := range comp {
		idx[f] = i
	}
	pick := make([]int, len(comp))
	var try func(i int) bool
	try = func(i int) bool {
		if i == len(comp) {
			for _, e := range edges {
				args := e.call.Common().Args
				if e.call.Common().IsInvoke() || pick[idx[e.to]] >= len(args) || !partOf(args[pick[idx[e.to]]], e.from.Params[pick[idx[e.from]]], false, 0) {
					return false
				}
			}
			return true
		}
		for j := range comp[i].Params {
			pick[i] = j
			if try(i + 1) {
				return true
			}
		}
		return false
	}
	return try(0)
}

// partOf: v is reached from the parameter by fields and elements, at least one of them.
func partOf(v ssa.Value, par *ssa.Parameter, down bool, d int) bool {
	if d > 30 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return x == par && down
	case *ssa.UnOp:
		return partOf(x.X, par, down, d+1)
	case *ssa.Field:
		return partOf(x.X, par, true, d+1)
	case *ssa.FieldAddr:
		return partOf(x.X, par, true, d+1)
	case *ssa.IndexAddr:
		return partOf(x.X, par, true, d+1)
	case *ssa.Index:
		return partOf(x.X, par, true, d+1)
	case *ssa.MakeInterface:
		return partOf(x.X, par, down, d+1)
	case *ssa.TypeAssert:
		return partOf(x.X, par, down, d+1)
	case *ssa.ChangeType:
		return partOf(x.X, par, down, d+1)
	case *ssa.Extract:
		return partOf(x.Tuple, par, down, d+1)
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "(reflect.Value).Field", "(reflect.Value).Index", "(reflect.Value).Elem", "(reflect.Value).MapIndex", "invoke:reflect.Type.Elem", "invoke:reflect.Type.Field":
			if x.Call.IsInvoke() {
				return partOf(x.Call.Value, par, true, d+1)
			}
			return partOf(x.Call.Args[0], par, true, d+1)
		case "(reflect.Value).Interface", "(reflect.Value).Addr", "(reflect.Value).Type", "reflect.ValueOf", "reflect.TypeOf", "reflect.Indirect":
			return partOf(x.Call.Args[0], par, down, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !partOf(e, par, down, d+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

type recEdge struct {
	from, to *ssa.Function
	call     ssa.CallInstruction
}

func (k *progCheck) recursion(fs []*ssa.Function) {
	in := map[*ssa.Function]bool{}
	for _, f := range fs {
		in[f] = true
	}
	var edges []recEdge
	ends := map[[2]*ssa.Function]bool{}
	succ := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fs {
		for _, blk := range f.Blocks {
			for _, i := range blk.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				for _, g := range k.p.Callees(ci) {
					if in[g] && k.teardown(g) {
						ends[[2]*ssa.Function{f, g}] = true
						continue
					}
					if in[g] {
						edges = append(edges, recEdge{f, g, ci})
						succ[f] = append(succ[f], g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			succ[f] = append(succ[f], a)
		}
	}
	reach := func(a, b *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function) bool
		visit = func(f *ssa.Function) bool {
			for _, g := range succ[f] {
				if g == b {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if visit(g) {
						return true
					}
				}
			}
			return false
		}
		return visit(a)
	}
	for e := range ends {
		if e[0] == e[1] || reach(e[1], e[0]) {
			k.c.Instance("recursion", FnName(e[0])+" → "+FnName(e[1])+" (ends the connection; its status is decided under C02)")
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range fs {
		if done[f] || !reach(f, f) {
			continue
		}
		var comp []*ssa.Function
		for _, g := range fs {
			if g == f || reach(f, g) && reach(g, f) {
				comp = append(comp, g)
				done[g] = true
			}
		}
		k.component(comp, edges)
	}
}

func (k *progCheck) component(comp []*ssa.Function, all []recEdge) {
	in := map[*ssa.Function]int{}
	var names []string
	for i, f := range comp {
		in[f] = i
		names = append(names, FnName(f))
	}
	var edges []recEdge
	for _, e := range all {
		_, a := in[e.from]
		_, b := in[e.to]
		if a && b {
			edges = append(edges, e)
		}
	}
	pos := k.p.Pos(comp[0].Pos())
	for _, e := range edges {
		pos = k.p.Pos(e.call.Pos())
	}
	what := strings.Join(names, ", ")
	memo := map[string]int{}
	best := false
	sends := ""
	for _, kind := range []string{"rises", "falls", "shorter", "visited"} {
		pick := make([]int, len(comp))
		var try func(i int) bool
		try = func(i int) bool {
			if i == len(comp) {
				return k.decreases(comp, in, edges, pick, kind, memo)
			}
			for j, p := range comp[i].Params {
				ok := false
				switch kind {
				case "rises", "falls":
					ok = isInt(p.Type())
				case "shorter":
					ok = isList(p.Type())
				case "visited":
					switch p.Type().Underlying().(type) {
					case *types.Slice, *types.Map:
						ok = true
					}
				}
				if !ok {
					continue
				}
				pick[i] = j
				if try(i + 1) {
					return true
				}
			}
			return false
		}
		if try(0) {
			best = true
			sends = FnName(comp[0])
			for i, f := range comp {
				ps := []int{pick[i]}
				if kind == "visited" {
					ps = nil
					for j, p := range f.Params {
						if isInt(p.Type()) || isString(p.Type()) {
							ps = append(ps, j)
						}
					}
				}
				if k.paramSends(f, ps, 0) {
					sends = ""
				}
			}
			break
		}
	}
	if !best && k.marked(comp, edges) {
		best = true
	}
	if !best && k.local && k.descends(comp, edges) {
		best = true
	}
	k.c.Oblige(best, "recursion", what, pos, "a call back into "+what+" is not shown to move on: no argument is strictly larger or shorter than the one it got, and what is being worked on is not refused")
	if best && !k.local {
		k.c.Oblige(sends == "", "continues", what, pos, "what moves on with each call of "+sends+" has no part in the request it sends")
	}
}

// decreases: every call keeps the measure and no cycle of calls leaves it as it is.
func (k *progCheck) decreases(comp []*ssa.Function, in map[*ssa.Function]int, edges []recEdge, pick []int, kind string, memo map[string]int) bool {
	same := map[*ssa.Function][]*ssa.Function{}
	for _, e := range edges {
		i, j := pick[in[e.from]], pick[in[e.to]]
		key := fmt.Sprint(kind, " ", e.call.Pos(), FnName(e.from), i, j)
		r, ok := memo[key]
		if !ok {
			r = k.relation(e, i, j, kind)
			memo[key] = r
		}
		if r < 0 {
			return false
		}
		if r == 0 {
			same[e.from] = append(same[e.from], e.to)
		}
	}
	state := map[*ssa.Function]int{}
	var cyc func(f *ssa.Function) bool
	cyc = func(f *ssa.Function) bool {
		if state[f] == 1 {
			return true
		}
		if state[f] == 2 {
			return false
		}
		state[f] = 1
		for _, g := range same[f] {
			if cyc(g) {
				return true
			}
		}
		state[f] = 2
		return false
	}
	for _, f := range comp {
		if cyc(f) {
			return false
		}
	}
	return true
}

// relation of argument j of a call to parameter i of the caller: 1 further on, 0 not behind, -1 unknown.
func (k *progCheck) relation(e recEdge, i, j int, kind string) int {
	b := k.b
	cm := e.call.Common()
	if cm.IsInvoke() || i >= len(e.from.Params) || j >= len(cm.Args) {
		return -1
	}
	par, arg := e.from.Params[i], cm.Args[j]
	at := func(mk func(ctx *pctx) lin) bool {
		ok, _ := b.decide(e.call, func(ctx *pctx) []goal { return []goal{{l: mk(ctx), what: "x"}} })
		return ok
	}
	switch kind {
	case "rises":
		d := func(ctx *pctx) lin { return b.lin(ctx, arg).sub(b.lin(ctx, par)) }
		limit := intBits(arg.Type()) <= 32 || at(func(ctx *pctx) lin { return linConst(1 << 32).sub(b.lin(ctx, arg)) })
		if limit && at(func(ctx *pctx) lin { return d(ctx).addK(-1) }) {
			return 1
		}
		// x+1 that is not zero did not wrap
		if add, ok := arg.(*ssa.BinOp); ok && limit && add.Op == token.ADD {
			if one, isC := add.Y.(*ssa.Const); isC && one.Value != nil && one.Uint64() == 1 {
				if t, isB := arg.Type().Underlying().(*types.Basic); isB && t.Info()&types.IsUnsigned != 0 && k.notZero(e.call, arg) &&
					at(func(ctx *pctx) lin { return b.lin(ctx, add.X).sub(b.lin(ctx, par)) }) {
					return 1
				}
			}
		}
		if arg == ssa.Value(par) || at(d) {
			return 0
		}
	case "falls":
		d := func(ctx *pctx) lin { return b.lin(ctx, par).sub(b.lin(ctx, arg)) }
		if at(func(ctx *pctx) lin { return d(ctx).addK(-1) }) && at(func(ctx *pctx) lin { return b.lin(ctx, par) }) {
			return 1
		}
		if arg == ssa.Value(par) || at(d) {
			return 0
		}
	case "shorter":
		d := func(ctx *pctx) lin { return b.lenOf(ctx, par).sub(b.lenOf(ctx, arg)) }
		if at(func(ctx *pctx) lin { return d(ctx).addK(-1) }) {
			return 1
		}
		if arg == ssa.Value(par) || at(d) {
			return 0
		}
	case "visited":
		if arg == ssa.Value(par) {
			if k.refuses(e, par) {
				return 1
			}
			return 0
		}
		// the argument holds what the parameter holds, and one of the other parameters
		for _, q := range e.from.Params {
			if q == par || !(isInt(q.Type()) || isString(q.Type())) {
				continue
			}
			k.itself = true
			with := k.spread([]ssa.Value{q}, e.from, nil)
			old := k.spread([]ssa.Value{par}, e.from, nil)
			k.itself = false
			if !dropsSome(arg, map[ssa.Value]bool{}) && (with[arg] || with[rootOf(arg)]) && (old[arg] || old[rootOf(arg)]) && k.tested(e, par, q) {
				return 1
			}
		}
	}
	return -1
}

// dropsSome: the list is a part of another one, or made from such a part.
func dropsSome(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if z, ok := x.Low.(*ssa.Const); x.Low != nil && !(ok && z.Value != nil && z.Int64() == 0) {
			return true
		}
		if x.High != nil && !isLenOf(x.High, x.X) {
			return true
		}
		return dropsSome(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if dropsSome(e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return dropsSome(x.X, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() != "append" {
			return false
		}
		for _, a := range x.Call.Args {
			if isList(a.Type()) && dropsSome(a, seen) {
				return true
			}
		}
	}
	return false
}

// isLenOf: h is the length of the list v, or of a list that is the same value.
func isLenOf(h, v ssa.Value) bool {
	c, ok := h.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == v
}

// notZero: a test before the instruction leaves when the value is zero.
func (k *progCheck) notZero(at ssa.CallInstruction, v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		cmp, ok := r.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		z, ok := cmp.Y.(*ssa.Const)
		if !ok || z.Value == nil || z.Uint64() != 0 {
			continue
		}
		for _, q := range *cmp.Referrers() {
			if iff, ok := q.(*ssa.If); ok {
				s := iff.Block().Succs[boolInt(cmp.Op == token.NEQ)] // where it is zero
				if iff.Block().Dominates(at.Block()) && !canReach(s, at.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// refuses: a map passed along unchanged, in which the function marks what it works on before it goes on.
func (k *progCheck) refuses(e recEdge, par *ssa.Parameter) bool {
	if _, ok := par.Type().Underlying().(*types.Map); !ok {
		return false
	}
	for _, q := range e.from.Params {
		if q != par && (isInt(q.Type()) || isString(q.Type())) && k.tested(e, par, q) && k.marks(e, q, func(m ssa.Value) bool { return rootOf(m) == ssa.Value(par) }) {
			return true
		}
	}
	return false
}

func (k *progCheck) marks(e recEdge, q *ssa.Parameter, is func(m ssa.Value) bool) bool {
	for _, blk := range e.from.Blocks {
		for n, i := range blk.Instrs {
			mu, ok := i.(*ssa.MapUpdate)
			if !ok || !is(mu.Map) || !sameKey(mu.Key, q) {
				continue
			}
			at := e.call.Block()
			if blk == at {
				for _, j := range blk.Instrs[n:] {
					if j == ssa.Instruction(e.call) {
						return true
					}
				}
			} else if blk.Dominates(at) {
				return true
			}
		}
	}
	return false
}

func sameKey(v ssa.Value, q *ssa.Parameter) bool {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v == ssa.Value(q)
		}
	}
}

// tested: before the call, a test of a and b together leads away from it.
func (k *progCheck) tested(e recEdge, a, b ssa.Value) bool {
	k.own = true
	defer func() { k.own = false }()
	ta := k.spread([]ssa.Value{a}, e.from, nil)
	tb := k.spread([]ssa.Value{b}, e.from, nil)
	at := e.call.Block()
	for _, blk := range e.from.Blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok || !depends(ta, iff.Cond) || !depends(tb, iff.Cond) {
			continue
		}
		r0, r1 := canReach(blk.Succs[0], at), canReach(blk.Succs[1], at)
		if r0 == r1 {
			continue
		}
		// every way to the call takes the test, or a loop around it
		if blk.Dominates(at) {
			return true
		}
		for h := blk; h != nil; h = h.Idom() {
			if isLoopHeader(h) && loopBody(h)[blk] && !loopBody(h)[at] && h.Dominates(at) {
				return true
			}
		}
	}
	return false
}

// depends: the condition is computed from tainted values by calls, lookups and comparisons in the function.
func depends(t map[ssa.Value]bool, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if t[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			return visit(x.X)
		case *ssa.BinOp:
			return visit(x.X) || visit(x.Y)
		case *ssa.Extract:
			return visit(x.Tuple)
		}
		return false
	}
	return visit(v)
}

func canReach(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(from)
}

// marked: a set kept outside the parameters in which what is being worked on is marked and refused.
func (k *progCheck) marked(comp []*ssa.Function, edges []recEdge) bool {
	if len(edges) == 0 {
		return false
	}
	for _, e := range edges {
		ok := false
		for _, q := range e.from.Params {
			if !(isInt(q.Type()) || isString(q.Type())) {
				continue
			}
			tq := k.spread([]ssa.Value{q}, e.from, nil)
			for _, blk := range e.from.Blocks {
				for _, i := range blk.Instrs {
					l, isL := i.(*ssa.Lookup)
					if !isL || !sameKey(l.Index, q) || !blk.Dominates(e.call.Block()) {
						continue
					}
					m := rootOf(l.X)
					ml := exprText(l.X)
					if k.marks(e, q, func(x ssa.Value) bool { return rootOf(x) == m && exprText(x) == ml }) && k.testedBy(e, l) {
						ok = true
					}
				}
			}
			_ = tq
		}
		if !ok {
			// a call that only hands on
			pass := false
			for _, q := range e.from.Params {
				for _, a := range e.call.Common().Args {
					pass = pass || a == ssa.Value(q) && isInt(q.Type())
				}
			}
			if !pass || e.from == e.to {
				return false
			}
		}
	}
	return true
}

func (k *progCheck) testedBy(e recEdge, l *ssa.Lookup) bool {
	t := map[ssa.Value]bool{l: true}
	at := e.call.Block()
	for _, blk := range e.from.Blocks {
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if ok && depends(t, iff.Cond) && canReach(blk.Succs[0], at) != canReach(blk.Succs[1], at) && blk.Dominates(at) {
			return true
		}
	}
	return false
}
