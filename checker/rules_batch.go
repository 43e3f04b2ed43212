package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: the lists of a batch — what is asked, what it is encoded to, what comes back — run in step. Every loop over
// them uses one position for all of them, takes a full turn for each, is preceded by a comparison of the counts,
// and a batch cut in parts is cut into adjoining parts whose results are joined in the same order.

const svcMultiple = 0x0A

type batch struct {
	c       *Check
	p       *Prog
	b       *bounds
	client  map[*ssa.Function]bool // sends a multi-service request
	server  map[*ssa.Function]bool // answers one
	api     map[*ssa.Function]bool // client, and what passes lists to it or takes results from it
	headers map[*ssa.Function][]*ssa.BasicBlock
	bodies  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

// access is a use of an element of a list by position in a loop.
type access struct {
	in   ssa.Instruction // IndexAddr, Index
	list ssa.Value       // the list as written
	root ssa.Value
	idx  ssa.Value
	h    *ssa.BasicBlock // the loop whose counter the position is made of; nil: none
	sets bool
}

func listElem(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Pointer:
		if a, ok := x.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

// batchList: a slice of something other than bytes.
func batchList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	bt, ok := types.Unalias(s.Elem()).(*types.Basic)
	return !ok || bt.Kind() != types.Uint8 && bt.Kind() != types.Int8
}

func init() {
	rules["C30"] = func(c *Check) {
		c.Rule("in-step", "in one turn of a loop over the lists of a batch every list is used at the same position (positions compared as linear expressions), never at a fixed one and never at the turn of a walk over a map")
		c.Rule("complete", "a turn of such a loop that fills a list fills its element on every path, and the loop is left before its end only with an error (or by handing the whole batch on)")
		c.Rule("counts", "lists used together have the same number of elements: proved where they are used, or the number of results is compared with the number of requests before they are")
		c.Rule("parts", "a batch cut in parts is cut into adjoining parts from the first request to the last, and the results are joined in that order")
		c.Rule("offsets", "the table of starts holds, for each request, the length of what precedes it; each result is taken from where the table of the reply says it starts, or one result is taken in each turn")
		c.Rule("destination", "where a result goes is chosen by the request's own element of a list filled in the same turn as the request")
		c.Rule("fragments", "each follow-up request of a fragmented read asks from the length of what was received so far, and what it brings is appended in every turn")
		k := &batch{c: c, p: c.P, b: newBounds(c.P), client: map[*ssa.Function]bool{}, server: map[*ssa.Function]bool{}, api: map[*ssa.Function]bool{}, headers: map[*ssa.Function][]*ssa.BasicBlock{}, bodies: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
		k.b.limit = 20000
		k.scope()
		if !c.Anchor(len(k.client) >= 2, "the functions that send a multi-service request") || !c.Anchor(len(k.server) >= 1, "the function that answers a multi-service request") {
			return
		}
		var all []*ssa.Function
		for f := range k.api {
			all = append(all, f)
		}
		for f := range k.server {
			all = append(all, f)
		}
		sort.Slice(all, func(i, j int) bool { return FnName(all[i]) < FnName(all[j]) })
		for _, f := range all {
			k.function(f)
		}
		k.fragments()
		c.Info["functions"] = len(all)
		c.Floor("in-step", 8)
		c.Floor("complete", 6)
		c.Floor("counts", 5)
		c.Floor("parts", 3)
		c.Floor("offsets", 5)
		c.Floor("destination", 2)
		c.Floor("fragments", 1)
	}
}

// passesConst: the function hands out the constant (stores it, or passes it on), it does not just compare with it.
func passesConst(f *ssa.Function, n int64) bool {
	is := func(v ssa.Value) bool {
		x, ok := unconv(v).(*ssa.Const)
		if !ok || x.Value == nil || x.Value.Kind() != constant.Int || typeName(x.Type()) != "CIPService" {
			return false
		}
		m, ok := constant.Int64Val(x.Value)
		return ok && m == n
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if is(x.Val) {
					return true
				}
			case *ssa.MakeInterface:
				if is(x.X) {
					return true
				}
			case ssa.CallInstruction:
				for _, a := range x.Common().Args {
					if is(a) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (k *batch) scope() {
	send := map[*ssa.Function]bool{}
	for _, n := range []string{"send_recv_data", "send"} {
		if f := k.p.Method("Client", n); f != nil {
			send[f] = true
		}
	}
	fs := k.p.SrcFuncs(k.p.Root)
	for _, f := range fs {
		if !passesConst(f, svcMultiple) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g != f && (send[g] || carriesBytes(ci.Common()) && k.reachesSend(g)) {
					k.client[f] = true
				}
				if passesCallConst(ci, svcMultiple) && strings.HasPrefix(recvName(f), "server") && len(k.loops(f)) > 0 {
					k.server[f] = true
				}
			}
		}
	}
	for f := range k.client {
		k.api[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			if k.api[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if cl, ok := i.(*ssa.Call); ok && k.apiCall(cl) != nil {
						if args, res := k.lists(cl); args+res > 0 {
							k.api[f] = true
							ch = true
						}
					}
				}
			}
		}
	}
}

// carriesBytes: the call is given what is to be sent.
func carriesBytes(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		switch t := deref(a.Type()).Underlying().(type) {
		case *types.Slice:
			if bt, ok := t.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 || typeName(t.Elem()) == "CIPItem" {
				return true
			}
		case *types.Struct:
			if n := typeName(deref(a.Type())); n == "Buffer" || n == "CIPItem" {
				return true
			}
		}
	}
	return false
}

func recvName(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		return typeName(deref(r.Type()))
	}
	return ""
}

func passesCallConst(ci ssa.CallInstruction, n int64) bool {
	for _, a := range ci.Common().Args {
		if x, ok := unconv(a).(*ssa.Const); ok && x.Value != nil && x.Value.Kind() == constant.Int && typeName(x.Type()) == "CIPService" {
			if m, ok := constant.Int64Val(x.Value); ok && m == n {
				return true
			}
		}
	}
	return false
}

func (k *batch) apiCall(v ssa.Value) *ssa.Call {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if g := c.Call.StaticCallee(); g != nil && k.api[g] {
		return c
	}
	return nil
}

// lists is the number of lists passed and returned by a call.
func (k *batch) lists(c *ssa.Call) (args, res int) {
	for _, a := range c.Call.Args {
		if batchList(a.Type()) {
			args++
		}
	}
	r := c.Call.Signature().Results()
	for i := 0; i < r.Len(); i++ {
		if batchList(r.At(i).Type()) {
			res++
		}
	}
	return
}

func (k *batch) loops(f *ssa.Function) []*ssa.BasicBlock {
	if h, ok := k.headers[f]; ok {
		return h
	}
	var out []*ssa.BasicBlock
	for _, b := range f.Blocks {
		if isLoopHeader(b) {
			out = append(out, b)
			k.bodies[b] = loopBody(b)
		}
	}
	k.headers[f] = out
	return out
}

// listRoot is the list a value is a part of.
func listRoot(v ssa.Value) ssa.Value {
	seen := map[ssa.Value]bool{}
	for !seen[v] {
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return v
			}
			return al
		case *ssa.Call:
			if calleeName(x.Common()) != "builtin:append" {
				return v
			}
			v = x.Call.Args[0]
		case *ssa.Phi:
			// a list that grows
			var in []ssa.Value
			for _, e := range x.Edges {
				if !growsFrom(e, x, 0) {
					in = append(in, e)
				}
			}
			if len(in) != 1 {
				return v
			}
			v = in[0]
		default:
			return v
		}
	}
	return v
}

// growsFrom: e is p with elements appended (or p).
func growsFrom(e ssa.Value, p *ssa.Phi, d int) bool {
	if e == p {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := e.(type) {
	case *ssa.Call:
		return calleeName(x.Common()) == "builtin:append" && growsFrom(x.Call.Args[0], p, d+1)
	case *ssa.Phi:
		for _, y := range x.Edges {
			if y != x && !growsFrom(y, p, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// positionOf: the loop whose counter a position is made of.
func (k *batch) positionOf(f *ssa.Function, idx ssa.Value, at *ssa.BasicBlock) *ssa.BasicBlock {
	ds := map[ssa.Value]bool{}
	arith(idx, ds)
	var best *ssa.BasicBlock
	for _, h := range k.loops(f) {
		if !k.bodies[h][at] {
			continue
		}
		for v := range ds {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == h && (best == nil || k.bodies[best][h]) {
				best = h
			}
		}
	}
	return best
}

func arith(v ssa.Value, out map[ssa.Value]bool) {
	if out[v] {
		return
	}
	out[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		arith(x.X, out)
		arith(x.Y, out)
	case *ssa.Convert:
		arith(x.X, out)
	case *ssa.ChangeType:
		arith(x.X, out)
	case *ssa.Phi:
		if !isLoopHeader(x.Block()) {
			for _, e := range x.Edges {
				arith(e, out)
			}
		}
	}
}

func (k *batch) inLoop(f *ssa.Function, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, h := range k.loops(f) {
		if k.bodies[h][in.Block()] {
			return true
		}
	}
	return false
}

func (k *batch) accesses(f *ssa.Function) (out []access) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			a := access{in: i}
			switch x := i.(type) {
			case *ssa.IndexAddr:
				a.list, a.idx = x.X, x.Index
				for _, r := range *x.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == x {
						a.sets = true
					}
				}
			case *ssa.Index:
				a.list, a.idx = x.X, x.Index
			default:
				continue
			}
			if !batchList(a.list.Type()) {
				continue
			}
			a.root = listRoot(a.list)
			a.h = k.positionOf(f, a.idx, b)
			out = append(out, a)
		}
	}
	return
}

// name of a list, for messages.
func listName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.MakeSlice:
		if t := debugName(x); t != "" {
			return t
		}
		return typeString(x.Type())
	}
	if t := debugName(v); t != "" {
		return t
	}
	return typeString(v.Type())
}

// debugName: the variable a value is first given to.
func debugName(v ssa.Value) string {
	if v.Referrers() == nil {
		return ""
	}
	for _, r := range *v.Referrers() {
		switch d := r.(type) {
		case *ssa.DebugRef:
			if id, ok := d.Expr.(interface{ String() string }); ok && !d.IsAddr {
				return id.String()
			}
		case *ssa.Phi:
			if d.Comment != "" {
				return d.Comment
			}
		}
	}
	return ""
}

func (k *batch) function(f *ssa.Function) {
	acc := k.accesses(f)
	sends := k.client[f] || k.server[f]
	// the lists of the batch
	lists := map[ssa.Value]bool{}
	results := map[ssa.Value]bool{} // what a batch call returned
	var calls []*ssa.Call
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			v, ok := i.(ssa.Value)
			if !ok {
				continue
			}
			cl := k.apiCall(v)
			if cl == nil {
				continue
			}
			if args, res := k.lists(cl); args+res == 0 {
				continue
			}
			calls = append(calls, cl)
			for _, a := range cl.Call.Args {
				if batchList(a.Type()) {
					lists[listRoot(a)] = true
				}
			}
			for _, r := range resultLists(cl) {
				lists[r], results[r] = true, true
			}
		}
	}
	if sends {
		for _, a := range acc {
			if a.h != nil && !k.inLoop(f, a.root) {
				lists[a.root] = true
			}
		}
		for _, p := range f.Params {
			if batchList(p.Type()) {
				lists[p] = true
			}
		}
	}
	// results joined into one list
	joined := func(v ssa.Value) {
		if results[v] || lists[v] {
			return
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if ok && calleeName(cl.Common()) == "builtin:append" && len(cl.Call.Args) == 2 && listRoot(cl) == v {
					if r := cl.Call.Args[1]; batchList(r.Type()) && results[listRoot(r)] {
						lists[v], results[v] = true, true
					}
				}
			}
		}
	}
	for ch := true; ch; {
		n := len(lists)
		for _, a := range acc {
			joined(a.root)
			if a.h == nil || k.inLoopOf(a.h, a.root) || lists[a.root] {
				continue
			}
			for _, o := range acc {
				if o.h == a.h && lists[o.root] {
					lists[a.root] = true
				}
			}
		}
		ch = len(lists) != n
	}
	at := map[*ssa.BasicBlock][]access{}
	positioned := map[ssa.Value]bool{}
	for _, a := range acc {
		if lists[a.root] && a.h != nil && !k.inLoopOf(a.h, a.root) {
			at[a.h] = append(at[a.h], a)
			positioned[a.root] = true
		}
	}
	for _, h := range k.loops(f) {
		if len(at[h]) > 0 {
			k.inStep(f, h, at[h], acc, positioned)
			k.complete(f, h, at[h], acc)
			k.counts(f, h, at[h], results)
			k.walk(f, h, at[h], lists)
		}
	}
	k.mapBuilt(f, acc, lists)
	k.grown(f, lists)
	k.parts(f, calls)
	if sends {
		k.starts(f, at, acc)
		k.replies(f, at, acc)
	}
	k.destinations(f, at, acc, lists, results)
	// as many results as requests
	if k.api[f] {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if !batchList(f.Signature.Results().At(i).Type()) {
				continue
			}
			for j, p := range f.Params {
				if batchList(p.Type()) {
					c := k.c
					c.Oblige(k.b.sameLen(f, i, j), "counts", fmt.Sprintf("%s: results for %s", FnName(f), p.Name()), k.p.Pos(f.Pos()), "it is not shown that as many results are returned as "+p.Name()+" has elements")
				}
			}
		}
	}
}

// inLoopOf: the list is made in the loop itself (one for each turn).
func (k *batch) inLoopOf(h *ssa.BasicBlock, v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && k.bodies[h][in.Block()] && in.Block() != h
}

func resultLists(cl *ssa.Call) (out []ssa.Value) {
	if batchList(cl.Type()) {
		return []ssa.Value{cl}
	}
	for _, r := range *cl.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && batchList(e.Type()) {
			out = append(out, e)
		}
	}
	return
}

func (k *batch) loopID(f *ssa.Function, l []access) string {
	names := map[string]bool{}
	for _, a := range l {
		names[typeString(listElem(a.list.Type()))] = true
	}
	var s []string
	for n := range names {
		s = append(s, n)
	}
	sort.Strings(s)
	return FnName(f) + " over " + strings.Join(s, ", ")
}

func (k *batch) inStep(f *ssa.Function, h *ssa.BasicBlock, l, all []access, positioned map[ssa.Value]bool) {
	c, ctx := k.c, k.b.root(f)
	id := k.loopID(f, l)
	c.Instance("in-step", id)
	for n, a := range l {
		for _, o := range l[:n] {
			if k.aligned(ctx, a, o) {
				continue
			}
			c.Fail("in-step", id, k.p.Pos(a.in.Pos()), fmt.Sprintf("lists of a batch are used at different positions in one turn (%s and %s)", exprText(o.idx), exprText(a.idx)))
		}
	}
	for _, a := range all {
		if a.h == nil && positioned[a.root] && k.bodies[h][a.in.Block()] && !k.inLoopOf(h, a.root) {
			if _, ok := a.idx.(*ssa.Const); !ok {
				if in, ok := a.idx.(ssa.Instruction); ok && !k.bodies[h][in.Block()] && !k.sameRoot(l, a.root) {
					continue
				}
			}
			c.Fail("in-step", id, k.p.Pos(a.in.Pos()), fmt.Sprintf("an element of a list of the batch is used in the loop at position %s, not at the position of the turn", exprText(a.idx)))
		}
	}
}

func (k *batch) sameRoot(l []access, r ssa.Value) bool {
	for _, a := range l {
		if a.root == r {
			return true
		}
	}
	return false
}

// start of a list within the batch it is a part of.
func (k *batch) start(ctx *pctx, v ssa.Value) (lin, ssa.Value) {
	lo := linConst(0)
	for d := 0; d < 8; d++ {
		switch x := v.(type) {
		case *ssa.Slice:
			if x.Low != nil {
				lo = lo.add(k.b.lin(ctx, x.Low))
			}
			v = x.X
			continue
		case *ssa.Extract:
			if cl := k.apiCall(x.Tuple); cl != nil {
				for _, a := range cl.Call.Args {
					if batchList(a.Type()) {
						l, _ := k.start(ctx, a)
						return lo.add(l), x
					}
				}
			}
		}
		break
	}
	return lo, v
}

// aligned: two uses are at the same place of the batch.
func (k *batch) aligned(ctx *pctx, a, o access) bool {
	la, _ := k.start(ctx, a.list)
	lo, _ := k.start(ctx, o.list)
	d := la.add(k.b.lin(ctx, a.idx)).sub(lo.add(k.b.lin(ctx, o.idx)))
	if d.isConst() && d.k == 0 {
		return true
	}
	// same distance from the end
	e := k.b.lin(ctx, a.idx).sub(k.b.lin(ctx, o.idx)).sub(k.b.lenOf(ctx, a.list).sub(k.b.lenOf(ctx, o.list)))
	return e.isConst() && e.k == 0
}

// countExit: the exit of a loop taken when the counter is through.
func (k *batch) countExit(h, b *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return b == h
	}
	for {
		u, ok := iff.Cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		iff = &ssa.If{Cond: u.X}
	}
	switch x := iff.Cond.(type) {
	case *ssa.Extract:
		_, next := x.Tuple.(*ssa.Next)
		return next
	case *ssa.BinOp:
		ds := map[ssa.Value]bool{}
		arith(x.X, ds)
		arith(x.Y, ds)
		for v := range ds {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == h {
				for _, e := range ph.Edges {
					es := map[ssa.Value]bool{}
					arith(e, es)
					if es[ph] && e != ph {
						return true
					}
				}
			}
		}
	}
	return false
}

// failsOnly: everything from b on returns an error, or hands the batch on.
func (k *batch) failsOnly(from, b *ssa.BasicBlock) bool {
	type edge struct{ p, b *ssa.BasicBlock }
	seen := map[edge]bool{}
	var walk func(p, b *ssa.BasicBlock) bool
	walk = func(p, b *ssa.BasicBlock) bool {
		if seen[edge{p, b}] {
			return true
		}
		seen[edge{p, b}] = true
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if cl := k.apiCall(v); cl != nil {
					return true // judged as a part
				}
			}
			if r, ok := i.(*ssa.Return); ok {
				for _, v := range r.Results {
					if !isErrorType(v.Type()) {
						continue
					}
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
						for n, q := range b.Preds {
							if q == p {
								v = ph.Edges[n]
							}
						}
					}
					return !isNilConst(v)
				}
				return false
			}
			if _, ok := i.(*ssa.Panic); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if !walk(b, s) {
				return false
			}
		}
		return true
	}
	return walk(from, b)
}

func (k *batch) complete(f *ssa.Function, h *ssa.BasicBlock, l, all []access) {
	c := k.c
	body := k.bodies[h]
	id := k.loopID(f, l)
	c.Instance("complete", id)
	for b := range body {
		for _, s := range b.Succs {
			if body[s] || k.countExit(h, b) {
				continue
			}
			if !k.failsOnly(b, s) {
				c.Fail("complete", id, k.p.Pos(lastPos(b)), "the loop over the batch can be left before its last turn without an error")
			}
		}
	}
	// a list filled by this loop alone is filled in every turn
	filled := map[ssa.Value]map[*ssa.BasicBlock]bool{}
	for _, a := range l {
		if a.sets {
			if filled[a.root] == nil {
				filled[a.root] = map[*ssa.BasicBlock]bool{}
			}
			for _, r := range *a.in.(*ssa.IndexAddr).Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a.in.(ssa.Value) {
					filled[a.root][st.Block()] = true
				}
			}
		}
	}
	for _, a := range all {
		if a.sets && filled[a.root] != nil && !body[a.in.Block()] {
			delete(filled, a.root)
		}
	}
	for root, bs := range filled {
		if bad := k.turnWithout(h, bs); bad != nil {
			c.Fail("complete", id, k.p.Pos(lastPos(bad)), "a turn of the loop can leave the element of "+listName(root)+" unset")
		}
	}
}

// turnWithout: the block from which a turn of the loop ends without having come through one of the blocks.
func (k *batch) turnWithout(h *ssa.BasicBlock, bs map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	body := k.bodies[h]
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) *ssa.BasicBlock
	walk = func(b *ssa.BasicBlock) *ssa.BasicBlock {
		if seen[b] || bs[b] {
			return nil
		}
		seen[b] = true
		for _, s := range b.Succs {
			if !body[s] {
				continue
			}
			if s == h {
				return b
			}
			if r := walk(s); r != nil {
				return r
			}
		}
		return nil
	}
	return walk(h)
}

func (k *batch) counts(f *ssa.Function, h *ssa.BasicBlock, l []access, results map[ssa.Value]bool) {
	c, ctx := k.c, k.b.root(f)
	done := map[string]bool{}
	for n, a := range l {
		for _, o := range l[:n] {
			if a.root == o.root {
				continue
			}
			ia, io := k.b.lin(ctx, a.idx), k.b.lin(ctx, o.idx)
			d := k.b.lenOf(ctx, a.list).sub(k.b.lenOf(ctx, o.list)).sub(ia.sub(io))
			if !ia.sub(io).isConst() {
				continue // a part of the other
			}
			x, y := listName(a.root), listName(o.root)
			if x > y {
				x, y = y, x
			}
			id := fmt.Sprintf("%s: %s and %s", FnName(f), x, y)
			if done[id] {
				continue
			}
			pt := point{ctx, a.in.Block(), a.in}
			if d.isConst() {
				if d.k == 0 {
					done[id] = true
				}
				c.Oblige(d.k == 0, "counts", id, k.p.Pos(a.in.Pos()), "lists of different lengths are used together")
				continue
			}
			k.b.work = 0
			ok := k.b.prove(d, pt, nil, 0)
			if ok {
				k.b.work = 0
				ok = k.b.prove(d.scale(-1), pt, nil, 0)
			}
			if ok {
				done[id] = true
			}
			c.Oblige(ok, "counts", id, k.p.Pos(a.in.Pos()), "it is not shown that the two lists have the same number of elements: a reply with more or fewer results is not reported")
		}
	}
}

// walk: the turn of a walk over a map is not a position.
func (k *batch) walk(f *ssa.Function, h *ssa.BasicBlock, l []access, lists map[ssa.Value]bool) {
	c := k.c
	over := false
	for _, i := range h.Instrs {
		if n, ok := i.(*ssa.Next); ok && !n.IsString {
			over = true
		}
	}
	if !over {
		return
	}
	id := k.loopID(f, l)
	for _, a := range l {
		if !a.sets {
			k.c.Fail("in-step", id, k.p.Pos(a.in.Pos()), "an element of a list of the batch is taken by the turn of a walk over a map, whose order is not that of the list")
		}
	}
	c.Instance("in-step", id)
}

// mapBuilt: the lists of a batch made by walking a map are made in one walk.
func (k *batch) mapBuilt(f *ssa.Function, acc []access, lists map[ssa.Value]bool) {
	in := map[*ssa.BasicBlock]token.Pos{}
	for _, h := range k.loops(f) {
		over := false
		for _, i := range h.Instrs {
			if n, ok := i.(*ssa.Next); ok && !n.IsString {
				over = true
			}
		}
		if !over {
			continue
		}
		for _, a := range acc {
			if a.sets && lists[a.root] && k.bodies[h][a.in.Block()] && !k.inLoopOf(h, a.root) {
				in[h] = a.in.Pos()
			}
		}
		for b := range k.bodies[h] {
			for _, i := range b.Instrs {
				if cl, ok := i.(*ssa.Call); ok && calleeName(cl.Common()) == "builtin:append" && lists[listRoot(cl)] && batchList(cl.Type()) {
					in[h] = cl.Pos()
				}
			}
		}
	}
	if len(in) == 0 {
		return
	}
	var at token.Pos
	for _, p := range in {
		if p > at {
			at = p
		}
	}
	k.c.Oblige(len(in) == 1, "in-step", FnName(f)+" walks a map", k.p.Pos(at), "the lists of the batch are made in different walks over a map: each has its own order")
}

// grown: lists that grow in one loop grow together.
func (k *batch) grown(f *ssa.Function, lists map[ssa.Value]bool) {
	for _, h := range k.loops(f) {
		body := k.bodies[h]
		grow := map[ssa.Value]map[*ssa.BasicBlock]int{}
		for b := range body {
			for _, i := range b.Instrs {
				cl, ok := i.(*ssa.Call)
				if !ok || calleeName(cl.Common()) != "builtin:append" || !batchList(cl.Type()) {
					continue
				}
				r := listRoot(cl)
				if !lists[r] || k.inLoopOf(h, r) {
					continue
				}
				n := 1
				if len(cl.Call.Args) == 2 {
					if sl, ok := cl.Call.Args[1].(*ssa.Slice); ok {
						if al, ok := sl.X.(*ssa.Alloc); ok {
							if at, ok := deref(al.Type()).Underlying().(*types.Array); ok {
								n = int(at.Len())
							}
						}
					} else {
						n = -1 // another list
					}
				}
				if n < 0 {
					continue
				}
				if grow[r] == nil {
					grow[r] = map[*ssa.BasicBlock]int{}
				}
				grow[r][b] += n
			}
		}
		if len(grow) < 2 {
			continue
		}
		var roots []ssa.Value
		for r := range grow {
			roots = append(roots, r)
		}
		sort.Slice(roots, func(i, j int) bool { return listName(roots[i]) < listName(roots[j]) })
		id := FnName(f) + " grows its lists"
		k.c.Instance("in-step", id)
		for n := range roots[1:] {
			a, o := roots[n], roots[n+1]
			// the difference at the end of a turn
			diffs := map[*ssa.BasicBlock]map[int]bool{}
			var walk func(b *ssa.BasicBlock, d int)
			walk = func(b *ssa.BasicBlock, d int) {
				d += grow[a][b] - grow[o][b]
				if diffs[b] == nil {
					diffs[b] = map[int]bool{}
				}
				if diffs[b][d] || d > 3 || d < -3 {
					return
				}
				diffs[b][d] = true
				for _, s := range b.Succs {
					if s == h {
						if d != 0 {
							k.c.Fail("in-step", id, k.p.Pos(lastPos(b)), "a turn can add an element to one list of the batch and not to another")
						}
						continue
					}
					if body[s] {
						walk(s, d)
					}
				}
			}
			walk(h, 0)
		}
	}
}

type part struct {
	call   *ssa.Call
	arg    ssa.Value
	root   ssa.Value
	lo, hi lin
	res    []ssa.Value
}

// parts: calls that are given a part of a list.
func (k *batch) parts(f *ssa.Function, calls []*ssa.Call) {
	c, ctx := k.c, k.b.root(f)
	var ps []part
	for _, cl := range calls {
		for _, a := range cl.Call.Args {
			if !batchList(a.Type()) {
				continue
			}
			lo, root := k.start(ctx, a)
			ps = append(ps, part{cl, a, root, lo, lo.add(k.b.lenOf(ctx, a)), resultLists(cl)})
		}
	}
	id := FnName(f)
	var straight []part
	for _, p := range ps {
		_, sliced := p.arg.(*ssa.Slice)
		var h *ssa.BasicBlock
		for _, g := range k.loops(f) {
			if k.bodies[g][p.call.Block()] && (h == nil || k.bodies[h][g]) {
				h = g
			}
		}
		if h == nil {
			if sliced {
				straight = append(straight, p)
				continue
			}
			// the whole list
			c.Instance("parts", id+" passes "+listName(p.root)+" on")
			continue
		}
		k.loopPart(f, h, p)
	}
	if len(straight) == 0 {
		return
	}
	sort.Slice(straight, func(i, j int) bool { return earlier(straight[i].call, straight[j].call) })
	at := k.p.Pos(straight[0].call.Pos())
	c.Instance("parts", id+" cuts a list")
	whole := k.b.lenOf(ctx, straight[0].root)
	next := linConst(0)
	for _, p := range straight {
		if p.root != straight[0].root {
			c.Fail("parts", id+" cuts a list", at, "the parts are not of one list")
			return
		}
		if d := p.lo.sub(next); !d.isConst() || d.k != 0 {
			c.Fail("parts", id+" cuts a list", k.p.Pos(p.call.Pos()), "a part does not start where the part before it ends: requests are left out or sent twice")
		}
		next = p.hi
	}
	if d := next.sub(whole); !d.isConst() || d.k != 0 {
		c.Fail("parts", id+" cuts a list", at, "the last part does not end with the list")
	}
	// the results joined in the order of the parts
	var want []ssa.Value
	for _, p := range straight {
		want = append(want, p.res...)
	}
	if len(want) == 0 {
		return
	}
	joined := false
	var got []ssa.Value
	last := straight[len(straight)-1].call
	for _, b := range f.Blocks {
		if !last.Block().Dominates(b) {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if batchList(v.Type()) && !isNilConst(v) {
					joined = true
					got = got[:0]
					k.pieces(v, &got)
				}
			}
		}
	}
	same := len(got) == len(want)
	for i := range got {
		same = same && got[i] == want[i]
	}
	if joined {
		c.Oblige(same, "parts", id+" joins the results", at, "the results of the parts are not joined in the order of the parts")
	}
}

// pieces of a list put together by appends.
func (k *batch) pieces(v ssa.Value, out *[]ssa.Value) {
	switch x := v.(type) {
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "builtin:append":
			k.pieces(x.Call.Args[0], out)
			if len(x.Call.Args) == 2 {
				k.pieces(x.Call.Args[1], out)
			}
			return
		case "slices.Concat":
			if sl, ok := x.Call.Args[0].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					els := map[int64]ssa.Value{}
					for _, r := range *al.Referrers() {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							n, _ := constInt64(ia.Index)
							for _, q := range *ia.Referrers() {
								if st, ok := q.(*ssa.Store); ok {
									els[n] = st.Val
								}
							}
						}
					}
					for n := int64(0); n < int64(len(els)); n++ {
						k.pieces(els[n], out)
					}
					return
				}
			}
		}
	case *ssa.MakeSlice:
		if n, ok := constInt64(x.Len); ok && n == 0 {
			return
		}
	case *ssa.Const:
		if x.Value == nil {
			return
		}
	case *ssa.Slice:
		if x.Low == nil && x.High != nil {
			if n, ok := constInt64(x.High); ok && n == 0 {
				return
			}
		}
		if x.Low == nil && x.High == nil {
			k.pieces(x.X, out)
			return
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if a, ok := deref(al.Type()).Underlying().(*types.Array); ok && a.Len() == 0 {
				return
			}
		}
	}
	*out = append(*out, v)
}

// loopPart: a loop that passes one part of a list after the other.
func (k *batch) loopPart(f *ssa.Function, h *ssa.BasicBlock, p part) {
	c, ctx := k.c, k.b.root(f)
	id := FnName(f) + " passes " + typeString(listElem(p.arg.Type())) + " in parts"
	at := k.p.Pos(p.call.Pos())
	body := k.bodies[h]
	c.Instance("parts", id)
	// the counter is where the part starts
	var ph *ssa.Phi
	for _, i := range h.Instrs {
		if x, ok := i.(*ssa.Phi); ok {
			if d := p.lo.sub(k.b.lin(ctx, x)); d.isConst() && d.k == 0 {
				ph = x
			}
		}
	}
	if ph == nil {
		if rem := k.remaining(f, h, p); rem != "" {
			c.Fail("parts", id, at, rem)
		}
		return
	}
	for n, e := range ph.Edges {
		l := k.b.lin(ctx, e)
		if !body[h.Preds[n]] {
			c.Oblige(l.isConst() && l.k == 0, "parts", id, at, "the first part does not start with the first request")
			continue
		}
		d := l.sub(p.hi)
		c.Oblige(d.isConst() && d.k == 0, "parts", id, at, "a part does not start where the part before it ends: requests are left out or sent twice")
	}
	// the end: all requests have been passed
	whole := k.b.lenOf(ctx, p.root)
	for b := range body {
		for _, s := range b.Succs {
			if body[s] || k.failsOnly(b, s) {
				continue
			}
			pt := point{ctx, s, nil}
			if len(s.Instrs) > 0 {
				pt.at = s.Instrs[0]
			}
			k.b.work = 0
			ok := len(s.Preds) == 1 && k.b.prove(k.b.lin(ctx, ph).sub(whole), pt, nil, 0)
			c.Oblige(ok, "parts", id, k.p.Pos(lastPos(b)), "the loop can end before all requests were passed")
		}
	}
	// every turn passes its part and joins the results
	if bad := k.turnWithout(h, map[*ssa.BasicBlock]bool{p.call.Block(): true}); bad != nil {
		c.Fail("parts", id, k.p.Pos(lastPos(bad)), "a turn can leave its part out")
	}
	for _, r := range p.res {
		blocks := map[*ssa.BasicBlock]bool{}
		inOrder := true
		for _, q := range *r.Referrers() {
			cl, ok := q.(*ssa.Call)
			if !ok || calleeName(cl.Common()) != "builtin:append" || len(cl.Call.Args) != 2 || cl.Call.Args[1] != r {
				if ok && calleeName(cl.Common()) == "builtin:append" {
					inOrder = false
				}
				continue
			}
			if _, ok := cl.Call.Args[0].(*ssa.Phi); !ok {
				inOrder = inOrder && listRoot(cl.Call.Args[0]) != cl.Call.Args[0]
			}
			blocks[cl.Block()] = true
		}
		c.Oblige(inOrder, "parts", id+" (results)", at, "the results of a part are not put after those of the parts before it")
		used := len(blocks) > 0
		for _, a := range k.accesses(f) {
			used = used || listRoot(a.list) == r
		}
		if len(blocks) > 0 {
			bad := k.turnWithout(h, blocks)
			c.Oblige(bad == nil, "parts", id+" (results)", at, "a turn can leave the results of its part out")
		} else {
			c.Oblige(used, "parts", id+" (results)", at, "the results of a part are not used")
		}
	}
}

// remaining: the loop shortens the list from the front instead of counting.
func (k *batch) remaining(f *ssa.Function, h *ssa.BasicBlock, p part) string {
	ctx := k.b.root(f)
	root, ok := p.root.(*ssa.Phi)
	if !ok || root.Block() != h || !p.lo.isConst() || p.lo.k != 0 {
		return "the start of a part is not a counter of the parts passed before"
	}
	for n, e := range root.Edges {
		if !k.bodies[h][h.Preds[n]] {
			continue
		}
		lo, r := k.start(ctx, e)
		if d := lo.sub(p.hi); r != root || !d.isConst() || d.k != 0 {
			return "what is left for the next turn does not start where this part ends"
		}
		if d := lo.add(k.b.lenOf(ctx, e)).sub(k.b.lenOf(ctx, root)); !d.isConst() || d.k != 0 {
			return "what is left for the next turn does not end with the list"
		}
	}
	return ""
}

// starts: the table of starts.
func (k *batch) starts(f *ssa.Function, at map[*ssa.BasicBlock][]access, all []access) {
	c, ctx := k.c, k.b.root(f)
	for h, l := range at {
		body := k.bodies[h]
		for _, a := range l {
			if !a.sets || !isIntType(listElem(a.list.Type())) {
				continue
			}
			for _, r := range *a.in.(*ssa.IndexAddr).Referrers() {
				st, ok := r.(*ssa.Store)
				if !ok {
					continue
				}
				ds := map[ssa.Value]bool{}
				k.numberFrom(st.Val, ds)
				var lens []*ssa.Call
				var ph *ssa.Phi
				for v := range ds {
					switch x := v.(type) {
					case *ssa.Call:
						if n := calleeName(x.Common()); n == "(*bytes.Buffer).Len" || n == "builtin:len" {
							lens = append(lens, x)
						}
					case *ssa.Phi:
						if x.Block() == h {
							ph = x
						}
					}
				}
				id := FnName(f) + " table of starts"
				pos := k.p.Pos(st.Pos())
				head := linConst(2).addMul(k.b.lenOf(ctx, a.list), 2)
				val := unwire(st.Val)
				switch {
				case ph != nil && !k.indexOnly(ph, l):
					// the sum of the lengths so far
					c.Instance("offsets", id)
					for n, e := range ph.Edges {
						le := k.b.lin(ctx, e)
						if !body[h.Preds[n]] {
							d := le.sub(head)
							c.Oblige(d.isConst() && d.k == 0, "offsets", id, pos, "the first start is not the length of the table")
							continue
						}
						ok := false
						if bo, is := unconv(e).(*ssa.BinOp); is && bo.Op == token.ADD {
							for _, q := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
								cl, isLen := unconv(q[1]).(*ssa.Call)
								if unconv(q[0]) != ssa.Value(ph) || !isLen || calleeName(cl.Common()) != "builtin:len" {
									continue
								}
								for _, o := range l {
									v, _ := o.in.(ssa.Value)
									ok = ok || cl.Call.Args[0] == v || addrOfLoad(cl.Call.Args[0]) == v
								}
							}
						}
						c.Oblige(ok, "offsets", id, pos, "the next start is not the start of this element plus its length")
					}
					d := k.b.lin(ctx, val).sub(k.b.lin(ctx, ph))
					c.Oblige(d.isConst() && d.k == 0, "offsets", id, pos, "what is stored in the table of starts is not the sum of the lengths before")
				case len(lens) > 0:
					c.Instance("offsets", id)
					cl := lens[0]
					if len(lens) > 1 {
						cl = nil
						for _, x := range lens {
							if body[x.Block()] {
								cl = x
							}
						}
					}
					if cl == nil || !body[cl.Block()] {
						c.Fail("offsets", id, pos, "the start is not taken from the length of what was written before, in the same turn")
						continue
					}
					d := k.b.lin(ctx, val).sub(k.b.lin(ctx, cl)).sub(head)
					c.Oblige(d.isConst() && d.k == 0, "offsets", id, pos, "the start is not the length of the table and of what was written before the request")
					if w := k.writesBefore(h, cl); w != nil {
						c.Fail("offsets", id, k.p.Pos(w.Pos()), "the request is (partly) written before its start is taken")
					}
				}
			}
		}
	}
}

// unwire strips what checks that a number fits.
func unwire(v ssa.Value) ssa.Value {
	for {
		v = unconv(v)
		e, ok := v.(*ssa.Extract)
		if !ok {
			return v
		}
		cl, ok := e.Tuple.(*ssa.Call)
		if !ok || len(cl.Call.Args) != 1 || !isIntType(cl.Call.Args[0].Type()) {
			return v
		}
		v = cl.Call.Args[0]
	}
}

// numberFrom collects what a number is computed from.
func (k *batch) numberFrom(v ssa.Value, out map[ssa.Value]bool) {
	v = unwire(v)
	if out[v] {
		return
	}
	out[v] = true
	if x, ok := v.(*ssa.BinOp); ok {
		k.numberFrom(x.X, out)
		k.numberFrom(x.Y, out)
	}
}

// indexOnly: the phi is the counter of the loop.
func (k *batch) indexOnly(ph *ssa.Phi, l []access) bool {
	for _, a := range l {
		ds := map[ssa.Value]bool{}
		arith(a.idx, ds)
		if ds[ph] {
			return true
		}
	}
	return false
}

// writesBefore: something is written to the buffer in the turn before its length is taken.
func (k *batch) writesBefore(h *ssa.BasicBlock, ln *ssa.Call) ssa.Instruction {
	buf := ln.Call.Args[0]
	body := k.bodies[h]
	seen := map[*ssa.BasicBlock]bool{}
	var found ssa.Instruction
	writes := func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok || i == ssa.Instruction(ln) {
			return false
		}
		switch calleeName(ci.Common()) {
		case "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Cap", "builtin:len":
			return false
		}
		for _, a := range ci.Common().Args {
			if a == buf {
				return true
			}
			if m, ok := a.(*ssa.MakeInterface); ok && m.X == buf {
				return true
			}
			if m, ok := a.(*ssa.ChangeInterface); ok && m.X == buf {
				return true
			}
		}
		return false
	}
	var walk func(b *ssa.BasicBlock, upto int)
	walk = func(b *ssa.BasicBlock, upto int) {
		for n := upto - 1; n >= 0; n-- {
			if writes(b.Instrs[n]) && found == nil {
				found = b.Instrs[n]
			}
		}
		if b == h {
			return
		}
		for _, p := range b.Preds {
			if body[p] && !seen[p] {
				seen[p] = true
				walk(p, len(p.Instrs))
			}
		}
	}
	for n, i := range ln.Block().Instrs {
		if i == ssa.Instruction(ln) {
			walk(ln.Block(), n)
		}
	}
	return found
}

// reads are the calls in a loop that take something from a reader.
func (k *batch) reads(body map[*ssa.BasicBlock]bool) (out []*ssa.Call, src []ssa.Value) {
	for b := range body {
		for _, i := range b.Instrs {
			cl, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			n := calleeName(cl.Common())
			for _, a := range cl.Call.Args {
				v := a
				for {
					if m, ok := v.(*ssa.MakeInterface); ok {
						v = m.X
						continue
					}
					if m, ok := v.(*ssa.ChangeInterface); ok {
						v = m.X
						continue
					}
					break
				}
				switch {
				case strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "(*bytes.Reader)."):
					if !strings.Contains(n, ").Read") && !strings.HasSuffix(n, ").Next") {
						continue
					}
				case strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "bytes.New"):
					continue
				}
				if t := typeString(v.Type()); t == "*bytes.Buffer" || t == "*bytes.Reader" || t == "io.Reader" || typeName(deref(v.Type())) == "CIPItem" {
					out, src = append(out, cl), append(src, v)
				}
			}
		}
	}
	return
}

// replies: where each result is taken from.
func (k *batch) replies(f *ssa.Function, at map[*ssa.BasicBlock][]access, all []access) {
	c, ctx := k.c, k.b.root(f)
	var sent *ssa.Call
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			cl, ok := i.(*ssa.Call)
			if !ok || cl.Call.StaticCallee() == nil || cl.Call.StaticCallee() == f || k.server[f] {
				continue
			}
			if g := cl.Call.StaticCallee(); g.Name() == "send_recv_data" || !k.api[g] && carriesBytes(cl.Common()) && k.reachesSend(g) {
				sent = cl
			}
		}
	}
	for h, l := range at {
		after := sent != nil && sent.Block().Dominates(h)
		if !after && !k.server[f] {
			continue
		}
		body := k.bodies[h]
		id := k.loopID(f, l)
		calls, src := k.reads(body)
		if len(calls) == 0 {
			continue
		}
		pos := k.p.Pos(calls[0].Pos())
		if after {
			c.Oblige(k.compared(ctx, f, h, l, sent), "counts", FnName(f)+": results of the reply", pos, "the number of results in the reply is not compared with the number of requests before they are used")
		}
		fills := false
		for _, a := range l {
			fills = fills || a.sets && !isIntType(listElem(a.list.Type()))
		}
		filling := false // reads the table itself
		for _, a := range l {
			filling = filling || a.sets && isIntType(listElem(a.list.Type()))
		}
		if filling && !fills {
			continue
		}
		c.Instance("offsets", id)
		table := func(v ssa.Value) bool {
			ds := map[ssa.Value]bool{}
			deps(v, ds)
			for _, a := range l {
				if !a.sets && isIntType(listElem(a.list.Type())) && ds[a.in.(ssa.Value)] {
					return true
				}
			}
			return false
		}
		outside := map[*ssa.BasicBlock]int{}
		for n, cl := range calls {
			v := src[n]
			if k.ofTurn(h, v) {
				if fills && !k.within(f, body, v, table) {
					c.Fail("offsets", id, k.p.Pos(cl.Pos()), "a result is not taken from where the table says it starts")
				}
				continue
			}
			if fills {
				if !k.placed(h, cl, v, table) {
					c.Fail("offsets", id, k.p.Pos(cl.Pos()), "a result is taken from where the one before it ended, not from where the table says it starts")
				}
				continue
			}
			outside[cl.Block()]++
		}
		if len(outside) == 0 {
			continue
		}
		// one result in each turn
		seen := map[*ssa.BasicBlock]map[int]bool{}
		var walk func(b *ssa.BasicBlock, d int)
		walk = func(b *ssa.BasicBlock, d int) {
			d += outside[b]
			if seen[b] == nil {
				seen[b] = map[int]bool{}
			}
			if seen[b][d] || d > 5 {
				return
			}
			seen[b][d] = true
			for _, s := range b.Succs {
				if s == h && d != 1 {
					c.Fail("offsets", id, k.p.Pos(lastPos(b)), "a turn of the loop takes other than one result from the reply")
				} else if body[s] && s != h {
					walk(s, d)
				}
			}
		}
		walk(h, 0)
	}
}

// ofTurn: the source is made in the turn (not just taken from where it was before).
func (k *batch) ofTurn(h *ssa.BasicBlock, v ssa.Value) bool {
	for {
		in, ok := v.(ssa.Instruction)
		if !ok || !k.bodies[h][in.Block()] || in.Block() == h {
			return false
		}
		switch x := v.(type) {
		case *ssa.IndexAddr:
			if _, ok := x.Index.(*ssa.Const); !ok {
				return true
			}
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return true
		}
	}
}

func (k *batch) reachesSend(g *ssa.Function) bool {
	for h := range k.p.Reach(g) {
		if h.Name() == "send_recv_data" && recvName(h) == "Client" {
			return true
		}
	}
	return false
}

// within: the source is made in the turn, from where the table says.
func (k *batch) within(f *ssa.Function, body map[*ssa.BasicBlock]bool, v ssa.Value, table func(ssa.Value) bool) bool {
	return table(v)
}

// placed: before the call the position of the source is set from the table, in the same turn.
func (k *batch) placed(h *ssa.BasicBlock, cl *ssa.Call, v ssa.Value, table func(ssa.Value) bool) bool {
	body := k.bodies[h]
	for b := range body {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || !isItemField(st.Addr, "Pos") || st.Addr.(*ssa.FieldAddr).X != v || !table(st.Val) {
				continue
			}
			if earlier(st, cl) {
				return true
			}
		}
	}
	return false
}

// compared: on the way to the loop the number of results was compared with the number of requests.
func (k *batch) compared(ctx *pctx, f *ssa.Function, h *ssa.BasicBlock, l []access, sent *ssa.Call) bool {
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(h) || b == h || !sent.Block().Dominates(b) {
			continue
		}
		cond, neg := iff.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, neg = u.X, !neg
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isIntType(bo.X.Type()) {
			continue
		}
		same := 0
		if (bo.Op == token.NEQ) != neg {
			same = 1
		}
		if !k.failsOnly(b, b.Succs[1-same]) {
			continue
		}
		d := k.b.lin(ctx, bo.X).sub(k.b.lin(ctx, bo.Y))
		for _, a := range l {
			n := k.b.lenOf(ctx, a.list)
			for _, e := range []lin{d.sub(n), d.add(n)} {
				if len(e.t) == 1 && e.k == 0 && (e.t[0].c == 1 || e.t[0].c == -1) {
					at := k.b.atoms[e.t[0].a]
					if at.cv.ld != nil {
						return true
					}
					if in, ok := at.cv.v.(ssa.Instruction); ok && sent.Block().Dominates(in.Block()) {
						return true
					}
				}
			}
		}
		// both are lengths known only after the reply
		_ = same
	}
	return false
}

// destinations: where a result of a batch call is put.
func (k *batch) destinations(f *ssa.Function, at map[*ssa.BasicBlock][]access, all []access, lists, results map[ssa.Value]bool) {
	c := k.c
	for h, l := range at {
		body := k.bodies[h]
		var res []access
		for _, a := range l {
			if !a.sets && results[a.root] {
				res = append(res, a)
			}
		}
		id := k.loopID(f, l)
		ofTurn := func(v ssa.Value) (out []access) {
			ds := map[ssa.Value]bool{}
			deps(v, ds)
			for _, a := range l {
				if ds[a.in.(ssa.Value)] {
					out = append(out, a)
				}
			}
			return
		}
		for b := range body {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.MapUpdate:
					if k.inLoopOf(h, x.Map) {
						continue
					}
					if len(res) == 0 || len(ofTurn(x.Value)) == 0 {
						continue
					}
					ks := ofTurn(x.Key)
					c.Oblige(len(ks) > 0, "destination", id, k.p.Pos(x.Pos()), "the key under which a result is stored is not that of its request")
				case *ssa.Lookup:
					if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
						continue
					}
					if _, param := x.X.(*ssa.Parameter); !param || over(h) {
						continue
					}
					c.Oblige(len(ofTurn(x.Index)) > 0, "destination", id+" (lookup)", k.p.Pos(x.Pos()), "what is looked up in the loop is not chosen by the request's own name")
				case *ssa.Call:
					if len(res) == 0 {
						continue
					}
					n := calleeName(x.Common())
					if !strings.HasPrefix(n, "(reflect.Value).") && !strings.Contains(n, "reflect") {
						continue
					}
					for _, a := range x.Call.Args {
						if !isIntType(a.Type()) {
							continue
						}
						if ds := map[ssa.Value]bool{}; k.positionOf(f, a, b) == h {
							arith(a, ds)
							c.Fail("destination", id, k.p.Pos(x.Pos()), "the variable a result is stored in is chosen by the number of the turn, not by the list made with the requests")
						}
					}
				}
			}
		}
		if len(res) == 0 {
			continue
		}
		c.Instance("destination", id)
		// the destination lists are filled with the requests
		for _, a := range l {
			if results[a.root] || a.sets {
				continue
			}
			k.sameTurn(f, id, a.root, all)
		}
	}
}

func over(h *ssa.BasicBlock) bool {
	for _, i := range h.Instrs {
		if n, ok := i.(*ssa.Next); ok && !n.IsString {
			return true
		}
	}
	return false
}

// stored gives what a list is filled with, and in which loop.
func (k *batch) stored(f *ssa.Function, root ssa.Value, all []access) (vals []ssa.Value, ins []ssa.Instruction, in map[*ssa.BasicBlock]bool) {
	in = map[*ssa.BasicBlock]bool{}
	loop := func(b *ssa.BasicBlock) {
		var best *ssa.BasicBlock
		for _, h := range k.loops(f) {
			if k.bodies[h][b] && (best == nil || k.bodies[best][h]) {
				best = h
			}
		}
		if best != nil {
			in[best] = true
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				if listRoot(x.X) != root {
					continue
				}
				ds := map[ssa.Value]bool{}
				for _, r := range *x.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == x {
						vals, ins = append(vals, st.Val), append(ins, st)
						loop(b)
						continue
					}
					if fa, ok := r.(*ssa.FieldAddr); ok {
						for _, q := range *fa.Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
								vals, ins = append(vals, st.Val), append(ins, st)
								loop(b)
							}
						}
					}
				}
				_ = ds
			case *ssa.Call:
				if calleeName(x.Common()) == "builtin:append" && batchList(x.Type()) && listRoot(x) == root && len(x.Call.Args) == 2 {
					if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
						if al, ok := sl.X.(*ssa.Alloc); ok {
							for _, r := range *al.Referrers() {
								if ia, ok := r.(*ssa.IndexAddr); ok {
									for _, q := range *ia.Referrers() {
										if st, ok := q.(*ssa.Store); ok {
											vals, ins = append(vals, st.Val), append(ins, st)
										}
										if fa, ok := q.(*ssa.FieldAddr); ok {
											for _, w := range *fa.Referrers() {
												if st, ok := w.(*ssa.Store); ok {
													vals, ins = append(vals, st.Val), append(ins, st)
												}
											}
										}
									}
								}
							}
							loop(b)
						}
					}
				}
			}
		}
	}
	return
}

// sameTurn: the list of destinations and the list of requests are filled in one loop, the request from its destination.
func (k *batch) sameTurn(f *ssa.Function, id string, dest ssa.Value, all []access) {
	c := k.c
	dv, _, dl := k.stored(f, dest, all)
	if len(dv) == 0 {
		return // given by the caller
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			v, ok := i.(ssa.Value)
			if !ok {
				continue
			}
			cl := k.apiCall(v)
			if cl == nil {
				continue
			}
			for _, a := range cl.Call.Args {
				if !batchList(a.Type()) {
					continue
				}
				r := listRoot(a)
				if r == dest {
					continue
				}
				rv, _, rl := k.stored(f, r, all)
				if len(rv) == 0 {
					continue
				}
				same := len(rl) == len(dl)
				for h := range rl {
					same = same && dl[h]
				}
				at := k.p.Pos(dv[0].Pos())
				if !at2(dv[0]) {
					at = k.p.Pos(f.Pos())
				}
				c.Oblige(same, "destination", id+" (filled)", at, "the destinations are not listed in the loop that lists the requests")
				ds := map[ssa.Value]bool{}
				for _, x := range rv {
					deps(x, ds)
				}
				for _, x := range dv {
					c.Oblige(ds[x], "destination", id+" (filled)", at, "the destination listed for a request is not what the request was made from")
				}
			}
		}
	}
}

func at2(v ssa.Value) bool { return v.Pos().IsValid() }

// fragments: the follow-up requests of a fragmented read.
func (k *batch) fragments() {
	c := k.c
	for _, f := range k.p.SrcFuncs(k.p.Root) {
		for _, h := range k.loops(f) {
			body := k.bodies[h]
			for b := range body {
				for _, i := range b.Instrs {
					cl, ok := i.(*ssa.Call)
					if !ok || cl.Call.StaticCallee() == nil || !passesConst(cl.Call.StaticCallee(), svcFragRead) || !k.reachesSend(cl.Call.StaticCallee()) {
						continue
					}
					k.fragment(f, h, cl)
				}
			}
		}
	}
	_ = c
}

func (k *batch) fragment(f *ssa.Function, h *ssa.BasicBlock, cl *ssa.Call) {
	c := k.c
	id := FnName(f)
	at := k.p.Pos(cl.Pos())
	c.Instance("fragments", id)
	var data ssa.Value
	for _, r := range *cl.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			if s, ok := e.Type().Underlying().(*types.Slice); ok {
				if bt, ok := s.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
					data = e
				}
			}
		}
	}
	if data == nil {
		c.Fail("fragments", id, at, "what a follow-up request brings is not kept")
		return
	}
	blocks := map[*ssa.BasicBlock]bool{}
	ok := false
	for _, a := range cl.Call.Args {
		if !isIntType(a.Type()) {
			continue
		}
		v := unwire(a)
		ph, isPhi := v.(*ssa.Phi)
		ln, isCall := v.(*ssa.Call)
		switch {
		case isCall && calleeName(ln.Common()) == "(*bytes.Buffer).Len" && k.bodies[h][ln.Block()]:
			buf := ln.Call.Args[0]
			for _, r := range *data.Referrers() {
				if w, is := r.(*ssa.Call); is && calleeName(w.Common()) == "(*bytes.Buffer).Write" && w.Call.Args[0] == buf {
					blocks[w.Block()] = true
				}
			}
			ok = k.seeded(buf)
		case isCall && calleeName(ln.Common()) == "builtin:len" && k.bodies[h][ln.Block()]:
			for _, r := range *data.Referrers() {
				if w, is := r.(*ssa.Call); is && calleeName(w.Common()) == "builtin:append" && w.Call.Args[1] == data && growsPhi(w.Call.Args[0], ln.Call.Args[0]) {
					blocks[w.Block()] = true
				}
			}
			ok = k.seeded(ln.Call.Args[0])
		case isPhi && ph.Block() == h:
			for n, e := range ph.Edges {
				if !k.bodies[h][h.Preds[n]] {
					in, is := unwire(e).(*ssa.Call)
					ok = is && (calleeName(in.Common()) == "builtin:len" || calleeName(in.Common()) == "(*bytes.Buffer).Len")
					continue
				}
				if bo, is := unconv(e).(*ssa.BinOp); is && bo.Op == token.ADD {
					for _, q := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
						l, isLen := unconv(q[1]).(*ssa.Call)
						if unconv(q[0]) == ssa.Value(ph) && isLen && calleeName(l.Common()) == "builtin:len" && l.Call.Args[0] == data {
							blocks[bo.Block()] = true
						}
					}
				}
			}
		}
	}
	c.Oblige(ok && len(blocks) > 0, "fragments", id, at, "the follow-up request does not ask from the number of bytes received so far")
	if len(blocks) > 0 {
		bad := k.turnWithout(h, blocks)
		c.Oblige(bad == nil, "fragments", id, at, "a turn can drop what its request brought")
	}
}

// seeded: the buffer starts with what the first reply brought.
func (k *batch) seeded(buf ssa.Value) bool {
	ds := map[ssa.Value]bool{}
	deps(buf, ds)
	for v := range ds {
		if p, ok := v.(*ssa.Parameter); ok {
			if s, ok := p.Type().Underlying().(*types.Slice); ok {
				if bt, ok := s.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
					return true
				}
			}
		}
	}
	return false
}

func growsPhi(a, b ssa.Value) bool { return a == b || listRoot(a) == listRoot(b) }

// earlier: a comes before b on every path to b.
func earlier(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a || i == b {
			return i == a
		}
	}
	return false
}
