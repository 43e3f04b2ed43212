package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["C28"] = noSwallow }

// C28: what happens to the error of every failing step.

func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return -1
	}
	return n - 1
}

type errCheck struct {
	only    func(ci ssa.CallInstruction) bool // limits the calls that are decided
	c       *Check
	p       *Prog
	never   map[*ssa.Function]int // 1 computing, 2 never fails, 3 may fail
	sinks   map[*ssa.Parameter]*sinkParam
	goBody  map[*ssa.Function]bool
	fresh   bool
	replies map[*ssa.Function]bool // server functions that send
}

// nothingFails: the function's error result is always nil.
func (k *errCheck) nothingFails(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || !k.p.InLib(f) {
		return false
	}
	switch k.never[f] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	k.never[f] = 1
	n := errIndex(f.Signature)
	ok := n >= 0
	for _, b := range f.Blocks {
		if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && ok {
			ok = k.nilError(r.Results[n])
		}
	}
	k.never[f] = 3
	if ok {
		k.never[f] = 2
	}
	return ok
}

func (k *errCheck) nilError(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !k.nilError(e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return k.cannotFail(x)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return k.cannotFail(c)
		}
	}
	return false
}

var infallible = []string{"fmt.Print", "fmt.Fprint", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "bytes.Buffer.Write", "strings.Builder.Write"}

// cannotFail: this call never returns an error.
func (k *errCheck) cannotFail(ci ssa.CallInstruction) bool {
	cm := ci.Common()
	n := calleeName(cm)
	for _, s := range infallible {
		if strings.HasPrefix(n, s) {
			return true
		}
	}
	sc := cm.StaticCallee()
	if k.nothingFails(sc) {
		return true
	}
	// encoding values of fixed size into memory
	if pkgFunc(sc, "encoding/binary", "Write") {
		return k.memWriter(cm.Args[0]) && k.encodable(cm.Args[2], false, map[ssa.Value]bool{})
	}
	if sc != nil {
		found := false
		for _, sp := range k.sinks {
			if sp.f != sc || sp.read || sp.i >= len(cm.Args) {
				continue
			}
			found = true
			if !k.encodable(cm.Args[sp.i], sp.serial, map[ssa.Value]bool{}) {
				return false
			}
		}
		if found && typeName(cm.Args[0].Type()) == "CIPItem" {
			// the first value put into an item made here
			al, ok := cm.Args[0].(*ssa.Alloc)
			if !ok || !firstUse(al, ci) {
				return false
			}
			k.fresh = true
			defer func() { k.fresh = false }()
		}
		return found && k.onlyEncodes(sc)
	}
	return false
}

// firstUse: no other call is given the local before this one.
func firstUse(al *ssa.Alloc, ci ssa.CallInstruction) bool {
	for _, r := range liveRefs(al) {
		if c2, ok := r.(ssa.CallInstruction); ok && c2 != ci {
			return false
		}
	}
	return true
}

// memWriter: the writer is memory and takes everything.
func (k *errCheck) memWriter(v ssa.Value) bool {
	for _, x := range sinkValues(v) {
		mi, ok := x.(*ssa.MakeInterface)
		if !ok {
			return false
		}
		switch typeName(mi.X.Type()) {
		case "bytes.Buffer", "strings.Builder":
			continue
		}
		if k.fresh && typeName(mi.X.Type()) == "CIPItem" {
			continue // an empty item has room
		}
		n := namedOf(mi.X.Type())
		if n == nil {
			return false
		}
		w := k.p.SSA.LookupMethod(mi.X.Type(), n.Obj().Pkg(), "Write")
		if !k.nothingFails(w) {
			return false
		}
	}
	return true
}

// encodable: every value that can reach the argument has a fixed size (or encodes itself).
func (k *errCheck) encodable(v ssa.Value, serial bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, x := range sinkValues(v) {
		switch y := x.(type) {
		case *ssa.Const:
			continue
		case *ssa.MakeInterface:
			t := y.X.Type()
			if _, ok := types.Unalias(deref(t)).(*types.TypeParam); ok {
				return false
			}
			if serial {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					continue
				}
				if encodesItself(t) {
					continue
				}
			}
			if notFixed(t, 0) != "" || isIface(t) {
				return false
			}
		case *ssa.Parameter:
			f := y.Parent()
			cs := k.p.CallersOf(f)
			if len(cs) == 0 || token.IsExported(f.Name()) && !k.fixedParam(f, cs) {
				return false
			}
			idx := -1
			for i, q := range f.Params {
				if q == y {
					idx = i
				}
			}
			for _, ci := range cs {
				a := ci.Common().Args
				if ci.Common().IsInvoke() {
					a = append([]ssa.Value{ci.Common().Value}, a...)
				}
				if idx >= len(a) || !k.encodable(a[idx], serial, seen) {
					return false
				}
			}
		default:
			// a value of concrete type
			if isIface(x.Type()) || notFixed(x.Type(), 0) != "" {
				return false
			}
		}
	}
	return true
}

func (k *errCheck) fixedParam(f *ssa.Function, cs []ssa.CallInstruction) bool { return false }

// onlyEncodes: the function fails only when an encoding step inside it does, given that its own arguments
// can be encoded: all its failing calls are encoders writing to memory.
func (k *errCheck) onlyEncodes(f *ssa.Function) bool {
	n := errIndex(f.Signature)
	if n < 0 {
		return true
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok || errIndex(ci.Common().Signature()) < 0 {
				continue
			}
			sc := ci.Common().StaticCallee()
			nm := calleeName(ci.Common())
			if nm == "fmt.Errorf" || nm == "errors.New" {
				// building an error is only allowed to wrap that of an encoder
				wraps := false
				for _, o := range liveOperands(ci) {
					wraps = wraps || isErrorType(o.Type())
				}
				if nm == "errors.New" || !wraps && !k.wrapsError(ci) {
					return false
				}
				continue
			}
			if pkgFunc(sc, "encoding/binary", "Write") {
				if !k.memWriter(ci.Common().Args[0]) {
					return false
				}
				continue
			}
			if sc == nil || !k.cannotFail(ci) && !(k.p.InLib(sc) && sc != f && (k.isSinkFunc(sc) || k.encodesConcrete(sc)) && k.onlyEncodes(sc)) {
				return false
			}
		}
	}
	return true
}

// encodesConcrete: everything the function encodes is a value of its own of fixed size.
func (k *errCheck) encodesConcrete(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && pkgFunc(ci.Common().StaticCallee(), "encoding/binary", "Write") {
				n++
				if !k.encodable(ci.Common().Args[2], false, map[ssa.Value]bool{}) {
					return false
				}
			}
		}
	}
	return n > 0
}

func (k *errCheck) isSinkFunc(f *ssa.Function) bool {
	for _, s := range k.sinks {
		if s.f == f && !s.read {
			return true
		}
	}
	return false
}

func liveOperands(ci ssa.CallInstruction) []ssa.Value { return ci.Common().Args }

// wrapsError: one of the formatted values is an error.
func (k *errCheck) wrapsError(ci ssa.CallInstruction) bool {
	a := ci.Common().Args
	if len(a) == 0 {
		return false
	}
	for _, x := range sinkValues(a[len(a)-1]) {
		if mi, ok := x.(*ssa.MakeInterface); ok && isErrorType(mi.X.Type()) || isErrorType(x.Type()) {
			return true
		}
		if ci, ok := x.(*ssa.ChangeInterface); ok && isErrorType(ci.X.Type()) {
			return true
		}
	}
	return false
}

func liveRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

func isLogging(cm *ssa.CallCommon) bool {
	n := calleeName(cm)
	return strings.Contains(n, "log/slog") || strings.HasPrefix(n, "log.") || strings.Contains(n, "Logger)") || cm.IsInvoke() && strings.Contains(strings.ToLower(typeName(cm.Value.Type())), "logger")
}

// isCleanup: closing a connection or file that is given up.
func isCleanup(cm *ssa.CallCommon) bool {
	name, t := "", types.Type(nil)
	if cm.IsInvoke() {
		name, t = cm.Method.Name(), cm.Value.Type()
	} else if sc := cm.StaticCallee(); sc != nil && sc.Signature.Recv() != nil {
		name, t = sc.Name(), sc.Signature.Recv().Type()
	}
	if name != "Close" || t == nil {
		return false
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "net" || n.Obj().Pkg().Path() == "io" || n.Obj().Pkg().Path() == "os")
}

// errVal: the error result of a call as an SSA value.
func errVal(call *ssa.Call) ssa.Value {
	k := errIndex(call.Call.Signature())
	if call.Call.Signature().Results().Len() == 1 {
		return call
	}
	for _, r := range *call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == k {
			return x
		}
	}
	return nil
}

// same: the values of type error that stand for e, wrapped or merged.
func carrier(v ssa.Value, e ssa.Value, d int) bool {
	if v == e {
		return true
	}
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return carrier(x.X, e, d+1)
	case *ssa.ChangeInterface:
		return carrier(x.X, e, d+1)
	case *ssa.ChangeType:
		return carrier(x.X, e, d+1)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return carrier(al, e, d+1)
		}
	case *ssa.Alloc: // the array of a variadic call, or a composite literal holding the error
		for _, r := range liveRefs(x) {
			var refs []ssa.Instruction
			switch y := r.(type) {
			case *ssa.IndexAddr:
				refs = liveRefs(y)
			case *ssa.FieldAddr:
				refs = liveRefs(y)
			}
			for _, r2 := range refs {
				if s, ok := r2.(*ssa.Store); ok && carrier(s.Val, e, d+1) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				return carrier(al, e, d+1)
			}
		}
	case *ssa.Call:
		if isLogging(x.Common()) {
			return false
		}
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			if bi.Name() != "append" {
				return false
			}
		} else if !returnsError(x.Call.Signature()) {
			return false
		}
		for _, a := range x.Call.Args {
			if carrier(a, e, d+1) {
				return true
			}
		}
	case *ssa.Extract:
		return carrier(x.Tuple, e, d+1)
	case *ssa.Phi:
		for _, y := range x.Edges {
			if y == e {
				return true
			}
			if _, isPhi := y.(*ssa.Phi); !isPhi && carrier(y, e, d+1) {
				return true
			}
		}
	}
	return false
}

// returnsError: the call hands back an error (or a struct that implements it).
func returnsError(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if isErrorType(t) || types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
			return true
		}
		if types.Implements(types.NewPointer(t), types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
			return true
		}
	}
	return false
}

// nilAt: v was compared with nil and found nil on every path to block b.
func nilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for _, r := range liveRefs(v) {
		cmp, ok := r.(*ssa.BinOp)
		if !ok || cmp.Op != token.NEQ && cmp.Op != token.EQL || !nilConst(cmp.X) && !nilConst(cmp.Y) {
			continue
		}
		for _, r2 := range liveRefs(cmp) {
			br, ok := r2.(*ssa.If)
			if !ok {
				continue
			}
			s := br.Block().Succs[1]
			if cmp.Op == token.EQL {
				s = br.Block().Succs[0]
			}
			if len(s.Preds) == 1 && s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func nilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

type errWalk struct {
	k    *errCheck
	f    *ssa.Function
	call *ssa.Call
	e    ssa.Value
	n    int
	seen map[string]bool
	same map[ssa.Value]bool       // joins that hold e on this path
	mem  map[*ssa.Alloc]ssa.Value // error variables kept in memory, and what was last put there on this path
	why  string
	at   token.Pos
}

// lost walks from a block reached with the error e set and explains how it is lost.
func (w *errWalk) walk(pred, b *ssa.BasicBlock) {
	if w.why != "" {
		return
	}
	old, mem := w.same, w.mem
	defer func() { w.same, w.mem = old, mem }()
	w.mem = map[*ssa.Alloc]ssa.Value{}
	for a, v := range mem {
		w.mem[a] = v
	}
	w.same = map[ssa.Value]bool{}
	for v := range old {
		w.same[v] = true
	}
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		delete(w.same, ph)
		for n, pr := range b.Preds {
			if pr == pred && (ph.Edges[n] == w.e || old[ph.Edges[n]]) {
				w.same[ph] = true
			}
		}
	}
	var names []string
	for v := range w.same {
		names = append(names, v.Name())
	}
	for a, v := range w.mem {
		names = append(names, a.Name()+"="+v.Name())
	}
	sort.Strings(names)
	pn := -1
	if pred != nil {
		pn = pred.Index
	}
	key := fmt.Sprint(pn, " ", b.Index, " ", names)
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	w.scan(pred, b, b.Instrs)
}

// errVar: a variable of type error kept in memory that only this function touches (the result of a function
// with deferred calls, for instance).
func errVar(v ssa.Value) *ssa.Alloc {
	al, ok := v.(*ssa.Alloc)
	if !ok || !isErrorType(deref(al.Type())) {
		return nil
	}
	for _, r := range liveRefs(al) {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == ssa.Value(al) {
				return nil
			}
		case *ssa.UnOp:
		default:
			return nil
		}
	}
	return al
}

func (w *errWalk) scan(pred, b *ssa.BasicBlock, instrs []ssa.Instruction) {
	res := func(v ssa.Value) ssa.Value {
		if w.same[v] {
			return w.e
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b && pred != nil {
			for n, pr := range b.Preds {
				if pr == pred {
					return ph.Edges[n]
				}
			}
		}
		return v
	}
	for _, i := range instrs {
		switch x := i.(type) {
		case *ssa.UnOp:
			if al := errVar(x.X); al != nil && x.Op == token.MUL {
				delete(w.same, x)
				if v, ok := w.mem[al]; ok && (w.same[v] || v == w.e || carrier(v, w.e, 0)) {
					w.same[x] = true
				}
			}
		case *ssa.Call:
			if isLogging(x.Common()) {
				continue
			}
			sc := x.Call.StaticCallee()
			if sc != nil && w.k.p.InLib(sc) || x.Call.IsInvoke() && w.k.libIface(x.Call.Value.Type()) {
				for _, a := range x.Call.Args {
					if carrier(a, w.e, 0) && !returnsError(x.Call.Signature()) {
						return // handed to the library's own code
					}
				}
			}
		case *ssa.Defer:
			for _, a := range x.Call.Args {
				if carrier(a, w.e, 0) {
					return
				}
			}
		case *ssa.Send:
			if carrier(x.X, w.e, 0) {
				return
			}
		case *ssa.Store:
			if al := errVar(x.Addr); al != nil {
				w.mem[al] = res(x.Val)
				continue
			}
			if carrier(x.Val, w.e, 0) {
				_, idx := x.Addr.(*ssa.IndexAddr)
				fa, fld := x.Addr.(*ssa.FieldAddr)
				if fld {
					_, loc := fa.X.(*ssa.Alloc)
					fld = !loc || escapesAlloc(fa.X)
				}
				if !idx && (fld || !isFieldAddr(x.Addr)) {
					return
				}
			}
		case *ssa.MapUpdate:
			if carrier(x.Value, w.e, 0) {
				return
			}
		case *ssa.Panic:
			return
		case *ssa.Return:
			for _, r := range x.Results {
				if u, ok := r.(*ssa.UnOp); ok && errVar(u.X) != nil {
					if v, ok := w.mem[errVar(u.X)]; ok {
						if v == w.e || carrier(v, w.e, 0) {
							return
						}
						continue
					}
				}
				if carrier(res(r), w.e, 0) || carrier(r, w.e, 0) && !nilConst(res(r)) {
					return
				}
			}
			if w.n < 0 {
				// a result that says "no"
				if m := len(x.Results); m > 0 {
					if c, ok := res(x.Results[m-1]).(*ssa.Const); ok && c.Value != nil && c.Value.String() == "false" {
						return
					}
				}
				w.why, w.at = "the function ends without reporting it", x.Pos()
				return
			}
			v := res(x.Results[w.n])
			if u, ok := v.(*ssa.UnOp); ok && errVar(u.X) != nil {
				if m, ok := w.mem[errVar(u.X)]; ok {
					v = m
				}
			}
			if nilConst(v) {
				w.why, w.at = "the function returns success", x.Pos()
			} else if nilAt(v, b) {
				w.why, w.at = "the function returns another error variable that is nil here", x.Pos()
			} else if c2 := stepError(v, x.Results[w.n], b); c2 != nil && c2 != w.call && !w.k.alwaysFails(c2) && !w.k.answers(c2) {
				w.why, w.at = "the function goes on and returns only what "+shortCallee(c2.Common())+" says", x.Pos()
			}
			return
		case *ssa.If:
			if call, ok := x.Cond.(*ssa.Call); ok && w.k.classified(w, call) {
				w.next(b, b.Succs[1])
				return
			}
			if cmp, ok := x.Cond.(*ssa.BinOp); ok && (cmp.Op == token.NEQ || cmp.Op == token.EQL) {
				a := cmp.X
				if nilConst(a) {
					a = cmp.Y
				}
				if (nilConst(cmp.X) || nilConst(cmp.Y)) && (a == w.e || res(a) == w.e || carrier(a, w.e, 0) && !isPhi(a)) {
					s := b.Succs[0]
					if cmp.Op == token.EQL {
						s = b.Succs[1]
					}
					w.next(b, s)
					return
				}
			}
		}
	}
	for _, n := range b.Succs {
		w.next(b, n)
	}
}

// stepError: the value is the error of another step, not known to have failed in the block that returns it.
func stepError(v, orig ssa.Value, b *ssa.BasicBlock) *ssa.Call {
	if setAt(v, b) || setAt(orig, b) {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Call:
		return x
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c
		}
	}
	return nil
}

// setAt: v was compared with nil and found set on every path to block b.
func setAt(v ssa.Value, b *ssa.BasicBlock) bool {
	for _, r := range liveRefs(v) {
		cmp, ok := r.(*ssa.BinOp)
		if !ok || cmp.Op != token.NEQ && cmp.Op != token.EQL || !nilConst(cmp.X) && !nilConst(cmp.Y) {
			continue
		}
		for _, r2 := range liveRefs(cmp) {
			i, ok := r2.(*ssa.If)
			if !ok {
				continue
			}
			s := i.Block().Succs[0]
			if cmp.Op == token.EQL {
				s = i.Block().Succs[1]
			}
			if len(s.Preds) == 1 && s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// answers: the call sends a reply to a peer of the server, which is told of the failure by it (C22 and C30
// decide what the reply says).
func (k *errCheck) answers(c *ssa.Call) bool {
	if k.replies == nil {
		k.replies = k.p.Relevant(func(f *ssa.Function, i ssa.Instruction) bool { return writesConn(i) })
		for f := range k.p.Reach(k.p.Methods("Client")...) {
			delete(k.replies, f)
		}
	}
	for _, g := range k.p.Callees(c) {
		if k.replies[g] {
			return true
		}
	}
	return false
}

// alwaysFails: the call makes an error.
func (k *errCheck) alwaysFails(c *ssa.Call) bool {
	switch n := calleeName(c.Common()); {
	case n == "fmt.Errorf", n == "errors.New", n == "errors.Join":
		return true
	}
	f := c.Call.StaticCallee()
	if f == nil || !k.p.InLib(f) || len(f.Blocks) == 0 {
		return false
	}
	n := errIndex(f.Signature)
	if n < 0 {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			c2, ok := r.Results[n].(*ssa.Call)
			if !ok || c2 == c || !k.alwaysFails(c2) {
				return false
			}
		}
	}
	return true
}

// classified: the test singles out an error with a meaning of its own: a status of the device, or the end of
// the data where a new element would begin.
func (k *errCheck) classified(w *errWalk, call *ssa.Call) bool {
	n := calleeName(call.Common())
	if n != "errors.As" && n != "errors.Is" || len(call.Call.Args) != 2 || !carrier(call.Call.Args[0], w.e, 0) {
		return false
	}
	if n == "errors.As" {
		mi, ok := call.Call.Args[1].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		t := namedOf(deref(mi.X.Type()))
		return t != nil && t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == modPath
	}
	u, ok := call.Call.Args[1].(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok || g.Name() != "EOF" || g.Pkg.Pkg.Path() != "io" {
		return false
	}
	// nothing else of the element was decoded before
	for _, b := range w.f.Blocks {
		for _, i := range b.Instrs {
			c2, ok := i.(*ssa.Call)
			if !ok || c2 == w.call || errIndex(c2.Call.Signature()) < 0 || isLogging(c2.Common()) || calleeName(c2.Common()) == "fmt.Errorf" {
				continue
			}
			if inLoopWith(c2.Block(), w.call.Block()) && (b != w.call.Block() && b.Dominates(w.call.Block()) || b == w.call.Block() && before(c2, w.call)) {
				return false
			}
		}
	}
	return inLoopWith(w.call.Block(), w.call.Block())
}

func before(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// inLoopWith: the blocks lie on a common cycle.
func inLoopWith(a, b *ssa.BasicBlock) bool { return reachesBlock(a, b) && reachesBlock(b, a) }

func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	return false
}

func isPhi(v ssa.Value) bool { _, ok := v.(*ssa.Phi); return ok }

func isFieldAddr(v ssa.Value) bool { _, ok := v.(*ssa.FieldAddr); return ok }

// escapesAlloc: the local structure is returned, stored or handed on.
func escapesAlloc(v ssa.Value) bool {
	for _, r := range liveRefs(v) {
		switch x := r.(type) {
		case *ssa.Return, *ssa.MakeInterface, *ssa.Call:
			return true
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.UnOp:
			return true
		}
	}
	return false
}

func (w *errWalk) next(b, n *ssa.BasicBlock) {
	if n == w.call.Block() {
		w.why, w.at = "the loop goes on to its next iteration", w.call.Pos()
		return
	}
	w.walk(b, n)
}

func (k *errCheck) libIface(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

// usesParsed: the text that failed to parse is used as text on the way.
func usesParsed(call *ssa.Call) bool {
	if len(call.Call.Args) == 0 {
		return false
	}
	s := call.Call.Args[0]
	roots := []ssa.Value{s}
	if sl, ok := s.(*ssa.Slice); ok {
		roots = append(roots, sl.X)
	}
	for _, v := range roots {
		for _, r := range liveRefs(v) {
			if r == call || call.Block().Dominates(r.Block()) == false {
				continue
			}
			switch x := r.(type) {
			case *ssa.Call, *ssa.Return:
				if r.Block() != call.Block() {
					return true
				}
				_ = x
			}
		}
	}
	return false
}

func (k *errCheck) background(f *ssa.Function) bool {
	if k.goBody[f] {
		return true
	}
	if f.Parent() != nil && k.goBody[f.Parent()] {
		return true
	}
	return false
}

func newErrCheck(c *Check) *errCheck {
	p := c.P
	k := &errCheck{c: c, p: p, never: map[*ssa.Function]int{}, sinks: wireSinks(p), goBody: map[*ssa.Function]bool{}}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Go:
					for _, g := range p.Callees(x) {
						k.goBody[g] = true
					}
					if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
						k.goBody[mc.Fn.(*ssa.Function)] = true
					}
				case *ssa.Call:
					// a loop that answers datagrams has nobody to report to
					if n := calleeName(x.Common()); strings.HasSuffix(n, ".ReadFrom") && strings.Contains(n, "net.") {
						k.goBody[f] = true
					}
				}
			}
		}
	}
	// helpers called only from such bodies that have no error result of their own
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if k.goBody[f] || token.IsExported(f.Name()) || errIndex(f.Signature) >= 0 || len(p.CallersOf(f)) == 0 {
				continue
			}
			all := true
			for _, ci := range p.CallersOf(f) {
				all = all && k.background(ci.Parent())
			}
			if all {
				k.goBody[f] = true
				changed = true
			}
		}
	}
	return k
}

func noSwallow(c *Check) {
	p := c.P
	c.Rule("examined", "the error of every step that can fail is examined or passed on")
	c.Rule("reported", "on every path on which a step failed, its error (or one built from it) is returned, handed to the code that reports it, or the function answers no")
	k := newErrCheck(c)
	for _, f := range p.SrcFuncs(p.Root, p.Lgx) {
		k.function(f)
	}
	c.Info["background loops"] = len(k.goBody)
	c.Floor("examined", 250)
	c.Floor("reported", 250)
}

func (k *errCheck) function(f *ssa.Function) {
	c, p := k.c, k.p
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if errIndex(ci.Common().Signature()) < 0 || isCleanup(ci.Common()) {
				continue
			}
			if k.only != nil && !k.only(ci) {
				continue
			}
			what := FnName(f) + " " + shortCallee(ci.Common())
			if r := f.Signature.Recv(); r != nil && encodesItself(r.Type()) {
				// the steps of a type that encodes itself, however they are split
				what = "(" + typeName(r.Type()) + ") encoding " + shortCallee(ci.Common())
			}
			pos := p.Pos(ci.Pos())
			if k.cannotFail(ci) {
				c.Instance("examined", what+" (cannot fail)")
				continue
			}
			call, isCall := i.(*ssa.Call)
			if !isCall {
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				c.Fail("examined", what, pos, "the error of a deferred call is lost")
				continue
			}
			e := errVal(call)
			if e != nil && k.background(f) && (calleeName(call.Common()) == "errors.New" || calleeName(call.Common()) == "fmt.Errorf") {
				continue // a text for the log
			}
			if e == nil || !k.examined(e, map[ssa.Value]bool{}) {
				c.Fail("examined", what, pos, "the error of "+shortCallee(ci.Common())+" is never examined")
				continue
			}
			c.Instance("examined", what)
			if k.background(f) {
				continue // nobody to report to
			}
			k.paths(f, call, e, what)
		}
	}
}

// examined: the error is compared, returned or passed on, not only logged.
func (k *errCheck) examined(e ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[e] {
		return false
	}
	seen[e] = true
	for _, r := range liveRefs(e) {
		switch x := r.(type) {
		case *ssa.Call:
			if isLogging(x.Common()) {
				continue
			}
			n := calleeName(x.Common())
			if n == "errors.Is" || n == "errors.As" || strings.HasPrefix(n, "fmt.Print") || x.Call.IsInvoke() && x.Call.Value == e {
				continue
			}
			if v := ssa.Value(x); returnsError(x.Call.Signature()) {
				if k.examined(v, seen) {
					return true
				}
				continue
			}
			return true
		case *ssa.MakeInterface:
			if k.examined(x, seen) {
				return true
			}
		case *ssa.ChangeInterface:
			if k.examined(x, seen) {
				return true
			}
		case *ssa.Phi:
			if k.examined(x, seen) {
				return true
			}
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				// the arguments of a variadic call
				if al, ok := ia.X.(*ssa.Alloc); ok {
					for _, r2 := range liveRefs(al) {
						if sl, ok := r2.(*ssa.Slice); ok && k.examined(sl, seen) {
							return true
						}
					}
					continue
				}
			}
			return true
		case *ssa.BinOp:
			if len(liveRefs(x)) > 0 {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// paths follows every branch on the error into its failing side.
func (k *errCheck) paths(f *ssa.Function, call *ssa.Call, e ssa.Value, what string) {
	c, p := k.c, k.p
	pos := p.Pos(call.Pos())
	report := func(w *errWalk) {
		if w.why == "" {
			c.Instance("reported", what)
			return
		}
		if why := k.tolerated(f, call, w); why != "" {
			c.Instance("reported", what+" ("+why+")")
			return
		}
		c.Fail("reported", what, pos, "when "+shortCallee(call.Common())+" fails "+w.why+" ("+p.Pos(w.at)+")")
	}
	phis := map[ssa.Value]bool{e: true}
	for changed := true; changed; {
		changed = false
		for v := range phis {
			for _, r := range liveRefs(v) {
				if ph, ok := r.(*ssa.Phi); ok && !phis[ph] {
					phis[ph] = true
					changed = true
				}
			}
		}
	}
	// the path starts right after the call: every branch is then followed with e set
	w := &errWalk{k: k, f: f, call: call, e: e, n: errIndex(f.Signature), seen: map[string]bool{}}
	w.start(call)
	report(w)
}

// start walks from the call itself.
func (w *errWalk) start(call *ssa.Call) {
	b := call.Block()
	w.same, w.mem = map[ssa.Value]bool{}, map[*ssa.Alloc]ssa.Value{}
	for n, i := range b.Instrs {
		if i == call {
			w.scan(nil, b, b.Instrs[n+1:])
		}
	}
}

// readsText: the call gives the text up to a delimiter and an error when the delimiter is missing,
// itself or through a helper that does only that.
func readsText(name string, sc *ssa.Function) bool {
	if strings.HasSuffix(name, ").ReadString") || strings.HasSuffix(name, ").ReadBytes") {
		return true
	}
	if sc == nil || !Src(sc) || sc.Signature.Results().Len() != 2 {
		return false
	}
	if b, ok := sc.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return false
	}
	found := false
	for _, b := range sc.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok || errIndex(c.Call.Signature()) < 0 {
				continue
			}
			if c.Call.StaticCallee() == nil || !readsText(calleeName(&c.Call), nil) {
				return false
			}
			found = true
		}
	}
	return found
}

// tolerated: a failure that is meant to leave the operation going.
func (k *errCheck) tolerated(f *ssa.Function, call *ssa.Call, w *errWalk) string {
	cm := call.Common()
	name := calleeName(cm)
	sc := cm.StaticCallee()
	switch {
	case strings.HasPrefix(name, "strconv.") && usesParsed(call):
		return "the text is used as text when it is not a number"
	case readsText(name, sc):
		// the last field may lack its terminator; the data returned decides
		for _, r := range liveRefs(call) {
			if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
				for _, r2 := range liveRefs(x) {
					if bo, ok := r2.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
						return "the text read decides"
					}
				}
			}
		}
	case sc != nil && strings.HasPrefix(strings.ToLower(sc.Name()), "listmembers") && k.lostConn(f, call):
		return "a template that cannot be read leaves the tag without its layout; a lost connection is reported"
	case sc != nil && allConst(cm.Args):
		return "constant argument"
	}
	switch {
	case k.within(f, k.givesUp, 0):
		return "the connection is being given up; C02 and C03 decide that it ends closed"
	case k.within(f, dials, 0) && k.again(f, call):
		return "another way to open the connection is tried; C02 decides that only an open one counts"
	case k.partOf(f, "firmware", 0):
		return "an unknown firmware selects symbolic addressing"
	case k.partOf(f, "expandArrayTag", 0):
		return "a name that does not parse is kept as it is; reading it fails"
	}
	return ""
}

// within: the function is one of those, or a helper that only they call.
func (k *errCheck) within(f *ssa.Function, is func(*ssa.Function) bool, d int) bool {
	if is(f) {
		return true
	}
	cs := k.p.CallersOf(f)
	if d > 2 || len(cs) == 0 || token.IsExported(f.Name()) {
		return false
	}
	for _, ci := range cs {
		if !k.within(ci.Parent(), is, d+1) {
			return false
		}
	}
	return true
}

func dials(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && strings.HasPrefix(calleeName(c.Common()), "net.Dial") {
				return true
			}
		}
	}
	return false
}

// givesUp: the operation has no arguments and ends with the connection closed.
func (k *errCheck) givesUp(f *ssa.Function) bool {
	return len(f.Params) == 1 && f.Signature.Recv() != nil && typeName(deref(f.Signature.Recv().Type())) == "Client" && errIndex(f.Signature) == 0 && closesConn(f) && !dials(f) && !k.within(f, dials, 0)
}

// again: the same step is taken once more later on.
func (k *errCheck) again(f *ssa.Function, call *ssa.Call) bool {
	sc := call.Call.StaticCallee()
	if sc == nil || !k.p.InLib(sc) {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c2, ok := i.(*ssa.Call); ok && c2 != call && c2.Call.StaticCallee() == sc && reachesBlock(call.Block(), b) {
				return true
			}
		}
	}
	return false
}

// partOf: the function is the named one or a helper that only it calls.
func (k *errCheck) partOf(f *ssa.Function, name string, d int) bool {
	if f.Name() == name {
		return true
	}
	cs := k.p.CallersOf(f)
	if d > 2 || len(cs) == 0 || errIndex(f.Signature) >= 0 {
		return false
	}
	for _, ci := range cs {
		if !k.partOf(ci.Parent(), name, d+1) {
			return false
		}
	}
	return true
}

// lostConn: the function asks whether the connection is still there after the call.
func (k *errCheck) lostConn(f *ssa.Function, call *ssa.Call) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c2, ok := i.(*ssa.Call); ok && c2 != call {
				if sc := c2.Call.StaticCallee(); sc != nil && call.Block().Dominates(b) && k.asksConnected(sc, 0) {
					return true
				}
			}
		}
	}
	return false
}

// asksConnected: the function answers whether the client is connected.
func (k *errCheck) asksConnected(f *ssa.Function, d int) bool {
	r := f.Signature.Results()
	if r.Len() != 1 || !k.p.InLib(f) || d > 2 {
		return false
	}
	if b, ok := r.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	if f.Name() == "Connected" {
		return true
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if t, fl, ok := fieldOf(asVal(i)); ok && t == "Client" && strings.Contains(strings.ToLower(fl), "status") {
				return true
			}
			if c, ok := i.(*ssa.Call); ok {
				if sc := c.Call.StaticCallee(); sc != nil && k.asksConnected(sc, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func asVal(i ssa.Instruction) ssa.Value {
	v, _ := i.(ssa.Value)
	return v
}

func allConst(args []ssa.Value) bool {
	for _, a := range args {
		if _, ok := a.(*ssa.Const); !ok {
			return false
		}
	}
	return len(args) > 0
}
