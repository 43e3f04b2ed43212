package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The path-sensitive typestate simulator ("property simulation"): a forward dataflow over each
// function's CFG whose facts are (automaton state, nil/constant facts on live SSA values, local
// cells, pending defers). Calls into the library are replaced by summaries computed per calling
// context and closed under recursion by fixpoint. Nothing is executed and no path condition is
// handed to a solver: branch refinement is limited to nil-ness and equality with constants.

type kind uint8

const (
	kUnk kind = iota
	kNil
	kNonNil
	kInt  // constants, booleans as 0/1
	kFn   // known function or closure
	kSym  // a named symbol owned by the domain
	kCond // S Op N, a comparison of a symbol with a constant
)

const nilN = int64(-1) << 62

type AV struct {
	K   kind
	N   int64
	S   string
	Op  token.Token
	Fn  *ssa.Function
	Clo *ssa.MakeClosure
}

func (a AV) String() string {
	switch a.K {
	case kNil:
		return "nil"
	case kNonNil:
		return "nonnil"
	case kInt:
		return strconv.FormatInt(a.N, 10)
	case kFn:
		return fmt.Sprintf("fn:%s@%d", a.Fn.String(), a.Fn.Pos())
	case kSym:
		return "$" + a.S
	case kCond:
		return "?" + a.S + a.Op.String() + strconv.FormatInt(a.N, 10)
	}
	return "_"
}

var unk = AV{}

func avNil() AV         { return AV{K: kNil} }
func avNonNil() AV      { return AV{K: kNonNil} }
func avInt(n int64) AV  { return AV{K: kInt, N: n} }
func avSym(s string) AV { return AV{K: kSym, S: s} }
func avBool(b bool) AV {
	if b {
		return avInt(1)
	}
	return avInt(0)
}

// Auto is the automaton state: sorted "k=v;" pairs.
type Auto string

func (a Auto) Get(k string) string {
	for _, kv := range strings.Split(string(a), ";") {
		if i := strings.IndexByte(kv, '='); i >= 0 && kv[:i] == k {
			return kv[i+1:]
		}
	}
	return ""
}

func (a Auto) Set(k, v string) Auto {
	var parts []string
	for _, kv := range strings.Split(string(a), ";") {
		if kv == "" {
			continue
		}
		if i := strings.IndexByte(kv, '='); i >= 0 && kv[:i] == k {
			continue
		}
		parts = append(parts, kv)
	}
	if v != "" {
		parts = append(parts, k+"="+v)
	}
	sort.Strings(parts)
	return Auto(strings.Join(parts, ";"))
}

func (a Auto) Keys() []string {
	var out []string
	for _, kv := range strings.Split(string(a), ";") {
		if i := strings.IndexByte(kv, '='); i >= 0 {
			out = append(out, kv[:i])
		}
	}
	return out
}

type vkey struct {
	v   ssa.Value
	idx int // -1: the value itself, otherwise a tuple component
}

type deferRec struct {
	ins  *ssa.Defer
	args []AV
	fn   AV
}

type traceNode struct {
	prev *traceNode
	msg  string
	n    int
}

type State struct {
	Auto   Auto
	vals   map[vkey]AV
	cells  map[string]AV
	src    map[ssa.Value]string
	defers []deferRec
	trace  *traceNode
	first  *ssa.BasicBlock // loop header just entered from outside the loop
}

func (s *State) clone() *State {
	n := &State{Auto: s.Auto, vals: make(map[vkey]AV, len(s.vals)), cells: make(map[string]AV, len(s.cells)), src: make(map[ssa.Value]string, len(s.src)), trace: s.trace, first: s.first}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.src {
		n.src[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	return n
}

func (s *State) note(f string, a ...any) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &traceNode{prev: s.trace, msg: fmt.Sprintf(f, a...), n: n}
}

func (s *State) Trace() []string {
	var out []string
	for t := s.trace; t != nil; t = t.prev {
		out = append([]string{t.msg}, out...)
	}
	if len(out) > 22 {
		// keep every function entry and the last steps
		var k []string
		for i, m := range out {
			if i >= len(out)-14 || strings.Contains(m, ": enter ") {
				k = append(k, m)
			}
		}
		out = k
	}
	return out
}

// CallOut is one possible outcome of a call.
type CallOut struct {
	Auto  Auto
	Res   []AV
	cells map[string]AV // closure cells, keyed by free-variable path
	trace *traceNode
}

type Domain struct {
	Name string
	// OnCall may decide a call's outcomes itself.
	OnCall func(c *CallCtx) ([]CallOut, bool)
	// AfterCall may adjust the outcomes of calls handled by summaries (nil: keep).
	AfterCall func(c *CallCtx, outs []CallOut) []CallOut
	// OnInstr sees every non-call instruction before it is interpreted; a returned AV overrides the result.
	OnInstr func(c *InstrCtx) (AV, bool)
	// OnBranch refines the automaton when a symbolic comparison is decided.
	OnBranch func(a Auto, s string, op token.Token, n int64) (Auto, bool)
	// AllocSym names what an allocation yields.
	AllocSym func(x *ssa.Alloc) (AV, bool)
	// OnReturn sees every return of every function.
	OnReturn func(r *RetCtx)
	// TrackField makes T.field an automaton-level cell (object-insensitive).
	TrackField func(typ, field string) bool
	// Inline decides whether a library callee is analysed (default true).
	Inline func(f *ssa.Function) bool
	// LoadSym supplies a symbol for field loads (by address or value instruction).
	LoadSym func(typ, field string, ins ssa.Instruction) (AV, bool)
	// MustEnter says a counting loop with this header body runs at least once (its range is never empty).
	MustEnter func(f *ssa.Function, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool
	// Enter may change the automaton on entry of an inlined callee.
	Enter func(f *ssa.Function, a Auto) Auto
}

type Sim struct {
	P        *Prog
	D        *Domain
	memo     map[string]*summary
	iter     int
	changed  bool
	Rep      func(key string, pos token.Pos, msg string, tr []string)
	Steps    int
	Funcs    map[*ssa.Function]bool
	Sites    map[string]bool
	depth    int
	overflow []string
}

type summary struct {
	outs  map[string]CallOut
	iter  int
	busy  bool
	final bool
}

func NewSim(p *Prog, d *Domain, rep func(key string, pos token.Pos, msg string, tr []string)) *Sim {
	return &Sim{P: p, D: d, memo: map[string]*summary{}, Rep: rep, Funcs: map[*ssa.Function]bool{}, Sites: map[string]bool{}}
}

type CallCtx struct {
	S        *Sim
	Fn       *ssa.Function // the caller
	Instr    ssa.CallInstruction
	St       *State
	Name     string // calleeName
	Callee   *ssa.Function
	Args     []AV
	FnAV     AV
	Deferred bool
}

func (c *CallCtx) Common() *ssa.CallCommon { return c.Instr.Common() }
func (c *CallCtx) Pos() token.Pos          { return c.Instr.Pos() }
func (c *CallCtx) Site() string            { return FnName(c.Fn) + " → " + shortCallee(c.Common()) }

func shortCallee(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if pk := pkgOf(f); pk != nil && pk.Pkg.Path() == modPath {
			return FnName(f)
		}
		return fullName(f)
	}
	return calleeName(c)
}

type InstrCtx struct {
	S  *Sim
	Fn *ssa.Function
	I  ssa.Instruction
	St *State
}

type RetCtx struct {
	S     *Sim
	Fn    *ssa.Function
	Entry Auto
	St    *State
	Ret   *ssa.Return
	Res   []AV
}

// Run analyses root from the given automaton state and returns its outcomes.
func (s *Sim) Run(root *ssa.Function, init Auto, args ...AV) []CallOut {
	var outs []CallOut
	for n := 0; n < 20; n++ {
		s.iter++
		s.changed = false
		full := make([]AV, len(root.Params))
		copy(full, args)
		outs = s.summarise(root, init, full, nil, nil)
		if !s.changed {
			for _, m := range s.memo {
				if m.iter == s.iter {
					m.final = true
				}
			}
			return outs
		}
	}
	s.overflow = append(s.overflow, FnName(root)+" (no fixpoint)")
	return outs
}

func (s *Sim) summarise(f *ssa.Function, auto Auto, args []AV, fvcells map[string]AV, tr *traceNode) []CallOut {
	var kb strings.Builder
	fmt.Fprintf(&kb, "%p|%s|", f, auto)
	for _, a := range args {
		kb.WriteString(a.String())
		kb.WriteByte(',')
	}
	var ck []string
	for k, v := range fvcells {
		ck = append(ck, k+"="+v.String())
	}
	sort.Strings(ck)
	kb.WriteString(strings.Join(ck, ","))
	key := kb.String()
	m := s.memo[key]
	if m == nil {
		m = &summary{outs: map[string]CallOut{}}
		s.memo[key] = m
	}
	if !(m.busy || m.final || m.iter == s.iter) {
		m.busy = true
		m.iter = s.iter
		s.Funcs[f] = true
		st := &State{Auto: auto, vals: map[vkey]AV{}, cells: map[string]AV{}, src: map[ssa.Value]string{}, trace: tr}
		for i, p := range f.Params {
			if i < len(args) && args[i].K != kUnk {
				st.vals[vkey{p, -1}] = args[i]
			}
		}
		for k, v := range fvcells {
			st.cells[k] = v
		}
		ex := &exec{s: s, f: f, entry: auto, visited: map[string]*slot{}, live: s.P.Live(f), sum: m}
		s.depth++
		ex.block(f.Blocks[0], nil, st)
		s.depth--
		m.busy = false
	}
	outs := make([]CallOut, 0, len(m.outs))
	var ks []string
	for k := range m.outs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		outs = append(outs, m.outs[k])
	}
	return outs
}

type exec struct {
	s        *Sim
	f        *ssa.Function
	entry    Auto
	visited  map[string]*slot
	admitted int
	live     map[*ssa.BasicBlock]map[ssa.Value]bool
	sum      *summary
}

func (e *exec) report(key string, pos token.Pos, msg string, st *State) {
	e.s.Rep(key, pos, msg, st.Trace())
}

func (e *exec) block(b *ssa.BasicBlock, pred *ssa.BasicBlock, st *State) {
	if pred != nil {
		pi := -1
		for k, q := range b.Preds {
			if q == pred {
				pi = k
			}
		}
		type upd struct {
			phi *ssa.Phi
			av  AV
			src string
		}
		var us []upd
		for _, i := range b.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if pi >= 0 {
				us = append(us, upd{phi, e.av(st, phi.Edges[pi]), st.src[phi.Edges[pi]]})
			}
		}
		for _, u := range us {
			delete(st.src, u.phi)
			if u.av.K != kUnk {
				st.vals[vkey{u.phi, -1}] = u.av
			} else {
				delete(st.vals, vkey{u.phi, -1})
			}
		}
	}
	st.first = nil
	if pred != nil && e.s.D.MustEnter != nil && isLoopHeader(b) && !b.Dominates(pred) {
		st.first = b
	}
	// prune dead facts
	lv := e.live[b]
	phis := map[ssa.Value]bool{}
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis[p] = true
		} else {
			break
		}
	}
	for k := range st.vals {
		if !lv[k.v] && !phis[k.v] {
			delete(st.vals, k)
		}
	}
	for k := range st.src {
		if !lv[k] && !phis[k] {
			delete(st.src, k)
		}
	}
	if st = e.admit(b, 0, st); st == nil {
		return
	}
	e.instrs(b, 0, st)
}

// slot is what has been seen at one program point with one automaton state.
type slot struct {
	seen   []*State
	joined *State
}

// admit decides whether a state at a point must be explored. Up to a few states with the same
// automaton state are kept apart; after that their value facts are joined, which bounds the work.
func (e *exec) admit(b *ssa.BasicBlock, i int, st *State) *State {
	k := fmt.Sprintf("%d/%d/%s|%s", b.Index, i, st.Auto, st.shape())
	sl := e.visited[k]
	if sl == nil {
		sl = &slot{}
		e.visited[k] = sl
	}
	for _, o := range sl.seen {
		if subsumes(o, st) {
			return nil
		}
	}
	if sl.joined != nil && subsumes(sl.joined, st) {
		return nil
	}
	e.admitted++
	limit := 6
	if e.admitted > 2000 {
		limit = 2
	}
	if e.admitted > 60000 {
		if len(e.s.overflow) < 5 {
			e.s.overflow = append(e.s.overflow, FnName(e.f))
		}
		return nil
	}
	if len(sl.seen) < limit {
		sl.seen = append(sl.seen, st.clone())
		return st
	}
	if sl.joined == nil {
		sl.joined = st.clone()
		return st
	}
	j := joinStates(sl.joined, st)
	sl.joined = j
	return j.clone()
}

func (s *State) shape() string {
	f := ""
	for _, d := range s.defers {
		f += fmt.Sprintf("d%d:%s", d.ins.Pos(), d.fn)
		for _, a := range d.args {
			f += "," + a.String()
		}
	}
	if s.first != nil {
		f += fmt.Sprintf("|first%d", s.first.Index)
	}
	return f
}

func sameAV(a, b AV) bool {
	return a.K == b.K && a.N == b.N && a.S == b.S && a.Op == b.Op && a.Fn == b.Fn
}

func covers(cells map[string]AV, key string) bool {
	for i := len(key) - 1; i > 0; i-- {
		if key[i] == '.' || key[i] == '[' {
			if _, ok := cells[key[:i]+"!z"]; ok {
				return true
			}
		}
	}
	return false
}

// subsumes: everything a claims, b claims too, so exploring a covers b.
func subsumes(a, b *State) bool {
	for k, v := range a.vals {
		if v.K == kUnk {
			continue
		}
		if w, ok := b.vals[k]; !ok || !sameAV(v, w) {
			return false
		}
	}
	for k, v := range a.src {
		if b.src[k] != v {
			return false
		}
	}
	for k, v := range a.cells {
		w, ok := b.cells[k]
		if strings.HasSuffix(k, "!z") {
			if !ok {
				return false
			}
			continue
		}
		if v.K == kUnk {
			continue
		}
		if !ok || !sameAV(v, w) {
			return false
		}
	}
	for k := range b.cells {
		if _, ok := a.cells[k]; !ok && covers(a.cells, k) {
			return false
		}
	}
	return true
}

func joinStates(a, b *State) *State {
	n := &State{Auto: a.Auto, vals: map[vkey]AV{}, cells: map[string]AV{}, src: map[ssa.Value]string{}, trace: a.trace, first: a.first, defers: append([]deferRec(nil), a.defers...)}
	for k, v := range a.vals {
		if w, ok := b.vals[k]; ok && sameAV(v, w) {
			n.vals[k] = v
		}
	}
	for k, v := range a.src {
		if b.src[k] == v {
			n.src[k] = v
		}
	}
	for k, v := range a.cells {
		w, ok := b.cells[k]
		if strings.HasSuffix(k, "!z") {
			if ok {
				n.cells[k] = v
			}
			continue
		}
		if ok && sameAV(v, w) {
			n.cells[k] = v
		} else {
			n.cells[k] = unk
		}
	}
	for k := range b.cells {
		if _, ok := a.cells[k]; !ok && !strings.HasSuffix(k, "!z") {
			n.cells[k] = unk
		}
	}
	return n
}

func zeroAV(t types.Type) (AV, bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return avNil(), true
	case *types.Basic:
		if u.Info()&(types.IsBoolean|types.IsInteger) != 0 {
			return avInt(0), true
		}
	}
	return unk, false
}

// copied names the cell a structure is copied from by a store, when nothing happens between its load and the store.
func (e *exec) copied(s *ssa.Store) string {
	u, ok := s.Val.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Block() != s.Block() {
		return ""
	}
	seen := false
	for _, i := range s.Block().Instrs {
		if i == ssa.Instruction(u) {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if i == ssa.Instruction(s) {
			break
		}
		switch y := i.(type) {
		case *ssa.Store:
			k, from := e.addrKey(y.Addr), e.addrKey(u.X)
			if k == "" || strings.HasPrefix(k, from) || strings.HasPrefix(from, k) {
				return ""
			}
		case *ssa.Alloc, *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType:
		default:
			return ""
		}
	}
	return e.addrKey(u.X)
}

// addrKey names the cell an address designates ("" when untracked).
func (e *exec) addrKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x.Name()
	case *ssa.FreeVar:
		for i, fv := range e.f.FreeVars {
			if fv == x {
				return fmt.Sprintf("fv#%d", i)
			}
		}
	case *ssa.FieldAddr:
		if b := e.addrKey(x.X); b != "" && !strings.HasPrefix(b, "fv#") {
			return fmt.Sprintf("%s.f%d", b, x.Field)
		} else if b != "" {
			// free variable holding a struct cell
			if _, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok {
				return fmt.Sprintf("%s.f%d", b, x.Field)
			}
		}
		if e.s.D.TrackField != nil {
			if t, f, ok := fieldOf(x); ok && e.s.D.TrackField(t, f) {
				return "@" + t + "." + f
			}
		}
	case *ssa.IndexAddr:
		if c, ok := x.Index.(*ssa.Const); ok {
			base := x.X
			if sl, ok := base.(*ssa.Slice); ok && sl.Low == nil {
				base = sl.X
			}
			if b := e.addrKey(base); b != "" {
				return fmt.Sprintf("%s[%d]", b, c.Int64())
			}
		}
	case *ssa.Global:
		if e.s.D.TrackField != nil && e.s.D.TrackField("", x.Name()) {
			return "@." + x.Name()
		}
	}
	return ""
}

func (e *exec) readCell(st *State, key string, t types.Type) AV {
	if strings.HasPrefix(key, "@") {
		v := st.Auto.Get(key)
		return parseAV(v)
	}
	if v, ok := st.cells[key]; ok {
		return v
	}
	// zero-initialised aggregate
	for i := len(key) - 1; i > 0; i-- {
		if key[i] == '.' || key[i] == '[' {
			if _, ok := st.cells[key[:i]]; ok {
				return unk
			}
			if _, ok := st.cells[key[:i]+"!z"]; ok {
				if z, ok := zeroAV(t); ok {
					return z
				}
				return unk
			}
		}
	}
	return unk
}

func parseAV(v string) AV {
	switch {
	case v == "":
		return unk
	case v == "nil":
		return avNil()
	case v == "nonnil":
		return avNonNil()
	case strings.HasPrefix(v, "$"):
		return avSym(v[1:])
	}
	if n, err := strconv.ParseInt(v, 10, 64); err == nil {
		return avInt(n)
	}
	return unk
}

func (e *exec) killCell(st *State, key string) {
	for k := range st.cells {
		if k == key || strings.HasPrefix(k, key+".") || strings.HasPrefix(k, key+"[") || k == key+"!z" {
			delete(st.cells, k)
		}
	}
	// a partial store keeps the enclosing zero marker: other fields stay zero
	for v, k := range st.src {
		if k == key || strings.HasPrefix(k, key+".") || strings.HasPrefix(k, key+"[") {
			delete(st.src, v)
		}
	}
}

func (e *exec) writeCell(st *State, key string, a AV) {
	e.killCell(st, key)
	if strings.HasPrefix(key, "@") {
		switch a.K {
		case kNil, kNonNil, kInt, kSym:
			st.Auto = st.Auto.Set(key, a.String())
		default:
			st.Auto = st.Auto.Set(key, "?")
		}
		return
	}
	if a.K == kCond {
		st.cells[key] = a
		return
	}
	st.cells[key] = a // unknown is recorded too, so a zero marker does not resurface
}

func (e *exec) av(st *State, v ssa.Value) AV {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return avNil()
		}
		if x.Value != nil {
			switch x.Value.Kind() {
			case constant.Bool:
				return avBool(constant.BoolVal(x.Value))
			case constant.Int:
				if n, ok := constant.Int64Val(x.Value); ok {
					return avInt(n)
				}
				if n, ok := constant.Uint64Val(x.Value); ok {
					return avInt(int64(n))
				}
			}
		}
		return unk
	case *ssa.Function:
		return AV{K: kFn, Fn: x}
	case *ssa.MakeClosure:
		return AV{K: kFn, Fn: x.Fn.(*ssa.Function), Clo: x}
	case *ssa.Global:
		return avNonNil()
	case *ssa.Alloc:
		if e.s.D.AllocSym != nil {
			if a, ok := e.s.D.AllocSym(x); ok {
				return a
			}
		}
		return avNonNil()
	}
	return st.vals[vkey{v, -1}]
}

func (e *exec) set(st *State, v ssa.Value, a AV) {
	if a.K == kUnk {
		delete(st.vals, vkey{v, -1})
	} else {
		st.vals[vkey{v, -1}] = a
	}
}

func (e *exec) instrs(b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		e.s.Steps++
		ins := b.Instrs[i]
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Call:
			outs := e.call(st, x, x.Common(), e.argAVs(st, x.Common()), e.fnAV(st, x.Common()), false)
			for oi, o := range outs {
				n := st
				if oi < len(outs)-1 {
					n = st.clone()
				}
				e.applyOut(n, x, o)
				if len(outs) > 1 {
					if n = e.admit(b, i+1, n); n == nil {
						continue
					}
					e.instrs(b, i+1, n)
				}
			}
			if len(outs) != 1 {
				return
			}
			continue
		case *ssa.Defer:
			dup := 0
			for _, d := range st.defers {
				if d.ins == x {
					dup++
				}
			}
			if dup < 2 {
				st.defers = append(st.defers, deferRec{x, e.argAVs(st, x.Common()), e.fnAV(st, x.Common())})
			}
			continue
		case *ssa.RunDefers:
			if len(st.defers) == 0 {
				continue
			}
			d := st.defers[len(st.defers)-1]
			st.defers = st.defers[:len(st.defers)-1]
			outs := e.call(st, d.ins, d.ins.Common(), d.args, d.fn, true)
			for oi, o := range outs {
				n := st
				if oi < len(outs)-1 {
					n = st.clone()
				}
				e.applyOut(n, nil, o)
				if d.fn.Clo != nil {
					e.closureBack(n, d.fn.Clo, o)
				}
				if n = e.admit(b, i, n); n == nil {
					continue
				}
				e.instrs(b, i, n)
			}
			return
		case *ssa.Go:
			if e.s.D.OnInstr != nil {
				e.s.D.OnInstr(&InstrCtx{e.s, e.f, ins, st})
			}
			continue
		case *ssa.Return:
			res := make([]AV, len(x.Results))
			for k, r := range x.Results {
				res[k] = e.av(st, r)
				if res[k].K == kFn && res[k].Clo != nil {
					res[k] = AV{K: kFn, Fn: res[k].Fn}
				}
			}
			if e.s.D.OnReturn != nil {
				e.s.D.OnReturn(&RetCtx{e.s, e.f, e.entry, st, x, res})
			}
			out := CallOut{Auto: st.Auto, Res: res, trace: st.trace}
			var kb strings.Builder
			kb.WriteString(string(st.Auto) + "|")
			for k, r := range res {
				// outcomes differing only in whether some non-error pointer is known are one outcome
				if t := x.Results[k].Type(); r.K == kUnk || r.K == kNil || r.K == kNonNil {
					_, isI := t.Underlying().(*types.Interface)
					if !isErrorType(t) && (!isI || len(res) > 1) && !isBool(t) && len(res) > 1 {
						kb.WriteString("*,")
						continue
					}
				}
				kb.WriteString(r.String() + ",")
			}
			var cs []string
			for k, v := range st.cells {
				if strings.HasPrefix(k, "fv#") {
					if out.cells == nil {
						out.cells = map[string]AV{}
					}
					out.cells[k] = v
					cs = append(cs, k+"="+v.String())
				}
			}
			sort.Strings(cs)
			kb.WriteString(strings.Join(cs, ","))
			if old, ok := e.sum.outs[kb.String()]; !ok {
				e.sum.outs[kb.String()] = out
				e.s.changed = true
			} else {
				for k := range res {
					if !sameAV(old.Res[k], res[k]) && old.Res[k].K != kUnk {
						nr := append([]AV(nil), old.Res...)
						nr[k] = unk
						old.Res = nr
						e.sum.outs[kb.String()] = old
						e.s.changed = true
					}
				}
			}
			return
		case *ssa.Panic:
			return
		case *ssa.Jump:
			e.block(b.Succs[0], b, st)
			return
		case *ssa.If:
			e.branch(b, x, st)
			return
		default:
			e.plain(st, ins)
		}
	}
}

func (e *exec) branch(b *ssa.BasicBlock, x *ssa.If, st *State) {
	c := e.av(st, x.Cond)
	if c.K == kInt {
		if c.N != 0 {
			e.block(b.Succs[0], b, st)
		} else {
			e.block(b.Succs[1], b, st)
		}
		return
	}
	var body map[*ssa.BasicBlock]bool
	if st.first == b && countingTest(x.Cond) {
		if bd := loopBody(b); e.s.D.MustEnter(e.f, b, bd) {
			body = bd
		}
	}
	for side := 0; side < 2; side++ {
		if body != nil && !body[b.Succs[side]] {
			continue
		}
		n := st.clone()
		truth := side == 0
		if c.K == kCond {
			op := c.Op
			if !truth {
				op = negate(op)
			}
			if e.s.D.OnBranch != nil {
				a, ok := e.s.D.OnBranch(n.Auto, c.S, op, c.N)
				if !ok {
					continue
				}
				n.Auto = a
			}
		}
		if !e.refine(n, x.Cond, truth) {
			continue
		}
		pos := x.Cond.Pos()
		if pos.IsValid() {
			n.note("%s: %s is %v", e.s.P.Pos(pos), condText(x.Cond), truth)
		}
		e.block(b.Succs[side], b, n)
	}
}

func condText(v ssa.Value) string {
	if b, ok := v.(*ssa.BinOp); ok {
		return fmt.Sprintf("%s %s %s", valText(b.X), b.Op, valText(b.Y))
	}
	return valText(v)
}

func valText(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "nil"
		}
		return x.Value.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if _, f, ok := fieldOf(x.X); ok {
				return f
			}
			if a, ok := x.X.(*ssa.Alloc); ok && a.Comment != "" {
				return a.Comment
			}
		}
	case *ssa.Extract:
		return valText(x.Tuple)
	case *ssa.Call:
		return shortCallee(x.Common()) + "()"
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	}
	return v.Name()
}

func negate(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// refine records what a decided condition says; false means the edge is infeasible.
func (e *exec) refine(st *State, cond ssa.Value, truth bool) bool {
	e.refineVal(st, cond, avBool(truth))
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.refine(st, x.X, !truth)
		}
	case *ssa.BinOp:
		op := x.Op
		if !truth {
			op = negate(op)
		}
		l, r := x.X, x.Y
		if _, ok := l.(*ssa.Const); ok {
			l, r = r, l
		}
		la, ra := e.av(st, l), e.av(st, r)
		switch op {
		case token.EQL:
			if la.K == kUnk && (ra.K == kNil || ra.K == kInt) {
				e.refineVal(st, l, ra)
			} else if la.K == kNonNil && ra.K == kNil {
				return false
			}
		case token.NEQ:
			if la.K == kUnk && (ra.K == kNil || ra.K == kInt && ra.N == 0 && !isBool(l.Type())) {
				e.refineVal(st, l, avNonNil()) // for integers: not zero
			} else if la.K == kNil && ra.K == kNil {
				return false
			} else if la.K == kUnk && ra.K == kInt && isBool(l.Type()) {
				e.refineVal(st, l, avInt(1-ra.N))
			}
		}
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "errors.Is", "errors.As":
			if truth {
				e.refineVal(st, x.Call.Args[0], avNonNil())
			}
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && truth {
			if e.av(st, ta.X).K == kUnk {
				e.refineVal(st, ta.X, avNonNil())
			}
		}
	}
	return true
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *exec) refineVal(st *State, v ssa.Value, a AV) {
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if cur := e.av(st, v); cur.K != kUnk && cur.K != kCond {
		return
	}
	e.set(st, v, a)
	if k, ok := st.src[v]; ok {
		if strings.HasPrefix(k, "@") {
			st.Auto = st.Auto.Set(k, a.String())
		} else {
			st.cells[k] = a
		}
		for w, k2 := range st.src {
			if k2 == k && w != v {
				if e.av(st, w).K == kUnk {
					e.set(st, w, a)
				}
			}
		}
	}
	// a nil-preserving view refines what it views
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		e.refineVal(st, x.X, a)
	case *ssa.ChangeType:
		e.refineVal(st, x.X, a)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			st.vals[vkey{c, x.Index}] = a
		}
	}
}

func (e *exec) plain(st *State, ins ssa.Instruction) {
	if e.s.D.OnInstr != nil {
		if a, ok := e.s.D.OnInstr(&InstrCtx{e.s, e.f, ins, st}); ok {
			if v, isV := ins.(ssa.Value); isV {
				delete(st.src, v)
				e.set(st, v, a)
				return
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.Store:
		if k := e.addrKey(x.Addr); k != "" {
			a := e.av(st, x.Val)
			if _, isStruct := x.Val.Type().Underlying().(*types.Struct); isStruct {
				e.killCell(st, k)
				if c, ok := x.Val.(*ssa.Const); ok && c.Value == nil {
					st.cells[k+"!z"] = unk
				} else if from := e.copied(x); from != "" && from != k {
					n := len(st.cells)
					for c, a := range st.cells {
						if rest, ok := strings.CutPrefix(c, from); ok && (strings.HasPrefix(rest, ".") || strings.HasPrefix(rest, "[") || rest == "!z" || rest == "") {
							st.cells[k+rest] = a
						}
					}
					if len(st.cells) == n {
						st.cells[k] = unk
					}
				} else {
					st.cells[k] = unk
				}
			} else {
				e.writeCell(st, k, a)
			}
		}
	case *ssa.Alloc:
		e.killCell(st, x.Name())
		if z, ok := zeroAV(deref(x.Type())); ok {
			st.cells[x.Name()] = z
		} else {
			st.cells[x.Name()+"!z"] = unk
		}
		delete(st.src, x)
	case *ssa.UnOp:
		delete(st.src, x)
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) {
				_ = g
				e.set(st, x, avNonNil())
				return
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && e.s.D.LoadSym != nil {
				if t, f, ok := fieldOf(fa); ok {
					if a, ok := e.s.D.LoadSym(t, f, x); ok {
						e.set(st, x, a)
						return
					}
				}
			}
			if k := e.addrKey(x.X); k != "" {
				e.set(st, x, e.readCell(st, k, x.Type()))
				st.src[x] = k
				return
			}
			e.set(st, x, unk)
		case token.NOT:
			a := e.av(st, x.X)
			switch a.K {
			case kInt:
				e.set(st, x, avInt(1-a.N))
			case kCond:
				a.Op = negate(a.Op)
				e.set(st, x, a)
			default:
				e.set(st, x, unk)
			}
		default:
			e.set(st, x, unk)
		}
	case *ssa.BinOp:
		e.set(st, x, e.binop(st, x))
	case *ssa.Field:
		if e.s.D.LoadSym != nil {
			if t, f, ok := fieldOf(x); ok {
				if a, ok := e.s.D.LoadSym(t, f, x); ok {
					e.set(st, x, a)
					return
				}
			}
		}
		e.set(st, x, unk)
	case *ssa.ChangeType:
		e.set(st, x, e.av(st, x.X))
	case *ssa.Convert:
		a := e.av(st, x.X)
		if a.K == kSym || (a.K == kInt) {
			e.set(st, x, a)
		} else {
			e.set(st, x, unk)
		}
	case *ssa.ChangeInterface:
		e.set(st, x, e.av(st, x.X))
	case *ssa.MakeInterface:
		if a := e.av(st, x.X); a.K == kSym || a.K == kFn {
			e.set(st, x, a)
		} else {
			e.set(st, x, avNonNil())
		}
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr:
		v := ins.(ssa.Value)
		e.set(st, v, avNonNil())
	case *ssa.Extract:
		if a, ok := st.vals[vkey{x.Tuple, x.Index}]; ok {
			e.set(st, x, a)
		} else {
			e.set(st, x, unk)
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			if a := e.av(st, x.X); a.K == kSym {
				e.set(st, x, a)
				return
			}
		}
		e.set(st, x, unk)
	default:
		if v, ok := ins.(ssa.Value); ok {
			e.set(st, v, unk)
			delete(st.src, v)
		}
	}
}

func (e *exec) binop(st *State, x *ssa.BinOp) AV {
	l, r := e.av(st, x.X), e.av(st, x.Y)
	op := x.Op
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return unk
	}
	if r.K == kSym && l.K != kSym {
		l, r = r, l
		op = swapOp(op)
	}
	if l.K == kSym {
		switch r.K {
		case kInt:
			return AV{K: kCond, S: l.S, Op: op, N: r.N}
		case kNil:
			return AV{K: kCond, S: l.S, Op: op, N: nilN}
		}
		return unk
	}
	if l.K == kInt && r.K == kInt {
		switch op {
		case token.EQL:
			return avBool(l.N == r.N)
		case token.NEQ:
			return avBool(l.N != r.N)
		case token.LSS:
			return avBool(l.N < r.N)
		case token.LEQ:
			return avBool(l.N <= r.N)
		case token.GTR:
			return avBool(l.N > r.N)
		case token.GEQ:
			return avBool(l.N >= r.N)
		}
	}
	if (l.K == kNonNil && r.K == kInt && r.N == 0) || (r.K == kNonNil && l.K == kInt && l.N == 0) {
		switch op {
		case token.EQL:
			return avBool(false)
		case token.NEQ:
			return avBool(true)
		}
	}
	if r.K == kNil || l.K == kNil {
		o := l
		if l.K == kNil {
			o = r
		}
		eq := 0
		switch o.K {
		case kNil:
			eq = 1
		case kNonNil, kFn:
			eq = -1
		}
		if eq != 0 && (op == token.EQL || op == token.NEQ) {
			return avBool((eq == 1) == (op == token.EQL))
		}
	}
	return unk
}

func (e *exec) argAVs(st *State, c *ssa.CallCommon) []AV {
	var out []AV
	if c.IsInvoke() {
		out = append(out, e.av(st, c.Value))
	}
	for _, a := range c.Args {
		out = append(out, e.av(st, a))
	}
	return out
}

func (e *exec) fnAV(st *State, c *ssa.CallCommon) AV {
	if c.IsInvoke() {
		return unk
	}
	return e.av(st, c.Value)
}

func (e *exec) applyOut(st *State, v ssa.Value, o CallOut) {
	st.Auto = o.Auto
	if o.trace != nil {
		st.trace = o.trace
	}
	if v == nil {
		return
	}
	delete(st.src, v)
	for k := range st.vals {
		if k.v == v {
			delete(st.vals, k)
		}
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		for i, r := range o.Res {
			if r.K != kUnk {
				st.vals[vkey{v, i}] = r
			}
		}
	} else if len(o.Res) == 1 {
		e.set(st, v, o.Res[0])
	}
	if c, ok := v.(*ssa.Call); ok {
		if f := e.av(st, c.Call.Value); f.K == kFn && f.Clo != nil && !c.Call.IsInvoke() {
			e.closureBack(st, f.Clo, o)
		}
	}
}

// closureBack copies captured cells back from a closure's outcome.
func (e *exec) closureBack(st *State, clo *ssa.MakeClosure, o CallOut) {
	for i, b := range clo.Bindings {
		base := e.addrKey(b)
		if base == "" || strings.HasPrefix(base, "@") {
			continue
		}
		pre := fmt.Sprintf("fv#%d", i)
		for k, v := range o.cells {
			if k == pre || strings.HasPrefix(k, pre+".") || strings.HasPrefix(k, pre+"[") {
				nk := base + k[len(pre):]
				if !strings.HasSuffix(nk, "!z") && o.Auto != "" || true {
					e.killCell(st, nk)
					st.cells[nk] = v
				}
			}
		}
	}
}

// escape forgets cells of allocs whose address is handed to a call.
func (e *exec) escape(st *State, c *ssa.CallCommon) {
	var visit func(v ssa.Value, d int)
	visit = func(v ssa.Value, d int) {
		if d > 6 {
			return
		}
		switch x := v.(type) {
		case *ssa.Alloc:
			// a slice of alloc used for variadic arguments: values inside may be pointers to cells
			if _, ok := deref(x.Type()).Underlying().(*types.Array); ok && x.Referrers() != nil {
				for _, r := range *x.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
						for _, rr := range *ia.Referrers() {
							if s, ok := rr.(*ssa.Store); ok && s.Addr == ia {
								visit(s.Val, d+1)
							}
						}
					}
				}
			}
			k := x.Name()
			e.killCell(st, k)
			st.cells[k] = unk
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if k := e.addrKey(v); k != "" && !strings.HasPrefix(k, "@") {
				e.killCell(st, k)
				st.cells[k] = unk
			}
		case *ssa.FreeVar:
			if k := e.addrKey(v); k != "" {
				e.killCell(st, k)
				st.cells[k] = unk
			}
		case *ssa.MakeInterface:
			visit(x.X, d+1)
		case *ssa.ChangeInterface:
			visit(x.X, d+1)
		case *ssa.ChangeType:
			visit(x.X, d+1)
		case *ssa.Slice:
			visit(x.X, d+1)
		case *ssa.MakeClosure:
			for _, b := range x.Bindings {
				visit(b, d+1)
			}
		}
	}
	for _, a := range c.Args {
		visit(a, 0)
	}
	if c.IsInvoke() {
		visit(c.Value, 0)
	}
}

func tupleLen(c *ssa.CallCommon) int { return c.Signature().Results().Len() }

func (e *exec) call(st *State, ci ssa.CallInstruction, c *ssa.CallCommon, args []AV, fn AV, deferred bool) []CallOut {
	cc := &CallCtx{S: e.s, Fn: e.f, Instr: ci, St: st, Name: calleeName(c), Args: args, FnAV: fn, Deferred: deferred}
	if fn.K == kFn {
		cc.Callee = fn.Fn
		cc.Name = fullName(fn.Fn)
	}
	var fv map[string]AV
	if fn.K == kFn && fn.Clo != nil && fn.Clo.Parent() == e.f {
		fv = map[string]AV{}
		for i, b := range fn.Clo.Bindings {
			base := e.addrKey(b)
			if base == "" || strings.HasPrefix(base, "@") {
				continue
			}
			pre := fmt.Sprintf("fv#%d", i)
			for k, v := range st.cells {
				if k == base || strings.HasPrefix(k, base+".") || strings.HasPrefix(k, base+"[") || k == base+"!z" {
					fv[pre+k[len(base):]] = v
				}
			}
		}
	}
	e.escape(st, c)
	if e.s.D.OnCall != nil {
		if outs, ok := e.s.D.OnCall(cc); ok {
			return outs
		}
	}
	f := cc.Callee
	if f != nil && len(f.Blocks) > 0 && e.s.P.InLib(f) && e.s.depth < 80 && (e.s.D.Inline == nil || e.s.D.Inline(f)) {
		a := st.Auto
		if e.s.D.Enter != nil {
			a = e.s.D.Enter(f, a)
		}
		tr := st.trace
		{
			tmp := &State{trace: tr}
			tmp.note("%s: enter %s", e.s.P.Pos(ci.Pos()), FnName(f))
			tr = tmp.trace
		}
		outs := e.s.summarise(f, a, args, fv, tr)
		if e.s.D.AfterCall != nil {
			outs = e.s.D.AfterCall(cc, outs)
		}
		return outs
	}
	outs := []CallOut{{Auto: st.Auto, Res: e.externRes(cc)}}
	// a library closure handed to a function outside the library may be run by it
	for i, a := range args {
		if a.K == kFn && a.Fn != nil && len(a.Fn.Blocks) > 0 && e.s.P.InLib(a.Fn) && e.s.depth < 80 {
			_ = i
			for _, o := range e.s.summarise(a.Fn, st.Auto, make([]AV, len(a.Fn.Params)), nil, st.trace) {
				if o.Auto != st.Auto {
					outs = append(outs, CallOut{Auto: o.Auto, Res: e.externRes(cc), trace: o.trace})
				}
			}
		}
	}
	return outs
}

// externRes knows a few results of library functions outside the module.
func (e *exec) externRes(cc *CallCtx) []AV {
	n := tupleLen(cc.Common())
	res := make([]AV, n)
	switch cc.Name {
	case "fmt.Errorf", "errors.New":
		res[0] = avNonNil()
	}
	return res
}

// ErrAV gives the error component (last error-typed result) of an outcome for function f.
func ErrAV(sig *types.Signature, res []AV) (AV, bool) {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) && i < len(res) {
			return res[i], true
		}
	}
	return unk, false
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// loopBody is the natural loop of header h.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !body[p] {
			body[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !body[p] {
				body[p] = true
				work = append(work, p)
			}
		}
	}
	return body
}

// countingTest: a comparison against a length, the test of a loop over a sequence.
func countingTest(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					return true
				}
				// the number of bytes of a buffer
				if f := x.Call.StaticCallee(); f != nil && f.Name() == "Len" {
					return true
				}
			}
			return false
		}
	}
	return isLen(b.X) || isLen(b.Y)
}
