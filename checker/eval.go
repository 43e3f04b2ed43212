package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An abstract interpreter for small encoding, decoding and table functions. Values are constants, opaque
// inputs with an interval, expressions over them, values in an interface whose dynamic type is known, and
// memory made of such values. Branches on something unknown are followed both ways with what each side
// implies kept as an interval or a fact; calls into the library are entered; input and output of bytes is
// recorded as a list of events. Nothing of the library is run: unknown calls yield unknown values, and a
// function that does not settle within the step limit is reported as undecided.

type Val interface{ key() string }

type kVal struct { // constant; v nil: nil of a nillable type
	v constant.Value
	t types.Type
}
type symVal struct { // an input
	name string
	t    types.Type
}
type exprVal struct {
	op   string
	x, y Val
	t    types.Type
}
type ifVal struct { // a non-nil interface
	dyn types.Type
	v   Val
}
type ptrVal struct{ at string } // address of a memory path
type slVal struct {             // a slice of known length over memory path base
	base     string
	off, n   int
	t        types.Type
	symLen   Val // length when it is not known
	contents Val // what it holds, when taken as a whole
}
type aggVal struct { // struct or array held as a value
	t types.Type
	f map[string]Val
}
type tupVal struct{ vs []Val }
type fnVal struct {
	f     *ssa.Function
	binds []Val
}
type mapVal struct{ at string }
type unkVal struct {
	t  types.Type
	id int
}

func (v *kVal) key() string {
	if v.v == nil {
		return "nil"
	}
	return v.v.ExactString()
}
func (v *symVal) key() string { return v.name }
func (v *exprVal) key() string {
	s := v.op + "(" + v.x.key()
	if v.y != nil {
		s += "," + v.y.key()
	}
	s += ")"
	if v.op == "conv" {
		s += ":" + typeString(v.t)
	}
	return s
}
func (v *ifVal) key() string  { return "if<" + typeString(v.dyn) + ">" + v.v.key() }
func (v *ptrVal) key() string { return "&" + v.at }
func (v *slVal) key() string {
	if v.symLen != nil {
		return "slice<" + v.base + ":" + v.symLen.key() + ">"
	}
	return fmt.Sprintf("slice<%s+%d:%d>", v.base, v.off, v.n)
}
func (v *aggVal) key() string {
	ks := make([]string, 0, len(v.f))
	for k := range v.f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString("{")
	for _, k := range ks {
		b.WriteString(k + "=" + v.f[k].key() + ";")
	}
	return b.String() + "}"
}
func (v *tupVal) key() string {
	s := "("
	for _, x := range v.vs {
		s += x.key() + ","
	}
	return s + ")"
}
func (v *fnVal) key() string  { return "func " + v.f.String() }
func (v *mapVal) key() string { return "map " + v.at }
func (v *unkVal) key() string { return fmt.Sprintf("?%d", v.id) }

type evEvent struct {
	kind  string // "w" bytes written, "r" read, "skip"
	on    string // the stream: an input's name or a memory path
	width int    // bytes, -1 unknown
	v     Val
	order string
	dst   types.Type
	pos   token.Pos
	whole Val   // what is written, when its bytes are not known
	bs    []Val // its bytes, when they are
}

type evState struct {
	mem    map[string]Val
	base   map[string]Val // initial values of globals
	iv     map[string][2]*big.Int
	ne     map[string][]*big.Int // values excluded
	facts  map[string]bool
	events []evEvent
	nobj   *int
}

func (s *evState) clone() *evState {
	n := &evState{mem: make(map[string]Val, len(s.mem)), base: s.base, iv: make(map[string][2]*big.Int, len(s.iv)), ne: make(map[string][]*big.Int, len(s.ne)), facts: make(map[string]bool, len(s.facts)), nobj: s.nobj}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.iv {
		n.iv[k] = v
	}
	for k, v := range s.ne {
		n.ne[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.events = append([]evEvent(nil), s.events...)
	return n
}

type evOut struct {
	st   *evState
	res  []Val
	dead bool // panicked
	// where a region was left
	at, pred *ssa.BasicBlock
	env      map[ssa.Value]Val
}

type Eval struct {
	p      *Prog
	steps  int
	limit  int
	bad    string // why the evaluation is undecided
	nsym   int
	glob   map[string]Val
	globN  int // objects the initialisers made
	maxRec int
	// Call may model a call: (results, handled)
	Call func(ev *Eval, st *evState, call *ssa.CallCommon, args []Val) ([]evOut, bool)
	ptrs int
	pin  map[ssa.Value]Val // instructions whose result is given
}

func NewEval(p *Prog) *Eval {
	ev := &Eval{p: p, limit: 400000, maxRec: 12, glob: map[string]Val{}}
	return ev
}

func (ev *Eval) newState() *evState {
	n := ev.globN // objects of the initialisers keep their names
	return &evState{mem: map[string]Val{}, base: ev.glob, iv: map[string][2]*big.Int{}, ne: map[string][]*big.Int{}, facts: map[string]bool{}, nobj: &n}
}

func (ev *Eval) sym(name string, t types.Type) *symVal { return &symVal{name, t} }

func (ev *Eval) unk(t types.Type) Val {
	ev.nsym++
	return &unkVal{t, ev.nsym}
}

// Globals evaluates a package's initialiser so that tables declared as variables are known.
func (ev *Eval) Globals(pk *ssa.Package) {
	f := pk.Func("init")
	if f == nil {
		return
	}
	st := ev.newState()
	lim := ev.limit
	ev.limit = 5000000
	outs := ev.run(f, nil, nil, st, 0)
	ev.limit = lim
	ev.steps = 0
	best := st
	for _, o := range outs {
		if len(o.st.mem) > len(best.mem) {
			best = o.st
		}
	}
	for k, v := range best.mem {
		ev.glob[k] = v
	}
	ev.globN = *best.nobj
	ev.bad = ""
}

func (s *evState) get(at string) (Val, bool) {
	if v, ok := s.mem[at]; ok {
		return v, true
	}
	v, ok := s.base[at]
	return v, ok
}

// load builds the value stored at a path.
func (ev *Eval) load(st *evState, at string, t types.Type) Val {
	if v, ok := st.get(at); ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &aggVal{t, map[string]Val{}}
		for i := 0; i < u.NumFields(); i++ {
			k := "." + fmt.Sprint(i)
			a.f[k] = ev.load(st, at+k, u.Field(i).Type())
		}
		return a
	case *types.Array:
		if u.Len() <= 512 {
			a := &aggVal{t, map[string]Val{}}
			for i := 0; i < int(u.Len()); i++ {
				k := fmt.Sprintf("[%d]", i)
				a.f[k] = ev.load(st, at+k, u.Elem())
			}
			return a
		}
	}
	// inherit from an enclosing aggregate
	if i := strings.LastIndexAny(at, ".["); i > 0 {
		if v, ok := st.get(at[:i]); ok {
			if a, ok := v.(*aggVal); ok {
				if x, ok := a.f[at[i:]]; ok {
					return x
				}
			}
			return &exprVal{"part" + at[i:], v, nil, t}
		}
	}
	if strings.HasPrefix(at, "z") || strings.HasPrefix(at, "g:") { // zeroed memory
		return zeroVal(t)
	}
	return &symVal{at, t}
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &kVal{constant.MakeBool(false), t}
		case u.Info()&types.IsString != 0:
			return &kVal{constant.MakeString(""), t}
		case u.Info()&types.IsNumeric != 0:
			return &kVal{constant.MakeInt64(0), t}
		}
	case *types.Struct:
		a := &aggVal{t, map[string]Val{}}
		for i := 0; i < u.NumFields(); i++ {
			a.f["."+fmt.Sprint(i)] = zeroVal(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := &aggVal{t, map[string]Val{}}
		if u.Len() <= 512 {
			for i := 0; i < int(u.Len()); i++ {
				a.f[fmt.Sprintf("[%d]", i)] = zeroVal(u.Elem())
			}
		}
		return a
	}
	return &kVal{nil, t}
}

func (ev *Eval) store(st *evState, at string, v Val) {
	for k := range st.mem {
		if strings.HasPrefix(k, at) && len(k) > len(at) && (k[len(at)] == '.' || k[len(at)] == '[') {
			delete(st.mem, k)
		}
	}
	if a, ok := v.(*aggVal); ok {
		delete(st.mem, at)
		for k, x := range a.f {
			ev.store(st, at+k, x)
		}
		if len(a.f) == 0 {
			st.mem[at] = v
		}
		return
	}
	// split an enclosing aggregate held as a whole
	if i := strings.LastIndexAny(at, ".["); i > 0 {
		if w, ok := st.mem[at[:i]]; ok {
			if a, ok := w.(*aggVal); ok {
				delete(st.mem, at[:i])
				for k, x := range a.f {
					ev.store(st, at[:i]+k, x)
				}
			}
		}
	}
	st.mem[at] = v
}

// ---- integers

func bigOf(v constant.Value) (*big.Int, bool) {
	if v == nil || v.Kind() != constant.Int {
		return nil, false
	}
	switch x := constant.Val(v).(type) {
	case int64:
		return big.NewInt(x), true
	case *big.Int:
		return x, true
	}
	return nil, false
}

func typeRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, is := t.Underlying().(*types.Basic)
	if !is || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	n := uint(bitsOf(t))
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, n), one), true
	}
	h := new(big.Int).Lsh(one, n-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

// interval bounds a value.
func (ev *Eval) interval(st *evState, v Val) (lo, hi *big.Int, ok bool) {
	switch x := v.(type) {
	case *kVal:
		b, is := bigOf(x.v)
		return b, b, is
	case *ifVal:
		return ev.interval(st, x.v)
	}
	if r, is := st.iv[v.key()]; is {
		return r[0], r[1], true
	}
	switch x := v.(type) {
	case *symVal:
		return typeRange(x.t)
	case *unkVal:
		if x.t != nil {
			return typeRange(x.t)
		}
	case *exprVal:
		tl, th, tok := typeRange(x.t)
		if !tok {
			return nil, nil, false
		}
		clip := func(l, h *big.Int) (*big.Int, *big.Int, bool) {
			if l.Cmp(tl) < 0 || h.Cmp(th) > 0 {
				return tl, th, true
			}
			return l, h, true
		}
		switch x.op {
		case "len":
			return big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 40), true
		case "conv":
			if l, h, ok := ev.interval(st, x.x); ok {
				return clip(l, h)
			}
		case "+", "-", "*", "&", ">>", "/", "%":
			l1, h1, ok1 := ev.interval(st, x.x)
			l2, h2, ok2 := ev.interval(st, x.y)
			if ok1 && ok2 {
				switch x.op {
				case "+":
					return clip(new(big.Int).Add(l1, l2), new(big.Int).Add(h1, h2))
				case "-":
					return clip(new(big.Int).Sub(l1, h2), new(big.Int).Sub(h1, l2))
				case "*":
					if l1.Sign() >= 0 && l2.Sign() >= 0 {
						return clip(new(big.Int).Mul(l1, l2), new(big.Int).Mul(h1, h2))
					}
				case "&":
					if l2.Sign() >= 0 && l1.Sign() >= 0 {
						m := h1
						if h2.Cmp(m) < 0 {
							m = h2
						}
						return big.NewInt(0), m, true
					}
				case ">>":
					if l1.Sign() >= 0 && l2.Cmp(h2) == 0 && l2.IsInt64() && l2.Int64() < 64 {
						n := uint(l2.Int64())
						return new(big.Int).Rsh(l1, n), new(big.Int).Rsh(h1, n), true
					}
				case "/":
					if l1.Sign() >= 0 && l2.Cmp(h2) == 0 && l2.Sign() > 0 {
						return new(big.Int).Div(l1, l2), new(big.Int).Div(h1, l2), true
					}
				case "%":
					if l2.Cmp(h2) == 0 && l2.Sign() > 0 && l1.Sign() >= 0 {
						return big.NewInt(0), new(big.Int).Sub(l2, big.NewInt(1)), true
					}
				}
			}
		}
		return tl, th, true
	}
	return nil, nil, false
}

func (ev *Eval) convert(st *evState, v Val, t types.Type) Val {
	switch x := v.(type) {
	case *kVal:
		if x.v == nil {
			return &kVal{nil, t}
		}
		b, isB := t.Underlying().(*types.Basic)
		if isB && b.Info()&types.IsInteger != 0 {
			if n, ok := bigOf(constant.ToInt(x.v)); ok {
				lo, hi, _ := typeRange(t)
				if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
					w := uint(bitsOf(t))
					m := new(big.Int).And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1)))
					if m.Cmp(hi) > 0 {
						m.Sub(m, new(big.Int).Lsh(big.NewInt(1), w))
					}
					n = m
				}
				return &kVal{constant.Make(n), t}
			}
			return &exprVal{"conv", v, nil, t}
		}
		if isB && b.Info()&types.IsFloat != 0 {
			return &kVal{constant.ToFloat(x.v), t}
		}
		if isB && b.Info()&types.IsString != 0 {
			if x.v.Kind() == constant.String {
				return &kVal{x.v, t}
			}
			return &exprVal{"conv", v, nil, t}
		}
		if isB {
			return &kVal{x.v, t}
		}
		return &exprVal{"conv", v, nil, t}
	case *symVal, *exprVal, *unkVal:
		if tl, th, ok := typeRange(t); ok {
			if l, h, ok := ev.interval(st, v); ok && l.Cmp(tl) >= 0 && h.Cmp(th) <= 0 {
				return v // value unchanged
			}
		}
		return &exprVal{"conv", v, nil, t}
	case *slVal:
		y := *x
		y.t = t
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return &exprVal{"string", v, nil, t}
		}
		return &y
	}
	return v
}

// ---- conditions

// decide evaluates a boolean value under what is known.
func (ev *Eval) decide(st *evState, v Val) (val, known bool) {
	switch x := v.(type) {
	case *kVal:
		if x.v != nil && x.v.Kind() == constant.Bool {
			return constant.BoolVal(x.v), true
		}
	case *exprVal:
		switch x.op {
		case "!":
			b, k := ev.decide(st, x.x)
			return !b, k
		case "==", "!=", "<", "<=", ">", ">=":
			if b, k := ev.compare(st, x.op, x.x, x.y); k {
				return b, true
			}
		}
	}
	b, k := st.facts[v.key()]
	return b, k
}

func isNilVal(v Val) bool { k, ok := v.(*kVal); return ok && k.v == nil }

func nonNilVal(v Val) bool {
	switch x := v.(type) {
	case *ptrVal, *fnVal, *mapVal, *ifVal:
		return true
	case *slVal:
		return x.symLen == nil
	case *exprVal:
		return x.op == "newerr"
	}
	return false
}

func (ev *Eval) compare(st *evState, op string, a, b Val) (bool, bool) {
	ka, ok1 := a.(*kVal)
	kb, ok2 := b.(*kVal)
	if ok1 && ok2 && ka.v != nil && kb.v != nil {
		t := map[string]token.Token{"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}[op]
		if ka.v.Kind() == constant.Bool && op != "==" && op != "!=" {
			return false, false
		}
		return constant.Compare(ka.v, t, kb.v), true
	}
	if op == "==" || op == "!=" {
		eq := op == "=="
		if isNilVal(a) && isNilVal(b) {
			return eq, true
		}
		if isNilVal(a) && nonNilVal(b) || isNilVal(b) && nonNilVal(a) {
			return !eq, true
		}
		if a.key() == b.key() {
			if _, u := a.(*unkVal); !u {
				return eq, true
			}
		}
		// interfaces holding constants
		if x, ok := a.(*ifVal); ok {
			if y, ok := b.(*ifVal); ok {
				if !types.Identical(x.dyn, y.dyn) {
					return !eq, true
				}
				return ev.compare(st, op, x.v, y.v)
			}
		}
	}
	l1, h1, k1 := ev.interval(st, a)
	l2, h2, k2 := ev.interval(st, b)
	if k1 && k2 {
		switch op {
		case "==", "!=":
			if h1.Cmp(l2) < 0 || h2.Cmp(l1) < 0 {
				return op == "!=", true
			}
			if l1.Cmp(h1) == 0 && l2.Cmp(h2) == 0 && l1.Cmp(l2) == 0 {
				return op == "==", true
			}
			for _, n := range st.ne[a.key()] {
				if l2.Cmp(h2) == 0 && n.Cmp(l2) == 0 {
					return op == "!=", true
				}
			}
		case "<":
			if h1.Cmp(l2) < 0 {
				return true, true
			}
			if l1.Cmp(h2) >= 0 {
				return false, true
			}
		case "<=":
			if h1.Cmp(l2) <= 0 {
				return true, true
			}
			if l1.Cmp(h2) > 0 {
				return false, true
			}
		case ">":
			if l1.Cmp(h2) > 0 {
				return true, true
			}
			if h1.Cmp(l2) <= 0 {
				return false, true
			}
		case ">=":
			if l1.Cmp(h2) >= 0 {
				return true, true
			}
			if h1.Cmp(l2) < 0 {
				return false, true
			}
		}
	}
	return false, false
}

// assume records that a condition holds (or not). false: impossible.
func (ev *Eval) assume(st *evState, v Val, b bool) bool {
	if x, ok := v.(*exprVal); ok {
		if x.op == "!" {
			return ev.assume(st, x.x, !b)
		}
		op := x.op
		if !b {
			op = map[string]string{"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
		}
		switch op {
		case "==", "!=", "<", "<=", ">", ">=":
			ev.refine(st, x.x, op, x.y)
			flip := map[string]string{"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
			ev.refine(st, x.y, flip, x.x)
			// record the facts of both forms
			st.facts[(&exprVal{op, x.x, x.y, nil}).key()] = true
			neg := map[string]string{"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
			st.facts[(&exprVal{neg, x.x, x.y, nil}).key()] = false
			return true
		}
	}
	st.facts[v.key()] = b
	return true
}

func (ev *Eval) refine(st *evState, v Val, op string, w Val) {
	if _, ok := v.(*kVal); ok {
		return
	}
	l, h, ok := ev.interval(st, v)
	l2, h2, ok2 := ev.interval(st, w)
	if !ok || !ok2 {
		return
	}
	one := big.NewInt(1)
	max := func(a, b *big.Int) *big.Int {
		if a.Cmp(b) > 0 {
			return a
		}
		return b
	}
	min := func(a, b *big.Int) *big.Int {
		if a.Cmp(b) < 0 {
			return a
		}
		return b
	}
	switch op {
	case "==":
		l, h = max(l, l2), min(h, h2)
	case "<":
		h = min(h, new(big.Int).Sub(h2, one))
	case "<=":
		h = min(h, h2)
	case ">":
		l = max(l, new(big.Int).Add(l2, one))
	case ">=":
		l = max(l, l2)
	case "!=":
		if l2.Cmp(h2) == 0 {
			st.ne[v.key()] = append(append([]*big.Int(nil), st.ne[v.key()]...), l2)
			if l.Cmp(l2) == 0 {
				l = new(big.Int).Add(l, one)
			}
			if h.Cmp(l2) == 0 {
				h = new(big.Int).Sub(h, one)
			}
		}
	}
	st.iv[v.key()] = [2]*big.Int{l, h}
	if x, ok := v.(*exprVal); ok && x.op == "conv" {
		// an exact conversion carries over to its operand
		if tl, th, ok := typeRange(x.t); ok {
			if a, b, ok := ev.interval(st, x.x); ok && a.Cmp(tl) >= 0 && b.Cmp(th) <= 0 {
				st.iv[x.x.key()] = [2]*big.Int{l, h}
			}
		}
	}
}

// ---- execution

type evFrame struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	i    int
	env  map[ssa.Value]Val
	st   *evState
}

// Run evaluates a function on abstract arguments.
func (ev *Eval) Run(f *ssa.Function, args []Val, st *evState) []evOut {
	ev.steps, ev.bad = 0, ""
	return ev.run(f, args, nil, st, 0)
}

func (ev *Eval) fail(why string) {
	if ev.bad == "" {
		ev.bad = why
	}
}

func (ev *Eval) run(f *ssa.Function, args, binds []Val, st *evState, d int) []evOut {
	if d > ev.maxRec {
		ev.fail("calls nest too deeply")
		return nil
	}
	env := map[ssa.Value]Val{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, fv := range f.FreeVars {
		if i < len(binds) {
			env[fv] = binds[i]
		}
	}
	if len(f.Blocks) == 0 {
		return []evOut{{st: st, res: ev.unknownResults(f.Signature)}}
	}
	return ev.frames(f, &evFrame{b: f.Blocks[0], env: env, st: st}, d, nil)
}

// Region evaluates part of a function: from the start of a block, with everything computed before it
// unknown, until stop holds for the block control goes to.
func (ev *Eval) Region(f *ssa.Function, b *ssa.BasicBlock, env map[ssa.Value]Val, st *evState, stop func(b *ssa.BasicBlock) bool) []evOut {
	ev.steps, ev.bad = 0, ""
	return ev.frames(f, &evFrame{b: b, env: env, st: st}, 0, stop)
}

func (ev *Eval) frames(f *ssa.Function, start *evFrame, d int, stop func(b *ssa.BasicBlock) bool) []evOut {
	var outs []evOut
	work := []*evFrame{start}
	for len(work) > 0 {
		fr := work[len(work)-1]
		work = work[:len(work)-1]
		for fr != nil {
			if ev.bad != "" {
				return outs
			}
			ev.steps++
			if ev.steps > ev.limit || len(outs) > 5000 {
				ev.fail("the step limit was reached in " + FnName(f))
				return outs
			}
			if stop != nil && fr.i == 0 && fr.pred != nil && stop(fr.b) {
				outs = append(outs, evOut{st: fr.st, at: fr.b, pred: fr.pred, env: fr.env})
				break
			}
			more, out, next := ev.step(fr, d)
			work = append(work, more...)
			if out != nil {
				outs = append(outs, *out)
			}
			fr = next
		}
	}
	return outs
}

func (ev *Eval) unknownResults(sig *types.Signature) []Val {
	var vs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, ev.unk(sig.Results().At(i).Type()))
	}
	return vs
}

func (fr *evFrame) fork(st *evState) *evFrame {
	env := make(map[ssa.Value]Val, len(fr.env))
	for k, v := range fr.env {
		env[k] = v
	}
	return &evFrame{fr.b, fr.pred, fr.i, env, st}
}

func (ev *Eval) val(fr *evFrame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if x.IsNil() {
				return &kVal{nil, x.Type()}
			}
			return zeroVal(x.Type())
		}
		return &kVal{x.Value, x.Type()}
	case *ssa.Global:
		return &ptrVal{"g:" + x.Pkg.Pkg.Path() + "." + x.Name()}
	case *ssa.Function:
		return &fnVal{f: x}
	}
	if y, ok := fr.env[v]; ok {
		return y
	}
	y := ev.unk(v.Type())
	fr.env[v] = y
	return y
}

func results1(vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return &tupVal{vs}
}

// step executes one instruction; the frame continues as next, forks go to more.
func (ev *Eval) step(fr *evFrame, d int) (more []*evFrame, out *evOut, next *evFrame) {
	if fr.i == 0 {
		// phis take their values together
		vals := map[ssa.Value]Val{}
		for _, i := range fr.b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for n, p := range fr.b.Preds {
				if p == fr.pred {
					vals[ph] = ev.val(fr, ph.Edges[n])
				}
			}
			fr.i++
		}
		for k, v := range vals {
			fr.env[k] = v
		}
	}
	in := fr.b.Instrs[fr.i]
	fr.i++
	if v, ok := in.(ssa.Value); ok && ev.pin[v] != nil {
		fr.env[v] = ev.pin[v]
		return nil, nil, fr
	}
	set := func(v Val) { fr.env[in.(ssa.Value)] = v }
	jump := func(b *ssa.BasicBlock) *evFrame {
		fr.pred, fr.b, fr.i = fr.b, b, 0
		return fr
	}
	st := fr.st
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Jump:
		return nil, nil, jump(fr.b.Succs[0])
	case *ssa.If:
		c := ev.val(fr, x.Cond)
		if b, k := ev.decide(st, c); k {
			if b {
				return nil, nil, jump(fr.b.Succs[0])
			}
			return nil, nil, jump(fr.b.Succs[1])
		}
		other := fr.fork(st.clone())
		other.pred, other.b, other.i = fr.b, fr.b.Succs[1], 0
		ev.assume(other.st, c, false)
		ev.assume(st, c, true)
		return []*evFrame{other}, nil, jump(fr.b.Succs[0])
	case *ssa.Return:
		var vs []Val
		for _, r := range x.Results {
			vs = append(vs, ev.val(fr, r))
		}
		return nil, &evOut{st: st, res: vs}, nil
	case *ssa.Panic:
		return nil, &evOut{st: st, dead: true}, nil
	case *ssa.Alloc:
		*st.nobj++
		at := fmt.Sprintf("z%d", *st.nobj)
		// memory of this name may be left over from an earlier turn of a loop
		set(&ptrVal{at})
	case *ssa.FieldAddr:
		if p, ok := ev.val(fr, x.X).(*ptrVal); ok {
			set(&ptrVal{p.at + "." + fmt.Sprint(x.Field)})
		} else {
			set(&ptrVal{"p:" + ev.val(fr, x.X).key() + "." + fmt.Sprint(x.Field)})
		}
	case *ssa.Field:
		v := ev.val(fr, x.X)
		if a, ok := v.(*aggVal); ok {
			if y, ok := a.f["."+fmt.Sprint(x.Field)]; ok {
				set(y)
				break
			}
		}
		set(&exprVal{fmt.Sprintf("part.%d", x.Field), v, nil, x.Type()})
	case *ssa.IndexAddr:
		ix := ev.val(fr, x.Index)
		base := ev.val(fr, x.X)
		n, known := constInt(ix)
		if !known {
			if l, h, ok := ev.interval(st, ix); ok && l.Cmp(h) == 0 && l.IsInt64() {
				n, known = int(l.Int64()), true
			}
		}
		switch b := base.(type) {
		case *ptrVal:
			if known {
				set(&ptrVal{fmt.Sprintf("%s[%d]", b.at, n)})
			} else {
				set(&ptrVal{b.at + "[" + ix.key() + "]"})
			}
		case *slVal:
			if known && b.symLen == nil {
				set(&ptrVal{fmt.Sprintf("%s[%d]", b.base, b.off+n)})
			} else if known {
				set(&ptrVal{fmt.Sprintf("%s[%d]", b.base, n)})
			} else {
				set(&ptrVal{b.base + "[" + ix.key() + "]"})
			}
		default:
			set(&ptrVal{"p:" + base.key() + "[" + ix.key() + "]"})
		}
	case *ssa.Index:
		v := ev.val(fr, x.X)
		if a, ok := v.(*aggVal); ok {
			if n, known := constInt(ev.val(fr, x.Index)); known {
				if y, ok := a.f[fmt.Sprintf("[%d]", n)]; ok {
					set(y)
					break
				}
			}
		}
		set(&exprVal{"index", v, ev.val(fr, x.Index), x.Type()})
	case *ssa.UnOp:
		v := ev.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			if p, ok := v.(*ptrVal); ok {
				set(ev.load(st, p.at, x.Type()))
			} else {
				set(ev.load(st, "p:"+v.key(), x.Type()))
			}
		case token.NOT:
			if b, k := ev.decide(st, v); k {
				set(&kVal{constant.MakeBool(!b), x.Type()})
			} else {
				set(&exprVal{"!", v, nil, x.Type()})
			}
		case token.SUB, token.XOR:
			if k, ok := v.(*kVal); ok && k.v != nil {
				c := constant.UnaryOp(x.Op, k.v, 0)
				set(ev.convert(st, &kVal{c, x.Type()}, x.Type()))
			} else {
				set(&exprVal{"u" + x.Op.String(), v, nil, x.Type()})
			}
		default:
			set(ev.unk(x.Type()))
		}
	case *ssa.Store:
		v := ev.val(fr, x.Val)
		if p, ok := ev.val(fr, x.Addr).(*ptrVal); ok {
			ev.store(st, p.at, v)
		}
	case *ssa.BinOp:
		set(ev.binop(st, x.Op, ev.val(fr, x.X), ev.val(fr, x.Y), x.Type()))
	case *ssa.Convert:
		v := ev.val(fr, x.X)
		set(ev.convert(st, v, x.Type()))
	case *ssa.ChangeType:
		v := ev.val(fr, x.X)
		switch y := v.(type) {
		case *kVal:
			v = &kVal{y.v, x.Type()}
		case *slVal:
			z := *y
			z.t = x.Type()
			v = &z
		}
		set(v)
	case *ssa.MultiConvert:
		set(ev.convert(st, ev.val(fr, x.X), x.Type()))
	case *ssa.ChangeInterface:
		set(ev.val(fr, x.X))
	case *ssa.MakeInterface:
		set(&ifVal{x.X.Type(), ev.val(fr, x.X)})
	case *ssa.TypeAssert:
		return ev.typeAssert(fr, x)
	case *ssa.Extract:
		if t, ok := ev.val(fr, x.Tuple).(*tupVal); ok && x.Index < len(t.vs) {
			set(t.vs[x.Index])
		} else {
			set(ev.unk(x.Type()))
		}
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, ev.val(fr, b))
		}
		set(&fnVal{x.Fn.(*ssa.Function), bs})
	case *ssa.MakeMap:
		*st.nobj++
		set(&mapVal{fmt.Sprintf("m%s%d", mapTag(x), *st.nobj)})
	case *ssa.MapUpdate:
		if m, ok := ev.val(fr, x.Map).(*mapVal); ok {
			ev.store(st, m.at+"<"+ev.val(fr, x.Key).key()+">", ev.val(fr, x.Value))
			if _, isK := ev.val(fr, x.Key).(*kVal); !isK {
				st.mem[m.at+"?"] = &kVal{constant.MakeBool(true), nil}
			}
		}
	case *ssa.Lookup:
		set(ev.lookup(fr, st, x))
	case *ssa.Slice:
		set(ev.slice(fr, st, x))
	case *ssa.SliceToArrayPointer:
		if s, ok := ev.val(fr, x.X).(*slVal); ok && s.off == 0 && s.symLen == nil {
			set(&ptrVal{s.base})
		} else {
			set(ev.unk(x.Type()))
		}
	case *ssa.MakeSlice:
		*st.nobj++
		base := fmt.Sprintf("z%d", *st.nobj)
		if n, ok := constInt(ev.val(fr, x.Len)); ok {
			set(&slVal{base: base, n: n, t: x.Type()})
		} else {
			set(&slVal{base: base, symLen: ev.val(fr, x.Len), t: x.Type()})
		}
	case *ssa.Call:
		return ev.call(fr, x, d)
	case *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send:
		// nothing that matters to the functions analysed here
	default:
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = ev.unk(v.Type())
		}
	}
	return nil, nil, fr
}

func mapTag(x *ssa.MakeMap) string { return fmt.Sprint(x.Pos(), "_") }

func constInt(v Val) (int, bool) {
	if k, ok := v.(*kVal); ok && k.v != nil && k.v.Kind() == constant.Int {
		if n, ok := constant.Int64Val(k.v); ok {
			return int(n), true
		}
	}
	return 0, false
}

func (ev *Eval) binop(st *evState, op token.Token, a, b Val, t types.Type) Val {
	ka, ok1 := a.(*kVal)
	kb, ok2 := b.(*kVal)
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		e := &exprVal{op.String(), a, b, t}
		if r, k := ev.compare(st, op.String(), a, b); k {
			return &kVal{constant.MakeBool(r), t}
		}
		// comparisons with a boolean constant
		if ok2 && kb.v != nil && kb.v.Kind() == constant.Bool {
			if constant.BoolVal(kb.v) == (op == token.EQL) {
				return a
			}
			return &exprVal{"!", a, nil, t}
		}
		return e
	}
	if ok1 && ok2 && ka.v != nil && kb.v != nil {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(kb.v); ok && n < 256 {
				return ev.convert(st, &kVal{constant.Shift(ka.v, op, uint(n)), t}, t)
			}
		case token.QUO, token.REM:
			if constant.Sign(kb.v) != 0 {
				o := op
				if op == token.QUO && ka.v.Kind() == constant.Int {
					o = token.QUO_ASSIGN
				}
				return ev.convert(st, &kVal{constant.BinaryOp(ka.v, o, kb.v), t}, t)
			}
		case token.AND_NOT:
			return ev.convert(st, &kVal{constant.BinaryOp(ka.v, op, kb.v), t}, t)
		default:
			if ka.v.Kind() == constant.Bool {
				return &kVal{constant.BinaryOp(ka.v, map[token.Token]token.Token{token.AND: token.LAND, token.OR: token.LOR}[op], kb.v), t}
			}
			return ev.convert(st, &kVal{constant.BinaryOp(ka.v, op, kb.v), t}, t)
		}
	}
	// neutral elements
	isZero := func(k *kVal, ok bool) bool {
		return ok && k.v != nil && k.v.Kind() == constant.Int && constant.Sign(k.v) == 0
	}
	switch op {
	case token.ADD, token.OR, token.XOR:
		if isZero(kb, ok2) {
			return a
		}
		if isZero(ka, ok1) && op != token.ADD {
			return b
		}
	case token.SUB, token.SHL, token.SHR:
		if isZero(kb, ok2) {
			return a
		}
	case token.AND:
		if isZero(ka, ok1) || isZero(kb, ok2) {
			return &kVal{constant.MakeInt64(0), t}
		}
	}
	return &exprVal{op.String(), a, b, t}
}

func (ev *Eval) typeAssert(fr *evFrame, x *ssa.TypeAssert) (more []*evFrame, out *evOut, next *evFrame) {
	v := ev.val(fr, x.X)
	give := func(f *evFrame, ok bool, val Val) {
		if x.CommaOk {
			f.env[x] = &tupVal{[]Val{val, &kVal{constant.MakeBool(ok), types.Typ[types.Bool]}}}
		} else {
			f.env[x] = val
		}
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	switch y := v.(type) {
	case *ifVal:
		ok := false
		var val Val = zeroVal(x.AssertedType)
		if toIface {
			ok = types.AssertableTo(x.AssertedType.Underlying().(*types.Interface), y.dyn) && types.Implements(y.dyn, x.AssertedType.Underlying().(*types.Interface))
			if ok {
				val = y
			}
		} else if types.Identical(y.dyn, x.AssertedType) {
			ok, val = true, y.v
		}
		if !ok && !x.CommaOk {
			return nil, &evOut{st: fr.st, dead: true}, nil
		}
		give(fr, ok, val)
		return nil, nil, fr
	case *kVal:
		if y.v == nil {
			if !x.CommaOk {
				return nil, &evOut{st: fr.st, dead: true}, nil
			}
			give(fr, false, zeroVal(x.AssertedType))
			return nil, nil, fr
		}
	}
	// unknown dynamic type: both
	fact := "is<" + typeString(x.AssertedType) + ">" + v.key()
	some := &exprVal{"as", v, nil, x.AssertedType}
	if b, known := fr.st.facts[fact]; known {
		if b {
			give(fr, true, some)
		} else {
			if !x.CommaOk {
				return nil, &evOut{st: fr.st, dead: true}, nil
			}
			give(fr, false, zeroVal(x.AssertedType))
		}
		return nil, nil, fr
	}
	if !x.CommaOk {
		fr.st.facts[fact] = true
		give(fr, true, some)
		return nil, nil, fr
	}
	other := fr.fork(fr.st.clone())
	other.st.facts[fact] = false
	give(other, false, zeroVal(x.AssertedType))
	fr.st.facts[fact] = true
	give(fr, true, some)
	return []*evFrame{other}, nil, fr
}

func (ev *Eval) lookup(fr *evFrame, st *evState, x *ssa.Lookup) Val {
	m := ev.val(fr, x.X)
	k := ev.val(fr, x.Index)
	elem := x.Type()
	if x.CommaOk {
		elem = x.Type().(*types.Tuple).At(0).Type()
	}
	ret := func(v Val, ok Val) Val {
		if x.CommaOk {
			return &tupVal{[]Val{v, ok}}
		}
		return v
	}
	tb := func(b bool) Val { return &kVal{constant.MakeBool(b), types.Typ[types.Bool]} }
	if mv, ok := m.(*mapVal); ok {
		kk, isK := k.(*kVal)
		if isK && kk.v != nil {
			at := mv.at + "<" + kk.key() + ">"
			if v, ok := st.get(at); ok {
				return ret(v, tb(true))
			}
			for _, mm := range []map[string]Val{st.mem, st.base} {
				if _, ok := mm[at+".0"]; ok {
					return ret(ev.load(st, at, elem), tb(true))
				}
			}
			if _, open := st.get(mv.at + "?"); !open {
				return ret(zeroVal(elem), tb(false))
			}
		}
	}
	if isNilVal(m) {
		return ret(zeroVal(elem), tb(false))
	}
	if s, ok := m.(*kVal); ok && s.v != nil && s.v.Kind() == constant.String {
		if n, ok := constInt(k); ok && n >= 0 && n < len(constant.StringVal(s.v)) {
			return &kVal{constant.MakeInt64(int64(constant.StringVal(s.v)[n])), elem}
		}
	}
	return ret(&exprVal{"lookup", m, k, elem}, &exprVal{"has", m, k, types.Typ[types.Bool]})
}

func (ev *Eval) slice(fr *evFrame, st *evState, x *ssa.Slice) Val {
	v := ev.val(fr, x.X)
	lo, hi := 0, -1
	okLo, okHi := true, true
	if x.Low != nil {
		lo, okLo = constInt(ev.val(fr, x.Low))
	}
	if x.High != nil {
		hi, okHi = constInt(ev.val(fr, x.High))
	}
	switch b := v.(type) {
	case *ptrVal:
		at, ok := deref(x.X.Type()).Underlying().(*types.Array)
		if ok && okLo && okHi {
			if hi < 0 {
				hi = int(at.Len())
			}
			return &slVal{base: b.at, off: lo, n: hi - lo, t: x.Type()}
		}
	case *slVal:
		if b.symLen == nil && okLo && okHi {
			if hi < 0 {
				hi = b.n
			}
			if hi >= lo {
				return &slVal{base: b.base, off: b.off + lo, n: hi - lo, t: x.Type()}
			}
		}
		if b.symLen != nil && okLo && lo == 0 && x.High != nil {
			if okHi {
				return &slVal{base: b.base, off: 0, n: hi, t: x.Type()}
			}
			return &slVal{base: b.base, symLen: ev.val(fr, x.High), t: x.Type()}
		}
		if x.High == nil && okLo && lo == 0 {
			return b
		}
	case *kVal:
		if b.v != nil && b.v.Kind() == constant.String && okLo && okHi {
			s := constant.StringVal(b.v)
			if hi < 0 {
				hi = len(s)
			}
			if lo <= hi && hi <= len(s) {
				return &kVal{constant.MakeString(s[lo:hi]), x.Type()}
			}
		}
	}
	if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		var l Val = &kVal{constant.MakeInt64(0), types.Typ[types.Int]}
		if x.Low != nil {
			l = ev.val(fr, x.Low)
		}
		if x.High != nil {
			return &exprVal{"substr", v, &exprVal{"-", ev.val(fr, x.High), l, types.Typ[types.Int]}, x.Type()}
		}
		return &exprVal{"substr", v, ev.binop(st, token.SUB, ev.length(v), l, types.Typ[types.Int]), x.Type()}
	}
	ev.nsym++
	if x.High != nil {
		return &slVal{base: fmt.Sprintf("u%d", ev.nsym), symLen: ev.binop(st, token.SUB, ev.val(fr, x.High), lowVal(ev, fr, x), types.Typ[types.Int]), t: x.Type()}
	}
	return &slVal{base: fmt.Sprintf("u%d", ev.nsym), symLen: ev.binop(st, token.SUB, ev.length(v), lowVal(ev, fr, x), types.Typ[types.Int]), t: x.Type()}
}

func lowVal(ev *Eval, fr *evFrame, x *ssa.Slice) Val {
	if x.Low != nil {
		return ev.val(fr, x.Low)
	}
	return &kVal{constant.MakeInt64(0), types.Typ[types.Int]}
}

// length of a string, slice, array or map.
func (ev *Eval) length(v Val) Val {
	tInt := types.Typ[types.Int]
	switch x := v.(type) {
	case *slVal:
		if x.symLen != nil {
			return x.symLen
		}
		return &kVal{constant.MakeInt64(int64(x.n)), tInt}
	case *kVal:
		if x.v == nil {
			return &kVal{constant.MakeInt64(0), tInt}
		}
		if x.v.Kind() == constant.String {
			return &kVal{constant.MakeInt64(int64(len(constant.StringVal(x.v)))), tInt}
		}
	case *exprVal:
		switch x.op {
		case "substr":
			return x.y
		case "string", "conv":
			return ev.length(x.x)
		}
	case *aggVal:
		if a, ok := x.t.Underlying().(*types.Array); ok {
			return &kVal{constant.MakeInt64(a.Len()), tInt}
		}
	}
	return &exprVal{"len", v, nil, tInt}
}

// call handles a call instruction.
func (ev *Eval) call(fr *evFrame, x *ssa.Call, d int) (more []*evFrame, out *evOut, next *evFrame) {
	cm := x.Common()
	var args []Val
	if cm.IsInvoke() {
		args = append(args, ev.val(fr, cm.Value))
	}
	for _, a := range cm.Args {
		args = append(args, ev.val(fr, a))
	}
	finish := func(outs []evOut) (more []*evFrame, out *evOut, next *evFrame) {
		var first *evFrame
		for n, o := range outs {
			if o.dead {
				continue
			}
			f := fr
			if n < len(outs)-1 {
				f = fr.fork(o.st)
			}
			f.st = o.st
			f.env[x] = results1(o.res)
			if first == nil {
				first = f
			} else {
				more = append(more, f)
			}
		}
		return more, nil, first
	}
	if bi, ok := cm.Value.(*ssa.Builtin); ok {
		fr.env[x] = ev.builtin(fr.st, bi.Name(), args, x.Type())
		return nil, nil, fr
	}
	if ev.Call != nil {
		if outs, ok := ev.Call(ev, fr.st, cm, args); ok {
			return finish(outs)
		}
	}
	f := cm.StaticCallee()
	var binds []Val
	if fv, ok := ev.val(fr, cm.Value).(*fnVal); ok && f == nil && !cm.IsInvoke() {
		f, binds = fv.f, fv.binds
	} else if ok && len(fv.binds) > 0 {
		binds = fv.binds
	}
	if cm.IsInvoke() {
		if iv, ok := args[0].(*ifVal); ok {
			f = ev.p.SSA.LookupMethod(iv.dyn, cm.Method.Pkg(), cm.Method.Name())
			args[0] = iv.v
		}
	}
	if f != nil {
		if outs, ok := ev.std(fr.st, f, cm, args, x, d); ok {
			return finish(outs)
		}
		if len(f.Blocks) > 0 && (ev.p.InLib(f) || f.Synthetic != "" && f.Name() != "init") {
			outs := ev.run(f, args, binds, fr.st, d+1)
			if ev.bad != "" {
				return nil, nil, nil
			}
			if len(outs) == 0 {
				return nil, nil, nil
			}
			return finish(outs)
		}
	} else if cm.IsInvoke() {
		if outs, ok := ev.invoke(fr.st, cm, args, x, d); ok {
			return finish(outs)
		}
	}
	// unknown: pointers handed over are not known to keep their contents
	for _, a := range args {
		ev.havoc(fr.st, a)
	}
	return finish([]evOut{{st: fr.st, res: ev.unknownResults(cm.Signature())}})
}

func (ev *Eval) havoc(st *evState, v Val) {
	switch x := v.(type) {
	case *ptrVal:
		for k := range st.mem {
			if k == x.at || strings.HasPrefix(k, x.at+".") || strings.HasPrefix(k, x.at+"[") {
				st.mem[k] = ev.unk(nil)
			}
		}
	case *ifVal:
		ev.havoc(st, x.v)
	}
}

func (ev *Eval) builtin(st *evState, name string, args []Val, t types.Type) Val {
	switch name {
	case "len":
		return ev.length(args[0])
	case "cap":
		return ev.unk(t)
	case "append":
		a := args[0]
		if isNilVal(a) {
			a = &slVal{base: "znil", n: 0, t: t}
		}
		sa, ok1 := a.(*slVal)
		var elems []Val
		known := ok1 && sa.symLen == nil
		if known && len(args) > 1 {
			switch y := args[1].(type) {
			case *slVal:
				if y.symLen == nil {
					for i := 0; i < y.n; i++ {
						elems = append(elems, ev.load(st, fmt.Sprintf("%s[%d]", y.base, y.off+i), elemOf(t)))
					}
				} else {
					known = false
				}
			case *kVal:
				if y.v != nil && y.v.Kind() == constant.String {
					for _, c := range []byte(constant.StringVal(y.v)) {
						elems = append(elems, &kVal{constant.MakeInt64(int64(c)), types.Typ[types.Byte]})
					}
				}
			default:
				known = false
			}
		}
		*st.nobj++
		base := fmt.Sprintf("z%d", *st.nobj)
		if !known {
			var n Val = ev.length(a)
			if len(args) > 1 {
				n = ev.binop(st, token.ADD, n, ev.length(args[1]), types.Typ[types.Int])
			}
			r := &slVal{base: base, symLen: n, t: t}
			if len(args) > 1 {
				r.contents = &exprVal{"cat", a, args[1], t}
			}
			if n0, ok := constInt(n); ok && n0 < 4096 { // length known, contents not
				r.n, r.symLen = n0, nil
				for i := 0; i < n0; i++ {
					st.mem[fmt.Sprintf("%s[%d]", base, i)] = ev.unk(elemOf(t))
				}
			}
			return r
		}
		for i := 0; i < sa.n; i++ {
			st.mem[fmt.Sprintf("%s[%d]", base, i)] = ev.load(st, fmt.Sprintf("%s[%d]", sa.base, sa.off+i), elemOf(t))
		}
		for i, e := range elems {
			ev.store(st, fmt.Sprintf("%s[%d]", base, sa.n+i), e)
		}
		return &slVal{base: base, n: sa.n + len(elems), t: t}
	case "copy":
		dst, ok := args[0].(*slVal)
		if ok {
			if src, ok := args[1].(*slVal); ok && src.symLen == nil && dst.symLen == nil {
				n := min(src.n, dst.n)
				for i := 0; i < n; i++ {
					ev.store(st, fmt.Sprintf("%s[%d]", dst.base, dst.off+i), ev.load(st, fmt.Sprintf("%s[%d]", src.base, src.off+i), elemOf(dst.t)))
				}
				return &kVal{constant.MakeInt64(int64(n)), t}
			}
			if dst.symLen == nil {
				room := dst.n
				var hi *big.Int
				if _, h, ok := ev.interval(st, ev.length(args[1])); ok {
					hi = h
					if h.IsInt64() && h.Int64() < int64(room) {
						room = int(h.Int64())
					}
				}
				e := &exprVal{"min", ev.length(args[1]), kNum(int64(dst.n)), t}
				if hi != nil {
					st.iv[e.key()] = [2]*big.Int{big.NewInt(0), big.NewInt(int64(room))}
				}
				for i := 0; i < room && i < 512; i++ {
					ev.store(st, fmt.Sprintf("%s[%d]", dst.base, dst.off+i), &exprVal{fmt.Sprintf("byte%d", i), args[1], nil, elemOf(dst.t)})
				}
				return e
			}
		}
		return &exprVal{"copied", args[0], args[1], t}
	case "min", "max":
		if len(args) == 2 {
			op := "<"
			if name == "max" {
				op = ">"
			}
			if b, k := ev.compare(st, op, args[0], args[1]); k {
				if b {
					return args[0]
				}
				return args[1]
			}
			e := &exprVal{name, args[0], args[1], t}
			l1, h1, k1 := ev.interval(st, args[0])
			l2, h2, k2 := ev.interval(st, args[1])
			if k1 && k2 {
				if name == "min" {
					if h2.Cmp(h1) < 0 {
						h1 = h2
					}
					if l2.Cmp(l1) < 0 {
						l1 = l2
					}
				} else {
					if h2.Cmp(h1) > 0 {
						h1 = h2
					}
					if l2.Cmp(l1) > 0 {
						l1 = l2
					}
				}
				st.iv[e.key()] = [2]*big.Int{l1, h1}
			}
			return e
		}
	}
	if t == nil {
		return &tupVal{}
	}
	return ev.unk(t)
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	}
	return types.Typ[types.Byte]
}
