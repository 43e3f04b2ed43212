package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: the background loop of the client. The domain follows, within each hold of the client lock,
// what is known about the client's signal channels and flags, who has claimed the right to run the
// loop, and whether the loop has been told to stop.

type keep struct {
	c       *Check
	sim     *Sim
	root    *ssa.Function
	loop    *ssa.Function
	exch    map[*ssa.Function]bool
	foreign map[string]bool // flags cleared by someone other than the loop that set them
	checked map[*ssa.Function]map[*ssa.BasicBlock]bool
	closes  map[*ssa.Function]bool
	exchAt  map[*ssa.Function]map[*ssa.BasicBlock]token.Pos
}

func clientField(v ssa.Value) (string, types.Type, bool) {
	t, f, ok := fieldOf(v)
	if !ok || t != "Client" {
		return "", nil, false
	}
	return f, deref(v.Type()), true
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

func (k *keep) fail(rule, construct string, pos token.Pos, msg string, st *State) {
	k.c.Fail(rule, construct, k.c.P.Pos(pos), msg, st.Trace()...)
}

func isClientLock(v ssa.Value) bool {
	t, _, ok := fieldOf(v)
	if !ok || t != "Client" {
		return false
	}
	_, m := isMutexType(deref(v.Type()))
	return m
}

func (k *keep) endHold(st *State, fn *ssa.Function, pos token.Pos) {
	a := st.Auto
	for _, key := range a.Keys() {
		switch {
		case strings.HasPrefix(key, "F:"):
			f := key[2:]
			if a.Get(key) == "closed" {
				k.fail("close-once", FnName(fn)+" "+f, pos, "the lock is released with "+f+" closed but still set: the next cancel or disconnect closes it again and panics", st)
			}
			if a.Get("own:"+f) == "taken" && a.Get(key) == "tnn" {
				a = a.Set("T:"+f, "nn")
			}
		case strings.HasPrefix(key, "pc:"):
			f := key[3:]
			told := a.Get("chold") == "1" || a.Get("anytaken") == "1" || a.Get("nochan") == "1"
			if a.Get("cl") == f || a.Get("cl") == "any" {
				if a.Get("ownseen") != "1" && !told && k.foreign[f] {
					k.fail("single-loop", FnName(fn)+" clears "+f, pos, "a keepalive loop that was cancelled clears "+f+" although a newer loop may have set it: another loop can then start beside the newer one", st)
				}
				a = a.Set("cl", "")
				if told {
					a = a.Set("done", "1") // it told itself to stop: what it still sends belongs to its disconnect
				}
			} else {
				k.foreign[f] = true
				if !told {
					k.fail("single-loop", FnName(fn)+" clears "+f, pos, f+" is cleared without telling the running keepalive loop to stop: a second loop can start", st)
				}
			}
		}
	}
	for _, key := range a.Keys() {
		if strings.HasPrefix(key, "F:") || strings.HasPrefix(key, "B:") || strings.HasPrefix(key, "pc:") || strings.HasPrefix(key, "ld:") {
			a = a.Set(key, "")
		}
	}
	st.Auto = a.Set("hold", "").Set("chold", "").Set("anytaken", "").Set("nochan", "").Set("ownseen", "")
}

func (k *keep) exchange(st *State, fn *ssa.Function, pos token.Pos, what string) {
	if k.root != k.loop {
		return
	}
	k.c.Instance("claimed", what+" in "+FnName(fn))
	if st.Auto.Get("cl") == "" && st.Auto.Get("done") == "" {
		k.fail("claimed", what+" in "+FnName(fn), pos, "the keepalive loop reaches "+what+" without having claimed, in one hold of the client lock, that no other loop is running", st)
	}
	if st.Auto.Get("can") == "1" {
		k.fail("stops", what+" in "+FnName(fn), pos, "the keepalive loop goes on to "+what+" after it was told to stop", st)
	}
}

func (k *keep) domain() *Domain {
	d := &Domain{Name: "keep"}
	d.Inline = func(f *ssa.Function) bool {
		if f.Object() != nil && f.Object().Exported() && k.exch[f] && f != k.root && f.Name() != "Disconnect" && f.Name() != "KeepAliveCancel" {
			return false
		}
		return true
	}
	d.OnInstr = func(c *InstrCtx) (AV, bool) {
		st := c.St
		switch x := c.I.(type) {
		case *ssa.FieldAddr:
			if isClientLock(x) {
				return avSym("lock"), true
			}
		case *ssa.MakeChan:
			return avSym("own"), true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				f, t, ok := clientField(x.X)
				if !ok {
					break
				}
				if isChan(t) {
					st.Auto = st.Auto.Set("ld:"+f, st.Auto.Get("hold"))
					switch st.Auto.Get("F:" + f) {
					case "nil":
						return avNil(), true
					case "own":
						return avSym("own"), true
					}
					if st.Auto.Get("hold") != "1" {
						return avSym("loose:" + f), true
					}
					return avSym("ch:" + f), true
				}
				if isBool(t) && st.Auto.Get("hold") == "1" {
					switch st.Auto.Get("B:" + f) {
					case "0":
						return avInt(0), true
					case "1":
						return avInt(1), true
					}
					return AV{K: kCond, S: "b:" + f, Op: token.NEQ, N: 0}, true
				}
			}
			if x.Op == token.ARROW {
				v := c.av(x.X)
				if v.K == kSym && v.S == "own" {
					st.Auto = st.Auto.Set("can", "1")
				} else if k.root == k.loop {
					k.exchange(st, c.Fn, x.Pos(), "a channel wait")
					if st.Auto.Get("cl") != "" {
						k.fail("cancellable", FnName(c.Fn), x.Pos(), "the keepalive loop waits on a channel without also waiting for its cancel signal", st)
					}
				}
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				break
			}
			l, r := c.av(x.X), c.av(x.Y)
			if r.K == kSym && strings.HasPrefix(r.S, "ch:") {
				l, r = r, l
			}
			if l.K == kSym && r.K == kSym && strings.HasPrefix(l.S, "ch:") && r.S == "own" {
				return AV{K: kCond, S: "eq:" + l.S[3:], Op: x.Op, N: 1}, true
			}
			if l.K == kSym && r.K == kSym && l.S == "own" && r.S == "own" {
				return avBool(x.Op == token.EQL), true
			}
		case *ssa.Select:
			own := -1
			for i, s := range x.States {
				if v := c.av(s.Chan); s.Dir == types.RecvOnly && v.K == kSym && v.S == "own" {
					own = i
				}
			}
			if k.root == k.loop {
				if x.Blocking {
					k.exchange(st, c.Fn, x.Pos(), "a select")
					k.c.Instance("cancellable", FnName(c.Fn))
					if own < 0 && st.Auto.Get("cl") != "" {
						k.fail("cancellable", FnName(c.Fn), x.Pos(), "the keepalive loop waits without a case for the cancel channel it published", st)
					}
					if own >= 0 && st.Auto.Get("pub") != "1" {
						k.fail("cancellable", FnName(c.Fn), x.Pos(), "the channel the keepalive loop waits on was never stored where cancel and disconnect find it", st)
					}
				}
				if own >= 0 {
					if k.checked[c.Fn] == nil {
						k.checked[c.Fn] = map[*ssa.BasicBlock]bool{}
					}
					k.checked[c.Fn][x.Block()] = true
				}
			}
			st.Auto = st.Auto.Set("sel", fmt.Sprint(own))
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Select); ok && x.Index == 0 {
				return avSym("sel"), true
			}
		case *ssa.Store:
			f, t, ok := clientField(x.Addr)
			if !ok || freshBase(x.Addr) {
				break
			}
			v := c.av(x.Val)
			hold := st.Auto.Get("hold") == "1"
			switch {
			case isChan(t) && hold:
				switch {
				case v.K == kNil:
					if st.Auto.Get("F:"+f) != "closed" && st.Auto.Get("F:"+f) != "nil" && st.Auto.Get("ld:"+f) == "1" {
						nn := st.Auto.Get("F:" + f)
						st.Auto = st.Auto.Set("own:"+f, "taken").Set("anytaken", "1")
						if nn == "nn" || nn == "own" {
							st.Auto = st.Auto.Set("T:"+f, "nn")
						}
					}
					st.Auto = st.Auto.Set("F:"+f, "nil")
				case v.K == kSym && v.S == "own":
					if st.Auto.Get("F:"+f) == "nil" && k.root == k.loop && st.Auto.Get("cl") == "" && st.Auto.Get("chold") == "" {
						st.Auto = st.Auto.Set("cl", "any")
						k.c.Instance("single-loop", FnName(c.Fn)+" claims "+f)
					}
					st.Auto = st.Auto.Set("F:"+f, "own").Set("pub", "1")
				default:
					st.Auto = st.Auto.Set("F:"+f, "")
				}
			case isBool(t) && hold:
				switch {
				case v.K == kInt && v.N == 1:
					if st.Auto.Get("B:"+f) == "0" && st.Auto.Get("pc:"+f) == "" {
						st.Auto = st.Auto.Set("cl", f)
						k.c.Instance("single-loop", FnName(c.Fn)+" claims "+f)
					}
					st.Auto = st.Auto.Set("B:"+f, "1")
				case v.K == kInt && v.N == 0:
					st.Auto = st.Auto.Set("B:"+f, "0")
					if k.isClaim(f) {
						st.Auto = st.Auto.Set("pc:"+f, "1")
						k.c.Instance("single-loop", FnName(c.Fn)+" clears "+f)
					}
				}
			}
		}
		return unk, false
	}
	d.OnBranch = func(a Auto, s string, op token.Token, n int64) (Auto, bool) {
		switch {
		case strings.HasPrefix(s, "ch:"):
			f := s[3:]
			taken := a.Get("own:"+f) == "taken"
			if n != nilN {
				return a, true
			}
			if op == token.NEQ {
				if taken {
					if a.Get("T:"+f) == "nil" {
						return a, false
					}
					return a.Set("T:"+f, "nn"), true
				}
				if a.Get("hold") == "1" {
					if a.Get("F:"+f) == "nil" {
						return a, false
					}
					if a.Get("F:"+f) == "" {
						a = a.Set("F:"+f, "nn")
					}
				}
			} else if op == token.EQL {
				if taken {
					if a.Get("T:"+f) == "nn" {
						return a, false
					}
					return a.Set("T:"+f, "nil").Set("att", "1"), true
				}
				if a.Get("hold") == "1" {
					if w := a.Get("F:" + f); w == "nn" || w == "own" || w == "closed" {
						return a, false
					}
					a = a.Set("F:"+f, "nil").Set("att", "1").Set("nochan", "1")
				}
			}
		case strings.HasPrefix(s, "eq:"):
			f := s[3:]
			if op == token.EQL && a.Get("hold") == "1" {
				a = a.Set("F:"+f, "own").Set("ownseen", "1")
			}
		case strings.HasPrefix(s, "b:"):
			f := s[2:]
			if a.Get("hold") == "1" {
				v := ""
				if (op == token.NEQ) == (n == 0) {
					v = "1"
				} else {
					v = "0"
				}
				if w := a.Get("B:" + f); w != "" && w != v {
					return a, false
				}
				a = a.Set("B:"+f, v)
			}
		case s == "cas":
			if (op == token.EQL) == (n == 1) {
				a = a.Set("cl", "any")
			}
		case s == "sel":
			if op == token.EQL && fmt.Sprint(n) == a.Get("sel") {
				a = a.Set("can", "1")
			}
		}
		return a, true
	}
	d.OnCall = func(cc *CallCtx) ([]CallOut, bool) {
		st := cc.St
		switch {
		case strings.HasPrefix(cc.Name, "(*sync.") && len(cc.Args) > 0 && cc.Args[0].K == kSym && cc.Args[0].S == "lock":
			switch {
			case strings.HasSuffix(cc.Name, ").Lock"), strings.HasSuffix(cc.Name, ").RLock"):
				st.Auto = st.Auto.Set("hold", "1")
			case strings.HasSuffix(cc.Name, "nlock"):
				k.endHold(st, cc.Fn, cc.Pos())
			}
			return []CallOut{{Auto: st.Auto, Res: make([]AV, tupleLen(cc.Common()))}}, true
		case cc.Name == "builtin:close":
			v := cc.Args[0]
			cv := cc.Common().Args[0]
			if v.K == kSym && strings.HasPrefix(v.S, "loose:") {
				k.fail("close-once", FnName(cc.Fn)+" "+v.S[6:], cc.Pos(), "the signal channel "+v.S[6:]+" is closed without the client lock: two cancels can close it twice", st)
			} else if v.K == kSym && (strings.HasPrefix(v.S, "ch:") || v.S == "own" && chanField(cv) != "") {
				f := strings.TrimPrefix(v.S, "ch:")
				if v.S == "own" {
					f = chanField(cv)
				}
				k.c.Instance("close-once", FnName(cc.Fn)+" "+f)
				k.closes[cc.Fn] = true
				switch {
				case st.Auto.Get("own:"+f) == "taken":
					if st.Auto.Get("T:"+f) != "nn" {
						k.fail("close-once", FnName(cc.Fn)+" "+f, cc.Pos(), "close of "+f+" which may be nil: cancelling when no loop runs panics", st)
					}
					st.Auto = st.Auto.Set("own:"+f, "").Set("T:"+f, "").Set("att", "1").Set("chold", st.Auto.Get("hold"))
				case st.Auto.Get("hold") != "1":
					k.fail("close-once", FnName(cc.Fn)+" "+f, cc.Pos(), "the signal channel "+f+" is closed after the client lock was released and without having been taken out of the client: two cancels can close it twice", st)
				case st.Auto.Get("F:"+f) == "closed":
					k.fail("close-once", FnName(cc.Fn)+" "+f, cc.Pos(), f+" is closed twice", st)
				case st.Auto.Get("F:"+f) == "nn" || st.Auto.Get("F:"+f) == "own":
					st.Auto = st.Auto.Set("F:"+f, "closed").Set("chold", "1").Set("att", "1")
				default:
					k.fail("close-once", FnName(cc.Fn)+" "+f, cc.Pos(), "close of "+f+" which may be nil: cancelling when no loop runs panics", st)
				}
			}
			return []CallOut{{Auto: st.Auto}}, true
		case strings.HasPrefix(cc.Name, "(*sync/atomic.Bool)") && strings.HasSuffix(cc.Name, "CompareAndSwap"):
			if cc.Args[1].K == kInt && cc.Args[1].N == 0 {
				return []CallOut{{Auto: st.Auto, Res: []AV{{K: kCond, S: "cas", Op: token.EQL, N: 1}}}}, true
			}
		case strings.HasPrefix(cc.Name, "invoke:net.Conn."):
			switch cc.Common().Method.Name() {
			case "Read", "Write":
				k.exchange(st, cc.Fn, cc.Pos(), "an exchange")
			}
		}
		if f := cc.Callee; f != nil && k.exch[f] && !cc.S.D.Inline(f) {
			k.exchange(st, cc.Fn, cc.Pos(), "a request ("+f.Name()+")")
			if k.root == k.loop {
				if k.exchAt[cc.Fn] == nil {
					k.exchAt[cc.Fn] = map[*ssa.BasicBlock]token.Pos{}
				}
				k.exchAt[cc.Fn][cc.Instr.Block()] = cc.Pos()
			}
			n := tupleLen(cc.Common())
			return []CallOut{{Auto: st.Auto, Res: make([]AV, n)}}, true
		}
		return nil, false
	}
	return d
}

// chanField names the client field a closed channel was loaded from or stored to.
func chanField(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if f, t, ok := clientField(u.X); ok && isChan(t) {
			return f
		}
	}
	return ""
}

// isClaim: a flag that some function sets to true after seeing it false (found by a first pass), here any bool field set by the loop.
func (k *keep) isClaim(f string) bool {
	return k.c.Seen["single-loop"] != nil && k.claimFields()[f]
}

var keepClaims map[string]bool

func (k *keep) claimFields() map[string]bool {
	if keepClaims != nil {
		return keepClaims
	}
	m := map[string]bool{}
	// bool fields of the client stored true under a lock in functions the loop reaches without leaving the client's own code
	for f := range k.c.P.Reach(k.loop) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if n, t, ok := clientField(s.Addr); ok && isBool(t) && !freshBase(s.Addr) {
						if cst, ok := s.Val.(*ssa.Const); ok && cst.Value != nil && cst.Value.String() == "true" {
							m[n] = true
						}
					}
				}
			}
		}
	}
	keepClaims = m
	return m
}

func init() {
	rules["C12"] = func(c *Check) {
		c.Rule("close-once", "a signal channel of the client is closed only when, in the same hold of the client lock, it was seen non-nil, and it is taken out of the client before the lock is released")
		c.Rule("single-loop", "the keepalive loop claims the right to run by setting a flag it saw clear in the same hold of the client lock; the flag is cleared only by the loop that owns it or together with telling that loop to stop")
		c.Rule("claimed", "the keepalive loop sends and waits only after claiming")
		c.Rule("cancellable", "every wait of the keepalive loop also waits for the cancel channel it published")
		c.Rule("stops", "after the cancel signal the loop sends and waits no more")
		c.Rule("disconnect-cancels", "a disconnect that started tells the running keepalive loop to stop")
		p := c.P
		loop := p.Method("Client", "KeepAlive")
		if !c.Anchor(loop != nil, "Client.KeepAlive") {
			return
		}
		k := &keep{c: c, loop: loop, foreign: map[string]bool{}, checked: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, closes: map[*ssa.Function]bool{}, exchAt: map[*ssa.Function]map[*ssa.BasicBlock]token.Pos{}}
		keepClaims = nil
		k.exch = p.Relevant(func(f *ssa.Function, i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Write" && typeString(ci.Common().Value.Type()) == "net.Conn"
		})
		touches := func(f *ssa.Function, i ssa.Instruction) bool {
			if v, ok := i.(*ssa.FieldAddr); ok {
				if fn, t, ok := clientField(v); ok && !freshBase(v) {
					return isChan(t) || k.claimFields()[fn]
				}
			}
			return false
		}
		opaque := func(f *ssa.Function) bool {
			return f.Object() != nil && f.Object().Exported() && k.exch[f] && f.Name() != "Disconnect"
		}
		rel := p.RelevantStop(touches, opaque)
		k.sim = NewSim(p, k.domain(), func(key string, pos token.Pos, msg string, tr []string) {})
		var funcs, steps int
		run := func(r *ssa.Function) {
			k.root = r
			s := NewSim(p, k.domain(), k.sim.Rep)
			for _, o := range s.Run(r, "") {
				st := &State{Auto: o.Auto, trace: o.trace}
				if o.Auto.Get("dg") == "1" {
					c.Oblige(o.Auto.Get("att") == "1", "disconnect-cancels", FnName(r), p.Pos(r.Pos()), FnName(r)+" can return without having told a running keepalive loop to stop", st.Trace()...)
				}
			}
			funcs += len(s.Funcs)
			steps += s.Steps
			if len(s.overflow) > 0 {
				c.Findings["analysis|overflow"] = Finding{"analysis", "overflow", "-", "state limit reached in " + strings.Join(s.overflow, ", ") + ": undecided", nil}
			}
		}
		for _, r := range lockRoots(p, rel) {
			if r == loop || r.Pkg != p.Root && pkgOf(r) != p.Root {
				continue
			}
			if !rel[r] {
				continue
			}
			run(r)
		}
		// a disconnect: any operation that stores the disconnecting state
		for _, r := range p.Methods("Client") {
			if r.Name() == "Disconnect" {
				k.runDisconnect(r)
			}
		}
		run(loop)
		// every loop that sends a request also looks at the cancel channel
		looks := map[*ssa.Function]bool{}
		for f := range k.checked {
			looks[f] = true
		}
		for ch := true; ch; {
			ch = false
			for f := range k.exchAt {
				if looks[f] {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if ci, ok := i.(ssa.CallInstruction); ok {
							if t := ci.Common().StaticCallee(); t != nil && looks[t] && !looks[f] {
								looks[f] = true
								ch = true
							}
						}
					}
				}
			}
		}
		for f, bs := range k.exchAt {
			for _, h := range f.Blocks {
				if !isLoopHeader(h) {
					continue
				}
				body := loopBody(h)
				for b, pos := range bs {
					if !body[b] {
						continue
					}
					ok := false
					for bb := range body {
						if k.checked[f][bb] {
							ok = true
						}
						for _, i := range bb.Instrs {
							if ci, isC := i.(ssa.CallInstruction); isC {
								if t := ci.Common().StaticCallee(); t != nil && looks[t] && t != f {
									ok = true
								}
							}
						}
					}
					c.Oblige(ok, "stops", "loop in "+FnName(f), p.Pos(pos), "a loop of the keepalive sends requests without ever looking at its cancel channel")
				}
			}
		}
		c.Info["functions_analysed"] = funcs
		c.Info["abstract_steps"] = steps
		c.Floor("close-once", 1)
		c.Floor("single-loop", 1)
		c.Floor("claimed", 2)
		c.Floor("cancellable", 1)
		c.Floor("disconnect-cancels", 1)
	}
}

func (k *keep) runDisconnect(r *ssa.Function) {
	d := k.domain()
	inner := d.OnInstr
	d.OnInstr = func(c *InstrCtx) (AV, bool) {
		if s, ok := c.I.(*ssa.Store); ok {
			if f, _, ok := clientField(s.Addr); ok && f == "connStatus" {
				if v := c.av(s.Val); v.K == kInt && v.N == 3 {
					c.St.Auto = c.St.Auto.Set("dg", "1")
				}
			}
		}
		return inner(c)
	}
	k.root = r
	s := NewSim(k.c.P, d, k.sim.Rep)
	for _, o := range s.Run(r, "") {
		st := &State{Auto: o.Auto, trace: o.trace}
		if o.Auto.Get("dg") == "1" {
			k.c.Oblige(o.Auto.Get("att") == "1", "disconnect-cancels", FnName(r), k.c.P.Pos(r.Pos()), FnName(r)+" can return without having told a running keepalive loop to stop", st.Trace()...)
		}
	}
}
