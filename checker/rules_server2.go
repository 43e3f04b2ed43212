package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tableRemovals: what each function that shrinks the connection table does to the entries it drops.
func tableRemovals(c *Check) {
	p := c.P
	for _, f := range p.SrcFuncs(p.Root) {
		var stores []*ssa.Store
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if t, fl, ok := fieldOf(s.Addr); ok && t == "serverConnectionManager" && fl == "Connections" {
						stores = append(stores, s)
					}
				}
			}
		}
		if len(stores) == 0 {
			continue
		}
		loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, b := range f.Blocks {
			if isLoopHeader(b) {
				loops[b] = loopBody(b)
			}
		}
		marks := openFalse(f)
		filters := false
		// a loop that collects the entries to keep
		for h, body := range loops {
			app := map[*ssa.BasicBlock]bool{}
			for b := range body {
				for _, i := range b.Instrs {
					if call, ok := i.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && connSlice(call.Type()) {
							app[b] = true
						}
					}
				}
			}
			if len(app) == 0 {
				continue
			}
			feeds := false
			for _, s := range stores {
				if !body[s.Block()] {
					feeds = true
				}
			}
			if !feeds {
				continue
			}
			filters = true
			// every way through one iteration either keeps the entry or marks it closed, never both
			ok := true
			var walk func(b *ssa.BasicBlock, kept, closed bool, seen map[*ssa.BasicBlock]bool)
			walk = func(b *ssa.BasicBlock, kept, closed bool, seen map[*ssa.BasicBlock]bool) {
				if app[b] {
					kept = true
				}
				for _, m := range marks {
					if m.Block() == b {
						closed = true
					}
				}
				for _, s := range b.Succs {
					switch {
					case s == h:
						if b != h && kept == closed {
							ok = false
						}
					case !body[s] || seen[s]:
					default:
						n := map[*ssa.BasicBlock]bool{s: true}
						for k := range seen {
							n[k] = true
						}
						walk(s, kept, closed, n)
					}
				}
			}
			walk(h, false, false, map[*ssa.BasicBlock]bool{h: true})
			c.Oblige(ok, "removed-means-closed", "filter in "+FnName(f), p.Pos(f.Pos()), "an entry can leave the table without being marked closed (its I/O goes on), or be marked closed and stay")
		}
		for _, s := range stores {
			kind, idx := removalKind(s)
			site := "removal in " + FnName(f)
			switch kind {
			case "append", "fresh", "":
				continue // adding, or the whole table (Init)
			case "filter":
				if pred := deletePredicate(s); pred != nil {
					ok, known := marksDeleted(pred, len(marks) > 0)
					if known {
						c.Oblige(ok, "removed-means-closed", "filter in "+FnName(f), p.Pos(s.Pos()), "an entry can leave the table without being marked closed (its I/O goes on), or be marked closed and stay")
					}
					continue
				}
				if !filters && !connGrow(s) {
					c.Fail("removes-one", site, p.Pos(s.Pos()), "what is left of the table after a removal cannot be related to what was in it")
				}
				continue
			}
			dom := false
			for _, m := range marks {
				if m.Block() == s.Block() || m.Block().Dominates(s.Block()) {
					dom = true
				}
			}
			c.Oblige(dom, "removed-means-closed", site, p.Pos(s.Pos()), "an entry leaves the table without being marked closed: its I/O goes on")
			c.Oblige(idx, "removes-one", site, p.Pos(s.Pos()), "a removal does not take out exactly the entry that matched")
		}
	}
}

func connSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeName(deref(s.Elem())) == "serverConnection"
}

// deletePredicate is the function that tells slices.DeleteFunc which entries to take out.
func deletePredicate(s *ssa.Store) *ssa.Function {
	call, ok := s.Val.(*ssa.Call)
	if !ok || len(call.Call.Args) != 2 {
		return nil
	}
	switch x := call.Call.Args[1].(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	}
	return nil
}

// marksDeleted: on every way through the predicate the entry is marked closed exactly when the answer
// is to delete it.
// before: the caller marks entries as well, before it asks.
func marksDeleted(f *ssa.Function, before bool) (ok, known bool) {
	marks := openFalse(f)
	ok, known = true, len(f.Blocks) > 0
	var walk func(b, prev *ssa.BasicBlock, closed bool, d int)
	walk = func(b, prev *ssa.BasicBlock, closed bool, d int) {
		if d > 30 {
			known = false
			return
		}
		for _, m := range marks {
			if m.Block() == b {
				closed = true
			}
		}
		if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
			v := r.Results[0]
			if ph, isP := v.(*ssa.Phi); isP && ph.Block() == b {
				for i, p := range b.Preds {
					if p == prev {
						v = ph.Edges[i]
					}
				}
			}
			k, isK := v.(*ssa.Const)
			if !isK {
				if len(marks) == 0 && !before {
					ok = false // whatever it answers, nothing is marked
				} else {
					known = false
				}
				return
			}
			if (k.Value.String() == "true") != closed {
				if before {
					known = false
					return
				}
				ok = false
			}
			return
		}
		for _, s := range b.Succs {
			walk(s, b, closed, d+1)
		}
	}
	walk(f.Blocks[0], nil, false, 0)
	return ok, known
}

func connGrow(s *ssa.Store) bool { return false }

// openFalse lists the stores of false to an entry's Open flag in f.
func openFalse(f *ssa.Function) []*ssa.Store {
	var out []*ssa.Store
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if t, fl, ok := fieldOf(s.Addr); ok && t == "serverConnection" && fl == "Open" {
					if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" {
						out = append(out, s)
					}
				}
			}
		}
	}
	return out
}

// removalKind classifies the value stored as the new table: "append" (one more), "fresh" (all gone), "cut"
// (one entry taken out, the second result telling whether it is the one at the index that was examined), "filter".
func removalKind(s *ssa.Store) (string, bool) {
	isTable := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		t, fl, ok := fieldOf(u.X)
		return ok && t == "serverConnectionManager" && fl == "Connections"
	}
	lenMinus1 := func(v ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.SUB {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Int64() != 1 {
			return false
		}
		call, ok := b.X.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && isTable(call.Call.Args[0])
	}
	// the index of the entry whose flag was cleared or identifiers were compared
	entryIdx := func(i ssa.Value) bool {
		for _, b := range s.Parent().Blocks {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == i && connSlice(ia.X.Type()) {
					for _, r := range *ia.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.Referrers() != nil {
							for _, r2 := range *u.Referrers() {
								if _, ok := r2.(*ssa.FieldAddr); ok {
									return true
								}
							}
						}
					}
				}
			}
		}
		return false
	}
	switch v := s.Val.(type) {
	case *ssa.MakeSlice:
		return "fresh", true
	case *ssa.Const:
		return "fresh", true
	case *ssa.Slice:
		if _, ok := v.X.(*ssa.Alloc); ok {
			return "fresh", true
		}
		if isTable(v.X) && v.Low == nil && v.High != nil && lenMinus1(v.High) {
			// the last entry is cut off: it must have been moved over the one removed
			for _, b := range s.Parent().Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && (b == s.Block() || b.Dominates(s.Block())) {
						if ia, ok := st.Addr.(*ssa.IndexAddr); ok && isTable(ia.X) && entryIdx(ia.Index) {
							if u, ok := st.Val.(*ssa.UnOp); ok {
								if ib, ok := u.X.(*ssa.IndexAddr); ok && isTable(ib.X) && lenMinus1(ib.Index) {
									return "cut", true
								}
							}
						}
					}
				}
			}
			return "cut", false
		}
		return "cut", false
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			first := v.Call.Args[0]
			if isTable(first) {
				return "append", true
			}
			if sl, ok := first.(*ssa.Slice); ok && isTable(sl.X) && sl.Low == nil && sl.High != nil {
				if s2, ok := v.Call.Args[1].(*ssa.Slice); ok && isTable(s2.X) && s2.High == nil && s2.Low != nil {
					if b, ok := s2.Low.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == sl.High {
						if k, ok := b.Y.(*ssa.Const); ok && k.Int64() == 1 {
							return "cut", entryIdx(sl.High)
						}
					}
				}
				return "cut", false
			}
		}
		if f := v.Call.StaticCallee(); f != nil && strings.HasPrefix(fullName(f), "slices.Delete") && len(v.Call.Args) == 3 {
			if strings.HasPrefix(fullName(f), "slices.DeleteFunc") {
				return "filter", true
			}
			lo, hi := v.Call.Args[1], v.Call.Args[2]
			if b, ok := hi.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == lo {
				if k, ok := b.Y.(*ssa.Const); ok && k.Int64() == 1 && isTable(v.Call.Args[0]) {
					return "cut", entryIdx(lo)
				}
			}
			return "cut", false
		}
	}
	return "filter", true
}

// ioLoops: goroutines that keep sending on behalf of a connection of the table.
func ioLoops(c *Check) {
	p := c.P
	for _, root := range sessionRoots(p) {
		for f := range p.Reach(root) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					g, ok := i.(*ssa.Go)
					if !ok || g.Common().StaticCallee() == nil {
						continue
					}
					t := g.Common().StaticCallee()
					d := &Domain{Name: "io"}
					d.OnInstr = func(ic *InstrCtx) (AV, bool) {
						if u, ok := ic.I.(*ssa.UnOp); ok && u.Op == token.MUL {
							if t, fl, ok := fieldOf(u.X); ok && t == "serverConnection" && fl == "Open" {
								return avSym("open"), true
							}
						}
						return unk, false
					}
					openFn := func(f *ssa.Function) bool {
						if f == nil || !p.InLib(f) || f.Signature.Results().Len() != 1 || !isBool(f.Signature.Results().At(0).Type()) {
							return false
						}
						for _, b := range f.Blocks {
							for _, i := range b.Instrs {
								if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL {
									if t, fl, ok := fieldOf(u.X); ok && t == "serverConnection" && fl == "Open" {
										return true
									}
								}
							}
						}
						return false
					}
					d.OnCall = func(cc *CallCtx) ([]CallOut, bool) {
						a := cc.St.Auto
						if openFn(cc.Callee) && plainOpen(cc.Callee) {
							return []CallOut{{Auto: a.Set("open", "1"), Res: []AV{avBool(true)}}, {Auto: a.Set("open", ""), Res: []AV{avBool(false)}}}, true
						}
						if cc.Common().IsInvoke() && strings.HasPrefix(cc.Common().Method.Name(), "Write") && strings.HasPrefix(typeString(cc.Common().Value.Type()), "net.") {
							c.Oblige(a.Get("open") == "1", "io-stops", "message sent in "+FnName(cc.Fn), p.Pos(cc.Pos()), "an I/O message can be sent for a connection that was not seen open since the last message: it goes on after the connection is closed", cc.St.Trace()...)
							return []CallOut{{Auto: a.Set("open", "")}}, true
						}
						return nil, false
					}
					NewSim(p, d, nil).Run(t, "")
				}
			}
		}
	}
}

// plainOpen: a predicate that returns the flag itself.
func plainOpen(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			var vs []ssa.Value
			var flat func(v ssa.Value, d int)
			flat = func(v ssa.Value, d int) {
				if ph, ok := v.(*ssa.Phi); ok && d < 4 {
					for _, e := range ph.Edges {
						flat(e, d+1)
					}
					return
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if al, ok := u.X.(*ssa.Alloc); ok && al.Referrers() != nil { // named result or spilled because of defer
						for _, r := range *al.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == al {
								flat(s.Val, d+1)
							}
						}
						return
					}
				}
				vs = append(vs, v)
			}
			flat(r.Results[0], 0)
			for _, v := range vs {
				if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "false" {
					continue
				}
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					return false
				}
				if t, fl, ok := fieldOf(u.X); !ok || t != "serverConnection" || fl != "Open" {
					return false
				}
			}
		}
	}
	return true
}

// listenerRules: the serving entry points and their loops.
func listenerRules(c *Check) {
	p := c.P
	isWait := func(cm *ssa.CallCommon) bool {
		if !cm.IsInvoke() {
			return false
		}
		m, t := cm.Method.Name(), typeString(cm.Value.Type())
		return m == "Accept" && t == "net.Listener" || m == "ReadFrom" && t == "net.PacketConn"
	}
	waits := map[*ssa.Function]bool{}
	listens := map[*ssa.Function]bool{}
	for _, f := range p.SrcFuncs(p.Root) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if isWait(ci.Common()) {
						waits[f] = true
					}
					if strings.HasPrefix(calleeName(ci.Common()), "net.Listen") {
						listens[f] = true
					}
				}
			}
		}
	}
	sim := func(root *ssa.Function, end func(o CallOut, st *State)) {
		d := &Domain{Name: "listener"}
		d.OnInstr = func(ic *InstrCtx) (AV, bool) {
			switch x := ic.I.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if t, fl, ok := fieldOf(x.X); ok {
						if k := ic.St.Auto.Get("A." + t + "." + fl); k != "" {
							return avSym("lis" + k), true
						}
					}
				}
			case *ssa.Store:
				if t, fl, ok := fieldOf(x.Addr); ok {
					if v := ic.av(x.Val); v.K == kSym && strings.HasPrefix(v.S, "lis") {
						ic.St.Auto = ic.St.Auto.Set("A."+t+"."+fl, v.S[3:])
					} else {
						ic.St.Auto = ic.St.Auto.Set("A."+t+"."+fl, "")
					}
				}
			case *ssa.Send:
				ic.St.Auto = ic.St.Auto.Set("sent", "1")
			}
			return unk, false
		}
		d.OnCall = func(cc *CallCtx) ([]CallOut, bool) {
			a := cc.St.Auto
			cm := cc.Common()
			switch {
			case isWait(cm):
				c.Oblige(a.Get("lerr") == "", "stops-on-failure", typeName(cm.Value.Type())+"."+cm.Method.Name()+" in "+FnName(cc.Fn), p.Pos(cc.Pos()), "a serving loop goes on waiting on a listener that failed for good: it spins", cc.St.Trace()...)
				n := tupleLen(cm)
				ok, er := make([]AV, n), make([]AV, n)
				ok[n-1], er[n-1] = avNil(), avNonNil()
				return []CallOut{{Auto: a, Res: ok}, {Auto: a.Set("lerr", "1"), Res: er}}, true
			case cm.IsInvoke() && (cm.Method.Name() == "Temporary" || cm.Method.Name() == "Timeout"):
				return []CallOut{{Auto: a.Set("lerr", ""), Res: []AV{avBool(true)}}, {Auto: a, Res: []AV{avBool(false)}}}, true
			case strings.HasPrefix(cc.Name, "net.Listen"):
				k := fmt.Sprintf("%d", cc.Pos())
				return []CallOut{{Auto: a.Set("L."+k, "open"), Res: []AV{avSym("lis" + k), avNil()}}, {Auto: a, Res: []AV{avNil(), avNonNil()}}}, true
			case cm.IsInvoke() && cm.Method.Name() == "Close":
				if v := cc.Args[0]; v.K == kSym && strings.HasPrefix(v.S, "lis") {
					a = a.Set("L."+v.S[3:], "")
				}
				return []CallOut{{Auto: a, Res: []AV{avNil()}}, {Auto: a, Res: []AV{avNonNil()}}}, true
			}
			return nil, false
		}
		d.MustEnter = func(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool { return false }
		s := NewSim(p, d, nil)
		for _, o := range s.Run(root, "") {
			end(o, &State{Auto: o.Auto, trace: o.trace})
		}
	}
	for f := range waits {
		if f.Parent() == nil {
			sim(f, func(o CallOut, st *State) {
				if e, ok := ErrAV(f.Signature, o.Res); ok {
					c.Oblige(e.K == kNonNil, "failure-reported", FnName(f), p.Pos(f.Pos()), "a serving loop can end without saying why: the caller waiting for it never learns", st.Trace()...)
				}
			})
		}
	}
	rel := map[*ssa.Function]bool{}
	for _, f := range p.SrcFuncs(p.Root) {
		if f.Object() == nil || !f.Object().Exported() || f.Parent() != nil {
			continue
		}
		for g := range p.Reach(f) {
			if listens[g] {
				rel[f] = true
			}
		}
	}
	for f := range rel {
		sim(f, func(o CallOut, st *State) {
			open := ""
			for _, k := range o.Auto.Keys() {
				if strings.HasPrefix(k, "L.") && o.Auto.Get(k) == "open" {
					open = k
				}
			}
			c.Oblige(open == "", "listener-released", FnName(f), p.Pos(f.Pos()), "serving can end, or fail to start, with a listener it opened still open", st.Trace()...)
		})
		// goroutines of the entry point that run a serving loop
		for g := range p.Reach(f) {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					gi, ok := i.(*ssa.Go)
					if !ok || gi.Common().StaticCallee() == nil {
						continue
					}
					t := gi.Common().StaticCallee()
					run := false
					for h := range p.Reach(t) {
						run = run || waits[h]
					}
					if !run {
						continue
					}
					sim(t, func(o CallOut, st *State) {
						c.Oblige(o.Auto.Get("lerr") == "" || o.Auto.Get("sent") == "1", "failure-reported", FnName(t), p.Pos(t.Pos()), "a serving loop that ended is not reported to the caller waiting for it", st.Trace()...)
					})
				}
			}
		}
	}
}
