package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// staleUses reports changes of a guarded field whose position or new value was worked out from the field in an earlier hold
// of its lock: another goroutine may have changed the field in between. A change that looks at the element again is fine.
func staleUses(c *Check) {
	byLock := map[string]bool{}
	gof := map[string]guard{}
	for _, g := range guards {
		byLock[g.lock] = true
		gof[g.typ+"."+g.field] = g
	}
	for _, f := range c.P.SrcFuncs() {
		var acq []ssa.Instruction
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if l, on := lockCall(i); on && byLock[l] {
					acq = append(acq, i)
				}
			}
		}
		if len(acq) == 0 {
			continue
		}
		cur := currentHolds(f)
		guardedLoad := func(v ssa.Value) (guard, bool) {
			if t, n, ok := loadedField(v); ok {
				g, ok := gof[t+"."+n]
				return g, ok
			}
			return guard{}, false
		}
		ctrl := controlsOf(f)
		deps := func(g guard, roots ...ssa.Value) []ssa.Instruction {
			var out []ssa.Instruction
			seen := map[ssa.Value]bool{}
			work := append([]ssa.Value{}, roots...)
			for len(work) > 0 {
				v := work[len(work)-1]
				work = work[:len(work)-1]
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				if lg, ok := guardedLoad(v); ok && lg.typ == g.typ && lg.field == g.field {
					out = append(out, v.(ssa.Instruction))
					continue
				}
				switch x := v.(type) {
				case *ssa.BinOp:
					work = append(work, x.X, x.Y)
				case *ssa.Convert:
					work = append(work, x.X)
				case *ssa.ChangeType:
					work = append(work, x.X)
				case *ssa.Slice:
					work = append(work, x.X, x.Low, x.High)
				case *ssa.Phi:
					work = append(work, x.Edges...)
					if isIntegerType(x.Type()) || isBool(x.Type()) {
						for _, e := range x.Block().Preds {
							for _, k := range ctrl[e] {
								work = append(work, k.Cond)
							}
						}
					}
				case *ssa.UnOp:
					switch a := x.X.(type) {
					case *ssa.IndexAddr:
						work = append(work, a.X)
					case *ssa.FieldAddr:
						work = append(work, a.X)
					case *ssa.Alloc:
						for _, r := range *a.Referrers() {
							if st, ok := r.(*ssa.Store); ok && st.Addr == a {
								work = append(work, st.Val)
							}
						}
					default:
						if x.Op != token.MUL {
							work = append(work, x.X)
						}
					}
				case *ssa.Lookup:
					work = append(work, x.X)
				case *ssa.Extract:
					switch t := x.Tuple.(type) {
					case *ssa.Lookup:
						work = append(work, t.X)
					case *ssa.Next:
						if r, ok := t.Iter.(*ssa.Range); ok {
							work = append(work, r.X)
						}
					}
				case *ssa.Call:
					if n := calleeName(x.Common()); strings.HasPrefix(n, "builtin:") {
						work = append(work, x.Call.Args...)
					} else if h := x.Call.StaticCallee(); h != nil && readsLocked(c.P, h, g) {
						out = append(out, x)
					}
				}
			}
			return out
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var g guard
				var ok bool
				var what string
				var vals []ssa.Value
				switch x := i.(type) {
				case *ssa.Store:
					if fa, isFA := x.Addr.(*ssa.FieldAddr); isFA {
						t, n, _ := fieldOf(fa)
						if g, ok = gof[t+"."+n]; ok && !freshBase(fa.X) {
							what = "write"
							vals = append(vals, x.Val)
						} else {
							ok = false
						}
					} else if ia, isIA := x.Addr.(*ssa.IndexAddr); isIA {
						if g, ok = guardedLoad(ia.X); ok {
							what = "element write"
							vals = append(vals, ia.Index)
							if plainValue(x.Val.Type()) {
								vals = append(vals, x.Val)
							}
						}
					}
				case *ssa.MapUpdate:
					if g, ok = guardedLoad(x.Map); ok {
						what = "entry write"
						if plainValue(x.Value.Type()) {
							vals = append(vals, x.Value)
						}
					}
				}
				if !ok || len(cur[i][g.lock]) == 0 {
					continue
				}
				here := cur[i][g.lock]
				again := false
				for _, k := range ctrl[b] {
					if !meet(cur[ssa.Instruction(k)][g.lock], here) {
						continue
					}
					if comparesElement(k.Cond, func(v ssa.Value) bool {
						_, ok := guardedLoad(v)
						return ok && meet(cur[v.(ssa.Instruction)][g.lock], here)
					}) {
						again = true
					}
					if what != "write" || isBasicType(g, i) {
						vals = append(vals, k.Cond)
					}
				}
				construct := fmt.Sprintf("%s.%s %s in %s", g.typ, g.field, what, FnName(f))
				c.Instance("one-hold", construct)
				if again {
					continue
				}
				if what == "write" && isBasicType(g, i) {
					fresh := false
					var old []ssa.Value
					for _, k := range ctrl[b] {
						for _, r := range deps(g, k.Cond) {
							fresh = fresh || meet(cur[r][g.lock], here)
						}
						old = append(old, k.Cond)
					}
					if !fresh {
						vals = append(vals, old...)
					}
				}
				for _, r := range deps(g, vals...) {
					_, call := r.(*ssa.Call)
					if h := cur[r][g.lock]; call && len(h) == 0 || len(h) > 0 && !meet(h, here) {
						c.Fail("one-hold", construct, c.P.Pos(i.Pos()), fmt.Sprintf("%s.%s is changed according to what was read (%s) before %s was released and taken again: another goroutine may have changed it in between", g.typ, g.field, c.P.Pos(r.Pos()), g.lock))
						break
					}
				}
			}
		}
	}
}

// readsLocked: a function that reads the field under its lock and answers something simple about it.
func readsLocked(p *Prog, f *ssa.Function, g guard) bool {
	res := f.Signature.Results()
	if !p.InLib(f) || res.Len() != 1 || len(f.Blocks) > 3 {
		return false
	}
	if _, ok := res.At(0).Type().Underlying().(*types.Basic); !ok {
		return false
	}
	locks, reads := false, false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if l, on := lockCall(i); on && l == g.lock {
				locks = true
			}
			if u, ok := i.(*ssa.UnOp); ok {
				if t, n, ok := loadedField(u); ok && t == g.typ && n == g.field {
					reads = true
				}
			}
		}
	}
	return locks && reads
}

// isBasicType: a status field, whose change is decided by tests of the field.
func isBasicType(g guard, i ssa.Instruction) bool {
	st, ok := i.(*ssa.Store)
	if !ok {
		return false
	}
	_, ok = st.Val.Type().Underlying().(*types.Basic)
	return ok
}

func plainValue(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic, *types.Slice:
		return true
	}
	return false
}

func isIntegerType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func meet(a, b map[ssa.Instruction]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

// comparesElement: the condition compares an element of the list (or a field of it), read in this hold.
func comparesElement(v ssa.Value, load func(ssa.Value) bool) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	var elem func(v ssa.Value, d int) bool
	elem = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			return elem(x.X, d+1)
		case *ssa.FieldAddr:
			return elem(x.X, d+1)
		case *ssa.IndexAddr:
			return load(x.X)
		case *ssa.Lookup:
			return load(x.X)
		case *ssa.Extract:
			if l, ok := x.Tuple.(*ssa.Lookup); ok {
				return load(l.X)
			}
		}
		return false
	}
	return elem(b.X, 0) || elem(b.Y, 0)
}

// lockCall: the lock an instruction acquires (on) or releases.
func lockCall(i ssa.Instruction) (lock string, on bool) {
	call, ok := i.(*ssa.Call)
	if !ok || len(call.Call.Args) == 0 {
		return "", false
	}
	n := calleeName(call.Common())
	if !strings.HasPrefix(n, "(*sync.") {
		return "", false
	}
	fa, ok := call.Call.Args[0].(*ssa.FieldAddr)
	if !ok {
		return "", false
	}
	t, f, _ := fieldOf(fa)
	switch {
	case strings.HasSuffix(n, ".Lock"), strings.HasSuffix(n, ".RLock"):
		return t + "." + f, true
	case strings.HasSuffix(n, "Unlock"):
		return t + "." + f, false
	}
	return "", false
}

// currentHolds: for every instruction, the acquisitions of each lock that may be the current one.
func currentHolds(f *ssa.Function) map[ssa.Instruction]map[string]map[ssa.Instruction]bool {
	type holds = map[string]map[ssa.Instruction]bool
	in := map[*ssa.BasicBlock]holds{}
	out := map[ssa.Instruction]holds{}
	clone := func(h holds) holds {
		n := holds{}
		for k, v := range h {
			n[k] = v
		}
		return n
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			h := holds{}
			for _, p := range b.Preds {
				for l, s := range in[p] {
					if h[l] == nil {
						h[l] = map[ssa.Instruction]bool{}
					}
					for i := range s {
						h[l][i] = true
					}
				}
			}
			for _, i := range b.Instrs {
				out[i] = h
				if l, on := lockCall(i); l != "" {
					h = clone(h)
					if on {
						h[l] = map[ssa.Instruction]bool{i: true}
					} else {
						delete(h, l)
					}
				}
			}
			n, o := 0, 0
			for _, s := range h {
				n += len(s)
			}
			for _, s := range in[b] {
				o += len(s)
			}
			if n != o || in[b] == nil {
				in[b] = h
				changed = true
			}
		}
	}
	return out
}

// controlsOf: the branches that decide whether a block is reached.
func controlsOf(f *ssa.Function) map[*ssa.BasicBlock][]*ssa.If {
	out := map[*ssa.BasicBlock][]*ssa.If{}
	for _, b := range f.Blocks {
		for d := b; d != nil; d = d.Idom() {
			if d == b {
				continue
			}
			k, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			// only a branch one side of which avoids b.
			if !pathTo(d.Succs[0], b, d) || !pathTo(d.Succs[1], b, d) {
				out[b] = append(out[b], k)
			}
		}
		if k, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			out[b] = append(out[b], k)
		}
	}
	return out
}

// pathTo: to is reachable from from without passing through not.
func pathTo(from, to, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{not: true}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(from)
}
