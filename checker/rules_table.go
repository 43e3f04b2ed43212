package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C29: the data table buffer. A typestate over what the controller has acknowledged (creation, addition,
// removal, deletion) decides which requests may be sent and which of the buffer's own records may change;
// a dataflow over the loops that walk the tags decides that one element's bytes, size and name stay together.

const (
	tblCreate = 0x08
	tblDelete = 0x09
	tblRead   = 0x4C
	tblAdd    = 0x4E
	tblRemove = 0x4F
)

type dataTable struct {
	c     *Check
	root  *ssa.Function
	outer bool // the root is one of the buffer's own operations
	reach map[*ssa.Function]bool
	scan  map[*ssa.BasicBlock]bool
}

func (k *dataTable) fail(rule, construct string, pos token.Pos, msg string, st *State) {
	k.c.Fail(rule, construct, k.c.P.Pos(pos), msg, st.Trace()...)
}

// tableSend is the service of a request to the controller, -1 if it is not a constant.
func tableSend(c *ssa.CallCommon) (int64, bool) {
	if calleeName(c) != "(*"+modPath+".Client).GenericCIPMessage" || len(c.Args) < 3 {
		return 0, false
	}
	v := c.Args[1]
	for {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		if cv, ok := v.(*ssa.ChangeType); ok {
			v = cv.X
			continue
		}
		break
	}
	n, ok := constInt64(v)
	if !ok {
		return -1, true
	}
	return n, true
}

func tagField(v ssa.Value) string {
	if t, f, ok := fieldOf(v); ok && t == "DataTableBufferTag" {
		return f
	}
	return ""
}

func bufField(v ssa.Value) string {
	if t, f, ok := fieldOf(v); ok && t == "DataTableBuffer" {
		return f
	}
	return ""
}

// loadOf is the field a value was loaded from.
func loadOf(v ssa.Value, is func(ssa.Value) string) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return is(x.X)
		}
	case *ssa.Field:
		return is(x)
	}
	return ""
}

// tagsChange says what storing v in buf.tags does to the list: "add", "remove", "" (nothing new).
func tagsChange(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		out := ""
		for _, e := range x.Edges {
			switch r := tagsChange(e, seen); {
			case r == "add" || out == "add":
				out = "add"
			case r != "":
				out = r
			}
		}
		return out
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return ""
		}
		if r := tagsChange(x.X, seen); r != "" {
			return r
		}
		if x.High != nil || x.Low != nil {
			return "remove"
		}
		return ""
	case *ssa.Call:
		switch n := calleeName(x.Common()); {
		case n == "builtin:append":
			r := tagsChange(x.Call.Args[0], map[ssa.Value]bool{})
			if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					// elements written out: new ones unless all are taken from a list
					if copiedElems(al) {
						return "remove"
					}
					return "add"
				}
				if loadOf(sl.X, bufField) == "tags" {
					if r == "add" {
						return r
					}
					return "remove"
				}
			}
			if loadOf(x.Call.Args[1], bufField) == "tags" && r == "" {
				return ""
			}
			return "add"
		case n == "slices.Delete", n == "slices.DeleteFunc":
			return "remove"
		case n == "slices.Clone", n == "slices.Clip", n == "slices.Grow":
			return tagsChange(x.Call.Args[0], seen)
		}
		return "add"
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			out := ""
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					if r := tagsChange(s.Val, seen); r == "add" || out == "" {
						out = r
					}
				}
			}
			return out
		}
	}
	return ""
}

// copiedElems: every element of the array was loaded whole from elsewhere.
func copiedElems(al *ssa.Alloc) bool {
	n := 0
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			s, ok := q.(*ssa.Store)
			if !ok || s.Addr != ia {
				return false
			}
			u, ok := s.Val.(*ssa.UnOp)
			if !ok {
				return false
			}
			if lit, ok := u.X.(*ssa.Alloc); ok {
				whole := false
				for _, w := range *lit.Referrers() {
					if s2, ok := w.(*ssa.Store); ok && s2.Addr == lit {
						if l, ok := s2.Val.(*ssa.UnOp); ok {
							_, whole = l.X.(*ssa.IndexAddr)
						}
					}
				}
				if !whole {
					return false
				}
			} else if _, ok := u.X.(*ssa.IndexAddr); !ok {
				return false
			}
			n++
		}
	}
	return n > 0
}

func (k *dataTable) acked(a Auto, svc int64) bool { return a.Get(fmt.Sprintf("ex:%02x", svc)) == "ok" }

func (k *dataTable) domain() *Domain {
	d := &Domain{Name: "table"}
	d.Inline = func(f *ssa.Function) bool { return k.reach[f] }
	d.TrackField = func(t, f string) bool { return t == "DataTableBuffer" && (f == "created" || f == "synched") }
	d.LoadSym = func(t, f string, ins ssa.Instruction) (AV, bool) {
		if t == "DataTableBufferTag" && f == "synched" {
			return AV{K: kCond, S: "ts", Op: token.NEQ, N: 0}, true
		}
		return unk, false
	}
	d.OnBranch = func(a Auto, s string, op token.Token, n int64) (Auto, bool) {
		switch s {
		case "ts":
			if (op == token.EQL) == (n == 0) {
				a = a.Set("unsy", "1")
			}
		case "len":
			ok := true
			switch op {
			case token.EQL:
				ok = n != 0
			case token.LSS:
				ok = n > 1
			case token.LEQ:
				ok = n > 0
			}
			return a, ok
		}
		return a, true
	}
	d.OnInstr = func(c *InstrCtx) (AV, bool) {
		st := c.St
		if k.scan[c.I.Block()] && st.Auto.Get("scan") == "" {
			st.Auto = st.Auto.Set("scan", "1")
		}
		switch x := c.I.(type) {
		case *ssa.BinOp:
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				l, r := c.av(p[0]), c.av(p[1])
				if l.K == kSym && l.S == "len" && r.K == kInt {
					op := x.Op
					if p[0] == x.Y {
						op = swapOp(op)
					}
					switch op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						return AV{K: kCond, S: "len", Op: op, N: r.N}, true
					}
				}
			}
		case *ssa.Store:
			if f := tagField(x.Addr); f == "synched" || f == "batchID" {
				if loadOf(x.Val, tagField) == f {
					break
				}
				v := c.av(x.Val)
				if v.K == kInt && v.N == 0 {
					break
				}
				what := FnName(c.Fn) + " sets " + f
				k.c.Instance("acknowledged", what)
				if !k.acked(st.Auto, tblAdd) {
					k.fail("acknowledged", what, x.Pos(), "a tag is recorded as part of the table ("+f+") on a path on which the controller has not acknowledged adding it", st)
				}
				break
			}
			f := bufField(x.Addr)
			if f == "" {
				break
			}
			v := c.av(x.Val)
			what := FnName(c.Fn) + " sets " + f
			switch f {
			case "created":
				if v.K == kInt && v.N == 0 {
					if st.Auto.Get("@DataTableBuffer.created") == "1" {
						st.Auto = st.Auto.Set("was", "1")
					}
					break
				}
				k.c.Instance("created", what)
				if !k.acked(st.Auto, tblCreate) {
					k.fail("created", what, x.Pos(), "the buffer is recorded as created on a path on which the controller has not acknowledged creating it", st)
				}
			case "instanceID":
				if loadOf(x.Val, bufField) == f {
					break
				}
				k.c.Instance("created", what)
				if !k.acked(st.Auto, tblCreate) {
					k.fail("created", what, x.Pos(), "the buffer's instance is set on a path on which the controller has not acknowledged creating one", st)
				}
			case "synched":
				if v.K == kInt && v.N == 0 {
					break
				}
				k.c.Instance("synched", what)
				switch {
				case k.acked(st.Auto, tblAdd):
				case st.Auto.Get("unsy") == "" && st.Auto.Get("scan") == "1":
				default:
					k.fail("synched", what, x.Pos(), "the buffer is recorded as in step with the controller although a tag of it may not have been acknowledged", st)
				}
				st.Auto = st.Auto.Set("added", "")
			case "tags":
				switch tagsChange(x.Val, map[ssa.Value]bool{}) {
				case "add":
					k.c.Instance("pending", FnName(c.Fn)+" adds a tag")
					st.Auto = st.Auto.Set("added", FnName(c.Fn)).Set("unsy", "").Set("scan", "").Set("ex:4e", "")
				case "remove":
					what := FnName(c.Fn) + " removes a tag"
					k.c.Instance("removed", what)
					if !k.acked(st.Auto, tblRemove) && (st.Auto.Get("unsy") == "" || st.Auto.Get("ex:4f") != "") {
						k.fail("removed", what, x.Pos(), "a tag is dropped from the buffer on a path on which it may still be in the controller's table", st)
					}
				}
			}
		}
		return unk, false
	}
	d.OnCall = func(cc *CallCtx) ([]CallOut, bool) {
		st := cc.St
		if svc, ok := tableSend(cc.Common()); ok {
			what := fmt.Sprintf("service %#02x sent by %s", svc, FnName(cc.Fn))
			if k.outer {
				k.c.Instance("guarded", FnName(k.root)+": "+what)
				if st.Auto.Get("@DataTableBuffer.created") != "1" && !(svc == tblDelete && st.Auto.Get("was") == "1") {
					k.fail("guarded", FnName(k.root)+": "+what, cc.Pos(), "the request is sent although the buffer may not exist on the controller", st)
				}
				if svc == tblRead {
					k.c.Instance("in-step", FnName(k.root)+": "+what)
					if st.Auto.Get("@DataTableBuffer.synched") != "1" {
						k.fail("in-step", FnName(k.root)+": "+what, cc.Pos(), "the table is read although tags of the buffer may not have been added to it: the values are then taken for those of other tags", st)
					}
				}
				if svc == tblDelete && st.Auto.Get("ex:09") != "" {
					k.fail("released-once", FnName(k.root)+": "+what, cc.Pos(), "the controller's object is released twice", st)
				}
			}
			bad, good := st.Auto, st.Auto
			if svc >= 0 {
				key := fmt.Sprintf("ex:%02x", svc)
				bad, good = bad.Set(key, "err"), good.Set(key, "ok")
			}
			return []CallOut{{Auto: bad, Res: []AV{avNil(), avNonNil()}}, {Auto: good, Res: []AV{avNonNil(), avNil()}}}, true
		}
		switch cc.Name {
		case "builtin:append":
			if len(cc.Args) == 2 {
				if sl, ok := cc.Common().Args[1].(*ssa.Slice); ok {
					if _, ok := sl.X.(*ssa.Alloc); ok {
						return []CallOut{{Auto: st.Auto, Res: []AV{avSym("ne")}}}, true
					}
				}
				if a := cc.Args[0]; a.K == kSym && a.S == "ne" {
					return []CallOut{{Auto: st.Auto, Res: []AV{a}}}, true
				}
			}
		case "builtin:len":
			if a := cc.Args[0]; a.K == kSym && a.S == "ne" {
				return []CallOut{{Auto: st.Auto, Res: []AV{avSym("len")}}}, true
			}
		}
		return nil, false
	}
	return d
}

// roots are the operations of the buffer and what makes one.
func (k *dataTable) roots() (out []*ssa.Function) {
	p := k.c.P
	for _, f := range p.SrcFuncs(p.Root) {
		if f.Object() == nil || !f.Object().Exported() || len(f.Blocks) == 0 {
			continue
		}
		if r := f.Signature.Recv(); r != nil && typeName(deref(r.Type())) == "DataTableBuffer" {
			out = append(out, f)
			continue
		}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if typeName(deref(rs.At(i).Type())) == "DataTableBuffer" {
				out = append(out, f)
			}
		}
	}
	return out
}

func init() {
	rules["C29"] = func(c *Check) {
		c.Rule("guarded", "every operation of a data table buffer sends a request only on paths on which the buffer is known to have been created")
		c.Rule("created", "the buffer is recorded as created, and its instance set, only after the controller acknowledged the create request")
		c.Rule("acknowledged", "a tag's record (synched, batch) changes to 'in the table' only after the controller acknowledged an add request")
		c.Rule("synched", "the buffer is recorded as in step only after an add request was acknowledged or all its tags were seen to be in the table already")
		c.Rule("pending", "an operation that adds a tag leaves the buffer marked as out of step")
		c.Rule("removed", "a tag is dropped from the buffer only after the controller acknowledged removing it, or when it was never added there")
		c.Rule("in-step", "the table is read only when the buffer is in step with the controller")
		c.Rule("released-once", "after the attempt to delete the controller's object the buffer no longer counts as created")
		c.Rule("own-instance", "every request of the buffer goes to the buffer's own instance")
		c.Rule("all-sent", "the request that adds tags is made of every tag that was not acknowledged before")
		c.Rule("one-element", "within one turn of a loop over tags, name, size, type, batch and destination are those of one and the same tag")
		c.Rule("slots", "the bytes of a tag are as many as its slot and the position moves on by exactly them; the batch header is passed when and only when the batch changes")
		c.Rule("order", "tags are put in order by their index only")
		p := c.P
		if !c.Anchor(p.Method("Client", "GenericCIPMessage") != nil, "Client.GenericCIPMessage") {
			return
		}
		k := &dataTable{c: c, scan: map[*ssa.BasicBlock]bool{}}
		roots := k.roots()
		if !c.Anchor(len(roots) > 0, "DataTableBuffer") {
			return
		}
		down := p.Reach(roots...)
		k.reach = p.Relevant(func(f *ssa.Function, i ssa.Instruction) bool {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if svc, ok := tableSend(ci.Common()); ok {
					return svc == tblCreate || svc == tblDelete || svc == tblRead || svc == tblAdd || svc == tblRemove
				}
			}
			if fa, ok := i.(*ssa.FieldAddr); ok {
				return bufField(fa) != "" || tagField(fa) != ""
			}
			return false
		})
		for f := range k.reach {
			if !down[f] || f.Name() == "GenericCIPMessage" {
				delete(k.reach, f)
			}
		}
		var fns []*ssa.Function
		for f := range k.reach {
			fns = append(fns, f)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
		for _, f := range fns {
			for _, h := range f.Blocks {
				if !isLoopHeader(h) {
					continue
				}
				for b := range loopBody(h) {
					for _, i := range b.Instrs {
						if v, ok := i.(ssa.Value); ok && tagField(v) == "synched" && len(liveRefs(v)) > 0 {
							k.scan[h] = true
						}
					}
				}
			}
		}
		steps := 0
		for _, r := range roots {
			k.root = r
			k.outer = r.Signature.Recv() != nil && typeName(deref(r.Signature.Recv().Type())) == "DataTableBuffer"
			s := NewSim(p, k.domain(), func(key string, pos token.Pos, msg string, tr []string) {})
			for _, o := range s.Run(r, "") {
				st := &State{Auto: o.Auto, trace: o.trace}
				if by := o.Auto.Get("added"); by != "" {
					c.Oblige(o.Auto.Get("@DataTableBuffer.synched") == "0", "pending", FnName(r), p.Pos(r.Pos()), FnName(r)+" can return with a new tag in the buffer and the buffer still marked as in step with the controller", st.Trace()...)
				}
				if o.Auto.Get("ex:09") != "" && k.outer {
					c.Oblige(o.Auto.Get("@DataTableBuffer.created") == "0", "released-once", FnName(r), p.Pos(r.Pos()), FnName(r)+" can return after asking the controller to delete the object with the buffer still marked as created: the object can be released again or used", st.Trace()...)
				}
			}
			steps += s.Steps
			if len(s.overflow) > 0 {
				c.Findings["analysis|overflow"] = Finding{"analysis", "overflow", "-", "state limit reached in " + strings.Join(s.overflow, ", ") + ": undecided", nil}
			}
		}
		for _, f := range fns {
			k.instance(f)
			k.loops(f)
			k.orders(f)
		}
		c.Info["functions_analysed"] = len(fns)
		c.Info["abstract_steps"] = steps
		c.Floor("guarded", 5)
		c.Floor("created", 1)
		c.Floor("acknowledged", 1)
		c.Floor("synched", 1)
		c.Floor("pending", 2)
		c.Floor("removed", 1)
		c.Floor("in-step", 1)
		c.Floor("released-once", 1)
		c.Floor("own-instance", 4)
	}
}

// deps collects what a value is computed from, through calls, slices, conversions and local memory.
func deps(v ssa.Value, out map[ssa.Value]bool) {
	if v == nil || out[v] {
		return
	}
	out[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			addrDeps(r, x, out)
		}
		return
	case *ssa.MakeSlice:
		for _, r := range *x.Referrers() {
			addrDeps(r, x, out)
		}
		return
	case *ssa.Slice:
		for _, r := range *x.Referrers() {
			addrDeps(r, x, out)
		}
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, o := range in.Operands(nil) {
			if *o != nil {
				deps(*o, out)
			}
		}
	}
}

func addrDeps(r ssa.Instruction, base ssa.Value, out map[ssa.Value]bool) {
	switch y := r.(type) {
	case *ssa.Store:
		if y.Addr == base {
			deps(y.Val, out)
		}
	case *ssa.IndexAddr:
		if y.X == base {
			for _, q := range *y.Referrers() {
				addrDeps(q, y, out)
			}
		}
	case *ssa.FieldAddr:
		for _, q := range *y.Referrers() {
			addrDeps(q, y, out)
		}
	case *ssa.Slice:
		if y.X == base && !out[y] {
			out[y] = true
			for _, q := range *y.Referrers() {
				addrDeps(q, y, out)
			}
		}
	case ssa.CallInstruction:
		// the call may write into it what its other arguments hold
		if _, send := tableSend(y.Common()); send {
			return
		}
		for _, a := range y.Common().Args {
			if a != base {
				deps(a, out)
			}
		}
	}
}

// instance: the path of a request is made from the buffer's instance.
func (k *dataTable) instance(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			svc, ok := tableSend(ci.Common())
			if !ok || svc == tblCreate {
				continue
			}
			k.pathFrom(ci, ci.Common().Args[2], fmt.Sprintf("service %#02x", svc), 0)
			if svc == tblRemove && len(ci.Common().Args) > 3 {
				k.indexFrom(ci, ci.Common().Args[3], 0)
			}
		}
	}
}

func (k *dataTable) pathFrom(ci ssa.CallInstruction, v ssa.Value, what string, d int) {
	if d > 5 {
		return
	}
	f := ci.Parent()
	ds := map[ssa.Value]bool{}
	deps(v, ds)
	own, other := false, ""
	for x := range ds {
		switch n := loadOf(x, bufField); {
		case n == "instanceID":
			own = true
		case n != "" && isIntType(x.Type()):
			other = n
		}
		if n := loadOf(x, tagField); n != "" && isIntType(x.Type()) {
			other = n
		}
	}
	if own || other != "" {
		k.c.Oblige(other == "", "own-instance", what+" from "+FnName(f), k.c.P.Pos(ci.Pos()), "the request's path is made from "+other+", not from the buffer's instance alone")
		return
	}
	passed := false
	for n, pr := range f.Params {
		if !ds[pr] || !isIntType(pr.Type()) {
			continue
		}
		passed = true
		for _, up := range k.c.P.CallersOf(f) {
			if k.reach[up.Parent()] && up.Common().StaticCallee() == f && n < len(up.Common().Args) {
				k.pathFrom(up, up.Common().Args[n], what, d+1)
			}
		}
	}
	if !passed {
		if r := f.Signature.Recv(); r != nil && typeName(deref(r.Type())) == "DataTableBuffer" {
			k.c.Oblige(false, "own-instance", what+" from "+FnName(f), k.c.P.Pos(ci.Pos()), "the request's path is not made from the buffer's instance")
		}
	}
}

// indexFrom: a remove request carries the index of the tag that is dropped from the buffer.
func (k *dataTable) indexFrom(ci ssa.CallInstruction, v ssa.Value, d int) {
	f := ci.Parent()
	ds := map[ssa.Value]bool{}
	deps(v, ds)
	id := "removal by " + FnName(f)
	if r := f.Signature.Recv(); r != nil && typeName(deref(r.Type())) == "DataTableBuffer" {
		key := ""
		for x := range ds {
			if loadOf(x, tagField) == "index" {
				key = elemKey(x, 0)
			}
		}
		passed := false
		for _, pr := range f.Params {
			passed = passed || ds[pr] && isIntType(pr.Type())
		}
		if key != "" || !passed {
			k.c.Oblige(key != "", "removed", id+" (index)", k.c.P.Pos(ci.Pos()), "the index sent with the remove request is not that of a tag")
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok || bufField(st.Addr) != "tags" || key == "" {
						continue
					}
					call, ok := st.Val.(*ssa.Call)
					if !ok || len(call.Call.Args) < 2 {
						continue
					}
					cut := ""
					if sl, ok := call.Call.Args[0].(*ssa.Slice); ok && sl.High != nil && calleeName(call.Common()) == "builtin:append" {
						cut = sl.High.Name()
					} else if calleeName(call.Common()) == "slices.Delete" {
						cut = call.Call.Args[1].Name()
					}
					if n := strings.TrimSuffix(strings.TrimPrefix(key, "el(buf.tags,"), ")"); cut != "" && n != key {
						k.c.Oblige(n == cut, "removed", id+" (index)", k.c.P.Pos(st.Pos()), "the tag dropped from the buffer is not the one whose index was sent")
					}
				}
			}
			return
		}
	}
	if d > 5 {
		return
	}
	for n, pr := range f.Params {
		if ds[pr] && isIntType(pr.Type()) {
			for _, up := range k.c.P.CallersOf(f) {
				if k.reach[up.Parent()] && up.Common().StaticCallee() == f && n < len(up.Common().Args) {
					k.indexFrom(up, up.Common().Args[n], d+1)
				}
			}
		}
	}
}

// elemKey names the tag a field belongs to.
func elemKey(v ssa.Value, d int) string {
	if d > 8 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Field:
		return elemKey(x.X, d+1)
	case *ssa.FieldAddr:
		return elemKey(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if f := bufField(x.X); f != "" {
				return "buf." + f
			}
			return elemKey(x.X, d+1)
		}
	case *ssa.IndexAddr:
		return "el(" + elemKey(x.X, d+1) + "," + x.Index.Name() + ")"
	case *ssa.Index:
		return "el(" + elemKey(x.X, d+1) + "," + x.Index.Name() + ")"
	case *ssa.Alloc:
		var whole ssa.Value
		n := 0
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				whole = s.Val
				n++
			}
		}
		if n == 1 {
			return elemKey(whole, d+1)
		}
	case *ssa.Slice:
		if x.Low == nil {
			return elemKey(x.X, d+1)
		}
	}
	return v.Name()
}

// loops looks at every loop that walks tags.
func (k *dataTable) loops(f *ssa.Function) {
	c, p := k.c, k.c.P
	for _, h := range f.Blocks {
		if !isLoopHeader(h) {
			continue
		}
		body := loopBody(h)
		// the tag fields used in the loop itself (not in one inside it)
		els := map[string]token.Pos{}
		used := map[string]bool{}
		for _, b := range f.Blocks {
			if !body[b] || innerLoop(f, h, b) {
				continue
			}
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok {
					continue
				}
				n := tagField(v)
				if n == "" || len(liveRefs(v)) == 0 {
					continue
				}
				key := elemKey(v, 0)
				if !strings.HasPrefix(key, "el(") {
					continue // a tag being put together
				}
				if _, has := els[key]; !has {
					els[key] = v.Pos()
				}
				used[n] = true
			}
		}
		if len(els) == 0 {
			continue
		}
		var keys []string
		for n := range els {
			keys = append(keys, n)
		}
		sort.Strings(keys)
		var names []string
		for n := range used {
			names = append(names, n)
		}
		sort.Strings(names)
		id := FnName(f) + " " + strings.Join(names, "/")
		at := h.Instrs[0].Pos()
		for _, v := range els {
			at = v
		}
		c.Oblige(len(els) == 1, "one-element", id, p.Pos(at), fmt.Sprintf("in one turn of the loop the fields of different tags are used together (%s)", strings.Join(keys, " and ")))
		if used["ioi"] {
			k.allSent(f, h, body)
		}
		k.slots(f, h, body)
	}
}

func innerLoop(f *ssa.Function, h, b *ssa.BasicBlock) bool {
	for _, g := range f.Blocks {
		if g != h && isLoopHeader(g) && loopBody(h)[g] && loopBody(g)[b] {
			return true
		}
	}
	return false
}

// condOn is the tag field an if tests and the side on which it is true.
func condOn(b *ssa.BasicBlock, field string) (side int, ok bool) {
	x, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !isIf {
		return 0, false
	}
	v := x.Cond
	side = 0
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			side, v = 1-side, u.X
			continue
		}
		if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			if cst, ok := bo.Y.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.Bool {
				if constant.BoolVal(cst.Value) != (bo.Op == token.EQL) {
					side = 1 - side
				}
				v = bo.X
				continue
			}
		}
		break
	}
	return side, loadOf(v, tagField) == field
}

// allSent: a turn of the collecting loop leaves a tag out only when it is in the table already, and the
// loop is not left early on the way to the request.
func (k *dataTable) allSent(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	c, p := k.c, k.c.P
	collects := func(b *ssa.BasicBlock) bool {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				if calleeName(x.Common()) == "builtin:append" {
					return true
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if _, local := ia.X.(*ssa.Alloc); !local {
						return true
					}
				}
			}
		}
		return false
	}
	id := FnName(f) + " collects tags"
	n := 0
	for b := range body {
		if collects(b) {
			n++
		}
	}
	if n == 0 {
		return
	}
	c.Instance("all-sent", id)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || collects(b) {
			return
		}
		seen[b] = true
		side, on := condOn(b, "synched")
		for n, s := range b.Succs {
			if on && n == side {
				continue // in the table already
			}
			if s == h {
				c.Fail("all-sent", id, p.Pos(lastPos(b)), "a tag can be left out of the add request although it is not in the table: it is then taken for added")
				return
			}
			if !body[s] {
				if b != h && k.sendsAfter(s) {
					c.Fail("all-sent", id, p.Pos(lastPos(b)), "the loop over the tags can be left before all were collected and the add request is sent all the same")
				}
				continue
			}
			walk(s)
		}
	}
	walk(h)
	// leaving after having collected some
	for b := range body {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] && k.sendsAfter(s) {
				c.Fail("all-sent", id, p.Pos(lastPos(b)), "the loop over the tags can be left before all were collected and the add request is sent all the same")
			}
		}
	}
}

func lastPos(b *ssa.BasicBlock) token.Pos {
	pos := b.Parent().Pos()
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			pos = i.Pos()
		}
	}
	return pos
}

func (k *dataTable) sendsAfter(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if _, ok := tableSend(ci.Common()); ok {
					return true
				}
				if g := ci.Common().StaticCallee(); g != nil && k.reach[g] {
					return true
				}
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

func isItemField(v ssa.Value, name string) bool {
	t, f, ok := fieldOf(v)
	return ok && t == "CIPItem" && f == name
}

func unconv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// slotMove: the amount added to the item's position by a store, "" if it is not an addition.
func slotMove(v ssa.Value) ssa.Value {
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.ADD {
		return nil
	}
	for _, p := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
		if u, ok := p[0].(*ssa.UnOp); ok && u.Op == token.MUL && isItemField(u.X, "Pos") {
			return unconv(p[1])
		}
	}
	return nil
}

// otherSize: the amount is made from a tag, but not from the size of its slot.
func otherSize(v ssa.Value) bool {
	made := map[ssa.Value]bool{}
	deps(v, made)
	other := false
	for d := range made {
		switch tagField(d) {
		case "":
		case "DataTypeSize":
			return false
		default:
			other = true
		}
	}
	return other
}

// slots follows the position in the reply through one turn of a loop.
func (k *dataTable) slots(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	c, p := k.c, k.c.P
	// what a turn takes from the reply, in order: "slot", "header", "?"
	takes := func(b *ssa.BasicBlock) (out []string, pos token.Pos) {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if isItemField(x.Addr, "Pos") {
					pos = x.Pos()
					m := slotMove(x.Val)
					switch {
					case m != nil && loadOf(m, tagField) == "DataTypeSize":
						out = append(out, "slot")
					case m != nil:
						if n, ok := constInt64(m); ok && n == 2 {
							out = append(out, "header")
						} else if otherSize(m) {
							out = append(out, "another size")
						} else {
							out = append(out, "another amount")
						}
					default:
						out = append(out, "?")
					}
				}
			case ssa.CallInstruction:
				cm := x.Common()
				touches := -1
				for n, a := range cm.Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					if typeName(deref(a.Type())) == "CIPItem" {
						touches = n
					}
				}
				if touches < 0 {
					continue
				}
				pos = x.Pos()
				switch n := calleeName(cm); {
				case strings.HasSuffix(n, ".CIPItem).Uint16") || strings.HasSuffix(n, ".CIPItem).Int16"):
					out = append(out, "header")
				case strings.HasSuffix(n, ".CIPItem).Rest"):
				case n == "io.ReadFull" || strings.HasSuffix(n, ".CIPItem).Read"):
					buf := cm.Args[len(cm.Args)-1]
					if s, ok := buf.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
						buf = s.X
					}
					if ms, ok := buf.(*ssa.MakeSlice); ok && loadOf(unconv(ms.Len), tagField) == "DataTypeSize" {
						out = append(out, "slot")
					} else {
						out = append(out, "?")
					}
				default:
					out = append(out, "?")
				}
			}
		}
		return
	}
	any, unsure := false, false
	for b := range body {
		t, _ := takes(b)
		for _, x := range t {
			any = any || x == "slot" || x == "another size"
			unsure = unsure || x == "?"
		}
	}
	if !any || unsure {
		return
	}
	id := FnName(f) + " reads the table"
	c.Instance("slots", id)
	c.c29cut(f, body, id)
	// the batch test
	batch := func(b *ssa.BasicBlock) (changed int, ok bool) {
		x, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !isIf {
			return 0, false
		}
		bo, isB := x.Cond.(*ssa.BinOp)
		if !isB || bo.Op != token.NEQ && bo.Op != token.EQL {
			return 0, false
		}
		if loadOf(unconv(bo.X), tagField) != "batchID" && loadOf(unconv(bo.Y), tagField) != "batchID" {
			return 0, false
		}
		if bo.Op == token.NEQ {
			return 0, true
		}
		return 1, true
	}
	type step struct {
		slot, header int
		changed      string
	}
	n := 0
	var walk func(b *ssa.BasicBlock, s step, on map[*ssa.BasicBlock]bool)
	walk = func(b *ssa.BasicBlock, s step, on map[*ssa.BasicBlock]bool) {
		if n++; n > 5000 {
			return
		}
		t, pos := takes(b)
		for _, x := range t {
			switch x {
			case "slot":
				s.slot++
			case "header":
				s.header++
				c.Oblige(s.slot == 0, "slots", id, p.Pos(pos), "the batch header is taken after the value it stands in front of")
			case "another amount", "another size":
				c.Fail("slots", id, p.Pos(pos), "the position in the reply moves on by something else than the tag's slot")
			}
		}
		ch, isBatch := batch(b)
		for i, nx := range b.Succs {
			s2 := s
			if isBatch {
				s2.changed = "no"
				if i == ch {
					s2.changed = "yes"
				}
			}
			if nx == h {
				ok := s2.slot == 1
				c.Oblige(ok, "slots", id, p.Pos(lastPos(b)), fmt.Sprintf("a turn of the loop takes %d slots of the reply instead of one", s2.slot))
				if s2.changed != "" {
					want := 0
					if s2.changed == "yes" {
						want = 1
					}
					c.Oblige(s2.header == want, "slots", id, p.Pos(lastPos(b)), fmt.Sprintf("with the batch changed: %s, %d batch headers are passed", s2.changed, s2.header))
				} else {
					c.Oblige(s2.header == 0, "slots", id, p.Pos(lastPos(b)), "a batch header is passed without looking at the tag's batch")
				}
				// the batch seen becomes the current one
				continue
			}
			if !body[nx] || on[nx] {
				continue
			}
			on2 := map[*ssa.BasicBlock]bool{nx: true}
			for x := range on {
				on2[x] = true
			}
			walk(nx, s2, on2)
		}
	}
	walk(h, step{}, map[*ssa.BasicBlock]bool{h: true})
	k.current(f, h, body, id)
}

// current: what the batch is compared with is the batch of the tag before.
func (k *dataTable) current(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, id string) {
	for b := range body {
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := x.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.NEQ && bo.Op != token.EQL {
			continue
		}
		var cur ssa.Value
		switch {
		case loadOf(bo.X, tagField) == "batchID":
			cur = bo.Y
		case loadOf(bo.Y, tagField) == "batchID":
			cur = bo.X
		default:
			continue
		}
		ph, ok := cur.(*ssa.Phi)
		if !ok || ph.Block() != h {
			continue
		}
		good := true
		var look func(v ssa.Value, d int)
		look = func(v ssa.Value, d int) {
			if d > 6 {
				return
			}
			switch y := v.(type) {
			case *ssa.Phi:
				if y == ph {
					return
				}
				if body[y.Block()] && y.Block() != h {
					for _, e := range y.Edges {
						look(e, d+1)
					}
					return
				}
				good = false
			default:
				if loadOf(v, tagField) != "batchID" {
					good = false
				}
			}
		}
		moved := false
		for n, e := range ph.Edges {
			if body[h.Preds[n]] {
				moved = moved || e != ph
				look(e, 0)
			}
		}
		k.c.Oblige(good && moved, "slots", id+" (current batch)", k.c.P.Pos(x.Cond.Pos()), "the batch a tag is compared with is not the batch of the tag before it")
	}
}

// c29cut: a piece cut out of the reply is as long as the tag's slot and begins at the position.
func (c *Check) c29cut(f *ssa.Function, body map[*ssa.BasicBlock]bool, id string) {
	for _, b := range f.Blocks {
		if !body[b] {
			continue
		}
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Slice)
			if !ok {
				continue
			}
			u, ok := s.X.(*ssa.UnOp)
			if !ok || !isItemField(u.X, "Data") || s.High == nil {
				continue
			}
			m := slotMove(s.High)
			if m == nil {
				continue
			}
			lo, isPos := s.Low.(*ssa.UnOp)
			c.Oblige(s.Low != nil && isPos && isItemField(lo.X, "Pos") && loadOf(m, tagField) == "DataTypeSize", "slots", id+" (cut)", c.P.Pos(s.Pos()), "the bytes cut out for a tag are not the slot at the current position")
			if isPos {
				// the position was not moved on before in this turn
				for _, q := range f.Blocks {
					for _, j := range q.Instrs {
						st, ok := j.(*ssa.Store)
						if ok && body[q] && isItemField(st.Addr, "Pos") && loadOf(slotMoveOr(st.Val), tagField) == "DataTypeSize" {
							before := q == lo.Block() && before2(st, lo) || q != lo.Block() && q.Dominates(lo.Block())
							c.Oblige(!before, "slots", id+" (cut)", c.P.Pos(s.Pos()), "the bytes are cut out after the position was moved past them")
						}
					}
				}
			}
		}
	}
}

func slotMoveOr(v ssa.Value) ssa.Value {
	if m := slotMove(v); m != nil {
		return m
	}
	return v
}

func before2(a, b ssa.Instruction) bool {
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// orders: a comparison of two tags handed to a sort looks at their index only, and puts the smaller first.
func (k *dataTable) orders(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n := calleeName(ci.Common())
			if !strings.HasPrefix(n, "sort.") && !strings.HasPrefix(n, "slices.Sort") {
				continue
			}
			for _, a := range ci.Common().Args {
				var g *ssa.Function
				switch x := a.(type) {
				case *ssa.MakeClosure:
					g, _ = x.Fn.(*ssa.Function)
				case *ssa.Function:
					g = x
				}
				if g == nil {
					continue
				}
				k.order(f, g)
			}
		}
	}
}

func (k *dataTable) order(f, g *ssa.Function) {
	var fields []string
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if n := tagField(v); n != "" {
					fields = append(fields, n)
				}
			}
		}
	}
	if len(fields) == 0 {
		return
	}
	id := "sort in " + FnName(f)
	bad := ""
	for _, n := range fields {
		if n != "index" {
			bad = n
		}
	}
	k.c.Oblige(bad == "", "order", id, k.c.P.Pos(g.Pos()), "tags are ordered by "+bad+", the controller answers in the order they were added")
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) != 1 || !isBool(r.Results[0].Type()) || len(g.Params) != 2 {
			continue
		}
		bo, ok := r.Results[0].(*ssa.BinOp)
		if !ok {
			continue
		}
		l, rr := elemKey(addrOfLoad(bo.X), 0), elemKey(addrOfLoad(bo.Y), 0)
		p0, p1 := g.Params[0].Name(), g.Params[1].Name()
		up := strings.HasSuffix(l, ","+p0+")") && strings.HasSuffix(rr, ","+p1+")")
		down := strings.HasSuffix(l, ","+p1+")") && strings.HasSuffix(rr, ","+p0+")")
		if !up && !down {
			continue
		}
		asc := up && (bo.Op == token.LSS || bo.Op == token.LEQ) || down && (bo.Op == token.GTR || bo.Op == token.GEQ)
		k.c.Oblige(asc, "order", id, k.c.P.Pos(g.Pos()), "tags are put in order with the largest index first")
	}
}

func addrOfLoad(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X
	}
	return v
}

var _ = types.Identical
