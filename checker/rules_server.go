package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The server domain follows one session of the server: the frame it is working on, what it
// answered, which provider calls backed the answer, and what it put in the connection table.

const (
	svcRead      = 0x4C
	svcWrite     = 0x4D
	svcClose     = 0x4E
	svcFragRead  = 0x52
	svcFragWrite = 0x53
	svcOpen      = 0x54
	svcLargeOpen = 0x5B
	svcSetAttr   = 0x10
	svcMulti     = 0x0A
)

type srvRun struct {
	c     *Check
	id    string
	frame map[*ssa.Function]bool // functions that build one encapsulation frame and write it to the session
	cur   *ssa.Function
}

// sessionRoots: what the accepting loop starts for every connection.
func sessionRoots(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.SrcFuncs(p.Root) {
		acc := false
		var gos []*ssa.Function
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := ci.Common()
				if cm.IsInvoke() && cm.Method.Name() == "Accept" {
					acc = true
				}
				if _, ok := i.(*ssa.Go); ok {
					if t := cm.StaticCallee(); t != nil {
						gos = append(gos, t)
					}
				}
			}
		}
		if acc {
			out = append(out, gos...)
		}
		if acc && len(gos) == 0 {
			// the session may be started by a helper the accepting loop calls
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(*ssa.Call); ok {
						if h := ci.Call.StaticCallee(); h != nil && p.InLib(h) {
							for _, hb := range h.Blocks {
								for _, hi := range hb.Instrs {
									if g, ok := hi.(*ssa.Go); ok && g.Common().StaticCallee() != nil {
										out = append(out, g.Common().StaticCallee())
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func isNetConn(t types.Type) bool { return typeString(t) == "net.Conn" }

func makesHeader(i ssa.Instruction) bool {
	mi, ok := i.(*ssa.MakeInterface)
	if !ok {
		return false
	}
	return typeName(deref(mi.X.Type())) == "eipHeader"
}

// frameFuncs: the lowest functions that both hand an encapsulation header to a writer and write to a connection.
func frameFuncs(p *Prog, within map[*ssa.Function]bool) map[*ssa.Function]bool {
	has := func(match func(i ssa.Instruction) bool) map[*ssa.Function]bool {
		out := map[*ssa.Function]bool{}
		for ch := true; ch; {
			ch = false
			for f := range within {
				if out[f] {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						hit := match(i)
						if c, ok := i.(*ssa.Call); ok && !hit {
							g := c.Call.StaticCallee()
							hit = g != nil && out[g]
						}
						if hit && !out[f] {
							out[f] = true
							ch = true
						}
					}
				}
			}
		}
		return out
	}
	wr := has(func(i ssa.Instruction) bool {
		c, ok := i.(*ssa.Call)
		return ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Write" && isNetConn(c.Call.Value.Type())
	})
	hd := has(func(i ssa.Instruction) bool {
		if !makesHeader(i) {
			return false
		}
		// written, not read into
		mi := i.(*ssa.MakeInterface)
		_, isPtr := mi.X.Type().Underlying().(*types.Pointer)
		if !isPtr {
			return true
		}
		for _, r := range *mi.Referrers() {
			if ci, ok := r.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(ci.Common()), ".Write") {
				return true
			}
		}
		return false
	})
	out := map[*ssa.Function]bool{}
	for f := range within {
		if !wr[f] || !hd[f] {
			continue
		}
		low := true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && g != f && wr[g] && hd[g] {
						low = false
					}
				}
			}
		}
		if low {
			out[f] = true
		}
	}
	return out
}

// replyHdr: a structure that begins the answer to a service: it has a service code and a status of its own.
func replyHdr(t types.Type) (*types.Struct, bool) {
	n := namedOf(t)
	if n == nil {
		return nil, false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	svc, st := false, false
	for i := 0; i < s.NumFields(); i++ {
		switch typeName(s.Field(i).Type()) {
		case "CIPService":
			svc = true
		case "CIPStatus":
			st = true
		}
	}
	return s, svc && st
}

func avText(a AV) string {
	switch a.K {
	case kInt:
		return strconv.FormatInt(a.N, 10)
	case kSym:
		return a.S
	}
	return "?"
}

// hdrSym summarises a reply header held in cells: service, status, sequence.
func hdrSym(st *State, key string, s *types.Struct, t types.Type) AV {
	svc, status, seq := "?", "?", "-"
	open := "-"
	zero := false
	if _, ok := st.cells[key+"!z"]; ok {
		zero = true
	}
	for i := 0; i < s.NumFields(); i++ {
		k := fmt.Sprintf("%s.f%d", key, i)
		a, ok := st.cells[k]
		if !ok && zero {
			if z, isZ := zeroAV(s.Field(i).Type()); isZ {
				a = z
			}
		}
		switch typeName(s.Field(i).Type()) {
		case "CIPService":
			svc = avText(a)
		case "CIPStatus":
			status = avText(a)
		}
		switch s.Field(i).Name() {
		case "SequenceCount", "Sequence":
			seq = avText(a)
		case "OTConnectionID":
			open = "1"
		}
	}
	return avSym("rh|" + svc + "|" + status + "|" + seq + "|" + open)
}

func (r *srvRun) ob(ok bool, rule, construct string, pos token.Pos, msg string, st *State) {
	r.c.Oblige(ok, rule, construct, r.c.P.Pos(pos), msg, st.Trace()...)
}

func (r *srvRun) is(ids ...string) bool {
	for _, i := range ids {
		if r.id == i {
			return true
		}
	}
	return false
}

// tableRole: what a method of the connection table does to it.
func (r *srvRun) tableRole(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() == nil || typeName(deref(f.Signature.Recv().Type())) != "serverConnectionManager" {
		return ""
	}
	if f.Name() == "Init" {
		return ""
	}
	for _, q := range f.Params[1:] {
		if typeName(deref(q.Type())) == "serverTCPHandler" {
			return "clean"
		}
	}
	if writesField(f, "serverConnectionManager", "Connections", r.c.P, 0) {
		for _, q := range f.Params[1:] {
			if typeName(deref(q.Type())) == "serverConnection" {
				res := f.Signature.Results()
				if appendsParam(f, q, r.c.P, 0) {
					return "add"
				}
				_ = res
			}
		}
		return "remove"
	}
	return ""
}

// appendsParam: the parameter is appended to a slice (here or in a callee it is passed to).
func appendsParam(f *ssa.Function, q *ssa.Parameter, p *Prog, d int) bool {
	if d > 3 || q.Referrers() == nil {
		return false
	}
	for _, ref := range *q.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok && x.Val == q {
				if al, ok := ia.X.(*ssa.Alloc); ok && al.Referrers() != nil {
					for _, r2 := range *al.Referrers() {
						if sl, ok := r2.(*ssa.Slice); ok && sl.Referrers() != nil {
							for _, r3 := range *sl.Referrers() {
								if c, ok := r3.(*ssa.Call); ok {
									if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
										return true
									}
								}
							}
						}
					}
				}
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && p.InLib(g) {
				for k, a := range x.Call.Args {
					if a == q && k < len(g.Params) && appendsParam(g, g.Params[k], p, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func writesField(f *ssa.Function, typ, field string, p *Prog, d int) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if t, n, ok := fieldOf(x.Addr); ok && t == typ && n == field {
					return true
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && d < 3 && p.InLib(g) && g != f && g.Signature.Recv() != nil && typeName(deref(g.Signature.Recv().Type())) == typ && writesField(g, typ, field, p, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// elemOut: the variable a decoding call fills, as the type and address handed to it.
func elemOut(v ssa.Value) (types.Type, ssa.Value) {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return nil, nil
	}
	pt, ok := mi.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	return pt.Elem(), mi.X
}

func isItemMethod(f *ssa.Function) bool {
	return f != nil && f.Signature.Recv() != nil && typeName(deref(f.Signature.Recv().Type())) == "CIPItem"
}

func isU16(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint16
}

var frameKeys = []string{"tx", "cmd", "body", "ctx", "prov", "o", "c", "rs", "rsv", "rsq", "rop", "fresh", "nsv", "rst", "uds", "hto", "own", "e.ID", "e.OT", "e.TO", "e.VendorID", "e.OriginatorSerialNumber", "h.OTConnectionID", "h.TOConnectionID", "nsq", "tbl", "hset", "terr", "cl", "pend"}

func clearKeys(a Auto, ks []string) Auto {
	for _, k := range ks {
		a = a.Set(k, "")
	}
	return a
}

// beginFrame: the session is about to read a new header.
func (r *srvRun) beginFrame(cc *CallCtx) {
	st := cc.St
	a := st.Auto
	site := "next header read in " + FnName(cc.Fn)
	if a.Get("hd") != "" {
		if r.is("C21") {
			r.ob(a.Get("tx") != "" || a.Get("cmd") == "0", "answered-once", site, cc.Pos(), "a request can be left without an answer while its session goes on to the next one", st)
			r.ob(a.Get("body") == "ok", "whole-frame", site, cc.Pos(), "the session can read the next header before the whole of the current frame was taken from the connection: what is left is taken for a header", st)
		}
		if r.is("C24") {
			r.ob(a.Get("tbl") != "added" || a.Get("opened") == "1", "open-leaves-nothing", site, cc.Pos(), "a connection can stay in the table after its open was not acknowledged", st)
		}
	}
	if r.is("C25") {
		r.ob(a.Get("rerr") == "", "stops-on-failure", site, cc.Pos(), "a session whose socket failed goes on reading it", st)
	}
}

func (r *srvRun) domain() *Domain {
	d := &Domain{Name: "server"}
	d.LoadSym = func(t, f string, ins ssa.Instruction) (AV, bool) {
		switch t {
		case "eipHeader":
			switch f {
			case "Command":
				return avSym("cmd"), true
			case "Length":
				return avSym("len"), true
			case "Context":
				return avSym("hctx"), true
			case "SessionHandle":
				return avSym("hses"), true
			}
		case "serverTCPHandler":
			v, _ := ins.(ssa.Value)
			switch {
			case f == "context":
				return avSym("h.ctx"), true
			case f == "handle":
				return avSym("h.ses"), true
			case f == "UnitDataSequencer":
				return avSym("uds"), true
			case f == "TOConnectionID":
				return avSym("h.to"), true
			case v != nil && isNetConn(v.Type()):
				return avSym("conn"), true
			}
		case "serverConnection":
			if f == "TO" {
				return avSym("to"), true
			}
		}
		if v, ok := ins.(ssa.Value); ok && typeName(v.Type()) == "CIPService" {
			// a service code of a decoded message
			if n := r.structOf(ins); n != nil {
				if _, isR := replyHdr(n); !isR {
					return avSym("svc"), true
				}
			}
		}
		return unk, false
	}
	d.MustEnter = func(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
		for b := range body {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Write" && isNetConn(c.Call.Value.Type()) {
					return true // a frame is never empty
				}
			}
		}
		return false
	}
	d.Enter = func(f *ssa.Function, a Auto) Auto {
		if r.frame[f] {
			given := false
			for _, q := range f.Params {
				given = given || typeName(deref(q.Type())) == "eipHeader"
			}
			if !given {
				a = a.Set("oh.cmd", "").Set("oh.ses", "").Set("oh.ctx", "")
			}
			a = a.Set("wr", "")
		}
		return a
	}
	d.OnInstr = r.onInstr
	d.OnCall = r.onCall
	d.AfterCall = r.afterCall
	d.OnBranch = func(a Auto, s string, op token.Token, n int64) (Auto, bool) {
		v := strconv.FormatInt(n, 10)
		switch s {
		case "cmd":
			switch op {
			case token.EQL:
				if c := a.Get("cmd"); c != "" && c != v {
					return a, false
				}
				a = a.Set("cmd", v)
			case token.NEQ:
				if a.Get("cmd") == v {
					return a, false
				}
			}
		case "svi":
			switch op {
			case token.EQL:
				if c := a.Get("c"); c != "" && c != "in" && c != v {
					return a, false
				}
				a = a.Set("c", v)
			case token.NEQ:
				if a.Get("c") == v {
					return a, false
				}
			}
		case "svc":
			switch op {
			case token.EQL:
				if c := a.Get("c"); c != "" && c != v {
					return a, false
				}
				if a.Get("o") == "" {
					a = a.Set("o", v)
				}
				a = a.Set("c", v)
			case token.NEQ:
				if a.Get("c") == v {
					return a, false
				}
			}
		case "len":
			if op == token.EQL && n == 0 || op == token.LEQ && n == 0 || op == token.LSS && n == 1 {
				a = a.Set("body", "ok")
			}
		}
		return a, true
	}
	return d
}

func (r *srvRun) structOf(ins ssa.Instruction) types.Type {
	switch x := ins.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return deref(fa.X.Type())
		}
	case *ssa.Field:
		return x.X.Type()
	}
	return nil
}

func (r *srvRun) onInstr(c *InstrCtx) (AV, bool) {
	st := c.St
	switch x := c.I.(type) {
	case *ssa.BinOp:
		if x.Op == token.OR || x.Op == token.ADD {
			k, v := x.Y, x.X
			kc, ok := k.(*ssa.Const)
			if !ok {
				kc, ok = x.X.(*ssa.Const)
				v = x.Y
			}
			if ok && kc.Value != nil && kc.Value.Kind() == constant.Int && kc.Int64() == 0x80 {
				switch a := c.av(v); a.K {
				case kInt:
					return avInt(a.N | 0x80), true
				case kSym:
					if a.S == "svc" || a.S == "svi" {
						return avSym(a.S + "|80"), true
					}
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && r.is("C33") {
				t, f, _ := fieldOf(fa)
				if t == "serverConnection" && (f == "OT" || f == "TO") {
					if st.Auto.Get("tbl") == "added" {
						return avSym("e." + f), true
					}
					return avSym(strings.ToLower(f)), true
				}
				if t == "serverTCPHandler" && (f == "OTConnectionID" || f == "TOConnectionID") {
					if v := st.Auto.Get("h." + f); v != "" && v != "?" {
						return avSym(v), true
					}
					return unk, true
				}
				if idField[f] && t != "serverConnection" && t != "serverTCPHandler" {
					if _, isR := replyHdr(deref(fa.X.Type())); !isR {
						if al, ok := fa.X.(*ssa.Alloc); ok {
							if a, ok := st.cells[fmt.Sprintf("%s.f%d", al.Name(), fa.Field)]; ok && a.K != kUnk {
								return a, true
							} else if ok {
								return unk, true
							}
						}
						return avSym("m." + f), true
					}
				}
			}
			if s, ok := replyHdr(x.Type()); ok {
				if al, ok := x.X.(*ssa.Alloc); ok {
					if a, ok := st.cells[al.Name()]; ok && a.K == kSym && strings.HasPrefix(a.S, "rh|") {
						return a, true
					}
					r.openReply(c, al.Name(), s, x.Pos())
					return hdrSym(st, al.Name(), s, x.Type()), true
				}
			}
			if al, ok := x.X.(*ssa.Alloc); ok && typeName(al.Type()) == "eipHeader" {
				if a, ok := st.cells[al.Name()]; ok {
					return a, true
				}
			}
		}
	case *ssa.MakeSlice:
		if a := c.av(x.Len); a.K == kSym && a.S == "len" {
			return avSym("body"), true
		}
	case *ssa.Slice:
		// a short literal answer inside a batched message
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := deref(al.Type()).Underlying().(*types.Array); ok && isByte(at.Elem()) && at.Len() >= 4 && at.Len() <= 8 && x.Low == nil && x.High == nil {
				k := al.Name() + "[2]"
				a, has := st.cells[k]
				if !has {
					if _, z := st.cells[al.Name()+"!z"]; z {
						a, has = avInt(0), true
					}
				}
				if has && a.K == kInt {
					if a.N == 0 {
						return avSym("ack"), true
					}
					return avSym("nack"), true
				}
				if has {
					return avSym("ack?"), true
				}
			}
		}
		if a := c.av(x.X); a.K == kSym && a.S == "body" && x.Low == nil && x.High == nil {
			return a, true
		}
	case *ssa.MakeInterface:
		if st.Auto.Get("hd") == "" {
			break
		}
		a := c.av(x.X)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if s, ok := replyHdr(pt.Elem()); ok {
				if al, ok := x.X.(*ssa.Alloc); ok {
					a = hdrSym(st, al.Name(), s, pt.Elem())
				}
			}
		}
		if a.K == kSym && strings.HasPrefix(a.S, "rh|") {
			p := strings.SplitN(a.S[3:], "|", 10)
			// service may itself contain the response mark
			if len(p) >= 5 {
				p = append([]string{p[0] + "|" + p[1]}, p[2:]...)
			}
			st.Auto = st.Auto.Set("rsv", p[0]).Set("rs", p[1]).Set("rsq", p[2]).Set("rop", strings.Trim(p[3], "-"))
			r.c.Instance("reply-header", FnName(c.Fn)+" "+typeName(deref(x.X.Type())))
			return avNonNil(), true
		}
	case *ssa.Store:
		r.onStore(c, x)
	case *ssa.Go:
		if f := x.Common().StaticCallee(); f != nil && r.is("C21") {
			reach := false
			for g := range r.c.P.Reach(f) {
				if r.frame[g] {
					reach = true
				}
			}
			r.ob(!reach, "answered-in-turn", "go "+FnName(f)+" in "+FnName(c.Fn), x.Pos(), "an answer is sent from a goroutine of its own: it can be sent in addition to, or after, the answer to a later request", st)
		}
	}
	return unk, false
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func (r *srvRun) onStore(c *InstrCtx, x *ssa.Store) {
	st := c.St
	v := c.av(x.Val)
	if t, f, ok := fieldOf(x.Addr); ok {
		switch {
		case t == "eipHeader" && f == "Command":
			st.Auto = st.Auto.Set("oh.cmd", avText(v))
		case t == "eipHeader" && f == "SessionHandle":
			st.Auto = st.Auto.Set("oh.ses", avText(v))
		case t == "eipHeader" && f == "Context":
			st.Auto = st.Auto.Set("oh.ctx", avText(v))
		case t == "serverTCPHandler" && f == "context":
			if v.K == kSym && v.S == "hctx" {
				st.Auto = st.Auto.Set("ctx", "1")
			} else {
				st.Auto = st.Auto.Set("ctx", "")
			}
		case t == "serverTCPHandler" && f == "handle":
			st.Auto = st.Auto.Set("hset", "1")
		case t == "serverTCPHandler" && f == "UnitDataSequencer":
			if v.K == kSym && (v.S == "seq" || v.S == "uds") {
				st.Auto = st.Auto.Set("uds", "1")
			} else {
				st.Auto = st.Auto.Set("uds", "")
			}
		case t == "serverConnection":
			if pt, ok := deref(x.Addr.Type()).Underlying().(*types.Pointer); ok && typeName(pt.Elem()) == "serverTCPHandler" {
				if k, isC := x.Val.(*ssa.Const); !isC || !k.IsNil() {
					st.Auto = st.Auto.Set("own", "1")
				}
			}
			if r.is("C33") && (idField[f] || f == "ID" || f == "OT" || f == "TO") {
				st.Auto = st.Auto.Set("e."+f, avText(v))
			}
		case t == "serverTCPHandler" && r.is("C33") && (f == "OTConnectionID" || f == "TOConnectionID"):
			st.Auto = st.Auto.Set("h."+f, avText(v))
		case t == "serverTCPHandler" && f == "TOConnectionID":
			if v.K == kSym && v.S == "to" {
				st.Auto = st.Auto.Set("hto", "1")
			}
		}
	}
	// an entry of a batched answer
	if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isByteSlice(x.Val.Type()) && st.Auto.Get("hd") != "" && st.Auto.Get("c") != "" && r.is("C23") {
		if cst, isC := x.Val.(*ssa.Const); isC && cst.IsNil() {
			return
		}
		_ = ia
		a := "ack"
		switch {
		case v.K == kSym && (v.S == "nack" || v.S == "ack"):
			a = v.S
		case st.Auto.Get("rs") != "" && st.Auto.Get("rs") != "0" && st.Auto.Get("rs") != "?":
			a = "nack"
		}
		site := "batched answer in " + FnName(c.Fn)
		if a == "ack" {
			prov := st.Auto.Get("prov")
			r.ob(prov == "wok" || prov == "rok", "batched-ack", site, x.Pos(), "a request inside a batched message can be acknowledged although the provider did not run, or returned an error", st)
		}
		st.Auto = st.Auto.Set("prov", "").Set("rs", "")
	}
}

func (r *srvRun) onCall(cc *CallCtx) ([]CallOut, bool) {
	st := cc.St
	a := st.Auto
	cm := cc.Common()
	if bi, ok := cm.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
		return nil, false
	}
	if cm.IsInvoke() {
		m := cm.Method.Name()
		switch {
		case isNetConn(cm.Value.Type()) && m == "Close":
			return []CallOut{{Auto: a.Set("cl", "").Set("closed", "1"), Res: []AV{avNil()}}, {Auto: a.Set("closed", "1"), Res: []AV{avNonNil()}}}, true
		case isNetConn(cm.Value.Type()) && m == "Write":
			return []CallOut{{Auto: a.Set("wr", "1"), Res: []AV{unk, avNil()}}, {Auto: a, Res: []AV{unk, avNonNil()}}}, true
		case typeName(cm.Value.Type()) == "CIPEndpoint" && (m == "TagWrite" || m == "TagRead"):
			if !r.is("C23") {
				break
			}
			k := "w"
			res := 1
			if m == "TagRead" {
				k = "r"
				res = 2
			}
			r.c.Instance("provider-call", m+" in "+FnName(cc.Fn))
			ok := CallOut{Auto: a.Set("prov", k+"ok"), Res: make([]AV, res)}
			ok.Res[res-1] = avNil()
			er := CallOut{Auto: a.Set("prov", k+"err"), Res: make([]AV, res)}
			er.Res[res-1] = avNonNil()
			return []CallOut{ok, er}, true
		}
	}
	// reading from the session's connection
	conn := -1
	for i, v := range cc.Args {
		if v.K == kSym && v.S == "conn" {
			conn = i
		}
	}
	if cc.Name == "bufio.NewReader" || cc.Name == "bufio.NewReaderSize" {
		if conn >= 0 {
			return []CallOut{{Auto: a, Res: []AV{avSym("conn")}}}, true
		}
	}
	lib := cc.Callee != nil && r.c.P.InLib(cc.Callee)
	if conn >= 0 && !lib && (cc.Name == "encoding/binary.Read" || strings.HasPrefix(cc.Name, "io.Read") || strings.HasPrefix(cc.Name, "io.Copy") || cm.IsInvoke() && strings.HasPrefix(cm.Method.Name(), "Read")) {
		hdr, body := false, false
		for i, v := range cm.Args {
			if t, _ := elemOut(v); t != nil && typeName(t) == "eipHeader" {
				hdr = true
			}
			_ = i
		}
		for i, v := range cc.Args {
			if v.K == kSym && (v.S == "body" || v.S == "len" && strings.HasPrefix(cc.Name, "io.CopyN")) {
				body = true
			}
			_ = i
		}
		if hdr {
			r.beginFrame(cc)
			opened := a.Get("hd")
			_ = opened
			na := clearKeys(a, frameKeys).Set("hd", "1").Set("body", "need").Set("opened", "")
			ea := a.Set("rerr", "1").Set("hd", "")
			return []CallOut{{Auto: na, Res: r.errRes(cc, avNil())}, {Auto: ea, Res: r.errRes(cc, avNonNil())}}, true
		}
		if r.is("C21") && a.Get("hd") != "" {
			full := body && !cm.IsInvoke() && cc.Name != "io.ReadAtLeast" && cc.Name != "io.ReadAll"
			r.ob(full && a.Get("body") == "need", "whole-frame", "body read in "+FnName(cc.Fn), cc.Pos(), "the session takes from the connection something other than exactly the bytes the header announced", st)
		}
		return []CallOut{{Auto: a.Set("body", "ok"), Res: r.errRes(cc, avNil())}, {Auto: a.Set("rerr", "1").Set("hd", ""), Res: r.errRes(cc, avNonNil())}}, true
	}
	if role := r.tableRole(cc.Callee); role != "" {
		ok := a
		switch role {
		case "add":
			ok = ok.Set("tbl", "added").Set("own", "")
			if r.is("C24") {
				r.ob(a.Get("own") == "1", "entry-owned", "entry added in "+FnName(cc.Fn), cc.Pos(), "a connection is put in the table without the session that opened it: it stays there when the session ends", st)
			}
			if r.is("C33") {
				for _, f := range [][2]string{{"ID", "ConnectionSerialNumber"}, {"VendorID", "VendorID"}, {"OriginatorSerialNumber", "OriginatorSerialNumber"}, {"OT", "OTConnectionID"}, {"TO", "TOConnectionID"}} {
					v := a.Get("e." + f[0])
					r.ob(v == "m."+f[1] || v == "rnd" && (f[0] == "TO" || f[0] == "OT"), "entry-identifiers", f[0]+" in "+FnName(cc.Fn), cc.Pos(), "a connection is put in the table under an identifier other than the one its open request carried", st)
				}
			}
		case "remove":
			if r.is("C33") {
				r.closeArgs(cc)
			}
			ok = ok.Set("tbl", "closed")
		case "clean":
			ok = ok.Set("cleaned", "1")
			if cc.Callee.Signature.Results().Len() == 0 {
				return []CallOut{{Auto: ok}}, true
			}
		}
		n := cc.Callee.Signature.Results().Len()
		outs := []CallOut{{Auto: ok, Res: make([]AV, n)}}
		if _, has := ErrAV(cc.Callee.Signature, make([]AV, n)); has {
			outs[0].Res[n-1] = avNil()
			er := CallOut{Auto: a, Res: make([]AV, n)}
			er.Res[n-1] = avNonNil()
			outs = append(outs, er)
		}
		return outs, true
	}
	if r.is("C33") {
		if strings.HasPrefix(cc.Name, "math/rand.Uint32") || strings.HasPrefix(cc.Name, "math/rand/v2.Uint32") {
			return []CallOut{{Auto: a, Res: []AV{avSym("rnd")}}}, true
		}
		if f := cc.Callee; f != nil && f.Signature.Recv() != nil && typeName(deref(f.Signature.Recv().Type())) == "serverConnectionManager" && f.Signature.Results().Len() > 0 && typeName(deref(f.Signature.Results().At(0).Type())) == "serverConnection" {
			for k, q := range f.Params[1:] {
				fl := ""
				if _, basic := q.Type().Underlying().(*types.Basic); basic {
					fl = comparedField(f, q, r.c.P, 0)
				} else if k+1 < len(cc.Common().Args) {
					// a function that tells the entry that is looked for
					if fl = matchedField(cc.Common().Args[k+1]); fl == "" {
						continue
					}
				}
				r.ob(fl == "OT", "looked-up-by-id", FnName(f)+" argument "+strconv.Itoa(k), f.Pos(), "the connection a request names is not looked up by the id the server gave out (its OT id)", st)
			}
		}
	}
	if isItemMethod(cc.Callee) || cc.Name == "encoding/binary.Read" {
		return r.decode(cc)
	}
	if itemParser(cc.Callee) {
		return []CallOut{{Auto: a.Set("fresh", "1"), Res: []AV{unk, avNil()}}, {Auto: a, Res: []AV{unk, avNonNil()}}}, true
	}
	if cc.Callee != nil && cc.Callee.Name() == "newItem" && len(cm.Args) == 2 && r.is("C33") && a.Get("hd") != "" {
		if k, ok := cm.Args[0].(*ssa.Const); ok && k.Int64() == 0xA1 {
			v := cc.Args[1]
			okk := v.K == kSym && v.S == "to"
			r.ob(okk, "reply-connection-id", "address item in "+FnName(cc.Fn), cc.Pos(), "a connected reply can carry a connection id that was not taken from the connection the request named", st)
		}
		return []CallOut{{Auto: a}}, true
	}
	if cc.Callee != nil && cc.Callee.Name() == "newItem" && len(cm.Args) == 2 && a.Get("hd") != "" {
		if k, ok := cm.Args[0].(*ssa.Const); ok && k.Int64() == 0xB1 {
			if mi, ok := cm.Args[1].(*ssa.MakeInterface); ok && isU16(mi.X.Type()) {
				v := cc.Args[1]
				if v.K == kSym {
					return []CallOut{{Auto: a.Set("nsq", v.S)}}, true
				}
				return []CallOut{{Auto: a.Set("nsq", "?")}}, true
			}
		}
		return []CallOut{{Auto: a.Set("nsq", "")}}, true
	}
	return nil, false
}

func (r *srvRun) errRes(cc *CallCtx, e AV) []AV {
	n := tupleLen(cc.Common())
	out := make([]AV, n)
	if n > 0 {
		out[n-1] = e
	}
	return out
}

// decode models the decoding of one value from an item of the request.
func (r *srvRun) decode(cc *CallCtx) ([]CallOut, bool) {
	st := cc.St
	a := st.Auto
	f := cc.Callee
	cm := cc.Common()
	name := ""
	if f != nil {
		name = f.Name()
	}
	item := isItemMethod(f)
	if item && name == "Reset" {
		return []CallOut{{Auto: a.Set("fresh", "1").Set("rst", "1")}}, true
	}
	var t types.Type
	var dst ssa.Value
	if item {
		if len(cm.Args) == 2 && f.Signature.Results().Len() == 1 && isErrorType(f.Signature.Results().At(0).Type()) {
			t, dst = elemOut(cm.Args[1])
			if t == nil {
				return nil, false
			}
		} else if len(cm.Args) == 1 && f.Signature.Results().Len() == 2 {
			t = f.Signature.Results().At(0).Type()
		} else {
			return nil, false
		}
	} else {
		if len(cm.Args) != 3 {
			return nil, false
		}
		t, dst = elemOut(cm.Args[2])
		if t == nil {
			return nil, false
		}
	}
	val := unk
	ok := a
	if item {
		if typeName(t) == "CIPService" {
			if a.Get("nsv") == "" || a.Get("rst") == "1" {
				val = avSym("svc")
				ok = ok.Set("c", "")
			} else {
				val = avSym("svi") // a request inside the request
				ok = ok.Set("c", "in")
			}
			ok = ok.Set("nsv", "1").Set("rst", "")
			ok = ok.Set("prov", "").Set("rs", "").Set("rsv", "")
		}
		if isU16(t) && a.Get("fresh") == "1" {
			val = avSym("seq")
			ok = ok.Set("fresh", "")
		} else if b, isB := t.Underlying().(*types.Basic); !isB || b.Kind() != types.Uint32 {
			ok = ok.Set("fresh", "")
		}
	}
	er := ok
	if dst != nil {
		if _, fld, isF := fieldOf(dst); isF && fld == "UnitDataSequencer" {
			if val.K == kSym && val.S == "seq" {
				ok = ok.Set("uds", "1")
			} else {
				ok = ok.Set("uds", "")
			}
		}
		if al, isA := dst.(*ssa.Alloc); isA && val.K != kUnk {
			for k := range st.cells {
				if k == al.Name()+"!z" {
					delete(st.cells, k)
				}
			}
			st.cells[al.Name()] = val
		}
	}
	res := r.errRes(cc, avNil())
	eres := r.errRes(cc, avNonNil())
	if dst == nil && len(res) == 2 {
		res[0] = val
		eres[0] = val
	}
	return []CallOut{{Auto: ok, Res: res}, {Auto: er, Res: eres}}, true
}

// afterCall: the outcome of sending one frame.
func (r *srvRun) afterCall(cc *CallCtx, outs []CallOut) []CallOut {
	if !r.frame[cc.Callee] {
		return outs
	}
	st := cc.St
	caller := FnName(cc.Fn)
	req := cc.St.Auto.Get("cmd")
	if req == "" {
		req = "other"
	}
	site := "answer to command " + req
	if s := cc.St.Auto.Get("o"); s != "" {
		site += " service " + s
		if c := cc.St.Auto.Get("c"); c != s && c != "" {
			site += "/" + c
		}
	}
	_ = caller
	var res []CallOut
	for _, o := range outs {
		e, has := ErrAV(cc.Callee.Signature, o.Res)
		a := o.Auto
		if has && e.K == kNonNil {
			a = clearKeys(a, []string{"oh.cmd", "oh.ses", "oh.ctx", "wr"})
			o.Auto = a
			res = append(res, o)
			continue
		}
		if a.Get("hd") == "" {
			// not serving a request
			res = append(res, o)
			continue
		}
		tmp := &State{Auto: a, trace: st.trace}
		tmp.note("%s: frame sent", r.c.P.Pos(cc.Pos()))
		rs, rsv := a.Get("rs"), a.Get("rsv")
		hasReply := rsv != ""
		svcN := int64(-1)
		if n, err := strconv.ParseInt(rsv, 10, 64); err == nil {
			svcN = n &^ 0x80
		}
		outer, cur := a.Get("o"), a.Get("c")
		switch r.id {
		case "C21":
			r.ob(a.Get("tx") == "", "answered-once", site, cc.Pos(), "a request can be answered twice", tmp)
			r.ob(a.Get("wr") == "1", "answer-written", FnName(cc.Callee), cc.Callee.Pos(), "sending an answer can report success without anything having been written to the connection", tmp)
		case "C22":
			oc := a.Get("oh.ctx")
			r.ob(oc == "hctx" || oc == "h.ctx" && a.Get("ctx") == "1", "context", site, cc.Pos(), "an answer can carry a sender context that is not the request's", tmp)
			os := a.Get("oh.ses")
			r.ob(os == "hses" || os == "h.ses", "session", site, cc.Pos(), "an answer can carry a session handle that is not the session's", tmp)
			if a.Get("cmd") == "101" {
				r.ob(os == "hses" || a.Get("hset") == "1", "session-assigned", site, cc.Pos(), "a registration is acknowledged before the session has its handle", tmp)
			}
			if oh := a.Get("oh.cmd"); oh != "?" && oh != "" {
				r.ob(oh == "cmd" || oh == a.Get("cmd"), "command", site+" cmd "+a.Get("cmd"), cc.Pos(), "an answer carries a command other than the request's", tmp)
			} else {
				r.ob(oh != "", "command", site, cc.Pos(), "an answer carries no command", tmp)
			}
			if hasReply {
				if svcN >= 0 {
					n, _ := strconv.ParseInt(rsv, 10, 64)
					bit := n&0x80 != 0
					s := strconv.FormatInt(svcN, 10)
					r.ob(bit && (s == cur || s == outer && (cur == "" || outer == strconv.Itoa(svcMulti))), "service", site+" service "+s+" for "+outer+"/"+cur, cc.Pos(), "an answer carries a service code that is not the request's with the response bit", tmp)
				} else if rsv == "svc|80" {
					r.ob(cur == "" || cur == outer || outer == strconv.Itoa(svcMulti), "service", site+" "+rsv, cc.Pos(), "an answer carries the service code of the message the request was wrapped in", tmp)
				} else if rsv == "svc" || rsv == "svi" {
					r.ob(false, "service", site, cc.Pos(), "an answer carries the request's service code without the response bit", tmp)
				} else {
					r.c.Instance("service", site+" "+rsv)
				}
				if a.Get("cmd") == "112" {
					q := a.Get("rsq")
					if q == "-" {
						q = a.Get("nsq")
					}
					r.ob(q == "seq" || q == "uds" && a.Get("uds") == "1", "sequence", site, cc.Pos(), "an answer on a connection can carry a sequence count other than the request's", tmp)
				}
			}
			if cm := a.Get("cmd"); (cm == "111" || cm == "112") && !hasReply {
				r.ob(false, "service", site, cc.Pos(), "an answer to a service request carries no service code", tmp)
			}
		case "C23":
			if hasReply && (rs == "0" || rs == "?") {
				p := a.Get("prov")
				r.ob(!strings.HasSuffix(p, "err"), "provider-error-reported", site, cc.Pos(), "a request can be acknowledged with success although the provider returned an error", tmp)
				switch svcN {
				case svcWrite, svcFragWrite, svcSetAttr:
					r.ob(p == "wok", "write-acknowledged", site+" "+strconv.Itoa(int(svcN)), cc.Pos(), "a write can be acknowledged without the provider having accepted it", tmp)
				case svcRead, svcFragRead:
					r.ob(p == "rok", "read-backed", site+" "+strconv.Itoa(int(svcN)), cc.Pos(), "a read can be answered with success without the provider having returned the data", tmp)
				}
			}
		case "C24":
			if hasReply && rs == "0" {
				if a.Get("rop") == "1" {
					r.ob(a.Get("tbl") == "added", "open-is-in-table", site, cc.Pos(), "an open can be acknowledged while its connection is not in the table", tmp)
					a = a.Set("opened", "1")
				}
				if outer == strconv.Itoa(svcClose) {
					r.ob(a.Get("tbl") == "closed", "close-removes", site, cc.Pos(), "a close can be acknowledged while the connection is still in the table", tmp)
				}
			}
		}
		if a.Get("tx") == "" {
			a = a.Set("tx", "1")
		} else {
			a = a.Set("tx", "2")
		}
		a = clearKeys(a, []string{"oh.cmd", "oh.ses", "oh.ctx", "wr", "rs", "rsv", "rsq", "nsq", "rop"})
		o.Auto = a
		if has {
			// a send that reports nothing is a send that succeeded
			o.Res[len(o.Res)-1] = avNil()
		}
		res = append(res, o)
	}
	return res
}

// identifiers of a connection inside messages.
var idField = map[string]bool{"ConnectionSerialNumber": true, "VendorID": true, "OriginatorSerialNumber": true, "OTConnectionID": true, "TOConnectionID": true}

// openReply checks the identifiers in the answer to an open.
func (r *srvRun) openReply(c *InstrCtx, key string, s *types.Struct, pos token.Pos) {
	if !r.is("C33") || c.St.Auto.Get("hd") == "" {
		return
	}
	has := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		has[s.Field(i).Name()] = i
	}
	if _, ok := has["OTConnectionID"]; !ok {
		return
	}
	a := c.St.Auto
	for f, i := range has {
		if !idField[f] {
			continue
		}
		v := avText(c.St.cells[fmt.Sprintf("%s.f%d", key, i)])
		ok := false
		switch f {
		case "OTConnectionID":
			ok = v == "e.OT"
		case "TOConnectionID":
			ok = v == "e.TO" || v != "?" && v == a.Get("e.TO")
		default:
			ok = v == "m."+f
		}
		r.ob(ok, "open-reply-identifiers", f+" in "+FnName(c.Fn), pos, "the answer to an open carries an identifier other than the one the connection is kept under ("+v+")", c.St)
	}
}

// closeArgs: a close names all three identifiers, each compared with the entry's own.
func (r *srvRun) closeArgs(cc *CallCtx) {
	f := cc.Callee
	want := map[string]string{"ID": "m.ConnectionSerialNumber", "VendorID": "m.VendorID", "OriginatorSerialNumber": "m.OriginatorSerialNumber"}
	got := map[string]bool{}
	for k, q := range f.Params[1:] {
		fl := comparedField(f, q, r.c.P, 0)
		v := unk
		if k+1 < len(cc.Args) {
			v = cc.Args[k+1]
		}
		if w, ok := want[fl]; ok && v.K == kSym && v.S == w {
			got[fl] = true
		}
	}
	for fl := range want {
		r.ob(got[fl], "close-identifiers", fl+" in "+FnName(cc.Fn), cc.Pos(), "a close removes a connection without comparing this identifier of it with the one the request carried: it can remove another connection", cc.St)
	}
}

// comparedField: the field of a connection that parameter q of f is compared with.
func comparedField(f *ssa.Function, q *ssa.Parameter, p *Prog, d int) string {
	if d > 3 || q.Referrers() == nil {
		return ""
	}
	refs := append([]ssa.Instruction(nil), *q.Referrers()...)
	// a parameter captured by a closure
	for _, r := range *q.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Val == q {
			if al, ok := s.Addr.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, r2 := range *al.Referrers() {
					switch x := r2.(type) {
					case *ssa.UnOp:
						refs = append(refs, *x.Referrers()...)
					case *ssa.MakeClosure:
						fn := x.Fn.(*ssa.Function)
						for i, b := range x.Bindings {
							if b == al && i < len(fn.FreeVars) && fn.FreeVars[i].Referrers() != nil {
								for _, r3 := range *fn.FreeVars[i].Referrers() {
									if u, ok := r3.(*ssa.UnOp); ok {
										refs = append(refs, *u.Referrers()...)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, r := range refs {
		switch x := r.(type) {
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				for _, o := range []ssa.Value{x.X, x.Y} {
					if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
						if t, fl, ok := fieldOf(u.X); ok && t == "serverConnection" {
							return fl
						}
					}
				}
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && p.InLib(g) {
				for k, a := range x.Call.Args {
					if a == q && k < len(g.Params) {
						if fl := comparedField(g, g.Params[k], p, d+1); fl != "" {
							return fl
						}
					}
				}
			}
		}
	}
	return ""
}

// matchedField is the field of an entry that a predicate compares.
func matchedField(v ssa.Value) string {
	mc, ok := v.(*ssa.MakeClosure)
	if !ok {
		return ""
	}
	for _, b := range mc.Fn.(*ssa.Function).Blocks {
		for _, i := range b.Instrs {
			x, ok := i.(*ssa.BinOp)
			if !ok || x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}
			for _, o := range []ssa.Value{x.X, x.Y} {
				if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL {
					if t, fl, ok := fieldOf(u.X); ok && t == "serverConnection" {
						return fl
					}
				}
			}
		}
	}
	return ""
}

func (r *srvRun) run() {
	p := r.c.P
	roots := sessionRoots(p)
	if !r.c.Anchor(len(roots) > 0, "session started by the accepting loop") {
		return
	}
	reach := p.Reach(roots...)
	r.frame = frameFuncs(p, reach)
	if !r.c.Anchor(len(r.frame) > 0, "function sending a frame on a session") {
		return
	}
	for _, f := range roots {
		d := r.domain()
		s := NewSim(p, d, nil)
		outs := s.Run(f, "")
		for _, o := range outs {
			st := &State{Auto: o.Auto, trace: o.trace}
			if r.is("C24") {
				r.ob(o.Auto.Get("cleaned") == "1", "session-end-cleans", FnName(f), f.Pos(), "a session can end without its connections being removed from the table", st)
			}
			if r.is("C25") {
				r.ob(o.Auto.Get("closed") == "1", "session-closed", FnName(f), f.Pos(), "a session can end without its socket being closed", st)
			}
		}
		for _, o := range s.overflow {
			r.c.Fail("analysis", "overflow in "+o, "-", "the state space of "+o+" could not be explored completely")
		}
		r.c.Info["steps "+FnName(f)] = s.Steps
		r.c.Info["functions_analysed "+FnName(f)] = len(s.Funcs)
	}
}

func init() {
	rules["C21"] = func(c *Check) {
		c.Rule("answered-once", "between one header read and the next, on every path, exactly one frame was successfully sent (none for NOP)")
		c.Rule("whole-frame", "after the header exactly the announced number of bytes is read, in full, before the next header")
		c.Rule("answer-written", "a sending function reports success only after writing to the connection")
		c.Rule("answered-in-turn", "no goroutine started while serving a request sends a frame on the session")
		r := &srvRun{c: c, id: "C21"}
		r.run()
		c.Floor("answered-once", 5)
		c.Floor("whole-frame", 2)
		c.Floor("answer-written", 1)
	}
	rules["C22"] = func(c *Check) {
		c.Rule("context", "the sender context of every frame sent is the one of the request being served")
		c.Rule("session", "the session handle of every frame sent is the session's")
		c.Rule("session-assigned", "a registration is acknowledged after the handle was assigned")
		c.Rule("command", "the command of every frame sent is the request's")
		c.Rule("service", "the service code of every reply header is the request's with the response bit")
		c.Rule("sequence", "every reply on a connection carries the request's sequence count")
		r := &srvRun{c: c, id: "C22"}
		r.run()
		c.Floor("context", 3)
		c.Floor("session", 3)
		c.Floor("command", 3)
		c.Floor("service", 6)
		c.Floor("sequence", 3)
	}
	rules["C23"] = func(c *Check) {
		c.Rule("provider-call", "provider calls seen")
		c.Rule("provider-error-reported", "no success reply is sent for a request whose provider call returned an error")
		c.Rule("write-acknowledged", "a success reply to a write service is sent only after TagWrite returned nil for this request")
		c.Rule("read-backed", "a success reply to a read service is sent only after TagRead returned nil for this request")
		c.Rule("batched-ack", "each success entry of a batched reply is stored only after the provider call of that entry returned nil")
		r := &srvRun{c: c, id: "C23"}
		r.run()
		c.Floor("provider-call", 4)
		c.Floor("write-acknowledged", 1)
		c.Floor("read-backed", 1)
		c.Floor("batched-ack", 1)
	}
	rules["C24"] = func(c *Check) {
		c.Rule("open-is-in-table", "an open is acknowledged with success only after its connection was added to the table in the same request")
		c.Rule("open-leaves-nothing", "a connection added for an open that was not acknowledged is removed, or the session ends")
		c.Rule("close-removes", "a close is acknowledged with success only after a removal returned nil")
		c.Rule("session-end-cleans", "every way a session ends removes its connections from the table")
		c.Rule("entry-owned", "every entry is added with the session that opened it")
		c.Rule("removed-means-closed", "every removal marks exactly the entries it takes out as closed")
		c.Rule("removes-one", "a removal by identifier takes out the matching entry and nothing else")
		c.Rule("io-stops", "before each I/O message is sent the connection was seen open since the last one")
		r := &srvRun{c: c, id: "C24"}
		r.run()
		tableRemovals(c)
		ioLoops(c)
		c.Floor("open-is-in-table", 2)
		c.Floor("close-removes", 1)
		c.Floor("entry-owned", 1)
		c.Floor("removed-means-closed", 2)
		c.Floor("io-stops", 1)
	}
	rules["C25"] = func(c *Check) {
		c.Rule("stops-on-failure", "after a failed accept, receive or session read that was not seen to be temporary, the loop does not wait on it again")
		c.Rule("session-closed", "every way a session ends closes its socket")
		c.Rule("listener-released", "every return of the serving entry point releases every listener that was opened")
		c.Rule("failure-reported", "a serving loop only ends with an error, and the goroutine it runs in tells the waiting caller")
		r := &srvRun{c: c, id: "C25"}
		r.run()
		listenerRules(c)
		c.Floor("stops-on-failure", 2)
		c.Floor("listener-released", 1)
		c.Floor("failure-reported", 2)
	}
	rules["C33"] = func(c *Check) {
		c.Rule("reply-connection-id", "the address item of every connected reply is the TO id of the connection the request named")
		c.Rule("entry-identifiers", "an entry of the connection table carries the identifiers of its open request")
		c.Rule("open-reply-identifiers", "the answer to an open carries the identifiers the connection is kept under")
		c.Rule("close-identifiers", "a close compares serial number, vendor and originator of the request with those of the entry")
		c.Rule("looked-up-by-id", "the connection a request names is looked up by the id the server gave out")
		r := &srvRun{c: c, id: "C33"}
		r.run()
		c.Floor("reply-connection-id", 3)
		c.Floor("entry-identifiers", 5)
		c.Floor("open-reply-identifiers", 5)
		c.Floor("close-identifiers", 3)
		c.Floor("looked-up-by-id", 1)
		c.Rule("close-names-open", "whenever a client operation ends, the serial, vendor and originator a close would send are those of the last open")
		c.Rule("device-connection-id", "the connection id sent with connected requests is the one field the open reply's OT id is stored in")
		c.Rule("device-session", "every header a client builds carries the one field the register reply's handle is stored in")
		c.Rule("identifier-layout", "serial, vendor and originator are adjacent and equally wide in every open and close message; the OT id is the first field of the open reply")
		clientIdentity(c)
		c.Floor("close-names-open", 3)
		c.Floor("device-connection-id", 2)
		c.Floor("device-session", 2)
		c.Floor("identifier-layout", 3)
	}
}
