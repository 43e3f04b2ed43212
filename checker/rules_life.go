package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The "life" domain follows one client operation: the connection status it owns, the socket it
// dialled, deadlines, transport errors and the status of the reply it is looking at.
// Each property switches on only the facts it needs.

type lifeFlags struct {
	status bool // connStatus ownership and transitions
	sock   bool // dialled socket closed
	dl     bool // deadlines
	ioe    bool // transport errors
	ev     bool // evidence that a connection exists
	cst    bool // reply status
	reg    bool // registration and open succeeded before "connected"
	seq    bool // sequence counts
}

type life struct {
	c                   *Check
	f                   lifeFlags
	sim                 *Sim
	roots               []*ssa.Function
	exch                map[*ssa.Function]bool // functions that may perform an exchange
	connect, disconnect *ssa.Function
}

const (
	stDisc = "0"
	stConn = "2"
)

// EtherNet/IP command codes.
const (
	cmdRegister = 0x65
	cmdRR       = 0x6F
	cmdUnit     = 0x70
)

func isClientConn(v ssa.Value) bool {
	t, f, ok := fieldOf(v)
	return ok && t == "Client" && f == "conn"
}

func (l *life) fail(rule, construct string, pos token.Pos, msg string, st *State) {
	l.c.Fail(rule, construct, l.c.P.Pos(pos), msg, st.Trace()...)
}

func statusIntersect(cur string, op token.Token, n int64) (string, bool) {
	if cur == "" {
		cur = "0123" // C02 verifies that only these are ever stored
	}
	out := ""
	for _, ch := range cur {
		v := int64(-1)
		if ch != 'x' {
			v = int64(ch - '0')
		}
		keep := true
		isConst := n >= 0 && n <= 3
		switch op {
		case token.EQL:
			keep = v == n || (ch == 'x' && !isConst)
		case token.NEQ:
			keep = v != n || ch == 'x'
		}
		if keep {
			out += string(ch)
		}
	}
	if out == "0123" {
		return "", true
	}
	return out, out != ""
}

func itemSliceType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeName(s.Elem()) == "CIPItem"
}

// itemParser: a function turning a reader into the items of a reply.
func itemParser(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() != nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 2 {
		return false
	}
	if !itemSliceType(f.Signature.Results().At(0).Type()) || !isErrorType(f.Signature.Results().At(1).Type()) {
		return false
	}
	p := typeString(f.Signature.Params().At(0).Type())
	return p == "io.Reader" || p == "*bytes.Buffer" || p == "*bytes.Reader"
}

// wireFields flattens a type into (offset, size, path) leaves of its packed little-endian encoding.
type wireLeaf struct {
	off, size int
	path      string // Type.Field or Type.Field[i]
	t         types.Type
}

func wireLeaves(t types.Type) ([]wireLeaf, int, bool) {
	var out []wireLeaf
	off := 0
	var walk func(t types.Type, path string) bool
	walk = func(t types.Type, path string) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			n := basicWire(u)
			if n == 0 {
				return false
			}
			out = append(out, wireLeaf{off, n, path, t})
			off += n
			return true
		case *types.Array:
			for i := 0; i < int(u.Len()) && i < 512; i++ {
				if !walk(u.Elem(), fmt.Sprintf("%s[%d]", path, i)) {
					return false
				}
			}
			return true
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				p := typeName(t) + "." + u.Field(i).Name()
				if !walk(u.Field(i).Type(), p) {
					return false
				}
			}
			return true
		}
		return false
	}
	ok := walk(t, "")
	return out, off, ok
}

func basicWire(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32:
		return 4
	case types.Int64, types.Uint64, types.Float64, types.Complex64:
		return 8
	}
	return 0
}

// readTarget: the static type read by DeSerialize(&x) / binary.Read(r, order, &x).
func readTarget(v ssa.Value) types.Type {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return mi.X.Type()
	}
	return nil
}

// itemRead recognises a read from a reply item; target is what it reads (nil: unknown), result says the value is returned directly.
func itemRead(cc *CallCtx) (target types.Type, direct, ok bool) {
	c := cc.Common()
	f := c.StaticCallee()
	if f == nil {
		return nil, false, false
	}
	name := cc.Name
	if name == "encoding/binary.Read" && len(c.Args) == 3 {
		src := c.Args[0]
		for {
			switch x := src.(type) {
			case *ssa.MakeInterface:
				src = x.X
				continue
			case *ssa.ChangeInterface:
				src = x.X
				continue
			}
			break
		}
		switch typeString(src.Type()) {
		case "*" + modPath + ".CIPItem", "*bytes.Buffer", "*bytes.Reader", "io.Reader":
			return readTarget(c.Args[2]), false, true
		}
		return nil, false, false
	}
	if f.Signature.Recv() != nil && typeName(f.Signature.Recv().Type()) == "CIPItem" {
		r := f.Signature.Results()
		if f.Signature.Params().Len() == 1 && r.Len() == 1 && isErrorType(r.At(0).Type()) {
			if _, isI := f.Signature.Params().At(0).Type().Underlying().(*types.Interface); isI && !f.Signature.Variadic() {
				return readTarget(c.Args[1]), false, true
			}
		}
		if f.Signature.Params().Len() == 0 && r.Len() == 2 && isErrorType(r.At(1).Type()) {
			if b, isB := r.At(0).Type().Underlying().(*types.Basic); isB && basicWire(b) > 0 {
				return r.At(0).Type(), true, true
			}
		}
	}
	return nil, false, false
}

func (l *life) statusOff(a Auto) int {
	if a.Get("xc") == strconv.Itoa(cmdRR) {
		return 2
	}
	return 4
}

// leafOf renders the static path of a load: Type.Field or Type.Field[const].
func leafOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return leafOf(x.X)
		}
	case *ssa.FieldAddr, *ssa.Field:
		if t, f, ok := fieldOf(v); ok {
			return t + "." + f
		}
	case *ssa.IndexAddr:
		if c, ok := x.Index.(*ssa.Const); ok {
			if b := leafOf(x.X); b != "" {
				return fmt.Sprintf("%s[%d]", b, c.Int64())
			}
		}
	case *ssa.Index:
		if c, ok := x.Index.(*ssa.Const); ok {
			if b := leafOf(x.X); b != "" {
				return fmt.Sprintf("%s[%d]", b, c.Int64())
			}
		}
	}
	return ""
}

func (l *life) domain() *Domain {
	d := &Domain{Name: "life"}
	d.TrackField = func(t, f string) bool {
		return l.f.dl && t == "Client" && f == "SocketTimeout"
	}
	d.OnInstr = func(c *InstrCtx) (AV, bool) {
		st := c.St
		switch x := c.I.(type) {
		case *ssa.FieldAddr:
			if _, ok := isMutexType(deref(x.Type())); ok {
				t, f, _ := fieldOf(x)
				return avSym("lock:" + t + "." + f), true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if isClientConn(x.X) {
					return avSym("conn"), true
				}
				lf := leafOf(x.X)
				switch {
				case lf == "Client.connStatus":
					return avSym("st"), true
				case lf == "Client.ConnectionSize" && (l.f.ioe || l.f.reg):
					return avSym("csz"), true
				case lf == "":
				case lf == "eipHeader.Status" && (l.f.reg || l.f.cst):
					return avSym("hst"), true
				case l.f.cst || l.f.reg:
					if lf == st.Auto.Get("stf") {
						return avSym("cip"), true
					}
					if lf == st.Auto.Get("istf") {
						return avSym("icip"), true
					}
				}
			}
			if x.Op == token.XOR || x.Op == token.SUB {
				return unk, true
			}
		case *ssa.Field, *ssa.Index:
			v := x.(ssa.Value)
			if lf := leafOf(v); lf != "" && (l.f.cst || l.f.reg) {
				switch lf {
				case "eipHeader.Status":
					return avSym("hst"), true
				case st.Auto.Get("stf"):
					return avSym("cip"), true
				case st.Auto.Get("istf"):
					return avSym("icip"), true
				}
			}
		case *ssa.BinOp:
			// a mask keeps naming the status when it keeps the whole status byte, the low one
			if x.Op == token.AND {
				for _, w := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					if a, m := c.av(w[0]), c.av(w[1]); a.K == kSym && (a.S == "cip" || a.S == "icip") && m.K == kInt {
						if m.N&0xFF == 0xFF {
							return a, true
						}
						return unk, true
					}
				}
			}
			if x.Op == token.SHR || x.Op == token.SHL || x.Op == token.AND_NOT || x.Op == token.OR {
				if a := c.av(x.X); a.K == kSym && (a.S == "cip" || a.S == "icip") {
					return unk, true
				}
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				break
			}
			t, f, _ := fieldOf(fa)
			v := c.av(x.Val)
			switch {
			case t == "Client" && f == "connStatus" && !freshBase(fa.X):
				l.storeStatus(c, x, v)
			case t == "Client" && f == "conn" && !freshBase(fa.X):
				l.storeConn(c, x, v)
			case t == "eipHeader" && f == "Command":
				if v.K == kInt {
					st.Auto = st.Auto.Set("cmd", strconv.FormatInt(v.N, 10))
				} else {
					st.Auto = st.Auto.Set("cmd", "?")
				}
			case t == "Client" && f == "ConnectionSize" && (l.f.ioe || l.f.reg):
				if v.K == kInt {
					st.Auto = st.Auto.Set("csz", fmt.Sprintf("%d:%d", v.N, v.N))
				} else {
					st.Auto = st.Auto.Set("csz", "")
				}
			case l.f.seq && v.K == kSym && v.S == "seq":
				if isSeqField(fa) {
					if st.Auto.Get("drawn") == "1" {
						st.Auto = st.Auto.Set("sq", "placed").Set("drawn", "")
					}
					l.c.Instance("placed", t+"."+f+" in "+FnName(c.Fn))
				}
			}
		}
		return unk, false
	}
	d.OnCall = l.onCall
	d.AfterCall = func(cc *CallCtx, outs []CallOut) []CallOut {
		f := cc.Callee
		if f == nil || !l.exch[f] {
			return outs
		}
		if l.f.cst && l.isOperation(f) {
			// an operation that reported its failure to the caller has done its part; whether the
			// caller may drop that error is C28's question
			for i, o := range outs {
				if e, ok := ErrAV(f.Signature, o.Res); ok && e.K == kNonNil {
					for _, k := range []string{"cst", "ist", "stf", "istf", "pos", "hs", "xc"} {
						outs[i].Auto = outs[i].Auto.Set(k, cc.St.Auto.Get(k))
					}
				}
			}
			return outs
		}
		if _, hasErr := ErrAV(f.Signature, make([]AV, f.Signature.Results().Len())); hasErr {
			return outs
		}
		if _, isB := firstBool(f.Signature); isB {
			return outs
		}
		// a probe: its caller cannot see whether it failed, so its exchange is its own business
		if f.Signature.Results().Len() == 0 && f.Parent() != nil {
			return outs // deferred/inline closures belong to the operation
		}
		var r []CallOut
		seen := map[string]bool{}
		for _, o := range outs {
			for _, k := range []string{"cst", "ist", "stf", "istf", "pos", "ioe", "off", "hs", "xc"} {
				o.Auto = o.Auto.Set(k, cc.St.Auto.Get(k))
			}
			k := string(o.Auto)
			for _, a := range o.Res {
				k += a.String() + ","
			}
			if !seen[k] {
				seen[k] = true
				r = append(r, o)
			}
		}
		return r
	}
	d.OnBranch = func(a Auto, s string, op token.Token, n int64) (Auto, bool) {
		switch s {
		case "conn":
			if n == nilN {
				if op == token.NEQ {
					if a.Get("cn") == "nil" {
						return a, false
					}
					if l.f.ev {
						a = a.Set("ev", "1")
					}
					if l.f.sock || l.f.status {
						a = a.Set("cn", "nn")
					}
					return a, true
				}
				if op == token.EQL {
					if a.Get("cn") == "nn" || a.Get("sock") == "open" {
						return a, false
					}
				}
			}
		case "st":
			ns, ok := statusIntersect(a.Get("s"), op, n)
			if !ok {
				return a, false
			}
			a = a.Set("s", ns)
			if l.f.ev && ns == stConn {
				a = a.Set("ev", "1")
			}
			if a.Get("ioe") != "" && ns != "" && !strings.Contains(ns, "2") && !strings.Contains(ns, "x") {
				a = a.Set("off", "1")
			}
		case "csz":
			lo, hi := int64(0), int64(65535)
			if v := a.Get("csz"); v != "" {
				fmt.Sscanf(v, "%d:%d", &lo, &hi)
			}
			switch op {
			case token.EQL:
				lo, hi = max(lo, n), min(hi, n)
			case token.LSS:
				hi = min(hi, n-1)
			case token.LEQ:
				hi = min(hi, n)
			case token.GTR:
				lo = max(lo, n+1)
			case token.GEQ:
				lo = max(lo, n)
			case token.NEQ:
				if lo == n {
					lo++
				}
				if hi == n {
					hi--
				}
			}
			return a.Set("csz", fmt.Sprintf("%d:%d", lo, hi)), lo <= hi
		case "hst":
			if n == 0 && op == token.EQL {
				if a.Get("hs") == "bad" {
					return a, false
				}
				a = a.Set("hs", "ok")
				if a.Get("reg") == "pend" {
					a = a.Set("reg", "ok")
				}
			} else if n == 0 && (op == token.NEQ || op == token.GTR) {
				if a.Get("hs") == "ok" {
					return a, false
				}
				a = a.Set("hs", "bad")
			}
		case "cip":
			v, ok := statusStep(a.Get("cst"), op, n)
			return a.Set("cst", v), ok
		case "icip":
			v, ok := statusStep(a.Get("ist"), op, n)
			return a.Set("ist", v), ok
		}
		return a, true
	}
	return d
}

func firstBool(sig *types.Signature) (int, bool) {
	for i := 0; i < sig.Results().Len(); i++ {
		if isBool(sig.Results().At(i).Type()) {
			return i, true
		}
	}
	return 0, false
}

// statusStep narrows what is known about a reply status: pend (anything), ok (0), part (6), bad (neither or unknown non-zero), nz.
func statusStep(cur string, op token.Token, n int64) (string, bool) {
	switch op {
	case token.EQL:
		switch n {
		case 0:
			if cur == "nz" || cur == "bad" || cur == "part" {
				return cur, false
			}
			return "ok", true
		case 6:
			if cur == "ok" || cur == "bad" || cur == "no6" {
				return cur, false
			}
			return "part", true
		default:
			if cur == "ok" || cur == "part" {
				return cur, false
			}
			if cur == "pend" || cur == "nz" || cur == "no6" || cur == "bad" {
				return "bad", true
			}
		}
	case token.NEQ:
		switch n {
		case 0:
			switch cur {
			case "ok":
				return cur, false
			case "pend":
				return "nz", true
			case "no6":
				return "bad", true
			}
		case 6:
			switch cur {
			case "part":
				return cur, false
			case "pend":
				return "no6", true
			case "nz":
				return "bad", true
			}
		}
	case token.GTR:
		if n == 0 {
			return statusStep(cur, token.NEQ, 0)
		}
	case token.LEQ:
		if n == 0 {
			return statusStep(cur, token.EQL, 0)
		}
	case token.LSS:
		if n == 1 {
			return statusStep(cur, token.EQL, 0)
		}
	case token.GEQ:
		if n == 1 {
			return statusStep(cur, token.NEQ, 0)
		}
	}
	return cur, true
}

func (l *life) storeStatus(c *InstrCtx, x *ssa.Store, v AV) {
	st := c.St
	a := st.Auto
	own, s := a.Get("own"), a.Get("s")
	construct := "store in " + FnName(c.Fn)
	if v.K != kInt || v.N < 0 || v.N > 3 {
		if l.f.status {
			l.fail("transition", construct, x.Pos(), "the connection status is set to a value that is not one of the four states", st)
		}
		st.Auto = a.Set("own", "?").Set("s", "")
		return
	}
	n := strconv.FormatInt(v.N, 10)
	if l.f.status {
		ok := true
		why := ""
		switch n {
		case "1":
			ok = s == "0"
			why = "the client is marked connecting without having seen that it is disconnected: another connect or disconnect may own it"
		case "3":
			ok = s == "2" || s == "x" || s == "2x"
			why = "the client is marked disconnecting without having seen that it is connected: another connect or disconnect may own it"
		case "2":
			ok = own == "1"
			why = "the client is marked connected by an operation that did not start connecting"
		case "0":
			ok = own == "1" || own == "3"
			why = "the client is marked disconnected by an operation that does not own the transition"
		}
		l.c.Oblige(ok, "transition", "to "+n+" "+construct, l.c.P.Pos(x.Pos()), why, st.Trace()...)
	}
	if l.f.reg && n == "2" {
		l.c.Oblige(a.Get("reg") == "ok", "connected-means-registered", construct, l.c.P.Pos(x.Pos()), "the client is marked connected although session registration did not succeed on this path (its reply status must have been examined)", st.Trace()...)
		l.c.Oblige(a.Get("cst") == "ok" && a.Get("xc") == strconv.Itoa(cmdRR), "connected-means-open", construct, l.c.P.Pos(x.Pos()), "the client is marked connected although no connection open succeeded on this path (the last reply's status must be success)", st.Trace()...)
	}
	a = a.Set("s", n)
	if l.f.status || l.f.sock || l.f.ioe || l.f.reg {
		a = a.Set("own", n)
	}
	if l.f.sock && n == "3" {
		a = a.Set("clo", "need")
	}
	if n == "0" && a.Get("ioe") != "" {
		a = a.Set("off", "1")
	}
	if l.f.ev && n == "2" {
		a = a.Set("ev", "1")
	}
	st.Auto = a
}

func (l *life) storeConn(c *InstrCtx, x *ssa.Store, v AV) {
	st := c.St
	switch {
	case v.K == kSym && v.S == "conn":
		if l.f.ev {
			st.Auto = st.Auto.Set("ev", "1")
		}
	case l.f.ev:
		l.fail("conn-never-nil", "store in "+FnName(c.Fn), x.Pos(), "the client's connection is overwritten with something that may be nil: an operation that already checked for a connection would dereference it", st)
		st.Auto = st.Auto.Set("ev", "")
	}
}

func (l *life) onCall(cc *CallCtx) ([]CallOut, bool) {
	a := cc.St.Auto
	name := cc.Name
	if outs, ok := l.contract(cc); ok {
		return outs, true
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		if len(cc.Args) > 0 && cc.Args[0].K == kSym && cc.Args[0].S == "lock:Client.mutex" {
			switch a.Get("own") {
			case "1", "3":
				a = a.Set("s", a.Get("own"))
			default:
				// what another goroutine did meanwhile is unknown, except that a lost connection is seen as lost
				if a.Get("off") != "1" || a.Get("s") != stDisc {
					a = a.Set("s", "")
				}
			}
			if l.f.dl {
				a = a.Set("dr", "").Set("dw", "")
			}
		}
		return []CallOut{{Auto: a}}, true
	case "errors.As":
		// a transport error is never one of the library's own error types
		if a.Get("ioe") != "" {
			if mi, ok := cc.Common().Args[1].(*ssa.MakeInterface); ok {
				if n := namedOf(deref(mi.X.Type())); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg() == l.c.P.Root.Pkg {
					return []CallOut{{Auto: a, Res: []AV{avBool(false)}}}, true
				}
			}
		}
	case "net.Dial", "net.DialTimeout", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net.DialTCP", "crypto/tls.Dial", "crypto/tls.DialWithDialer":
		if !l.clientDial(cc) {
			break
		}
		construct := name + " in " + FnName(cc.Fn)
		if l.f.dl {
			ok, why := l.dialBounded(cc)
			l.c.Oblige(ok, "dial-bounded", construct, l.c.P.Pos(cc.Pos()), why, cc.St.Trace()...)
		}
		if l.f.sock {
			l.c.Instance("closed-on-failure", construct)
			if a.Get("sock") == "open" {
				l.fail("closed-on-failure", construct+" again", cc.Pos(), "a second connection is dialled while the first is still open and not yet handed to the client", cc.St)
			}
		}
		okA, erA := a, a
		if l.f.sock || l.f.status {
			okA = okA.Set("cn", "nn")
		}
		if l.f.sock {
			okA = okA.Set("sock", "open")
		}
		return []CallOut{{Auto: okA, Res: []AV{avSym("conn"), avNil()}}, {Auto: erA, Res: []AV{avNil(), avNonNil()}}}, true
	case "sync/atomic.AddUint32", "(*sync/atomic.Uint32).Add", "sync/atomic.AddUint64", "(*sync/atomic.Uint64).Add", "sync/atomic.AddInt32", "(*sync/atomic.Int32).Add":
		if l.f.seq {
			return []CallOut{{Auto: a.Set("drawn", "1"), Res: []AV{avSym("seq")}}}, true
		}
	}
	if l.f.cst || l.f.reg {
		if outs, ok := l.replyCall(cc); ok {
			return outs, true
		}
	}
	use := connUse(cc)
	if use == "" {
		return nil, false
	}
	site := use + " at " + cc.Site()
	if l.f.ev && use != "info" {
		l.c.Oblige(a.Get("ev") != "", "conn-exists", site+" in "+FnName(cc.Fn), l.c.P.Pos(cc.Pos()), "the connection is used on a path that never established that one exists (no nil check, no connected check, no fresh dial): it panics before Connect or after a failed Connect", cc.St.Trace()...)
	}
	switch use {
	case "read", "write":
		if l.f.dl {
			k, what := "dr", "read"
			if use == "write" {
				k, what = "dw", "write"
			}
			l.c.Oblige(a.Get(k) != "", "deadline", site, l.c.P.Pos(cc.Pos()), "a socket "+what+" happens on a path where no "+what+" deadline was set in this exchange: an unresponsive device blocks it forever", cc.St.Trace()...)
		}
		okA, erA := a, a
		if l.f.cst || l.f.reg {
			if use == "write" {
				if l.f.cst {
					switch a.Get("cst") {
					case "bad", "nz":
						// the failed status of the previous exchange must have been reported, not built upon
						if a.Get("own") != "1" {
							okA = okA.Set("lost", "1")
						}
					}
				}
				okA = okA.Set("xc", a.Get("cmd")).Set("hs", "").Set("stf", "").Set("istf", "").Set("ist", "").Set("pos", "")
				switch a.Get("cmd") {
				case strconv.Itoa(cmdRR), strconv.Itoa(cmdUnit), "?", "":
					okA = okA.Set("cst", "pend")
				default:
					okA = okA.Set("cst", "")
				}
				if l.f.reg && a.Get("cmd") == strconv.Itoa(cmdRegister) {
					okA = okA.Set("reg", "pend")
				} else if a.Get("reg") == "pend" {
					okA = okA.Set("reg", "") // its status was never found to be success
				}
			}
			erA = erA.Set("cst", "")
			if l.f.reg && a.Get("reg") == "pend" {
				erA = erA.Set("reg", "")
			}
		}
		if l.f.seq && use == "write" {
			if a.Get("cmd") == strconv.Itoa(cmdUnit) || a.Get("cmd") == "?" {
				// a chunked write of the same frame is one frame
				if a.Get("sq") != "mid" {
					l.c.Oblige(a.Get("sq") == "placed", "fresh-per-frame", "connected frame sent at "+cc.Site(), l.c.P.Pos(cc.Pos()), "a connected request is sent whose sequence count was not freshly drawn for this frame", cc.St.Trace()...)
				}
				okA = okA.Set("sq", "mid")
			}
		}
		if l.f.seq && use == "read" && a.Get("sq") == "mid" {
			okA = okA.Set("sq", "")
			erA = erA.Set("sq", "")
		}
		if l.f.ioe {
			l.c.Instance("transport-error", site)
			if a.Get("own") != "3" {
				erA = erA.Set("ioe", use).Set("off", "")
			}
			if use == "read" && a.Get("own") == "1" {
				okA = okA.Set("ioe", "") // a later complete exchange while connecting replaces the failed one
			}
		}
		return ioOuts(cc, okA, erA), true
	case "close":
		if l.f.sock {
			a = a.Set("sock", "").Set("clo", "")
			l.c.Instance("close", site)
		}
		return ioOuts(cc, a, a), true
	case "deadline", "rdeadline", "wdeadline":
		okA := a
		if l.f.dl {
			set := "1"
			ar := cc.Common().Args
			if zeroTime(ar[len(ar)-1]) {
				set = ""
			}
			if use != "wdeadline" {
				okA = okA.Set("dr", set)
			}
			if use != "rdeadline" {
				okA = okA.Set("dw", set)
			}
			l.c.Instance("deadline-set", site)
		}
		return ioOuts(cc, okA, a), true
	case "wrap":
		return []CallOut{{Auto: a, Res: []AV{avSym("conn")}}}, true
	}
	return nil, false
}

// contract replaces calls of Connect and Disconnect by what C02 and C03 verify about them when
// they are analysed as operations of their own: Connect returns nil only when the client is
// connected, Disconnect always leaves it disconnected, and neither touches a transition that
// another operation owns.
func (l *life) contract(cc *CallCtx) ([]CallOut, bool) {
	f := cc.Callee
	if f == nil || (f != l.connect && f != l.disconnect) {
		return nil, false
	}
	a := cc.St.Auto
	own := a.Get("own")
	if f == l.connect {
		okA := a
		if own != "1" && own != "3" {
			okA = okA.Set("s", stConn)
		}
		if l.f.ev {
			okA = okA.Set("ev", "1")
		}
		if l.f.sock || l.f.status {
			okA = okA.Set("cn", "nn")
		}
		if a.Get("ioe") != "" {
			// connecting again does not excuse the failed exchange
			okA = okA.Set("off", a.Get("off"))
		}
		return []CallOut{{Auto: okA, Res: []AV{avNil()}}, {Auto: a, Res: []AV{avNonNil()}}}, true
	}
	if own != "1" && own != "3" {
		a = a.Set("s", stDisc)
		if a.Get("ioe") != "" {
			a = a.Set("off", "1")
		}
	} else if a.Get("ioe") != "" {
		a = a.Set("off", "1") // the owner of the transition finishes it
	}
	return []CallOut{{Auto: a, Res: []AV{avNil()}}, {Auto: a, Res: []AV{avNonNil()}}}, true
}

// zeroTime: the zero time.Time, which removes a deadline.
func zeroTime(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					return zeroTime(s.Val)
				}
			}
			return true
		}
	}
	return false
}

// clientDial: the dial's result ends up in Client.conn (directly or returned towards it).
func (l *life) clientDial(cc *CallCtx) bool {
	if len(cc.Common().Args) == 0 {
		return true
	}
	// server-side I/O producers dial UDP
	for _, a := range cc.Common().Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.HasPrefix(strings.Trim(k.Value.ExactString(), `"`), "udp") {
			return false
		}
	}
	return true
}

func (l *life) dialBounded(cc *CallCtx) (bool, string) {
	c := cc.Common()
	nonzero := func(av AV) bool { return av.K == kNonNil || av.K == kInt && av.N != 0 }
	switch cc.Name {
	case "net.DialTimeout":
		if nonzero(cc.Args[len(cc.Args)-1]) {
			return true, ""
		}
		return false, "dialling with a timeout that may be zero waits without bound"
	case "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "crypto/tls.DialWithDialer":
		base := c.Args[0]
		if cc.Name == "(*net.Dialer).DialContext" {
			if call, ok := ctxOrigin(c.Args[1]); ok && call {
				return true, ""
			}
		}
		if al, ok := base.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok {
					if _, f, _ := fieldOf(fa); f == "Timeout" || f == "Deadline" {
						for _, rr := range *fa.Referrers() {
							if s, ok := rr.(*ssa.Store); ok && s.Addr == fa {
								if f == "Deadline" {
									return true, ""
								}
								if nonzero(cc.av(s.Val)) {
									return true, ""
								}
								if u, ok := s.Val.(*ssa.UnOp); ok && u.Op == token.MUL && leafOf(u) == "Client.SocketTimeout" {
									if nonzero(parseAV(cc.St.Auto.Get("@Client.SocketTimeout"))) {
										return true, ""
									}
								}
							}
						}
					}
				}
			}
		}
		return false, "dialling without a timeout that is known not to be zero waits without bound"
	}
	return false, "dialling without a timeout waits without bound"
}

func ctxOrigin(v ssa.Value) (bool, bool) {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Call:
			n := calleeName(x.Common())
			return n == "context.WithTimeout" || n == "context.WithDeadline", true
		default:
			return false, false
		}
	}
	return false, false
}

func isSeqField(fa *ssa.FieldAddr) bool {
	s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok || fa.Field != 0 {
		return false
	}
	b, ok := s.Field(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Uint16 {
		return false
	}
	// the sequence count is followed by the service code
	return s.NumFields() >= 2 && typeName(s.Field(1).Type()) == "CIPService"
}

// replyCall follows the byte position in the reply so the status byte is known by where it is, not by a name.
func (l *life) replyCall(cc *CallCtx) ([]CallOut, bool) {
	a := cc.St.Auto
	if itemParser(cc.Callee) {
		return []CallOut{{Auto: a.Set("pos", "0"), Res: []AV{avNonNil(), avNil()}}, {Auto: a, Res: []AV{unk, avNonNil()}}}, true
	}
	target, direct, ok := itemRead(cc)
	if !ok {
		return nil, false
	}
	okA := a
	var val AV
	ps := a.Get("pos")
	cst := a.Get("cst")
	if target != nil && ps != "" && ps != "?" && cst == "pend" {
		pos, _ := strconv.Atoi(ps)
		leaves, size, fixed := wireLeaves(target)
		so := l.statusOff(a)
		if !fixed {
			okA = okA.Set("pos", "?")
		} else {
			if so >= pos && so < pos+size {
				for _, lf := range leaves {
					if so >= pos+lf.off && so < pos+lf.off+lf.size {
						if direct {
							val = avSym("cip")
						} else {
							okA = okA.Set("stf", lf.path)
						}
						l.c.Instance("status-field", lf.path+" read in "+FnName(cc.Fn))
					}
				}
			}
			if pos+size > so {
				okA = okA.Set("pos", "?")
			} else {
				okA = okA.Set("pos", strconv.Itoa(pos+size))
			}
		}
	} else if target != nil && cst == "ok" {
		// the header of one result inside a batched reply
		if s, isS := target.Underlying().(*types.Struct); isS && s.NumFields() >= 3 && typeName(s.Field(0).Type()) == "CIPService" {
			if leaves, _, fixed := wireLeaves(target); fixed {
				for _, lf := range leaves {
					if lf.off <= 2 && 2 < lf.off+lf.size {
						if l.f.cst {
							switch a.Get("ist") {
							case "pend", "nz", "bad", "no6":
								l.fail("batched-status", "previous result unexamined in "+FnName(cc.Fn), cc.Pos(), "the next result of a batched reply is read although the status of the previous one was not examined or not success", cc.St)
							}
							l.c.Instance("batched-status", lf.path+" in "+FnName(cc.Fn))
						}
						okA = okA.Set("istf", lf.path).Set("ist", "pend")
					}
				}
			}
		}
	}
	n := tupleLen(cc.Common())
	mk := func(v, e AV) []AV {
		r := make([]AV, n)
		if n > 0 {
			r[n-1] = e
		}
		if n > 1 {
			r[0] = v
		}
		return r
	}
	return []CallOut{{Auto: okA, Res: mk(val, avNil())}, {Auto: a, Res: mk(unk, avNonNil())}}, true
}

func (l *life) prepare() {
	p := l.c.P
	match := func(f *ssa.Function, i ssa.Instruction) bool {
		if fa, ok := i.(*ssa.FieldAddr); ok {
			if t, n, _ := fieldOf(fa); t == "Client" && (n == "conn" || n == "connStatus") {
				return true
			}
		}
		return false
	}
	rel := p.Relevant(match)
	l.exch = p.Relevant(func(f *ssa.Function, i ssa.Instruction) bool {
		if ci, ok := i.(ssa.CallInstruction); ok {
			c := ci.Common()
			if c.IsInvoke() && typeString(c.Value.Type()) == "net.Conn" && (c.Method.Name() == "Write" || c.Method.Name() == "Read") {
				if u, ok := c.Value.(*ssa.UnOp); ok && isClientConn(u.X) {
					return true
				}
			}
		}
		return false
	})
	l.connect, l.disconnect = p.Method("Client", "Connect"), p.Method("Client", "Disconnect")
	l.c.Anchor(l.connect != nil && l.disconnect != nil, "Client.Connect/Disconnect")
	var owns map[*ssa.Function]bool
	if l.f.reg {
		// only operations that can change the status themselves, not through Connect or Disconnect
		owns = p.RelevantStop(func(f *ssa.Function, i ssa.Instruction) bool {
			if s, ok := i.(*ssa.Store); ok {
				t, n, _ := fieldOf(s.Addr)
				return t == "Client" && n == "connStatus"
			}
			return false
		}, func(f *ssa.Function) bool { return f == l.connect || f == l.disconnect })
	}
	for _, f := range lockRoots(p, rel) {
		if owns == nil || owns[f] {
			l.roots = append(l.roots, f)
		}
	}
	carry := map[*ssa.Function]bool{}
	if l.f.seq || l.f.cst || l.f.reg {
		carry = p.Relevant(func(f *ssa.Function, i ssa.Instruction) bool {
			if fa, ok := i.(*ssa.FieldAddr); ok {
				t, n, _ := fieldOf(fa)
				return t == "eipHeader" && n == "Command" || l.f.seq && isSeqField(fa)
			}
			if !l.f.seq {
				return false
			}
			if ci, ok := i.(ssa.CallInstruction); ok {
				return strings.Contains(calleeName(ci.Common()), "sync/atomic")
			}
			return false
		})
	}
	d := l.domain()
	d.Inline = func(f *ssa.Function) bool {
		if rel[f] || carry[f] {
			return true
		}
		return (l.f.cst || l.f.reg) && l.small(f) || passesError(f)
	}
	d.MustEnter = frameLoop
	l.sim = NewSim(p, d, func(key string, pos token.Pos, msg string, tr []string) {})
}

// frameLoop: a loop that writes a frame runs at least once, frames are never empty (they carry a header).
func frameLoop(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Write" && connType(ci.Common().Value.Type()) {
				return true
			}
		}
	}
	return false
}

// passesError: f is given an error and returns one; what it makes of it is followed.
func passesError(f *ssa.Function) bool {
	n := f.Signature.Results().Len()
	if n == 0 || !isErrorType(f.Signature.Results().At(n-1).Type()) {
		return false
	}
	for _, p := range f.Params {
		if isErrorType(p.Type()) {
			return true
		}
	}
	return false
}

// small helpers that handle headers, statuses, items or sequence counts are followed.
func (l *life) small(f *ssa.Function) bool {
	if f.Signature.Recv() != nil {
		switch typeName(f.Signature.Recv().Type()) {
		case "CIPItem", "CIPStatus", "CIPType":
			return false
		}
	}
	for _, p := range f.Params {
		t := deref(p.Type())
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return true
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			if typeName(t) == "eipHeader" || typeName(t) == "CIPItem" || hasService(t) {
				return true
			}
			continue
		}
		if itemSliceType(t) {
			return true
		}
		if s := typeString(p.Type()); s == "*bytes.Buffer" || s == "io.Reader" {
			return true
		}
	}
	return false
}

func hasService(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == "CIPService" {
			return true
		}
	}
	return false
}

// run analyses every root and hands each outcome to end.
func (l *life) run(end func(r *ssa.Function, o CallOut, err AV, hasErr bool, st *State)) {
	l.prepare()
	for _, r := range l.roots {
		for _, o := range l.sim.Run(r, "") {
			e, has := ErrAV(r.Signature, o.Res)
			end(r, o, e, has, &State{trace: o.trace})
		}
	}
	l.c.Info["functions_analysed"] = len(l.sim.Funcs)
	l.c.Info["roots"] = len(l.roots)
	l.c.Info["abstract_steps"] = l.sim.Steps
	if len(l.sim.overflow) > 0 {
		l.c.Findings["analysis|overflow"] = Finding{"analysis", "overflow", "-", "state limit reached in " + strings.Join(l.sim.overflow, ", ") + ": undecided", nil}
	}
}

func mayNil(e AV) bool { return e.K == kNil || e.K == kUnk }

func init() {
	rules["C02"] = func(c *Check) {
		c.Rule("transition", "connecting is entered only from disconnected, disconnecting only from connected, and only the operation that entered a transitional state leaves it")
		c.Rule("definite-exit", "an operation that entered a transitional state has left it, for connected or disconnected, on every return")
		c.Rule("failed-not-connected", "an operation that returns an error does not leave the client marked connected by itself")
		c.Rule("connected-means-registered", "connected is stored only after a RegisterSession exchange whose header status was success")
		c.Rule("connected-means-open", "connected is stored only after a connection-open exchange whose reply status was success")
		l := &life{c: c, f: lifeFlags{status: true, reg: true}}
		l.run(func(r *ssa.Function, o CallOut, e AV, has bool, st *State) {
			own := o.Auto.Get("own")
			if own == "" {
				return
			}
			c.Instance("definite-exit", FnName(r))
			if own == "1" || own == "3" || own == "?" {
				c.Fail("definite-exit", FnName(r), c.P.Pos(r.Pos()), FnName(r)+" can return while the client is stuck in the "+map[string]string{"1": "connecting", "3": "disconnecting", "?": "unknown"}[own]+" state: no later connect is possible", st.Trace()...)
			}
			if own == "2" && has {
				c.Instance("failed-not-connected", FnName(r))
				if e.K == kNonNil && strings.HasSuffix(FnName(r), ").Connect") {
					c.Fail("failed-not-connected", FnName(r), c.P.Pos(r.Pos()), "the connect attempt returns an error but leaves the client marked connected", st.Trace()...)
				}
			}
		})
		c.Floor("transition", 4)
		c.Floor("definite-exit", 2)
		c.Floor("connected-means-open", 1)
	}
	rules["C03"] = func(c *Check) {
		c.Rule("closed-on-failure", "a dialled connection is closed before an operation returns unless the client was marked connected with it")
		c.Rule("closed-on-disconnect", "an operation that marked the client disconnecting closes its connection before it returns")
		c.Rule("close", "close sites")
		l := &life{c: c, f: lifeFlags{sock: true}}
		l.run(func(r *ssa.Function, o CallOut, e AV, has bool, st *State) {
			a := o.Auto
			if a.Get("sock") == "open" && a.Get("own") != "2" {
				c.Fail("closed-on-failure", FnName(r), c.P.Pos(r.Pos()), FnName(r)+" can return with the dialled TCP connection still open although the client is not connected", st.Trace()...)
			}
			if a.Get("own") != "" {
				c.Instance("closed-on-disconnect", FnName(r))
			}
			if a.Get("clo") == "need" {
				c.Fail("closed-on-disconnect", FnName(r), c.P.Pos(r.Pos()), "a disconnect that had started can return without closing the TCP connection", st.Trace()...)
			}
		})
		c.Floor("closed-on-failure", 1)
		c.Floor("closed-on-disconnect", 1)
	}
	rules["C04"] = func(c *Check) {
		c.Rule("deadline", "every socket read and write is preceded, since the client lock was taken, by setting the matching deadline to a non-zero time")
		c.Rule("deadline-set", "deadline sites")
		c.Rule("dial-bounded", "every client dial has a timeout that is not zero on any path")
		l := &life{c: c, f: lifeFlags{dl: true}}
		l.run(func(r *ssa.Function, o CallOut, e AV, has bool, st *State) {})
		c.Floor("deadline", 2)
		c.Floor("dial-bounded", 1)
	}
	rules["C05"] = func(c *Check) {
		c.Rule("transport-error", "socket reads and writes whose failure is followed")
		c.Rule("reported", "after a failed socket read or write every path returns an error from the operation")
		c.Rule("offline", "after a failed socket read or write the client is disconnected (or already was, or is being connected/disconnected by its owner) before the operation returns")
		c.Rule("full-read", "replies are read with calls that fill the whole buffer")
		l := &life{c: c, f: lifeFlags{ioe: true}}
		l.run(func(r *ssa.Function, o CallOut, e AV, has bool, st *State) {
			a := o.Auto
			c.Instance("reported", FnName(r))
			if a.Get("ioe") == "" {
				return
			}
			if has {
				c.Oblige(!mayNil(e), "reported", FnName(r), c.P.Pos(r.Pos()), FnName(r)+" can return success although a socket "+a.Get("ioe")+" failed", st.Trace()...)
			}
			if !l.exch[r] || isRawExchangePart(r) {
				return
			}
			c.Oblige(a.Get("off") == "1", "offline", FnName(r), c.P.Pos(r.Pos()), FnName(r)+" can return after a failed socket "+a.Get("ioe")+" while the client still counts as connected", st.Trace()...)
		})
		fullReads(c)
		c.Floor("transport-error", 2)
		c.Floor("offline", 5)
	}
	rules["C06"] = func(c *Check) {
		c.Rule("success-means-ok", "an operation that performed an exchange returns no error only on paths where the reply's status byte, identified by its position in the reply, was compared and is success")
		c.Rule("status-field", "where the reply status is read")
		c.Rule("batched-status", "the status of each result in a batched reply is examined before the next result is read")
		c.Rule("failure-built-upon", "no operation succeeds after ignoring a failed status of an earlier exchange")
		l := &life{c: c, f: lifeFlags{cst: true}}
		l.run(func(r *ssa.Function, o CallOut, e AV, has bool, st *State) {
			if !l.exch[r] || !has {
				return
			}
			switch {
			case strings.HasSuffix(FnName(r), ").Connect"), strings.HasSuffix(FnName(r), ").Disconnect"):
				return // decided by C02 and C03
			}
			c.Instance("success-means-ok", FnName(r))
			if !mayNil(e) {
				return
			}
			a := o.Auto
			switch a.Get("cst") {
			case "pend", "no6":
				c.Fail("success-means-ok", FnName(r), c.P.Pos(r.Pos()), FnName(r)+" can succeed without the status of the device's reply having been examined", st.Trace()...)
			case "nz", "bad":
				c.Fail("success-means-ok", FnName(r), c.P.Pos(r.Pos()), FnName(r)+" can succeed although the device replied with a failure status", st.Trace()...)
			case "part":
				c.Fail("success-means-ok", FnName(r), c.P.Pos(r.Pos()), FnName(r)+" can succeed although the device said the transfer is only partial", st.Trace()...)
			}
			switch a.Get("ist") {
			case "pend", "nz", "bad", "no6", "part":
				c.Fail("batched-status", FnName(r), c.P.Pos(r.Pos()), FnName(r)+" can succeed although the status of a result inside a batched reply was not examined or not success", st.Trace()...)
			}
			if a.Get("lost") != "" {
				c.Fail("failure-built-upon", FnName(r), c.P.Pos(r.Pos()), FnName(r)+" can succeed after an earlier exchange of it failed", st.Trace()...)
			}
		})
		c.Floor("status-field", 6)
		c.Floor("success-means-ok", 12)
	}
	rules["C07"] = func(c *Check) {
		c.Rule("placed", "where a freshly drawn count is put into a connected request")
		c.Rule("fresh-per-frame", "every connected frame is sent after a count was drawn and placed for it, and each placed count is sent once")
		c.Rule("one-counter", "all connected requests draw from one counter")
		c.Rule("atomic-counter", "the counters are only touched atomically")
		l := &life{c: c, f: lifeFlags{seq: true}}
		l.run(func(r *ssa.Function, o CallOut, e AV, has bool, st *State) {})
		seqCounters(c)
		c.Floor("placed", 6)
		c.Floor("fresh-per-frame", 1)
	}
	rules["C09"] = func(c *Check) {
		c.Rule("conn-exists", "every use of the client's connection is on a path that established one exists: nil check, connected check or fresh dial")
		c.Rule("conn-never-nil", "the connection field is only ever set to a freshly dialled connection, so what was established stays true")
		l := &life{c: c, f: lifeFlags{ev: true}}
		l.run(func(r *ssa.Function, o CallOut, e AV, has bool, st *State) {})
		c.Floor("conn-exists", 4)
	}
}

// isRawExchangePart: a low-level step that is only called inside an exchange (send, receive): its caller disconnects.
// isOperation tells whether f is an operation of its own, answering to its caller: an exported
// one, or the recursive worker to which an exported one delegates everything it returns.
func (l *life) isOperation(f *ssa.Function) bool {
	if f.Object() == nil {
		return false
	}
	if f.Object().Exported() {
		return true
	}
	return l.callsItself(f) && l.delegatedTo(f, map[*ssa.Function]bool{})
}

// delegatedTo: an exported function returns what f returns, or a function that is itself delegated to does.
func (l *life) delegatedTo(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for g := range l.exch {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != f || g == f || g.Object() == nil || !onlyReturned(call) {
					continue
				}
				if g.Object().Exported() || l.delegatedTo(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// callsItself tells whether f can be reached from itself through exchange functions.
func (l *life) callsItself(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				h := call.Call.StaticCallee()
				if h == f {
					return true
				}
				if h != nil && l.exch[h] && !seen[h] {
					seen[h] = true
					if walk(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// onlyReturned tells whether the results of call go nowhere but into the caller's own results.
func onlyReturned(call *ssa.Call) bool {
	refs := call.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Return, *ssa.DebugRef:
		case *ssa.Extract:
			for _, r2 := range *x.Referrers() {
				switch r2.(type) {
				case *ssa.Return, *ssa.DebugRef:
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func isRawExchangePart(f *ssa.Function) bool { return !token.IsExported(f.Name()) }

func fullReads(c *Check) {
	for _, f := range c.P.SrcFuncs(c.P.Root) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := ci.Common()
				if cm.IsInvoke() && cm.Method.Name() == "Read" && typeString(cm.Value.Type()) == "net.Conn" {
					u, ok := cm.Value.(*ssa.UnOp)
					if !ok || !isClientConn(u.X) {
						continue
					}
					inLoop := false
					for _, h := range f.Blocks {
						if isLoopHeader(h) && loopBody(h)[b] {
							inLoop = true
						}
					}
					c.Oblige(inLoop, "full-read", FnName(f), c.P.Pos(i.Pos()), "a reply is read with one Read call, which may return only part of it")
				}
			}
		}
	}
}

func seqCounters(c *Check) {
	// which counters feed sequence fields: syntactic backward walk from the stores
	counters := map[string]string{}
	for _, f := range c.P.SrcFuncs(c.P.Root) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isSeqField(fa) {
					continue
				}
				t, _, _ := fieldOf(fa)
				for _, o := range counterOrigins(c.P, s.Val, 0) {
					counters[o] = FnName(f) + " (" + t + ")"
					c.Instance("one-counter", o+" in "+FnName(f))
				}
			}
		}
	}
	if len(counters) > 1 {
		for o, site := range counters {
			if o != "sequenceValue" {
				c.Fail("one-counter", o, "-", "connected requests draw their sequence counts from different counters ("+o+" in "+site+"): two requests in a row can carry the same count")
			}
		}
	}
	// plain accesses to an atomically used package variable
	for o := range counters {
		g, ok := c.P.Root.Members[o].(*ssa.Global)
		if !ok {
			continue
		}
		for _, f := range c.P.SrcFuncs(c.P.Root) {
			if strings.HasPrefix(f.Name(), "init") {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if *op == ssa.Value(g) {
							ci, isCall := i.(ssa.CallInstruction)
							okc := isCall && strings.HasPrefix(calleeName(ci.Common()), "sync/atomic.")
							c.Oblige(okc, "atomic-counter", o+" in "+FnName(f), c.P.Pos(i.Pos()), "the sequence counter is accessed without an atomic operation: two frames can draw the same count")
						}
					}
				}
			}
		}
	}
}

func counterOrigins(p *Prog, v ssa.Value, d int) []string {
	if d > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return counterOrigins(p, x.X, d+1)
	case *ssa.ChangeType:
		return counterOrigins(p, x.X, d+1)
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			out = append(out, counterOrigins(p, e, d+1)...)
		}
		return out
	case *ssa.Parameter:
		var out []string
		for _, ci := range p.CallersOf(x.Parent()) {
			for i, pp := range x.Parent().Params {
				if pp == x && !ci.Common().IsInvoke() && i < len(ci.Common().Args) {
					out = append(out, counterOrigins(p, ci.Common().Args[i], d+1)...)
				}
			}
		}
		return out
	case *ssa.Call:
		n := calleeName(x.Common())
		if strings.Contains(n, "sync/atomic") {
			switch a := x.Call.Args[0].(type) {
			case *ssa.Global:
				return []string{a.Name()}
			case *ssa.FieldAddr:
				t, f, _ := fieldOf(a)
				return []string{t + "." + f}
			}
			return []string{"?"}
		}
		if f := x.Call.StaticCallee(); f != nil && p.InLib(f) {
			var out []string
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
					out = append(out, counterOrigins(p, r.Results[0], d+1)...)
				}
			}
			return out
		}
	}
	return nil
}
