package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guard says which lock protects a field.
type guard struct {
	typ, field string
	lock       string
	deep       bool // the map/slice contents are protected too
	reason     string
	inPlace    bool // the values in the map are changed in place
}

// Confirmed by reading: the field is reached from more than one goroutine and this lock is the one its accessors use.
var guards = []guard{
	{"Client", "connStatus", "Client.mutex", false, "read by every operation, written by Connect/Disconnect and the keepalive goroutine", false},
	{"Client", "HeaderSequenceCounter", "Client.mutex", false, "incremented for every frame any goroutine sends", false},
	{"Client", "keepAliveRunning", "Client.mutex", false, "written by the keepalive goroutine, read by Disconnect and KeepAlive", false},
	{"Client", "cancel_keepalive", "Client.mutex", false, "created by the keepalive goroutine, closed by Disconnect and KeepAliveCancel", false},
	{"Client", "ioi_cache", "Client.ioi_cache_lock", true, "filled by every operation that encodes a tag name", false},
	{"serverConnectionManager", "Connections", "serverConnectionManager.Lock", true, "shared by all server sessions", false},
	{"MapTagProvider", "Data", "MapTagProvider.Mutex", true, "read and written by all server sessions", true},
	{"IOProvider", "In", "IOProvider.InMutex", true, "produced by the I/O goroutine, set by the application", false},
	{"IOProvider", "Out", "IOProvider.OutMutex", true, "written by the UDP goroutine, read by the application", false},
	{"IOChannelProvider", "in", "IOChannelProvider.inMutex", false, "produced by the I/O goroutine, set by the application", false},
	{"IOChannelProvider", "outChannels", "IOChannelProvider.outMutex", true, "walked by the UDP goroutine, extended by the application", false},
	{"PathRouter", "Path", "PathRouter.lock", true, "looked up by every server session, filled by the application", false},
	{"serverConnection", "Open", "serverConnectionManager.Lock", false, "cleared by one session, read by the I/O goroutine and other sessions", false},
}

type lockRun struct {
	c      *Check
	sim    *Sim
	edges  map[[2]string]string // lock order edges → site
	roots  []*ssa.Function
	rootOf *ssa.Function
	held   map[string]int // lock → acquisitions seen
	onIO   bool
	rep    func(prop, rule, construct string, pos token.Pos, msg string, tr []string)
	obl    func(rule, construct string)
}

func isMutexType(t types.Type) (rw, ok bool) {
	switch typeString(t) {
	case "sync.Mutex":
		return false, true
	case "sync.RWMutex":
		return true, true
	}
	return false, false
}

func heldLocks(a Auto) []string {
	var out []string
	for _, k := range a.Keys() {
		if strings.HasPrefix(k, "L:") {
			out = append(out, k[2:])
		}
	}
	return out
}

// freshBase reports whether an address is rooted in an object allocated in this function
// (not yet shared with another goroutine).
func freshBase(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
	return false
}

// lockRoots lists the functions another goroutine or the user may enter with no library lock held.
func lockRoots(p *Prog, rel map[*ssa.Function]bool) []*ssa.Function {
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 && p.InLib(f) {
			seen[f] = true
			roots = append(roots, f)
		}
	}
	for _, f := range p.SrcFuncs() {
		if f.Parent() != nil {
			continue
		}
		if !rel[f] {
			continue
		}
		if f.Name() == "init" || len(p.CallersOf(f)) == 0 || token.IsExported(f.Name()) {
			add(f)
		}
	}
	for _, f := range p.SrcFuncs() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if g, ok := i.(*ssa.Go); ok {
					if t := g.Common().StaticCallee(); t != nil {
						add(t)
					}
				}
			}
		}
	}
	return roots
}

// Accesses that run before the object is shared, one reason each.
var guardExempt = map[string]string{
	"serverConnectionManager.Connections write in (*serverConnectionManager).Init": "called by NewServer and at the start of Serve, before any session goroutine exists",
}

// exemptIn: an exempt function, or one that only exempt functions call.
func exemptIn(p *Prog, f *ssa.Function, exempt func(*ssa.Function) bool, d int) bool {
	if exempt(f) {
		return true
	}
	cs := p.CallersOf(f)
	if d > 3 || exportedFn(f) || len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if _, goes := c.(*ssa.Go); goes || !exemptIn(p, c.Parent(), exempt, d+1) {
			return false
		}
	}
	return true
}

func (lr *lockRun) domain() *Domain {
	guardOf := map[string]guard{}
	for _, g := range guards {
		guardOf[g.typ+"."+g.field] = g
	}
	lockName := func(fa *ssa.FieldAddr) string {
		t, f, ok := fieldOf(fa)
		if !ok {
			return ""
		}
		return t + "." + f
	}
	check := func(st *State, fn *ssa.Function, g guard, write bool, pos token.Pos, what string) {
		mode := st.Auto.Get("L:" + g.lock)
		construct := fmt.Sprintf("%s.%s %s in %s", g.typ, g.field, what, FnName(fn))
		ok := mode == "w" || (!write && mode == "r")
		if exemptIn(lr.c.P, fn, func(f *ssa.Function) bool {
			return guardExempt[fmt.Sprintf("%s.%s %s in %s", g.typ, g.field, what, FnName(f))] != ""
		}, 0) {
			ok = true
		}
		if lr.obl != nil {
			lr.obl("guarded-by", construct)
		}
		if !ok {
			lr.rep("C11", "guarded-by", construct, pos, fmt.Sprintf("%s.%s is %s without holding %s (%s)", g.typ, g.field, map[bool]string{true: "written", false: "read"}[write], g.lock, g.reason), st.Trace())
		}
	}
	d := &Domain{Name: "locks"}
	d.OnInstr = func(c *InstrCtx) (AV, bool) {
		switch x := c.I.(type) {
		case *ssa.FieldAddr:
			if _, ok := isMutexType(deref(x.Type())); ok {
				return avSym("lock:" + lockName(x)), true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					t, f, _ := fieldOf(fa)
					if t == "Client" && f == "conn" {
						return avSym("conn"), true
					}
					if g, ok := guardOf[t+"."+f]; ok && !freshBase(fa.X) {
						check(c.St, c.Fn, g, false, x.Pos(), "read")
						if g.deep {
							return avSym("guarded:" + t + "." + f), true
						}
					}
				} else {
					if a := c.av(x.X); a.K == kSym && strings.HasPrefix(a.S, "guarded:") {
						check(c.St, c.Fn, guardOf[a.S[8:]], false, x.Pos(), "content read")
					}
					if nt, ok := x.Type().(*types.Named); ok && !freshBase(x.X) {
						for _, g := range guards {
							if g.typ == nt.Obj().Name() && g.typ != "Client" {
								check(c.St, c.Fn, g, false, x.Pos(), "read")
							}
						}
					}
				}
			}
		case *ssa.Extract:
			if c.inPlace(guardOf, x) != "" {
				c.St.Auto = c.St.Auto.Set("noslice", "")
				return avSym("alias:" + c.inPlace(guardOf, x)), true
			}
		case *ssa.TypeAssert:
			if a := c.av(x.X); a.K == kSym && strings.HasPrefix(a.S, "alias:") && !x.CommaOk && refersTo(x.AssertedType) {
				return a, true
			}
		case *ssa.Store:
			if a := c.av(x.Addr); a.K == kSym && strings.HasPrefix(a.S, "guarded:") {
				check(c.St, c.Fn, guardOf[a.S[8:]], true, x.Pos(), "content write")
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && sharedType(fa.X.Type()) {
				t, f, _ := fieldOf(fa)
				lr.published(c.St, c.Fn, c.av(fa.X), fa.X, t, f, x.Pos(), "write")
			}
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if t, f, ok := loadedField(ia.X); ok && sharedName(t) {
					b := ia.X.(*ssa.UnOp).X.(*ssa.FieldAddr).X
					lr.published(c.St, c.Fn, c.av(b), b, t, f, x.Pos(), "element write")
				}
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				t, f, _ := fieldOf(fa)
				if g, ok := guardOf[t+"."+f]; ok && !freshBase(fa.X) {
					check(c.St, c.Fn, g, true, x.Pos(), "write")
				}
			}
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if a := c.av(ia.X); a.K == kSym && strings.HasPrefix(a.S, "guarded:") {
					check(c.St, c.Fn, guardOf[a.S[8:]], true, x.Pos(), "element write")
				}
			}
			if a := c.av(x.Val); a.K == kSym && a.S == "conn" {
				if t, f, ok := fieldOf(x.Addr); ok && !(t == "Client" && f == "conn") {
					if _, isFA := x.Addr.(*ssa.FieldAddr); isFA {
						lr.rep("C01", "conn-escape", FnName(c.Fn)+" stores conn in "+t+"."+f, x.Pos(), "the client's connection is stored where its use cannot be followed", c.St.Trace())
					}
				}
			}
		case *ssa.MapUpdate:
			if a := c.av(x.Value); a.K == kSym && a.S == "own" {
				c.St.Auto = c.St.Auto.Set("published", "1")
			}
			if a := c.av(x.Map); a.K == kSym && strings.HasPrefix(a.S, "guarded:") {
				check(c.St, c.Fn, guardOf[a.S[8:]], true, x.Pos(), "entry write")
			}
		case *ssa.Lookup:
			if a := c.av(x.X); a.K == kSym && strings.HasPrefix(a.S, "guarded:") {
				check(c.St, c.Fn, guardOf[a.S[8:]], false, x.Pos(), "entry read")
				if guardOf[a.S[8:]].inPlace && !x.CommaOk {
					c.St.Auto = c.St.Auto.Set("noslice", "")
					return avSym("alias:" + a.S[8:]), true
				}
			}
		case *ssa.Range:
			if a := c.av(x.X); a.K == kSym && strings.HasPrefix(a.S, "guarded:") {
				check(c.St, c.Fn, guardOf[a.S[8:]], false, x.Pos(), "iteration")
			}
		case *ssa.IndexAddr:
			if a := c.av(x.X); a.K == kSym && strings.HasPrefix(a.S, "guarded:") {
				check(c.St, c.Fn, guardOf[a.S[8:]], false, x.Pos(), "element read")
			}
		case *ssa.Slice:
			if a := c.av(x.X); a.K == kSym && (strings.HasPrefix(a.S, "guarded:") || strings.HasPrefix(a.S, "alias:")) {
				return a, true
			}
		case *ssa.Send, *ssa.Select:
			// a blocking channel operation under a lock can wait forever
		}
		return unk, false
	}
	d.OnCall = func(cc *CallCtx) ([]CallOut, bool) {
		name := cc.Name
		switch name {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
			id := ""
			if len(cc.Args) > 0 && cc.Args[0].K == kSym && strings.HasPrefix(cc.Args[0].S, "lock:") {
				id = cc.Args[0].S[5:]
			} else if len(cc.Common().Args) > 0 {
				id = "local:" + FnName(cc.Fn) + ":" + valText(cc.Common().Args[0])
			}
			construct := id + " in " + FnName(cc.Fn)
			a := cc.St.Auto
			mode := a.Get("L:" + id)
			switch {
			case strings.HasSuffix(name, "TryLock"):
				return []CallOut{{Auto: lr.acquire(cc, id, "w"), Res: []AV{avInt(1)}}, {Auto: a, Res: []AV{avInt(0)}}}, true
			case strings.HasSuffix(name, "Lock") && !strings.HasSuffix(name, "Unlock"):
				lr.obl("acquire", construct)
				if mode != "" {
					lr.rep("C10", "no-reentry", construct, cc.Pos(), id+" is locked while this goroutine already holds it: self-deadlock", cc.St.Trace())
				}
				m := "w"
				if strings.HasSuffix(name, "RLock") {
					m = "r"
				}
				return []CallOut{{Auto: lr.acquire(cc, id, m)}}, true
			default:
				lr.obl("release", construct)
				if mode == "" {
					lr.rep("C10", "release-held", construct, cc.Pos(), id+" is unlocked on a path where this goroutine does not hold it", cc.St.Trace())
				} else if (mode == "r") != strings.HasSuffix(name, "RUnlock") {
					lr.rep("C10", "release-mode", construct, cc.Pos(), id+" is released in a mode other than the one it was acquired in", cc.St.Trace())
				}
				n := a.Set("L:"+id, "")
				if id == "Client.mutex" {
					if n.Get("x") == "w" {
						n = n.Set("x", "unread")
					}
					if n.Get("x") != "unread" {
						n = n.Set("x", "")
					}
				}
				return []CallOut{{Auto: n}}, true
			}
		case "builtin:append":
			if len(cc.Common().Args) > 0 {
				if t, f, ok := loadedField(cc.Common().Args[0]); ok && sharedName(t) {
					b := cc.Common().Args[0].(*ssa.UnOp).X.(*ssa.FieldAddr).X
					lr.published(cc.St, cc.Fn, cc.av(b), b, t, f, cc.Pos(), "append")
				}
			}
			if len(cc.Args) > 0 && cc.Args[0].K == kSym && strings.HasPrefix(cc.Args[0].S, "guarded:") {
				return []CallOut{{Auto: cc.St.Auto, Res: []AV{cc.Args[0]}}}, true
			}
			return nil, false
		case "builtin:delete":
			if len(cc.Args) > 0 && cc.Args[0].K == kSym && strings.HasPrefix(cc.Args[0].S, "guarded:") {
				check(cc.St, cc.Fn, guardOf[cc.Args[0].S[8:]], true, cc.Pos(), "entry delete")
			}
			return nil, false
		}
		if outs, ok := lr.connIO(cc); ok {
			return outs, true
		}
		for i, v := range cc.Common().Args {
			if mi, ok := v.(*ssa.MakeInterface); ok && sharedType(mi.X.Type()) && i < cc.Common().Signature().Params().Len() && typeString(cc.Common().Signature().Params().At(i).Type()) == "io.Writer" {
				n, _ := deref(mi.X.Type()).(*types.Named)
				lr.published(cc.St, cc.Fn, cc.av(mi.X), mi.X, n.Obj().Name(), "content", cc.Pos(), "written by "+name)
			}
		}
		for i, a := range cc.Args {
			if a.K != kSym {
				continue
			}
			switch {
			case strings.HasPrefix(a.S, "guarded:"):
				if name != "(*sync.Once).Do" {
					check(cc.St, cc.Fn, guardOf[a.S[8:]], false, cc.Pos(), "passed to "+name)
				}
			case strings.HasPrefix(a.S, "alias:"):
				switch name {
				case "reflect.ValueOf", "(reflect.Value).Slice", "(reflect.Value).Slice3", "(reflect.Value).Interface", "(reflect.Value).Elem", "(reflect.Value).Convert":
					if i == 0 {
						return []CallOut{{Auto: cc.St.Auto, Res: []AV{a}}}, true
					}
				case "(reflect.Value).Kind":
					return []CallOut{{Auto: cc.St.Auto, Res: []AV{avSym("kind:" + a.S[6:])}}}, true
				case "reflect.TypeOf", "(reflect.Value).Type":
				default:
					if cc.St.Auto.Get("noslice") == "" {
						check(cc.St, cc.Fn, guardOf[a.S[6:]], strings.HasPrefix(name, "(reflect.Value).Set"), cc.Pos(), "value passed to "+name)
					}
				}
			}
		}
		return nil, false
	}
	d.AllocSym = func(x *ssa.Alloc) (AV, bool) {
		return avSym("own"), sharedType(x.Type())
	}
	d.OnBranch = func(a Auto, s string, op token.Token, n int64) (Auto, bool) {
		if strings.HasPrefix(s, "kind:") && (op == token.NEQ) == (n == int64(reflect.Slice)) && (op == token.NEQ || op == token.EQL) {
			return a.Set("noslice", "1"), true
		}
		return a, true
	}
	return d
}

// sharedType: objects that other goroutines may use as soon as they are found in a table.
func sharedType(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && sharedName(n.Obj().Name())
}

func sharedName(t string) bool { return t == "tagIOI" || t == "serverConnection" }

var publishedBy = map[string]string{"tagIOI": "Client.ioi_cache_lock", "serverConnection": "serverConnectionManager.Lock"}

// loadedField: the field a value was loaded from.
func loadedField(v ssa.Value) (typ, field string, ok bool) {
	if u, isU := v.(*ssa.UnOp); isU && u.Op == token.MUL {
		if fa, isFA := u.X.(*ssa.FieldAddr); isFA {
			return fieldOf(fa)
		}
	}
	return "", "", false
}

func refersTo(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// published: an object found in a shared table is changed only under the table's lock.
func (lr *lockRun) published(st *State, fn *ssa.Function, base AV, v ssa.Value, t, f string, pos token.Pos, what string) {
	if t == "serverConnection" && f == "Open" {
		return // has its own entry
	}
	construct := fmt.Sprintf("%s.%s %s in %s", t, f, what, FnName(fn))
	lr.obl("published", construct)
	if fn == lr.rootOf && fn.Signature.Recv() != nil && len(fn.Params) > 0 && v == fn.Params[0] && len(lr.c.P.CallersOf(fn)) > 0 {
		return // judged where it is called
	}
	own := base.K == kSym && base.S == "own" && st.Auto.Get("published") == ""
	if !own && st.Auto.Get("L:"+publishedBy[t]) != "w" {
		lr.rep("C11", "published", construct, pos, fmt.Sprintf("%s.%s is changed (%s) although other goroutines may be using the object", t, f, what), st.Trace())
	}
}

// inPlace: the value an entry lookup or iteration yields, if such values are changed in place.
func (c *InstrCtx) inPlace(guardOf map[string]guard, x *ssa.Extract) string {
	var m ssa.Value
	switch t := x.Tuple.(type) {
	case *ssa.Lookup:
		if x.Index == 0 {
			m = t.X
		}
	case *ssa.Next:
		if r, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
			m = r.X
		}
	case *ssa.TypeAssert:
		if a := c.av(t.X); x.Index == 0 && a.K == kSym && strings.HasPrefix(a.S, "alias:") && refersTo(t.AssertedType) {
			return a.S[6:]
		}
	}
	if m == nil {
		return ""
	}
	if a := c.av(m); a.K == kSym && strings.HasPrefix(a.S, "guarded:") && guardOf[a.S[8:]].inPlace {
		return a.S[8:]
	}
	return ""
}

func (c *InstrCtx) av(v ssa.Value) AV {
	e := &exec{s: c.S, f: c.Fn}
	return e.av(c.St, v)
}

func (c *CallCtx) av(v ssa.Value) AV {
	e := &exec{s: c.S, f: c.Fn}
	return e.av(c.St, v)
}

func (c *RetCtx) av(v ssa.Value) AV {
	e := &exec{s: c.S, f: c.Fn}
	return e.av(c.St, v)
}

func connType(t types.Type) bool {
	s := typeString(t)
	return s == "net.Conn" || s == "io.Writer" || s == "io.ReadWriter" || s == "io.Reader" || s == "io.ReadWriteCloser"
}

// relevant functions touch a lock, a guarded field or the connection, directly or below.
func (lr *lockRun) relevant() map[*ssa.Function]bool {
	gf := map[string]bool{"Client.conn": true}
	for _, g := range guards {
		gf[g.typ+"."+g.field] = true
	}
	return lr.c.P.Relevant(func(f *ssa.Function, i ssa.Instruction) bool {
		if fa, ok := i.(*ssa.FieldAddr); ok {
			t, n, _ := fieldOf(fa)
			if gf[t+"."+n] || sharedName(t) && fieldChanged(fa) {
				return true
			}
		}
		if ci, ok := i.(ssa.CallInstruction); ok {
			n := calleeName(ci.Common())
			return strings.HasPrefix(n, "(*sync.")
		}
		return false
	})
}

// fieldChanged: the field is stored to, or is appended to.
func fieldChanged(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == fa {
			return true
		}
		if u, ok := r.(*ssa.UnOp); ok && u.Referrers() != nil {
			for _, q := range *u.Referrers() {
				if ci, ok := q.(ssa.CallInstruction); ok && calleeName(ci.Common()) == "builtin:append" {
					return true
				}
				if _, ok := q.(*ssa.IndexAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

func (lr *lockRun) acquire(cc *CallCtx, id, mode string) Auto {
	a := cc.St.Auto
	for _, h := range heldLocks(a) {
		if h != id {
			k := [2]string{h, id}
			if _, ok := lr.edges[k]; !ok {
				lr.edges[k] = fmt.Sprintf("%s (%s)", FnName(cc.Fn), lr.c.P.Pos(cc.Pos()))
			}
		}
	}
	lr.held[id]++
	a = a.Set("L:"+id, mode)
	if id == "Client.mutex" {
		a = a.Set("x", "")
	}
	return a
}

var connReadFuncs = map[string]bool{"encoding/binary.Read": true, "io.ReadFull": true, "io.ReadAtLeast": true, "io.ReadAll": true}
var connWriteFuncs = map[string]bool{"encoding/binary.Write": true, "io.WriteString": true, "fmt.Fprintf": true, "io.Copy": true, "io.CopyN": true}
var connWrapFuncs = map[string]bool{"bufio.NewReader": true, "bufio.NewReaderSize": true, "io.LimitReader": true, "io.TeeReader": true, "bufio.NewWriter": true}

// connUse classifies a call on the client's connection: "read", "write", "close", "deadline", "wrap", "other" or "".
func connUse(cc *CallCtx) string {
	pos := -1
	for i, a := range cc.Args {
		if a.K == kSym && a.S == "conn" {
			pos = i
		}
	}
	if pos < 0 {
		return ""
	}
	if cc.Callee != nil && len(cc.Callee.Blocks) > 0 && cc.S.P.InLib(cc.Callee) {
		return "" // followed into the library function
	}
	c := cc.Common()
	if c.IsInvoke() && pos == 0 || (c.StaticCallee() != nil && c.StaticCallee().Signature.Recv() != nil && pos == 0) {
		m := ""
		if c.IsInvoke() {
			m = c.Method.Name()
		} else {
			m = c.StaticCallee().Name()
		}
		switch {
		case strings.HasPrefix(m, "Read"):
			return "read"
		case strings.HasPrefix(m, "Write"), m == "Flush":
			return "write"
		case m == "Close":
			return "close"
		case m == "SetDeadline":
			return "deadline"
		case m == "SetReadDeadline":
			return "rdeadline"
		case m == "SetWriteDeadline":
			return "wdeadline"
		case m == "LocalAddr", m == "RemoteAddr":
			return "info"
		}
		return "other"
	}
	switch {
	case connReadFuncs[cc.Name]:
		return "read"
	case connWriteFuncs[cc.Name]:
		return "write"
	case connWrapFuncs[cc.Name]:
		return "wrap"
	case strings.HasPrefix(cc.Name, "log/slog.") || strings.HasPrefix(cc.Name, "(*log/slog.") || strings.HasPrefix(cc.Name, "fmt."):
		return "info"
	}
	return "other"
}

// ioOuts forks an I/O call into success and failure.
func ioOuts(cc *CallCtx, okA, errA Auto) []CallOut {
	n := tupleLen(cc.Common())
	mk := func(e AV) []AV {
		r := make([]AV, n)
		if n > 0 {
			r[n-1] = e
		}
		return r
	}
	if n == 0 || !isErrorType(cc.Common().Signature().Results().At(n-1).Type()) {
		return []CallOut{{Auto: okA, Res: make([]AV, n)}}
	}
	return []CallOut{{Auto: okA, Res: mk(avNil())}, {Auto: errA, Res: mk(avNonNil())}}
}

func (lr *lockRun) connIO(cc *CallCtx) ([]CallOut, bool) {
	use := connUse(cc)
	if use == "" {
		return nil, false
	}
	a := cc.St.Auto
	construct := use + " at " + cc.Site()
	switch use {
	case "read", "write":
		lr.obl("exclusive-io", construct)
		if a.Get("L:Client.mutex") != "w" {
			lr.rep("C01", "exclusive-io", construct, cc.Pos(), "the client's connection is "+map[string]string{"read": "read", "write": "written"}[use]+" without holding the client's lock: another goroutine's exchange can interleave", cc.St.Trace())
		}
		if use == "write" {
			return ioOuts(cc, a.Set("x", "w"), a.Set("x", "err")), true
		}
		lr.obl("same-hold", construct)
		switch a.Get("x") {
		case "w", "rd", "err":
		default:
			lr.rep("C01", "same-hold", construct, cc.Pos(), "a reply is read although no request was written since the lock was taken: request and reply are not one exchange", cc.St.Trace())
		}
		return ioOuts(cc, a.Set("x", "rd"), a.Set("x", "err")), true
	case "wrap":
		return []CallOut{{Auto: a, Res: []AV{avSym("conn")}}}, true
	case "other":
		lr.rep("C01", "conn-escape", construct, cc.Pos(), "the client's connection is handed to a function that is not known to keep the exchange discipline", cc.St.Trace())
		return nil, false
	case "close", "deadline", "rdeadline", "wdeadline":
		return ioOuts(cc, a, a), true
	}
	return nil, false
}

func runLocks(c *Check, rep func(prop, rule, construct string, pos token.Pos, msg string, tr []string), obl func(rule, construct string)) *lockRun {
	lr := &lockRun{c: c, edges: map[[2]string]string{}, held: map[string]int{}, rep: rep, obl: obl}
	lr.roots = lockRoots(c.P, lr.relevant())
	d := lr.domain()
	rel := lr.relevant()
	d.Inline = func(f *ssa.Function) bool { return rel[f] }
	d.MustEnter = func(f *ssa.Function, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
		// a loop that writes a frame: frames are never empty (they carry a header)
		for b := range body {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Write" && connType(ci.Common().Value.Type()) {
					return true
				}
			}
		}
		return false
	}
	lr.sim = NewSim(c.P, d, func(key string, pos token.Pos, msg string, tr []string) {})
	for _, r := range lr.roots {
		lr.rootOf = r
		outs := lr.sim.Run(r, "")
		for _, o := range outs {
			for _, h := range heldLocks(o.Auto) {
				tr := (&State{trace: o.trace}).Trace()
				rep("C10", "released-on-exit", h+" after "+FnName(r), r.Pos(), h+" is still held when "+FnName(r)+" returns", tr)
			}
			for _, v := range o.Res {
				if v.K == kSym && (strings.HasPrefix(v.S, "guarded:") || strings.HasPrefix(v.S, "alias:") && o.Auto.Get("noslice") == "") {
					rep("C11", "escape", v.S+" returned by "+FnName(r), r.Pos(), FnName(r)+" returns data that others change under the lock "+"("+strings.TrimPrefix(strings.TrimPrefix(v.S, "guarded:"), "alias:")+") without copying it: the caller uses it without the lock", (&State{trace: o.trace}).Trace())
				}
			}
			obl("escape", FnName(r))
			obl("released-on-exit", FnName(r))
			if o.Auto.Get("x") == "unread" {
				if e, ok := ErrAV(r.Signature, o.Res); ok && e.K == kNil {
					rep("C01", "reply-read", FnName(r), r.Pos(), "the operation succeeds although the reply to a written request was never read: it will be taken for the next request's reply", (&State{trace: o.trace}).Trace())
				}
			}
		}
	}
	c.Info["functions_analysed"] = len(lr.sim.Funcs)
	c.Info["roots"] = len(lr.roots)
	c.Info["abstract_steps"] = lr.sim.Steps
	if len(lr.sim.overflow) > 0 {
		c.Findings["analysis|overflow"] = Finding{"analysis", "overflow", "-", "state limit reached in " + strings.Join(lr.sim.overflow, ", ") + ": undecided", nil}
	}
	return lr
}

func init() {
	rules["C01"] = func(c *Check) {
		c.Rule("exclusive-io", "every read or write of the client's connection happens with Client.mutex held on every path")
		c.Rule("same-hold", "every read of the connection is preceded by a write in the same hold of Client.mutex")
		c.Rule("reply-read", "no operation returns success while a written request's reply is unread")
		c.Rule("conn-escape", "the connection is only used where its use can be followed")
		c.Rule("header-in-exchange", "a request's header is prepared while Client.mutex is held")
		lr := runLocks(c, func(prop, rule, construct string, pos token.Pos, msg string, tr []string) {
			if prop == "C01" {
				c.Fail(rule, construct, c.P.Pos(pos), msg, tr...)
			}
			if prop == "C11" && rule == "guarded-by" && strings.HasPrefix(construct, "Client.HeaderSequenceCounter") {
				c.Fail("header-in-exchange", construct, c.P.Pos(pos), "the frame header is prepared outside the exclusive exchange: "+msg, tr...)
			}
		}, func(rule, construct string) {
			if rule == "exclusive-io" || rule == "same-hold" {
				c.Instance(rule, construct)
			}
			if rule == "guarded-by" && strings.HasPrefix(construct, "Client.HeaderSequenceCounter") {
				c.Instance("header-in-exchange", construct)
			}
		})
		_ = lr
		c.Floor("exclusive-io", 2)
		c.Floor("same-hold", 1)
		c.Floor("header-in-exchange", 1)
	}
	rules["C10"] = func(c *Check) {
		c.Rule("acquire", "lock acquisitions found (each must pair)")
		c.Rule("release", "lock releases found")
		c.Rule("no-reentry", "no lock is acquired while the same goroutine holds it")
		c.Rule("release-held", "a lock is released only while held")
		c.Rule("release-mode", "read locks are released as read locks, write locks as write locks")
		c.Rule("released-on-exit", "no entry point returns with a lock still held")
		c.Rule("lock-order", "the acquired-while-holding relation between locks has no cycle")
		lr := runLocks(c, func(prop, rule, construct string, pos token.Pos, msg string, tr []string) {
			if prop == "C10" {
				c.Fail(rule, construct, c.P.Pos(pos), msg, tr...)
			}
		}, func(rule, construct string) {
			if rule == "acquire" || rule == "release" || rule == "released-on-exit" {
				c.Instance(rule, construct)
			}
		})
		var es []string
		adj := map[string][]string{}
		for k, site := range lr.edges {
			es = append(es, k[0]+" → "+k[1]+" at "+site)
			adj[k[0]] = append(adj[k[0]], k[1])
			c.Instance("lock-order", k[0]+" → "+k[1])
		}
		sort.Strings(es)
		c.Info["lock_order_edges"] = es
		for k, site := range lr.edges {
			if k[0] != k[1] && reaches(adj, k[1], k[0]) {
				a, b := k[0], k[1]
				if a > b {
					a, b = b, a
				}
				c.Fail("lock-order", "cycle "+a+" / "+b, "-", fmt.Sprintf("%s is acquired while %s is held (%s) and the other way round: deadlock", k[1], k[0], site))
			}
		}
		c.Floor("acquire", 8)
		c.Floor("release", 8)
	}
	rules["C11"] = func(c *Check) {
		c.Rule("guarded-by", "every access to a field in the guard table happens with its lock held (objects still private to the allocating function excepted)")
		c.Rule("published", "an encoded name in the cache and a connection in the table are changed only under the lock of the cache or table, or before they are stored in it")
		c.Rule("escape", "no operation returns a guarded map, slice or pointer, or a slice that is changed in place, for use without the lock")
		runLocks(c, func(prop, rule, construct string, pos token.Pos, msg string, tr []string) {
			if prop == "C11" {
				c.Fail(rule, construct, c.P.Pos(pos), msg, tr...)
			}
		}, func(rule, construct string) {
			if rule == "guarded-by" || rule == "published" || rule == "escape" {
				c.Instance(rule, construct)
			}
		})
		c.Rule("one-hold", "a guarded list, table or status is changed according to what it held in the same hold of its lock")
		staleUses(c)
		c.Floor("one-hold", 8)
		c.Floor("published", 4)
		c.Floor("escape", 20)
		for _, g := range guards {
			n := 0
			for k := range c.Seen["guarded-by"] {
				if strings.HasPrefix(k, g.typ+"."+g.field+" ") {
					n++
				}
			}
			c.Anchor(n > 0, "an access to "+g.typ+"."+g.field)
		}
	}
}

func reaches(adj map[string][]string, from, to string) bool {
	seen := map[string]bool{}
	var dfs func(string) bool
	dfs = func(x string) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range adj[x] {
			if dfs(y) {
				return true
			}
		}
		return false
	}
	return dfs(from)
}
