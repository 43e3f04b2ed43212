package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var connTriple = []string{"ConnectionSerialNumber", "VendorID", "OriginatorSerialNumber"}

// connMsg: "open" or "close" for the structures that ask a device to open or close a connection, "" for others.
func connMsg(t types.Type) string {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	have := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		have[s.Field(i).Name()] = true
	}
	for _, f := range connTriple {
		if !have[f] {
			return ""
		}
	}
	if !have["Service"] || have["Status"] {
		return ""
	}
	if have["OTConnectionID"] {
		return "open"
	}
	return "close"
}

func clientRoots(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.SrcFuncs(p.Root) {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() == nil {
			continue
		}
		if typeName(deref(f.Signature.Recv().Type())) == "Client" {
			out = append(out, f)
		}
	}
	return out
}

// clientIdentity: the client side of "open, use and close all name the same connection".
func clientIdentity(c *Check) {
	p := c.P
	roots := clientRoots(p)
	client := p.Reach(roots...)
	server := p.Reach(sessionRoots(p)...)
	// layouts
	seen := map[string]bool{}
	for f := range client {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				al, ok := i.(*ssa.Alloc)
				if !ok {
					continue
				}
				t := deref(al.Type())
				k := connMsg(t)
				if k != "" && !seen[typeString(t)] {
					seen[typeString(t)] = true
					ls, _, ok := wireLeaves(t)
					off := map[string]wireLeaf{}
					for _, l := range ls {
						off[l.path[strings.LastIndex(l.path, ".")+1:]] = l
					}
					a, v, o := off[connTriple[0]], off[connTriple[1]], off[connTriple[2]]
					c.Oblige(ok && a.size == 2 && v.size == 2 && o.size == 4 && v.off == a.off+2 && o.off == v.off+2, "identifier-layout", k+" message "+typeName(t), p.Pos(al.Pos()), "the identifiers of a connection are not adjacent 16, 16 and 32 bit fields")
				}
			}
		}
	}
	// what a close would name after every operation
	touch := p.Relevant(func(f *ssa.Function, i ssa.Instruction) bool {
		fa, ok := i.(*ssa.FieldAddr)
		return ok && connMsg(fa.X.Type()) != ""
	})
	written := map[string]bool{} // client fields that name the connection
	learned := map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		if pass == 1 {
			written = learned
		}
		sets := p.Relevant(func(f *ssa.Function, i ssa.Instruction) bool {
			s, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			t, fl, ok := fieldOf(s.Addr)
			return ok && t == "Client" && written[fl]
		})
		for _, r := range roots {
			if !touch[r] && !sets[r] {
				continue
			}
			d := &Domain{Name: "ident"}
			d.Inline = func(f *ssa.Function) bool { return touch[f] || sets[f] }
			clientBase := func(v ssa.Value) (string, bool) {
				t, fl, ok := fieldOf(v)
				if !ok || t != "Client" {
					return "", false
				}
				if fa, ok := v.(*ssa.FieldAddr); ok {
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						return "", false
					}
				}
				return fl, true
			}
			d.OnInstr = func(ic *InstrCtx) (AV, bool) {
				a := ic.St.Auto
				switch x := ic.I.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if fl, ok := clientBase(x.X); ok && (pass == 0 || written[fl]) && intType(x.Type()) {
							if v := a.Get("v." + fl); v != "" {
								return avSym(v), true
							}
							return avSym("client." + fl), true
						}
					}
				case *ssa.BinOp:
					if isIDType(x.Type()) {
						return avSym(fmt.Sprintf("calc%d", x.Pos())), true
					}
				case *ssa.Store:
					v := ic.av(x.Val)
					txt := avText(v)
					if txt == "" {
						txt = "value of " + FnName(ic.Fn) + "." + x.Val.Name()
					}
					if fl, ok := clientBase(x.Addr); ok && written[fl] && intType(deref(x.Addr.Type())) {
						ic.St.Auto = a.Set("v."+fl, txt)
						return unk, false
					}
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						break
					}
					k := connMsg(fa.X.Type())
					_, fl, _ := fieldOf(fa)
					if k == "" || !isTriple(fl) {
						break
					}
					if k == "open" {
						ic.St.Auto = a.Set("open."+fl, txt)
					} else {
						good := false
						if pass == 0 {
							if good = strings.HasPrefix(txt, "client."); good {
								learned[fl+"="+txt[len("client."):]] = true
								learned[txt[len("client."):]] = true
							}
						} else {
							for w := range written {
								if cf, ok := strings.CutPrefix(w, fl+"="); ok && (txt == a.Get("v."+cf) || a.Get("v."+cf) == "" && txt == "client."+cf) {
									good = true
								}
							}
						}
						c.Oblige(good, "close-names-open", "close "+fl+" in "+FnName(ic.Fn), p.Pos(x.Pos()), "the "+fl+" of a close request is not the one kept in the client since the connection was opened", ic.St.Trace()...)
					}
				}
				return unk, false
			}
			d.OnCall = func(cc *CallCtx) ([]CallOut, bool) {
				if cc.Callee != nil && p.InLib(cc.Callee) {
					return nil, false
				}
				n := tupleLen(cc.Common())
				if n == 1 && isIDType(cc.Common().Signature().Results().At(0).Type()) {
					return []CallOut{{Auto: cc.St.Auto, Res: []AV{avSym(fmt.Sprintf("draw%d", cc.Pos()))}}}, true
				}
				return nil, false
			}
			s := NewSim(p, d, nil)
			for _, o := range s.Run(r, "") {
				if pass == 0 {
					continue
				}
				for _, fl := range connTriple {
					opened := o.Auto.Get("open." + fl)
					for w := range written {
						if !strings.HasPrefix(w, fl+"=") {
							continue
						}
						cf := w[len(fl)+1:]
						now := o.Auto.Get("v." + cf)
						if now == "" {
							now = "client." + cf
						}
						st := &State{trace: o.trace}
						switch {
						case opened != "":
							c.Oblige(now == opened, "close-names-open", fl+" after "+FnName(r), p.Pos(r.Pos()), "the connection is opened with a "+fl+" that is not the one Client."+cf+" holds afterwards, which a close would send", st.Trace()...)
						case o.Auto.Get("v."+cf) != "":
							c.Fail("close-names-open", fl+" changed by "+FnName(r), p.Pos(r.Pos()), "Client."+cf+" changes without a new connection being opened with it: a close would name another connection", st.Trace()...)
						}
					}
				}
			}
		}
	}
	for _, fl := range connTriple {
		ok := false
		for w := range written {
			ok = ok || strings.HasPrefix(w, fl+"=")
		}
		if !ok {
			c.Fail("close-names-open", "anchor "+fl, "-", "no close request sending a "+fl+" kept in the client was found")
		}
	}

	// the connection id of connected requests
	otFields := map[string]token.Pos{}
	sessFields := map[string]token.Pos{}
	for f := range client {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				t, fl, ok := fieldOf(st.Addr)
				if !ok || t != "Client" {
					continue
				}
				for _, o := range origins(p, st.Val, 0, map[ssa.Value]bool{}) {
					low := strings.ToLower(o.field)
					switch {
					case o.typ == "eipHeader" && o.field == "SessionHandle":
						sessFields[fl] = st.Pos()
					case strings.HasPrefix(low, "ot") && strings.HasSuffix(low, "connectionid") && hasTO(o.t):
						otFields[fl] = st.Pos()
						ls, _, ok := wireLeaves(o.t)
						want := 0
						if _, isHdr := replyHdr(o.t); isHdr {
							want = 4
						}
						good := false
						for _, l := range ls {
							if strings.HasSuffix(l.path, "."+o.field) {
								good = ok && l.off == want && l.size == 4
							}
						}
						c.Oblige(good, "identifier-layout", "open reply "+typeName(o.t), p.Pos(st.Pos()), "the connection id the device assigned is not read from where an open reply holds it")
					}
				}
			}
		}
	}
	// those fields hold nothing else
	for f := range client {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				t, fl, ok := fieldOf(st.Addr)
				if !ok || t != "Client" {
					continue
				}
				_, isOT := otFields[fl]
				_, isSess := sessFields[fl]
				if !isOT && !isSess {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
				}
				good := true
				for _, o := range origins(p, st.Val, 0, map[ssa.Value]bool{}) {
					low := strings.ToLower(o.field)
					switch {
					case o.konst: // forgetting it
					case isSess && o.typ == "eipHeader" && o.field == "SessionHandle":
					case isOT && strings.HasPrefix(low, "ot") && strings.HasSuffix(low, "connectionid"):
					default:
						good = false
					}
				}
				if isOT {
					c.Oblige(good, "device-connection-id", "Client."+fl+" set in "+FnName(f), p.Pos(st.Pos()), "the connection id sent with requests is not (only) the one the device returned")
				} else {
					c.Oblige(good, "device-session", "Client."+fl+" set in "+FnName(f), p.Pos(st.Pos()), "the session handle sent with every frame is not (only) the one the device assigned")
				}
			}
		}
	}
	if len(otFields) != 1 {
		c.Fail("device-connection-id", "anchor", "-", fmt.Sprintf("the OT connection id of the open reply is kept in %d client fields", len(otFields)))
	}
	if len(sessFields) != 1 {
		c.Fail("device-session", "anchor", "-", fmt.Sprintf("the session handle of the register reply is kept in %d client fields", len(sessFields)))
	}
	itemID := "cipItemID"
	if p.Root.Type("CIPItemID") != nil {
		itemID = "CIPItemID"
	}
	one := func(m map[string]token.Pos, f string) bool { _, ok := m[f]; return ok }
	for f := range client {
		if server[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Call:
					a1 := false
					var payload []ssa.Value
					for _, a := range x.Call.Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && typeName(k.Type()) == itemID && k.Int64() == 0xA1 {
							a1 = true
						} else if mi, ok := a.(*ssa.MakeInterface); ok {
							payload = append(payload, mi.X)
						} else if isIface(a.Type()) {
							payload = append(payload, a)
						}
					}
					if !a1 || len(payload) == 0 {
						continue
					}
					for _, v := range payload {
						for _, o := range origins(p, v, 0, map[ssa.Value]bool{}) {
							c.Oblige(o.typ == "Client" && one(otFields, o.field), "device-connection-id", "address item in "+FnName(f), p.Pos(x.Pos()), "a connected request does not carry the connection id the device returned")
						}
					}
				case *ssa.Store:
					t, fl, ok := fieldOf(x.Addr)
					if !ok || t != "eipHeader" || fl != "SessionHandle" {
						continue
					}
					for _, o := range origins(p, x.Val, 0, map[ssa.Value]bool{}) {
						c.Oblige(o.typ == "Client" && one(sessFields, o.field), "device-session", "header in "+FnName(f), p.Pos(x.Pos()), "a frame's header does not carry the session handle the device assigned")
					}
				case *ssa.Alloc:
					if typeName(deref(x.Type())) != "eipHeader" {
						continue
					}
					cmd, sess := false, false
					for _, r := range *x.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok {
							_, fl, _ := fieldOf(fa)
							for _, r2 := range *fa.Referrers() {
								if s, ok := r2.(*ssa.Store); ok && s.Addr == fa {
									cmd = cmd || fl == "Command"
									sess = sess || fl == "SessionHandle"
								}
							}
						}
					}
					if cmd {
						c.Oblige(sess, "device-session", "header in "+FnName(f), p.Pos(x.Pos()), "a frame's header is built without the session handle the device assigned")
					}
				}
			}
		}
	}
}

func isTriple(f string) bool {
	for _, t := range connTriple {
		if t == f {
			return true
		}
	}
	return false
}

func hasTO(t types.Type) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		low := strings.ToLower(s.Field(i).Name())
		if strings.HasPrefix(low, "to") && strings.HasSuffix(low, "connectionid") {
			return true
		}
	}
	return false
}

func isIDType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint16 || b.Kind() == types.Uint32)
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func storesAny(f *ssa.Function, typ string, fields map[string]bool) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok {
				if t, fl, ok := fieldOf(s.Addr); ok && t == typ && fields[fl] {
					return true
				}
			}
		}
	}
	return false
}

// origin: where a value comes from.
type origin struct {
	typ, field string     // a field
	t          types.Type // its struct
	konst      bool
	v          ssa.Value // anything else
}

// origins follows copies, conversions, locals, parameters and results back to the fields, constants or
// computations a value comes from.
func origins(p *Prog, v ssa.Value, d int, seen map[ssa.Value]bool) []origin {
	if seen[v] || d > 12 {
		return nil
	}
	seen[v] = true
	rec := func(x ssa.Value) []origin { return origins(p, x, d+1, seen) }
	cells := func(a *ssa.Alloc) ([]origin, bool) {
		var out []origin
		for _, r := range *a.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == a {
					out = append(out, rec(x.Val)...)
				} else {
					return nil, false
				}
			case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeInterface:
			default:
				return nil, false
			}
		}
		return out, len(out) > 0
	}
	switch x := v.(type) {
	case *ssa.Const:
		return []origin{{konst: true, v: v}}
	case *ssa.Convert:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.Phi:
		var out []origin
		for _, e := range x.Edges {
			out = append(out, rec(e)...)
		}
		return out
	case *ssa.FieldAddr:
		t, f, ok := fieldOf(x)
		if ok {
			return []origin{{typ: t, field: f, t: deref(x.X.Type()), v: v}}
		}
	case *ssa.Field:
		if s, ok := x.X.Type().Underlying().(*types.Struct); ok {
			return []origin{{typ: typeName(x.X.Type()), field: s.Field(x.Field).Name(), t: x.X.Type(), v: v}}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch y := x.X.(type) {
			case *ssa.FieldAddr:
				return rec(y)
			case *ssa.Alloc:
				if o, ok := cells(y); ok {
					return o
				}
			}
		}
	case *ssa.Alloc:
		if o, ok := cells(x); ok {
			return o
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if o := resultOrigins(p, call, x.Index, d, seen); o != nil {
				return o
			}
		}
	case *ssa.Call:
		if o := resultOrigins(p, x, 0, d, seen); o != nil {
			return o
		}
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		var out []origin
		for _, ci := range p.CallersOf(f) {
			args := ci.Common().Args
			if ci.Common().IsInvoke() {
				args = append([]ssa.Value{ci.Common().Value}, args...)
			}
			if idx < len(args) {
				out = append(out, rec(args[idx])...)
			}
		}
		if len(out) > 0 {
			return out
		}
	case *ssa.FreeVar:
		f := x.Parent()
		var out []origin
		if f.Referrers() != nil {
			for _, r := range *f.Referrers() {
				if mc, ok := r.(*ssa.MakeClosure); ok {
					for i, fv := range f.FreeVars {
						if fv == x && i < len(mc.Bindings) {
							out = append(out, rec(mc.Bindings[i])...)
						}
					}
				}
			}
		}
		if len(out) > 0 {
			return out
		}
	}
	return []origin{{v: v}}
}

func resultOrigins(p *Prog, call *ssa.Call, idx, d int, seen map[ssa.Value]bool) []origin {
	f := call.Call.StaticCallee()
	if f == nil || !p.InLib(f) {
		return nil
	}
	var out []origin
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			out = append(out, origins(p, r.Results[idx], d+1, seen)...)
		}
	}
	return out
}
