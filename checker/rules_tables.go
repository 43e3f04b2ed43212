package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: tables of descriptions. Each table is read by propagating every code as a constant through the
// function users call to look it up, so that it does not matter whether the table is a map, an array or a
// switch. What comes out is compared with the published meaning of the codes (reference.json).

//go:embed reference.json
var referenceJSON []byte

type reference struct {
	Text   map[string]map[string]string // table -> code -> text
	Consts map[string]map[string]int64  // type -> constant -> value
	Bits   map[string]map[string]string // type -> predicate -> mask
}

var ref reference

func init() {
	rules["C31"] = tables
	if err := json.Unmarshal(referenceJSON, &ref); err != nil {
		panic(err)
	}
}

// namedType finds a library type by package and name.
func (p *Prog) namedType(pk *ssa.Package, name string) *types.Named {
	if pk == nil {
		return nil
	}
	if t, ok := pk.Members[name].(*ssa.Type); ok {
		n, _ := t.Type().(*types.Named)
		return n
	}
	return nil
}

// methodOf finds a method of a type or of a pointer to it.
func (p *Prog) methodOf(n types.Type, name string) *ssa.Function {
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if o := ms.At(i).Obj(); o.Name() == name {
				if f := p.SSA.FuncValue(o.(*types.Func)); f != nil {
					return f
				}
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func constString(v Val) (string, bool) {
	switch x := v.(type) {
	case *ifVal:
		return constString(x.v)
	case *kVal:
		if x.v != nil && x.v.Kind() == constant.String {
			return constant.StringVal(x.v), true
		}
	}
	return "", false
}

func constBool(v Val) (bool, bool) {
	if x, ok := v.(*kVal); ok && x.v != nil && x.v.Kind() == constant.Bool {
		return constant.BoolVal(x.v), true
	}
	return false, false
}

// only: the single way a call ends when it does not depend on anything unknown.
func (ev *Eval) only(f *ssa.Function, args []Val, st *evState) (*evOut, bool) {
	outs := ev.Run(f, args, st)
	if ev.bad != "" || len(outs) != 1 || outs[0].dead {
		return nil, false
	}
	return &outs[0], true
}

type textTable struct {
	name    string
	codes   []string // in order
	got     map[string]string
	odd     map[string]string // codes for which no constant text comes out, and why
	f       *ssa.Function
	def     func(code, text string) bool
	checked int
}

func tables(c *Check) {
	p := c.P
	ev := NewEval(p)
	ev.Globals(p.Root)
	if p.Canned != nil {
		ev.Globals(p.Canned)
	}
	dump := os.Getenv("VERIF_DUMP_REF")
	out := reference{map[string]map[string]string{}, map[string]map[string]int64{}, map[string]map[string]string{}}

	c.Rule("text", "the description looked up for a code, found by propagating the code through the lookup function, is the one published for that code and not the one of another code or the text for unlisted codes")
	c.Rule("fault", "a fault description carries the type and code it is filed under, in its fields and in its display text")
	c.Rule("bits", "predicates over one status word test different flags, each the flag published under that name")
	c.Rule("const", "a named code has its published value")

	// tables over the codes of one integer type
	for _, tb := range []struct {
		pk     *ssa.Package
		typ    string
		method string
		n      int
	}{{p.Root, "VendorId", "Name", 65536}, {p.Root, "DeviceType", "Name", 65536}, {p.Root, "CIPService", "String", 256}, {p.Root, "CIPStatus", "String", 256}} {
		n := p.namedType(tb.pk, tb.typ)
		if n == nil {
			c.Anchor(false, tb.typ)
			continue
		}
		f := p.methodOf(n, tb.method)
		c.Anchor(f != nil, tb.typ+"."+tb.method)
		if f == nil {
			continue
		}
		t := &textTable{name: tb.typ, got: map[string]string{}, odd: map[string]string{}, f: f}
		codes := map[int]bool{}
		for i := 0; i < 256 && i < tb.n; i++ {
			codes[i] = true
		}
		for k := range ref.Text[tb.typ] {
			i, _ := strconv.Atoi(k)
			codes[i] = true
		}
		for _, k := range ev.mapKeysUsed(f) {
			if k >= 0 && k < tb.n {
				codes[k] = true
			}
		}
		codes[tb.n-1] = true
		var cs []int
		for k := range codes {
			cs = append(cs, k)
		}
		sort.Ints(cs)
		for _, k := range cs {
			code := strconv.Itoa(k)
			t.codes = append(t.codes, code)
			arg := Val(&kVal{constant.MakeInt64(int64(k)), n})
			st := ev.newState()
			if _, ptr := f.Signature.Recv().Type().(*types.Pointer); ptr {
				st.mem["z:recv"] = arg
				arg = &ptrVal{"z:recv"}
			}
			o, ok := ev.only(f, []Val{arg}, st)
			if !ok || len(o.res) != 1 {
				t.odd[code] = ev.bad
				continue
			}
			s, ok := constString(o.res[0])
			if !ok {
				t.odd[code] = "the text does not depend on the code alone"
				continue
			}
			t.got[code] = s
		}
		defText := t.got[strconv.Itoa(tb.n-1)]
		unlisted := digits.ReplaceAllString(defText, "#")
		t.def = func(code, text string) bool {
			l := strings.ToLower(text)
			return digits.ReplaceAllString(text, "#") == unlisted || strings.HasPrefix(l, "reserved") || strings.HasPrefix(l, "unknown")
		}
		out.Text[tb.typ] = t.listed()
		c.textRule(t)
	}

	// CIPError: a status and an extended status
	if n := p.namedType(p.Root, "CIPError"); n != nil {
		f := p.methodOf(n, "Error")
		c.Anchor(f != nil, "CIPError.Error")
		if f != nil {
			t := &textTable{name: "CIPError", got: map[string]string{}, odd: map[string]string{}, f: f}
			exts := map[int64]bool{0: true, 0xFFFF: true}
			for k := range ref.Text["CIPError"] {
				if i := strings.Index(k, "/"); i >= 0 {
					x, _ := strconv.Atoi(k[i+1:])
					exts[int64(x)] = true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if bo, ok := in.(*ssa.BinOp); ok {
						for _, v := range []ssa.Value{bo.X, bo.Y} {
							if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
								exts[k.Int64()] = true
							}
						}
					}
				}
			}
			var xs []int64
			for x := range exts {
				if x >= 0 && x <= 0xFFFF {
					xs = append(xs, x)
				}
			}
			sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
			su := n.Underlying().(*types.Struct)
			for code := 0; code < 256; code++ {
				for _, x := range xs {
					key := fmt.Sprintf("%d/%d", code, x)
					a := &aggVal{n, map[string]Val{}}
					for i := 0; i < su.NumFields(); i++ {
						ft := su.Field(i).Type()
						v := int64(0)
						switch bitsOf(ft) {
						case 8:
							v = int64(code)
						case 16:
							v = x
						}
						a.f[fmt.Sprintf(".%d", i)] = &kVal{constant.MakeInt64(v), ft}
					}
					st := ev.newState()
					arg := Val(a)
					if _, ptr := f.Signature.Recv().Type().(*types.Pointer); ptr {
						ev.store(st, "z:recv", a)
						arg = &ptrVal{"z:recv"}
					}
					t.codes = append(t.codes, key)
					o, ok := ev.only(f, []Val{arg}, st)
					if !ok {
						t.odd[key] = ev.bad
						continue
					}
					s, ok := constString(o.res[0])
					if !ok {
						t.odd[key] = "the text does not depend on the code alone"
						continue
					}
					if i := strings.Index(s, ":"); i >= 0 {
						s = s[i+1:]
					}
					t.got[key] = strings.TrimSpace(s)
				}
			}
			last := t.got[fmt.Sprintf("254/%d", 0xFFFF)]
			t.def = func(code, text string) bool { return text == last }
			out.Text["CIPError"] = t.listed()
			c.textRule(t)
		}
	}

	// fault descriptions
	if p.Canned != nil {
		c.faults(ev, &out)
	}
	c.flags(ev, &out)
	c.consts(&out)
	c.Floor("text", 1500)
	c.Floor("fault", 100)
	c.Floor("bits", 15)
	if dump == "" {
		c.Floor("const", 150)
	}
	if dump != "" {
		b, _ := json.MarshalIndent(out, "", " ")
		os.WriteFile(dump, append(b, '\n'), 0o644)
	}
}

var digits = regexp.MustCompile(`[0-9]+`)

// listed: the entries that are not the text for unlisted codes.
func (t *textTable) listed() map[string]string {
	m := map[string]string{}
	for k, s := range t.got {
		if !t.def(k, s) {
			m[k] = s
		}
	}
	return m
}

// mapKeysUsed: constant keys of the tables a function looks codes up in.
func (ev *Eval) mapKeysUsed(f *ssa.Function) []int {
	var out []int
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok {
						if m, ok := ev.glob["g:"+g.Pkg.Pkg.Path()+"."+g.Name()].(*mapVal); ok {
							for k := range ev.mapEntries(m.at) {
								if i, err := strconv.Atoi(k); err == nil {
									out = append(out, i)
								}
							}
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && ev.p.InLib(g) {
						walk(g)
					}
				}
			}
		}
	}
	walk(f)
	return out
}

// mapEntries lists the constant keys a map was filled with during initialisation.
func (ev *Eval) mapEntries(at string) map[string]bool {
	m := map[string]bool{}
	for k := range ev.glob {
		if strings.HasPrefix(k, at+"<") {
			rest := k[len(at)+1:]
			if i := strings.Index(rest, ">"); i >= 0 {
				m[rest[:i]] = true
			}
		}
	}
	return m
}

// textRule compares a table with the published one.
func (c *Check) textRule(t *textTable) {
	p := c.P
	want := ref.Text[t.name]
	owner := map[string][]string{}
	for k, s := range want {
		owner[normText(s)] = append(owner[normText(s)], k)
	}
	fn := FnName(t.f)
	pos := p.Pos(t.f.Pos())
	for _, k := range t.codes {
		if why, ok := t.odd[k]; ok {
			c.Oblige(false, "text", fmt.Sprintf("%s code %s", fn, k), pos, "the description of this code cannot be determined: "+why)
			continue
		}
		s := t.got[k]
		w, listed := want[k]
		if !listed && t.def(k, s) {
			continue
		}
		id := fmt.Sprintf("%s code %s", fn, k)
		switch own := owner[normText(s)]; {
		case listed && s == w:
			c.Oblige(true, "text", id, pos, "")
		case listed && t.def(k, s):
			c.Oblige(false, "text", id, pos, fmt.Sprintf("looking up code %s yields %q, the text for unlisted codes; it means %q", k, s, w))
		case len(own) > 0 && !contains(own, k):
			sort.Strings(own)
			c.Oblige(false, "text", id, pos, fmt.Sprintf("looking up code %s yields %q, which describes code %s", k, s, strings.Join(own, ", ")))
		case listed && !alike(s, w):
			c.Oblige(false, "text", id, pos, fmt.Sprintf("looking up code %s yields %q; it means %q", k, s, w))
		default:
			c.Oblige(true, "text", id, pos, "")
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var notWord = regexp.MustCompile(`[^a-z0-9]+`)

func normText(s string) string {
	return strings.Trim(notWord.ReplaceAllString(strings.ToLower(s), " "), " ")
}

// alike: two texts that share much of their wording.
func alike(a, b string) bool {
	a, b = normText(a), normText(b)
	if strings.Contains(a, b) || strings.Contains(b, a) {
		return len(a) > 0 && len(b) > 0
	}
	// shared letter pairs
	pairs := func(s string) map[string]int {
		m := map[string]int{}
		for i := 0; i+1 < len(s); i++ {
			m[s[i:i+2]]++
		}
		return m
	}
	pa, pb := pairs(a), pairs(b)
	n, tot := 0, 0
	for k, x := range pa {
		n += 2 * min(x, pb[k])
		tot += x
	}
	for _, x := range pb {
		tot += x
	}
	return tot > 0 && float64(n)/float64(tot) > 0.6
}

var faultTag = regexp.MustCompile(`T(\d+):C(\d+)`)

func (c *Check) faults(ev *Eval, out *reference) {
	p := c.P
	n := p.namedType(p.Canned, "FaultEvent")
	var f *ssa.Function
	if n != nil {
		f = p.methodOf(n, "Description")
	}
	c.Anchor(f != nil, "FaultEvent.Description")
	if f == nil {
		return
	}
	su, _ := n.Underlying().(*types.Struct)
	rt, _ := f.Signature.Results().At(0).Type().Underlying().(*types.Struct)
	if su == nil || rt == nil {
		c.Oblige(false, "fault", FnName(f), p.Pos(f.Pos()), "the fault event or its description is not a structure")
		return
	}
	idx := func(s *types.Struct, name string) int {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
		return -1
	}
	iClass, iCode := idx(su, "FaultClass"), idx(su, "FaultCode")
	iType, iC, iDisp, iDesc := idx(rt, "Type"), idx(rt, "Code"), idx(rt, "Display"), idx(rt, "Description")
	if iClass < 0 || iCode < 0 || iType < 0 || iC < 0 || iDisp < 0 || iDesc < 0 {
		c.Oblige(false, "fault", FnName(f), p.Pos(f.Pos()), "the fields the description is looked up by cannot be found")
		return
	}
	got := map[string]string{}
	want := ref.Text["Fault"]
	owner := map[string][]string{}
	for k, s := range want {
		owner[normText(s)] = append(owner[normText(s)], k)
	}
	cls := map[int]bool{}
	cod := map[int]bool{}
	for i := 0; i < 32; i++ {
		cls[i] = true
	}
	for i := 0; i < 260; i++ {
		cod[i] = true
	}
	for k := range want {
		a, b, _ := strings.Cut(k, "/")
		x, _ := strconv.Atoi(a)
		y, _ := strconv.Atoi(b)
		cls[x], cod[y] = true, true
	}
	var cl, co []int
	for k := range cls {
		cl = append(cl, k)
	}
	for k := range cod {
		co = append(co, k)
	}
	sort.Ints(cl)
	sort.Ints(co)
	pos := p.Pos(f.Pos())
	for _, class := range cl {
		for _, code := range co {
			a := &aggVal{n, map[string]Val{}}
			for i := 0; i < su.NumFields(); i++ {
				ft := su.Field(i).Type()
				var v Val = &symVal{"event." + su.Field(i).Name(), ft}
				switch i {
				case iClass:
					v = &kVal{constant.MakeInt64(int64(class)), ft}
				case iCode:
					v = &kVal{constant.MakeInt64(int64(code)), ft}
				}
				a.f[fmt.Sprintf(".%d", i)] = v
			}
			st := ev.newState()
			arg := Val(a)
			if _, ptr := f.Signature.Recv().Type().(*types.Pointer); ptr {
				ev.store(st, "z:recv", a)
				arg = &ptrVal{"z:recv"}
			}
			key := fmt.Sprintf("%d/%d", class, code)
			id := fmt.Sprintf("%s T%02d:C%02d", FnName(f), class, code)
			o, ok := ev.only(f, []Val{arg}, st)
			var d *aggVal
			if ok && len(o.res) == 1 {
				d, _ = o.res[0].(*aggVal)
			}
			if d == nil {
				if _, listed := want[key]; listed || class < 2 && code < 2 {
					c.Oblige(false, "fault", id, pos, "the description of this fault cannot be determined: "+ev.bad)
				}
				continue
			}
			ty, ok1 := constInt(d.f[fmt.Sprintf(".%d", iType)])
			cd, ok2 := constInt(d.f[fmt.Sprintf(".%d", iC)])
			disp, _ := constString(d.f[fmt.Sprintf(".%d", iDisp)])
			desc, isText := constString(d.f[fmt.Sprintf(".%d", iDesc)])
			w, listed := want[key]
			if isText {
				got[key] = desc
			}
			switch {
			case !ok1 || !ok2 || ty != class || cd != code:
				c.Oblige(false, "fault", id, pos, fmt.Sprintf("the description found for type %d code %d says it is type %d code %d", class, code, ty, cd))
				continue
			}
			if m := faultTag.FindStringSubmatch(disp); m != nil {
				x, _ := strconv.Atoi(m[1])
				y, _ := strconv.Atoi(m[2])
				if x != class || y != code {
					c.Oblige(false, "fault", id, pos, fmt.Sprintf("the description found for type %d code %d is displayed as %s", class, code, m[0]))
					continue
				}
			}
			if !isText {
				if listed {
					c.Oblige(false, "fault", id, pos, fmt.Sprintf("type %d code %d is not described; it means %q", class, code, w))
				}
				continue
			}
			switch own := owner[normText(desc)]; {
			case len(own) > 0 && !contains(own, key):
				c.Oblige(false, "fault", id, pos, fmt.Sprintf("the description found for type %d code %d (%q) is the one of %s", class, code, desc, strings.Join(own, ", ")))
			case listed && !alike(desc, w):
				c.Oblige(false, "fault", id, pos, fmt.Sprintf("the description found for type %d code %d is %q; it means %q", class, code, desc, w))
			default:
				c.Oblige(true, "fault", id, pos, "")
			}
		}
	}
	out.Text["Fault"] = got
}

// flags: predicates over an integer status word.
func (c *Check) flags(ev *Eval, out *reference) {
	p := c.P
	for _, n := range p.allNamed {
		b, ok := n.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		type pred struct {
			f    *ssa.Function
			mask uint64
		}
		var preds []pred
		for i := 0; i < n.NumMethods(); i++ {
			f := p.SSA.FuncValue(n.Method(i))
			if f == nil || len(f.Blocks) == 0 || len(f.Params) != 1 || f.Signature.Results().Len() != 1 {
				continue
			}
			if rb, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || rb.Kind() != types.Bool {
				continue
			}
			if _, ptr := f.Signature.Recv().Type().(*types.Pointer); ptr {
				continue
			}
			at := func(x uint64) (bool, bool) {
				st := ev.newState()
				o, ok := ev.only(f, []Val{&kVal{constant.MakeUint64(x), n}}, st)
				if !ok || len(o.res) != 1 {
					return false, false
				}
				return constBool(o.res[0])
			}
			zero, known := at(0)
			if !known {
				continue
			}
			var mask uint64
			w := bitsOf(n)
			if b.Info()&types.IsUnsigned == 0 {
				w--
			}
			for k := 0; k < w; k++ {
				v, ok := at(1 << k)
				if !ok {
					known = false
				}
				if v != zero {
					mask |= 1 << k
				}
			}
			// a flag test depends on its bits alone: with all the others set it says the same
			all := uint64(1)<<uint(w) - 1
			if v, ok := at(all &^ mask); ok && v != zero {
				continue // a test of the whole value, not of a flag
			}
			if !known || mask == 0 {
				if want := ref.Bits[typeString(n)]; want != nil && want[f.Name()] != "" {
					c.Oblige(false, "bits", FnName(f), p.Pos(f.Pos()), "this predicate tests no flag of the status word")
				}
				continue
			}
			preds = append(preds, pred{f, mask})
		}
		want := ref.Bits[typeString(n)]
		m := map[string]string{}
		for i, a := range preds {
			m[a.f.Name()] = fmt.Sprintf("%#x", a.mask)
			good := true
			for j, b := range preds {
				if i != j && a.mask == b.mask && !aliasOf(a.f, b.f) && !aliasOf(b.f, a.f) {
					good = false
					c.Oblige(false, "bits", FnName(a.f), p.Pos(a.f.Pos()), fmt.Sprintf("tests the same flag (%#x) as %s", a.mask, FnName(b.f)))
					break
				}
			}
			if w, ok := want[a.f.Name()]; good && ok && w != fmt.Sprintf("%#x", a.mask) {
				good = false
				c.Oblige(false, "bits", FnName(a.f), p.Pos(a.f.Pos()), fmt.Sprintf("tests %#x; the flag of this name is %s", a.mask, w))
			}
			if good {
				c.Oblige(true, "bits", FnName(a.f), p.Pos(a.f.Pos()), "")
			}
		}
		if len(m) > 0 {
			out.Bits[typeString(n)] = m
		}
	}
}

// aliasOf: one predicate merely calls the other, or is documented as deprecated in favour of it.
func aliasOf(a, b *ssa.Function) bool {
	for _, bl := range a.Blocks {
		for _, in := range bl.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == b {
				return true
			}
		}
	}
	return false
}

// consts: named codes.
func (c *Check) consts(out *reference) {
	p := c.P
	want := map[string]bool{"CIPService": true, "CIPStatus": true, "CIPType": true, "CIPClass": true, "CIPCommand": true, "CIPItemID": true, "FaultType": true, "EIPCommand": true}
	for _, pk := range []*ssa.Package{p.Root, p.Canned} {
		if pk == nil {
			continue
		}
		var names []string
		for name := range pk.Members {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			k, ok := pk.Members[name].(*ssa.NamedConst)
			if !ok || name == "_" {
				continue
			}
			n, ok := k.Type().(*types.Named)
			if !ok || !want[n.Obj().Name()] && !strings.HasSuffix(n.Obj().Name(), "ItemID") || k.Value.Value == nil || k.Value.Value.Kind() != constant.Int {
				continue
			}
			tn := n.Obj().Name()
			if out.Consts[tn] == nil {
				out.Consts[tn] = map[string]int64{}
			}
			v := k.Value.Int64()
			out.Consts[tn][name] = v
			if w, ok := ref.Consts[tn][name]; ok {
				c.Oblige(v == w, "const", name, p.Pos(k.Pos()), fmt.Sprintf("%s is %#x; its published value is %#x", name, v, w))
			}
		}
	}
}
