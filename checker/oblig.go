package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An oblig is an instruction that panics unless some condition holds.
type oblig struct {
	kind string // index, slice, div, make, assert, call, panic, nil-map, reflect
	ins  ssa.Instruction
	text string
}

// obligations lists what may panic in f, apart from nil dereferences (decided by their own rule).
func (b *bounds) obligations(f *ssa.Function) []oblig {
	var out []oblig
	add := func(k string, i ssa.Instruction, t string) { out = append(out, oblig{k, i, t}) }
	for _, blk := range f.Blocks {
		for _, i := range blk.Instrs {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
					if c, ok := x.Index.(*ssa.Const); ok && c.Int64() >= 0 && c.Int64() < a.Len() {
						continue
					}
				}
				add("index", i, b.text(x.X)+"["+b.text(x.Index)+"]")
			case *ssa.Index:
				if a, ok := x.X.Type().Underlying().(*types.Array); ok {
					if c, ok := x.Index.(*ssa.Const); ok && c.Int64() >= 0 && c.Int64() < a.Len() {
						continue
					}
				}
				add("index", i, b.text(x.X)+"["+b.text(x.Index)+"]")
			case *ssa.Lookup:
				if isString(x.X.Type()) {
					add("index", i, b.text(x.X)+"["+b.text(x.Index)+"]")
				}
			case *ssa.Slice:
				if x.Low == nil && x.High == nil && x.Max == nil {
					continue
				}
				lo, hi := "", ""
				if x.Low != nil {
					lo = b.text(x.Low)
				}
				if x.High != nil {
					hi = b.text(x.High)
				}
				add("slice", i, b.text(x.X)+"["+lo+":"+hi+"]")
			case *ssa.SliceToArrayPointer:
				add("toarray", i, b.text(x.X))
			case *ssa.BinOp:
				if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.X.Type()) {
					if c, ok := x.Y.(*ssa.Const); ok && constant.Sign(c.Value) != 0 {
						continue
					}
					add("div", i, b.text(x.X)+x.Op.String()+b.text(x.Y))
				}
				if x.Op == token.SHL || x.Op == token.SHR {
					if bt, ok := x.Y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 {
						if c, ok := x.Y.(*ssa.Const); ok && constant.Sign(c.Value) >= 0 {
							continue
						}
						add("shift", i, b.text(x.X)+x.Op.String()+b.text(x.Y))
					}
				}
			case *ssa.MakeSlice:
				if c, ok := x.Len.(*ssa.Const); ok && c.Int64() >= 0 && x.Cap == x.Len {
					continue
				}
				add("make", i, "make("+typeString(x.Type())+", "+b.text(x.Len)+")")
			case *ssa.MakeChan:
				if c, ok := x.Size.(*ssa.Const); ok && c.Int64() >= 0 {
					continue
				}
				add("make", i, "make(chan, "+b.text(x.Size)+")")
			case *ssa.TypeAssert:
				if !x.CommaOk {
					add("assert", i, b.text(x.X)+".("+typeString(x.AssertedType)+")")
				}
			case *ssa.Panic:
				add("panic", i, "panic")
			case *ssa.MapUpdate:
				add("nilmap", i, b.text(x.Map)+"["+b.text(x.Key)+"]=")
			case ssa.CallInstruction:
				c := x.Common()
				n := calleeName(c)
				switch {
				case strings.HasPrefix(n, "(encoding/binary.") && (strings.Contains(n, "ndian).Uint") || strings.Contains(n, "ndian).PutUint")):
					add("binary", i, shortCallee(c)+"("+b.text(c.Args[len(c.Args)-1-boolInt(strings.Contains(n, "Put"))])+")")
				case n == "time.NewTicker" || n == "time.Tick":
					add("ticker", i, shortCallee(c)+"("+b.text(c.Args[0])+")")
				case n == "strings.Repeat" || n == "bytes.Repeat":
					add("repeat", i, shortCallee(c)+"("+b.text(c.Args[1])+")")
				case n == "(*bytes.Buffer).Next" || n == "(*bytes.Buffer).Grow" || n == "(*bytes.Buffer).Truncate":
					add("bufneg", i, shortCallee(c)+"("+b.text(c.Args[1])+")")
				case strings.HasPrefix(n, "(reflect.") || strings.HasPrefix(n, "reflect.") || strings.HasPrefix(n, "invoke:reflect."):
					add("reflect", i, n+"("+textArgs(b, c)+")")
					if n == "(reflect.Value).Set" || n == "(reflect.Value).Convert" {
						add("set", i, n+"("+textArgs(b, c)+")")
					}
				}
			}
		}
	}
	return out
}

func textArgs(b *bounds, c *ssa.CallCommon) string {
	var s []string
	for _, a := range c.Args {
		s = append(s, b.text(a))
	}
	return strings.Join(s, ",")
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
