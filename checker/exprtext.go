package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exprText renders a value much as the source wrote it, without positions or register numbers.
func exprText(v ssa.Value) string { return exprT(v, 0) }

func exprT(v ssa.Value, d int) string {
	if v == nil {
		return ""
	}
	if d > 7 {
		return "…"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() || x.Value == nil {
			return "nil"
		}
		return x.Value.String()
	case *ssa.Global:
		return x.Name()
	case *ssa.Function:
		return x.Name()
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Alloc:
		if x.Comment != "" {
			return strings.TrimPrefix(x.Comment, "new ")
		}
		return "local"
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return exprT(x.X, d+1)
		default:
			return x.Op.String() + exprT(x.X, d+1)
		}
	case *ssa.FieldAddr:
		if _, f, ok := fieldOfT(x); ok {
			return exprT(x.X, d+1) + "." + f
		}
	case *ssa.Field:
		return exprT(x.X, d+1) + "." + structFieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return exprT(x.X, d+1) + "[" + exprT(x.Index, d+1) + "]"
	case *ssa.Index:
		return exprT(x.X, d+1) + "[" + exprT(x.Index, d+1) + "]"
	case *ssa.Lookup:
		return exprT(x.X, d+1) + "[" + exprT(x.Index, d+1) + "]"
	case *ssa.Slice:
		return exprT(x.X, d+1) + "[" + exprT(x.Low, d+1) + ":" + exprT(x.High, d+1) + "]"
	case *ssa.BinOp:
		return exprT(x.X, d+1) + x.Op.String() + exprT(x.Y, d+1)
	case *ssa.Convert:
		return typeString(x.Type()) + "(" + exprT(x.X, d+1) + ")"
	case *ssa.ChangeType:
		return exprT(x.X, d+1)
	case *ssa.MakeInterface:
		return exprT(x.X, d+1)
	case *ssa.ChangeInterface:
		return exprT(x.X, d+1)
	case *ssa.TypeAssert:
		return exprT(x.X, d+1) + ".(" + typeString(x.AssertedType) + ")"
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return "range(" + exprT(r.X, d+1) + ")"
			}
		}
		return exprT(x.Tuple, d+1)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			var a []string
			for _, y := range x.Call.Args {
				a = append(a, exprT(y, d+1))
			}
			return bi.Name() + "(" + strings.Join(a, ",") + ")"
		}
		return shortCallee(x.Common()) + "()"
	case *ssa.MakeSlice:
		return "make(" + exprT(x.Len, d+1) + ")"
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
		return "phi"
	}
	return "value"
}

func structFieldName(t types.Type, i int) string {
	if s, ok := deref(t).Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return "?"
}
