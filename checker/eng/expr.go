package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type env struct {
	args map[*ssa.Parameter]ssa.Value
	up   *env
}

// Expr renders a canonical form of a value: module helpers with one return are
// inlined, locals are resolved, parameters of the outermost function are named by type.
func (w *World) Expr(v ssa.Value) string { return w.expr(v, nil, 0, map[ssa.Value]bool{}) }

func (w *World) expr(v ssa.Value, e *env, d int, seen map[ssa.Value]bool) string {
	if v == nil {
		return "nil"
	}
	if d > 40 || seen[v] {
		return "…"
	}
	seen[v] = true
	defer delete(seen, v)
	rec := func(x ssa.Value) string { return w.expr(x, e, d+1, seen) }
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return "nil"
		}
		if v.Value.Kind() == constant.String {
			return fmt.Sprintf("%q", constant.StringVal(v.Value))
		}
		return v.Value.String()
	case *ssa.Parameter:
		for s := e; s != nil; s = s.up {
			if a, ok := s.args[v]; ok {
				return w.expr(a, s.up, d+1, seen)
			}
		}
		return "<" + TypeKey(Deref(v.Type())) + ">"
	case *ssa.FreeVar:
		for _, mc := range w.closure[v.Parent()] {
			for i, fv := range v.Parent().FreeVars {
				if fv == v && i < len(mc.Bindings) {
					return w.expr(mc.Bindings[i], nil, d+1, seen)
				}
			}
		}
		return "<free " + v.Name() + ">"
	case *ssa.Alloc:
		// A spilled parameter or a single-assignment local.
		var only ssa.Value
		n := 0
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				only = s.Val
				n++
			}
		}
		if n == 1 {
			return rec(only)
		}
		return "<" + TypeKey(Deref(v.Type())) + ">"
	case *ssa.FieldAddr:
		if f := FieldVar(v); f != nil {
			return rec(v.X) + "." + f.Name()
		}
	case *ssa.Field:
		if f := FieldVar(v); f != nil {
			return rec(v.X) + "." + f.Name()
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if s := LastStore(v); s != nil {
				return rec(s.Val)
			}
			return rec(v.X)
		}
		return v.Op.String() + rec(v.X)
	case *ssa.BinOp:
		return "(" + rec(v.X) + v.Op.String() + rec(v.Y) + ")"
	case *ssa.ChangeType:
		return rec(v.X)
	case *ssa.Convert:
		return rec(v.X)
	case *ssa.MakeInterface:
		return rec(v.X)
	case *ssa.ChangeInterface:
		return rec(v.X)
	case *ssa.Phi:
		var es []string
		for _, x := range v.Edges {
			es = append(es, rec(x))
		}
		sort.Strings(es)
		return "phi{" + strings.Join(es, "|") + "}"
	case *ssa.Extract:
		return rec(v.Tuple) + fmt.Sprintf("#%d", v.Index)
	case *ssa.Global:
		return trimMod(v.String())
	case *ssa.Function:
		return FKey(v)
	case *ssa.MakeClosure:
		return "closure"
	case *ssa.Slice:
		return rec(v.X)
	case *ssa.Lookup:
		return rec(v.X) + "[" + rec(v.Index) + "]"
	case *ssa.IndexAddr:
		return rec(v.X) + "[" + rec(v.Index) + "]"
	case *ssa.TypeAssert:
		return rec(v.X)
	case *ssa.Call:
		cs := w.callees[v]
		if len(cs) == 1 {
			rs := Returns(cs[0])
			if len(rs) == 1 && len(cs[0].Blocks) == 1 && len(rs[0].Results) == 1 {
				ne := &env{args: map[*ssa.Parameter]ssa.Value{}, up: e}
				for i, p := range cs[0].Params {
					if a := ArgOf(v, i); a != nil {
						ne.args[p] = a
					}
				}
				return w.expr(rs[0].Results[0], ne, d+1, seen)
			}
		}
		var as []string
		if v.Call.IsInvoke() {
			as = append(as, rec(v.Call.Value))
		}
		for _, a := range v.Call.Args {
			as = append(as, rec(a))
		}
		name := MKey(v)
		if name == "" {
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				name = b.Name()
			} else {
				name = "dyn"
			}
		}
		return name + "(" + strings.Join(as, ",") + ")"
	}
	return "<" + types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() }) + ">"
}
