package eng

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Step tells Origins whether to look through a value.
type Step int

const (
	// Stop treats the value as a root (the visitor has dealt with it).
	Stop Step = iota
	// Follow looks through the value towards where it comes from.
	Follow
)

type frame struct {
	call ssa.CallInstruction
	up   *frame
	n    int
	to   *ssa.Function
}

type ostate struct {
	v    ssa.Value
	call ssa.CallInstruction
}

// Origins walks backwards from v through assignments, phis, conversions,
// module-local calls (context-sensitively), struct fields (field-based),
// captured variables and containers. visit is invoked once per reached value.
// External calls and operators are looked through (to their operands) when the
// visitor returns Follow.
func (w *World) Origins(v ssa.Value, visit func(ssa.Value) Step) {
	w.origins(v, nil, map[ostate]bool{}, visit)
}

func (w *World) origins(v ssa.Value, fr *frame, seen map[ostate]bool, visit func(ssa.Value) Step) {
	if v == nil {
		return
	}
	st := ostate{v, nil}
	if fr != nil {
		st.call = fr.call
	}
	if seen[st] {
		return
	}
	seen[st] = true
	if visit(v) == Stop {
		return
	}
	rec := func(x ssa.Value) { w.origins(x, fr, seen, visit) }
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			rec(e)
		}
	case *ssa.ChangeType:
		rec(v.X)
	case *ssa.Convert:
		rec(v.X)
	case *ssa.MultiConvert:
		rec(v.X)
	case *ssa.ChangeInterface:
		rec(v.X)
	case *ssa.MakeInterface:
		rec(v.X)
	case *ssa.TypeAssert:
		rec(v.X)
	case *ssa.Slice:
		rec(v.X)
	case *ssa.SliceToArrayPointer:
		rec(v.X)
	case *ssa.BinOp:
		rec(v.X)
		rec(v.Y)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			w.load(v.X, fr, seen, visit)
		} else {
			rec(v.X)
		}
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			w.callResult(t, v.Index, fr, seen, visit)
		case *ssa.TypeAssert:
			rec(t.X)
		case *ssa.Lookup:
			rec(t.X)
		case *ssa.UnOp:
			rec(t.X)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				rec(r.X)
			}
		case *ssa.Select:
			for _, s := range t.States {
				rec(s.Chan)
			}
		}
	case *ssa.Call:
		w.callResult(v, 0, fr, seen, visit)
	case *ssa.FieldAddr:
		w.load(v, fr, seen, visit)
	case *ssa.Field:
		w.fieldStores(v, v.X, fr, seen, visit)
	case *ssa.IndexAddr:
		rec(v.X)
	case *ssa.Index:
		rec(v.X)
	case *ssa.Lookup:
		rec(v.X)
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		w.contents(v, fr, seen, visit)
	case *ssa.Global:
		for _, s := range w.gstores[v] {
			w.origins(s, nil, seen, visit)
		}
	case *ssa.FreeVar:
		fn := v.Parent()
		idx := -1
		for i, fv := range fn.FreeVars {
			if fv == v {
				idx = i
			}
		}
		for _, mc := range w.closure[fn] {
			if idx >= 0 && idx < len(mc.Bindings) {
				w.origins(mc.Bindings[idx], nil, seen, visit)
			}
		}
	case *ssa.Parameter:
		fn := v.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == v {
				idx = i
			}
		}
		if fr != nil {
			for _, c := range w.callees[fr.call] {
				if c == fn {
					if a := ArgOf(fr.call, idx); a != nil {
						w.origins(a, fr.up, seen, visit)
						return
					}
				}
			}
		}
		for _, c := range w.callers[fn] {
			if a := ArgOf(c, idx); a != nil {
				w.origins(a, nil, seen, visit)
			}
		}
	case *ssa.MakeClosure:
		for _, b := range v.Bindings {
			rec(b)
		}
	}
}

// ArgOf returns the value bound to parameter idx of the callee at call c
// (receivers are parameter 0).
func ArgOf(c ssa.CallInstruction, idx int) ssa.Value {
	cm := c.Common()
	if cm.IsInvoke() {
		if idx == 0 {
			return cm.Value
		}
		idx--
	}
	if idx < 0 || idx >= len(cm.Args) {
		return nil
	}
	return cm.Args[idx]
}

func (w *World) callResult(c *ssa.Call, idx int, fr *frame, seen map[ostate]bool, visit func(ssa.Value) Step) {
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		for _, a := range c.Call.Args {
			w.origins(a, fr, seen, visit)
		}
		return
	}
	cs := w.callees[c]
	depth := 0
	if fr != nil {
		depth = fr.n
	}
	for _, fn := range cs {
		nf := &frame{call: c, up: fr, n: depth + 1}
		if depth > 6 {
			nf = nil
		}
		for _, r := range Returns(fn) {
			if idx < len(r.Results) {
				w.origins(r.Results[idx], nf, seen, visit)
			}
		}
	}
	if len(cs) == 0 {
		// External: offer the call itself (if reached through an Extract), then its operands.
		st := ostate{c, nil}
		if fr != nil {
			st.call = fr.call
		}
		if !seen[st] {
			seen[st] = true
			if visit(c) == Stop {
				return
			}
		}
		if c.Call.IsInvoke() {
			w.origins(c.Call.Value, fr, seen, visit)
		}
		for _, a := range c.Call.Args {
			w.origins(a, fr, seen, visit)
		}
	}
}

func (w *World) load(addr ssa.Value, fr *frame, seen map[ostate]bool, visit func(ssa.Value) Step) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		st := ostate{a, nil}
		if fr != nil {
			st.call = fr.call
		}
		if !seen[st] {
			seen[st] = true
			if visit(a) == Stop {
				return
			}
		}
		w.fieldStores(a, a.X, fr, seen, visit)
	default:
		w.origins(addr, fr, seen, visit)
	}
}

func (w *World) fieldStores(sel ssa.Value, base ssa.Value, fr *frame, seen map[ostate]bool, visit func(ssa.Value) Step) {
	fv := FieldVar(sel)
	if fv == nil {
		return
	}
	// A local struct: only the stores made to that very allocation.
	if al, ok := base.(*ssa.Alloc); ok {
		n := 0
		for _, r := range *al.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || FieldVar(fa) != fv {
				continue
			}
			for _, rr := range *fa.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == fa {
					n++
					w.origins(s.Val, fr, seen, visit)
				}
			}
		}
		// copies of whole structs: the same field of the source
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == al {
				n++
				w.project(s.Val, sel, fv, fr, seen, visit)
			}
		}
		if n > 0 {
			return
		}
	}
	ss := w.stores[fv]
	for _, s := range ss {
		w.origins(s.Val, nil, seen, visit)
	}
	w.origins(base, fr, seen, visit)
}

// project walks the origins of field fv of the struct value x.
func (w *World) project(x ssa.Value, sel ssa.Value, fv *types.Var, fr *frame, seen map[ostate]bool, visit func(ssa.Value) Step) {
	type pk struct {
		v    ssa.Value
		call ssa.CallInstruction
	}
	_ = sel
	done := map[pk]bool{}
	var walk func(x ssa.Value, fr *frame, d int)
	all := func(x ssa.Value, fr *frame) {
		for _, s := range w.stores[fv] {
			w.origins(s.Val, nil, seen, visit)
		}
		w.origins(x, fr, seen, visit)
	}
	walk = func(x ssa.Value, fr *frame, d int) {
		k := pk{v: x}
		if fr != nil {
			k.call = fr.call
		}
		if done[k] {
			return
		}
		done[k] = true
		if !seen[ostate{x, k.call}] {
			seen[ostate{x, k.call}] = true
			if visit(x) == Stop {
				return
			}
			delete(seen, ostate{x, k.call})
		}
		if d > 20 {
			all(x, fr)
			return
		}
		switch v := x.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, e := range v.Edges {
				walk(e, fr, d+1)
			}
		case *ssa.UnOp:
			if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				for _, r := range *al.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == al {
							walk(r.Val, fr, d+1)
						}
					case *ssa.FieldAddr:
						if FieldVar(r) != fv {
							continue
						}
						for _, rr := range *r.Referrers() {
							if s, ok := rr.(*ssa.Store); ok && s.Addr == r {
								w.origins(s.Val, fr, seen, visit)
							}
						}
					}
				}
				return
			}
			all(x, fr)
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok && len(w.callees[c]) > 0 {
				for _, g := range w.callees[c] {
					for _, r := range Returns(g) {
						if v.Index < len(r.Results) {
							walk(r.Results[v.Index], &frame{call: c, up: fr}, d+1)
						}
					}
				}
				return
			}
			all(x, fr)
		case *ssa.Call:
			if len(w.callees[v]) > 0 {
				for _, g := range w.callees[v] {
					for _, r := range Returns(g) {
						if len(r.Results) > 0 {
							walk(r.Results[0], &frame{call: v, up: fr}, d+1)
						}
					}
				}
				return
			}
			all(x, fr)
		case *ssa.Parameter:
			fn := v.Parent()
			idx := -1
			for i, p := range fn.Params {
				if p == v {
					idx = i
				}
			}
			if fr != nil {
				for _, c := range w.callees[fr.call] {
					if c == fn {
						if a := ArgOf(fr.call, idx); a != nil {
							walk(a, fr.up, d+1)
							return
						}
					}
				}
			}
			n := 0
			for _, c := range w.callers[fn] {
				if a := ArgOf(c, idx); a != nil {
					n++
					walk(a, nil, d+1)
				}
			}
			if n == 0 {
				all(x, fr)
			}
		default:
			all(x, fr)
		}
	}
	walk(x, fr, 0)
}

func (w *World) contents(v ssa.Value, fr *frame, seen map[ostate]bool, visit func(ssa.Value) Step) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				w.origins(r.Val, fr, seen, visit)
			}
		case *ssa.MapUpdate:
			if r.Map == v {
				w.origins(r.Key, fr, seen, visit)
				w.origins(r.Value, fr, seen, visit)
			}
		case *ssa.IndexAddr:
			if r.X == v {
				for _, rr := range *r.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == r {
						w.origins(s.Val, fr, seen, visit)
					}
				}
			}
		case *ssa.FieldAddr:
			for _, rr := range *r.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == r {
					w.origins(s.Val, fr, seen, visit)
				}
			}
		case *ssa.Call:
			// A local passed by reference to an external call: its content derives from the call's other operands.
			if len(w.callees[r]) == 0 {
				for _, a := range r.Call.Args {
					if a != v {
						w.origins(a, fr, seen, visit)
					}
				}
			}
		}
	}
}

// Returns lists the return instructions of a function.
func Returns(f *ssa.Function) []*ssa.Return {
	var res []*ssa.Return
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 || b == f.Recover {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			res = append(res, r)
		}
	}
	return res
}

// Unwrap strips conversions that do not change identity.
func Unwrap(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

// ConstString returns the constant string value.
func ConstString(v ssa.Value) (string, bool) {
	c, ok := Unwrap(v).(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

// ConstInt returns the constant integer value.
func ConstInt(v ssa.Value) (int64, bool) {
	c, ok := Unwrap(v).(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// ConstBool returns the constant boolean value.
func ConstBool(v ssa.Value) (val, ok bool) {
	c, isC := Unwrap(v).(*ssa.Const)
	if !isC || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

// IsNilConst tells whether v is the nil constant.
func IsNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// CalleeObj resolves the *types.Func a call denotes (static, method or interface method).
func CalleeObj(c ssa.CallInstruction) *types.Func {
	cm := c.Common()
	if cm.IsInvoke() {
		return cm.Method
	}
	if f := cm.StaticCallee(); f != nil {
		f = canon(f)
		if o, ok := f.Object().(*types.Func); ok {
			return o
		}
	}
	return nil
}

// FuncKey renders a function object as "pkgpath.Name" or "pkgpath.Type.Name".
func FuncKey(o *types.Func) string {
	if o == nil {
		return ""
	}
	o = o.Origin()
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	sig, _ := o.Type().(*types.Signature)
	if sig != nil && sig.Recv() != nil {
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		switch n := t.(type) {
		case *types.Named:
			return pkg + "." + n.Obj().Name() + "." + o.Name()
		case *types.Interface:
			return pkg + ".(interface)." + o.Name()
		}
	}
	return pkg + "." + o.Name()
}

// Key of a call: FuncKey of its callee.
func Key(c ssa.CallInstruction) string { return FuncKey(CalleeObj(c)) }

// MKey is FuncKey with the module prefix stripped: "internal/files.Copy".
func MKey(c ssa.CallInstruction) string { return trimMod(Key(c)) }

func trimMod(s string) string {
	if len(s) > len(ModPath) && s[:len(ModPath)] == ModPath {
		return s[len(ModPath)+1:]
	}
	return s
}

// FKey is the module-relative key of a function.
func FKey(f *ssa.Function) string {
	if o, ok := canon(f).Object().(*types.Func); ok {
		return trimMod(FuncKey(o))
	}
	return Name(f)
}

// Calls lists the call instructions (including go/defer) of a function in order.
func Calls(f *ssa.Function) []ssa.CallInstruction {
	var res []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				res = append(res, c)
			}
		}
	}
	return res
}

// CallsTo lists the calls matching the key set in the given functions.
func (w *World) CallsTo(fs []*ssa.Function, keys ...string) []ssa.CallInstruction {
	m := map[string]bool{}
	for _, k := range keys {
		m[k] = true
	}
	var res []ssa.CallInstruction
	for _, f := range fs {
		for _, c := range Calls(f) {
			if k := Key(c); k != "" && (m[k] || m[trimMod(k)]) {
				res = append(res, c)
			}
		}
	}
	return res
}

// IsErrorType tells whether t is the predeclared error type.
func IsErrorType(t types.Type) bool {
	e := types.Universe.Lookup("error").Type()
	if types.Identical(t, e) {
		return true
	}
	// richer interfaces, such as cli.ExitCoder
	it, ok := t.Underlying().(*types.Interface)
	return ok && types.Implements(it, e.Underlying().(*types.Interface))
}

// ErrIndex returns the index of the trailing error result, or -1.
func ErrIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 || !IsErrorType(sig.Results().At(n-1).Type()) {
		return -1
	}
	return n - 1
}

// ResultAt returns the SSA value of result idx of a call (nil when unused).
func ResultAt(c *ssa.Call, idx int) ssa.Value {
	if c.Call.Signature().Results().Len() == 1 {
		return c
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == idx {
			return e
		}
	}
	return nil
}
