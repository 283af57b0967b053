package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

// callsKey lists the calls in fs whose (module-relative) key is one of keys.
func (c *Ctx) callsKey(fs []*ssa.Function, keys ...string) []ssa.CallInstruction {
	return c.W.CallsTo(fs, keys...)
}

func keyIs(ci ssa.CallInstruction, keys ...string) bool {
	k := eng.MKey(ci)
	for _, x := range keys {
		if k == x {
			return true
		}
	}
	return false
}

// keyEvent is a CallEvent on callee keys.
func (c *Ctx) keyEvent(keys ...string) eng.Event {
	return c.W.CallEvent(func(ci ssa.CallInstruction) bool { return keyIs(ci, keys...) })
}

// instrs iterates over all instructions of fs.
func instrs(fs []*ssa.Function, f func(fn *ssa.Function, in ssa.Instruction)) {
	for _, fn := range fs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(fn, in)
			}
		}
	}
}

// fieldLoads lists the loads of a field in fs.
func fieldLoads(fs []*ssa.Function, fv *types.Var) []ssa.Instruction {
	var res []ssa.Instruction
	instrs(fs, func(_ *ssa.Function, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok && eng.FieldVar(fa) == fv {
					res = append(res, in)
				}
			}
		case *ssa.Field:
			if eng.FieldVar(x) == fv {
				res = append(res, in)
			}
		}
	})
	return res
}

// fieldStores lists the stores to a field in fs.
func fieldStores(fs []*ssa.Function, fv *types.Var) []*ssa.Store {
	var res []*ssa.Store
	instrs(fs, func(_ *ssa.Function, in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && eng.FieldVar(fa) == fv {
				res = append(res, s)
			}
		}
	})
	return res
}

// derives tells whether v has an origin satisfying pred.
func (c *Ctx) derives(v ssa.Value, pred func(ssa.Value) bool) bool {
	hit := false
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		if hit {
			return eng.Stop
		}
		if pred(o) {
			hit = true
			return eng.Stop
		}
		return eng.Follow
	})
	return hit
}

// derivesField: v derives from the given field.
func (c *Ctx) derivesField(v ssa.Value, fv *types.Var) bool {
	return c.derives(v, func(o ssa.Value) bool { return isField(o, fv) })
}

func isField(o ssa.Value, fv *types.Var) bool {
	switch o.(type) {
	case *ssa.FieldAddr, *ssa.Field:
		return eng.FieldVar(o) == fv
	}
	return false
}

// derivesCall: v derives from (the result of) a call to one of keys.
func (c *Ctx) derivesCall(v ssa.Value, keys ...string) bool {
	return c.derives(v, func(o ssa.Value) bool {
		ci, ok := o.(*ssa.Call)
		if !ok {
			if ex, isEx := o.(*ssa.Extract); isEx {
				ci, ok = ex.Tuple.(*ssa.Call)
			}
		}
		return ok && keyIs(ci, keys...)
	})
}

// derivesConst: v derives from the given string constant (or one containing it).
func (c *Ctx) derivesConst(v ssa.Value, match func(string) bool) bool {
	return c.derives(v, func(o ssa.Value) bool {
		s, ok := eng.ConstString(o)
		return ok && match(s)
	})
}

// isFieldVal: v is directly (through conversions and locals) a load of field fv.
func isFieldVal(v ssa.Value, fv *types.Var) bool {
	v = eng.ResolveLocal(eng.Unwrap(v))
	v = eng.Unwrap(v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return eng.FieldVar(fa) == fv
			}
		}
	case *ssa.Field:
		return eng.FieldVar(x) == fv
	}
	return false
}

// cmpLit: a literal comparing a and b (predicates, either order); returns +1 when equal, -1 when different, 0 otherwise.
func cmpLit(l eng.Lit, a, b func(ssa.Value) bool) int {
	bo, ok := l.V.(*ssa.BinOp)
	if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
		return 0
	}
	if !(a(bo.X) && b(bo.Y)) && !(a(bo.Y) && b(bo.X)) {
		return 0
	}
	if (bo.Op == token.EQL) == l.Pol {
		return 1
	}
	return -1
}

func isNil(v ssa.Value) bool { return eng.IsNilConst(v) }

func isStr(s string) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		x, ok := eng.ConstString(v)
		return ok && x == s
	}
}

// lenCmp interprets a literal about len(x) (x satisfying pred): returns "empty", "nonempty" or "".
func lenCmp(l eng.Lit, pred func(ssa.Value) bool) string {
	return countCmp(l, func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && pred(call.Call.Args[0])
	})
}

// countCmp interprets a literal about a count: returns "empty", "nonempty" or "".
func countCmp(l eng.Lit, lenOf func(ssa.Value) bool) string {
	bo, ok := l.V.(*ssa.BinOp)
	if !ok {
		return ""
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if lenOf(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !lenOf(x) {
		return ""
	}
	n, ok := eng.ConstInt(y)
	if !ok {
		return ""
	}
	nonempty := ""
	switch {
	case op == token.EQL && n == 0, op == token.LSS && n == 1, op == token.LEQ && n == 0:
		nonempty = "f"
	case op == token.NEQ && n == 0, op == token.GTR && n == 0, op == token.GEQ && n == 1:
		nonempty = "t"
	}
	if nonempty == "" {
		// exact or lower bounds that imply non-emptiness when true
		if (op == token.EQL && n > 0 || op == token.GTR && n > 0 || op == token.GEQ && n > 0) && l.Pol {
			return "nonempty"
		}
		return ""
	}
	if (nonempty == "t") == l.Pol {
		return "nonempty"
	}
	return "empty"
}

// emptyLit interprets a literal about the emptiness of a string/slice value satisfying pred
// (x == "", len(x) == 0, x == nil, and negations).
func emptyLit(l eng.Lit, pred func(ssa.Value) bool) string {
	if r := lenCmp(l, pred); r != "" {
		return r
	}
	switch cmpLit(l, pred, isStr("")) {
	case 1:
		return "empty"
	case -1:
		return "nonempty"
	}
	switch cmpLit(l, pred, isNil) {
	case 1:
		return "empty"
	case -1:
		return "nonempty"
	}
	return ""
}

// nilLit: "nil"/"nonnil" for values satisfying pred.
func nilLit(l eng.Lit, pred func(ssa.Value) bool) string {
	switch cmpLit(l, pred, isNil) {
	case 1:
		return "nil"
	case -1:
		return "nonnil"
	}
	return ""
}

// errOf returns the error result value of a call (nil if none/unused).
func errOf(ci ssa.CallInstruction) ssa.Value {
	call, ok := ci.(*ssa.Call)
	if !ok {
		return nil
	}
	i := eng.ErrIndex(call.Call.Signature())
	if i < 0 {
		return nil
	}
	return eng.ResultAt(call, i)
}

// succeeded returns a literal predicate: the call's error is nil.
func (c *Ctx) succeeded(ci ssa.CallInstruction) func(eng.Lit) bool {
	failed := c.W.ErrFailed(ci)
	return func(l eng.Lit) bool { return failed(eng.Lit{V: l.V, Pol: !l.Pol}) }
}

// afterSuccess: in is only reached once a call which is one of targets has succeeded, by itself or
// within a function which only succeeds if it has.
func (c *Ctx) afterSuccess(in ssa.Instruction, target func(*ssa.Call) bool) bool {
	return c.W.MustHold(in, func(l eng.Lit) bool {
		return nilLit(l, func(v ssa.Value) bool { return c.errorOfAll(v, target, 0) }) == "nil"
	})
}

// errorOfAll: v is the error of a call which is one of targets, or whose function only succeeds if such a call has.
func (c *Ctx) errorOfAll(v ssa.Value, target func(*ssa.Call) bool, d int) bool {
	v = eng.ResolveLocal(v)
	if phi, ok := v.(*ssa.Phi); ok && d < 4 {
		for _, e := range phi.Edges {
			if !c.errorOfAll(e, target, d+1) {
				return false
			}
		}
		return len(phi.Edges) > 0
	}
	x := callOf(v)
	if x == nil || !eng.IsErrorType(v.Type()) {
		return false
	}
	if target(x) {
		return true
	}
	g := x.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || g.Pkg == nil || !c.W.InModule(g.Pkg.Pkg) || d > 4 {
		return false
	}
	for _, rt := range eng.Returns(g) {
		if !c.succeeding(rt) {
			continue
		}
		if e := eng.RetErr(rt); e != nil && c.errorOfAll(e, target, d+1) {
			continue
		}
		// only conditions within g count
		held := false
		for _, l := range eng.DomLits(rt.Block()) {
			held = held || nilLit(l, func(v ssa.Value) bool { return c.errorOfAll(v, target, d+1) }) == "nil"
		}
		if !held {
			return false
		}
	}
	return true
}

func callOf(v ssa.Value) *ssa.Call {
	switch x := v.(type) {
	case *ssa.Call:
		return x
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c
		}
	}
	return nil
}

func strip(s string) string { return strings.TrimPrefix(s, eng.ModPath+"/") }

// structFields lists the fields of a named struct type.
func structFields(n *types.Named) []*types.Var {
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var res []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		res = append(res, st.Field(i))
	}
	return res
}

// method finds a declared method of a named type (pointer or value receiver).
func (c *Ctx) method(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return c.W.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

type fieldVar = types.Var

func replaceAll(s, a, b string) string { return strings.ReplaceAll(s, a, b) }

func mapKeyType(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Key()
	}
	return types.Typ[types.Invalid]
}

// sameOrParam: v is x, or a parameter/free variable always bound to x.
func (c *Ctx) sameOrParam(v, x ssa.Value) bool {
	if v == x {
		return true
	}
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.UnOp, *ssa.Phi:
	default:
		return false
	}
	n, ok := 0, true
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		switch o.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.UnOp, *ssa.Alloc, *ssa.Phi:
			return eng.Follow
		}
		n++
		if o != x {
			ok = false
		}
		return eng.Stop
	})
	return ok && n > 0
}

// derivesExternalCall: v derives from the result of a call to an external function with one of the given full keys.
func (c *Ctx) derivesExternalCall(v ssa.Value, keys ...string) bool {
	return c.derives(v, func(o ssa.Value) bool {
		ci := callOf(o)
		return ci != nil && has(keys, eng.Key(ci))
	})
}

// pairedCancel: fn value v and the channel stored by dones come from the same context.With* call,
// or v closes the very channel stored.
func (c *Ctx) pairedCancel(v ssa.Value, dones []*ssa.Store) bool {
	var src *ssa.Call
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		if e, ok := o.(*ssa.Extract); ok && e.Index == 1 {
			if call, ok := e.Tuple.(*ssa.Call); ok && strings.HasPrefix(eng.Key(call), "context.With") {
				src = call
				return eng.Stop
			}
		}
		return eng.Follow
	})
	for _, d := range dones {
		if src != nil {
			if c.derives(d.Val, func(o ssa.Value) bool {
				e, ok := o.(*ssa.Extract)
				return ok && e.Tuple == src && e.Index == 0
			}) {
				return true
			}
			continue
		}
		// closure closing the channel
		ok := false
		c.W.Origins(v, func(o ssa.Value) eng.Step {
			mc, isMC := o.(*ssa.MakeClosure)
			if !isMC {
				return eng.Follow
			}
			fn, _ := mc.Fn.(*ssa.Function)
			for _, f := range eng.WithAnon(fn) {
				for _, ci := range eng.Calls(f) {
					if b, isB := ci.Common().Value.(*ssa.Builtin); isB && b.Name() == "close" {
						ch := ci.Common().Args[0]
						c.W.Origins(ch, func(x ssa.Value) eng.Step {
							if _, isM := x.(*ssa.MakeChan); isM {
								if c.derives(d.Val, func(y ssa.Value) bool { return y == x }) {
									ok = true
								}
							}
							return eng.Follow
						})
					}
				}
			}
			return eng.Stop
		})
		if ok {
			return true
		}
	}
	return false
}

// checkErrHandled records whether a call's error is propagated on every failure path.
func (c *Ctx) checkErrHandled(r *R, ci ssa.CallInstruction) bool {
	name := short(ci.Parent()) + " -> " + eng.MKey(ci)
	switch f, exit := c.W.Fate(ci); f {
	case eng.ErrDropped:
		return r.Check(false, name, c.W.At(ci), "the error of %s is discarded", eng.MKey(ci))
	case eng.ErrSwallowed:
		return r.Check(false, name, c.W.At(ci), "when %s fails, %s can still report success (exit at %s)", eng.MKey(ci), short(ci.Parent()), c.W.At(exit))
	}
	r.OK(name, c.W.At(ci))
	return true
}

func constInt(k *types.Const) (int64, bool) {
	return constant.Int64Val(constant.ToInt(k.Val()))
}

func structTag(tag, key string) string { return reflect.StructTag(tag).Get(key) }

// storeTo is the event "the field is assigned a value accepted by val" (nil = any).
func storeTo(fv *types.Var, val func(ssa.Value) bool) eng.Event {
	return func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && eng.FieldVar(fa) == fv && (val == nil || val(s.Val))
	}
}

// callTo is the event "a function with one of these (module-relative) keys is called".
func callTo(keys ...string) eng.Event {
	return func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		return keyIs(ci, keys...)
	}
}

// isCall is callTo for call instructions.
func isCall(in ssa.Instruction, keys ...string) ssa.CallInstruction {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || !keyIs(ci, keys...) {
		return nil
	}
	return ci
}

// not negates a literal predicate: the literal says the opposite of what pred accepts.
func (c *Ctx) contradicts(pred func(eng.Lit) bool) func(eng.Lit) bool {
	return func(l eng.Lit) bool {
		return c.W.Implies(l, func(l eng.Lit) bool { return pred(eng.Lit{V: l.V, Pol: !l.Pol}) })
	}
}

// anyLit: some predicate accepts.
func anyLit(ps ...func(eng.Lit) bool) func(eng.Lit) bool {
	return func(l eng.Lit) bool {
		for _, p := range ps {
			if p != nil && p(l) {
				return true
			}
		}
		return false
	}
}

// mustDo records that fn performs the event on every path not pruned by skip.
func (c *Ctx) mustDo(r *R, name string, fn *ssa.Function, ev eng.Event, exit func(*ssa.Return) bool, skip func(eng.Lit) bool, format string, args ...any) bool {
	leak := c.W.MustDo(fn, ev, exit, skip)
	pos := c.W.Pos(fn.Pos())
	if leak != nil && leak.Exit != nil {
		pos = c.W.At(leak.Exit)
	}
	return r.Check(leak == nil, name, pos, format, args...)
}

// succeeding accepts returns which may report success.
func (c *Ctx) succeeding(r *ssa.Return) bool { return c.W.MaySucceed(r) }

// anyErrFailed accepts literals saying that the error of some call in fs is non-nil.
func errNonNil(l eng.Lit) bool {
	return nilLit(l, func(v ssa.Value) bool { return eng.IsErrorType(v.Type()) && !isNil(v) }) == "nonnil"
}

func constStr(k *types.Const) (string, bool) {
	if k.Val().Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Val()), true
}
