package eng

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// lossless external functions: the result determines the (first) argument.
var lossless = map[string]bool{
	"strconv.Itoa": true, "strconv.FormatBool": true, "strconv.Quote": true, "strconv.FormatInt": true,
	"slices.Clone": true, "maps.Clone": true, "strings.Clone": true, "bytes.Clone": true,
}

// Carries tells whether v, on every path, losslessly contains a value accepted by target:
// through conversions that keep all information, composite values, helper calls and
// element-wise copies of whole collections.
func (w *World) Carries(v ssa.Value, target func(ssa.Value) bool) bool {
	return w.carries(v, target, 0, map[ssa.Value]bool{})
}

// CarriesVia is Carries with further external functions regarded as lossless in their first argument.
func (w *World) CarriesVia(v ssa.Value, extra map[string]bool, target func(ssa.Value) bool) bool {
	old := w.carryExtra
	w.carryExtra = extra
	defer func() { w.carryExtra = old }()
	return w.Carries(v, target)
}

// Via describes what else carries information whole.
type Via struct {
	// Call gives the value the result idx of a call carries (nil: look into the callee).
	Call func(c *ssa.Call, idx int) ssa.Value
	// Load gives the value a variable was filled from since it was last stored to.
	Load func(al *ssa.Alloc, last *ssa.Store) ssa.Value
	// Sel tells whether a selected field carries what its struct is asked for.
	Sel func(fv *types.Var) bool
	// Fixed tells whether a condition fixes what is looked for, so that it need not be carried
	// where it holds; is extends a predicate to the parameters standing for accepted values.
	Fixed func(l Lit, is func(func(ssa.Value) bool) func(ssa.Value) bool) bool
}

// inCall extends a predicate to the parameters of the calls being looked into.
func (w *World) inCall(pred func(ssa.Value) bool) func(ssa.Value) bool {
	calls := append([]*ssa.Call(nil), w.carryCalls...)
	return func(v ssa.Value) bool {
		for i := len(calls); ; i-- {
			if pred(v) {
				return true
			}
			if i == 0 {
				return false
			}
			p, ok := ResolveLocal(Unwrap(v)).(*ssa.Parameter)
			if !ok {
				return false
			}
			found := false
			for j, q := range p.Parent().Params {
				if q == p {
					v, found = ArgOf(calls[i-1], j), true
				}
			}
			if !found || v == nil {
				return false
			}
		}
	}
}

// fixedAt: on every path to the instruction (and, with succ, on to that block) the value looked for is fixed.
func (w *World) fixedAt(in ssa.Instruction, succ *ssa.BasicBlock) bool {
	if w.carryVia.Fixed == nil || in == nil {
		return false
	}
	fixed := w.carryVia.Fixed
	is := w.inCall
	if succ != nil {
		if l, ok := EdgeLit(in.Block(), succ); ok && fixed(l, is) {
			return true
		}
	}
	old := w.carryCalls
	return w.MustHold(in, func(l Lit) bool {
		w.carryCalls = old
		return fixed(l, is)
	})
}

// WithCall runs f in the context of a call.
func (w *World) WithCall(c *ssa.Call, f func()) {
	old := w.carryCalls
	w.carryCalls = append(append([]*ssa.Call(nil), old...), c)
	defer func() { w.carryCalls = old }()
	f()
}

// CarriesThrough is Carries with further steps.
func (w *World) CarriesThrough(v ssa.Value, via Via, target func(ssa.Value) bool) bool {
	old := w.carryVia
	w.carryVia = via
	defer func() { w.carryVia = old }()
	return w.Carries(v, target)
}

// sprintfArgs lists the arguments of a Sprintf-like call that appear whole in its result.
func sprintfArgs(c *ssa.Call) []ssa.Value {
	if Key(c) != "fmt.Sprintf" || len(c.Call.Args) != 2 {
		return nil
	}
	f, ok := ConstString(c.Call.Args[0])
	if !ok {
		return nil
	}
	el := VarArgs(c.Call.Args[1])
	var res []ssa.Value
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		plain := true
		for i < len(f) && !(f[i] >= 'a' && f[i] <= 'z' || f[i] >= 'A' && f[i] <= 'Z' || f[i] == '%') {
			if f[i] == '.' || f[i] == '[' || f[i] == '*' {
				plain = false
			}
			i++
		}
		if i < len(f) && f[i] == '%' {
			continue
		}
		if i < len(f) && plain && (f[i] == 's' || f[i] == 'v' || f[i] == 'q' || f[i] == 'd' || f[i] == 'x') && n < len(el) && el[n] != nil {
			res = append(res, el[n])
		}
		n++
	}
	return res
}

// VarArgs lists the elements of a variadic argument built at the call.
func VarArgs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := Deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	res := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ConstInt(ia.Index)
		if !ok || i >= at.Len() {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == ia {
				res[i] = s.Val
			}
		}
	}
	return res
}

func (w *World) carries(v ssa.Value, target func(ssa.Value) bool, d int, busy map[ssa.Value]bool) bool {
	if v == nil || d > 30 {
		return false
	}
	if target(v) {
		return true
	}
	if busy[v] {
		return false
	}
	busy[v] = true
	defer delete(busy, v)
	rec := func(x ssa.Value) bool { return w.carries(x, target, d+1, busy) }
	switch x := v.(type) {
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.TypeAssert:
		return rec(x.X)
	case *ssa.Convert:
		return losslessConv(x.X.Type(), x.Type()) && rec(x.X)
	case *ssa.MultiConvert:
		return rec(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		s := LastStore(x)
		if al, ok := x.X.(*ssa.Alloc); ok && w.carryVia.Load != nil {
			if from := w.carryVia.Load(al, s); from != nil {
				return rec(from)
			}
		}
		if s != nil {
			return rec(s.Val)
		}
		return rec(x.X)
	case *ssa.Field:
		if w.carryVia.Sel != nil && w.carryVia.Sel(FieldVar(x)) {
			return rec(x.X)
		}
		if st, ok := x.X.Type().Underlying().(*types.Struct); ok && st.NumFields() == 1 {
			return rec(x.X)
		}
		return false
	case *ssa.FieldAddr:
		if w.carryVia.Sel != nil && w.carryVia.Sel(FieldVar(x)) && rec(x.X) {
			return true
		}
		if st, ok := Deref(x.X.Type()).Underlying().(*types.Struct); ok && st.NumFields() == 1 && w.carryVia.Sel != nil && rec(x.X) {
			return true
		}
		// a field of a local struct
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				switch r := r.(type) {
				case *ssa.FieldAddr:
					if r.Field != x.Field {
						continue
					}
					for _, rr := range *r.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == r {
							n++
							if !rec(s.Val) {
								return false
							}
						}
					}
				}
			}
			return n > 0
		}
		return false
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return rec(x.X) || rec(x.Y)
			}
		}
		return false
	case *ssa.Phi:
		if w.appendCarries(x, target, d, busy) {
			return true
		}
		some := false
		for i, e := range x.Edges {
			if rec(e) {
				some = true
				continue
			}
			pred := x.Block().Preds[i]
			if !w.fixedAt(pred.Instrs[len(pred.Instrs)-1], x.Block()) {
				return false
			}
		}
		return some
	case *ssa.Alloc:
		if w.carryVia.Load != nil {
			if from := w.carryVia.Load(x, nil); from != nil && rec(from) {
				return true
			}
		}
		return w.allocCarries(x, target, d, busy)
	case *ssa.MakeSlice:
		return w.elemCarries(x, target, d, busy)
	case *ssa.Slice:
		if x.Low != nil {
			if n, ok := ConstInt(x.Low); !ok || n != 0 {
				return false
			}
		}
		if _, isA := x.X.(*ssa.Alloc); x.High != nil && !isA {
			return false
		}
		return rec(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return w.callCarries(c, x.Index, target, d, busy)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return rec(ta.X)
		}
	case *ssa.Call:
		return w.callCarries(x, 0, target, d, busy)
	}
	return false
}

func losslessConv(from, to types.Type) bool {
	f, t := from.Underlying(), to.Underlying()
	str := func(x types.Type) bool {
		if b, ok := x.(*types.Basic); ok {
			return b.Info()&types.IsString != 0
		}
		if s, ok := x.(*types.Slice); ok {
			b, ok := s.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint8
		}
		return false
	}
	if str(f) && str(t) {
		return true
	}
	fb, okf := f.(*types.Basic)
	tb, okt := t.(*types.Basic)
	if okf && okt && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		size := func(b *types.Basic) int64 { return (&types.StdSizes{WordSize: 8, MaxAlign: 8}).Sizeof(b) }
		return size(tb) >= size(fb)
	}
	return types.Identical(f, t)
}

func (w *World) allocCarries(al *ssa.Alloc, target func(ssa.Value) bool, d int, busy map[ssa.Value]bool) bool {
	rec := func(x ssa.Value) bool { return w.carries(x, target, d+1, busy) }
	whole, wholeOK := 0, true
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == al {
				whole++
				if !rec(r.Val) {
					wholeOK = false
				}
			}
		case *ssa.FieldAddr:
			for _, rr := range *r.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == r && InnermostLoopOf(s) == InnermostLoopOf(al) && rec(s.Val) {
					return true
				}
			}
		case *ssa.IndexAddr:
			// an element of a composite literal
			if _, ok := ConstInt(r.Index); !ok {
				continue
			}
			for _, rr := range *r.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == r && s.Block() == al.Block() && rec(s.Val) {
					return true
				}
			}
		}
	}
	if whole > 0 {
		return wholeOK
	}
	return w.elemCarries(al, target, d, busy)
}

// InnermostLoopOf returns the header of the innermost loop around in (nil if none).
func InnermostLoopOf(in ssa.Instruction) *ssa.BasicBlock {
	if l := InnermostLoop(in.Block()); l != nil {
		return l.Header
	}
	return nil
}

// elemCarries: the collection is filled element by element from a whole ranged collection.
func (w *World) elemCarries(v ssa.Value, target func(ssa.Value) bool, d int, busy map[ssa.Value]bool) bool {
	var stores []*ssa.Store
	var walk func(v ssa.Value, n int)
	walk = func(v ssa.Value, n int) {
		if v.Referrers() == nil || n > 3 {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				if r.X != v {
					continue
				}
				for _, rr := range *r.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == r {
						stores = append(stores, s)
					}
				}
			case *ssa.Slice:
				if r.X == v {
					walk(r, n+1)
				}
			case *ssa.ChangeType:
				walk(r, n+1)
			case *ssa.Store:
				// kept in a field and filled there
				if fa, ok := r.Addr.(*ssa.FieldAddr); ok && r.Val == v {
					for _, b := range r.Parent().Blocks {
						for _, in := range b.Instrs {
							if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL && SameAddr(ld.X, fa) && CanReach(r, ld) {
								walk(ld, n+1)
							}
						}
					}
				}
			}
		}
	}
	walk(v, 0)
	for _, s := range stores {
		l := InnermostLoop(s.Block())
		if l == nil {
			if w.carries(s.Val, target, d+1, busy) {
				return true
			}
			continue
		}
		if l.Over == nil || !w.carries(l.Over, target, d+1, busy) {
			continue
		}
		// the place differs from one iteration to the next
		if at, ok := ResolveLocal(s.Addr.(*ssa.IndexAddr).Index).(ssa.Instruction); !ok || !l.Blocks[at.Block()] {
			continue
		}
		if !w.carries(s.Val, func(x ssa.Value) bool { return l.IsElem(x) || target(x) }, d+1, map[ssa.Value]bool{}) {
			continue
		}
		if !l.Always(func(in ssa.Instruction) bool { return in == ssa.Instruction(s) }, nil) || w.EarlyExit(l, nil) != nil {
			continue
		}
		return true
	}
	return false
}

// Alternatives calls f with the values v may be, looking into the calls of functions of the program,
// in the context of these calls.
func (w *World) Alternatives(v ssa.Value, f func(ssa.Value)) {
	w.alternatives(v, f, 0)
}

func (w *World) alternatives(v ssa.Value, f func(ssa.Value), d int) {
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		w.alternatives(x.X, f, d)
		return
	case *ssa.Phi:
		if d < 6 {
			for _, e := range x.Edges {
				if e != v {
					w.alternatives(e, f, d+1)
				}
			}
			return
		}
	case *ssa.UnOp:
		if s := LastStore(x); x.Op == token.MUL && s != nil && d < 6 {
			w.alternatives(s.Val, f, d+1)
			return
		}
	}
	idx := 0
	c, _ := v.(*ssa.Call)
	if ex, ok := v.(*ssa.Extract); ok {
		c, _ = ex.Tuple.(*ssa.Call)
		idx = ex.Index
	}
	if c != nil && d < 6 {
		if g := c.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && g.Pkg != nil && w.InModule(g.Pkg.Pkg) {
			for _, r := range Returns(g) {
				if idx >= len(r.Results) || ErrIndex(g.Signature) >= 0 && !w.MaySucceed(r) {
					continue
				}
				w.WithCall(c, func() { w.alternatives(r.Results[idx], f, d+1) })
			}
			return
		}
	}
	f(v)
}

// CarriesHere is CarriesThrough in the context of the calls being looked into: parameters stand for their arguments.
func (w *World) CarriesHere(v ssa.Value, via Via, target func(ssa.Value) bool) bool {
	calls := w.carryCalls
	n := len(calls)
	if n == 0 {
		return w.CarriesThrough(v, via, target)
	}
	c := calls[n-1]
	g := c.Call.StaticCallee()
	return w.CarriesThrough(v, via, func(x ssa.Value) bool {
		if target(x) {
			return true
		}
		p, ok := x.(*ssa.Parameter)
		if !ok || p.Parent() != g {
			return false
		}
		for i, q := range g.Params {
			if q == p {
				old := w.carryCalls
				w.carryCalls = calls[:n-1]
				defer func() { w.carryCalls = old }()
				return w.CarriesHere(ArgOf(c, i), via, target)
			}
		}
		return false
	})
}

// appendCarries: a list is grown by one element for each element of a whole ranged collection.
func (w *World) appendCarries(phi *ssa.Phi, target func(ssa.Value) bool, d int, busy map[ssa.Value]bool) bool {
	var l *Loop
	for _, x := range Loops(phi.Parent()) {
		if x.Header == phi.Block() {
			l = x
		}
	}
	if l == nil || l.Over == nil {
		return false
	}
	for i, e := range phi.Edges {
		if !l.Blocks[phi.Block().Preds[i]] {
			continue
		}
		c, ok := e.(*ssa.Call)
		if !ok {
			return false
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || len(c.Call.Args) != 2 || c.Call.Args[0] != ssa.Value(phi) {
			return false
		}
		some := false
		for _, el := range VarArgs(c.Call.Args[1]) {
			if el != nil && w.carries(el, func(x ssa.Value) bool { return l.IsElem(x) || target(x) }, d+1, map[ssa.Value]bool{}) {
				some = true
			}
		}
		if !some {
			return false
		}
	}
	return w.carries(l.Over, target, d+1, busy) && w.EarlyExit(l, nil) == nil
}

func (w *World) callCarries(c *ssa.Call, idx int, target func(ssa.Value) bool, d int, busy map[ssa.Value]bool) bool {
	rec := func(x ssa.Value) bool { return w.carries(x, target, d+1, busy) }
	if w.carryVia.Call != nil {
		if from := w.carryVia.Call(c, idx); from != nil && rec(from) {
			return true
		}
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range c.Call.Args {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	cs := w.callees[c]
	if len(cs) == 0 {
		for _, a := range sprintfArgs(c) {
			if rec(a) {
				return true
			}
		}
		return (lossless[Key(c)] || w.carryExtra[Key(c)]) && len(c.Call.Args) > 0 && rec(c.Call.Args[0])
	}
	calls := w.carryCalls
	up := func(x ssa.Value) bool {
		old := w.carryCalls
		w.carryCalls = calls
		defer func() { w.carryCalls = old }()
		return rec(x)
	}
	some := false
	for _, g := range cs {
		for _, r := range Returns(g) {
			if idx >= len(r.Results) {
				return false
			}
			if ErrIndex(g.Signature) >= 0 && !w.MaySucceed(r) {
				continue
			}
			t := func(x ssa.Value) bool {
				if target(x) {
					return true
				}
				if p, ok := x.(*ssa.Parameter); ok && p.Parent() == g {
					for i, q := range g.Params {
						if q == p {
							return up(ArgOf(c, i))
						}
					}
				}
				if fv, ok := x.(*ssa.FreeVar); ok && fv.Parent() == g {
					if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
						for i, q := range g.FreeVars {
							if q == fv {
								return up(mc.Bindings[i])
							}
						}
					}
				}
				return false
			}
			ok, fixed := false, false
			w.WithCall(c, func() {
				ok = w.carries(r.Results[idx], t, d+1, map[ssa.Value]bool{})
				fixed = !ok && w.fixedAt(r, nil)
			})
			if !ok && !fixed {
				return false
			}
			some = some || ok
		}
	}
	return some
}

// IsLossless: converting from one type to the other keeps the value.
func IsLossless(from, to types.Type) bool { return losslessConv(from, to) }
