package eng

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Lit is a branch literal: the boolean value V evaluated to Pol.
type Lit struct {
	V   ssa.Value
	Pol bool
}

// DomLits returns the branch literals that hold at the entry of block b because
// a branch edge dominates it (intraprocedural).
func DomLits(b *ssa.BasicBlock) []Lit {
	var res []Lit
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			break
		}
		ifi := blockIf(p)
		if ifi == nil {
			continue
		}
		// d is reached only through p's branch if d has p as its single predecessor.
		for i, s := range p.Succs {
			if s == d && len(d.Preds) == 1 && p.Succs[0] != p.Succs[1] {
				res = append(res, norm(Lit{ifi.Cond, i == 0}))
			}
		}
	}
	// Multi-predecessor joins: literals common to all incoming edges.
	return append(res, joinLits(b)...)
}

// joinLits: when block b (or a dominator) has several predecessors all of which
// carry the same literal on their edges (e.g. merged switch cases), keep it.
func joinLits(b *ssa.BasicBlock) []Lit {
	var res []Lit
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) < 2 {
			continue
		}
		var common map[Lit]bool
		ok := true
		for _, p := range d.Preds {
			if d.Dominates(p) { // back edge
				ok = false
				break
			}
			cur := map[Lit]bool{}
			if ifi := blockIf(p); ifi != nil && p.Succs[0] != p.Succs[1] {
				cur[norm(Lit{ifi.Cond, p.Succs[0] == d})] = true
			}
			// literals dominating p but not d
			for q := p; q != nil && q != d.Idom(); q = q.Idom() {
				pp := q.Idom()
				if pp == nil {
					break
				}
				if ifi := blockIf(pp); ifi != nil && len(q.Preds) == 1 && pp.Succs[0] != pp.Succs[1] {
					for i, s := range pp.Succs {
						if s == q {
							cur[norm(Lit{ifi.Cond, i == 0})] = true
						}
					}
				}
			}
			if common == nil {
				common = cur
			} else {
				for l := range common {
					if !cur[l] {
						delete(common, l)
					}
				}
			}
		}
		if ok {
			for l := range common {
				res = append(res, l)
			}
		}
	}
	return res
}

func blockIf(b *ssa.BasicBlock) *ssa.If {
	if len(b.Instrs) == 0 {
		return nil
	}
	i, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return i
}

func norm(l Lit) Lit {
	for {
		if u, ok := l.V.(*ssa.UnOp); ok && u.Op == token.NOT {
			l = Lit{u.X, !l.Pol}
			continue
		}
		return l
	}
}

// EdgeLit returns the literal established by the edge from p to s (if any).
func EdgeLit(p, s *ssa.BasicBlock) (Lit, bool) {
	ifi := blockIf(p)
	if ifi == nil || p.Succs[0] == p.Succs[1] {
		return Lit{}, false
	}
	return norm(Lit{ifi.Cond, p.Succs[0] == s}), true
}

// Implies tells whether literal l (looking through negation, boolean phis and
// module-local boolean/error helpers) implies some literal satisfying pred.
func (w *World) Implies(l Lit, pred func(Lit) bool) bool {
	return w.implies(l, pred, 0)
}

func (w *World) implies(l Lit, pred func(Lit) bool, depth int) bool {
	l = norm(l)
	if pred(l) {
		return true
	}
	if depth > 5 {
		return false
	}
	switch v := l.V.(type) {
	case *ssa.Phi:
		// every edge compatible with the polarity must imply pred
		n := 0
		for i, e := range v.Edges {
			if c, ok := ConstBool(e); ok && c != l.Pol {
				continue
			}
			n++
			ok := false
			if _, isC := ConstBool(e); !isC && w.implies(Lit{e, l.Pol}, pred, depth+1) {
				ok = true
			}
			if !ok {
				p := v.Block().Preds[i]
				if el, has := EdgeLit(p, v.Block()); has && w.implies(el, pred, depth+1) {
					ok = true
				}
				if !ok {
					for _, dl := range DomLits(p) {
						// only literals established below the phi block's dominator matter, others are harmless
						if w.implies(dl, pred, depth+1) {
							ok = true
							break
						}
					}
				}
			}
			if !ok {
				return false
			}
		}
		return n > 0
	case *ssa.Call:
		return w.callImplies(v, 0, l.Pol, false, pred, depth)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return w.callImplies(c, v.Index, l.Pol, false, pred, depth)
		}
	case *ssa.BinOp:
		// x == nil / x != nil where x is the error result of a module helper
		if v.Op == token.EQL || v.Op == token.NEQ {
			x := v.X
			y := v.Y
			if IsNilConst(x) {
				x, y = y, x
			}
			if IsNilConst(y) {
				isNil := (v.Op == token.EQL) == l.Pol
				switch e := x.(type) {
				case *ssa.Call:
					return w.callImplies(e, 0, isNil, true, pred, depth)
				case *ssa.Extract:
					if c, ok := e.Tuple.(*ssa.Call); ok {
						return w.callImplies(c, e.Index, isNil, true, pred, depth)
					}
				}
			}
			if phi, ok := x.(*ssa.Phi); ok {
				if k, ok := y.(*ssa.Const); ok {
					return w.eqImplies(phi, k, (v.Op == token.EQL) == l.Pol, pred, depth+1)
				}
			}
			if phi, ok := y.(*ssa.Phi); ok {
				if k, ok := x.(*ssa.Const); ok {
					return w.eqImplies(phi, k, (v.Op == token.EQL) == l.Pol, pred, depth+1)
				}
			}
			// bool == const
			if c, ok := ConstBool(v.Y); ok {
				return w.implies(Lit{v.X, (v.Op == token.EQL) == (c == l.Pol)}, pred, depth+1)
			}
		}
	}
	return false
}

// eqImplies: the merged value is (or is not) the constant; does every edge on which that is possible imply pred?
func (w *World) eqImplies(phi *ssa.Phi, k *ssa.Const, eq bool, pred func(Lit) bool, depth int) bool {
	if depth > 5 {
		return false
	}
	n := 0
	for i, e := range phi.Edges {
		p := phi.Block().Preds[i]
		if c, ok := e.(*ssa.Const); ok {
			if same := c.Value == nil && k.Value == nil || c.Value != nil && k.Value != nil && constant.Compare(c.Value, token.EQL, k.Value); same != eq {
				continue
			}
		} else if k.Value == nil {
			if nz := w.Nilness(e, p); eq && nz == NonNil || !eq && nz == Nil {
				continue
			}
		}
		n++
		ok := false
		if inner, isPhi := e.(*ssa.Phi); isPhi && w.eqImplies(inner, k, eq, pred, depth+1) {
			ok = true
		}
		if el, has := EdgeLit(p, phi.Block()); !ok && has && w.implies(el, pred, depth+1) {
			ok = true
		}
		for _, dl := range DomLits(p) {
			ok = ok || w.implies(dl, pred, depth+1)
		}
		if !ok {
			return false
		}
	}
	return n > 0
}

// callImplies: the call's result idx has the given truth (or nil-ness); does every
// matching return of every callee imply pred?
func (w *World) callImplies(c *ssa.Call, idx int, pol bool, nilness bool, pred func(Lit) bool, depth int) bool {
	cs := w.callees[c]
	if len(cs) == 0 || depth > 24 {
		return false
	}
	if len(cs) == 1 {
		entered = append(entered, c)
		defer func() { entered = entered[:len(entered)-1] }()
	}
	for _, fn := range cs {
		n := 0
		for _, r := range Returns(fn) {
			if idx >= len(r.Results) {
				return false
			}
			res := r.Results[idx]
			if nilness {
				nz := w.Nilness(res, r.Block())
				if (pol && nz == NonNil) || (!pol && nz == Nil) {
					continue
				}
			} else if k, ok := ConstBool(res); ok && k != pol {
				continue
			}
			n++
			ok := false
			for _, dl := range DomLits(r.Block()) {
				if w.implies(dl, pred, depth+1) {
					ok = true
					break
				}
			}
			if !ok && !nilness {
				if _, isC := ConstBool(res); !isC && w.implies(Lit{res, pol}, pred, depth+1) {
					ok = true
				}
			}
			if !ok && nilness {
				// result itself is another call's error
				if rc, idx2 := asCall(res); rc != nil && w.callImplies(rc, idx2, pol, true, pred, depth+1) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		if n == 0 {
			return false
		}
	}
	return true
}

// entered are the calls a literal is being looked for behind.
var entered []*ssa.Call

// Outer is what a value of a function a literal is being looked for in stands for in its caller:
// parameters stand for the arguments given.
func Outer(v ssa.Value) ssa.Value {
	v = ResolveLocal(v)
	for i := len(entered) - 1; i >= 0; i-- {
		p, ok := v.(*ssa.Parameter)
		if !ok {
			return v
		}
		c := entered[i]
		g := c.Call.StaticCallee()
		if g == nil || p.Parent() != g {
			continue
		}
		for j, q := range g.Params {
			if q == p && j < len(c.Call.Args) {
				v = ResolveLocal(c.Call.Args[j])
			}
		}
	}
	return v
}

func asCall(v ssa.Value) (*ssa.Call, int) {
	switch v := v.(type) {
	case *ssa.Call:
		return v, 0
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return c, v.Index
		}
	}
	return nil, 0
}

// Nil-ness of a value at a program point.
type Nil3 int

const (
	MaybeNil Nil3 = iota
	Nil
	NonNil
)

// Nilness classifies an (error) value at block b.
func (w *World) Nilness(v ssa.Value, b *ssa.BasicBlock) Nil3 {
	return w.nilness(v, b, 0, map[ssa.Value]bool{})
}

func (w *World) nilness(v ssa.Value, b *ssa.BasicBlock, depth int, seen map[ssa.Value]bool) Nil3 {
	if v == nil {
		return MaybeNil
	}
	if IsNilConst(v) {
		return Nil
	}
	if b != nil {
		for _, l := range DomLits(b) {
			if bo, ok := l.V.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				x, y := bo.X, bo.Y
				if IsNilConst(x) {
					x, y = y, x
				}
				if IsNilConst(y) && sameValue(x, v) {
					if (bo.Op == token.EQL) == l.Pol {
						return Nil
					}
					return NonNil
				}
			}
			// errors.Is(err, X) / errors.As true implies err != nil
			if c, ok := l.V.(*ssa.Call); ok && l.Pol {
				if k := Key(c); (k == "errors.Is" || k == "errors.As") && len(c.Call.Args) > 0 && sameValue(c.Call.Args[0], v) {
					return NonNil
				}
			}
		}
	}
	if seen[v] || depth > 6 {
		return MaybeNil
	}
	seen[v] = true
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if s := LastStore(ld); s != nil {
			return w.nilness(s.Val, s.Block(), depth+1, seen)
		}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return NonNil
	case *ssa.ChangeInterface:
		return w.nilness(x.X, b, depth+1, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				// package-level sentinel errors
				all := len(w.gstores[g]) > 0
				for _, s := range w.gstores[g] {
					if w.nilness(s, nil, depth+1, seen) != NonNil {
						all = false
					}
				}
				if all {
					return NonNil
				}
				if g.Pkg != nil && w.byPath[g.Pkg.Pkg.Path()] == nil && IsErrorType(Deref(g.Type())) {
					return NonNil // exported sentinel of a dependency
				}
			}
		}
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.FieldAddr, *ssa.Global:
		return NonNil
	case *ssa.Phi:
		res := Nil3(-1)
		for i, e := range x.Edges {
			n := w.nilness(e, x.Block().Preds[i], depth+1, seen)
			if n == MaybeNil {
				if el, ok := EdgeLit(x.Block().Preds[i], x.Block()); ok {
					n = litNil(el, e)
				}
			}
			if res == -1 {
				res = n
			} else if res != n {
				return MaybeNil
			}
		}
		if res == -1 {
			return MaybeNil
		}
		return res
	case *ssa.Call:
		switch Key(x) {
		case "fmt.Errorf", "errors.New", "github.com/urfave/cli/v2.Exit":
			return NonNil
		case "errors.Join":
			// non-nil when any joined element is provably non-nil
			any := false
			w.Origins(x.Call.Args[0], func(o ssa.Value) Step {
				if o == x.Call.Args[0] {
					return Follow
				}
				switch o.(type) {
				case *ssa.Slice, *ssa.Alloc:
					return Follow
				}
				if IsErrorType(o.Type()) && w.nilness(o, b, depth+1, seen) == NonNil {
					any = true
				}
				return Stop
			})
			if any {
				return NonNil
			}
			return MaybeNil
		}
		return w.retNil(x, 0, depth, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return w.retNil(c, x.Index, depth, seen)
		}
	}
	return MaybeNil
}

func (w *World) retNil(c *ssa.Call, idx int, depth int, seen map[ssa.Value]bool) Nil3 {
	cs := w.callees[c]
	if len(cs) == 0 {
		return MaybeNil
	}
	res := Nil3(-1)
	for _, fn := range cs {
		for _, r := range Returns(fn) {
			if idx >= len(r.Results) {
				return MaybeNil
			}
			n := w.nilness(r.Results[idx], r.Block(), depth+1, seen)
			if p, isP := ResolveLocal(r.Results[idx]).(*ssa.Parameter); isP && n == MaybeNil && !c.Call.IsInvoke() {
				for i, q := range fn.Params {
					if q == p && i < len(c.Call.Args) {
						n = w.nilness(c.Call.Args[i], c.Block(), depth+1, seen)
					}
				}
			}
			if res == -1 {
				res = n
			} else if res != n {
				return MaybeNil
			}
		}
	}
	if res == -1 {
		return MaybeNil
	}
	return res
}

func litNil(l Lit, v ssa.Value) Nil3 {
	if bo, ok := l.V.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		x, y := bo.X, bo.Y
		if IsNilConst(x) {
			x, y = y, x
		}
		if IsNilConst(y) && sameValue(x, v) {
			if (bo.Op == token.EQL) == l.Pol {
				return Nil
			}
			return NonNil
		}
	}
	return MaybeNil
}

// sameValue compares values structurally (loads of the same unmodified named result count as equal).
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, oka := a.(*ssa.UnOp)
	ub, okb := b.(*ssa.UnOp)
	if oka && okb && ua.Op == token.MUL && ub.Op == token.MUL && ua.X == ub.X {
		// loads from the same address with no store in between within one block / dominated region
		return !storeBetween(ua, ub)
	}
	if oka || okb {
		// a local variable and what was last stored in it
		ra, rb := ResolveLocal(a), ResolveLocal(b)
		if _, isC := ra.(*ssa.Const); !isC {
			return ra == rb
		}
	}
	return false
}

func storeBetween(a, b *ssa.UnOp) bool {
	// conservative: same block → scan between; different blocks → any store to the address in a block
	// reachable from a's block and reaching b's block counts.
	if a.Block() == b.Block() {
		in := false
		for _, i := range a.Block().Instrs {
			if i == a || i == b {
				if in {
					return false
				}
				in = true
				continue
			}
			if s, ok := i.(*ssa.Store); ok && in && s.Addr == a.X {
				return true
			}
		}
		return false
	}
	first, second := a, b
	if b.Block().Dominates(a.Block()) {
		first, second = b, a
	}
	// after first in its block
	seenFirst := false
	for _, i := range first.Block().Instrs {
		if i == first {
			seenFirst = true
			continue
		}
		if s, ok := i.(*ssa.Store); ok && seenFirst && s.Addr == a.X {
			return true
		}
	}
	for _, i := range second.Block().Instrs {
		if i == second {
			break
		}
		if s, ok := i.(*ssa.Store); ok && s.Addr == a.X {
			return true
		}
	}
	// blocks strictly between
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if reach[x] || x == second.Block() {
			return
		}
		reach[x] = true
		for _, s := range x.Succs {
			walk(s)
		}
	}
	for _, s := range first.Block().Succs {
		walk(s)
	}
	back := map[*ssa.BasicBlock]bool{}
	var up func(x *ssa.BasicBlock)
	up = func(x *ssa.BasicBlock) {
		if back[x] {
			return
		}
		back[x] = true
		for _, p := range x.Preds {
			up(p)
		}
	}
	up(second.Block())
	for x := range reach {
		if x == first.Block() || !back[x] {
			continue
		}
		for _, i := range x.Instrs {
			if s, ok := i.(*ssa.Store); ok && s.Addr == a.X {
				return true
			}
		}
	}
	return false
}

// MustHold tells whether, whenever instr executes, a literal satisfying pred has been
// established — in its own function or at every call site leading to it.
func (w *World) MustHold(instr ssa.Instruction, pred func(Lit) bool) bool {
	return w.mustHold(instr, pred, map[*ssa.Function]bool{}, nil)
}

// MustHoldWhy is MustHold and also reports the chain of functions leading to an unguarded entry.
func (w *World) MustHoldWhy(instr ssa.Instruction, pred func(Lit) bool) (bool, []string) {
	var why []string
	ok := w.mustHold(instr, pred, map[*ssa.Function]bool{}, &why)
	return ok, why
}

func (w *World) mustHold(instr ssa.Instruction, pred func(Lit) bool, seen map[*ssa.Function]bool, why *[]string) bool {
	for _, l := range DomLits(instr.Block()) {
		if w.Implies(l, pred) {
			return true
		}
	}
	if w.everyPathHolds(instr.Block(), pred, map[*ssa.BasicBlock]bool{}) {
		return true
	}
	fn := instr.Parent()
	if seen[fn] {
		return true // coinductive: judged at the first visit
	}
	seen[fn] = true
	sites := w.EntrySites(fn)
	if len(sites) == 0 {
		if why != nil {
			*why = append(*why, Name(fn)+" (entry)")
		}
		return false
	}
	for _, s := range sites {
		if !w.mustHold(s, pred, seen, why) {
			if w.viaPass(fn, func(s ssa.Instruction) bool { return w.mustHold(s, pred, map[*ssa.Function]bool{fn: true}, nil) }) {
				return true
			}
			if why != nil {
				*why = append(*why, Name(fn))
			}
			return false
		}
	}
	return true
}

// everyPathHolds: every way into the block crosses a branch edge that implies pred.
func (w *World) everyPathHolds(b *ssa.BasicBlock, pred func(Lit) bool, memo map[*ssa.BasicBlock]bool) bool {
	if r, ok := memo[b]; ok {
		return r
	}
	memo[b] = false
	n := 0
	for _, p := range b.Preds {
		if b.Dominates(p) {
			continue // another iteration: its first one came another way
		}
		n++
		if l, ok := EdgeLit(p, b); ok && w.Implies(l, pred) {
			continue
		}
		if !w.everyPathHolds(p, pred, memo) {
			return false
		}
	}
	memo[b] = n > 0
	return n > 0
}

// viaPass judges a function literal where it is handed over instead of where it is
// (dynamically) invoked: what has been established there still holds when it runs.
func (w *World) viaPass(fn *ssa.Function, ok func(site ssa.Instruction) bool) bool {
	ps := w.PassSites(fn)
	if len(ps) == 0 {
		return false
	}
	for _, s := range ps {
		if !ok(s) {
			return false
		}
	}
	return true
}

// PassSites lists the instructions which call fn (a function literal) or hand it over
// as an argument; nil when the value escapes otherwise (stored, returned).
func (w *World) PassSites(fn *ssa.Function) []ssa.Instruction {
	var res []ssa.Instruction
	escaped := false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.DebugRef:
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, ar := range *a.Referrers() {
						switch y := ar.(type) {
						case *ssa.UnOp:
							walk(y)
						case *ssa.Store, *ssa.DebugRef:
						case *ssa.MakeClosure:
							for i, b := range y.Bindings {
								if b == ssa.Value(a) {
									g := y.Fn.(*ssa.Function)
									for _, fr := range *g.FreeVars[i].Referrers() {
										if u, ok := fr.(*ssa.UnOp); ok {
											walk(u)
										}
									}
								}
							}
						default:
							escaped = true
						}
					}
				} else {
					escaped = true
				}
			case ssa.CallInstruction:
				res = append(res, x)
			default:
				escaped = true
			}
		}
	}
	for _, mc := range w.closure[fn] {
		walk(mc)
	}
	if escaped {
		return nil
	}
	return res
}

// EntrySites returns where control enters fn: module call sites, plus (for function
// values that escape to external code) the instruction that creates/passes the value.
func (w *World) EntrySites(fn *ssa.Function) []ssa.Instruction {
	if w.scope != nil {
		if fn == w.scopeRoot {
			return nil
		}
		var res []ssa.Instruction
		for _, s := range w.entrySites(fn) {
			if w.scope[s.Parent()] {
				res = append(res, s)
			}
		}
		return res
	}
	return w.entrySites(fn)
}

// Within evaluates f considering only calls made on behalf of root: entry sites outside
// of what root reaches are ignored, and root is the entry.
func (w *World) Within(root *ssa.Function, f func()) { w.WithinExcept(root, nil, f) }

// WithinExcept also leaves out calls made by the given functions.
func (w *World) WithinExcept(root *ssa.Function, except []*ssa.Function, f func()) {
	oldS, oldR := w.scope, w.scopeRoot
	w.scope, w.scopeRoot = w.Reachable(root), root
	for _, e := range except {
		delete(w.scope, e)
	}
	defer func() { w.scope, w.scopeRoot = oldS, oldR }()
	f()
}

func (w *World) entrySites(fn *ssa.Function) []ssa.Instruction {
	var res []ssa.Instruction
	for _, c := range w.callers[canon(fn)] {
		res = append(res, c)
	}
	if len(res) == 0 {
		for _, mc := range w.closure[fn] {
			res = append(res, mc)
		}
		if len(w.closure[fn]) == 0 {
			for _, r := range w.fnRefs[canon(fn)] {
				if r.Parent() != nil && r.Parent().Name() != "init" {
					res = append(res, r)
				}
			}
		}
	}
	return res
}
