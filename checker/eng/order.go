package eng

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// LastStore finds the store a load observes when it is unambiguous: the closest
// preceding store to the same local variable within the block or its unique
// predecessor chain (deferred closures are not taken into account).
func LastStore(ld *ssa.UnOp) *ssa.Store {
	if ld.Op != token.MUL {
		return nil
	}
	switch ld.X.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
	default:
		return nil
	}
	b := ld.Block()
	idx := len(b.Instrs)
	for i, in := range b.Instrs {
		if in == ld {
			idx = i
		}
	}
	for hops := 0; b != nil && hops < 64; hops++ {
		for i := idx - 1; i >= 0; i-- {
			if s, ok := b.Instrs[i].(*ssa.Store); ok && s.Addr == ld.X {
				return s
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		idx = len(b.Instrs)
	}
	return nil
}

// ResolveLocal looks through a load of a local variable to the stored value.
func ResolveLocal(v ssa.Value) ssa.Value {
	for i := 0; i < 16; i++ {
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return v
		}
		s := LastStore(ld)
		if s == nil {
			return v
		}
		v = s.Val
	}
	return v
}

// RetErr returns the (resolved) error operand of a return, or nil if the function has none.
func RetErr(r *ssa.Return) ssa.Value {
	i := ErrIndex(r.Parent().Signature)
	if i < 0 || i >= len(r.Results) {
		return nil
	}
	return ResolveLocal(r.Results[i])
}

// MaySucceed tells whether the return can be a non-error return.
func (w *World) MaySucceed(r *ssa.Return) bool {
	e := RetErr(r)
	if e == nil {
		return true
	}
	if w.Nilness(e, r.Block()) == NonNil {
		return false
	}
	i := ErrIndex(r.Parent().Signature)
	return w.Nilness(r.Results[i], r.Block()) != NonNil
}

// Event matches instructions.
type Event func(ssa.Instruction) bool

// CallEvent lifts a call predicate to an Event that also recognises module
// helpers which perform the event on all of their (successful) returns.
func (w *World) CallEvent(pred func(ssa.CallInstruction) bool) Event {
	memo := map[*ssa.Function]int{} // 1 in progress, 2 yes, 3 no
	var ev Event
	var always func(fn *ssa.Function) bool
	always = func(fn *ssa.Function) bool {
		fn = canon(fn)
		switch memo[fn] {
		case 1:
			return false
		case 2:
			return true
		case 3:
			return false
		}
		if fn.Blocks == nil {
			return false
		}
		memo[fn] = 1
		ok := true
		n := 0
		for _, r := range Returns(fn) {
			if !w.MaySucceed(r) {
				continue
			}
			n++
			if !w.precededIn(r, ev) {
				ok = false
				break
			}
		}
		if n == 0 {
			ok = false
		}
		if ok {
			memo[fn] = 2
		} else {
			memo[fn] = 3
		}
		return ok
	}
	ev = func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		if pred(c) {
			return true
		}
		cs := w.callees[c]
		if len(cs) == 0 {
			return false
		}
		for _, fn := range cs {
			if !always(fn) {
				return false
			}
		}
		return true
	}
	return ev
}

// precededIn: on every path from the function entry to in, an event occurs
// (deferred events count when in is a Return: they have run by then).
func (w *World) precededIn(in ssa.Instruction, ev Event) bool {
	return w.precededInE(in, ev, nil)
}

func (w *World) precededInE(in ssa.Instruction, ev Event, kill func(Lit) bool) bool {
	fn := in.Parent()
	_, isRet := in.(*ssa.Return)
	n := len(fn.Blocks)
	gen := make([]bool, n)
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if x == in {
				break
			}
			if _, d := x.(*ssa.Defer); d && !isRet {
				continue
			}
			if ev(x) {
				gen[b.Index] = true
			}
		}
	}
	outv := make([]bool, n)
	for i := range outv {
		outv[i] = true
	}
	inv := func(b *ssa.BasicBlock) bool {
		if b.Index == 0 || len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			o := outv[p.Index]
			if o && kill != nil {
				if l, ok := EdgeLit(p, b); ok && kill(l) {
					o = false
				}
			}
			if !o {
				return false
			}
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			o := gen[b.Index] || inv(b)
			if o != outv[b.Index] {
				outv[b.Index] = o
				changed = true
			}
		}
	}
	b := in.Block()
	// gen before in within its own block
	for _, x := range b.Instrs {
		if x == in {
			break
		}
		if _, d := x.(*ssa.Defer); d && !isRet {
			continue
		}
		if ev(x) {
			return true
		}
	}
	return inv(b)
}

// MustPrecede: whenever in executes, an event has occurred before — in its function
// or in every caller before the call. kill, if non-nil, cancels the event along
// branch edges carrying a literal (e.g. "the event failed").
func (w *World) MustPrecede(in ssa.Instruction, ev Event, kill func(Lit) bool) (bool, []string) {
	var why []string
	ok := w.mustPrecede(in, ev, kill, map[*ssa.Function]bool{}, &why)
	return ok, why
}

func (w *World) mustPrecede(in ssa.Instruction, ev Event, kill func(Lit) bool, seen map[*ssa.Function]bool, why *[]string) bool {
	if w.precededInE(in, ev, kill) {
		return true
	}
	fn := in.Parent()
	if seen[fn] {
		return true
	}
	seen[fn] = true
	sites := w.EntrySites(fn)
	if len(sites) == 0 {
		*why = append(*why, Name(fn)+" (entry)")
		return false
	}
	for _, s := range sites {
		if !w.mustPrecede(s, ev, kill, seen, why) {
			if w.viaPass(fn, func(s ssa.Instruction) bool {
				var y []string
				return w.mustPrecede(s, ev, kill, map[*ssa.Function]bool{fn: true}, &y)
			}) {
				return true
			}
			*why = append(*why, Name(fn))
			return false
		}
	}
	return true
}

// Leak describes a path on which a required event does not follow.
type Leak struct {
	Exit ssa.Instruction
}

// MustFollow: after in, an event occurs on every path to a function exit accepted
// by exit (nil = all returns). skip prunes branch edges (e.g. the acquisition failed).
func (w *World) MustFollow(in ssa.Instruction, ev Event, exit func(*ssa.Return) bool, skip func(Lit) bool) *Leak {
	fn := in.Parent()
	// a deferred event registered before `in` on all paths
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if d, ok := x.(*ssa.Defer); ok && ev(d) && (b != in.Block() && b.Dominates(in.Block()) || b == in.Block() && before(d, in)) {
				return nil
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) *Leak
	walk = func(b *ssa.BasicBlock, from int) *Leak {
		for i := from; i < len(b.Instrs); i++ {
			x := b.Instrs[i]
			if ev(x) {
				return nil
			}
			if r, ok := x.(*ssa.Return); ok {
				if exit == nil || exit(r) {
					return &Leak{r}
				}
				return nil
			}
		}
		for _, s := range b.Succs {
			if skip != nil {
				if l, ok := EdgeLit(b, s); ok && skip(l) {
					continue
				}
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			if l := walk(s, 0); l != nil {
				return l
			}
		}
		return nil
	}
	idx := 0
	for i, x := range in.Block().Instrs {
		if x == in {
			idx = i + 1
		}
	}
	return walk(in.Block(), idx)
}

func before(a, b ssa.Instruction) bool {
	for _, x := range a.Block().Instrs {
		if x == a {
			return true
		}
		if x == b {
			return false
		}
	}
	return false
}

// Before tells whether a precedes b within one block.
func Before(a, b ssa.Instruction) bool { return a.Block() == b.Block() && before(a, b) }

// Dominates: instruction-level dominance inside one function.
func Dominates(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		return before(a, b)
	}
	return a.Block().Dominates(b.Block())
}

// ErrFailed returns a literal predicate: "the error result of call c is non-nil".
func (w *World) ErrFailed(c ssa.CallInstruction) func(Lit) bool {
	call, ok := c.(*ssa.Call)
	if !ok {
		return func(Lit) bool { return false }
	}
	i := ErrIndex(call.Call.Signature())
	if i < 0 {
		return func(Lit) bool { return false }
	}
	ev := ResultAt(call, i)
	return func(l Lit) bool {
		bo, ok := l.V.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) {
			return false
		}
		x, y := bo.X, bo.Y
		if IsNilConst(x) {
			x, y = y, x
		}
		if !IsNilConst(y) || ev == nil {
			return false
		}
		if ResolveLocal(x) != ev && x != ev {
			// phi/named variable holding the error
			if p, ok := x.(*ssa.Phi); ok {
				hit := false
				for _, e := range p.Edges {
					if e == ev {
						hit = true
					}
				}
				if !hit {
					return false
				}
			} else {
				return false
			}
		}
		return (bo.Op == token.NEQ) == l.Pol
	}
}

// Reachable returns all module functions reachable from the roots (calls, closures, function references).
func (w *World) Reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		f = canon(f)
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range w.callees[c] {
						walk(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						walk(v)
					case *ssa.MakeClosure:
						if fn, ok := v.Fn.(*ssa.Function); ok {
							walk(fn)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return seen
}

// CallersClosure returns all module functions from which f can be reached.
func (w *World) CallersClosure(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, s := range w.EntrySites(f) {
			walk(s.Parent())
		}
	}
	walk(f)
	return seen
}

// FieldInit names a field.
type FieldInit struct {
	F *types.Var
	N string
}

// CallsIn lists the calls of several functions.
func CallsIn(fs []*ssa.Function) []ssa.CallInstruction {
	var res []ssa.CallInstruction
	for _, f := range fs {
		res = append(res, Calls(f)...)
	}
	return res
}

// FieldVarOf is FieldVar for any value (nil when it is not a field selection).
func FieldVarOf(v ssa.Value) *types.Var {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.Field:
		return FieldVar(v)
	}
	return nil
}

// LiftEvent extends an instruction event to calls of module helpers that always perform it.
func (w *World) LiftEvent(base Event) Event {
	memo := map[*ssa.Function]int{}
	var ev Event
	always := func(fn *ssa.Function) bool {
		fn = canon(fn)
		switch memo[fn] {
		case 1, 3:
			return false
		case 2:
			return true
		}
		if fn.Blocks == nil {
			return false
		}
		memo[fn] = 1
		n, ok := 0, true
		for _, r := range Returns(fn) {
			n++
			if !w.precededIn(r, ev) {
				ok = false
				break
			}
		}
		if ok && n > 0 {
			memo[fn] = 2
			return true
		}
		memo[fn] = 3
		return false
	}
	ev = func(in ssa.Instruction) bool {
		if base(in) {
			return true
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		cs := w.callees[c]
		if len(cs) == 0 {
			return false
		}
		for _, fn := range cs {
			if !always(fn) {
				return false
			}
		}
		return true
	}
	return ev
}

// AlwaysExecutes: the instruction lies on every path through its function.
func (w *World) AlwaysExecutes(in ssa.Instruction) bool {
	for _, r := range Returns(in.Parent()) {
		if !w.precededIn(r, func(x ssa.Instruction) bool { return x == in }) {
			return false
		}
	}
	return true
}

// CanReach: control can flow from a to b (same function), not counting a == b.
func CanReach(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() && before(a, b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b.Block() {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range a.Block().Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

// FlowRefs lists the instructions using v, looking through phis and type changes.
func FlowRefs(v ssa.Value) []ssa.Instruction {
	var res []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Lookup:
				if x.X == v {
					res = append(res, x)
				}
			default:
				res = append(res, r)
			}
		}
	}
	walk(v)
	return res
}

// EntryReaches: some path from the entry of in's function reaches in without an event;
// edges carrying a literal accepted by skip are pruned.
func (w *World) EntryReaches(in ssa.Instruction, ev Event, skip func(Lit) bool) bool {
	fn := in.Parent()
	if len(fn.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		blocked := false
		for _, x := range b.Instrs {
			if x == in {
				return true
			}
			if _, d := x.(*ssa.Defer); !d && ev(x) {
				blocked = true
				break
			}
		}
		if blocked {
			continue
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			if l, ok := EdgeLit(b, s); ok && skip != nil && skip(l) {
				continue
			}
			seen[s] = true
			work = append(work, s)
		}
	}
	return false
}

// EntryReachesUp is EntryReaches through callers: some call chain reaches in with no event on the way.
func (w *World) EntryReachesUp(in ssa.Instruction, ev Event, skip func(Lit) bool) bool {
	return w.entryReachesUp(in, ev, skip, map[*ssa.Function]bool{})
}

func (w *World) entryReachesUp(in ssa.Instruction, ev Event, skip func(Lit) bool, seen map[*ssa.Function]bool) bool {
	if !w.EntryReaches(in, ev, skip) {
		return false
	}
	fn := in.Parent()
	if seen[fn] {
		return false
	}
	seen[fn] = true
	sites := w.EntrySites(fn)
	if len(sites) == 0 {
		return true
	}
	for _, s := range sites {
		if w.entryReachesUp(s, ev, skip, seen) {
			return !w.viaPass(fn, func(s ssa.Instruction) bool {
				return !w.entryReachesUp(s, ev, skip, map[*ssa.Function]bool{fn: true})
			})
		}
	}
	return false
}

// LiftUnder extends an event to calls of module helpers that perform it on every
// path on which no edge is pruned by skip.
func (w *World) LiftUnder(base Event, skip func(Lit) bool) Event {
	return w.LiftExit(base, nil, skip)
}

// LiftExit is LiftUnder for the paths ending in returns accepted by exit.
func (w *World) LiftExit(base Event, exit func(*ssa.Return) bool, skip func(Lit) bool) Event {
	memo := map[*ssa.Function]int{}
	var ev Event
	ev = func(in ssa.Instruction) bool {
		if base(in) {
			return true
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		cs := w.callees[c]
		if len(cs) == 0 {
			return false
		}
		for _, fn := range cs {
			fn = canon(fn)
			switch memo[fn] {
			case 1, 3:
				return false
			case 2:
				continue
			}
			if fn.Blocks == nil {
				return false
			}
			memo[fn] = 1
			if w.mustDo(fn, ev, exit, skip) == nil {
				memo[fn] = 2
			} else {
				memo[fn] = 3
				return false
			}
		}
		return true
	}
	return ev
}

// MustDo: on every path through fn (to a return accepted by exit; nil = all) the event
// occurs, possibly inside helpers; branch edges accepted by skip are pruned.
func (w *World) MustDo(fn *ssa.Function, base Event, exit func(*ssa.Return) bool, skip func(Lit) bool) *Leak {
	return w.mustDo(fn, w.LiftUnder(base, skip), exit, skip)
}

func (w *World) mustDo(fn *ssa.Function, ev Event, exit func(*ssa.Return) bool, skip func(Lit) bool) *Leak {
	if len(fn.Blocks) == 0 {
		return &Leak{}
	}
	seen := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		hit := false
		for _, x := range b.Instrs {
			if ev(x) {
				hit = true
				break
			}
			if r, ok := x.(*ssa.Return); ok {
				if exit == nil || exit(r) {
					return &Leak{r}
				}
			}
		}
		if hit {
			continue
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			if l, ok := EdgeLit(b, s); ok && skip != nil && skip(l) {
				continue
			}
			seen[s] = true
			work = append(work, s)
		}
	}
	return nil
}
