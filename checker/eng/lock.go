package eng

import (
	"golang.org/x/tools/go/ssa"
)

// MutexOp classifies a call on a mutex struct field: +1 lock, -1 unlock.
type MutexOp struct {
	Mu    any // *types.Var (struct field), *ssa.Alloc (local) or *ssa.Global
	Lock  bool
	Write bool
	Base  ssa.Value // struct holding the mutex
}

// MutexCall recognises sync.Mutex/RWMutex operations.
func (w *World) MutexCall(c ssa.CallInstruction) (MutexOp, bool) {
	var op MutexOp
	switch Key(c) {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		op.Lock, op.Write = true, true
	case "sync.RWMutex.RLock":
		op.Lock = true
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		op.Write = true
	case "sync.RWMutex.RUnlock":
	default:
		return op, false
	}
	return op, w.muIdent(ArgOf(c, 0), &op, 0)
}

func (w *World) muIdent(v ssa.Value, op *MutexOp, d int) bool {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		if fv := FieldVar(a); fv != nil {
			op.Mu, op.Base = fv, a.X
			return true
		}
	case *ssa.Alloc:
		op.Mu = a
		return true
	case *ssa.Global:
		op.Mu = a
		return true
	case *ssa.FreeVar:
		for _, mc := range w.closure[a.Parent()] {
			for i, fv := range a.Parent().FreeVars {
				if fv == a && i < len(mc.Bindings) && d < 8 {
					return w.muIdent(mc.Bindings[i], op, d+1)
				}
			}
		}
	}
	return false
}

// HeldAt: on every path to in, the mutex is held (write mode when write is set) —
// in its function or in every (synchronous) caller. exempt, if non-nil, accepts entry sites without the lock.
func (w *World) HeldAt(in ssa.Instruction, mu any, write bool, exempt func(site ssa.Instruction) bool) bool {
	return w.heldAt(in, mu, write, exempt, map[*ssa.Function]bool{})
}

// AnyHeldAt: some mutex locked in in's own function (or, for helpers, in all callers) is held in write mode.
func (w *World) AnyHeldAt(in ssa.Instruction) bool {
	seen := map[any]bool{}
	fns := []*ssa.Function{in.Parent()}
	for _, s := range w.EntrySites(in.Parent()) {
		fns = append(fns, s.Parent())
	}
	for _, f := range fns {
		for _, c := range Calls(f) {
			if op, ok := w.MutexCall(c); ok && op.Lock && !seen[op.Mu] {
				seen[op.Mu] = true
				if w.HeldAt(in, op.Mu, true, nil) {
					return true
				}
			}
		}
	}
	return false
}

// lockSummary: the state of mu at the returns of a module helper which locks or
// unlocks it itself (ok is false when the helper leaves it as it was).
func (w *World) lockSummary(fn *ssa.Function, mu any, d int) (int, bool) {
	if fn == nil || fn.Blocks == nil || d > 4 {
		return 0, false
	}
	touches := false
	deferred := false
	for _, c := range Calls(fn) {
		if op, ok := w.MutexCall(c); ok && op.Mu == mu {
			touches = true
			if _, isD := c.(*ssa.Defer); isD && !op.Lock {
				deferred = true
			}
		} else if g := c.Common().StaticCallee(); g != nil && g != fn && w.inMod(g) {
			if _, ok := w.lockSummary(canon(g), mu, d+1); ok {
				touches = true
			}
		}
	}
	if !touches {
		return 0, false
	}
	if deferred {
		return 0, true
	}
	res, first := 0, true
	for _, r := range Returns(fn) {
		v := w.lockState(fn, mu, r, d+1)
		if v == lockTop {
			continue
		}
		if first {
			res, first = v, false
		} else if res != v {
			return 0, true
		}
	}
	if first || res == lockEntry {
		return 0, false
	}
	return res, true
}

func (w *World) inMod(g *ssa.Function) bool {
	return g.Pkg != nil && w.InModule(g.Pkg.Pkg) || g.Origin() != nil && g.Origin().Pkg != nil && w.InModule(g.Origin().Pkg.Pkg)
}

const (
	lockEntry = -1
	lockTop   = 9
)

// lockState: the state of mu just before in: lockEntry (as at entry), 0 released, 1 read-held, 2 held, lockTop unreachable.
func (w *World) lockState(fn *ssa.Function, mu any, in ssa.Instruction, d int) int {
	step := func(x ssa.Instruction, cur int) int {
		c, ok := x.(ssa.CallInstruction)
		if !ok {
			return cur
		}
		switch x.(type) {
		case *ssa.Defer, *ssa.Go:
			return cur
		}
		op, ok := w.MutexCall(c)
		if !ok {
			if g := c.Common().StaticCallee(); g != nil && g != fn && w.inMod(g) {
				if v, eff := w.lockSummary(canon(g), mu, d+1); eff {
					return v
				}
			}
			return cur
		}
		if op.Mu != mu {
			return cur
		}
		if op.Lock {
			if op.Write {
				return 2
			}
			return 1
		}
		return 0
	}
	outv := make([]int, len(fn.Blocks))
	for i := range outv {
		outv[i] = lockTop
	}
	meet := func(a, b int) int {
		switch {
		case a == lockTop:
			return b
		case b == lockTop || a == b:
			return a
		case a == 0 || b == 0:
			return 0
		case a == lockEntry || b == lockEntry:
			return lockEntry // lock or inherit: weakest is what the entry gives
		}
		return 1
	}
	inv := func(b *ssa.BasicBlock) int {
		if b.Index == 0 {
			return lockEntry
		}
		r := lockTop
		for _, p := range b.Preds {
			r = meet(r, outv[p.Index])
		}
		return r
	}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			cur := inv(b)
			for _, x := range b.Instrs {
				cur = step(x, cur)
			}
			if cur != outv[b.Index] {
				outv[b.Index] = cur
				ch = true
			}
		}
	}
	cur := inv(in.Block())
	for _, x := range in.Block().Instrs {
		if x == in {
			break
		}
		cur = step(x, cur)
	}
	return cur
}

func (w *World) heldAt(in ssa.Instruction, mu any, write bool, exempt func(ssa.Instruction) bool, seen map[*ssa.Function]bool) bool {
	fn := in.Parent()
	cur := w.lockState(fn, mu, in, 0)
	if cur == lockTop {
		return true // unreachable
	}
	if cur == 2 || (cur == 1 && !write) {
		return true
	}
	if cur != lockEntry {
		return false
	}
	if seen[fn] {
		return true
	}
	seen[fn] = true
	sites := w.EntrySites(fn)
	outer := 0
	for _, s := range sites {
		if !seen[s.Parent()] || s.Parent() != fn {
			outer++
		}
		if exempt != nil && exempt(s) {
			continue
		}
		if _, isGo := s.(*ssa.Go); isGo {
			return false
		}
		if _, isMC := s.(*ssa.MakeClosure); isMC {
			return false // runs at an unknown time
		}
		if !w.heldAt(s, mu, write, exempt, seen) {
			return false
		}
	}
	return outer > 0
}
