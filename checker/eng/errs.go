package eng

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// ErrFate describes what happens to a call's error.
type ErrFate int

const (
	ErrPropagated ErrFate = iota // every exit on the failure path reports an error
	ErrDropped                   // the error result is never looked at
	ErrSwallowed                 // some exit on the failure path reports success
)

// Fate decides what happens to the error of a call. The exit is the offending return.
func (w *World) Fate(c ssa.CallInstruction) (ErrFate, ssa.Instruction) {
	return w.FateWith(c, nil, nil)
}

// FateWith is Fate, where the failure also counts as answered on the edges that handled
// recognises, and at the instructions that answers recognises.
func (w *World) FateWith(c ssa.CallInstruction, handled func(e ssa.Value, l Lit) bool, answers func(ssa.Instruction) bool) (ErrFate, ssa.Instruction) {
	call, ok := c.(*ssa.Call)
	if !ok {
		return ErrDropped, c
	}
	i := ErrIndex(call.Call.Signature())
	if i < 0 {
		return ErrPropagated, nil
	}
	e := ResultAt(call, i)
	if e == nil || e.Referrers() == nil || len(*e.Referrers()) == 0 {
		return ErrDropped, c
	}
	fn := call.Parent()
	if ErrIndex(fn.Signature) < 0 {
		// No error result: the error must at least be examined.
		return ErrPropagated, nil
	}
	failed := w.ErrFailed(c)
	okLit := func(l Lit) bool { // "e == nil" holds on this edge
		if failed(Lit{l.V, !l.Pol}) {
			return true
		}
		// so it does when an error made from e (joined, wrapped) is nil
		bo, ok := l.V.(*ssa.BinOp)
		if !ok || (bo.Op != token.EQL && bo.Op != token.NEQ) || (bo.Op == token.EQL) != l.Pol {
			return false
		}
		x := bo.X
		if IsNilConst(x) {
			x = bo.Y
		} else if !IsNilConst(bo.Y) {
			return false
		}
		return IsErrorType(x.Type()) && w.fromErr(x, e, func(*ssa.Alloc) bool { return false })
	}
	var bad ssa.Instruction
	type st struct {
		b     *ssa.BasicBlock
		holds string
	}
	// The variables (named results, captured variables) which hold the error at this point.
	cells := map[*ssa.Alloc]int{}
	for _, al := range fn.Locals {
		cells[al] = len(cells)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && IsErrorType(Deref(al.Type())) {
				if _, has := cells[al]; !has {
					cells[al] = len(cells)
				}
			}
		}
	}
	seen := map[st]bool{}
	var walk func(b *ssa.BasicBlock, from int, holds []byte)
	walk = func(b *ssa.BasicBlock, from int, holds []byte) {
		if bad != nil {
			return
		}
		holds = append([]byte(nil), holds...)
		holding := func(al *ssa.Alloc) bool { i, ok := cells[al]; return ok && holds[i] == 1 }
		for j := from; j < len(b.Instrs); j++ {
			if s, ok := b.Instrs[j].(*ssa.Store); ok {
				if al, ok := s.Addr.(*ssa.Alloc); ok && IsErrorType(Deref(al.Type())) {
					if i, ok := cells[al]; ok {
						h := byte(0)
						if w.fromErr(s.Val, e, holding) || w.Nilness(s.Val, b) == NonNil {
							h = 1
						}
						holds[i] = h
					}
				}
			}
			if r, ok := b.Instrs[j].(*ssa.Return); ok {
				if !w.returnsErr(r, e, holding) {
					bad = r
				}
				return
			}
			if b.Instrs[j] == ssa.Instruction(call) && from == 0 {
				// the call is executed again (loop): judged from its first execution
				return
			}
			if b.Instrs[j] != ssa.Instruction(call) && answers != nil && answers(b.Instrs[j]) {
				return
			}
		}
		for _, s := range b.Succs {
			if l, has := EdgeLit(b, s); has && (w.Implies(l, okLit) || handled != nil && w.Implies(l, func(l Lit) bool { return handled(e, l) })) {
				continue
			}
			k := st{s, string(holds)}
			if seen[k] || len(seen) > 20000 {
				continue
			}
			seen[k] = true
			walk(s, 0, holds)
		}
	}
	idx := 0
	for j, x := range call.Block().Instrs {
		if x == ssa.Instruction(call) {
			idx = j + 1
		}
	}
	walk(call.Block(), idx, make([]byte, len(cells)))
	if bad != nil {
		return ErrSwallowed, bad
	}
	return ErrPropagated, nil
}

// returnsErr: the return's error operand is provably non-nil or derives from e.
func (w *World) returnsErr(r *ssa.Return, e ssa.Value, holding func(*ssa.Alloc) bool) bool {
	i := ErrIndex(r.Parent().Signature)
	if i < 0 || i >= len(r.Results) {
		return false
	}
	if u, ok := r.Results[i].(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			return holding(al) || !w.MaySucceed(r)
		}
	}
	if !w.MaySucceed(r) {
		return true
	}
	return w.fromErr(r.Results[i], e, holding)
}

// fromErr: v derives from the error e, which the variables satisfying holding hold.
func (w *World) fromErr(v, e ssa.Value, holding func(*ssa.Alloc) bool) bool {
	hit := false
	w.Origins(v, func(o ssa.Value) Step {
		if o == e {
			hit = true
		}
		if hit {
			return Stop
		}
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL && IsErrorType(u.Type()) {
			if al, ok := u.X.(*ssa.Alloc); ok && al.Parent() == e.Parent() {
				hit = holding(al)
				return Stop
			}
		}
		// stay inside the function: do not enter callees for the error's identity
		if c, ok := o.(*ssa.Call); ok && len(w.callees[c]) > 0 {
			for _, a := range c.Call.Args {
				if a == e {
					hit = true
				}
			}
		}
		return Follow
	})
	return hit
}
