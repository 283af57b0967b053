package eng

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Over   ssa.Value // the collection ranged over (nil if not recognised)
	Key    ssa.Value // index or map key (nil if unused)
	Next   *ssa.Next // map/string ranges
}

// Loops finds the natural loops of f (loops sharing a header are merged).
func Loops(f *ssa.Function) []*Loop {
	byH := map[*ssa.BasicBlock]*Loop{}
	var res []*Loop
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byH[h]
			if l == nil {
				l = &Loop{Fn: f, Header: h, Blocks: map[*ssa.BasicBlock]bool{h: true}}
				byH[h] = l
				res = append(res, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.Blocks[x] {
					continue
				}
				l.Blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, l := range res {
		l.analyse()
	}
	return res
}

func (l *Loop) analyse() {
	for _, in := range l.Header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			l.Next = n
			if r, ok := n.Iter.(*ssa.Range); ok {
				l.Over = r.X
			}
			for _, r := range *n.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
					l.Key = e
				}
			}
			return
		}
	}
	ifi := blockIf(l.Header)
	if ifi == nil {
		return
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return
	}
	l.Key = bo.X
	if call, ok := bo.Y.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			l.Over = call.Call.Args[0]
		}
		return
	}
	// arrays: the length is a constant; find the indexed array
	if _, ok := ConstInt(bo.Y); ok {
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if x.Index == l.Key {
						if _, isA := Deref(x.X.Type()).Underlying().(*types.Array); isA {
							l.Over = x.X
						}
					}
				case *ssa.Index:
					if x.Index == l.Key {
						l.Over = x.X
					}
				}
			}
		}
	}
}

// IsElem: v is (a load of) the element of the current iteration.
func (l *Loop) IsElem(v ssa.Value) bool {
	v = ResolveLocal(v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				return ia.Index == l.Key && l.Over != nil && SameLoad(ia.X, l.Over)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := storesTo(al); len(s) == 1 {
					return l.IsElem(s[0].Val)
				}
			}
		}
	case *ssa.Index:
		return x.Index == l.Key
	case *ssa.Extract:
		return l.Next != nil && x.Tuple == ssa.Value(l.Next) && x.Index == 2
	}
	return false
}

// IsKey: v is the key (index) of the current iteration.
func (l *Loop) IsKey(v ssa.Value) bool { return l.Key != nil && ResolveLocal(v) == l.Key }

func storesTo(al *ssa.Alloc) []*ssa.Store {
	var res []*ssa.Store
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			res = append(res, s)
		}
	}
	return res
}

// SameLoad: the two values are the same, or loads of the same address.
func SameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, oka := a.(*ssa.UnOp)
	ub, okb := b.(*ssa.UnOp)
	if oka && okb && ua.Op == token.MUL && ub.Op == token.MUL {
		return SameAddr(ua.X, ub.X)
	}
	fa, oka := a.(*ssa.Field)
	fb, okb := b.(*ssa.Field)
	return oka && okb && fa.Field == fb.Field && SameLoad(fa.X, fb.X)
}

// SameAddr: the two addresses denote the same variable or field.
func SameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, oka := a.(*ssa.FieldAddr)
	fb, okb := b.(*ssa.FieldAddr)
	return oka && okb && FieldVar(fa) == FieldVar(fb) && (SameAddr(fa.X, fb.X) || SameLoad(fa.X, fb.X))
}

// InnermostLoop finds the smallest loop containing b.
func InnermostLoop(b *ssa.BasicBlock) *Loop {
	var best *Loop
	for _, l := range Loops(b.Parent()) {
		if l.Blocks[b] && (best == nil || len(l.Blocks) < len(best.Blocks)) {
			best = l
		}
	}
	return best
}

// Always: every complete iteration performs the event; edges accepted by skip are pruned.
func (l *Loop) Always(ev Event, skip func(Lit) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock, first bool)
	walk = func(b *ssa.BasicBlock, first bool) {
		if !ok || !l.Blocks[b] {
			return
		}
		if b == l.Header && !first {
			ok = false
			return
		}
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if ev(in) {
				return
			}
		}
		for _, s := range b.Succs {
			if skip != nil {
				if lit, has := EdgeLit(b, s); has && skip(lit) {
					continue
				}
			}
			walk(s, false)
		}
	}
	walk(l.Header, true)
	return ok
}

// EarlyExit returns an instruction after which the loop is left before its collection is
// exhausted, other than by a failing return; nil if there is none. Edges accepted by skip are ignored.
func (w *World) EarlyExit(l *Loop, skip func(Lit) bool) ssa.Instruction {
	for b := range l.Blocks {
		for _, s := range b.Succs {
			if l.Blocks[s] || (b == l.Header && l.Over != nil) {
				continue
			}
			if skip != nil {
				if lit, has := EdgeLit(b, s); has && skip(lit) {
					continue
				}
			}
			if !w.onlyFails(s, l) {
				return b.Instrs[len(b.Instrs)-1]
			}
		}
		if len(b.Succs) == 0 && len(b.Instrs) > 0 {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && w.MaySucceed(r) {
				return r
			}
		}
	}
	return nil
}

// onlyFails: every path from b ends in a failing return or a panic.
func (w *World) onlyFails(b *ssa.BasicBlock, l *Loop) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if l != nil && l.Blocks[b] {
			return true // an enclosing loop re-enters: judged there
		}
		if len(b.Instrs) > 0 {
			switch r := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				return ErrIndex(r.Parent().Signature) >= 0 && !w.MaySucceed(r)
			case *ssa.Panic:
				return true
			}
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(b)
}

// FailsFrom: every path from b (inside loop l) fails, without another iteration.
func (w *World) FailsFrom(b *ssa.BasicBlock, l *Loop) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == l.Header {
			return false
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		switch r := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			return ErrIndex(r.Parent().Signature) >= 0 && !w.MaySucceed(r)
		case *ssa.Panic:
			return true
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(b)
}

// OnlyFails: every path from b ends in a failing return or a panic.
func (w *World) OnlyFails(b *ssa.BasicBlock) bool { return w.onlyFails(b, nil) }
