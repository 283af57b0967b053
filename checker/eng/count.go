package eng

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// EventCount computes the minimum and maximum (capped at 2) number of times an
// event happens on a path through fn, following module callees in the same package
// and, when goroutines is set, functions started with go.
func (w *World) EventCount(fn *ssa.Function, ev Event, goroutines bool) (lo, hi int) {
	memo := map[*ssa.Function][2]int{}
	busy := map[*ssa.Function]bool{}
	var count func(f *ssa.Function) [2]int
	count = func(f *ssa.Function) [2]int {
		if r, ok := memo[f]; ok {
			return r
		}
		if busy[f] || f.Blocks == nil {
			return [2]int{0, 0}
		}
		busy[f] = true
		defer func() { busy[f] = false }()
		cost := func(in ssa.Instruction) [2]int {
			if ev(in) {
				return [2]int{1, 1}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return [2]int{}
			}
			if _, isGo := in.(*ssa.Go); isGo && !goroutines {
				return [2]int{}
			}
			cs := w.callees[ci]
			if len(cs) == 0 {
				return [2]int{}
			}
			r := [2]int{3, 0}
			for _, g := range cs {
				if PkgOf(g) != PkgOf(f) {
					r[0] = 0
					continue
				}
				x := count(g)
				if x[0] < r[0] {
					r[0] = x[0]
				}
				if x[1] > r[1] {
					r[1] = x[1]
				}
			}
			if r[0] == 3 {
				r[0] = 0
			}
			return r
		}
		n := len(f.Blocks)
		const inf = 1 << 20
		lo := make([]int, n)
		hi := make([]int, n)
		for i := range lo {
			lo[i], hi[i] = inf, -1
		}
		bl := make([][2]int, n)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c := cost(in)
				bl[b.Index][0] += c[0]
				bl[b.Index][1] += c[1]
			}
		}
		cap2 := func(x int) int {
			if x > 2 && x < inf {
				return 2
			}
			return x
		}
		lo[0], hi[0] = cap2(bl[0][0]), cap2(bl[0][1])
		for it := 0; it < 4*n+8; it++ {
			for _, b := range f.Blocks {
				for _, s := range b.Succs {
					if lo[b.Index] < inf {
						if v := cap2(lo[b.Index] + bl[s.Index][0]); v < lo[s.Index] {
							lo[s.Index] = v
						}
						if v := cap2(hi[b.Index] + bl[s.Index][1]); v > hi[s.Index] {
							hi[s.Index] = v
						}
					}
				}
			}
		}
		res := [2]int{inf, 0}
		for _, r := range Returns(f) {
			i := r.Block().Index
			if lo[i] < res[0] {
				res[0] = lo[i]
			}
			if hi[i] > res[1] {
				res[1] = hi[i]
			}
		}
		if res[0] == inf {
			res[0] = 0
		}
		memo[f] = res
		return res
	}
	r := count(fn)
	return r[0], r[1]
}

// PrecededIn: intraprocedural must-precede.
func (w *World) PrecededIn(in ssa.Instruction, ev Event) bool { return w.precededIn(in, ev) }

// MustHoldLocal: a dominating branch literal of in's own function implies pred.
func (w *World) MustHoldLocal(in ssa.Instruction, pred func(Lit) bool) bool {
	for _, l := range DomLits(in.Block()) {
		if w.Implies(l, pred) {
			return true
		}
	}
	return false
}

// RunsInGoroutine: f (inside or called from root) is only entered through go statements below root.
func (w *World) RunsInGoroutine(f, root *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var chk func(f *ssa.Function) bool
	chk = func(f *ssa.Function) bool {
		if f == root {
			return false
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		sites := w.EntrySites(f)
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			if _, isGo := s.(*ssa.Go); isGo {
				continue
			}
			if mc, ok := s.(*ssa.MakeClosure); ok && onlyGo(mc) {
				continue
			}
			if !chk(s.Parent()) {
				return false
			}
		}
		return true
	}
	return chk(f)
}

func onlyGo(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if g, ok := r.(*ssa.Go); !ok || g.Call.Value != mc {
			return false
		}
	}
	return true
}

// ConstStrings lists the distinct constant strings v can be (nil when some origin is not constant).
func (w *World) ConstStrings(v ssa.Value) []string {
	set := map[string]bool{}
	ok := true
	w.Origins(v, func(o ssa.Value) Step {
		if s, is := ConstString(o); is {
			set[s] = true
			return Stop
		}
		switch o.(type) {
		case *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.Parameter, *ssa.FreeVar, *ssa.UnOp, *ssa.Alloc, *ssa.MakeInterface:
			return Follow
		case *ssa.Call:
			if len(w.callees[o.(*ssa.Call)]) > 0 {
				return Follow
			}
		case *ssa.Global:
			return Follow
		}
		ok = false
		return Stop
	})
	if !ok {
		return nil
	}
	var res []string
	for s := range set {
		res = append(res, s)
	}
	sort.Strings(res)
	return res
}
