package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "W03", Technique: "loop-completeness and order analysis of advice collection and application; abstract evaluation of the advice order on all sign combinations; path analysis of error and change reporting", Run: runAdvice})
}

// isSortOf: in sorts a slice with elements of the given type (module-relative key); returns the slice and the comparator.
func isSortOf(in ssa.Instruction, elem string) (list, cmp ssa.Value) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, nil
	}
	switch eng.Key(ci) {
	case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
	default:
		return nil, nil
	}
	l := eng.Unwrap(ci.Common().Args[0])
	s, ok := l.Type().Underlying().(*types.Slice)
	if !ok || eng.TypeKey(eng.Deref(s.Elem())) != elem {
		return nil, nil
	}
	return l, ci.Common().Args[1]
}

func runAdvice(c *Ctx) {
	w := c.W
	rColl := c.Rule("collected-once", "every advice of every matching aspect is collected exactly once, nothing of other aspects")
	rSort := c.Rule("advice-order", "advice is ordered by namespace, then order, then position in the configuration, all ascending")
	rOrd := c.Rule("order-of-advice", "the namespace and order of an advice are those configured, or the defaults")
	rApply := c.Rule("applied-once", "every collected advice is applied exactly once, in order, after all were collected and sorted")
	rErr := c.Rule("failure-stops-weaving", "a failure to apply advice stops weaving and is returned")
	rMod := c.Rule("modified-reported", "a file is treated as modified when any advice changed it, and only then")
	rSub := c.Rule("substituted", "each modified file, and no other, is compiled in place of the one it was woven from")

	app, _, post, at := c.traversal(rColl)
	if post == nil {
		return
	}
	region := c.Region(post)
	oa := advPkg + ".OrderedAdvice"
	isMatch := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		return ok && call.Call.IsInvoke() && call.Call.Method.Name() == "Matches" && call.Call.Method.Pkg() != nil && strings.HasSuffix(call.Call.Method.Pkg().Path(), joinPkg)
	}
	isNew := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		return ok && eng.TypeKey(eng.Deref(call.Type())) == oa
	}
	advField := rColl.Field("internal/injector/aspect", "Aspect", "Advice")
	if advField == nil {
		return
	}
	// collection
	nColl := 0
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			in := ci.(ssa.Instruction)
			if !isNew(in) {
				continue
			}
			nColl++
			call := in.(*ssa.Call)
			inner := eng.InnermostLoop(call.Block())
			if inner == nil || inner.Over == nil {
				rColl.Bad("advice loop", w.At(in), "the advice of an aspect is not gone through")
				continue
			}
			whole := c.wholeField(inner.Over, advField)
			rColl.Check(whole, "advice of the aspect", w.At(in), "not all of the aspect's advice is gone through")
			isAppend := func(x ssa.Instruction) bool {
				a := builtinCall(x, "append")
				return a != nil && c.derives(a.Call.Args[1], func(o ssa.Value) bool { return o == ssa.Value(call) })
			}
			rColl.Check(inner.Always(isAppend, nil) && inner.Always(func(x ssa.Instruction) bool { return x == in }, nil) && w.EarlyExit(inner, nil) == nil, "every advice", w.At(in), "some advice of a matching aspect is left out")
			rColl.Check(w.MustHoldLocal(in, func(l eng.Lit) bool { return l.Pol && isMatch(l.V) }) || w.MustHold(in, func(l eng.Lit) bool { return l.Pol && isMatch(l.V) }), "matching only", w.At(in), "advice is collected although the join point does not match")
			elem := false
			for _, a := range call.Call.Args {
				elem = elem || inner.IsElem(a) || inner.IsElem(eng.ResolveLocal(a))
			}
			rColl.Check(elem, "advice itself", w.At(in), "what is collected is not the advice gone through")
			c.increasing(rColl, call, inner)
		}
	}
	rColl.Check(nColl > 0, "collection", w.Pos(post.Pos()), "no advice is collected")
	// the aspects loop
	nLoop := 0
	for _, f := range region {
		for _, l := range eng.Loops(f) {
			if l.Over == nil || !aspectList(l.Over.Type()) {
				continue
			}
			nLoop++
			ev := w.LiftEvent(func(in ssa.Instruction) bool {
				for _, m := range eng.Loops(in.Parent()) {
					if m.Over != nil && c.wholeField(m.Over, advField) && headOf(m, in) {
						return true
					}
				}
				return false
			})
			rColl.Check(l.Always(ev, func(x eng.Lit) bool { return !x.Pol && isMatch(x.V) }) && w.EarlyExit(l, nil) == nil, "every aspect", w.Pos(f.Pos()), "the advice of some matching aspect is left out")
			sliced := false
			w.Origins(l.Over, func(o ssa.Value) eng.Step {
				if _, ok := o.(*ssa.Slice); ok {
					sliced = true
				}
				if p, ok := o.(*ssa.Parameter); ok && p.Parent() == app {
					return eng.Stop
				}
				if o.Parent() != nil && !inFuncs(region, o.Parent()) {
					return eng.Stop
				}
				return eng.Follow
			})
			rColl.Check(!sliced, "all aspects", w.Pos(f.Pos()), "only part of the aspects is considered at a node")
		}
	}
	rColl.Check(nLoop > 0, "aspects loop", w.Pos(post.Pos()), "the aspects are not gone through at each node")

	// order
	var sorts []ssa.Instruction
	all := c.Region(append([]*ssa.Function{}, post)...)
	for _, f := range w.Funcs {
		if strings.HasPrefix(eng.PkgOf(f), full(advPkg)) {
			all = append(all, f)
		}
	}
	instrs(all, func(_ *ssa.Function, in ssa.Instruction) {
		if l, cmp := isSortOf(in, oa); l != nil {
			sorts = append(sorts, in)
			part := false
			if _, ok := l.(*ssa.Slice); ok {
				part = true
			}
			rSort.Check(!part, "whole list", w.At(in), "only part of the advice is sorted")
			c.adviceOrder(rSort, in, cmp)
		}
	})
	rSort.Check(len(sorts) > 0, "sorted", w.Pos(post.Pos()), "advice is not sorted")
	c.orderOf(rOrd)

	// application
	sorted := w.LiftEvent(func(in ssa.Instruction) bool { l, _ := isSortOf(in, oa); return l != nil })
	nApply := 0
	var applies []*ssa.Call
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok || !isAdviceApply(ci) {
				continue
			}
			nApply++
			applies = append(applies, call)
			l := eng.InnermostLoop(call.Block())
			recv := call.Call.Value
			if !call.Call.IsInvoke() {
				recv = call.Call.Args[0]
			}
			ok = l != nil && l.Over != nil && c.derives(recv, l.IsElem)
			rApply.Check(ok, "application", w.At(call), "advice is not applied one after the other")
			if !ok {
				continue
			}
			rApply.Check(forward(l), "in order", w.At(call), "advice is not applied in the sorted order")
			rApply.Check(l.Always(func(in ssa.Instruction) bool { return in == ssa.Instruction(call) }, nil) && w.EarlyExit(l, nil) == nil, "every advice", w.At(call), "some of the collected advice is not applied")
			var sl ssa.Value
			for _, s := range sorts {
				x, _ := isSortOf(s, oa)
				sl = x
				if eng.Rel(s.Parent()) == advPkg {
					// a sorting function: its callers' argument
					if p, ok := x.(*ssa.Parameter); ok {
						for _, site := range w.Callers(p.Parent()) {
							for i, q := range p.Parent().Params {
								if q == p {
									sl = eng.ArgOf(site, i)
									_, part := sl.(*ssa.Slice)
									rSort.Check(!part, "whole list given", w.At(site.(ssa.Instruction)), "only part of the advice is sorted")
								}
							}
						}
					}
				}
			}
			same := sl != nil && (sl == l.Over || c.derives(l.Over, func(o ssa.Value) bool { return o == sl }) || c.derives(sl, func(o ssa.Value) bool { return o == l.Over }))
			_, part := l.Over.(*ssa.Slice)
			rApply.Check(same && !part, "what was sorted", w.At(call), "what is applied is not the whole of what was sorted")
			okp, _ := w.MustPrecede(call, sorted, nil)
			rApply.Check(okp, "after sorting", w.At(call), "advice is applied before it was sorted")
			rApply.Check(!eng.CanReach(call, firstOf(l.Header)) || !reachesNew(call, isNew), "after collecting", w.At(call), "advice is applied before all join points were matched against the node")
		}
	}
	rApply.Check(nApply == 1, "application", w.Pos(post.Pos()), "advice is applied at %d places", nApply)
	rApply.Min(5)

	// errors and changes
	for _, call := range applies {
		f := call.Parent()
		run := func(first, later eng.AV) []eng.Outcome {
			ex := &eng.Exploration{W: w, Repeat: true,
				Event: func(in ssa.Instruction) string {
					if in == ssa.Instruction(call) {
						return "applied"
					}
					return ""
				},
				AtomEv: func(x *ssa.Call, happened func(string) bool) (eng.AV, bool) {
					if x != call {
						return eng.AV{}, false
					}
					if happened("applied+") {
						return later, true
					}
					return first, true
				}}
			os := ex.Run(f)
			if ex.Exhausted {
				rErr.Bad("paths", w.At(call), "not all paths could be explored")
			}
			return os
		}
		sig := f.Signature.Results()
		ei := eng.ErrIndex(f.Signature)
		bi := -1
		for i := 0; i < sig.Len(); i++ {
			if b, ok := sig.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				bi = i
			}
		}
		if ei < 0 || bi < 0 || f == post {
			continue // judged at the traversal
		}
		n := 0
		for _, o := range run(tuple(eng.AUnk(), eng.ANonNilV()), tuple(eng.AUnk(), eng.ANilV())) {
			if o.Has("applied") {
				n++
				rErr.Check(!o.Panics && !o.Has("applied+") && o.Rets[ei].K == eng.ANonNil, "failing advice", w.At(call), "a failure to apply advice is not reported, or further advice is applied")
			}
		}
		rErr.Check(n > 0, "failing advice", w.At(call), "cannot tell what happens when advice fails")
		for _, o := range run(tuple(eng.AUnk(), eng.ANilV()), tuple(eng.AUnk(), eng.ANilV())) {
			rErr.Check(!o.Panics && o.Rets[ei].K == eng.ANil, "succeeding advice", w.At(call), "a failure is reported although all advice was applied")
		}
		for _, t := range []struct{ a, b, want bool }{{true, false, true}, {false, true, true}, {false, false, false}, {true, true, true}} {
			for _, o := range run(tuple(eng.ABool(t.a), eng.ANilV()), tuple(eng.ABool(t.b), eng.ANilV())) {
				want := t.want
				switch {
				case !o.Has("applied"):
					want = false
				case !o.Has("applied+"):
					want = t.a
				}
				rMod.Check(!o.Panics && ((want && o.Rets[bi].IsTrue()) || (!want && o.Rets[bi].IsFalse())), "changes of a node", w.At(call), "a change made by one of several advice is not reported, or reported although there was none")
			}
		}
	}
	c.between(rErr, rMod, post, region, applies)
	c.traversalResults(rErr, rMod, app, post, at, applies)
	c.injectResults(rErr, rMod, rSub, app)
	c.adviceReports(rMod)
}

func inFuncs(fs []*ssa.Function, f *ssa.Function) bool {
	for _, g := range fs {
		if g == f {
			return true
		}
	}
	return false
}

func firstOf(b *ssa.BasicBlock) ssa.Instruction { return b.Instrs[0] }

// reachesNew: after in, further advice can be collected in the same function.
func reachesNew(in ssa.Instruction, isNew func(ssa.Instruction) bool) bool {
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if isNew(x) && eng.CanReach(in, x) {
				return true
			}
		}
	}
	return false
}

// wholeField: v is the complete contents of a field (not a part of it).
func (c *Ctx) wholeField(v ssa.Value, fv *types.Var) bool {
	if isFieldVal(v, fv) {
		return true
	}
	part, hit := false, false
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		if _, ok := o.(*ssa.Slice); ok {
			part = true
		}
		if isField(o, fv) {
			hit = true
			return eng.Stop
		}
		return eng.Follow
	})
	return hit && !part
}

// increasing: the position given to collected advice grows with each one.
func (c *Ctx) increasing(r *R, call *ssa.Call, inner *eng.Loop) {
	var idx ssa.Value
	for _, a := range call.Call.Args {
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			idx = a
		}
	}
	if idx == nil {
		r.Bad("position", c.W.At(call), "collected advice is not given a position")
		return
	}
	if b, ok := idx.(*ssa.Call); ok && builtinCall(b, "len") != nil {
		// the length of the list it is added to
		ok := false
		for blk := range inner.Blocks {
			for _, in := range blk.Instrs {
				if a := builtinCall(in, "append"); a != nil && a.Call.Args[0] == b.Call.Args[0] {
					ok = true
				}
			}
		}
		r.Check(ok, "position", c.W.At(call), "the position of collected advice does not grow")
		return
	}
	outer := inner
	for _, l := range eng.Loops(call.Parent()) {
		if l.Blocks[inner.Header] && len(l.Blocks) > len(outer.Blocks) {
			outer = l
		}
	}
	good := true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, grown bool)
	walk = func(v ssa.Value, grown bool) {
		if seen[v] {
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			seen[v] = true
			for i, e := range x.Edges {
				p := x.Block().Preds[i]
				if _, isC := eng.ConstInt(e); isC {
					if outer.Blocks[p] {
						good = false // starts over
					}
					continue
				}
				if x.Block() == inner.Header && inner.Blocks[p] && !grows(e, inner, map[ssa.Value]bool{}) {
					good = false
				}
				walk(e, false)
			}
		case *ssa.BinOp:
			seen[v] = true
			n, isC := eng.ConstInt(x.Y)
			if x.Op != token.ADD || !isC || n <= 0 {
				good = false
				return
			}
			walk(x.X, true)
		case *ssa.Parameter:
			seen[v] = true
			for _, s := range c.W.Callers(x.Parent()) {
				for i, q := range x.Parent().Params {
					if q == x {
						walk(eng.ArgOf(s, i), false)
					}
				}
			}
		case *ssa.Const:
		default:
			good = false
		}
	}
	walk(idx, false)
	r.Check(good, "position", c.W.At(call), "the position of collected advice does not grow")
}

// grows: v was incremented on every way around the loop.
func grows(v ssa.Value, l *eng.Loop, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		n, ok := eng.ConstInt(x.Y)
		return x.Op == token.ADD && ok && n > 0
	case *ssa.Phi:
		if x.Block() == l.Header {
			return false
		}
		for _, e := range x.Edges {
			if !grows(e, l, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// adviceOrder evaluates the comparator on every combination of the keys' order.
func (c *Ctx) adviceOrder(r *R, at ssa.Instruction, cmp ssa.Value) {
	w := c.W
	fs := c.funcsOf(cmp)
	if len(fs) != 1 {
		r.Bad("comparator", w.At(at), "cannot tell how advice is compared")
		return
	}
	f := fs[0]
	less := boolResult(f)
	stable := strings.Contains(eng.Key(at.(ssa.CallInstruction)), "Stable")
	ns := r.Field(advPkg, "OrderedAdvice", "namespace")
	ord := r.Field(advPkg, "OrderedAdvice", "order")
	idx := r.Field(advPkg, "OrderedAdvice", "Index")
	// side: which of the two compared elements a field is read from
	var side func(v ssa.Value, d int) int
	side = func(v ssa.Value, d int) int {
		if d > 8 {
			return -1
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			if x.Parent() == f {
				for i, p := range f.Params {
					if p == x {
						return i
					}
				}
			}
			// a helper of the comparator
			res := -1
			for _, s := range w.Callers(x.Parent()) {
				for i, p := range x.Parent().Params {
					if p == x {
						k := side(eng.ArgOf(s, i), d+1)
						if res >= 0 && k != res {
							return -1
						}
						res = k
					}
				}
			}
			return res
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return side(x.X, d+1)
			}
		case *ssa.IndexAddr:
			return side(x.Index, d+1)
		case *ssa.Alloc:
			k := -1
			for _, rr := range *x.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == v {
					k = side(s.Val, d+1)
				}
			}
			return k
		}
		return -1
	}
	vals := []string{"a", "b"}
	for _, n := range []int{-1, 0, 1} {
		for _, o := range []int{-1, 0, 1} {
			for _, i := range []int{-1, 1} {
				rel := map[*types.Var]int{ns: n, ord: o, idx: i}
				atom := func(v ssa.Value) (eng.AV, bool) {
					fv := fieldOfLoad(v)
					k, ok := rel[fv]
					if fv == nil || !ok {
						return eng.AV{}, false
					}
					base := baseOfField(v)
					s := side(base, 0)
					if s < 0 || s > 1 {
						return eng.AUnk(), true
					}
					// element 0 has the smaller value when k < 0
					hi := (s == 1 && k < 0) || (s == 0 && k > 0)
					if fv == ns {
						if hi {
							return eng.AStr(vals[1]), true
						}
						return eng.AStr(vals[0]), true
					}
					if hi {
						return eng.AInt(9), true
					}
					return eng.AInt(4), true
				}
				want := i
				if o != 0 {
					want = o
				}
				if n != 0 {
					want = n
				}
				ex := &eng.Exploration{W: w, Atom: atom}
				outs := ex.Run(f)
				good := len(outs) > 0 && !ex.Exhausted
				for _, out := range outs {
					switch {
					case out.Panics:
						good = false
					case less:
						tie := n == 0 && o == 0 && stable && out.Rets[0].IsFalse()
						good = good && (tie || (want < 0 && out.Rets[0].IsTrue()) || (want > 0 && out.Rets[0].IsFalse()))
					default:
						k, ok := out.Rets[0].Int()
						tie := n == 0 && o == 0 && stable && k == 0 // the list is in order of position already
						good = good && ok && (tie || ((k < 0) == (want < 0)) && ((k > 0) == (want > 0)))
					}
				}
				sg := func(k int) string { return []string{"<", "=", ">"}[k+1] }
				r.Check(good, "namespace"+sg(n)+" order"+sg(o)+" position"+sg(i), w.Pos(f.Pos()), "advice is not ordered by namespace, then order, then position, ascending")
			}
		}
	}
}

func baseOfField(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	case *ssa.Field:
		return x.X
	}
	return nil
}

// orderOf: where the namespace and order of an advice come from.
func (c *Ctx) orderOf(r *R) {
	w := c.W
	ns := r.Field(advPkg, "OrderedAdvice", "namespace")
	ord := r.Field(advPkg, "OrderedAdvice", "order")
	idx := r.Field(advPkg, "OrderedAdvice", "Index")
	if ns == nil || ord == nil || idx == nil {
		return
	}
	scope := w.Pkg(advPkg).Types.Scope()
	defNS, defOrd := "", int64(0)
	if k, ok := scope.Lookup("DefaultNamespace").(*types.Const); ok {
		defNS, _ = constStr(k)
	} else {
		r.Bad("default namespace", "-", "not found")
	}
	if k, ok := scope.Lookup("DefaultOrder").(*types.Const); ok {
		defOrd, _ = constInt(k)
	} else {
		r.Bad("default order", "-", "not found")
	}
	r.Check(defNS != "" && defNS >= "\U0010ffff", "default namespace is last", "-", "the default namespace %q is not the last one", defNS)
	ctors := map[*ssa.Function]bool{}
	for _, fv := range []*types.Var{ns, ord, idx} {
		for _, s := range w.FieldStores(fv) {
			ctors[s.Instr.Parent()] = true
		}
	}
	for _, f := range w.Funcs {
		if !ctors[f] {
			continue
		}
		for _, orderable := range []bool{true, false} {
			var bad string
			seen := false
			ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
				switch x := v.(type) {
				case *ssa.TypeAssert:
					if eng.TypeKey(x.AssertedType) == advPkg+".OrderableAdvice" && x.CommaOk {
						if orderable {
							return tuple(eng.ANonNilV(), eng.ABool(true)), true
						}
						return tuple(eng.ANilV(), eng.ABool(false)), true
					}
				case *ssa.Call:
					if x.Call.IsInvoke() {
						switch x.Call.Method.Name() {
						case "Order":
							return eng.AInt(42), true
						case "Namespace":
							return eng.AStr("its own"), true
						}
					}
				case *ssa.Parameter:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
						return eng.AInt(17), true
					}
				}
				return eng.AV{}, false
			}}
			ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				if _, ok := in.(*ssa.Return); !ok {
					return false
				}
				got := map[*types.Var]eng.AV{}
				instrs([]*ssa.Function{f}, func(_ *ssa.Function, y ssa.Instruction) {
					if fa, ok := y.(*ssa.FieldAddr); ok {
						fv := eng.FieldVar(fa)
						if a := eval(fa); a.K == eng.AConst && (fv == ns || fv == ord || fv == idx) {
							got[fv] = a
						}
					}
				})
				seen = true
				wantNS, wantOrd := eng.AStr(defNS), eng.AInt(defOrd)
				if orderable {
					wantNS, wantOrd = eng.AStr("its own"), eng.AInt(42)
				}
				if got[ns].String() != wantNS.String() {
					bad = "namespace " + got[ns].String()
				}
				if got[ord].String() != wantOrd.String() && !(defOrd == 0 && !orderable && got[ord].K == eng.AUnknown) {
					bad = "order " + got[ord].String()
				}
				if got[idx].String() != "17" {
					bad = "position " + got[idx].String()
				}
				return false
			}
			ex.Run(f)
			what := "advice without an order"
			if orderable {
				what = "advice with an order"
			}
			r.Check(seen && bad == "", short(f)+" "+what, w.Pos(f.Pos()), "%s does not get its namespace, order and position: %s", what, bad)
		}
	}
	r.Min(3)
	// the advice kinds with an order
	n := 0
	for _, t := range w.NamedTypes() {
		if eng.TypeKey(t) == advPkg+".OrderableAdvice" || types.IsInterface(t) {
			continue
		}
		om := methodOf(w, t, "Order")
		nm := methodOf(w, t, "Namespace")
		if om == nil || nm == nil || methodOf(w, t, "Apply") == nil {
			continue
		}
		if eng.TypeKey(t) == advPkg+".OrderedAdvice" {
			continue
		}
		n++
		var ofld, nfld *types.Var
		for _, ret := range eng.Returns(om) {
			ofld = fieldOfLoad(ret.Results[0])
		}
		for _, ret := range eng.Returns(nm) {
			nfld = fieldOfLoad(ret.Results[0])
		}
		r.Check(ofld != nil && nfld != nil, eng.TypeKey(t), w.Pos(om.Pos()), "the order of %s is not the one it was made with", eng.TypeKey(t))
		if ofld == nil || nfld == nil {
			continue
		}
		// constructed from the parameter or the configured value of that name
		for _, fv := range []*types.Var{ofld, nfld} {
			for _, s := range w.FieldStores(fv) {
				good := c.namedSource(s.Val, fv.Name())
				r.Check(good, short(s.Instr.Parent())+" "+fv.Name(), w.At(s.Instr), "the %s of %s is not the configured one", fv.Name(), eng.TypeKey(t))
			}
		}
	}
	r.Check(n > 0, "orderable advice", "-", "no advice has an order")
}

// namedSource: v comes from constants, parameters or fields which carry the given name.
func (c *Ctx) namedSource(v ssa.Value, name string) bool {
	ok, any := true, false
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		switch x := o.(type) {
		case *ssa.Const:
			any = true
		case *ssa.Parameter:
			any = true
			if !strings.Contains(strings.ToLower(x.Name()), strings.ToLower(name)) && len(c.W.Callers(x.Parent())) == 0 {
				sameType := 0
				for _, p := range x.Parent().Params {
					if types.Identical(p.Type(), x.Type()) {
						sameType++
					}
				}
				ok = ok && sameType == 1
			}
			return eng.Follow
		case *ssa.FieldAddr, *ssa.Field:
			any = true
			ok = ok && strings.EqualFold(eng.FieldVar(x).Name(), name)
			return eng.Stop
		}
		return eng.Follow
	})
	return ok && any
}

// fromCall: v is (one of) the results of call.
func fromCall(v ssa.Value, call *ssa.Call) bool {
	v = eng.ResolveLocal(v)
	if ex, ok := v.(*ssa.Extract); ok {
		return ex.Tuple == ssa.Value(call)
	}
	return v == ssa.Value(call)
}

func methodOf(w *eng.World, t *types.Named, name string) *ssa.Function {
	f := w.Func(strings.TrimPrefix(t.Obj().Pkg().Path(), eng.ModPath+"/"), t.Obj().Name()+"."+name)
	if f == nil || f.Blocks == nil {
		return nil
	}
	return f
}

// traversalResults: what the traversal makes of a node's outcome.
func (c *Ctx) traversalResults(rErr, rMod *R, app, post *ssa.Function, at ssa.Instruction, applies []*ssa.Call) {
	w := c.W
	// the call in post whose outcome tells what happened at the node
	isNode := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if !ok || call.Parent() != post {
			return false
		}
		g := call.Call.StaticCallee()
		for _, a := range applies {
			if a == call || (g != nil && (a.Parent() == g || reaches(w, g, a.Parent()))) {
				return true
			}
		}
		return false
	}
	var node *ssa.Call
	for _, ci := range eng.Calls(post) {
		if call, ok := ci.(*ssa.Call); ok && isNode(call) {
			node = call
		}
	}
	if node == nil {
		rErr.Bad("node outcome", w.Pos(post.Pos()), "cannot tell what the traversal makes of a failure")
		return
	}
	// captured variables holding the failure and the change
	var errVar, modVar ssa.Value
	for _, b := range post.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fv, ok := s.Addr.(*ssa.FreeVar)
			if !ok {
				continue
			}
			switch {
			case eng.IsErrorType(eng.Deref(fv.Type())) && fromCall(s.Val, node):
				errVar = fv
			case eng.IsErrorType(eng.Deref(fv.Type())):
			default:
				if b, ok := eng.Deref(fv.Type()).Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					modVar = fv
				}
			}
		}
	}
	rErr.Check(errVar != nil, "failure kept", w.Pos(post.Pos()), "a failure at a node is not kept")
	rMod.Check(modVar != nil, "change kept", w.Pos(post.Pos()), "a change at a node is not kept")
	if errVar == nil || modVar == nil {
		return
	}
	for _, fail := range []bool{true, false} {
		for _, before := range []bool{true, false} {
			for _, changed := range []bool{true, false} {
				ev := eng.ANilV()
				if fail {
					ev = eng.ANonNilV()
				}
				bad, keep := "", ""
				seen := false
				ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
					if v == ssa.Value(node) {
						return tuple(eng.ABool(changed), ev), true
					}
					return eng.AV{}, false
				}}
				ex.At = func(in ssa.Instruction, mem func(ssa.Value) eng.AV) bool {
					if _, ok := in.(*ssa.Return); !ok || in.Parent() != post {
						return false
					}
					seen = true
					if m := mem(modVar); !fail && ((before || changed) && !m.IsTrue() || !(before || changed) && !m.IsFalse()) {
						keep = "the file's modification is not tracked: " + m.String()
					}
					if m := mem(errVar); fail && m.K != eng.ANonNil {
						bad = "the failure is not kept"
					}
					return false
				}
				ex.Mem = map[ssa.Value]eng.AV{modVar: eng.ABool(before), errVar: eng.ANilV()}
				for _, o := range ex.Run(post) {
					if o.Panics {
						continue
					}
					if fail && !o.Rets[0].IsFalse() {
						bad = "the traversal goes on after a failure"
					}
					if !fail && !o.Rets[0].IsTrue() {
						bad = "the traversal stops without a failure"
					}
				}
				name := map[bool]string{true: "failing node", false: "succeeding node"}[fail]
				rErr.Check(seen && bad == "", name, w.At(node), "%s", bad)
				if !fail {
					rMod.Check(seen && keep == "", "modified so far", w.At(node), "%s", keep)
				}
			}
		}
	}
	// the function running the traversal
	binding := func(fv ssa.Value) ssa.Value {
		for _, mc := range w.ClosureSites(post) {
			for i, q := range post.FreeVars {
				if ssa.Value(q) == fv {
					return mc.Bindings[i]
				}
			}
		}
		return nil
	}
	errCell, modCell := binding(errVar), binding(modVar)
	if errCell == nil || modCell == nil || at.Parent() != app {
		rErr.Bad("traversal outcome", w.At(at), "cannot tell what is made of a failing traversal")
		return
	}
	modField := c.W.Field(injPkg, "result", "Modified")
	rMod.Check(modField != nil, "anchor result.Modified", "-", "field not found")
	isSynth := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		return ok && eng.MKey(call) == "internal/injector/typed.ReferenceMap.AddSyntheticImports"
	}
	for _, fail := range []bool{true, false} {
		for _, mod := range []bool{true, false} {
			for _, synth := range []bool{true, false} {
				cells := map[ssa.Value]eng.AV{modCell: eng.ABool(mod), errCell: eng.ANilV()}
				if fail {
					cells[errCell] = eng.ANonNilV()
				}
				bad := ""
				ex := &eng.Exploration{W: w}
				ex.Atom = func(v ssa.Value) (eng.AV, bool) {
					if isSynth(v) {
						return eng.ABool(synth), true
					}
					return eng.AV{}, false
				}
				ex.SetAfter = func(in ssa.Instruction) map[ssa.Value]eng.AV {
					if in == at {
						return cells
					}
					return nil
				}
				ex.Event = func(in ssa.Instruction) string {
					if v, ok := in.(ssa.Value); ok && isSynth(v) {
						return "synthetic"
					}
					return ""
				}
				got := eng.AUnk()
				n := 0
				ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
					if _, ok := in.(*ssa.Return); ok && in.Parent() == app {
						n++
						got = eng.AUnk()
						instrs([]*ssa.Function{app}, func(_ *ssa.Function, y ssa.Instruction) {
							if fa, ok := y.(*ssa.FieldAddr); ok && eng.FieldVar(fa) == modField {
								if a := eval(fa); a.K == eng.AConst {
									got = a
								}
							}
						})
						want := mod || synth
						if !fail && !(want && got.IsTrue() || !want && got.IsFalse()) {
							bad = "a modified file is not reported as such (or the reverse)"
						}
					}
					return false
				}
				for _, o := range ex.Run(app) {
					if o.Panics {
						continue
					}
					ei := eng.ErrIndex(app.Signature)
					if fail {
						rErr.Check(o.Rets[ei].K == eng.ANonNil, "failed traversal", w.At(at), "a failure during the traversal is not reported")
					} else {
						rErr.Check(o.Rets[ei].K == eng.ANil, "finished traversal", w.At(at), "a failure is reported although there was none")
						rMod.Check(o.Has("synthetic"), "synthetic imports", w.At(at), "the imports needed by injected code are not added")
					}
				}
				rMod.Check(bad == "" && n > 0, "modified file", w.At(at), "%s", bad)
			}
		}
	}
}

// injectResults: what becomes of each file's outcome.
func (c *Ctx) injectResults(rErr, rMod, rSub *R, app *ssa.Function) {
	w := c.W
	inj := rSub.Fn(injPkg, "Injector.InjectFiles")
	oc := rSub.Fn(weavePkg, "Weaver.OnCompile")
	nameF := rSub.Field("internal/injector/parse", "File", "Name")
	if inj == nil || oc == nil || nameF == nil {
		return
	}
	// the per-file call
	var calls []*ssa.Call
	for _, f := range c.Region(inj) {
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || eng.ErrIndex(g.Signature) < 0 {
				continue
			}
			if g == app || (reaches(w, g, app) && eng.PkgOf(g) == eng.PkgOf(inj)) {
				calls = append(calls, call)
			}
		}
	}
	rErr.Check(len(calls) > 0, "weaving of a file", w.Pos(inj.Pos()), "no file is woven")
	modField := w.Field(injPkg, "result", "Modified")
	for _, call := range calls {
		f := call.Parent()
		// failures are returned, or collected into the list which is joined
		if eng.ErrIndex(f.Signature) >= 0 {
			fate, exit := w.Fate(call)
			rErr.Check(fate == eng.ErrPropagated || returnsCall(call), "failure of "+short(call.Call.StaticCallee()), w.At(call), "a failure to weave a file is ignored (%s)", atOr(w, exit))
			continue
		}
		isRec := func(in ssa.Instruction) bool { return isMapUpdateOf(in, injPkg+".InjectedFile") }
		for _, fail := range []bool{true, false} {
			for _, mod := range []bool{true, false} {
				ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
					if v == ssa.Value(call) {
						if fail {
							return tuple(eng.AUnk(), eng.ANonNilV()), true
						}
						return tuple(eng.AUnk(), eng.ANilV()), true
					}
					if fieldOfLoad(v) == modField && modField != nil {
						return eng.ABool(mod), true
					}
					return eng.AV{}, false
				}, Event: func(in ssa.Instruction) string {
					switch {
					case in == ssa.Instruction(call):
						return "woven"
					case isRec(in):
						return "recorded"
					case collectsErr(in):
						return "failure"
					}
					return ""
				}}
				for _, o := range ex.Run(f) {
					if !o.Has("woven") {
						if !o.Panics {
							rErr.Check(o.Has("failure"), "file not woven", w.At(call), "a file is neither woven nor is a failure reported")
						}
						continue
					}
					if fail {
						rErr.Check(o.Has("failure") && !o.Has("recorded"), "failed file", w.At(call), "a failure to weave a file is not collected, or its result is used")
					} else {
						rErr.Check(!o.Has("failure"), "woven file", w.At(call), "a failure is reported for a file woven successfully")
						rMod.Check(o.Has("recorded") == mod, "file recorded", w.At(call), "a modified file is not recorded, or an unmodified one is")
					}
				}
			}
		}
	}
	c.collectedFailures(rErr, inj)
	c.writtenWhenModified(rSub, app, modField)

	// keyed by the file it was woven from
	for _, f := range c.Region(inj) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isMapUpdateOf(in, injPkg+".InjectedFile") {
				return
			}
			rSub.Check(isFieldVal(mu.Key, nameF) || c.derivesField(mu.Key, nameF), "keyed by the original", w.At(in), "a woven file is not associated with the file it was woven from")
		})
	}
	// substituted
	fileF := rSub.Field(injPkg, "InjectedFile", "Filename")
	n := 0
	for _, f := range c.Region(oc) {
		for _, ci := range w.CallsTo([]*ssa.Function{f}, "internal/toolexec/proxy.command.ReplaceParam", "internal/toolexec/proxy.CompileCommand.ReplaceParam", "internal/toolexec/proxy.Command.ReplaceParam") {
			args := ci.Common().Args
			l := eng.InnermostLoop(ci.Block())
			if l == nil || l.Over == nil || !isMapTo(l.Over.Type(), injPkg+".InjectedFile") {
				continue
			}
			n++
			rSub.Check(l.IsKey(args[len(args)-2]) && fieldOfLoad(args[len(args)-1]) == fileF, "substitution", w.At(ci.(ssa.Instruction)), "the woven file is not compiled in place of the one it was woven from")
			rSub.Check(l.Always(func(in ssa.Instruction) bool { return in == ci.(ssa.Instruction) }, nil) && w.EarlyExit(l, nil) == nil, "every woven file", w.At(ci.(ssa.Instruction)), "some woven file is not compiled")
			fate, _ := w.Fate(ci)
			rSub.Check(fate == eng.ErrPropagated, "failure to substitute", w.At(ci.(ssa.Instruction)), "a failure to substitute a woven file is ignored")
			sl := c.derives(l.Over, func(o ssa.Value) bool {
				call, ok := o.(*ssa.Call)
				if ex, isEx := o.(*ssa.Extract); isEx {
					call, ok = ex.Tuple.(*ssa.Call)
				}
				return ok && eng.MKey(call) == injPkg+".Injector.InjectFiles"
			})
			rSub.Check(sl, "woven files", w.At(ci.(ssa.Instruction)), "the files substituted are not those woven")
		}
	}
	rSub.Check(n > 0, "substitution", w.Pos(oc.Pos()), "woven files are not compiled")
}

func reaches(w *eng.World, from, to *ssa.Function) bool {
	return w.Reachable(from)[to]
}

func isMapTo(t types.Type, key string) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && eng.TypeKey(m.Elem()) == key
}

func isMapUpdateOf(in ssa.Instruction, key string) bool {
	mu, ok := in.(*ssa.MapUpdate)
	return ok && isMapTo(mu.Map.Type(), key)
}

// collectsErr: in appends to a list of errors, or sends one on a channel.
func collectsErr(in ssa.Instruction) bool {
	if a := builtinCall(in, "append"); a != nil {
		if s, ok := a.Type().Underlying().(*types.Slice); ok {
			return eng.IsErrorType(s.Elem())
		}
	}
	if s, ok := in.(*ssa.Send); ok {
		return eng.IsErrorType(s.X.Type())
	}
	if s, ok := in.(*ssa.Store); ok {
		if call, ok := s.Val.(*ssa.Call); ok && eng.Key(call) == "errors.Join" {
			return true
		}
	}
	return false
}

// adviceReports: an advice that changed something says so.
func (c *Ctx) adviceReports(r *R) {
	w := c.W
	n := 0
	for _, t := range w.NamedTypes() {
		f := methodOf(w, t, "Apply")
		if f == nil || !strings.HasPrefix(eng.PkgOf(f), full(advPkg)) || types.IsInterface(t) || f.Signature.Results().Len() != 2 {
			continue
		}
		if f.Synthetic != "" {
			continue
		}
		n++
		ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
			call, ok := v.(*ssa.Call)
			if ok && call.Call.IsInvoke() && call.Call.Method.Name() == "AddImport" {
				return eng.AUnk(), true
			}
			return eng.AV{}, false
		}, Event: func(in ssa.Instruction) string {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && dstField(fa) && !localNode(fa.X) {
					return "changed"
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && c.derives(ia.X, func(o ssa.Value) bool { fa, ok := o.(*ssa.FieldAddr); return ok && dstField(fa) && !localNode(fa.X) }) {
					return "changed"
				}
			case *ssa.Call:
				if x.Call.IsInvoke() && (x.Call.Method.Name() == "ReplaceNode" || x.Call.Method.Name() == "AddLink") {
					return "changed"
				}
			}
			return ""
		}}
		for _, o := range ex.Run(f) {
			if o.Panics || !o.Has("changed") {
				continue
			}
			r.Check(o.Rets[0].IsTrue() || o.Rets[1].K == eng.ANonNil, "change by "+eng.TypeKey(t), w.Pos(f.Pos()), "%s changes the node without reporting it", eng.TypeKey(t))
		}
		r.Check(!ex.Exhausted, "paths of "+eng.TypeKey(t), w.Pos(f.Pos()), "not all paths could be explored")
	}
	r.Check(n >= 7, "advice kinds", "-", "only %d kinds of advice found", n)
}

func dstField(fa *ssa.FieldAddr) bool {
	n := eng.NamedOf(eng.Deref(fa.X.Type()))
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/dave/dst"
}

// localNode: a node made here.
func localNode(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localNode(x.X)
	}
	return false
}

// collectedFailures: what was collected while weaving the files is returned.
func (c *Ctx) collectedFailures(r *R, inj *ssa.Function) {
	w := c.W
	n := 0
	for _, f := range c.Region(inj) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			app, isCall := s.Val.(*ssa.Call)
			if !isCall || !(collectsErr(app) || collectsErr(s)) {
				return
			}
			fv, ok := s.Addr.(*ssa.FreeVar)
			if !ok {
				return
			}
			var cell ssa.Value
			var spawn ssa.Instruction
			for _, mc := range w.ClosureSites(f) {
				for i, q := range f.FreeVars {
					if q == fv {
						cell = mc.Bindings[i]
					}
				}
				spawn = mc
			}
			if cell == nil || spawn == nil || spawn.Parent() != inj {
				return
			}
			n++
			for _, ret := range eng.Returns(inj) {
				if !eng.CanReach(spawn, ret) {
					continue
				}
				v := ret.Results[eng.ErrIndex(inj.Signature)]
				good := c.derives(v, func(o ssa.Value) bool {
					call, ok := o.(*ssa.Call)
					if !ok || len(call.Call.Args) == 0 {
						return false
					}
					return c.derives(call.Call.Args[len(call.Call.Args)-1], func(x ssa.Value) bool { return loadsCell(x, cell) })
				}) || c.derives(v, func(x ssa.Value) bool { return loadsCell(x, cell) })
				r.Check(good, "collected failures", w.At(ret), "the failures to weave files are not returned")
			}
		})
	}
	r.Check(n > 0, "collecting failures", w.Pos(inj.Pos()), "the failures to weave files are not collected")
}

func loadsCell(v, cell ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return v == cell || ok && u.Op == token.MUL && u.X == cell
}

// writtenWhenModified: the outcome of weaving a modified file is the file written for it.
func (c *Ctx) writtenWhenModified(r *R, app *ssa.Function, modField *types.Var) {
	w := c.W
	if modField == nil {
		return
	}
	n := 0
	for _, site := range w.Callers(app) {
		call, ok := site.(*ssa.Call)
		if !ok || eng.ErrIndex(call.Parent().Signature) < 0 {
			continue
		}
		f := call.Parent()
		n++
		writes := func(v ssa.Value) bool {
			x, ok := v.(*ssa.Call)
			if !ok || x == call {
				return false
			}
			g := x.Call.StaticCallee()
			if g == nil || eng.ErrIndex(g.Signature) < 0 {
				return eng.Key(x) == "os.WriteFile"
			}
			return eng.Key(x) == "os.WriteFile" || c.reachesCall(g, "os.WriteFile")
		}
		for _, mod := range []bool{true, false} {
			for _, fail := range []bool{true, false} {
				ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
					if v == ssa.Value(call) {
						return tuple(eng.AUnk(), eng.ANilV()), true
					}
					if fieldOfLoad(v) == modField {
						return eng.ABool(mod), true
					}
					if writes(v) {
						e := eng.ANilV()
						if fail {
							e = eng.ANonNilV()
						}
						if t, ok := v.Type().(*types.Tuple); ok {
							var vs []eng.AV
							for i := 0; i < t.Len()-1; i++ {
								vs = append(vs, eng.AUnk())
							}
							return tuple(append(vs, e)...), true
						}
						return e, true
					}
					return eng.AV{}, false
				}, Event: func(in ssa.Instruction) string {
					if v, ok := in.(ssa.Value); ok && writes(v) {
						return "written"
					}
					return ""
				}}
				for _, o := range ex.Run(f) {
					if o.Panics {
						continue
					}
					e := o.Rets[eng.ErrIndex(f.Signature)]
					if !mod {
						r.Check(!o.Has("written") && e.K == eng.ANil, "unmodified file", w.At(call), "an unmodified file is written, or fails")
						continue
					}
					r.Check(o.Has("written"), "modified file written", w.At(call), "a modified file is not written")
					if fail {
						r.Check(e.K == eng.ANonNil, "failure to write", w.At(call), "a failure to write a woven file is not reported")
					} else {
						r.Check(e.K == eng.ANil, "written file", w.At(call), "a failure is reported for a written file")
					}
				}
			}
		}
		// the name of the written file is what is reported
		nameF := r.Field(injPkg, "InjectedFile", "Filename")
		good := false
		for _, st := range w.FieldStores(nameF) {
			if st.Instr.Parent() == f && c.derives(st.Val, func(o ssa.Value) bool {
				if ex, ok := o.(*ssa.Extract); ok {
					o = ex.Tuple
				}
				return writes(o)
			}) {
				good = true
			}
		}
		r.Check(good, "name of the woven file", w.At(call), "the file reported as woven is not the one written")
	}
	r.Check(n > 0, "weaving of a file", w.Pos(app.Pos()), "no file is woven")
}

// reachesCall: g may call a function with the given key.
func (c *Ctx) reachesCall(g *ssa.Function, key string) bool {
	for f := range c.W.Reachable(g) {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) == key {
				return true
			}
		}
	}
	return false
}

// between: functions between the traversal and the application hand on what the latter reports.
func (c *Ctx) between(rErr, rMod *R, post *ssa.Function, region []*ssa.Function, applies []*ssa.Call) {
	w := c.W
	for _, f := range region {
		if f == post {
			continue
		}
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				continue
			}
			g := call.Call.StaticCallee()
			hit := false
			for _, a := range applies {
				hit = hit || a != call && reaches(w, g, a.Parent())
			}
			rs := f.Signature.Results()
			if !hit || rs.Len() != 2 || !types.Identical(rs, g.Signature.Results()) {
				if hit {
					rErr.Bad("outcome of "+short(g), w.At(call), "cannot tell what is made of a failure")
				}
				continue
			}
			for _, fail := range []bool{true, false} {
				for _, changed := range []bool{true, false} {
					ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
						if v != ssa.Value(call) {
							return eng.AV{}, false
						}
						if fail {
							return tuple(eng.ABool(changed), eng.ANonNilV()), true
						}
						return tuple(eng.ABool(changed), eng.ANilV()), true
					}, Event: func(in ssa.Instruction) string {
						if in == ssa.Instruction(call) {
							return "called"
						}
						return ""
					}}
					for _, o := range ex.Run(f) {
						if o.Panics {
							continue
						}
						want := changed && o.Has("called")
						rErr.Check((o.Rets[1].K == eng.ANonNil) == (fail && o.Has("called")), "outcome of "+short(g), w.At(call), "a failure to apply advice is not handed on")
						rMod.Check(fail && o.Has("called") || want && o.Rets[0].IsTrue() || !want && o.Rets[0].IsFalse(), "change by "+short(g), w.At(call), "a change is not handed on")
					}
				}
			}
		}
	}
}
