package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "W07", Technique: "ownership (typestate) analysis of pooled objects, field-by-field provenance of derived contexts, and abstract interpretation of the traversal's callbacks", Run: runPools})
}

// pools knows the functions handing out and taking back pooled objects.
type pools struct {
	c *Ctx
	// release maps a function to the index of the parameter it puts in a pool.
	release map[*ssa.Function]int
	// acquire: the result of the function comes from a pool.
	acquire map[*ssa.Function]bool
	gets    []*ssa.Call
	puts    []ssa.CallInstruction
}

// runPools decides W07.
func runPools(c *Ctx) {
	rClean := c.Rule("W07.clean", "an object taken from a pool carries nothing over from its previous use")
	rOwn := c.Rule("W07.owned", "only what a function acquired itself is given back, once, and it is not used afterwards")
	rKept := c.Rule("W07.kept", "no configuration object or global variable can hold on to a context")
	rDer := c.Rule("W07.derived", "a context made from another one has the same properties, except for its place in the tree")
	rChain := c.Rule("W07.chain", "the chain of nodes follows the traversal: one link is pushed for each node entered, and popped when it is left; the first one has the root configuration")

	p := c.findPools()
	c.Count("pool gets", len(p.gets))
	c.Count("pool puts", len(p.puts))
	c.poolsClean(rClean, p)
	c.poolsOwned(rOwn, p)
	c.contextsNotKept(rKept)
	c.contextsDerived(rDer, p)
	c.chainFollows(rChain)
}

func (c *Ctx) findPools() *pools {
	p := &pools{c: c, release: map[*ssa.Function]int{}, acquire: map[*ssa.Function]bool{}}
	fns := c.W.Funcs
	for _, f := range fns {
		for _, ci := range eng.Calls(f) {
			switch eng.Key(ci) {
			case "sync.Pool.Get":
				if call, ok := ci.(*ssa.Call); ok {
					p.gets = append(p.gets, call)
				}
			case "sync.Pool.Put":
				p.puts = append(p.puts, ci)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if _, done := p.release[f]; !done {
				for _, ci := range eng.Calls(f) {
					v := p.released(ci)
					if v == nil {
						continue
					}
					if prm, ok := p.root(v).(*ssa.Parameter); ok && prm.Parent() == f {
						for i, q := range f.Params {
							if q == prm {
								p.release[f] = i
								changed = true
							}
						}
					}
				}
			}
			if !p.acquire[f] {
				for _, rt := range eng.Returns(f) {
					for _, res := range rt.Results {
						if p.acquired(p.root(res)) {
							p.acquire[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return p
}

// acquired: the value is a fresh object out of a pool.
func (p *pools) acquired(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if eng.Key(call) == "sync.Pool.Get" {
		return true
	}
	cs := p.c.W.Callees(call)
	for _, g := range cs {
		if !p.acquire[g] {
			return false
		}
	}
	return len(cs) > 0
}

// released is the object the call gives back (nil when it is no such call).
func (p *pools) released(ci ssa.CallInstruction) ssa.Value {
	com := ci.Common()
	if eng.Key(ci) == "sync.Pool.Put" {
		return com.Args[1]
	}
	for _, g := range p.c.W.Callees(ci) {
		idx, ok := p.release[g]
		if !ok {
			continue
		}
		if com.IsInvoke() {
			if idx == 0 {
				return com.Value
			}
			idx--
		}
		if idx < len(com.Args) {
			return com.Args[idx]
		}
	}
	return nil
}

// root identifies the object a value is.
func (p *pools) root(v ssa.Value) ssa.Value {
	for i := 0; i < 32; i++ {
		u := eng.ResolveLocal(eng.Unwrap(v))
		switch x := u.(type) {
		case *ssa.TypeAssert:
			u = x.X
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				u = ta.X
			}
		case *ssa.UnOp:
			if cell := p.cell(x); cell != nil {
				if st := cellStores(p.c, cell); len(st) == 1 {
					u = st[0].Val
				}
			}
		case *ssa.Phi:
			// all the same
			var one ssa.Value
			for _, e := range x.Edges {
				if e == ssa.Value(x) {
					continue
				}
				if one == nil {
					one = e
				} else if one != e {
					return u
				}
			}
			if one != nil {
				u = one
			}
		}
		if u == v {
			return v
		}
		v = u
	}
	return v
}

// cell is the variable a load reads, seen from the function declaring it.
func (p *pools) cell(ld *ssa.UnOp) *ssa.Alloc {
	if ld.Op != token.MUL {
		return nil
	}
	return cellOf(p.c, ld.X)
}

func cellOf(c *Ctx, addr ssa.Value) *ssa.Alloc {
	for i := 0; i < 8; i++ {
		switch x := addr.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			sites := c.W.ClosureSites(x.Parent())
			if len(sites) != 1 {
				return nil
			}
			var b ssa.Value
			for j, fv := range x.Parent().FreeVars {
				if fv == x {
					b = sites[0].Bindings[j]
				}
			}
			if b == nil {
				return nil
			}
			addr = b
		default:
			return nil
		}
	}
	return nil
}

// cellStores lists the stores to a variable, in its function and the literals capturing it.
func cellStores(c *Ctx, cell *ssa.Alloc) []*ssa.Store {
	var res []*ssa.Store
	for _, f := range eng.WithAnon(cell.Parent()) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok && cellOf(c, st.Addr) == cell {
				res = append(res, st)
			}
		})
	}
	return res
}

// resetBefore: the object's content is replaced as a whole before the instruction.
func (p *pools) resetBefore(obj ssa.Value, in ssa.Instruction) bool {
	f := in.Parent()
	same := func(v ssa.Value) bool { return p.root(v) == obj }
	whole := func(x ssa.Instruction) bool {
		switch x := x.(type) {
		case *ssa.Store:
			return same(x.Addr)
		case ssa.CallInstruction:
			com := x.Common()
			if o := eng.CalleeObj(x); o != nil && o.Name() == "Reset" {
				if com.IsInvoke() {
					return same(com.Value)
				}
				return len(com.Args) > 0 && same(com.Args[0])
			}
		}
		return false
	}
	if c := p.c; c.W.PrecededIn(in, whole) {
		return true
	}
	// field by field
	st, ok := eng.Deref(obj.Type()).Underlying().(*types.Struct)
	if !ok {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, x ssa.Instruction) {
			if fa, is := x.(*ssa.FieldAddr); is && same(fa.X) {
				st, ok = eng.Deref(fa.X.Type()).Underlying().(*types.Struct)
			}
		})
		if !ok {
			return false
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		field := func(v ssa.Value) bool {
			fa, ok := v.(*ssa.FieldAddr)
			return ok && fa.Field == i && same(fa.X)
		}
		if !p.c.W.PrecededIn(in, func(x ssa.Instruction) bool {
			switch x := x.(type) {
			case *ssa.Store:
				return field(x.Addr)
			case ssa.CallInstruction:
				com := x.Common()
				if o := eng.CalleeObj(x); o != nil && o.Name() == "Reset" {
					recv := com.Value
					if !com.IsInvoke() {
						if len(com.Args) == 0 {
							return false
						}
						recv = com.Args[0]
					}
					ld, ok := eng.ResolveLocal(recv).(*ssa.UnOp)
					return ok && field(ld.X) || field(recv)
				}
			}
			return false
		}) {
			return false
		}
	}
	return st.NumFields() > 0
}

// freshWhenUsed: nothing reads what the raw object held before it is replaced.
func (p *pools) freshWhenUsed(obj ssa.Value, f *ssa.Function, d int) bool {
	if d > 4 {
		return false
	}
	ok := true
	instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
		if !ok {
			return
		}
		uses := false
		for _, op := range in.Operands(nil) {
			if *op != nil && p.root(*op) == obj {
				uses = true
			}
		}
		if !uses {
			return
		}
		switch x := in.(type) {
		case *ssa.TypeAssert, *ssa.Extract, *ssa.DebugRef, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Phi:
			return
		case *ssa.FieldAddr:
			// judged where the address is used
			for _, r := range *x.Referrers() {
				if st, is := r.(*ssa.Store); is && st.Addr == ssa.Value(x) {
					continue
				}
				if _, is := r.(*ssa.DebugRef); is {
					continue
				}
				if ld, is := r.(*ssa.UnOp); is {
					reset := len(*ld.Referrers()) > 0
					for _, u := range *ld.Referrers() {
						if ci, is := u.(ssa.CallInstruction); !is || eng.CalleeObj(ci) == nil || eng.CalleeObj(ci).Name() != "Reset" {
							reset = false
						}
					}
					if reset {
						continue
					}
				}
				if !p.resetBefore(obj, r) {
					ok = false
				}
			}
			return
		case *ssa.Store:
			if p.root(x.Addr) == obj && p.root(x.Val) != obj {
				return
			}
			if _, isCell := x.Addr.(*ssa.Alloc); isCell {
				return
			}
		case *ssa.Return:
			if p.resetBefore(obj, in) {
				return
			}
			// whoever gets it is to reset it
			callers := p.c.W.Callers(f)
			if len(callers) == 0 {
				ok = false
			}
			for _, s := range callers {
				call, is := s.(*ssa.Call)
				if !is || !p.freshWhenUsed(call, call.Parent(), d+1) {
					ok = false
				}
			}
			return
		case ssa.CallInstruction:
			if o := eng.CalleeObj(x); o != nil && o.Name() == "Reset" {
				return
			}
		}
		if !p.resetBefore(obj, in) {
			ok = false
		}
	})
	return ok
}

// poolOf names the pool of a Get or Put.
func (p *pools) poolOf(ci ssa.CallInstruction) string {
	v := ci.Common().Args[0]
	if g, ok := v.(*ssa.Global); ok {
		return strip(g.Pkg.Pkg.Path()) + "." + g.Name()
	}
	if cell := cellOf(p.c, v); cell != nil {
		return short(cell.Parent()) + " " + cell.Comment
	}
	if fv := eng.FieldVarOf(v); fv != nil {
		return eng.TypeKeyOfField(fv) + "." + fv.Name()
	}
	return "?"
}

func (c *Ctx) poolsClean(r *R, p *pools) {
	type info struct{ gets, puts []string }
	bad := map[string]*info{}
	at := map[string]string{}
	var ids []string
	add := func(id, pos string) {
		if bad[id] == nil {
			bad[id] = &info{}
			ids = append(ids, id)
			at[id] = pos
		}
	}
	for _, g := range p.gets {
		id := p.poolOf(g)
		add(id, c.W.At(g))
		r.Check(id != "?", "pool of "+short(g.Parent()), c.W.At(g), "which pool this is could not be told")
		if !p.freshWhenUsed(g, g.Parent(), 0) {
			bad[id].gets = append(bad[id].gets, c.W.At(g))
		}
	}
	for _, put := range p.puts {
		id := p.poolOf(put)
		add(id, c.W.At(put))
		if !p.resetBefore(p.root(put.Common().Args[1]), put) {
			bad[id].puts = append(bad[id].puts, c.W.At(put))
		}
	}
	for _, id := range ids {
		b := bad[id]
		pos := at[id]
		if len(b.gets) > 0 {
			pos = b.gets[0]
		}
		r.Check(len(b.gets) == 0 || len(b.puts) == 0, "pool "+id, pos, "objects are neither reset before they are put in the pool (%s) nor after they are taken out of it", join(b.puts))
	}
	r.Min(6)
}

// reaches: from runs before to, without going through one of the stops.
func reachesWithout(from, to ssa.Instruction, stop func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return true
			}
			if stop(b.Instrs[i]) {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range from.Block().Instrs {
		if in == from {
			return walk(from.Block(), i+1)
		}
	}
	return false
}

// replacedNext: right after the release, before anything can look at it, the variable gets another value.
func (p *pools) replacedNext(rel ssa.Instruction, cell *ssa.Alloc) bool {
	past := false
	for _, in := range rel.Block().Instrs {
		if in == rel {
			past = true
			continue
		}
		if !past {
			continue
		}
		switch x := in.(type) {
		case *ssa.Store:
			if cellOf(p.c, x.Addr) == cell {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && cellOf(p.c, x.X) == cell {
				return false
			}
		case ssa.CallInstruction:
			return false
		}
	}
	return false
}

// same: both are the object, as far as the variables they were read from tell.
func (p *pools) same(v, obj ssa.Value) bool {
	x := p.root(v)
	if x == obj {
		return true
	}
	a, ok := x.(*ssa.UnOp)
	b, ok2 := obj.(*ssa.UnOp)
	if !ok || !ok2 || a.Parent() != b.Parent() {
		return false
	}
	cell := p.cell(a)
	if cell == nil || p.cell(b) != cell {
		return false
	}
	for _, st := range cellStores(p.c, cell) {
		if st.Parent() == a.Parent() && (eng.CanReach(a, st) && eng.CanReach(st, b) || eng.CanReach(b, st) && eng.CanReach(st, a)) {
			return false
		}
	}
	return true
}

// owners are the acquisitions a value may be (nil when it may be anything else).
func (p *pools) owners(v ssa.Value, d int) []ssa.Instruction {
	v = p.root(v)
	if p.acquired(v) {
		return []ssa.Instruction{v.(*ssa.Call)}
	}
	if phi, ok := v.(*ssa.Phi); ok && d < 4 {
		var res []ssa.Instruction
		for _, e := range phi.Edges {
			if p.root(e) == v {
				continue
			}
			o := p.owners(e, d+1)
			if o == nil {
				return nil
			}
			res = append(res, o...)
		}
		return res
	}
	return nil
}

func (c *Ctx) poolsOwned(r *R, p *pools) {
	w := c.W
	type site struct {
		in  ssa.Instruction // where it takes effect, in the function owning the object
		obj ssa.Value
	}
	byOwner := map[ssa.Instruction][]site{}
	n := 0
	for _, f := range w.Funcs {
		cnt := 0
		for _, ci := range eng.Calls(f) {
			v := p.released(ci)
			if v == nil {
				continue
			}
			root := p.root(v)
			n++
			cnt++
			name := fmt.Sprintf("release in %s#%d", short(f), cnt)
			if _, isGo := ci.(*ssa.Go); isGo {
				r.Bad(name, w.At(ci), "an object is given back by another goroutine")
				continue
			}
			if prm, ok := root.(*ssa.Parameter); ok && prm.Parent() == f {
				// its callers are judged; here it is not used any more
				r.Check(!p.usedAfter(ci, root, func(ssa.Instruction) bool { return false }), name, w.At(ci), "the object is used after it was put in the pool")
				continue
			}
			if ld, ok := root.(*ssa.UnOp); ok && p.cell(ld) != nil && ld.Parent() == f {
				cell := p.cell(ld)
				renewed := func(in ssa.Instruction) bool {
					st, ok := in.(*ssa.Store)
					return ok && cellOf(c, st.Addr) == cell && p.root(st.Val) != root
				}
				held := reachesWithout(ld, ci, renewed) && !p.replacedNext(ci, cell)
				r.Check(!held, name+": forgotten", w.At(ci), "the variable still holds the object when it is given back")
				r.Check(!p.usedAfter(ci, root, func(in ssa.Instruction) bool { return in == ssa.Instruction(ld) }), name+": unused", w.At(ci), "the object is used after it was given back")
				r.Check(!reachesWithout(ci, ci, func(in ssa.Instruction) bool { return in == ssa.Instruction(ld) }), name+": once", w.At(ci), "the object may be given back twice")
				owned := true
				for _, st := range cellStores(c, cell) {
					x := p.root(st.Val)
					if k, isC := x.(*ssa.Const); isC && k.IsNil() || p.acquired(x) {
						continue
					}
					// the one below, put there by the same variable
					if call, isCall := x.(*ssa.Call); isCall && eng.MKey(call) == ctxPkg+".NodeChain.Parent" {
						continue
					}
					owned = false
				}
				r.Check(owned, name+": owned", w.At(ci), "the variable may hold an object someone else acquired")
				continue
			}
			own := p.owners(root, 0)
			if own == nil {
				r.Bad(name+": owned", w.At(ci), "the object given back was not acquired by this function: its owner still uses it, and gives it back again")
				continue
			}
			r.OK(name+": owned", w.At(ci))
			for _, o := range own {
				if o.Parent() == f {
					byOwner[o] = append(byOwner[o], site{ci, root})
					continue
				}
				// in a literal: where that runs
				run := w.PassSites(f)
				ok := len(run) > 0
				for _, s := range run {
					if _, isGo := s.(*ssa.Go); isGo || s.Parent() != o.Parent() {
						ok = false
						continue
					}
					byOwner[o] = append(byOwner[o], site{s, root})
				}
				r.Check(ok, name+": when", w.At(ci), "when this gives the object back could not be told")
			}
		}
	}
	for o, sites := range byOwner {
		isOwner := func(in ssa.Instruction) bool { return in == o }
		name := "object of " + short(o.Parent())
		for i, s := range sites {
			_, deferred := s.in.(*ssa.Defer)
			once := !reachesWithout(s.in, s.in, isOwner)
			for j, t := range sites {
				if i != j {
					once = once && !reachesWithout(s.in, t.in, isOwner)
				}
			}
			r.Check(once, name+": once", w.At(s.in), "the object may be given back twice")
			if !deferred {
				r.Check(!p.usedAfter(s.in, s.obj, isOwner), name+": unused", w.At(s.in), "the object is used after it was given back")
			}
		}
		// not handed to anyone who may still use it then
		obj := o.(ssa.Value)
		esc := ""
		for _, f := range eng.WithAnon(o.Parent()) {
			instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
				if v := p.escape(in, obj); v != "" {
					esc = v
				}
			})
		}
		r.Check(esc == "", name+": kept to itself", w.At(o), "the object is given back although it is %s", esc)
	}
	r.Check(n > 0, "releases", "-", "nothing is ever given back to a pool")
	r.Min(20)
}

// escape tells how the instruction makes the object outlive the function.
func (p *pools) escape(in ssa.Instruction, obj ssa.Value) string {
	is := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		x := p.root(v)
		if x == obj {
			return true
		}
		if phi, ok := x.(*ssa.Phi); ok {
			for _, e := range phi.Edges {
				if p.root(e) == obj {
					return true
				}
			}
		}
		return false
	}
	switch x := in.(type) {
	case *ssa.Return:
		for _, res := range x.Results {
			if is(res) {
				return "returned"
			}
		}
	case *ssa.Store:
		if !is(x.Val) {
			return ""
		}
		switch a := x.Addr.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			return ""
		case *ssa.FieldAddr:
			if al, ok := eng.ResolveLocal(a.X).(*ssa.Alloc); ok && !al.Heap {
				return ""
			}
			return "stored"
		case *ssa.IndexAddr:
			if al, ok := a.X.(*ssa.Alloc); ok && strings.Contains(al.Comment, "varargs") {
				return ""
			}
			return "stored"
		default:
			return "stored"
		}
	case *ssa.MapUpdate:
		if is(x.Value) || is(x.Key) {
			return "stored in a map"
		}
	case *ssa.Send:
		if is(x.X) {
			return "sent to another goroutine"
		}
	case *ssa.Go:
		for _, a := range x.Call.Args {
			if is(a) {
				return "used by another goroutine"
			}
		}
		if x.Call.IsInvoke() && is(x.Call.Value) {
			return "used by another goroutine"
		}
		if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if al, ok := b.(*ssa.Alloc); ok {
					for _, st := range cellStores(p.c, al) {
						if is(st.Val) {
							return "used by another goroutine"
						}
					}
				}
			}
		}
	}
	return ""
}

// usedAfter: the object is used after it was released (without having been acquired anew).
func (p *pools) usedAfter(rel ssa.Instruction, obj ssa.Value, renewed func(ssa.Instruction) bool) bool {
	if _, deferred := rel.(*ssa.Defer); deferred {
		return false
	}
	used := false
	instrs([]*ssa.Function{rel.Parent()}, func(_ *ssa.Function, in ssa.Instruction) {
		if in == rel || used {
			return
		}
		if _, dbg := in.(*ssa.DebugRef); dbg {
			return
		}
		if _, def := in.(*ssa.Defer); def {
			return // judged as another release
		}
		touches := false
		for _, op := range in.Operands(nil) {
			if *op != nil && p.same(*op, obj) {
				touches = true
			}
		}
		if v, ok := in.(ssa.Value); ok && p.same(v, obj) {
			if _, isLoad := in.(*ssa.UnOp); !isLoad || renewed(in) {
				return
			}
			touches = true
		}
		if touches && reachesWithout(rel, in, renewed) {
			used = true
		}
	})
	return used
}

// contextsNotKept: no long-lived object has room for a context.
func (c *Ctx) contextsNotKept(r *R) {
	w := c.W
	kept := func(t types.Type) bool {
		switch eng.TypeKey(eng.Deref(t)) {
		case ctxPkg + ".AspectContext", ctxPkg + ".AdviceContext", ctxPkg + ".context", ctxPkg + ".NodeChain":
			return true
		}
		return false
	}
	var holds func(t types.Type, d int, seen map[types.Type]bool) bool
	holds = func(t types.Type, d int, seen map[types.Type]bool) bool {
		if d > 6 || seen[t] {
			return false
		}
		seen[t] = true
		if kept(t) {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return holds(u.Elem(), d+1, seen)
		case *types.Slice:
			return holds(u.Elem(), d+1, seen)
		case *types.Array:
			return holds(u.Elem(), d+1, seen)
		case *types.Chan:
			return holds(u.Elem(), d+1, seen)
		case *types.Map:
			return holds(u.Elem(), d+1, seen) || holds(u.Key(), d+1, seen)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if holds(u.Field(i).Type(), d+1, seen) {
					return true
				}
			}
		}
		return false
	}
	longLived := []*types.Interface{}
	for _, in := range [][2]string{{"internal/injector/aspect/join", "Point"}, {"internal/injector/aspect/join", "FunctionOption"}, {"internal/injector/aspect/advice", "Advice"}} {
		n := w.Type(in[0], in[1])
		if n == nil {
			r.Bad("anchor "+in[1], "-", "interface not found")
			continue
		}
		longLived = append(longLived, n.Underlying().(*types.Interface))
	}
	n := 0
	for _, t := range w.NamedTypes() {
		if types.IsInterface(t) || t.TypeParams().Len() > 0 {
			continue
		}
		impl := t.Obj().Pkg().Path() == eng.ModPath+"/internal/injector/aspect/advice/code" && t.Obj().Name() == "Template" ||
			t.Obj().Pkg().Path() == eng.ModPath+"/internal/injector/aspect" && t.Obj().Name() == "Aspect"
		for _, i := range longLived {
			impl = impl || types.Implements(t, i) || types.Implements(types.NewPointer(t), i)
		}
		if !impl {
			continue
		}
		n++
		r.Check(!holds(t, 0, map[types.Type]bool{}), "type "+t.Obj().Name(), w.Pos(t.Obj().Pos()), "values of this type, shared by all files, can hold on to a context")
	}
	for _, pk := range c.W.Packages() {
		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			v, ok := sc.Lookup(name).(*types.Var)
			if !ok {
				continue
			}
			n++
			r.Check(!holds(v.Type(), 0, map[types.Type]bool{}), "variable "+strip(pk.PkgPath)+"."+name, w.Pos(v.Pos()), "this variable can hold on to a context")
		}
	}
	r.Min(30)
}

// contextsDerived checks the fields of the contexts handed out.
func (c *Ctx) contextsDerived(r *R, p *pools) {
	w := c.W
	ctxT := w.Type(ctxPkg, "context")
	if ctxT == nil {
		r.Bad("anchor context", "-", "type not found")
		return
	}
	cursorF := w.Field(ctxPkg, "context", "cursor")
	chainF := w.Field(ctxPkg, "context", "NodeChain")
	parentF := w.Field(ctxPkg, "NodeChain", "parent")
	isCtx := func(t types.Type) bool { return types.Identical(eng.Deref(t), ctxT) }
	fields := structFields(ctxT)
	n := 0
	for _, name := range []string{"NodeChain.Context", "context.Child", "context.Parent"} {
		f := r.Fn(ctxPkg, name)
		if f == nil {
			continue
		}
		root := name == "NodeChain.Context"
		region := c.Region(f)
		// a copy of the whole of another context
		var copies []*ssa.Store
		for _, g := range region {
			instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
				st, ok := in.(*ssa.Store)
				if !ok || !types.Identical(st.Val.Type(), ctxT) {
					return
				}
				if ld, ok := st.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if _, lit := ld.X.(*ssa.Alloc); !lit {
						copies = append(copies, st)
					}
				}
			})
		}
		for _, fv := range fields {
			n++
			stores := fieldStores(region, fv)
			con := name + "." + fv.Name()
			pos := w.Pos(f.Pos())
			switch fv {
			case cursorF:
				if root {
					ok := len(stores) > 0
					for _, s := range stores {
						ok = ok && c.derives(s.Val, func(o ssa.Value) bool { return isParamField(o, fv.Type()) })
					}
					r.Check(ok, con, pos, "the context does not have the cursor it is made for")
					continue
				}
				ok := len(copies) == 0 || len(stores) > 0
				for _, s := range stores {
					ok = ok && eng.IsNilConst(s.Val)
				}
				r.Check(ok, con, pos, "replacing the node of the derived context replaces another one")
			case chainF:
				ok := len(stores) > 0
				for _, s := range stores {
					vals := c.valuesIn(f, s.Val, 0)
					ok = ok && len(vals) > 0
					for _, v := range vals {
						switch name {
						case "NodeChain.Context":
							ok = ok && w.Carries(v, func(o ssa.Value) bool { return o == ssa.Value(f.Params[0]) })
						case "context.Parent":
							ok = ok && w.Carries(v, func(o ssa.Value) bool { return eng.FieldVarOf(o) == parentF })
						default:
							ok = ok && c.derives(v, func(o ssa.Value) bool {
								al, is := o.(*ssa.Alloc)
								return is && eng.TypeKey(eng.Deref(al.Type())) == ctxPkg+".NodeChain"
							})
						}
					}
				}
				r.Check(ok, con, pos, "the context is not at the right place in the tree")
			default:
				if len(stores) == 0 {
					r.Check(len(copies) > 0 && !root, con, pos, "the property is not set: it is empty in the context made")
					continue
				}
				ok := true
				for _, s := range stores {
					if root {
						if strings.HasSuffix(eng.TypeKey(eng.Deref(fv.Type())), "zerolog.Logger") {
							ok = ok && c.derivesExternalCall(s.Val, "github.com/rs/zerolog.Ctx")
							continue
						}
						ok = ok && w.Carries(s.Val, func(o ssa.Value) bool { return isParamField(o, fv.Type()) })
						continue
					}
					ok = ok && w.Carries(s.Val, func(o ssa.Value) bool {
						return isField(o, fv) && c.baseIsContext(o, isCtx)
					})
				}
				r.Check(ok, con, pos, "the property is not that of the context it is made from")
			}
		}
	}
	// a child is below the context it is made from
	if f := w.Func(ctxPkg, "context.Child"); f != nil {
		region := c.Region(f)
		for _, x := range []struct {
			field string
			param int
		}{{"node", 1}, {"name", 2}, {"index", 3}} {
			fv := w.Field(ctxPkg, "NodeChain", x.field)
			ok := false
			for _, s := range fieldStores(region, fv) {
				ok = x.param < len(f.Params) && w.Carries(s.Val, func(o ssa.Value) bool { return o == ssa.Value(f.Params[x.param]) })
			}
			r.Check(ok, "child "+x.field, w.Pos(f.Pos()), "the child's link does not have the %s asked for", x.field)
		}
		ok := false
		for _, s := range fieldStores(region, parentF) {
			ok = w.Carries(s.Val, func(o ssa.Value) bool { return isField(o, chainF) })
		}
		r.Check(ok, "child parent", w.Pos(f.Pos()), "the child's link is not below that of the context it is made from")
	}
	r.Min(30)
}

// valuesIn are the values v has when f runs, seen from f.
func (c *Ctx) valuesIn(f *ssa.Function, v ssa.Value, d int) []ssa.Value {
	v = eng.ResolveLocal(v)
	p, ok := v.(*ssa.Parameter)
	if !ok || p.Parent() == f || d > 4 {
		return []ssa.Value{v}
	}
	var res []ssa.Value
	region := map[*ssa.Function]bool{}
	for _, g := range c.Region(f) {
		region[g] = true
	}
	for i, q := range p.Parent().Params {
		if q != p {
			continue
		}
		for _, ci := range c.W.Callers(p.Parent()) {
			if !region[ci.Parent()] || ci.Common().IsInvoke() || i >= len(ci.Common().Args) {
				continue
			}
			res = append(res, c.valuesIn(f, ci.Common().Args[i], d+1)...)
		}
	}
	return res
}

// isParamField: a field of the given type, of a parameter's structure.
func isParamField(o ssa.Value, t types.Type) bool {
	fv := eng.FieldVarOf(o)
	if fv == nil || !types.Identical(fv.Type(), t) {
		return false
	}
	return strings.HasSuffix(eng.TypeKeyOfField(fv), "ContextArgs")
}

// baseIsContext: the field read is that of an existing context.
func (c *Ctx) baseIsContext(o ssa.Value, isCtx func(types.Type) bool) bool {
	switch x := o.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			_, lit := fa.X.(*ssa.Alloc)
			return isCtx(fa.X.Type()) && !lit
		}
	case *ssa.Field:
		return isCtx(x.X.Type())
	case *ssa.FieldAddr:
		_, lit := x.X.(*ssa.Alloc)
		return isCtx(x.X.Type()) && !lit
	}
	return false
}

// chainFollows checks the callbacks of the traversal.
func (c *Ctx) chainFollows(r *R) {
	w := c.W
	n := 0
	for _, f := range w.FuncsIn("internal/injector") {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) != "github.com/dave/dst/dstutil.Apply" {
				continue
			}
			pre, post := c.literal(ci.Common().Args[1]), c.literal(ci.Common().Args[2])
			if pre == nil || post == nil {
				continue
			}
			// the variable holding the chain
			var cell *ssa.Alloc
			isCell := func(v ssa.Value) bool {
				ld, ok := v.(*ssa.UnOp)
				return ok && ld.Op == token.MUL && cell != nil && cellOf(c, ld.X) == cell
			}
			for _, g := range c.Region(pre) {
				for _, cj := range eng.Calls(g) {
					if eng.MKey(cj) == ctxPkg+".NodeChain.Child" {
						if ld, ok := cj.Common().Args[0].(*ssa.UnOp); ok {
							cell = cellOf(c, ld.X)
						}
					}
				}
			}
			if cell == nil {
				continue
			}
			n++
			event := func(in ssa.Instruction) string {
				switch x := in.(type) {
				case *ssa.Store:
					if cellOf(c, x.Addr) != cell {
						return ""
					}
					call, ok := x.Val.(*ssa.Call)
					if !ok {
						return "other"
					}
					switch eng.MKey(call) {
					case ctxPkg + ".NodeChain.Child":
						if isCell(call.Call.Args[0]) {
							if prm, is := call.Call.Args[1].(*ssa.Parameter); is && prm.Parent() == in.Parent() {
								return "push"
							}
						}
					case ctxPkg + ".NodeChain.Parent":
						if x := eng.ResolveLocal(call.Call.Args[0]); isCell(x) {
							return "pop"
						}
					}
					return "other"
				case *ssa.Call:
					if eng.MKey(x) == ctxPkg+".NodeChain.SetConfig" {
						if c.derivesField(x.Call.Args[1], w.Field("internal/injector", "Injector", "RootConfig")) {
							return "config"
						}
						return "other config"
					}
				}
				return ""
			}
			for _, top := range []bool{true, false} {
				ex := &eng.Exploration{W: w, Repeat: true, Defers: true, Event: event}
				ex.Inline = func(g *ssa.Function) bool { return eng.Root(g) == eng.Root(f) && g != f }
				ex.Atom = func(v ssa.Value) (eng.AV, bool) {
					b, ok := v.(*ssa.BinOp)
					if !ok || b.Op != token.EQL && b.Op != token.NEQ {
						return eng.AV{}, false
					}
					x, y := b.X, b.Y
					if isNil(x) {
						x, y = y, x
					}
					if !isNil(y) {
						return eng.AV{}, false
					}
					call, isCall := x.(*ssa.Call)
					if isCell(x) || isCall && eng.MKey(call) == ctxPkg+".NodeChain.Parent" {
						return eng.ABool(top == (b.Op == token.EQL)), true
					}
					return eng.AV{}, false
				}
				outs := ex.Run(pre)
				name := "entering a node"
				if top {
					name = "entering the root"
				}
				r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", w.Pos(pre.Pos()), "the paths of the callback could not be followed")
				in, pushed, conf := true, true, true
				for _, o := range outs {
					if o.Panics {
						continue
					}
					into := len(o.Rets) == 1 && o.Rets[0].IsTrue()
					out := len(o.Rets) == 1 && o.Rets[0].IsFalse()
					in = in && (into || out) && !o.Has("other") && !o.Has("pop")
					pushed = pushed && o.Has("push") == into && !o.Has("push+")
					conf = conf && (o.Has("config") == (top && into)) && !o.Has("other config")
				}
				r.Check(in, name+": decided", w.At(ci), "whether the node is entered is not told by the outcome, or the chain is changed otherwise")
				r.Check(pushed, name+": pushed", w.At(ci), "a link must be pushed on the chain exactly when the node is entered")
				r.Check(conf, name+": configuration", w.At(ci), "the root configuration must be on the root's link, and there only")
			}
			ex := &eng.Exploration{W: w, Repeat: true, Defers: true, Event: event}
			ex.Inline = func(g *ssa.Function) bool { return eng.Root(g) == eng.Root(f) && g != f }
			outs := ex.Run(post)
			ok := len(outs) > 0 && !ex.Exhausted
			for _, o := range outs {
				if o.Panics {
					continue
				}
				ok = ok && o.Has("pop") && !o.Has("pop+") && !o.Has("push") && !o.Has("other")
			}
			r.Check(ok, "leaving a node", w.Pos(post.Pos()), "the chain must be popped exactly once when a node is left")
			// the node is looked at before it is popped
			for _, g := range eng.WithAnon(post) {
				for _, cj := range eng.Calls(g) {
					if eng.MKey(cj) != ctxPkg+".NodeChain.Context" {
						continue
					}
					r.Check(isCell(cj.Common().Args[0]), "context of the node", w.At(cj), "the context is not made from the node's own link")
					early := false
					instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
						if event(in) == "pop" && eng.CanReach(in, cj) {
							early = true
						}
					})
					r.Check(!early, "context before leaving", w.At(cj), "the link may be popped before the node is looked at")
				}
			}
		}
	}
	r.Check(n == 1, "traversal", "-", "the traversal keeping a chain of nodes was found %d times", n)
	r.Min(9)
}

// literal is the function literal (or function) a value is.
func (c *Ctx) literal(v ssa.Value) *ssa.Function {
	switch x := eng.ResolveLocal(eng.Unwrap(eng.ResolveLocal(v))).(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	}
	return nil
}
