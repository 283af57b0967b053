package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "J03", Technique: "lockset dataflow (lock/unlock pairing, guarded-field inference, goroutine escape of captured state, blocking-under-lock)", Run: runLocks, AllOS: true})
}

func muName(w *eng.World, mu any) string {
	switch m := mu.(type) {
	case *types.Var:
		for _, n := range w.NamedTypes() {
			for _, f := range structFields(n) {
				if f == m {
					return eng.TypeKey(n) + "." + m.Name()
				}
			}
		}
		return m.Name()
	case *ssa.Alloc:
		return short(m.Parent()) + "." + m.Comment
	case *ssa.Global:
		return m.Name()
	}
	return "?"
}

func runLocks(c *Ctx) {
	w := c.W
	rPair := c.Rule("lock-released", "every mutex acquisition is followed by a matching release on every exit of the function")
	rDbl := c.Rule("lock-not-reentered", "a mutex is not acquired again while it is already held")
	rGuard := c.Rule("guarded-by", "a field that is mutated after construction, of a struct that has a mutex, is only accessed with that mutex held (in write mode for writes)")
	rGo := c.Rule("goroutine-writes", "variables captured by concurrently running functions are only written under a mutex, at a fixed index of their own, or before signalling completion on a channel")
	rBlk := c.Rule("no-blocking-under-table-lock", "no package load, request, callback or channel wait happens while a lock protecting a shared table is held")
	rUpg := c.Rule("recheck-after-upgrade", "a table entry is only inserted under the write lock after checking again, under that same lock, that it is absent")

	type acq struct {
		ci ssa.CallInstruction
		op eng.MutexOp
	}
	var acqs []acq
	for _, ci := range eng.CallsIn(w.Funcs) {
		if op, ok := w.MutexCall(ci); ok && op.Lock {
			acqs = append(acqs, acq{ci, op})
		}
	}
	for _, a := range acqs {
		name := short(a.ci.Parent()) + " locks " + muName(w, a.op.Mu)
		mode := a.op.Write
		ev := w.LiftEvent(func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			op, ok := w.MutexCall(ci)
			return ok && !op.Lock && op.Mu == a.op.Mu && op.Write == mode
		})
		var defEv eng.Event = func(in ssa.Instruction) bool {
			if ev(in) {
				return true
			}
			// defer func() { mu.Unlock() }()
			d, ok := in.(*ssa.Defer)
			if !ok {
				return false
			}
			for _, g := range w.Callees(d) {
				for _, ci := range eng.Calls(g) {
					if ev(ci) && w.AlwaysExecutes(ci) {
						return true
					}
				}
			}
			return false
		}
		if leak := c.lockLeak(a.ci, defEv, 0); leak != nil {
			rPair.Bad(name, w.At(a.ci), "the lock is still held at the exit at %s", w.At(leak.Exit))
		} else {
			rPair.OK(name, w.At(a.ci))
		}
		// re-entry
		held := w.HeldAt(a.ci, a.op.Mu, false, nil)
		rDbl.Check(!held, name, w.At(a.ci), "the mutex is acquired while it is already held: deadlock")
		// a panic between Lock and Unlock without defer is tolerated for straight-line table access; callbacks are not
	}
	rPair.Min(8)
	// releases without acquisition
	for _, ci := range eng.CallsIn(w.Funcs) {
		op, ok := w.MutexCall(ci)
		if !ok || op.Lock {
			continue
		}
		held := w.HeldAt(ci, op.Mu, false, nil)
		rPair.Check(held, short(ci.Parent())+" unlocks "+muName(w, op.Mu), w.At(ci), "the mutex is released without being held")
	}

	// --- guarded fields
	fresh := func(base ssa.Value) bool { return c.freshObject(base) || c.freshAtCallers(base, 0) }
	for _, n := range w.NamedTypes() {
		var mus []*types.Var
		for _, f := range structFields(n) {
			k := eng.TypeKey(f.Type())
			if k == "sync.Mutex" || k == "sync.RWMutex" {
				mus = append(mus, f)
			}
		}
		if len(mus) == 0 {
			continue
		}
		for _, f := range structFields(n) {
			f = f.Origin()
			tk := eng.TypeKey(f.Type())
			if strings.HasPrefix(tk, "sync.") || strings.HasPrefix(tk, "sync/atomic.") {
				continue
			}
			type access struct {
				in    ssa.Instruction
				write bool
				base  ssa.Value
			}
			var accs []access
			mutated := false
			instrs(w.Funcs, func(_ *ssa.Function, in ssa.Instruction) {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || eng.FieldVar(fa) != f {
					return
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							accs = append(accs, access{r, true, fa.X})
							if !fresh(fa.X) {
								mutated = true
							}
						}
					case *ssa.UnOp:
						if r.Op != token.MUL {
							continue
						}
						// reading the field; writing through it?
						wr := false
						if _, isMap := f.Type().Underlying().(*types.Map); isMap {
							for _, mr := range eng.FlowRefs(r) {
								isW := false
								switch m := mr.(type) {
								case *ssa.MapUpdate:
									isW = m.Map == ssa.Value(r) || true
								case *ssa.Call:
									if b, isB := m.Call.Value.(*ssa.Builtin); isB && (b.Name() == "delete" || b.Name() == "clear") {
										isW = true
									}
								}
								if isW {
									wr = true
									accs = append(accs, access{mr, true, fa.X})
								} else if _, isRef := mr.(*ssa.DebugRef); !isRef {
									accs = append(accs, access{mr, false, fa.X})
								}
							}
						}
						accs = append(accs, access{r, false, fa.X})
						if wr && !fresh(fa.X) {
							mutated = true
						}
					case ssa.CallInstruction:
						if _, isStruct := f.Type().Underlying().(*types.Struct); isStruct {
							continue // a method of a value that is itself never reassigned (a logger)
						}
						accs = append(accs, access{r, true, fa.X})
						if !fresh(fa.X) {
							mutated = true
						}
					}
				}
			})
			if !mutated {
				continue
			}
			for _, a := range accs {
				if fresh(a.base) {
					continue
				}
				held := false
				for _, mu := range mus {
					if w.HeldAt(a.in, mu.Origin(), a.write, func(site ssa.Instruction) bool {
						ci, ok := site.(ssa.CallInstruction)
						return ok && len(ci.Common().Args) > 0 && fresh(ci.Common().Args[0])
					}) {
						held = true
					}
				}
				kind := "read"
				if a.write {
					kind = "write"
				}
				rGuard.Check(held, eng.TypeKey(n)+"."+f.Name()+" "+kind+" in "+short(a.in.Parent()), w.At(a.in), "%s.%s is accessed without its lock", eng.TypeKey(n), f.Name())
			}
		}
	}
	rGuard.Min(10)
	// globals guarded by a global mutex of the same package
	for _, p := range w.Pkgs {
		sp := w.Prog.Package(p.Types)
		var mus []*ssa.Global
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				k := eng.TypeKey(eng.Deref(g.Type()))
				if k == "sync.Mutex" || k == "sync.RWMutex" {
					mus = append(mus, g)
				}
			}
		}
		if len(mus) == 0 {
			continue
		}
		for _, name := range keysOf(sp.Members) {
			g, ok := sp.Members[name].(*ssa.Global)
			if !ok {
				continue
			}
			if _, isMap := eng.Deref(g.Type()).Underlying().(*types.Map); !isMap {
				continue
			}
			var us []ssa.Instruction
			var ws []bool
			mutated := false
			instrs(w.Funcs, func(fn *ssa.Function, in ssa.Instruction) {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.X != ssa.Value(g) || fn.Name() == "init" {
					return
				}
				for _, mr := range eng.FlowRefs(u) {
					wr := false
					if mu, ok := mr.(*ssa.MapUpdate); ok && mu.Map == ssa.Value(u) {
						wr, mutated = true, true
					}
					us, ws = append(us, mr), append(ws, wr)
				}
			})
			if !mutated {
				continue
			}
			for i, u := range us {
				held := false
				for _, mu := range mus {
					held = held || w.HeldAt(u, mu, ws[i], nil)
				}
				rGuard.Check(held, eng.Rel(u.Parent())+"."+name+" in "+short(u.Parent()), w.At(u), "shared map %s is accessed without its lock", name)
			}
		}
	}

	// --- goroutines
	ng := 0
	for _, f := range w.Funcs {
		if !c.concurrentEntry(f) {
			continue
		}
		ng++
		for _, g := range eng.WithAnon(f) {
			instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
				root, desc, idx := writeRoot(w, in)
				if root == nil {
					return
				}
				fv, ok := root.(*ssa.FreeVar)
				if !ok || !capturedFromOutside(w, fv, f) {
					return
				}
				if idx {
					rGo.OK(short(g)+" writes its own element of "+fv.Name(), w.At(in))
					return
				}
				held := w.AnyHeldAt(in)
				sig := false
				if !held {
					sig = w.MustFollow(in, func(x ssa.Instruction) bool {
						ci, ok := x.(ssa.CallInstruction)
						if ok {
							if b, isB := ci.Common().Value.(*ssa.Builtin); isB && b.Name() == "close" {
								return true
							}
						}
						_, isSend := x.(*ssa.Send)
						return isSend
					}, nil, nil) == nil
				}
				if !held && !sig {
					// written in only one goroutine instance and joined? only accept single instances followed by close
					rGo.Bad(short(g)+" writes "+fv.Name(), w.At(in), "%s is shared with other goroutines but written without a lock (%s)", fv.Name(), desc)
					return
				}
				rGo.OK(short(g)+" writes "+fv.Name(), w.At(in))
			})
		}
	}
	c.Count("concurrent_functions", ng)
	rGo.Min(4)

	// --- blocking under table locks: locks taken in internal/jobserver/common (Cache.mu, Graph.mu) and any RWMutex
	for _, ci := range eng.CallsIn(w.Funcs) {
		k := eng.Key(ci)
		dyn := false
		cm := ci.Common()
		if !cm.IsInvoke() && cm.StaticCallee() == nil {
			if _, isB := cm.Value.(*ssa.Builtin); !isB {
				dyn = true
			}
		}
		if !dyn && k != "golang.org/x/tools/go/packages.Load" && !strings.HasPrefix(k, "os/exec.Cmd.") && eng.MKey(ci) != "internal/jobserver/client.Request" && eng.MKey(ci) != "internal/jobserver/common.Cache.Load" {
			continue
		}
		for _, mu := range tableLocks(w) {
			held := w.HeldAt(ci, mu, false, nil)
			c.Count("blocking_calls_examined", 1)
			if held {
				what := k
				if dyn {
					what = "a callback"
				}
				rBlk.Check(false, short(ci.Parent())+" vs "+muName(w, mu), w.At(ci), "%s runs while the table lock is held: unrelated requests block, or the lock is re-entered", what)
			}
		}
	}
	rBlk.OK("table locks", "-")
	c.Count("table_locks", len(tableLocks(w)))
	if len(tableLocks(w)) < 2 {
		rBlk.Bad("table locks", "-", "the locks of the job server's shared tables were not found")
	}

	// --- re-check after upgrade: MapUpdate on a guarded map field that is conditional on absence
	if cache := w.Type("internal/jobserver/common", "Cache"); cache != nil {
		data := w.Field("internal/jobserver/common", "Cache", "data")
		var mu *types.Var
		for _, f := range structFields(cache) {
			if k := eng.TypeKey(f.Type()); k == "sync.RWMutex" || k == "sync.Mutex" {
				mu = f
			}
		}
		if data == nil || mu == nil {
			rUpg.Bad("Cache", "-", "cache table or lock not found")
			return
		}
		for _, f := range w.FuncsIn("internal/jobserver/common") {
			instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
				m, ok := in.(*ssa.MapUpdate)
				if !ok || !isFieldVal(m.Map, data) {
					return
				}
				ok = false
				for _, l := range eng.DomLits(in.Block()) {
					if w.Implies(l, func(l eng.Lit) bool {
						ex, isEx := l.V.(*ssa.Extract)
						var lk *ssa.Lookup
						if isEx && ex.Index == 1 && !l.Pol {
							lk, _ = ex.Tuple.(*ssa.Lookup)
						} else if nilLit(l, func(v ssa.Value) bool {
							x, isL := v.(*ssa.Lookup)
							if !isL {
								if e, isE := v.(*ssa.Extract); isE {
									x, isL = e.Tuple.(*ssa.Lookup)
								}
							}
							if isL {
								lk = x
							}
							return isL
						}) != "nil" {
							return false
						}
						return lk != nil && isFieldVal(lk.X, data) && w.HeldAt(lk, mu.Origin(), true, nil)
					}) {
						ok = true
					}
				}
				rUpg.Check(ok, short(f)+" inserts", w.At(in), "a cache slot is inserted without checking under the write lock that none exists: two loaders run for the same key")
			})
		}
		rUpg.Min(1)
	}
}

// tableLocks: struct mutexes of the job server's common package that protect a map of the same struct.
func tableLocks(w *eng.World) []*types.Var {
	var res []*types.Var
	for _, n := range w.NamedTypes() {
		if n.Obj().Pkg().Path() != eng.ModPath+"/internal/jobserver/common" {
			continue
		}
		var mu *types.Var
		hasMap := false
		for _, f := range structFields(n) {
			k := eng.TypeKey(f.Type())
			if k == "sync.Mutex" || k == "sync.RWMutex" {
				mu = f.Origin()
			}
			if _, ok := f.Type().Underlying().(*types.Map); ok {
				hasMap = true
			}
		}
		if mu != nil && hasMap {
			res = append(res, mu)
		}
	}
	return res
}

// lockLeak: the acquisition is not released on some exit; a helper that returns with the lock
// held passes the obligation to its callers.
func (c *Ctx) lockLeak(in ssa.Instruction, released eng.Event, d int) *eng.Leak {
	leak := c.W.MustFollow(in, released, nil, nil)
	if leak == nil {
		return nil
	}
	callers := c.W.Callers(in.Parent())
	if d > 2 || len(callers) == 0 {
		return leak
	}
	for _, ci := range callers {
		if l := c.lockLeak(ci, released, d+1); l != nil {
			return l
		}
	}
	return nil
}

// freshAtCallers: base is a parameter that every caller binds to a not yet published object.
func (c *Ctx) freshAtCallers(base ssa.Value, d int) bool {
	if a, ok := base.(*ssa.Alloc); ok { // spilled parameter
		for _, r := range *a.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == a {
				base = s.Val
			}
		}
	}
	if u, ok := base.(*ssa.UnOp); ok {
		return c.freshAtCallers(u.X, d)
	}
	p, ok := base.(*ssa.Parameter)
	if !ok || d > 2 {
		return false
	}
	idx := -1
	for i, q := range p.Parent().Params {
		if q == p {
			idx = i
		}
	}
	sites := c.W.EntrySites(p.Parent())
	for _, s := range sites {
		ci, ok := s.(*ssa.Call)
		if !ok {
			return false
		}
		a := eng.ArgOf(ci, idx)
		if a == nil || !(c.freshObject(a) || c.freshAtCallers(a, d+1)) {
			return false
		}
	}
	return len(sites) > 0
}

// freshObject: base denotes an object allocated in the current function (not yet published by it).
func (c *Ctx) freshObject(base ssa.Value) bool {
	switch b := base.(type) {
	case *ssa.Alloc:
		// a spilled pointer parameter is not fresh
		for _, r := range *b.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == b {
				if _, isP := s.Val.(*ssa.Parameter); isP {
					return false
				}
			}
		}
		return true
	case *ssa.FieldAddr:
		return c.freshObject(b.X)
	case *ssa.Phi:
		for _, e := range b.Edges {
			if !c.freshObject(e) {
				return false
			}
		}
		return len(b.Edges) > 0
	}
	return false
}

// concurrentEntry: f is a closure started with go or handed to an errgroup.
func (c *Ctx) concurrentEntry(f *ssa.Function) bool {
	for _, mc := range c.W.ClosureSites(f) {
		for _, r := range *mc.Referrers() {
			switch r := r.(type) {
			case *ssa.Go:
				if r.Call.Value == mc {
					return true
				}
			case ssa.CallInstruction:
				if strings.HasSuffix(eng.Key(r), "errgroup.Group.Go") || strings.HasSuffix(eng.Key(r), "errgroup.Group.TryGo") || eng.Key(r) == "sync.WaitGroup.Go" {
					return true
				}
			}
		}
	}
	for _, ci := range c.W.Callers(f) {
		if _, ok := ci.(*ssa.Go); ok {
			return true
		}
	}
	return false
}

// writeRoot: the variable written by an instruction; idx reports an element write at a fixed index.
func writeRoot(w *eng.World, in ssa.Instruction) (root ssa.Value, desc string, idx bool) {
	var walk func(v ssa.Value) ssa.Value
	walk = func(v ssa.Value) ssa.Value {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			return walk(a.X)
		case *ssa.IndexAddr:
			switch i := a.Index.(type) {
			case *ssa.FreeVar, *ssa.Parameter:
				idx = true
			case *ssa.UnOp:
				if _, ok := i.X.(*ssa.FreeVar); ok {
					idx = true
				}
			}
			return walk(a.X)
		case *ssa.UnOp:
			if a.Op == token.MUL {
				return walk(a.X)
			}
		case *ssa.Slice:
			return walk(a.X)
		}
		return v
	}
	switch in := in.(type) {
	case *ssa.Store:
		return walk(in.Addr), "assignment", idx
	case *ssa.MapUpdate:
		return walk(in.Map), "map write", idx
	case *ssa.Call:
		// pointer method of a module type that writes its receiver
		cm := in.Call
		if cm.IsInvoke() || len(cm.Args) == 0 {
			return nil, "", false
		}
		fn := cm.StaticCallee()
		if fn == nil || fn.Signature.Recv() == nil || fn.Blocks == nil {
			return nil, "", false
		}
		if _, ok := cm.Args[0].(*ssa.FreeVar); !ok {
			return nil, "", false
		}
		wr := false
		instrs([]*ssa.Function{fn}, func(_ *ssa.Function, x ssa.Instruction) {
			if s, ok := x.(*ssa.Store); ok && walk(s.Addr) == ssa.Value(fn.Params[0]) {
				wr = true
			}
		})
		if wr {
			return cm.Args[0], "mutating method", false
		}
	}
	return nil, "", false
}

// capturedFromOutside: the free variable is bound to storage created outside of f.
func capturedFromOutside(w *eng.World, fv *ssa.FreeVar, f *ssa.Function) bool {
	outside := true
	w.Origins(fv, func(o ssa.Value) eng.Step {
		if _, ok := o.(*ssa.FreeVar); ok {
			return eng.Follow
		}
		if o.Parent() != nil && enclosedOrSame(o.Parent(), f) {
			outside = false
		}
		return eng.Stop
	})
	return outside
}
