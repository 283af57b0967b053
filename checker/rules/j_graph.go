package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "J04", Technique: "value provenance of spawned build configurations, must-precede and argument agreement for the cycle-detection edges", Run: runRecursion})
	register(&Prop{ID: "J05", Technique: "field-coverage of cache keys, guarded typestate of cache slots, alias analysis of cached values", Run: runCacheKeys})
}

const packagesLoad = "golang.org/x/tools/go/packages.Load"

// Building modes of go/packages: these make `go list` run the compiler.
const buildingModes = int64(1<<5 | 1<<6 | 1<<7 | 1<<8 | 1<<2) // refined below from the type's constants

// extConst looks up an integer constant of an imported package.
func (c *Ctx) extField(pkg, typ, field string) *types.Var {
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() != pkg {
			continue
		}
		o := p.Pkg.Scope().Lookup(typ)
		if o == nil {
			return nil
		}
		st, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				return st.Field(i)
			}
		}
	}
	return nil
}

func (c *Ctx) extConst(pkg, name string) int64 {
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if v, ok := constInt(k); ok {
					return v
				}
			}
		}
	}
	return 0
}

func isToolexecFlag(s string) bool { return strings.HasPrefix(s, "-toolexec=") }

// configAllocs finds the packages.Config objects a Load call can be given, within and across functions.
func (c *Ctx) configAllocs(v ssa.Value) []*ssa.Alloc {
	var res []*ssa.Alloc
	seen := map[*ssa.Alloc]bool{}
	add := func(a *ssa.Alloc) {
		if !seen[a] && eng.TypeKey(eng.Deref(a.Type())) == "golang.org/x/tools/go/packages.Config" {
			seen[a] = true
			res = append(res, a)
		}
	}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || d > 12 {
			return
		}
		switch x := v.(type) {
		case *ssa.Alloc:
			if eng.TypeKey(eng.Deref(x.Type())) == "golang.org/x/tools/go/packages.Config" {
				add(x)
			}
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					walk(s.Val, d+1)
				}
			}
		case *ssa.UnOp:
			walk(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, d+1)
			}
		case *ssa.Parameter:
			idx := -1
			for i, p := range x.Parent().Params {
				if p == x {
					idx = i
				}
			}
			for _, ci := range c.W.Callers(x.Parent()) {
				walk(eng.ArgOf(ci, idx), d+1)
			}
		case *ssa.FieldAddr, *ssa.Field:
			if fv := eng.FieldVar(v); fv != nil {
				for _, s := range c.W.FieldStores(fv) {
					walk(s.Val, d+1)
				}
			}
		case *ssa.FreeVar:
			c.W.Origins(x, func(o ssa.Value) eng.Step {
				if _, ok := o.(*ssa.FreeVar); ok {
					return eng.Follow
				}
				walk(o, d+1)
				return eng.Stop
			})
		}
	}
	walk(v, 0)
	return res
}

// configField lists the values stored to a field of the given config objects.
func configField(allocs []*ssa.Alloc, fv *types.Var) []*ssa.Store {
	var res []*ssa.Store
	for _, a := range allocs {
		for _, r := range *a.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok && eng.FieldVar(fa) == fv {
				for _, fr := range *fa.Referrers() {
					if s, ok := fr.(*ssa.Store); ok && s.Addr == fa {
						res = append(res, s)
					}
				}
			}
		}
	}
	return res
}

// toolexecLast: the flag list ends (or is a literal) with an explicit -toolexec= decision
// which is not followed by inherited flags.
func (c *Ctx) toolexecDecided(v ssa.Value) bool {
	hasFlag := func(x ssa.Value) bool { return c.derivesConst(x, isToolexecFlag) }
	v = eng.ResolveLocal(v)
	if fv, ok := v.(*ssa.UnOp); ok {
		if _, isF := fv.X.(*ssa.FreeVar); isF {
			ok2, n := true, 0
			c.W.Origins(v, func(o ssa.Value) eng.Step {
				switch o.(type) {
				case *ssa.UnOp, *ssa.FreeVar, *ssa.Alloc:
					return eng.Follow
				}
				n++
				if !c.toolexecDecided(o) {
					ok2 = false
				}
				return eng.Stop
			})
			return ok2 && n > 0
		}
	}
	if call, ok := v.(*ssa.Call); ok {
		if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && len(call.Call.Args) == 2 {
			if hasFlag(call.Call.Args[1]) {
				return true
			}
			// appended something else: it must not be inherited go flags
			return c.toolexecDecided(call.Call.Args[0]) && !c.derivesGoFlags(call.Call.Args[1])
		}
	}
	if !c.derivesGoFlags(v) {
		return hasFlag(v)
	}
	// a helper or expression combining both: the flag must be there; every append with the inherited flags as base
	// or operand is checked where it happens
	ok := false
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		if call, isC := o.(*ssa.Call); isC {
			if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && hasFlag(call.Call.Args[len(call.Call.Args)-1]) {
				ok = true
				return eng.Stop
			}
		}
		return eng.Follow
	})
	return ok
}

func (c *Ctx) derivesGoFlags(v ssa.Value) bool {
	return c.derivesCall(v, "internal/goflags.Flags", "internal/goflags.CommandFlags.Slice")
}

func runRecursion(c *Ctx) {
	w := c.W
	const P = "internal/jobserver/pkgs"
	rTool := c.Rule("nested-load-decides-toolexec", "every go/packages load of the job server or of the flag parser, and every load which inherits go flags or makes go build packages, ends its flags with an explicit -toolexec= setting")
	rA := c.Rule("rebuild-all-not-inherited", "loads which compile packages through orchestrion drop the inherited -a and -toolexec flags")
	rEdge := c.Rule("cycle-edge-before-build", "a resolve request that comes from a nested build registers its dependency edge before any build is started or waited for, and fails if that closes a cycle")
	rArgs := c.Rule("cycle-edge-identity", "the registered edge goes from the package whose resolution started this build to the package being compiled, and the same identifier is handed to the builds started in turn")
	rGraph := c.Rule("graph-rejects-cycles", "the dependency graph only inserts an edge when source and target differ and no path leads from target to source; the path search never discards a path it found")
	rEnv := c.Rule("nested-builds-use-this-server", "nested builds are given this job server's URL and the test-variant marker, so that they neither start a server nor resolve test variants again")

	fBF := c.extField("golang.org/x/tools/go/packages", "Config", "BuildFlags")
	fMode := c.extField("golang.org/x/tools/go/packages", "Config", "Mode")
	fEnv := c.extField("golang.org/x/tools/go/packages", "Config", "Env")
	fTests := c.extField("golang.org/x/tools/go/packages", "Config", "Tests")
	if fBF == nil || fMode == nil || fEnv == nil {
		rTool.Bad("packages.Config", "-", "go/packages configuration type not found")
		return
	}
	var building int64
	for _, n := range []string{"NeedExportFile", "NeedTypes", "NeedTypesInfo", "NeedSyntax", "NeedCompiledGoFiles", "NeedForTest"} {
		building |= c.extConst("golang.org/x/tools/go/packages", n)
	}
	export := c.extConst("golang.org/x/tools/go/packages", "NeedExportFile")

	var loads []ssa.CallInstruction
	for _, f := range w.Funcs {
		r := eng.Rel(f)
		if strings.Contains(r, "/generator") || strings.HasPrefix(r, "_") {
			continue
		}
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) == packagesLoad {
				loads = append(loads, ci)
			}
		}
	}
	for _, ld := range loads {
		fn := ld.Parent()
		rel := eng.Rel(fn)
		allocs := c.configAllocs(ld.Common().Args[0])
		name := short(fn) + " loads packages"
		if len(allocs) == 0 {
			rTool.Bad(name, w.At(ld), "the configuration of this load could not be determined")
			continue
		}
		strict := strings.HasPrefix(rel, "internal/jobserver") || rel == "internal/goflags"
		flags := configField(allocs, fBF)
		modes := configField(allocs, fMode)
		builds := false
		exports := false
		for _, m := range modes {
			n, ok := eng.ConstInt(m.Val)
			if !ok || n&building != 0 {
				builds = true
			}
			if !ok || n&export != 0 {
				exports = true
			}
		}
		inherits := false
		for _, s := range flags {
			inherits = inherits || c.derivesGoFlags(s.Val)
		}
		if !strict && !builds && !inherits {
			rTool.OK(name+" (metadata only)", w.At(ld))
			continue
		}
		ok := len(flags) > 0
		for _, s := range flags {
			if !c.toolexecDecided(s.Val) {
				// a later store that replaces flags but keeps them (filtering) is fine when it derives from decided flags
				if !c.derivesConst(s.Val, isToolexecFlag) {
					ok = false
				} else if c.derivesGoFlags(s.Val) && !c.filtersConfigFlags(s.Val, fBF) {
					ok = false
				}
			}
		}
		rTool.Check(ok, name, w.At(ld), "the flags of this load leave -toolexec to the inherited flags: the nested go command can run orchestrion again without end")
		if exports && inherits && strings.HasPrefix(rel, P) {
			ok := false
			for _, s := range flags {
				c.W.Origins(s.Val, func(o ssa.Value) eng.Step {
					if call, isC := o.(*ssa.Call); isC && eng.MKey(call) == "internal/goflags.CommandFlags.Except" {
						if c.derivesConst(call.Call.Args[1], func(s string) bool { return s == "-a" }) {
							ok = true
						}
					}
					return eng.Follow
				})
			}
			rA.Check(ok, name, w.At(ld), "-a is passed on to a nested build: every package is rebuilt at every nesting level")
		}
	}
	rTool.Min(9)
	rA.Min(1)

	// --- edges
	resolve := rEdge.Fn(P, "service.resolve")
	fParent := rArgs.Field(P, "ResolveRequest", "resolveParentID")
	fTool := rArgs.Field(P, "ResolveRequest", "toolexecImportpath")
	if resolve == nil || fParent == nil || fTool == nil {
		return
	}
	region := c.Region(resolve)
	isAdd := func(ci ssa.CallInstruction) bool { return keyIs(ci, "internal/jobserver/common.Graph.AddEdge") }
	isRem := func(ci ssa.CallInstruction) bool { return keyIs(ci, "internal/jobserver/common.Graph.RemoveEdge") }
	add := w.CallEvent(isAdd)
	noParent := func(l eng.Lit) bool {
		return w.Implies(l, func(l eng.Lit) bool {
			return emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, fParent) }) == "empty"
		})
	}
	nAdd := 0
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			switch {
			case isAdd(ci):
				nAdd++
				name := short(f) + " adds the edge"
				rArgs.Check(isFieldVal(ci.Common().Args[1], fParent) && isFieldVal(ci.Common().Args[2], fTool), name, w.At(ci), "the edge does not go from the resolving parent to the package being compiled")
				// guarded by nothing but the presence of a parent
				okG := true
				for _, l := range eng.DomLits(ci.Block()) {
					if !w.Implies(l, func(l eng.Lit) bool {
						return emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, fParent) || isFieldVal(v, fTool) }) == "nonempty" || nilLit(l, func(v ssa.Value) bool { return eng.IsErrorType(v.Type()) }) == "nil"
					}) {
						okG = false
					}
				}
				rEdge.Check(okG, name, w.At(ci), "the edge is only registered under an additional condition")
				fate, exit := w.Fate(ci)
				rEdge.Check(fate == eng.ErrPropagated, name+": cycle error", w.At(ci), "a detected cycle does not fail the request (%s)", atOr(w, exit))
				// removed when done
				rem := func(in ssa.Instruction) bool {
					x, ok := in.(ssa.CallInstruction)
					return ok && isRem(x)
				}
				leak := w.MustFollow(ci, w.LiftEvent(rem), nil, w.ErrFailed(ci))
				rEdge.Check(leak == nil, name+": removed", w.At(ci), "the edge is not removed when the request completes: later, legitimate requests fail as cyclic")
			case isRem(ci):
				name := short(f) + " removes the edge"
				rArgs.Check(isFieldVal(ci.Common().Args[1], fParent) && isFieldVal(ci.Common().Args[2], fTool), name, w.At(ci), "the removed edge is not the one that was added")
				if _, isDefer := ci.(*ssa.Defer); !isDefer {
					// must not be removed before the build
					bad := false
					for _, f2 := range region {
						for _, l := range eng.Calls(f2) {
							if keyIs(l, "internal/jobserver/common.Cache.Load") && f2 == f && eng.CanReach(ci, l) {
								bad = true
							}
						}
					}
					rEdge.Check(!bad, name+": not early", w.At(ci), "the edge is removed before the build it stands for is done")
				} else {
					// deferred only after a successful AddEdge
					rEdge.Check(w.PrecededIn(ci, func(in ssa.Instruction) bool { x, ok := in.(ssa.CallInstruction); return ok && isAdd(x) }), name+": after adding", w.At(ci), "an edge is removed that this request did not add")
				}
			}
		}
	}
	if nAdd == 0 {
		rEdge.Bad("AddEdge", w.Pos(resolve.Pos()), "resolve requests no longer register dependency edges: a cycle deadlocks the job server")
	}
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			if keyIs(ci, "internal/jobserver/common.Cache.Load") || eng.Key(ci) == packagesLoad {
				rEdge.Check(!w.EntryReachesUp(ci, add, noParent), short(f)+" "+eng.MKey(ci), w.At(ci), "a build can be started or waited for before the dependency edge is registered")
			}
		}
	}
	rEdge.Min(5)

	// environment callbacks
	pairs := map[string]*types.Var{"TOOLEXEC_IMPORTPATH": fTool, "ORCHESTRION_PKG.RESOLVE_PARENT_ID": fParent}
	found := map[string]bool{}
	for _, f := range w.FuncsIn(P) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			k, ok := eng.ConstString(m.Key)
			if !ok || pairs[k] == nil {
				return
			}
			cb, _ := eng.Unwrap(m.Value).(*ssa.Function)
			if cb == nil {
				return
			}
			found[k] = true
			st := fieldStores(c.Region(cb), pairs[k])
			okS := len(st) > 0
			for _, s := range st {
				okS = okS && c.derives(s.Val, func(o ssa.Value) bool { p, isP := o.(*ssa.Parameter); return isP && p.Parent() == cb })
			}
			rArgs.Check(okS, "variable "+k, w.At(in), "%s is not recorded as %s", k, pairs[k].Name())
		})
	}
	for k, fv := range pairs {
		if !found[k] {
			// switch-based parsing: some store to the field under name == k
			ok := false
			for _, f := range w.FuncsIn(P) {
				for _, s := range fieldStores([]*ssa.Function{f}, fv) {
					if w.MustHold(s, func(l eng.Lit) bool { return cmpLit(l, func(v ssa.Value) bool { return true }, isStr(k)) == 1 }) {
						ok = true
					}
				}
			}
			rArgs.Check(ok, "variable "+k, "-", "%s is no longer read from the request's environment", k)
		}
	}
	// handed to children: every Env of a strict load derives from an append of ("PARENT_ID", toolexecImportpath)
	for _, ld := range loads {
		fn := ld.Parent()
		if eng.Rel(fn) != P || keyRegion(region, fn) == false {
			continue
		}
		allocs := c.configAllocs(ld.Common().Args[0])
		envs := configField(allocs, fEnv)
		ok := len(envs) > 0
		for _, s := range envs {
			if !c.derivesConst(s.Val, func(x string) bool {
				return x == "ORCHESTRION_PKG.RESOLVE_PARENT_ID" || strings.HasPrefix(x, "ORCHESTRION_PKG.RESOLVE_PARENT_ID=")
			}) || !c.derivesField(s.Val, fTool) {
				ok = false
			}
		}
		rArgs.Check(ok, short(fn)+" child environment", w.At(ld), "nested builds do not learn which package's resolution started them")
		// a load of test variants marks the environment
		tests := configField(allocs, fTests)
		isTests := false
		for _, t := range tests {
			if b, ok := eng.ConstBool(t.Val); !ok || b {
				if t.Parent() == fn || keyRegion(c.Region(fn), t.Parent()) {
					isTests = true
				}
			}
		}
		if isTests {
			okT := false
			for _, s := range envs {
				if s.Parent() == fn && c.derivesConst(s.Val, func(x string) bool { return strings.HasPrefix(x, "ORCHESTRION_RESOLVING_TEST_VARIANTS") }) && w.PrecededIn(ld, func(in ssa.Instruction) bool { return in == ssa.Instruction(s) }) {
					okT = true
				}
			}
			rEnv.Check(okT, short(fn)+" test variants", w.At(ld), "a nested load of test variants is not marked as such: its test mains are woven and resolve test variants again")
		}
	}
	// the append of the parent id is only conditional on its presence
	nApp := 0
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			b, isB := call.Call.Value.(*ssa.Builtin)
			if !isB || b.Name() != "append" || len(call.Call.Args) < 2 {
				continue
			}
			if c.localConst(call.Call.Args[1], "ORCHESTRION_PKG.RESOLVE_PARENT_ID") {
				nApp++
				okG := true
				for _, l := range eng.DomLits(call.Block()) {
					if !w.Implies(l, func(l eng.Lit) bool {
						return emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, fTool) }) == "nonempty"
					}) && mentionsField(l.V, c, P) {
						okG = false
					}
				}
				rArgs.Check(okG, short(f)+" passes the parent id", w.At(call), "the parent identifier is only handed to nested builds under an additional condition")
			}
		}
	}
	if nApp == 0 {
		rArgs.Bad("parent id", "-", "the parent identifier is no longer handed to nested builds")
	}
	rArgs.Min(7)

	// server URL
	fURL := rEnv.Field(P, "service", "serverURL")
	fReqEnv := rEnv.Field(P, "ResolveRequest", "Env")
	if fURL != nil && fReqEnv != nil {
		ev := func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			return ok && eng.FieldVar(fa) == fReqEnv && c.derivesField(s.Val, fURL) && c.derivesConst(s.Val, func(x string) bool { return strings.HasPrefix(x, "ORCHESTRION_JOBSERVER_URL") })
		}
		lifted := w.LiftEvent(ev)
		for _, f := range region {
			for _, ci := range eng.Calls(f) {
				if keyIs(ci, "internal/jobserver/common.Cache.Load") {
					ok, _ := w.MustPrecede(ci, lifted, nil)
					rEnv.Check(ok, short(f)+" "+eng.MKey(ci), w.At(ci), "builds can be started without this job server's URL in their environment")
				}
			}
		}
		// stored where the last value of a variable wins or canonicalisation happens after
		for _, f := range region {
			for _, ci := range eng.Calls(f) {
				if keyIs(ci, P+".ResolveRequest.canonicalize") && f == resolve {
					rEnv.Check(w.PrecededIn(ci, ev), "canonicalised after adding the URL", w.At(ci), "the environment is canonicalised before the server URL is added: requests from processes with different URLs do not share cached results")
				}
			}
		}
	}
	// ResolvingTestVariants guards the weaving of test mains
	for _, n := range []string{"Weaver.OnCompile", "Weaver.OnCompileMain"} {
		f := rEnv.Fn("internal/toolexec/aspect", n)
		if f == nil {
			continue
		}
		calls := c.callsKey(c.Region(f), P+".ResolvingTestVariants")
		rEnv.Check(len(calls) > 0, n+" skips nested test mains", w.Pos(f.Pos()), "test mains of nested test-variant loads are woven, which resolves test variants again")
	}
	rEnv.Min(6)

	// --- graph
	addFn := rGraph.Fn("internal/jobserver/common", "Graph.AddEdge")
	fNodes := rGraph.Field("internal/jobserver/common", "Graph", "nodes")
	if addFn == nil || fNodes == nil {
		return
	}
	gr := c.Region(addFn)
	var from, to ssa.Value = addFn.Params[1], addFn.Params[2]
	searchCall := func(v ssa.Value) bool {
		call := callOf(v)
		if call == nil {
			return false
		}
		args := call.Call.Args
		iF, iT := -1, -1
		for i, a := range args {
			if c.sameOrParam(a, to) && iF < 0 {
				iF = i
			}
			if c.sameOrParam(a, from) {
				iT = i
			}
		}
		return iF >= 0 && iT > iF
	}
	nIns := 0
	instrs(gr, func(f *ssa.Function, in ssa.Instruction) {
		m, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		nIns++
		name := short(f) + " inserts " + mapDesc(m)
		rGraph.Check(w.MustHold(in, func(l eng.Lit) bool {
			return cmpLit(l, func(v ssa.Value) bool { return c.sameOrParam(v, from) }, func(v ssa.Value) bool { return c.sameOrParam(v, to) }) == -1 ||
				searchEmpty(l, searchCall)
		}) && w.MustHold(in, func(l eng.Lit) bool { return searchEmpty(l, searchCall) }), name+": no path back", w.At(in), "the edge is inserted without having checked that its target does not lead back to its source")
		rGraph.Check(w.MustHold(in, func(l eng.Lit) bool {
			return cmpLit(l, func(v ssa.Value) bool { return c.sameOrParam(v, from) }, func(v ssa.Value) bool { return c.sameOrParam(v, to) }) == -1
		}), name+": not a self edge", w.At(in), "an edge from a package to itself is accepted")
	})
	rGraph.Check(nIns >= 2, "insertion", w.Pos(addFn.Pos()), "AddEdge no longer records edges")
	// search results are only replaced by found paths
	for _, f := range gr {
		if f == addFn {
			continue
		}
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				return
			}
			for i, e := range ph.Edges {
				call, ok := e.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != f {
					continue
				}
				// the edge must carry "call result is non-nil / non-empty"
				pred := ph.Block().Preds[i]
				ok = false
				lits := eng.DomLits(pred)
				if l, has := eng.EdgeLit(pred, ph.Block()); has {
					lits = append(lits, l)
				}
				for _, l := range lits {
					if w.Implies(l, func(l eng.Lit) bool {
						return emptyLit(l, func(v ssa.Value) bool { return v == ssa.Value(call) }) == "nonempty"
					}) {
						ok = true
					}
				}
				rGraph.Check(ok, short(f)+" keeps found paths", w.At(call), "a path found through one child is discarded when another child has none: cycles are missed depending on map order")
			}
		})
	}
	// every child is searched: the recursion only stops early with a result
	for _, f := range gr {
		if f == addFn {
			continue
		}
		rets := eng.Returns(f)
		for _, r := range rets {
			if len(r.Results) == 0 {
				continue
			}
			if eng.IsNilConst(r.Results[0]) {
				inLoop := false
				for _, ci := range eng.Calls(f) {
					if ci.Common().StaticCallee() == f && eng.CanReach(r, ci) {
						inLoop = true
					}
				}
				// a nil return from within the loop body gives up before looking at the remaining children
				early := false
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if nx, ok := in.(*ssa.Next); ok && b.Dominates(r.Block()) {
							// dominated by the loop header: fine only when reached through loop exhaustion
							exhausted := false
							for _, l := range eng.DomLits(r.Block()) {
								if ex, ok := l.V.(*ssa.Extract); ok && ex.Tuple == nx && ex.Index == 0 && !l.Pol {
									exhausted = true
								}
							}
							if !exhausted {
								early = true
							}
						}
					}
				}
				rGraph.Check(!inLoop && !early, short(f)+" gives up only after all children", w.At(r), "the search reports no path before all children were visited")
			}
		}
	}
	// removal
	if rf := rGraph.Fn("internal/jobserver/common", "Graph.RemoveEdge"); rf != nil {
		instrs(c.Region(rf), func(f *ssa.Function, in ssa.Instruction) {
			call, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "delete" {
				if isFieldVal(call.Call.Args[0], fNodes) {
					rGraph.Check(w.MustHold(in, func(l eng.Lit) bool {
						return lenCmp(l, func(v ssa.Value) bool {
							lk, ok := v.(*ssa.Lookup)
							return ok && isFieldVal(lk.X, fNodes)
						}) == "empty"
					}), short(f)+" drops a node", w.At(in), "all the edges of a package are dropped although other requests still hold some")
				}
			}
		})
	}
	rGraph.Min(5)
}

func searchEmpty(l eng.Lit, search func(ssa.Value) bool) bool {
	if emptyLit(l, search) == "empty" {
		return true
	}
	// boolean reachability helper: !reaches(to, from)
	if search(l.V) && !l.Pol {
		if b, ok := l.V.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return true
		}
	}
	return false
}

func mapDesc(m *ssa.MapUpdate) string {
	return strings.TrimPrefix(eng.TypeKey(m.Map.Type()), "map") + "entry"
}

func atOr(w *eng.World, in ssa.Instruction) string {
	if in == nil {
		return "discarded"
	}
	return "exit at " + w.At(in)
}

func keyRegion(region []*ssa.Function, f *ssa.Function) bool {
	for _, g := range region {
		if g == f {
			return true
		}
	}
	return false
}

// localConst: the variadic slice (or value) contains a constant equal to s, directly or as a Sprintf operand.
func (c *Ctx) localConst(v ssa.Value, s string) bool {
	hit := false
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		if x, ok := eng.ConstString(o); ok && (x == s || strings.HasPrefix(x, s+"=")) {
			hit = true
		}
		switch o := o.(type) {
		case *ssa.FieldAddr, *ssa.Field, *ssa.FreeVar, *ssa.Parameter, *ssa.Lookup, *ssa.Global:
			return eng.Stop
		case *ssa.Extract:
			if _, ok := o.Tuple.(*ssa.Next); ok {
				return eng.Stop
			}
		case *ssa.Call:
			if b, ok := o.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return eng.Stop
			}
		}
		return eng.Follow
	})
	return hit
}

// mentionsField: the literal's value reads a field of a struct of the given package.
func mentionsField(v ssa.Value, c *Ctx, rel string) bool {
	return c.derives(v, func(o ssa.Value) bool {
		fv := eng.FieldVarOf(o)
		return fv != nil && fv.Pkg() != nil && strip(fv.Pkg().Path()) == rel
	})
}

// filtersConfigFlags: the value is rebuilt from the flags the configuration already had.
func (c *Ctx) filtersConfigFlags(v ssa.Value, fBF *types.Var) bool {
	return c.derives(v, func(o ssa.Value) bool { return isField(o, fBF) })
}

func runCacheKeys(c *Ctx) {
	w := c.W
	const P = "internal/jobserver/pkgs"
	rKey := c.Rule("cache-key-covers-request", "everything of a request that influences a cached computation is part of its cache key")
	rIgn := c.Rule("ignored-environment", "only environment variables known not to influence resolution are left out of the cache key")
	rCan := c.Rule("canonical-environment", "a request's environment is canonicalised (sorted, last assignment wins) before it is hashed")
	rSlot := c.Rule("slot-typestate", "a cache slot is filled only with the result of a successful load, at most once, and served only once filled")
	rOnce := c.Rule("memoised-after-success", "a memoised result is only stored once every step that computes it has succeeded")
	rShare := c.Rule("cached-values-immutable", "a value shared through a cache is copied before being modified for one request")

	// struct fields → key
	req := w.Type(P, "ResolveRequest")
	resolve := rKey.Fn(P, "service.resolve")
	hash := rKey.Fn(P, "ResolveRequest.hash")
	if req == nil || resolve == nil || hash == nil {
		if req == nil {
			rKey.Bad("ResolveRequest", "-", "request type not found")
		}
		return
	}
	region := c.Region(resolve)
	// what the key is made of
	encodesAll := false
	for _, ci := range eng.CallsIn(c.Region(hash)) {
		k := eng.Key(ci)
		if k == "encoding/json.Encoder.Encode" || k == "encoding/json.Marshal" {
			arg := ci.Common().Args[len(ci.Common().Args)-1]
			v := eng.Unwrap(arg)
			if eng.NamedOf(v.Type()) == req {
				encodesAll = true
				ok, why := w.MustPrecede(ci, c.keyEvent(P+".ResolveRequest.canonicalize"), nil)
				rCan.Check(ok, short(ci.Parent())+" canonicalises first", w.At(ci), "the request is hashed without canonicalising its environment (%v)", why)
				checkErr := w
				f, _ := checkErr.Fate(ci)
				rKey.Check(f == eng.ErrPropagated, short(ci.Parent())+" encoding error", w.At(ci), "a failure to encode the request yields a truncated key")
			}
		}
	}
	hashedDirect := map[*types.Var]bool{}
	if !encodesAll {
		for _, fv := range structFields(req) {
			if len(fieldLoads(c.Region(hash), fv)) > 0 {
				hashedDirect[fv] = true
			}
		}
	}
	exempt := map[string]string{
		"toolexecImportpath": "only identifies the requester for cycle detection",
		"resolveParentID":    "only identifies the requester for cycle detection",
		"canonical":          "bookkeeping",
	}
	st := req.Underlying().(*types.Struct)
	for i, fv := range structFields(req) {
		used := len(fieldLoads(region, fv)) > 0
		tag := structTag(st.Tag(i), "json")
		covered := hashedDirect[fv]
		if encodesAll {
			covered = fv.Exported() && tag != "-"
		}
		name := "ResolveRequest." + fv.Name()
		if exempt[fv.Name()] != "" && !fv.Exported() {
			rKey.OK(name+" (exempt: "+exempt[fv.Name()]+")", w.Pos(fv.Pos()))
			continue
		}
		rKey.Check(covered || !used, name, w.Pos(fv.Pos()), "%s influences the resolution but is not part of the cache key: different requests share a result", fv.Name())
	}
	// distinct JSON names
	names := map[string]string{}
	for i, fv := range structFields(req) {
		tag := structTag(st.Tag(i), "json")
		n := strings.Split(tag, ",")[0]
		if n == "" {
			n = fv.Name()
		}
		if fv.Exported() && n != "-" {
			rKey.Check(names[strings.ToLower(n)] == "", "ResolveRequest."+fv.Name()+" json name", w.Pos(fv.Pos()), "shares its encoded name with %s: neither is encoded", names[strings.ToLower(n)])
			names[strings.ToLower(n)] = fv.Name()
		}
	}
	// cache Load calls
	fRes := rKey.Field(P, "service", "resolved")
	fLoaded := rKey.Field(P, "service", "loaded")
	fDir := w.Field(P, "LoadRequest", "Dir")
	fPat := w.Field(P, "LoadRequest", "Patterns")
	nLoads := 0
	for _, f := range w.FuncsIn(P) {
		for _, ci := range eng.Calls(f) {
			if !keyIs(ci, "internal/jobserver/common.Cache.Load") {
				continue
			}
			nLoads++
			key := ci.Common().Args[1]
			recv := ci.Common().Args[0]
			name := short(f) + " key"
			switch {
			case cacheOf(recv, fRes):
				// the key is the hash of the request the loader uses
				hc := c.hashReceiver(key)
				lr := c.loaderRequests(ci.Common().Args[2])
				ok := hc != nil && len(lr) > 0
				for _, r := range lr {
					if !sameObj(c, r, hc) {
						ok = false
					}
				}
				rKey.Check(ok, name, w.At(ci), "the key is not the hash of the very request the loader resolves")
				if hc != nil {
					ec := hashCallOf(key)
					if ec != nil {
						fate, _ := w.Fate(ec)
						rKey.Check(fate == eng.ErrPropagated, name+" error", w.At(ec), "a failed hash is used as key")
					}
				}
			case cacheOf(recv, fLoaded):
				rKey.Check(fDir != nil && fPat != nil && c.derivesField(key, fDir) && (c.derivesField(key, fPat)), name, w.At(ci), "the key of a package load does not include both its directory and its pattern")
				// what the loader reads is in the key: Dir and the pattern
				for _, fl := range closureArgs(c, ci.Common().Args[2]) {
					for _, fv := range structFields(w.Type(P, "LoadRequest")) {
						if len(fieldLoads(eng.WithAnon(fl), fv)) > 0 {
							rKey.Check(c.derivesField(key, fv), name+" covers "+fv.Name(), w.At(ci), "%s influences the load but is not part of its key", fv.Name())
						}
					}
				}
				// a separator keeps (dir, pattern) pairs apart
				rKey.Check(c.derivesConst(key, func(s string) bool { return strings.ContainsAny(s, "\x00") }), name+" separator", w.At(ci), "directory and pattern are joined without a separator that cannot occur in either: different pairs share a key")
			default:
				rKey.Bad(name, w.At(ci), "unknown cache")
			}
		}
	}
	rKey.Check(nLoads >= 3, "cache accesses", "-", "cached loads not found")
	rKey.Min(12)

	// ignore list
	allow := map[string]string{
		"PWD":                                 "superseded by the request's directory",
		"GOTMPDIR":                            "kept as the request's temporary directory",
		"TOOLEXEC_IMPORTPATH":                 "identifies the requester",
		"ORCHESTRION_PKG.RESOLVE_PARENT_ID":   "identifies the requester",
		"ORCHESTRION_RESOLVING_TEST_VARIANTS": "set by the job server for its own nested loads",
	}
	nIgn := 0
	for _, f := range w.FuncsIn(P) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			mt, ok := m.Map.Type().Underlying().(*types.Map)
			if !ok {
				return
			}
			if _, isFn := mt.Elem().Underlying().(*types.Signature); !isFn {
				return
			}
			k, ok := eng.ConstString(m.Key)
			nIgn++
			rIgn.Check(ok && allow[k] != "", "ignores "+k, w.At(in), "%q is left out of the cache key although it can change what is built", k)
			if k == "GOTMPDIR" {
				cb, _ := eng.Unwrap(m.Value).(*ssa.Function)
				fT := w.Field(P, "ResolveRequest", "TempDir")
				rIgn.Check(cb != nil && fT != nil && len(fieldStores(c.Region(cb), fT)) > 0, "keeps GOTMPDIR", w.At(in), "the requested GOTMPDIR is dropped")
			}
		})
	}
	rIgn.Min(4)

	// canonicalisation
	if f := rCan.Fn(P, "ResolveRequest.canonicalizeEnviron"); f != nil {
		fEnv := rCan.Field(P, "ResolveRequest", "Env")
		cr := c.Region(f)
		var sorts []ssa.Instruction
		for _, ci := range eng.CallsIn(cr) {
			k := eng.Key(ci)
			if k == "slices.Sort" || k == "sort.Strings" || k == "slices.Sorted" || k == "slices.SortFunc" || k == "sort.Slice" {
				sorts = append(sorts, ci)
			}
		}
		rCan.Check(len(sorts) > 0, "environment sorted", w.Pos(f.Pos()), "the environment is not brought into a canonical order: equal environments hash differently")
		if len(sorts) > 0 && fEnv != nil {
			// env rebuilt in sorted order: the final elements are appended after the sort
			last := false
			for _, s := range fieldStores(cr, fEnv) {
				for _, so := range sorts {
					if so.Parent() == s.Parent() && eng.CanReach(so, s) {
						last = true
					}
				}
			}
			for _, so := range sorts { // or the field itself is sorted
				if ci := so.(ssa.CallInstruction); len(ci.Common().Args) > 0 && c.derivesField(ci.Common().Args[0], fEnv) {
					last = true
				}
			}
			rCan.Check(last, "environment rebuilt in order", w.Pos(f.Pos()), "the request's environment is not rebuilt from the sorted names")
		}
		// last assignment wins: the name→assignment map is updated for every variable, not only the first
		instrs(cr, func(f *ssa.Function, in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			guarded := false
			for _, l := range eng.DomLits(in.Block()) {
				if ex, ok := l.V.(*ssa.Extract); ok && ex.Index == 1 {
					if lk, ok := ex.Tuple.(*ssa.Lookup); ok && lk.X == m.Map && !l.Pol {
						guarded = true
					}
				}
			}
			rCan.Check(!guarded, short(f)+" last assignment wins", w.At(in), "the first assignment of a variable wins, unlike for the processes it is passed to: the server URL set by the job server is dropped")
		})
		// idempotence flag: only set here after canonicalising
		fC := w.Field(P, "ResolveRequest", "canonical")
		if fC != nil {
			for _, g := range w.FuncsIn(P) {
				for _, s := range fieldStores([]*ssa.Function{g}, fC) {
					if b, ok := eng.ConstBool(s.Val); ok && b {
						rCan.Check(w.PrecededIn(s, c.keyEvent(P+".ResolveRequest.canonicalizeEnviron")), short(g)+" marks canonical", w.At(s), "a request is marked canonical without having been canonicalised")
					}
				}
			}
		}
	}
	rCan.Min(4)

	c.requestsApart(rShare)

	// --- slots
	const C = "internal/jobserver/common"
	fLd := rSlot.Field(C, "slot", "loaded")
	fVal := rSlot.Field(C, "slot", "value")
	load := rSlot.Fn(C, "Cache.Load")
	if fLd != nil && fVal != nil && load != nil {
		lr := c.Region(load)
		var loaderCalls []ssa.CallInstruction
		for _, ci := range eng.CallsIn(lr) {
			if !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil {
				if _, isB := ci.Common().Value.(*ssa.Builtin); !isB && eng.ErrIndex(ci.Common().Signature()) >= 0 {
					loaderCalls = append(loaderCalls, ci)
				}
			}
		}
		rSlot.Check(len(loaderCalls) == 1, "loader invoked once", w.Pos(load.Pos()), "the cache invokes the loader at %d places", len(loaderCalls))
		for _, lc := range loaderCalls {
			ok := w.MustHold(lc, func(l eng.Lit) bool { return isFieldVal(l.V, fLd) && !l.Pol })
			rSlot.Check(ok, "loads only when empty", w.At(lc), "the loader runs although the slot is already filled")
			mu := (*types.Var)(nil)
			for _, f := range structFields(w.Type(C, "slot")) {
				if k := eng.TypeKey(f.Type()); k == "sync.Mutex" || k == "sync.RWMutex" {
					mu = f.Origin()
				}
			}
			rSlot.Check(mu != nil && w.HeldAt(lc, mu, true, nil), "single flight", w.At(lc), "two requests for the same key can run the loader at the same time")
			fate, exit := w.Fate(lc)
			rSlot.Check(fate == eng.ErrPropagated, "load error returned", w.At(lc), "a failed load is reported as success (%s)", atOr(w, exit))
			for _, fv := range []*types.Var{fLd, fVal} {
				for _, s := range w.FieldStores(fv) {
					_ = s
				}
				for _, s := range fieldStores(w.FuncsIn(C), fv) {
					rSlot.Check(w.MustHold(s, c.succeeded(lc)), short(s.Parent())+" stores "+fv.Name(), w.At(s), "the slot's %s is set although the load may have failed: the failure is cached", fv.Name())
					if fv == fVal {
						rSlot.Check(c.derives(s.Val, func(o ssa.Value) bool { return callOf(o) == lc.(*ssa.Call) }), short(s.Parent())+" stores the loaded value", w.At(s), "the slot is filled with something else than the loaded value")
					}
				}
			}
			// filled when successful
			setLd := w.LiftEvent(func(in ssa.Instruction) bool {
				s, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				b, isT := eng.ConstBool(s.Val)
				return ok && eng.FieldVar(fa) == fLd && isT && b
			})
			leak := w.MustFollow(lc, setLd, nil, w.ErrFailed(lc))
			rSlot.Check(leak == nil, "success is cached", w.At(lc), "a successful load is not recorded: it runs again for every request")
			setV := w.LiftEvent(func(in ssa.Instruction) bool {
				s, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				return ok && eng.FieldVar(fa) == fVal
			})
			leak = w.MustFollow(lc, setV, nil, w.ErrFailed(lc))
			rSlot.Check(leak == nil, "value is cached", w.At(lc), "a slot is marked as filled without its value")
		}
		for _, f := range lr {
			for _, in := range fieldLoads([]*ssa.Function{f}, fVal) {
				ok := w.MustHold(in, func(l eng.Lit) bool { return isFieldVal(l.V, fLd) && l.Pol }) || w.PrecededIn(in, func(x ssa.Instruction) bool {
					s, ok := x.(*ssa.Store)
					if !ok {
						return false
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					return ok && eng.FieldVar(fa) == fVal
				})
				rSlot.Check(ok, short(f)+" serves a filled slot", w.At(in), "a slot's value is served before it was filled")
			}
		}
	}
	rSlot.Min(8)

	// --- memoised results: fields / variables used as caches outside common.Cache
	if fv := rOnce.Field("internal/jobserver/buildid", "service", "resolvedVersion"); fv != nil {
		f := rOnce.Fn("internal/jobserver/buildid", "service.versionSuffix")
		if f != nil {
			for _, s := range fieldStores(w.FuncsIn("internal/jobserver/buildid"), fv) {
				for _, ci := range eng.Calls(s.Parent()) {
					if eng.ErrIndex(ci.Common().Signature()) < 0 || !eng.CanReach(ci, s) {
						continue
					}
					if _, isDefer := ci.(*ssa.Defer); isDefer {
						continue
					}
					fate, exit := w.Fate(ci)
					rOnce.Check(fate == eng.ErrPropagated, short(s.Parent())+" "+eng.MKey(ci), w.At(ci), "the version suffix is memoised although %s may have failed (%s)", eng.MKey(ci), atOr(w, exit))
				}
			}
			for _, in := range fieldLoads([]*ssa.Function{f}, fv) {
				_ = in
			}
		}
	}
	if g := w.Func("internal/goenv", "modulePath"); g != nil {
		instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
			m, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			for _, ci := range eng.Calls(g) {
				if eng.Key(ci) == packagesLoad {
					rOnce.Check(w.MustHold(in, c.succeeded(ci)), "internal/goenv.modulePath caches", w.At(in), "the module path is cached although loading it may have failed")
				}
			}
			rOnce.Check(c.derives(m.Key, func(o ssa.Value) bool {
				p, ok := o.(*ssa.Parameter)
				return ok && p.Parent() == g && p.Type().String() == "string"
			}), "internal/goenv.modulePath key", w.At(in), "the module path cache is not keyed by directory")
		})
	}
	rOnce.Min(5)

	// --- aliasing of cached values
	fResp := rShare.Field(P, "resolvedPackageSet", "response")
	for _, f := range region {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			var m ssa.Value
			switch x := in.(type) {
			case *ssa.MapUpdate:
				m = x.Map
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && len(x.Call.Args) > 0 {
					m = x.Call.Args[0]
				}
			}
			if m == nil {
				return
			}
			n := eng.NamedOf(m.Type())
			if n == nil || n.Obj().Name() != "ResolveResponse" {
				return
			}
			shared := false
			w.Origins(m, func(o ssa.Value) eng.Step {
				if _, ok := o.(*ssa.MakeMap); ok {
					return eng.Stop // what it is filled with are archives
				}
				if ci := callOf(o); ci != nil {
					k := eng.Key(ci)
					if k == "maps.Clone" || k == "maps.Collect" {
						return eng.Stop
					}
					if strings.HasSuffix(k, "Cache.Load") {
						shared = true
						return eng.Stop
					}
				}
				if isField(o, fResp) {
					shared = true
					return eng.Stop
				}
				return eng.Follow
			})
			rShare.Check(!shared, short(f)+" modifies a response", w.At(in), "the response modified here may be the one shared through the cache: other requests observe this request's archives")
		})
	}
	// slices of a shared configuration are not appended to in place
	cfgT := func(v ssa.Value) *types.Var {
		u, ok := eng.Unwrap(v).(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || eng.TypeKey(eng.Deref(fa.X.Type())) != "golang.org/x/tools/go/packages.Config" {
			return nil
		}
		return eng.FieldVar(fa)
	}
	for _, f := range w.FuncsIn(P) {
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			b, isB := call.Call.Value.(*ssa.Builtin)
			if !isB || b.Name() != "append" {
				continue
			}
			fv := cfgT(call.Call.Args[0])
			if fv == nil {
				continue
			}
			own := w.PrecededIn(call, func(in ssa.Instruction) bool {
				s, ok := in.(*ssa.Store)
				if !ok {
					return false
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || eng.FieldVar(fa) != fv {
					return false
				}
				return freshSlice(s.Val, map[ssa.Value]bool{})
			})
			rShare.Check(own, short(f)+" appends to "+fv.Name(), w.At(call), "the configuration's %s may share its storage with a cached configuration: concurrent requests overwrite each other's flags", fv.Name())
		}
	}
	// the environment of a cached configuration is replaced by the requester's own
	rShare.Min(3)
}

// cacheOf: the receiver has the type of the cache held by the given field.
func cacheOf(recv ssa.Value, fv *types.Var) bool {
	return fv != nil && types.Identical(eng.Deref(recv.Type()), eng.Deref(fv.Type()))
}

// freshSlice: the slice's storage was allocated here (made, literal, cloned, or appended to such).
func freshSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := eng.ResolveLocal(v).(type) {
	case *ssa.MakeSlice, *ssa.Const:
		return true
	case *ssa.Alloc:
		return true
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return true
		}
		return freshSlice(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return freshSlice(x.Call.Args[0], seen)
		}
		switch eng.Key(x) {
		case "slices.Clone", "slices.Concat", "slices.Collect":
			return true
		}
		if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil {
			rs := eng.Returns(g)
			for _, r := range rs {
				if len(r.Results) != 1 || !freshSlice(r.Results[0], seen) {
					return false
				}
			}
			return len(rs) > 0
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					n++
					if !freshSlice(s.Val, seen) {
						return false
					}
				}
			}
			return n > 0
		}
	}
	return false
}

// hashCallOf finds the hash() call a key comes from.
func hashCallOf(key ssa.Value) *ssa.Call {
	v := eng.ResolveLocal(key)
	if call := callOf(v); call != nil && strings.HasSuffix(eng.MKey(call), "ResolveRequest.hash") {
		return call
	}
	return nil
}

func (c *Ctx) hashReceiver(key ssa.Value) ssa.Value {
	if call := hashCallOf(key); call != nil {
		return call.Call.Args[0]
	}
	var res ssa.Value
	c.W.Origins(key, func(o ssa.Value) eng.Step {
		if call := callOf(o); call != nil && strings.HasSuffix(eng.MKey(call), "ResolveRequest.hash") {
			res = call.Call.Args[0]
			return eng.Stop
		}
		return eng.Follow
	})
	return res
}

// closureArgs lists the functions a loader argument can be.
func closureArgs(c *Ctx, v ssa.Value) []*ssa.Function {
	var res []*ssa.Function
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		switch x := o.(type) {
		case *ssa.MakeClosure:
			if f, ok := x.Fn.(*ssa.Function); ok {
				res = append(res, f)
			}
			return eng.Stop
		case *ssa.Function:
			res = append(res, x)
			return eng.Stop
		}
		return eng.Follow
	})
	return res
}

// loaderRequests lists the requests handed by a loader to the function doing the resolution.
func (c *Ctx) loaderRequests(v ssa.Value) []ssa.Value {
	var res []ssa.Value
	for _, f := range closureArgs(c, v) {
		for _, ci := range eng.Calls(f) {
			if strings.HasSuffix(eng.MKey(ci), ".resolveEnvironment") {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil || g.Signature.Recv() != nil {
				continue
			}
			for _, a := range ci.Common().Args {
				if n := eng.NamedOf(a.Type()); n != nil && n.Obj().Name() == "ResolveRequest" {
					res = append(res, a)
				}
			}
		}
	}
	return res
}

// sameObj: both values denote the same request object (through captured variables and parameters).
func sameObj(c *Ctx, a, b ssa.Value) bool {
	root := func(v ssa.Value) ssa.Value {
		for i := 0; i < 12; i++ {
			switch x := v.(type) {
			case *ssa.FreeVar:
				fn := x.Parent()
				idx := -1
				for i, fv := range fn.FreeVars {
					if fv == x {
						idx = i
					}
				}
				cl := c.W.ClosureSites(fn)
				if len(cl) != 1 {
					return v
				}
				v = cl[0].Bindings[idx]
				continue
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return v
				}
				if _, isPtr := x.Type().Underlying().(*types.Pointer); isPtr {
					// pointer variable: follow its only store
					if src := onlyStore(c, x.X); src != nil {
						v = src
						continue
					}
				}
				v = x.X
				continue
			case *ssa.Alloc:
				if _, isPtr := eng.Deref(x.Type()).Underlying().(*types.Pointer); isPtr {
					if src := onlyStore(c, x); src != nil {
						v = src
						continue
					}
				}
			}
			return v
		}
		return v
	}
	return root(a) == root(b)
}

func onlyStore(c *Ctx, addr ssa.Value) ssa.Value {
	switch a := addr.(type) {
	case *ssa.FreeVar:
		fn := a.Parent()
		for i, fv := range fn.FreeVars {
			if fv == a {
				cl := c.W.ClosureSites(fn)
				if len(cl) == 1 {
					return onlyStore(c, cl[0].Bindings[i])
				}
			}
		}
	case *ssa.Alloc:
		var res ssa.Value
		n := 0
		for _, r := range *a.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == a {
				res = s.Val
				n++
			}
		}
		if n == 1 {
			return res
		}
	}
	return nil
}

// requestsApart: what is kept for other requests is copied before it is changed for one, which uses its own environment.
func (c *Ctx) requestsApart(r *R) {
	w := c.W
	env := r.Field(resolvePkg, "ResolveRequest", "Env")
	resp := r.Field(resolvePkg, "resolvedPackageSet", "response")
	if env == nil || resp == nil {
		return
	}
	isEnv := func(v ssa.Value) bool {
		if isFieldVal(v, env) {
			return true
		}
		u, ok := v.(*ssa.UnOp)
		return ok && (c.extPkgField(u.X, goPackages, "Config", "Env") || c.extPkgField(u.X, goPackages, "Config", "BuildFlags"))
	}
	// direct: v is one of the lists itself (not a copy of it)
	var direct func(v ssa.Value, d int) bool
	direct = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		if isEnv(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, rr := range *al.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(al) && direct(s.Val, d+1) {
						return true
					}
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != ssa.Value(x) && direct(e, d+1) {
					return true
				}
			}
		case *ssa.Slice:
			return x.Max == nil && direct(x.X, d+1)
		case *ssa.Call:
			if a := builtinCall(x, "append"); a != nil {
				return direct(a.Call.Args[0], d+1)
			}
		}
		return false
	}
	n := 0
	fns := w.FuncsIn(resolvePkg)
	instrs(fns, func(f *ssa.Function, in ssa.Instruction) {
		a := builtinCall(in, "append")
		if a == nil || a.Type().String() != "[]string" {
			return
		}
		n++
		base := a.Call.Args[0]
		if !direct(base, 0) {
			r.OK("appended to by "+short(f), w.At(in))
			return
		}
		// kept where it came from
		good := false
		for _, rr := range *a.Referrers() {
			if s, ok := rr.(*ssa.Store); ok {
				if u, ok := base.(*ssa.UnOp); ok && eng.SameAddr(s.Addr, u.X) {
					_, good = u.X.(*ssa.FieldAddr)
				}
			}
		}
		r.Check(good, "appended to by "+short(f), w.At(in), "a list of the request is extended without copying it: requests change each other's environment")
	})
	merges := 0
	for _, f := range fns {
		for _, ci := range eng.Calls(f) {
			if eng.MKey(ci) != resolvePkg+".mergeTestVariant" {
				continue
			}
			merges++
			in := ci.(ssa.Instruction)
			a := ci.Common().Args
			r.Check(!direct2(eng.ResolveLocal(a[3]), resp), "archives copied", w.At(in), "archives cached for other requests are changed")
			// the environment of this very request
			own := func(in ssa.Instruction) bool {
				s, ok := in.(*ssa.Store)
				if !ok || !c.extPkgField(s.Addr, goPackages, "Config", "Env") {
					return false
				}
				call := callOf(eng.ResolveLocal(s.Val))
				return call != nil && eng.MKey(call) == resolvePkg+".resolveEnvironment" && c.sameObject(call.Call.Args[1], a[1])
			}
			ok, _ := w.MustPrecede(in, own, nil)
			r.Check(ok, "environment of the request", w.At(in), "test variants are built with the environment of another request")
		}
	}
	r.Check(merges == 1 && n >= 4, "requests apart", "-", "test variants are merged at %d places, environments extended at %d", merges, n)
	if f := r.Fn(resolvePkg, "resolveEnvironment"); f != nil {
		for _, rt := range eng.Returns(f) {
			r.Check(c.derives(rt.Results[0], func(o ssa.Value) bool { return isFieldVal(o, env) }), "environment given", w.At(rt), "the environment of the request is not used")
		}
	}
}

// direct2: v is the field's value itself.
func direct2(v ssa.Value, fv *types.Var) bool {
	if isFieldVal(v, fv) {
		return true
	}
	if p, ok := v.(*ssa.Phi); ok {
		for _, e := range p.Edges {
			if isFieldVal(e, fv) {
				return true
			}
		}
	}
	return false
}

// sameObject: both are the same pointer.
func (c *Ctx) sameObject(a, b ssa.Value) bool {
	a, b = eng.ResolveLocal(a), eng.ResolveLocal(b)
	if x, ok := a.(*ssa.UnOp); ok {
		if y, ok := b.(*ssa.UnOp); ok {
			return eng.SameAddr(x.X, y.X)
		}
	}
	return a == b
}
