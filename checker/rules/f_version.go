package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "F02", Technique: "value-carry, must-happen and path-sensitive abstract interpretation of the tool version computation", Run: runVersion})
}

const bidPkg = "internal/jobserver/buildid"

// loopsOver lists the loops of fs whose collection satisfies pred.
func loopsOver(fs []*ssa.Function, pred func(ssa.Value) bool) []*eng.Loop {
	var res []*eng.Loop
	for _, f := range fs {
		for _, l := range eng.Loops(f) {
			if l.Over != nil && pred(l.Over) {
				res = append(res, l)
			}
		}
	}
	return res
}

// is makes an event of one instruction.
func is(x ssa.Instruction) eng.Event { return func(in ssa.Instruction) bool { return in == x } }

// builtinCall: in is a call of the named builtin.
func builtinCall(in ssa.Instruction, name string) *ssa.Call {
	call, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != name {
		return nil
	}
	return call
}

// fromCall: v is (through locals, conversions and whole-value copies) a result of a call to one of keys.
func (c *Ctx) fromCall(v ssa.Value, keys ...string) bool {
	return c.W.Carries(v, func(x ssa.Value) bool {
		call := callOf(x)
		return call != nil && (keyIs(call, keys...) || has(keys, eng.Key(call)))
	})
}

func runVersion(c *Ctx) {
	w := c.W
	rOut := c.Rule("version-output", "the printed tool version is the tool's own version followed by the job server's suffix")
	rIn := c.Rule("suffix-covers-inputs", "the suffix covers the release, the development build, the aspects, and every module injected code depends on")
	rMod := c.Rule("modules-collected", "every package injected code depends on is visited and all its files are recorded with its module")
	rFile := c.Rule("file-content", "modules without a fixed version enter the suffix with the content of all their files")
	rErr := c.Rule("version-errors", "a failure to compute any part is reported, never replaced by a partial version")

	// ---- the tool's output
	if f := rOut.Fn("internal/toolexec", "ComputeVersion"); f != nil {
		region := c.Region(f)
		runs := c.callsKey(region, "internal/toolexec/proxy.RunCommand")
		rOut.Check(len(runs) == 1, "tool is run", w.Pos(f.Pos()), "the tool's own version is not obtained exactly once")
		// the writer the tool's stdout goes to
		isOut := func(v ssa.Value) bool { return false }
		for _, ci := range runs {
			fStdout := c.extField("os/exec", "Cmd", "Stdout")
			var sinks []ssa.Value
			for _, o := range eng.VarArgs(ci.Common().Args[len(ci.Common().Args)-1]) {
				for _, g := range closureArgs(c, o) {
					for _, s := range fieldStores([]*ssa.Function{g}, fStdout) {
						w.Origins(s.Val, func(x ssa.Value) eng.Step {
							if al, ok := x.(*ssa.Alloc); ok {
								sinks = append(sinks, al)
								return eng.Stop
							}
							return eng.Follow
						})
						rOut.Check(c.W.MustDo(g, is(s), nil, nil) == nil, "stdout is captured", w.At(s), "the tool's standard output is not always captured")
					}
				}
			}
			rOut.Check(len(sinks) > 0, "stdout sink", w.At(ci.(ssa.Instruction)), "the tool's standard output is not captured")
			isOut = func(v ssa.Value) bool {
				call := callOf(v)
				if call == nil || len(call.Call.Args) == 0 {
					return false
				}
				k := eng.Key(call)
				if k != "strings.Builder.String" && k != "bytes.Buffer.String" && k != "bytes.Buffer.Bytes" {
					return false
				}
				for _, s := range sinks {
					if call.Call.Args[0] == s {
						return true
					}
				}
				return false
			}
			for _, r := range eng.Returns(f) {
				if !c.succeeding(r) {
					continue
				}
				before, _ := w.MustPrecede(r, w.CallEvent(func(x ssa.CallInstruction) bool { return x == ci }), nil)
				rOut.Check(before, "tool runs first", w.At(r), "a version is returned without running the tool")
			}
		}
		trim := map[string]bool{"strings.TrimSpace": true, "strings.TrimRight": true, "bytes.TrimSpace": true, "strings.TrimSuffix": true}
		n := 0
		for _, r := range eng.Returns(f) {
			if !c.succeeding(r) {
				continue
			}
			n++
			rOut.Check(w.CarriesVia(r.Results[0], trim, isOut), "tool output in version", w.At(r), "the tool's own version output is not (completely) part of the version: artifacts of different toolchains are mixed up")
			rOut.Check(w.CarriesVia(r.Results[0], nil, func(v ssa.Value) bool {
				call := callOf(v)
				return call != nil && strings.HasPrefix(eng.MKey(call), "internal/jobserver/client.Request") && strings.HasSuffix(v.Type().String(), bidPkg+".VersionSuffixResponse")
			}), "suffix in version", w.At(r), "the job server's version suffix is not (completely) part of the version: stale artifacts are reused when the configuration changes")
		}
		rOut.Check(n > 0, "version returned", w.Pos(f.Pos()), "no version is ever returned")
		for _, ci := range eng.CallsIn(region) {
			switch {
			case keyIs(ci, "internal/toolexec/proxy.RunCommand", "internal/jobserver.New", "internal/jobserver.Server.Connect"),
				strings.HasPrefix(eng.MKey(ci), "internal/jobserver/client.Request"):
				checkFate(c, rErr, ci)
			}
		}
	}
	// the version is what gets printed
	for _, f := range w.FuncsIn("internal/cmd") {
		for _, ci := range eng.Calls(f) {
			if !keyIs(ci, "internal/toolexec.ComputeVersion") {
				continue
			}
			checkFate(c, rErr, ci)
			printed := func(in ssa.Instruction) bool {
				x, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(eng.Key(x), "fmt.") && eng.Key(x) != "io.WriteString" && eng.Key(x) != "os.File.WriteString" {
					return false
				}
				args := x.Common().Args
				for _, a := range args {
					if w.Carries(a, func(v ssa.Value) bool { return callOf(v) == ci.(*ssa.Call) }) {
						return true
					}
					for _, e := range eng.VarArgs(a) {
						if w.Carries(e, func(v ssa.Value) bool { return callOf(v) == ci.(*ssa.Call) }) {
							return true
						}
					}
				}
				return false
			}
			leak := w.MustFollow(ci.(ssa.Instruction), printed, c.succeeding, w.ErrFailed(ci))
			rOut.Check(leak == nil, "version is printed", w.At(ci.(ssa.Instruction)), "the computed version is not printed")
			for _, x := range eng.Calls(f) {
				if printed(x.(ssa.Instruction)) {
					checkFate(c, rErr, x)
				}
			}
			// nothing else is done for a version request
			ok := w.MustHold(ci.(ssa.Instruction), func(l eng.Lit) bool {
				call := callOf(l.V)
				return call != nil && call.Call.IsInvoke() && call.Call.Method.Name() == "ShowVersion" && l.Pol
			})
			rOut.Check(ok, "only for version requests", w.At(ci.(ssa.Instruction)), "a version is computed for commands which do not ask for it")
		}
	}
	rOut.Min(8)

	// ---- the suffix
	f := rIn.Fn(bidPkg, "service.versionSuffix")
	if f == nil {
		return
	}
	region := c.Region(f)
	rIs := map[string]func(ssa.Value) bool{
		"release tag":      func(v ssa.Value) bool { x := callOf(v); return x != nil && keyIs(x, "internal/version.Tag") },
		"development hash": func(v ssa.Value) bool { return c.fromCall(v, bidPkg+".getTagSuffix") || isGlobalLoad(v, "tagSuffix") },
		"fingerprint": func(v ssa.Value) bool {
			x := callOf(v)
			return x != nil && keyIs(x, "internal/fingerprint.Hasher.Finish")
		},
	}
	fRes := rIn.Field(bidPkg, "service", "resolvedVersion")
	stores := fieldStores(region, fRes)
	rIn.Check(len(stores) > 0, "suffix is computed", w.Pos(f.Pos()), "the suffix is never computed")
	for _, s := range stores {
		for _, what := range keysOf(rIs) {
			rIn.Check(w.Carries(s.Val, rIs[what]), "suffix has the "+what, w.At(s), "the %s is not (completely) part of the version suffix: artifacts made with a different one are reused", what)
		}
	}
	isNamed := func(ci ssa.CallInstruction) bool { return keyIs(ci, "internal/fingerprint.Hasher.Named") }
	hashes := func(pred func(ssa.Value) bool) func(ssa.CallInstruction) bool {
		return func(ci ssa.CallInstruction) bool {
			if !isNamed(ci) {
				return false
			}
			args := ci.Common().Args
			if w.Carries(args[1], pred) {
				return true
			}
			el, ok := variadic(args[2])
			if !ok {
				return w.Carries(args[2], pred)
			}
			for _, e := range el {
				if e != nil && w.Carries(e, pred) {
					return true
				}
			}
			return false
		}
	}
	isAspects := func(v ssa.Value) bool {
		x := callOf(v)
		return x != nil && x.Call.IsInvoke() && x.Call.Method.Name() == "Aspects" && c.derives(x.Call.Value, func(o ssa.Value) bool {
			l := callOf(o)
			return l != nil && keyIs(l, "internal/injector/config.Loader.Load")
		})
	}
	aspHashed := hashes(isAspects)
	for _, s := range stores {
		ok, _ := w.MustPrecede(s, w.CallEvent(aspHashed), nil)
		rIn.Check(ok, "suffix covers aspects", w.At(s), "the complete aspect list does not enter the suffix: artifacts woven with a different configuration are reused")
	}
	// modules
	var load *ssa.Call
	for _, ci := range eng.CallsIn(region) {
		if eng.Key(ci) == "golang.org/x/tools/go/packages.Load" {
			load, _ = ci.(*ssa.Call)
		}
	}
	if !rIn.Check(load != nil, "injected packages loaded", w.Pos(f.Pos()), "the packages injected code depends on are not looked up") {
		return
	}
	isPaths := func(v ssa.Value) bool {
		x := callOf(v)
		return x != nil && keyIs(x, "internal/injector/aspect.InjectedPaths") && w.Carries(x.Call.Args[0], isAspects)
	}
	rIn.Check(w.Carries(load.Call.Args[1], isPaths), "all injected paths loaded", w.At(load), "not all packages injected by the aspects are looked up")
	// ... unless there are none
	collect := w.Func(bidPkg, "collectModules")
	noPaths := func(l eng.Lit) bool { return lenCmp(l, isPaths) == "empty" }
	for _, s := range stores {
		bad := w.EntryReaches(s, w.CallEvent(func(ci ssa.CallInstruction) bool { return ci == ssa.CallInstruction(load) }), func(l eng.Lit) bool { return w.Implies(l, noPaths) })
		rIn.Check(!bad, "injected packages always loaded", w.At(s), "a suffix is computed without looking up the injected packages although there are some")
	}
	var mode int64 = -1
	fMode := c.extField("golang.org/x/tools/go/packages", "Config", "Mode")
	for _, s := range configField(c.configAllocs(load.Call.Args[0]), fMode) {
		if n, ok := eng.ConstInt(s.Val); ok {
			mode = n
		}
	}
	for _, m := range []string{"NeedDeps", "NeedEmbedFiles", "NeedFiles", "NeedImports", "NeedModule"} {
		k := c.extConst("golang.org/x/tools/go/packages", m)
		rIn.Check(mode >= 0 && k > 0 && mode&k == k, "load mode "+m, w.At(load), "packages are loaded without %s: what it provides is missing from the suffix", m)
	}
	fBF := c.extField("golang.org/x/tools/go/packages", "Config", "BuildFlags")
	okFlags := false
	for _, s := range configField(c.configAllocs(load.Call.Args[0]), fBF) {
		okFlags = okFlags || c.derivesGoFlags(s.Val)
	}
	rIn.Check(okFlags, "load flags", w.At(load), "the packages are not looked up with the build flags of the current build")

	isPkgs := func(v ssa.Value) bool { return resultOf(v, load, 0) }
	if rMod.Check(collect != nil, "anchor collectModules", w.Pos(f.Pos()), "collectModules not found") {
		loops := loopsOver(region, func(v ssa.Value) bool {
			return isPkgs(v) || phiOnly(v, func(e ssa.Value) bool { return isPkgs(e) || isNil(e) })
		})
		ok := false
		for _, l := range loops {
			call := w.LiftEvent(func(in ssa.Instruction) bool {
				ci := isCall(in, bidPkg+".collectModules")
				return ci != nil && l.IsElem(ci.Common().Args[0])
			})
			if l.Always(call, nil) && w.EarlyExit(l, nil) == nil {
				ok = true
			}
		}
		rMod.Check(ok, "all roots visited", w.Pos(f.Pos()), "not every looked up package is visited")
		// the collected modules are hashed
		var mods ssa.Value
		for _, ci := range c.callsKey(region, bidPkg+".collectModules") {
			if ci.Parent() != collect {
				mods = ci.Common().Args[1]
			}
		}
		isMods := func(v ssa.Value) bool { return mods != nil && v == mods }
		okH, okName := false, false
		for _, fn := range region {
			for _, l := range eng.Loops(fn) {
				if l.Over == nil {
					continue
				}
				modKey := func(v ssa.Value) bool { return l.IsElem(v) || (isMods(l.Over) && l.IsKey(v)) }
				if !isMods(l.Over) && !c.keysOfMap(l.Over, isMods) {
					continue
				}
				isMod := func(v ssa.Value) bool {
					lk, ok := v.(*ssa.Lookup)
					if ok && isMods(lk.X) && modKey(lk.Index) {
						return true
					}
					return isMods(l.Over) && l.IsElem(v)
				}
				enc := map[string]bool{"encoding/json.Marshal": true}
				ev := w.LiftEvent(func(in ssa.Instruction) bool {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || !isNamed(ci) {
						return false
					}
					el, _ := variadic(ci.Common().Args[2])
					for _, e := range el {
						if w.CarriesVia(e, enc, isMod) {
							return true
						}
					}
					return false
				})
				if l.Always(ev, nil) && w.EarlyExit(l, nil) == nil {
					okH = true
					for _, s := range stores {
						okName = okName || l.Header.Dominates(s.Block())
					}
				}
			}
		}
		rIn.Check(okH, "every module hashed", w.Pos(f.Pos()), "not every collected module enters the suffix: changing it does not invalidate artifacts")
		rIn.Check(okH && okName, "modules hashed before the suffix", w.Pos(f.Pos()), "the suffix can be computed without hashing the modules")
		c.checkCollect(rMod, collect)
	}
	for _, ci := range eng.CallsIn(region) {
		if k := eng.MKey(ci); ci.Common().Signature().Results().Len() > 0 && eng.ErrIndex(ci.Common().Signature()) >= 0 {
			if isNamed(ci) || keyIs(ci, "internal/injector/config.Loader.Load", "internal/goflags.Flags") || has([]string{"encoding/json.Marshal", "golang.org/x/tools/go/packages.Load"}, k) {
				checkFate(c, rErr, ci)
			}
		}
	}
	rErr.Min(10)
	rIn.Min(12)
	c.checkModuleJSON(rFile)
	c.checkDevBuild(rFile)
}

// keysOfMap: v is a slice holding all keys of the map accepted by isMap.
func (c *Ctx) keysOfMap(v ssa.Value, isMap func(ssa.Value) bool) bool {
	w := c.W
	v = eng.ResolveLocal(v)
	if call, ok := v.(*ssa.Call); ok {
		switch eng.Key(call) {
		case "slices.Sorted", "slices.Collect", "maps.Keys", "slices.Clone":
			return isMap(call.Call.Args[0]) || c.keysOfMap(call.Call.Args[0], isMap)
		}
	}
	// appended in a loop over the map
	hit := false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || hit {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Call:
			if builtinCall(x, "append") != nil {
				l := eng.InnermostLoop(x.Block())
				if l != nil && l.Over != nil && isMap(l.Over) && l.Always(is(x), nil) && w.EarlyExit(l, nil) == nil {
					if el, ok := variadic(x.Call.Args[1]); ok {
						for _, e := range el {
							if l.IsKey(e) {
								hit = true
							}
						}
					}
				}
				walk(x.Call.Args[0])
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						walk(s.Val)
					}
				}
			}
		}
	}
	walk(v)
	return hit
}

func phiOnly(v ssa.Value, pred func(ssa.Value) bool) bool {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range p.Edges {
		if !pred(e) && !phiOnly(e, pred) {
			return false
		}
	}
	return true
}

func isGlobalLoad(v ssa.Value, name string) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Name() == name
}

// checkCollect: collectModules visits the whole import graph and records every file.
func (c *Ctx) checkCollect(r *R, f *ssa.Function) {
	w := c.W
	pkg := f.Params[0]
	pf := func(name string) *types.Var { return c.extField("golang.org/x/tools/go/packages", "Package", name) }
	fID, fImports, fModule := pf("ID"), pf("Imports"), pf("Module")
	isID := func(v ssa.Value) bool { return isFieldVal(v, fID) }
	known := func(l eng.Lit) bool {
		e, ok := l.V.(*ssa.Extract)
		if !ok || !l.Pol {
			return false
		}
		lk, ok := e.Tuple.(*ssa.Lookup)
		return ok && e.Index == 1 && isID(lk.Index)
	}
	region := c.Region(f)
	// recursion
	ok := false
	for _, l := range loopsOver(region, func(v ssa.Value) bool { return isFieldVal(v, fImports) }) {
		rec := w.LiftEvent(func(in ssa.Instruction) bool {
			ci := isCall(in, bidPkg+".collectModules")
			return ci != nil && l.IsElem(ci.Common().Args[0])
		})
		std := func(lit eng.Lit) bool {
			return nilLit(lit, func(v ssa.Value) bool { return isFieldVal(v, fModule) }) == "nil"
		}
		if l.Always(rec, std) && w.EarlyExit(l, nil) == nil && l.Fn == f {
			leak := w.MustDo(f, func(in ssa.Instruction) bool { return in.Block() == l.Header }, nil, known)
			ok = ok || leak == nil
		}
	}
	r.Check(ok, "imports visited", w.Pos(f.Pos()), "some imported package is not visited: changes to it do not invalidate artifacts")
	// files
	for _, name := range []string{"GoFiles", "EmbedFiles", "OtherFiles"} {
		fv := pf(name)
		good := false
		fFiles := c.W.Field(bidPkg, "moduleInfo", "Files")
		instrs(region, func(fn *ssa.Function, in ssa.Instruction) {
			mu, isMU := in.(*ssa.MapUpdate)
			if !isMU || !(isFieldVal(mu.Map, fFiles) || c.derivesField(mu.Map, fFiles)) || !c.derivesField(mu.Key, fv) {
				return
			}
			b := ssa.Instruction(mu)
			all := true
			for l := eng.InnermostLoop(b.Block()); l != nil; {
				h := l.Header
				if !l.Always(func(x ssa.Instruction) bool { return x == b || x.Block() == b.Block() }, nil) || w.EarlyExit(l, nil) != nil {
					all = false
				}
				var outer *eng.Loop
				for _, o := range eng.Loops(fn) {
					if o.Blocks[h] && o.Header != h && (outer == nil || len(o.Blocks) < len(outer.Blocks)) {
						outer = o
					}
				}
				b = h.Instrs[0]
				l = outer
			}
			// reached whenever the package belongs to a module
			noMod := func(l eng.Lit) bool {
				return known(l) || nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fModule) }) == "nil"
			}
			head := b.Block()
			if all && fn == f && w.MustDo(f, func(x ssa.Instruction) bool { return x.Block() == head }, nil, noMod) == nil {
				good = true
			}
			if all && fn != f && w.MustDo(f, w.LiftEvent(func(x ssa.Instruction) bool { return x.Block() == head }), nil, noMod) == nil {
				good = true
			}
		})
		r.Check(good, name+" recorded", w.Pos(f.Pos()), "the %s of a package are not all recorded with its module: changing them does not invalidate artifacts", name)
	}
	// the set of visited packages
	okKnown := true
	n := 0
	instrs(region, func(_ *ssa.Function, in ssa.Instruction) {
		if mu, isMU := in.(*ssa.MapUpdate); isMU {
			if st, ok := mu.Map.Type().Underlying().(*types.Map); ok && st.Key().String() == "string" && strings.Contains(mu.Map.Type().String(), "struct{}") && mu.Map == ssa.Value(knownMap(f, mu.Map)) {
				n++
				okKnown = okKnown && isID(mu.Key) && c.sameOrParam(baseOfLoad(eng.ResolveLocal(mu.Key)), pkg)
			}
		}
	})
	r.Check(n > 0 && okKnown, "visited by identity", w.Pos(f.Pos()), "visited packages are not identified by their ID")
	// the module entry belongs to the package's module
	fPath := c.extField("golang.org/x/tools/go/packages", "Module", "Path")
	instrs(region, func(_ *ssa.Function, in ssa.Instruction) {
		mu, isMU := in.(*ssa.MapUpdate)
		if !isMU || !strings.Contains(mu.Map.Type().String(), "moduleInfo") {
			return
		}
		r.Check(isFieldVal(mu.Key, fPath), "modules by path", w.At(in), "modules are not identified by their path")
		okM := w.Carries(mu.Value, func(v ssa.Value) bool { return isFieldVal(v, fModule) })
		r.Check(okM, "module of package", w.At(in), "the recorded module is not the package's")
	})
	r.Min(8)
}

// knownMap: m is the third parameter of f, or its replacement.
func knownMap(f *ssa.Function, m ssa.Value) ssa.Value {
	if phi, ok := m.(*ssa.Phi); ok {
		for _, e := range phi.Edges {
			if _, ok := e.(*ssa.Parameter); ok {
				return m
			}
		}
	}
	if _, ok := m.(*ssa.Parameter); ok {
		return m
	}
	return nil
}

func (c *Ctx) checkModuleJSON(r *R) {
	w := c.W
	f := r.Fn(bidPkg, "moduleInfo.MarshalJSON")
	if f == nil {
		return
	}
	region := c.Region(f)
	fFiles := r.Field(bidPkg, "moduleInfo", "Files")
	fMod := r.Field(bidPkg, "moduleInfo", "Module")
	// module data is always part
	for _, ci := range eng.CallsIn(region) {
		if eng.Key(ci) != "encoding/json.Marshal" {
			continue
		}
		ok := c.derivesField(ci.Common().Args[0], fMod)
		r.Check(ok, "module identity encoded", w.At(ci.(ssa.Instruction)), "the module's path and version do not enter the suffix")
		r.Check(returnsCall(ci) || errPropagates(w, ci), "marshal result", w.At(ci.(ssa.Instruction)), "a failure is ignored")
	}
	loops := loopsOver(region, func(v ssa.Value) bool { return isFieldVal(v, fFiles) })
	if !r.Check(len(loops) == 1, "files visited", w.Pos(f.Pos()), "the files of a module are not visited") {
		return
	}
	l := loops[0]
	r.Check(w.EarlyExit(l, nil) == nil, "all files visited", w.Pos(f.Pos()), "not all files are visited")
	// reached whenever the content matters
	noHash := func(lit eng.Lit) bool {
		call := callOf(lit.V)
		return call != nil && keyIs(call, bidPkg+".moduleInfo.shouldHashContent") && !lit.Pol
	}
	var entry ssa.Instruction = l.Header.Instrs[0]
	leak := w.MustDo(f, w.LiftEvent(func(in ssa.Instruction) bool { return in.Block() == l.Header }), c.succeeding, noHash)
	r.Check(leak == nil, "files hashed", w.At(entry), "the files of a module whose content may change are not hashed")
	// per file: opened, hashed whole, recorded
	var perFile []*ssa.Function
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				g := mc.Fn.(*ssa.Function)
				perFile = append(perFile, g)
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.Callees(ci) {
					if eng.PkgOf(g) == eng.PkgOf(f) {
						perFile = append(perFile, g)
					}
				}
			}
		}
	}
	each := l.Always(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, a := range ci.Common().Args {
			for _, g := range closureArgs(c, a) {
				for _, p := range perFile {
					if p == g {
						return true
					}
				}
			}
		}
		for _, g := range w.Callees(ci) {
			for _, p := range perFile {
				if p == g {
					return true
				}
			}
		}
		return false
	}, nil)
	direct := len(perFile) == 0
	r.Check(each || direct, "every file hashed", w.At(entry), "some file is skipped")
	all := c.Region(append([]*ssa.Function{f}, perFile...)...)
	isName := func(v ssa.Value) bool {
		return l.IsKey(v) || c.derives(v, func(o ssa.Value) bool { return o == l.Key || l.IsKey(o) })
	}
	var hashed []*ssa.Function
	for _, ci := range eng.CallsIn(all) {
		switch eng.Key(ci) {
		case "os.Open", "os.ReadFile", "os.OpenFile":
			r.Check(isName(ci.Common().Args[0]), "the file is opened", w.At(ci.(ssa.Instruction)), "another file is opened")
			checkFate(c, r, ci)
		case "io.Copy", "io.CopyBuffer":
			checkFate(c, r, ci)
			hashed = append(hashed, ci.Parent())
			ok := c.derives(ci.Common().Args[0], func(o ssa.Value) bool {
				return strings.HasSuffix(o.Type().String(), "hash.Hash")
			}) || strings.HasSuffix(ci.Common().Args[0].Type().String(), "io.Writer")
			r.Check(ok, "content hashed", w.At(ci.(ssa.Instruction)), "the file's content is not hashed")
		case "io.CopyN", "io.LimitReader":
			r.Bad("whole content hashed", w.At(ci.(ssa.Instruction)), "only part of a file is hashed")
		case "golang.org/x/sync/errgroup.Group.Wait":
			checkFate(c, r, ci)
		}
	}
	r.Check(len(hashed) > 0, "contents are hashed", w.Pos(f.Pos()), "file contents are not hashed")
	// name and sum are recorded
	okRec := false
	for _, g := range all {
		instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
			call := builtinCall(in, "append")
			if call == nil {
				return
			}
			el, ok := variadic(call.Call.Args[1])
			if !ok || len(el) != 1 {
				return
			}
			name, sum := false, false
			w.Origins(el[0], func(o ssa.Value) eng.Step {
				if l.IsKey(o) || o == l.Key {
					name = true
				}
				if x := callOf(o); x != nil && x.Call.IsInvoke() && x.Call.Method.Name() == "Sum" {
					sum = true
				}
				return eng.Follow
			})
			if name && sum && w.MustDo(g, is(in), c.succeeding, nil) == nil {
				okRec = true
			}
		})
	}
	r.Check(okRec, "name and hash recorded", w.Pos(f.Pos()), "a file's name and hash are not recorded together on every successful path")
	for _, g := range all {
		for _, ci := range eng.Calls(g) {
			if eng.Key(ci) != "sync.Pool.Put" {
				continue
			}
			ok, _ := w.MustPrecede(ci.(ssa.Instruction), func(in ssa.Instruction) bool {
				x, isC := in.(ssa.CallInstruction)
				return isC && x.Common().IsInvoke() && x.Common().Method.Name() == "Reset"
			}, nil)
			r.Check(ok, "hash reset before reuse", w.At(ci.(ssa.Instruction)), "a hash is reused with the state of its previous use")
		}
	}
	// shouldHashContent
	if g := r.Fn(bidPkg, "moduleInfo.shouldHashContent"); g != nil {
		fVer := c.extField("golang.org/x/tools/go/packages", "Module", "Version")
		fRep := c.extField("golang.org/x/tools/go/packages", "Module", "Replace")
		for _, cs := range []struct {
			ver, rep, repVer string
			want             bool
		}{{"", "", "", true}, {"v1", "", "", false}, {"v1", "r", "", true}, {"v1", "r", "v2", false}, {"", "r", "v2", true}, {"", "r", "", true}} {
			ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
				if !isLoadOf(v) {
					return eng.AV{}, false
				}
				ofRep := func(x ssa.Value) bool { return isFieldVal(x, fRep) }
				switch fieldOfLoad(v) {
				case fVer:
					if ofRep(baseOfLoad(v)) {
						return eng.AStr(cs.repVer), true
					}
					return eng.AStr(cs.ver), true
				case fRep:
					if cs.rep == "" {
						return eng.ANilV(), true
					}
					return eng.ANonNilV(), true
				}
				return eng.AV{}, false
			}}
			outs := ex.Run(g)
			ok := len(outs) > 0 && !ex.Exhausted
			for _, o := range outs {
				ok = ok && !o.Panics && (o.Rets[0].IsTrue() && cs.want || o.Rets[0].IsFalse() && !cs.want || o.Rets[0].IsTrue())
			}
			if cs.want {
				r.Check(ok, "content matters: version="+cs.ver+" replace="+cs.rep+cs.repVer, w.Pos(g.Pos()), "the content of a module with version %q, replaced by %q with version %q is not hashed although it may change", cs.ver, cs.rep, cs.repVer)
			}
		}
	}
	r.Min(15)
}

func errPropagates(w *eng.World, ci ssa.CallInstruction) bool {
	f, _ := w.Fate(ci)
	return f == eng.ErrPropagated
}

// isLoadOf: v is a load of a struct field; fieldOfLoad / baseOfLoad give its parts.
func isLoadOf(v ssa.Value) bool { return fieldOfLoad(v) != nil }

func fieldOfLoad(v ssa.Value) *types.Var {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return eng.FieldVar(fa)
		}
	case *ssa.Field:
		return eng.FieldVar(x)
	}
	return nil
}

func baseOfLoad(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	case *ssa.Field:
		return x.X
	}
	return nil
}

// checkDevBuild: in development builds the executable's content is part of the suffix.
func (c *Ctx) checkDevBuild(r *R) {
	w := c.W
	f := r.Fn(bidPkg, "getTagSuffix")
	if f == nil {
		return
	}
	// the function which decides
	var body *ssa.Function
	var set *ssa.Store
	for _, g := range c.Region(f) {
		instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok {
				if gl, ok := s.Addr.(*ssa.Global); ok && gl.Name() == "tagSuffix" && !isStr("")(s.Val) {
					body, set = g, s
				}
			}
		})
	}
	if !r.Check(body != nil, "development suffix", w.Pos(f.Pos()), "development builds are not told apart") {
		return
	}
	sum := c.derives(set.Val, func(o ssa.Value) bool {
		x := callOf(o)
		return x != nil && x.Call.IsInvoke() && x.Call.Method.Name() == "Sum"
	})
	r.Check(sum, "development suffix is a content hash", w.At(set), "the suffix of development builds does not depend on the executable's content")
	copied, _ := w.MustPrecede(set, w.CallEvent(func(ci ssa.CallInstruction) bool {
		return eng.Key(ci) == "io.Copy" && c.derivesExternalCall(ci.Common().Args[1], "os.Executable")
	}), nil)
	r.Check(copied, "the executable is hashed", w.At(set), "the executable's content is not hashed")
	root := body
	for root.Parent() != nil && root != f {
		// a literal run by sync.Once
		break
	}
	fVer := c.extField("runtime/debug", "Module", "Version")
	fKey, fVal := c.extField("runtime/debug", "BuildSetting", "Key"), c.extField("runtime/debug", "BuildSetting", "Value")
	for _, cs := range []struct{ name, ver, mod string }{
		{"(devel)", "(devel)", "false"}, {"no version", "", "false"}, {"modified tree", "v1.2.3", "true"},
	} {
		ex := &eng.Exploration{W: w,
			Atom: func(v ssa.Value) (eng.AV, bool) {
				if eng.IsErrorType(v.Type()) && callOf(v) != nil {
					return eng.ANilV(), true
				}
				if e, ok := v.(*ssa.Extract); ok {
					if x, ok := e.Tuple.(*ssa.Call); ok && eng.Key(x) == "runtime/debug.ReadBuildInfo" && e.Index == 1 {
						return eng.ABool(true), true
					}
				}
				switch fieldOfLoad(v) {
				case nil:
				case fVer:
					return eng.AStr(cs.ver), true
				case fKey:
					return eng.AStr("vcs.modified"), true
				case fVal:
					return eng.AStr(cs.mod), true
				}
				// there are settings left until the modified one was seen
				if bo, ok := v.(*ssa.BinOp); ok && cs.ver == "v1.2.3" {
					if l := loopHeadOf(bo); l != nil && l.Over != nil && strings.Contains(l.Over.Type().String(), "BuildSetting") {
						return eng.ABool(true), true
					}
				}
				return eng.AV{}, false
			},
			Event: func(in ssa.Instruction) string {
				if in == ssa.Instruction(set) {
					return "set"
				}
				return ""
			}}
		outs := ex.Run(body)
		ok := len(outs) > 0 && !ex.Exhausted
		for _, o := range outs {
			ok = ok && (o.Panics || o.Has("set"))
		}
		r.Check(ok, "development build: "+cs.name, w.At(set), "a build of orchestrion from a development tree (%s) is identified by its tag only: artifacts woven by an older build are reused", cs.name)
	}
}

// loopHeadOf: bo is the condition which keeps a range loop going.
func loopHeadOf(bo *ssa.BinOp) *eng.Loop {
	for _, l := range eng.Loops(bo.Parent()) {
		if l.Header == bo.Block() && len(l.Header.Instrs) > 0 {
			if ifi, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If); ok && ifi.Cond == ssa.Value(bo) {
				return l
			}
		}
	}
	return nil
}
