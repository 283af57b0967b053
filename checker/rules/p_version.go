package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"orchverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "P03", Technique: "abstract interpretation of the version check over the versions that can be required, provenance of what it compares, and must-precede of the check on every way to weave or build", Run: runRequired})
}

const ensurePkg = "internal/ensure"

// runRequired decides P03.
func runRequired(c *Ctx) {
	rCmp := c.Rule("P03.compared", "the check succeeds exactly for the version required, or the source directory a replace directive names; for another version it reports which one is required")
	rMod := c.Rule("P03.required", "the version required is that of orchestrion's module, or of its replacement, as the go.mod of the working directory resolves it")
	rRun := c.Rule("P03.running", "a development build is told from a release by its build information, and reports its own version")
	rMark := c.Rule("P03.marked", "only the check itself marks the check as made, for the processes it starts")
	rGate := c.Rule("P03.gate", "nothing is woven, no version computed and no build started before the check succeeded")
	rAuto := c.Rule("P03.automatic", "requiring another version is an error; where none is required it is pinned")

	gmv := rMod.Fn(ensurePkg, "goModVersion")
	req := rCmp.Fn(ensurePkg, "RequiredVersion")
	pin := rAuto.Fn(pinPkg, "PinOrchestrion")
	auto := rAuto.Fn(pinPkg, "AutoPinOrchestrion")
	if gmv == nil || req == nil || pin == nil || auto == nil {
		return
	}
	c.versionCompared(rCmp, req, gmv)
	c.versionRequired(rMod, gmv)
	c.versionRunning(rRun)
	c.versionMarked(rMark, auto)
	c.versionGate(rGate, auto)
	c.pinAuto(rAuto, pin)
}

// asks: the call determines the version go.mod requires.
func asks(x *ssa.Call, gmv *ssa.Function) bool {
	if g := x.Call.StaticCallee(); g != nil {
		return g == gmv
	}
	if x.Call.IsInvoke() {
		return false
	}
	sig, ok := x.Call.Value.Type().Underlying().(*types.Signature)
	return ok && types.Identical(sig, gmv.Signature)
}

func (c *Ctx) versionCompared(r *R, req, gmv *ssa.Function) {
	w := c.W
	pos := w.Pos(req.Pos())
	type sc struct {
		name, version, dir string
		fails, ok          bool
	}
	const tag, full, src = "v1.2.3", "v1.2.4-0.2026", "/src/orchestrion"
	for _, s := range []sc{
		{"not determined", "", "", true, false},
		{"tag", tag, "/mod/cache", false, true},
		{"build version", full, "/mod/cache", false, true},
		{"older", "v1.2.2", "/mod/cache", false, false},
		{"newer", "v1.2.5", "/mod/cache", false, false},
		{"prefix of the tag", "v1.2", "/mod/cache", false, false},
		{"longer than the tag", tag + "-rc.1", "/mod/cache", false, false},
		{"pseudo version", "v1.2.4-0.20260102030405-0123456789ab", "/mod/cache", false, false},
		{"fork with the tag in its name", "fork/" + tag, "/mod/cache", false, false},
		{"development version", tag + "+dev", "/mod/cache", false, false},
		{"upper case", strings.ToUpper(tag), "/mod/cache", false, false},
		{"other version of the source directory", "v1.2.5", src, false, false},
		{"source directory", "", src, false, true},
		{"other directory", "", "/src/other", false, false},
		{"below the source directory", "", src + "/fork", false, false},
		{"above the source directory", "", "/src", false, false},
		{"no directory", "", "", false, false},
	} {
		asked := false
		ex := &eng.Exploration{W: w, Repeat: true, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == ensurePkg && g != gmv }}
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			switch x := v.(type) {
			case *ssa.Call:
				switch eng.MKey(x) {
				case "internal/version.TagInfo":
					return tuple(eng.AStr(tag), eng.ABool(false)), true
				case "internal/version.Tag":
					return eng.AStr(full), true
				}
				if asks(x, gmv) {
					asked = true
					if s.fails {
						return tuple(eng.AStr(""), eng.AStr(""), eng.ANonNilV()), true
					}
					return tuple(eng.AStr(s.version), eng.AStr(s.dir), eng.ANilV()), true
				}
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && eng.Deref(g.Type()) == types.Typ[types.String] && g.Pkg == req.Pkg {
					return eng.AStr(src), true
				}
			}
			return eng.AV{}, false
		}
		outs := ex.Run(req)
		r.Check(len(outs) > 0 && !ex.Exhausted && asked, s.name+": explored", pos, "the version check could not be followed")
		for _, o := range outs {
			if o.Panics {
				continue
			}
			res := o.Rets[len(o.Rets)-1]
			if s.ok {
				r.Check(res.K == eng.ANil, s.name, pos, "the right version is refused")
				continue
			}
			r.Check(res.K == eng.ANonNil || res.K == eng.ASymbol, s.name, pos, "a wrong version may be accepted")
		}
	}
	// the working directory's go.mod is asked
	for _, g := range c.Region(req) {
		for _, ci := range eng.Calls(g) {
			x, ok := ci.(*ssa.Call)
			if !ok || !asks(x, gmv) {
				continue
			}
			dir, isC := eng.ConstString(eng.ArgOf(x, len(x.Call.Args)-1))
			r.Check(isC && (dir == "" || dir == "."), "working directory", w.At(x), "the go.mod looked at is not that of the working directory")
		}
	}
	// the error for another version names it, and is recognised
	var kinds []types.Type
	for _, g := range c.Region(req) {
		for _, rt := range eng.Returns(g) {
			e := eng.RetErr(rt)
			if e == nil || g == gmv {
				continue
			}
			c.W.Alternatives(e, func(v ssa.Value) {
				mi, ok := v.(*ssa.MakeInterface)
				if !ok {
					return
				}
				n := eng.NamedOf(mi.X.Type())
				if n == nil || n.Obj().Pkg() != req.Pkg.Pkg {
					return
				}
				kinds = append(kinds, mi.X.Type())
				names := w.Carries(mi.X, func(x ssa.Value) bool {
					ex, ok := eng.ResolveLocal(x).(*ssa.Extract)
					if !ok || ex.Index != 0 {
						return false
					}
					cl, ok := ex.Tuple.(*ssa.Call)
					return ok && asks(cl, gmv)
				})
				r.Check(names, "error names the version", w.At(rt), "the error does not carry the version required")
				ok2 := w.MustHold(rt, func(l eng.Lit) bool {
					return nilLit(l, func(x ssa.Value) bool {
						ex, ok := eng.ResolveLocal(x).(*ssa.Extract)
						if !ok || ex.Index != 2 {
							return false
						}
						cl, ok := ex.Tuple.(*ssa.Call)
						return ok && asks(cl, gmv)
					}) == "nil"
				})
				r.Check(ok2, "error after success", w.At(rt), "another version is reported although the one required is not known")
			})
		}
	}
	r.Check(len(kinds) > 0, "error", pos, "another version is not reported by an error of its own")
	for _, f := range w.Funcs {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) != "errors.As" {
				continue
			}
			t := eng.Unwrap(eng.ArgOf(ci, 1)).Type()
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			n := eng.NamedOf(p.Elem())
			if n == nil || len(kinds) == 0 || n != eng.NamedOf(kinds[0]) {
				continue
			}
			for _, k := range kinds {
				r.Check(types.Identical(p.Elem(), k), "error recognised", w.At(ci), "the error returned is a %s, that looked for a %s", k, p.Elem())
			}
		}
	}
}

// versionRequired checks how the version required is determined.
func (c *Ctx) versionRequired(r *R, gmv *ssa.Function) {
	w := c.W
	region := c.Region(gmv)
	var load *ssa.Call
	for _, g := range region {
		for _, ci := range eng.Calls(g) {
			if x, ok := ci.(*ssa.Call); ok && eng.Key(x) == "golang.org/x/tools/go/packages.Load" {
				load = x
			}
		}
	}
	if !r.Check(load != nil, "resolved", w.Pos(gmv.Pos()), "orchestrion's package is not resolved") {
		return
	}
	// what is resolved, and where
	pats := eng.VarArgs(load.Call.Args[len(load.Call.Args)-1])
	ok := len(pats) == 1
	for _, p := range pats {
		l := w.ConstStrings(p)
		ok = ok && len(l) == 1 && l[0] == mainModule
	}
	r.Check(ok, "package resolved", w.At(load), "the package resolved is not orchestrion's")
	dirs, mode := 0, int64(0)
	need := int64(-1)
	for _, g := range region {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := eng.NamedOf(eng.Deref(fa.X.Type()))
				if n == nil || n.Obj().Name() != "Config" || !strings.HasSuffix(n.Obj().Pkg().Path(), "go/packages") {
					continue
				}
				if cst, ok := n.Obj().Pkg().Scope().Lookup("NeedModule").(*types.Const); ok {
					need, _ = constant.Int64Val(constant.ToInt(cst.Val()))
				}
				switch eng.FieldVar(fa).Name() {
				case "Dir":
					dirs++
					gm := c.derivesIn(gmv, st.Val, func(o ssa.Value) bool {
						cl := callOf(o)
						if cl == nil || eng.MKey(cl) != "internal/goenv.GOMOD" {
							return false
						}
						return c.derivesIn(gmv, cl.Call.Args[0], func(x ssa.Value) bool {
							p, ok := x.(*ssa.Parameter)
							return ok && p.Parent() == gmv
						})
					})
					isPath := func(o ssa.Value) bool {
						cl := callOf(o)
						return cl != nil && strings.HasPrefix(eng.Key(cl), "path/filepath.")
					}
					isDir, nested := false, false
					c.derivesIn(gmv, st.Val, func(o ssa.Value) bool {
						if isPath(o) {
							cl := callOf(o)
							isDir = isDir || eng.Key(cl) == "path/filepath.Dir"
							nested = nested || c.derivesIn(gmv, cl.Call.Args[0], isPath)
						}
						return false
					})
					isDir = isDir && !nested
					r.Check(gm && isDir, "directory", w.At(st), "the package is not resolved in the directory of the go.mod in use")
				case "Mode":
					mode, _ = eng.ConstInt(st.Val)
				case "Env":
					r.Bad("environment", w.At(st), "the environment of the go command is not the process's")
				}
			}
		}
	}
	r.Check(dirs == 1, "one directory", w.At(load), "the directory to resolve the package in is set %d times", dirs)
	r.Check(need > 0 && mode&need == need, "module asked for", w.At(load), "the module of the package is not asked for")

	// the results
	fieldOf := func(v ssa.Value, typ, name string) (ssa.Value, bool) {
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return nil, false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || !isExtField(fa, typ, name) {
			return nil, false
		}
		return fa.X, true
	}
	isReplace := func(v ssa.Value) bool {
		_, ok := fieldOf(eng.ResolveLocal(v), "Module", "Replace")
		return ok
	}
	isModule := func(v ssa.Value) bool {
		_, ok := fieldOf(eng.ResolveLocal(v), "Package", "Module")
		return ok
	}
	n := 0
	for _, rt := range tailReturns(gmv, 0) {
		if !c.succeeding(rt) || nothingKnown(rt) {
			continue
		}
		n++
		r.Check(w.MustHold(rt, c.succeeded(load)), "resolution succeeded", w.At(rt), "a version is returned although resolving failed")
		r.Check(w.MustHold(rt, func(l eng.Lit) bool {
			return emptyLit(l, func(v ssa.Value) bool {
				_, ok := fieldOf(eng.ResolveLocal(v), "Package", "Errors")
				return ok
			}) == "empty"
		}), "no errors", w.At(rt), "a version is returned although the package has errors")
		r.Check(w.MustHold(rt, func(l eng.Lit) bool { return nilLit(l, isModule) == "nonnil" }), "module known", w.At(rt), "a version is returned for a package of no module")
		for i, name := range []string{"Version", "Dir"} {
			some := false
			var from func(v ssa.Value, at func(func(eng.Lit) bool) bool, d int)
			mod := func(b ssa.Value, at func(func(eng.Lit) bool) bool) {
				var walk func(b ssa.Value, at func(func(eng.Lit) bool) bool, d int)
				walk = func(b ssa.Value, at func(func(eng.Lit) bool) bool, d int) {
					b = eng.ResolveLocal(b)
					if phi, ok := b.(*ssa.Phi); ok && d < 4 {
						for i, e := range phi.Edges {
							pred := phi.Block().Preds[i]
							walk(e, func(p func(eng.Lit) bool) bool {
								if l, ok := eng.EdgeLit(pred, phi.Block()); ok && p(l) {
									return true
								}
								return w.MustHold(pred.Instrs[len(pred.Instrs)-1], p) || at(p)
							}, d+1)
						}
						return
					}
					switch {
					case isReplace(b):
						r.Check(at(func(l eng.Lit) bool { return nilLit(l, isReplace) == "nonnil" }), "replacement's "+name, w.At(rt), "the replacement is used where there may be none")
					case isModule(b):
						r.Check(at(func(l eng.Lit) bool { return nilLit(l, isReplace) == "nil" }), "module's "+name, w.At(rt), "the replacement of the module is not honoured")
					default:
						r.Bad("origin of "+name, w.At(rt), "the %s returned is not that of the module or of its replacement", strings.ToLower(name))
					}
				}
				walk(b, at, 0)
			}
			from = func(v ssa.Value, at func(func(eng.Lit) bool) bool, d int) {
				v = eng.ResolveLocal(v)
				if phi, ok := v.(*ssa.Phi); ok && d < 4 {
					for i, e := range phi.Edges {
						pred := phi.Block().Preds[i]
						from(e, func(p func(eng.Lit) bool) bool {
							if l, ok := eng.EdgeLit(pred, phi.Block()); ok && p(l) {
								return true
							}
							return w.MustHold(pred.Instrs[len(pred.Instrs)-1], p) || at(p)
						}, d+1)
					}
					return
				}
				b, ok := fieldOf(v, "Module", name)
				if !r.Check(ok, "result "+name, w.At(rt), "what is returned is not the module's %s", strings.ToLower(name)) {
					return
				}
				some = true
				mod(b, at)
			}
			from(rt.Results[i], func(p func(eng.Lit) bool) bool { return w.MustHold(rt, p) }, 0)
			r.Check(some, "found "+name, w.At(rt), "the module's %s is not returned", strings.ToLower(name))
		}
	}
	r.Check(n > 0, "returns", w.Pos(gmv.Pos()), "no version is ever returned")
}

// tailReturns are the returns of f, those of a function of the package all whose results f returns
// instead of f's own.
func tailReturns(f *ssa.Function, d int) []*ssa.Return {
	var res []*ssa.Return
	for _, rt := range eng.Returns(f) {
		g := tailCall(rt)
		if g == nil || g.Pkg != f.Pkg || len(g.Blocks) == 0 || d > 3 {
			res = append(res, rt)
			continue
		}
		res = append(res, tailReturns(g, d+1)...)
	}
	return res
}

// nothingKnown: no version and no directory is returned, together with what may be an error.
func nothingKnown(rt *ssa.Return) bool {
	if isNil(eng.RetErr(rt)) {
		return false
	}
	for _, v := range rt.Results[:len(rt.Results)-1] {
		if t, ok := eng.ConstString(v); !ok || t != "" {
			return false
		}
	}
	return true
}

// tailCall is the function whose results are what is returned, in their order.
func tailCall(rt *ssa.Return) *ssa.Function {
	var call *ssa.Call
	for i, v := range rt.Results {
		e, ok := eng.ResolveLocal(v).(*ssa.Extract)
		if !ok || e.Index != i {
			return nil
		}
		cl, ok := e.Tuple.(*ssa.Call)
		if !ok || (call != nil && call != cl) {
			return nil
		}
		call = cl
	}
	if call == nil || call.Call.Signature().Results().Len() != len(rt.Results) {
		return nil
	}
	return call.Call.StaticCallee()
}

// versionRunning checks what the running version is said to be.
func (c *Ctx) versionRunning(r *R) {
	w := c.W
	tagF, infoF := r.Fn("internal/version", "Tag"), r.Fn("internal/version", "TagInfo")
	if tagF == nil || infoF == nil {
		return
	}
	var init *ssa.Function
	for _, f := range w.FuncsIn("internal/version") {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) == "runtime/debug.ReadBuildInfo" {
				init = f
			}
		}
	}
	if !r.Check(init != nil, "build information", "-", "the build information is never read") {
		return
	}
	global := func(v ssa.Value) *ssa.Global {
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return nil
		}
		g, _ := ld.X.(*ssa.Global)
		return g
	}
	// the variables: where the build version is kept, and whether it is a development build
	var verVar, devVar *ssa.Global
	for _, rt := range eng.Returns(infoF) {
		if len(rt.Results) == 2 {
			devVar = global(eng.ResolveLocal(rt.Results[1]))
		}
	}
	for _, g := range c.Region(tagF) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && global(v) != nil && types.Identical(eng.Deref(global(v).Type()), types.Typ[types.String]) {
					verVar = global(v)
				}
			}
		}
	}
	if !r.Check(verVar != nil && devVar != nil, "variables", w.Pos(tagF.Pos()), "where the build's version is kept is not known") {
		return
	}
	// a release: the tag is the build's own version; TagInfo's tag is that of the source
	for _, s := range []struct {
		name, main, repl string
		replaced, dev    bool
	}{
		{"released", "v9.9.9", "", false, false},
		{"built from source", "(devel)", "", false, true},
		{"test", "", "", false, true},
		{"replaced by a directory", "v9.9.9", "", true, true},
		{"replaced by a release", "v9.9.9", "v8.8.8", true, false},
	} {
		var dev, ver []eng.AV
		ex := &eng.Exploration{W: w}
		main, repl := sym("the main module"), sym("its replacement")
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			switch x := v.(type) {
			case *ssa.Call:
				if eng.Key(x) == "runtime/debug.ReadBuildInfo" {
					return tuple(eng.ANonNilV(), eng.ABool(true)), true
				}
			case *ssa.FieldAddr:
				if isExtField(x, "BuildInfo", "Main") {
					return main, true
				}
			}
			return eng.AV{}, false
		}
		ex.Deref = func(x *ssa.UnOp, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			if x.X == ssa.Value(devVar) {
				if len(dev) == 0 {
					return eng.ABool(false), true
				}
				return dev[len(dev)-1], true
			}
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return eng.AV{}, false
			}
			switch of := eval(fa.X).String(); {
			case isExtField(fa, "Module", "Replace") && of == main.String():
				if s.replaced {
					return repl, true
				}
				return eng.ANilV(), true
			case isExtField(fa, "Module", "Version") && of == main.String():
				return eng.AStr(s.main), true
			case isExtField(fa, "Module", "Version") && of == repl.String():
				return eng.AStr(s.repl), true
			}
			return eng.AV{}, false
		}
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if st, ok := in.(*ssa.Store); ok {
				switch st.Addr {
				case ssa.Value(devVar):
					dev = append(dev, eval(st.Val))
				case ssa.Value(verVar):
					ver = append(ver, eval(st.Val))
				}
			}
			return false
		}
		outs := ex.Run(init)
		r.Check(len(outs) > 0 && !ex.Exhausted, s.name+": explored", w.Pos(init.Pos()), "the build information's use could not be followed")
		isDev := false
		for _, d := range dev {
			isDev = isDev || !d.IsFalse()
		}
		allDev := len(dev) > 0
		for _, d := range dev {
			allDev = allDev && d.IsTrue()
		}
		if s.dev {
			r.Check(allDev, s.name+": development", w.Pos(init.Pos()), "a development build is taken for a release")
		} else {
			r.Check(!isDev, s.name+": release", w.Pos(init.Pos()), "a release is taken for a development build")
			okV := len(ver) > 0
			for _, v := range ver {
				t, isC := eng.ConstAV(v)
				okV = okV && isC && t == s.main
			}
			r.Check(okV, s.name+": version", w.Pos(init.Pos()), "the version of the build is not the one reported")
		}
	}
	for name, f := range map[string]*ssa.Function{"Tag": tagF, "TagInfo": infoF} {
		for _, set := range []bool{true, false} {
			ex := &eng.Exploration{W: w}
			ex.Atom = func(v ssa.Value) (eng.AV, bool) {
				switch global(v) {
				case nil:
					return eng.AV{}, false
				case verVar:
					if set {
						return eng.AStr("v9.9.9"), true
					}
					return eng.AStr(""), true
				}
				return eng.AV{}, false
			}
			for _, o := range ex.Run(f) {
				if o.Panics || len(o.Rets) == 0 {
					continue
				}
				t, ok := eng.ConstAV(o.Rets[0])
				if name == "Tag" && set {
					r.Check(ok && t == "v9.9.9", "Tag of a build", w.Pos(f.Pos()), "the version of the build is not what Tag returns")
				} else {
					r.Check(ok && strings.HasPrefix(t, "v") && t != "v9.9.9", name+" of the source", w.Pos(f.Pos()), "the tag of the source is not what %s returns", name)
				}
			}
		}
	}
}

// versionMarked: who says that the check has been made.
func (c *Ctx) versionMarked(r *R, auto *ssa.Function) {
	w := c.W
	name := ""
	inAuto := map[*ssa.Function]bool{}
	for _, g := range c.Region(auto) {
		inAuto[g] = true
	}
	for g := range inAuto {
		for _, ci := range eng.Calls(g) {
			if eng.Key(ci) == "os.Setenv" {
				if l := w.ConstStrings(eng.ArgOf(ci, 0)); len(l) == 1 {
					name = l[0]
				}
				l := w.ConstStrings(eng.ArgOf(ci, 1))
				r.Check(len(l) == 1 && l[0] == "true", "value", w.At(ci), "the mark set is not the one looked for")
			}
		}
	}
	if !r.Check(name != "", "mark", w.Pos(auto.Pos()), "no mark is set for child processes") {
		return
	}
	reads, n := 0, 0
	for _, f := range w.Funcs {
		for _, ci := range eng.Calls(f) {
			switch eng.Key(ci) {
			case "os.Getenv", "os.LookupEnv":
				if has(w.ConstStrings(eng.ArgOf(ci, 0)), name) {
					reads++
					r.Check(inAuto[f], "read", w.At(ci), "the mark is looked at outside of the check")
				}
			case "os.Setenv", "os.Unsetenv":
				if has(w.ConstStrings(eng.ArgOf(ci, 0)), name) {
					n++
					r.Check(inAuto[f], "set", w.At(ci), "the mark is set outside of the check")
				}
			}
		}
		if inAuto[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if t, ok := eng.ConstString(*op); *op != nil && ok && strings.HasPrefix(t, name) {
						r.Bad("set", w.At(in), "the mark is set outside of the check")
					}
				}
			}
		}
	}
	r.Check(reads == 1 && n >= 1, "mark used", w.Pos(auto.Pos()), "the mark is looked at %d times", reads)
}

// versionGate: the check precedes everything it guards.
func (c *Ctx) versionGate(r *R, auto *ssa.Function) {
	w := c.W
	guarded := map[string]string{
		"internal/toolexec/proxy.ProcessCommand": "weaving",
		"internal/toolexec.ComputeVersion":       "computing the version",
		"internal/goproxy.BuildCmd":              "building",
		"internal/goproxy.Run":                   "building",
	}
	n := 0
	for _, f := range w.FuncsIn("internal/cmd") {
		for _, ci := range eng.Calls(f) {
			what, ok := guarded[strings.SplitN(eng.MKey(ci), "[", 2)[0]]
			if !ok {
				continue
			}
			n++
			passed := c.afterSuccess(ci, func(x *ssa.Call) bool { return x.Call.StaticCallee() == auto })
			r.Check(passed, what+" after the check", w.At(ci), "%s does not depend on the version check having succeeded", what)
		}
	}
	r.Check(n >= 5, "guarded", "-", "only %d guarded steps were found", n)
}
