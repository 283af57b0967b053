package rules

import (
	"go/types"
	"path/filepath"
	"strings"

	"orchverif/eng"

	"golang.org/x/tools/go/ssa"
)

const (
	goPackages = "golang.org/x/tools/go/packages"
	resolvePkg = "internal/jobserver/pkgs"
)

// variantsBuilt: the archives resolved for a test are exactly the variants the go command builds for it.
func (c *Ctx) variantsBuilt() {
	c.variantMerged(c.Rule("variants", "the archives resolved for a test are the ordinary ones, with exactly those the go command built for this test in their place, and without the package under test"))
	c.variantParts(c.Rule("variant-parts", "packages depending on the package under test, and the variants built for it, are found wherever they are"))
	c.variantOverlay(c.Rule("variant-overlay", "the overlay for building variants adds to the user's own, and is only used where the go command supports it"))
}

func (c *Ctx) variantMerged(r *R) {
	w := c.W
	f := r.Fn(resolvePkg, "mergeTestVariant")
	if f == nil {
		return
	}
	pos := w.Pos(f.Pos())
	for _, s := range []struct {
		name                               string
		imports, errors, target, dependent bool
		export                             string
		collectFails                       bool
		fails, collected, removed, loaded  bool
	}{
		{name: "not depending on the package under test"},
		{name: "variants", imports: true, target: true, dependent: true, export: "p.a", collected: true, removed: true, loaded: true},
		{name: "no variant of the package under test", imports: true, dependent: true, export: "p.a", removed: true, loaded: true},
		{name: "no variant of either", imports: true, removed: true, loaded: true},
		{name: "no variant of the dependency", imports: true, target: true, fails: true, loaded: true},
		{name: "no archive of the dependency", imports: true, target: true, dependent: true, fails: true, loaded: true},
		{name: "variants that do not build", imports: true, errors: true, target: true, dependent: true, export: "p.a", fails: true, loaded: true},
		{name: "variants without archives", imports: true, target: true, dependent: true, export: "p.a", collectFails: true, fails: true, loaded: true},
	} {
		objs := map[string]eng.AV{
			"req.Pattern": eng.AStr("p"), "req.TestVariantFor": eng.AStr("t"),
			"root.PkgPath": eng.AStr("p"), "root.ID": eng.AStr("p"), "root.Name": eng.AStr("p"),
			"put.PkgPath": eng.AStr("t"), "put.ID": eng.AStr("t"), "put.Name": eng.AStr("t"),
			"vp.ExportFile": eng.AStr(s.export),
			"map@archives[" + eng.AStr("t").String() + "]": sym("ordinary t"),
			"map@archives[" + eng.AStr("p").String() + "]": sym("ordinary p"),
		}
		bad := ""
		ex := &eng.Exploration{W: w, Lists: true, Repeat: true, Objs: objs, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == resolvePkg }}
		ex.Event = func(in ssa.Instruction) string {
			switch x := in.(type) {
			case *ssa.Call:
				switch eng.MKey(x) {
				case goPackages + ".Load":
					return "loaded"
				case resolvePkg + ".collectTestVariantClosure":
					return "collected"
				case resolvePkg + ".packageErrors":
					return "checked"
				}
			case *ssa.Store:
				if c.extPkgField(x.Addr, goPackages, "Config", "Tests") && !isFalseConst(x.Val) {
					return "tests"
				}
				if c.extPkgField(x.Addr, goPackages, "Config", "Env") {
					return "env"
				}
			}
			return ""
		}
		ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			a := x.Call.Args
			switch eng.MKey(x) {
			case resolvePkg + ".collectPackages":
				switch eval(a[0]).String() {
				case "<ordinary>":
					return eng.AListOf(*listOf("", sym("root"), sym("put"))), true
				case "<loaded>":
					return sym("all"), true
				}
				bad = "the packages looked at are not those resolved"
				return eng.AV{}, true
			case resolvePkg + ".importsPackage":
				if eval(a[0]).String() != "<root>" || eval(a[1]).String() != eng.AStr("t").String() {
					bad = "it is not decided by whether the dependency imports the package under test"
				}
				return eng.ABool(s.imports), true
			case resolvePkg + ".packageSourceDir":
				return eng.AStr("/d"), true
			case resolvePkg + ".internalImportBridge":
				return tuple(eng.AUnk(), eng.ABool(false), eng.ANilV()), true
			case resolvePkg + ".testVariantOverlay":
				if eval(a[1]).String() != eng.AStr("p").String() {
					bad = "the tests are not made to import the dependency"
				}
				return tuple(sym("source"), eng.ANilV()), true
			case resolvePkg + ".addTestVariantOverlays", resolvePkg + ".addTestVariantOverlay":
				return tuple(eng.ANonNilV(), eng.ANilV()), true
			case "os.Stat":
				return tuple(eng.AUnk(), sym("missing")), true
			case "errors.Is":
				return eng.ABool(true), true
			case goPackages + ".Load":
				if l := eval(a[1]); l.K != eng.AList || l.L == nil || len(l.L.Pre) != 1 || l.L.Pre[0].String() != eng.AStr("t").String() {
					bad = "what is loaded is not the package under test"
				}
				return tuple(sym("loaded"), eng.ANilV()), true
			case resolvePkg + ".packageErrors":
				if eval(a[0]).String() != "<loaded>" {
					bad = "the errors looked for are not those of the packages loaded"
				}
				if s.errors {
					return sym("failed"), true
				}
				return eng.ANilV(), true
			case resolvePkg + ".findTestVariant":
				if eval(a[0]).String() != "<all>" || eval(a[2]).String() != eng.AStr("t").String() {
					bad = "variants are not looked for among all packages loaded for the test"
				}
				switch p := eval(a[1]).String(); {
				case p == eng.AStr("t").String() && s.target:
					return sym("vt"), true
				case p == eng.AStr("p").String() && s.dependent:
					return sym("vp"), true
				case p != eng.AStr("t").String() && p != eng.AStr("p").String():
					bad = "the variant looked for is neither the dependency's nor the package under test's"
				}
				return eng.ANilV(), true
			case resolvePkg + ".collectTestVariantClosure":
				if eval(a[0]).String() != "<map@archives>" || eval(a[1]).String() != "<vp>" || eval(a[2]).String() != eng.AStr("t").String() {
					bad = "what is collected are not the dependency's variants for the test"
				}
				if s.collectFails {
					return sym("failed"), true
				}
				return eng.ANilV(), true
			}
			return eng.AV{}, false
		}
		outs := ex.Run(f, eng.ANonNilV(), sym("req"), sym("ordinary"), sym("map@archives"), eng.AUnk())
		if !r.Check(len(outs) > 0 && !ex.Exhausted, s.name+": explored", pos, "how variants are merged could not be followed") {
			continue
		}
		r.Check(bad == "", s.name+": inputs", pos, "%s", bad)
		for _, o := range outs {
			err := o.Rets[len(o.Rets)-1]
			if !r.Check(!o.Panics && (err.K == eng.ANil) == !s.fails && (err.K != eng.ANil && err.K != eng.AUnknown) == s.fails, s.name+": outcome", pos, "merging test variants ends with %s", err) {
				continue
			}
			r.Check(o.Has("loaded") == s.loaded, s.name+": loaded", pos, "test variants are loaded exactly when the dependency imports the package under test: not so here")
			if s.loaded {
				r.Check(o.Has("tests") && o.Has("env"), s.name+": tests", pos, "the load is not one of tests, or not marked as such")
				r.Check(o.Has("checked"), s.name+": checked", pos, "the errors of the packages loaded are not looked at")
			}
			if s.fails {
				continue
			}
			r.Check(o.Rets[0].String() == "<map@archives>", s.name+": result", pos, "the result is not the archives resolved")
			r.Check(o.Has("collected") == s.collected, s.name+": collected", pos, "the variants built for the test are not what is used")
			_, kept := o.Objs()["map@archives["+eng.AStr("t").String()+"]"]
			r.Check(kept == !s.removed, s.name+": package under test", pos, "the archive of the package under test is left among, or removed from, those resolved")
			_, kept = o.Objs()["map@archives["+eng.AStr("p").String()+"]"]
			r.Check(kept, s.name+": others", pos, "an archive resolved is lost")
		}
	}
	// the package under test itself
	if p := r.Fn(resolvePkg, "resolveTestTargetProvenance"); p != nil {
		ft := r.Field(resolvePkg, "ResolvedArchive", "ForTest")
		for _, augmented := range []bool{true, false} {
			name := map[bool]string{true: "provenance, augmented", false: "provenance, not augmented"}[augmented]
			bad := ""
			set := 0
			ex := &eng.Exploration{W: w, Lists: true, Objs: map[string]eng.AV{"req.Pattern": eng.AStr("t"), "req.TestVariantFor": eng.AStr("t")}, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == resolvePkg }}
			ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
				switch a := x.Call.Args; eng.MKey(x) {
				case goPackages + ".Load":
					if l := eval(a[1]); l.K != eng.AList || l.L == nil || len(l.L.Pre) != 1 || l.L.Pre[0].String() != eng.AStr("t").String() {
						bad = "what is loaded is not the package under test"
					}
					return tuple(sym("loaded"), eng.ANilV()), true
				case resolvePkg + ".packageErrors":
					return eng.ANilV(), true
				case resolvePkg + ".collectPackages":
					return sym("all"), true
				case resolvePkg + ".findTestVariant":
					if eval(a[0]).String() != "<all>" || eval(a[1]).String() != eng.AStr("t").String() || eval(a[2]).String() != eng.AStr("t").String() {
						bad = "the variant looked for is not that of the package under test"
					}
					if augmented {
						return sym("vt"), true
					}
					return eng.ANilV(), true
				}
				return eng.AV{}, false
			}
			ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && eng.FieldVar(fa) == ft {
						if eval(x.Val).String() != eng.AStr("t").String() {
							bad = "the variant is marked as another test's"
						}
						set |= 1
					}
				case *ssa.MapUpdate:
					if eval(x.Key).String() != eng.AStr("t").String() {
						bad = "the entry changed is not that of the package under test"
					}
					set |= 2
				}
				return false
			}
			outs := ex.Run(p, eng.ANonNilV(), sym("req"), sym("map@archives"), eng.AUnk())
			good := len(outs) > 0 && !ex.Exhausted
			for _, o := range outs {
				if e := o.Rets[1]; e.K == eng.ANil {
					good = good && o.Rets[0].String() == "<map@archives>"
				}
			}
			r.Check(good && bad == "" && (set == 3) == augmented && (set == 0) == !augmented, name, w.Pos(p.Pos()), "whether the package under test was augmented is not told as it is %s", bad)
		}
	}
	r.Min(30)
}

func isFalseConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.String() == "false"
}

func (c *Ctx) variantParts(r *R) {
	w := c.W
	inl := func(g *ssa.Function) bool { return eng.Rel(g) == resolvePkg }
	q := func(s string) string { return "[" + eng.AStr(s).String() + "]" }
	// a package and what it imports
	type pk struct {
		id, path, test, file string
		imports              []string
	}
	world := func(ps ...pk) map[string]eng.AV {
		objs := map[string]eng.AV{}
		for _, p := range ps {
			objs[p.id+".ID"] = eng.AStr(p.id)
			objs[p.id+".PkgPath"] = eng.AStr(p.path)
			objs[p.id+".ForTest"] = eng.AStr(p.test)
			objs[p.id+".ExportFile"] = eng.AStr(p.file)
			objs[p.id+".Imports"] = sym("map@" + p.id)
			for _, i := range p.imports {
				objs["map@"+p.id+q(i)] = sym(i)
			}
		}
		return objs
	}
	// whether it depends on the package under test
	if f := r.Fn(resolvePkg, "importsPackage"); f != nil {
		for _, s := range []struct {
			name string
			want bool
			ps   []pk
		}{
			{"imported", true, []pk{{id: "a", path: "a", imports: []string{"t"}}, {id: "t", path: "t"}}},
			{"imported by an import", true, []pk{{id: "a", path: "a", imports: []string{"b"}}, {id: "b", path: "b", imports: []string{"t"}}, {id: "t", path: "t"}}},
			{"imported by the other import", true, []pk{{id: "a", path: "a", imports: []string{"b", "d"}}, {id: "b", path: "b"}, {id: "d", path: "d", imports: []string{"t"}}, {id: "t", path: "t"}}},
			{"imported by an import's import", true, []pk{{id: "a", path: "a", imports: []string{"b"}}, {id: "b", path: "b", imports: []string{"d"}}, {id: "d", path: "d", imports: []string{"t"}}, {id: "t", path: "t"}}},
			{"not imported", false, []pk{{id: "a", path: "a", imports: []string{"b"}}, {id: "b", path: "t/b"}}},
			{"no imports", false, []pk{{id: "a", path: "a"}}},
		} {
			ex := &eng.Exploration{W: w, Lists: true, Ranges: true, Objs: world(s.ps...), Inline: inl}
			r.eachBool(ex, ex.Run(f, sym("a"), eng.AStr("t"), sym("map@visited")), "depends: "+s.name, w.Pos(f.Pos()), s.want)
		}
	}
	// which is the variant
	if f := r.Fn(resolvePkg, "findTestVariant"); f != nil {
		ps := []pk{{id: "a", path: "p"}, {id: "b", path: "p", test: "u"}, {id: "d", path: "q", test: "t"}, {id: "e", path: "p", test: "t"}, {id: "g", path: "r", test: "t"}}
		for _, s := range []struct{ path, test, want string }{{"p", "t", "<e>"}, {"q", "t", "<d>"}, {"r", "t", "<g>"}, {"p", "u", "<b>"}, {"r", "u", "nil"}, {"x", "t", "nil"}} {
			ex := &eng.Exploration{W: w, Lists: true, Objs: world(ps...), Inline: inl}
			outs := ex.Run(f, eng.AListOf(*listOf("", sym("a"), sym("b"), sym("d"), sym("e"), sym("g"))), eng.AStr(s.path), eng.AStr(s.test))
			good := len(outs) > 0 && !ex.Exhausted
			for _, o := range outs {
				good = good && !o.Panics && o.Rets[0].String() == s.want
			}
			r.Check(good, "variant of "+s.path+" for "+s.test, w.Pos(f.Pos()), "the variant found is not that of the package built for the test")
		}
	}
	// the variants used
	if f := r.Fn(resolvePkg, "collectTestVariantClosure"); f != nil {
		ef, ft := r.Field(resolvePkg, "ResolvedArchive", "ExportFile"), r.Field(resolvePkg, "ResolvedArchive", "ForTest")
		for _, s := range []struct {
			name  string
			ps    []pk
			want  string
			fails bool
		}{
			{"one", []pk{{id: "a", path: "p", test: "t", file: "p.a"}}, "p", false},
			{"imports", []pk{{id: "a", path: "p", test: "t", file: "p.a", imports: []string{"b", "d"}}, {id: "b", path: "q", test: "t", file: "q.a"}, {id: "d", path: "r", test: "t", file: "r.a"}}, "p q r", false},
			{"imports of imports", []pk{{id: "a", path: "p", test: "t", file: "p.a", imports: []string{"b"}}, {id: "b", path: "q", test: "t", file: "q.a", imports: []string{"d"}}, {id: "d", path: "r", test: "t", file: "r.a"}}, "p q r", false},
			{"ordinary import", []pk{{id: "a", path: "p", test: "t", file: "p.a", imports: []string{"b"}}, {id: "b", path: "q", file: "q.a"}}, "p", false},
			{"another test's import", []pk{{id: "a", path: "p", test: "t", file: "p.a", imports: []string{"b"}}, {id: "b", path: "q", test: "u", file: "q.a"}}, "p", false},
			{"no archive", []pk{{id: "a", path: "p", test: "t"}}, "", true},
			{"no archive of an import", []pk{{id: "a", path: "p", test: "t", file: "p.a", imports: []string{"b"}}, {id: "b", path: "q", test: "t"}}, "", true},
		} {
			got, bad := map[string]bool{}, ""
			ex := &eng.Exploration{W: w, Lists: true, Ranges: true, Objs: world(s.ps...), Inline: inl}
			var last string
			ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						switch eng.FieldVar(fa) {
						case ef:
							last, _ = eng.ConstAV(eval(x.Val))
						case ft:
							if eval(x.Val).String() != eng.AStr("t").String() {
								bad = "a variant is marked as another test's"
							}
						}
					}
				case *ssa.MapUpdate:
					if eng.NamedOf(eng.Deref(x.Value.Type())) == nil || eng.NamedOf(x.Value.Type()).Obj().Name() != "ResolvedArchive" {
						break
					}
					k, _ := eng.ConstAV(eval(x.Key))
					if last != k+".a" {
						bad = "the archive of one package is used for another"
					}
					got[k] = true
				}
				return false
			}
			outs := ex.Run(f, sym("map@archives"), sym("a"), eng.AStr("t"), sym("map@visited"))
			good := len(outs) > 0 && !ex.Exhausted && bad == ""
			for _, o := range outs {
				good = good && !o.Panics && (o.Rets[0].K == eng.ANil) == !s.fails && o.Rets[0].K != eng.AUnknown
			}
			good = good && (s.fails || join2(keysOf(got)) == s.want)
			r.Check(good, "collected: "+s.name, w.Pos(f.Pos()), "the archives used are not exactly those built for the test, or one missing is not reported (%s) %s", join(keysOf(got)), bad)
		}
		r.Check(len(fieldStores(c.Region(f), ft)) > 0, "variants marked", w.Pos(f.Pos()), "variants are not told from ordinary archives")
	}
	// all packages, and all of their errors
	if f := r.Fn(resolvePkg, "packageErrors"); f != nil {
		n, good := 0, true
		for _, ci := range eng.Calls(f) {
			if eng.MKey(ci) == resolvePkg+".collectPackages" {
				n++
				good = good && eng.ResolveLocal(ci.Common().Args[0]) == ssa.Value(f.Params[0])
			}
		}
		r.Check(n > 0 && good, "errors of all packages", w.Pos(f.Pos()), "the errors of some packages are not looked at")
		for _, s := range []struct {
			name string
			errs []int
		}{{"no error", []int{0, 0}}, {"error of the first", []int{1, 0}}, {"error of the last", []int{0, 1}}} {
			objs := map[string]eng.AV{}
			any := false
			var l []eng.AV
			for i, n := range s.errs {
				id := string(rune('a' + i))
				l = append(l, sym(id))
				var es []eng.AV
				for range n {
					any = true
					es = append(es, sym("err"))
				}
				objs[id+".Errors"] = eng.AListOf(*listOf("", es...))
			}
			ex := &eng.Exploration{W: w, Lists: true, Objs: objs, Inline: inl}
			ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
				switch eng.Key(x) {
				case "errors.Join":
					if a := eval(x.Call.Args[0]); a.K == eng.AList && a.L != nil && a.L.Rest == "" {
						for _, e := range a.L.Pre {
							if e.K != eng.ANil {
								return sym("joined"), true
							}
						}
						return eng.ANilV(), true
					}
				}
				if eng.MKey(x) == resolvePkg+".collectPackages" {
					return eng.AListOf(*listOf("", l...)), true
				}
				return eng.AV{}, false
			}
			outs := ex.Run(f, sym("loaded"))
			good := len(outs) > 0 && !ex.Exhausted
			for _, o := range outs {
				good = good && (o.Rets[0].K == eng.ANil) == !any && o.Rets[0].K != eng.AUnknown
			}
			r.Check(good, "reported: "+s.name, w.Pos(f.Pos()), "the errors of packages are not reported as they are")
		}
	}
	c.packagesCollected(r)
	c.importBridge(r)
	r.Min(30)
}

func join2(l []string) string { return strings.Join(l, " ") }

// packagesCollected: every package reached from the roots is collected.
func (c *Ctx) packagesCollected(r *R) {
	w := c.W
	f := r.Fn(resolvePkg, "collectPackages")
	if f == nil {
		return
	}
	var visit *ssa.Function
	isVisit := func(ci ssa.CallInstruction) bool {
		if visit == nil {
			return false
		}
		if ci.Common().StaticCallee() == visit {
			return true
		}
		for _, g := range w.Callees(ci) {
			if g == visit {
				return true
			}
		}
		return false
	}
	for _, g := range f.AnonFuncs {
		if len(g.Params) == 1 && isPackage(g.Params[0].Type()) {
			visit = g
		}
	}
	if !r.Check(visit != nil, "collected", w.Pos(f.Pos()), "how packages are collected is not understood") {
		return
	}
	p := visit.Params[0]
	isP := func(v ssa.Value) bool { return eng.ResolveLocal(v) == ssa.Value(p) }
	visitOf := func(is func(ssa.Value) bool) eng.Event {
		return func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isVisit(ci) && len(ci.Common().Args) > 0 && is(ci.Common().Args[len(ci.Common().Args)-1])
		}
	}
	n := 0
	for _, l := range eng.Loops(f) {
		if l.Over != nil && eng.ResolveLocal(l.Over) == ssa.Value(f.Params[0]) {
			n++
			r.Check(c.complete(l) && l.Always(visitOf(l.IsElem), nil), "roots", w.Pos(f.Pos()), "some of the packages loaded are left out")
		}
	}
	r.Check(n == 1, "roots visited", w.Pos(f.Pos()), "the packages loaded are not visited")
	n = 0
	for _, l := range eng.Loops(visit) {
		if l.Over != nil && strings.HasPrefix(l.Over.Type().Underlying().String(), "map[") {
			n++
			r.Check(c.complete(l) && l.Always(visitOf(func(v ssa.Value) bool { return l.IsElem(v) }), nil), "imports", w.Pos(visit.Pos()), "the packages imported by some package are left out")
		}
	}
	r.Check(n == 1, "imports visited", w.Pos(visit.Pos()), "imported packages are not visited")
	seen := func(l eng.Lit) bool {
		if nilLit(l, isP) == "nil" {
			return true
		}
		v := eng.ResolveLocal(l.V)
		if x, ok := v.(*ssa.Extract); ok && x.Index == 1 {
			v = x.Tuple
		}
		lk, ok := v.(*ssa.Lookup)
		return ok && l.Pol && (lk.CommaOk || lk.Type().String() == "bool")
	}
	added := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && strings.HasSuffix(call.Type().String(), "]*"+goPackages+".Package")
	}
	c.mustDo(r, "package added", visit, added, nil, seen, "a package reached is left out")
}

func isPackage(t types.Type) bool { return t.String() == "*"+goPackages+".Package" }

// pathModel folds the functions on slash-separated names and paths.
func pathModel(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
	texts := func(a eng.AV) ([]string, bool) {
		if a.K != eng.AList || a.L == nil || a.L.Rest != "" {
			return nil, a.K == eng.ANil
		}
		var r []string
		for _, e := range a.L.Pre {
			t, ok := eng.ConstAV(e)
			if !ok {
				return nil, false
			}
			r = append(r, t)
		}
		return r, true
	}
	arg := func(i int) (string, bool) { return eng.ConstAV(eval(x.Call.Args[i])) }
	switch eng.Key(x) {
	case "strings.Split":
		if a, ok := arg(0); ok {
			if b, ok := arg(1); ok {
				return eng.AListOf(*listOf("", strs(strings.Split(a, b)...)...)), true
			}
		}
	case "strings.Join":
		if l, ok := texts(eval(x.Call.Args[0])); ok {
			if b, ok := arg(1); ok {
				return eng.AStr(strings.Join(l, b)), true
			}
		}
	case "strings.Count":
		if a, ok := arg(0); ok {
			if b, ok := arg(1); ok {
				return eng.AInt(int64(strings.Count(a, b))), true
			}
		}
	case "path/filepath.Dir", "path.Dir":
		if a, ok := arg(0); ok {
			return eng.AStr(filepath.Dir(a)), true
		}
	case "path/filepath.Join", "path.Join":
		if l, ok := texts(eval(x.Call.Args[0])); ok {
			return eng.AStr(filepath.Join(l...)), true
		}
	case "fmt.Sprintf":
		if t, ok := arg(0); ok && strings.Contains(t, "%x") {
			return eng.AStr(strings.ReplaceAll(t, "%x", "KEY")), true
		}
	}
	return eng.AV{}, false
}

// importBridge: a package the tests may not import is imported through one that may, from where it may be.
func (c *Ctx) importBridge(r *R) {
	w := c.W
	f := r.Fn(resolvePkg, "internalImportBridge")
	ip, vp := r.Field(resolvePkg, "importBridge", "importPath"), r.Field(resolvePkg, "importBridge", "virtualPath")
	if f == nil || ip == nil || vp == nil {
		return
	}
	for _, s := range []struct {
		name, pkg, dir, importer string
		needed, fails            bool
		path, file               string
	}{
		{name: "no internal package", pkg: "m/a/b", dir: "/w/a/b", importer: "m/c"},
		{name: "internal to a parent of both", pkg: "m/internal/b", dir: "/w/internal/b", importer: "m/c"},
		{name: "internal to the importer", pkg: "m/c/internal/b", dir: "/w/c/internal/b", importer: "m/c"},
		{name: "internal to another", pkg: "m/c/internal/b", dir: "/w/c/internal/b", importer: "m/d", needed: true, path: "m/c/orchestrion_test_variant_KEY", file: "/w/c/orchestrion_test_variant_KEY/bridge.go"},
		{name: "internal to one with a longer name", pkg: "m/c/internal/b", dir: "/w/c/internal/b", importer: "m/cd", needed: true, path: "m/c/orchestrion_test_variant_KEY", file: "/w/c/orchestrion_test_variant_KEY/bridge.go"},
		{name: "below an internal package of another", pkg: "m/c/internal/b/e", dir: "/w/c/internal/b/e", importer: "m/d", needed: true, path: "m/c/orchestrion_test_variant_KEY", file: "/w/c/orchestrion_test_variant_KEY/bridge.go"},
		{name: "nested internal packages", pkg: "m/c/internal/b/internal/e", dir: "/w", importer: "m/d", fails: true},
		{name: "nested, the outer one shared", pkg: "m/internal/b/internal/e", dir: "/w/internal/b/internal/e", importer: "m/d", needed: true, path: "m/internal/b/orchestrion_test_variant_KEY", file: "/w/internal/b/orchestrion_test_variant_KEY/bridge.go"},
		{name: "internal to the standard library", pkg: "internal/b", dir: "/w", importer: "m/d", fails: true},
	} {
		path, file, imported := "", "", ""
		ex := &eng.Exploration{W: w, Lists: true, Small: 12, Objs: map[string]eng.AV{"root.PkgPath": eng.AStr(s.pkg)}, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == resolvePkg }}
		ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			switch eng.MKey(x) {
			case resolvePkg + ".packageSourceDir":
				return eng.AStr(s.dir), true
			case resolvePkg + ".blankImportSource":
				imported, _ = eng.ConstAV(eval(x.Call.Args[1]))
				return tuple(sym("source"), eng.ANilV()), true
			case "os.Stat":
				return tuple(eng.AUnk(), sym("missing")), true
			case "errors.Is":
				return eng.ABool(true), true
			}
			return pathModel(x, eval)
		}
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					switch eng.FieldVar(fa) {
					case ip:
						path, _ = eng.ConstAV(eval(st.Val))
					case vp:
						file, _ = eng.ConstAV(eval(st.Val))
					}
				}
			}
			return false
		}
		outs := ex.Run(f, sym("root"), eng.AStr(s.importer), eng.AUnk())
		pos := w.Pos(f.Pos())
		if !r.Check(len(outs) > 0 && !ex.Exhausted, "bridge: "+s.name+": explored", pos, "how internal packages are imported could not be followed") {
			continue
		}
		for _, o := range outs {
			err := o.Rets[2]
			r.Check(!o.Panics && (err.K == eng.ANil) == !s.fails && err.K != eng.AUnknown && (s.fails || o.Rets[1].IsTrue() == s.needed && o.Rets[1].IsFalse() == !s.needed), "bridge: "+s.name, pos, "whether the tests may import the dependency is not decided as the go command does: %s, %s", o.Rets[1], err)
		}
		if s.needed {
			r.Check(path == s.path && file == s.file && imported == s.pkg, "bridge made: "+s.name, pos, "the package importing the dependency for the tests is %s in %s, importing %s", path, file, imported)
		}
	}
}

func (c *Ctx) variantOverlay(r *R) {
	w := c.W
	inl := func(g *ssa.Function) bool { return eng.Rel(g) == resolvePkg }
	if f := r.Fn(resolvePkg, "rejectUnsupportedOverlayPath"); f != nil {
		for _, s := range []struct {
			name                              string
			path                              string
			only, new, inside, canFail, fails bool
		}{
			{"inside", "/r", false, false, true, false, true},
			{"inside, new package", "/r", false, true, true, false, true},
			{"inside, new packages only", "/r", true, false, true, false, false},
			{"inside, new package where none may be", "/r", true, true, true, false, true},
			{"outside", "/r", false, true, false, false, false},
			{"no such place", "", false, true, true, false, false},
			{"unknown", "/r", false, false, false, true, true},
		} {
			objs := map[string]eng.AV{}
			var l []eng.AV
			for i, p := range []string{"", s.path, ""} {
				id := string(rune('a' + i))
				objs[id+".path"], objs[id+".newPackageOnly"] = eng.AStr(p), eng.ABool(s.only)
				l = append(l, sym(id))
			}
			bad := false
			ex := &eng.Exploration{W: w, Lists: true, Objs: objs, Inline: inl, Model: func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
				if eng.MKey(x) == resolvePkg+".pathWithin" {
					bad = bad || eval(x.Call.Args[0]).String() != eng.AStr("/r").String() || eval(x.Call.Args[1]).String() != eng.AStr("/v").String()
					if s.canFail {
						return tuple(eng.ABool(false), sym("failed")), true
					}
					return tuple(eng.ABool(s.inside), eng.ANilV()), true
				}
				return eng.AV{}, false
			}}
			outs := ex.Run(f, eng.AListOf(*listOf("", l...)), eng.AStr("/v"), eng.ABool(s.new))
			good := len(outs) > 0 && !ex.Exhausted && !bad
			for _, o := range outs {
				good = good && !o.Panics && (o.Rets[0].K == eng.ANil) == !s.fails && o.Rets[0].K != eng.AUnknown
			}
			r.Check(good, "place: "+s.name, w.Pos(f.Pos()), "an overlay is not rejected exactly where the go command does not support it")
		}
	}
	if f := r.Fn(resolvePkg, "activeVendorDir"); f != nil {
		for _, s := range []struct{ mod, work, want string }{
			{"/m/go.mod", "", "/m/vendor"}, {"/m/go.mod", "off", "/m/vendor"}, {"/m/go.mod", "/dev/null", "/m/vendor"},
			{"/m/go.mod", "/w/go.work", "/w/vendor"}, {"", "", ""}, {"/dev/null", "", ""}, {"", "/w/go.work", "/w/vendor"},
		} {
			ex := &eng.Exploration{W: w, Lists: true, Inline: inl, Model: pathModel}
			outs := ex.Run(f, eng.AStr(s.mod), eng.AStr(s.work))
			good := len(outs) > 0 && !ex.Exhausted
			for _, o := range outs {
				t, ok := eng.ConstAV(o.Rets[0])
				good = good && ok && t == s.want
			}
			r.Check(good, "vendor directory of "+s.mod+" "+s.work, w.Pos(f.Pos()), "the vendor directory in use is not told")
		}
	}
	// every place is judged, with the environment and directory of the load
	if f := r.Fn(resolvePkg, "loadUnsupportedOverlayRoots"); f != nil {
		for _, field := range []string{"Dir", "Env"} {
			n, good := 0, true
			instrs(c.Region(f), func(_ *ssa.Function, in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok && c.extPkgField(s.Addr, "os/exec", "Cmd", field) {
					n++
					good = good && c.derives(s.Val, func(o ssa.Value) bool {
						u, ok := o.(*ssa.UnOp)
						return ok && c.extPkgField(u.X, goPackages, "Config", field)
					})
				}
			})
			r.Check(n == 1 && good, "go env: "+field, w.Pos(f.Pos()), "the places overlays are not supported in are not those of the load")
		}
	}
	f := r.Fn(resolvePkg, "addTestVariantOverlays")
	if f == nil {
		return
	}
	pos := w.Pos(f.Pos())
	for _, l := range eng.Loops(f) {
		if l.Over == nil || !strings.HasPrefix(l.Over.Type().Underlying().String(), "map[string]") {
			continue
		}
		if !strings.Contains(l.Over.Type().String(), "overlaySource") {
			// the user's own replacements
			c.each(r, l, "user's replacements", func(in ssa.Instruction) bool {
				_, ok := in.(*ssa.MapUpdate)
				return ok && isReplaceMap(in.(*ssa.MapUpdate).Map)
			}, nil, "a replacement of the user's overlay is lost")
			continue
		}
		ok := l.Always(func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				return true
			case ssa.CallInstruction:
				return eng.MKey(x) == resolvePkg+".rejectUnsupportedOverlayPath"
			}
			return false
		}, nil)
		r.Check(ok && c.complete(l), "overlays", pos, "a file added for the test is left out, or not checked")
	}
	for _, s := range []struct {
		name     string
		in, want []string
	}{
		{"no flags", nil, []string{"-overlay=/tmp/overlay.json"}},
		{"flags", []string{"-tags=x", "-race"}, []string{"-tags=x", "-race", "-overlay=/tmp/overlay.json"}},
		{"user's overlay first", []string{"-overlay=/u.json", "-race"}, []string{"-race", "-overlay=/tmp/overlay.json"}},
		{"user's overlay last", []string{"-race", "-overlay=/u.json"}, []string{"-race", "-overlay=/tmp/overlay.json"}},
	} {
		read := map[string]bool{}
		objs := map[string]eng.AV{"config.BuildFlags": eng.AListOf(*listOf("", strs(s.in...)...)), "config.Dir": eng.AStr("/w")}
		ex := &eng.Exploration{W: w, Lists: true, Small: 8, Objs: objs, Repeat: true, Inline: func(g *ssa.Function) bool {
			return inl(g) && g.Name() != "loadUnsupportedOverlayRoots" && g.Name() != "rejectUnsupportedOverlayPath"
		}}
		ex.Prune = func(in ssa.Instruction) bool { return false }
		ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			switch eng.MKey(x) {
			case "os.MkdirTemp":
				return tuple(eng.AStr("/tmp"), eng.ANilV()), true
			case "os.ReadFile":
				read[eval(x.Call.Args[0]).String()] = true
				return tuple(sym("data"), eng.ANilV()), true
			case resolvePkg + ".loadUnsupportedOverlayRoots":
				return tuple(sym("roots"), eng.ANilV()), true
			}
			return pathModel(x, eval)
		}
		outs := ex.Run(f, eng.ANonNilV(), sym("config"), sym("overlays"))
		if !r.Check(len(outs) > 0 && !ex.Exhausted, s.name+": explored", pos, "how the overlay is added could not be followed") {
			continue
		}
		n := 0
		for _, o := range outs {
			if o.Panics || o.Rets[1].K != eng.ANil {
				continue
			}
			n++
			got := o.Obj("config.BuildFlags")
			good := got.K == eng.AList && got.L != nil && got.L.Rest == "" && len(got.L.Pre) == len(s.want)
			for i := 0; good && i < len(s.want); i++ {
				v, ok := eng.ConstAV(got.L.Pre[i])
				good = ok && v == s.want[i]
			}
			r.Check(good, s.name, pos, "the flags become %s, expected: %q", got, s.want)
		}
		r.Check(n > 0, s.name+": succeeds", pos, "the overlay is never added")
		user := strings.Contains(strings.Join(s.in, " "), "-overlay")
		r.Check(len(read) > 0 == user && (!user || read[eng.AStr("/u.json").String()]), s.name+": user's overlay", pos, "the user's overlay is not read")
	}
	r.Min(20)
}

// isReplaceMap: the replacements of an overlay.
func isReplaceMap(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && eng.FieldVar(fa).Name() == "Replace"
}

// nestedMains: which compilations are left alone while variants are built.
func (c *Ctx) nestedMains(r *R) {
	w := c.W
	for _, fn := range []string{"Weaver.OnCompile", "Weaver.OnCompileMain"} {
		f := r.Fn(aspectPkg, fn)
		if f == nil {
			continue
		}
		for _, s := range []struct {
			nested    bool
			pkg, path string
			left      bool
		}{
			{false, "main", "m/p.test", false}, {false, "main", "m/p", false},
			{true, "main", "m/p.test", true}, {true, "main", "m/p", false}, {true, "p", "m/p.test", false},
			{true, "main", "m/p.testing", false}, {true, "p", "m/p", false},
		} {
			if fn == "Weaver.OnCompileMain" && s.pkg != "main" {
				continue
			}
			ex := &eng.Exploration{W: w, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == aspectPkg }, Defers: false}
			ex.Atom = func(v ssa.Value) (eng.AV, bool) {
				switch x := v.(type) {
				case *ssa.Call:
					if eng.MKey(x) == resolvePkg+".ResolvingTestVariants" {
						return eng.ABool(s.nested), true
					}
				case *ssa.UnOp, *ssa.Field:
					if fv := loadedField(v); fv != nil {
						if fv.Name() == "Package" && fv.Pkg() != nil && strip(fv.Pkg().Path()) == proxyPkg {
							return eng.AStr(s.pkg), true
						}
						if fv.Name() == "ImportPath" && fv.Pkg() != nil && strip(fv.Pkg().Path()) == aspectPkg {
							return eng.AStr(s.path), true
						}
					}
				}
				return eng.AV{}, false
			}
			started := false
			ex.Prune = func(in ssa.Instruction) bool {
				call, ok := in.(*ssa.Call)
				if ok && (eng.MKey(call) == importcfgPkg+".ParseFile" || strings.Contains(eng.Key(call), "tracer.StartSpanFromContext")) {
					started = true
					return true
				}
				return false
			}
			outs := ex.Run(f)
			good := !ex.Exhausted && started == !s.left
			if s.left {
				good = good && len(outs) > 0
				for _, o := range outs {
					good = good && len(o.Rets) == 1 && o.Rets[0].K == eng.ANil
				}
			} else {
				good = good && len(outs) == 0
			}
			name := fn + " " + s.pkg + " " + s.path
			if s.nested {
				name += " nested"
			}
			r.Check(good, name, w.Pos(f.Pos()), "a package is left alone, or worked on, when it must not be")
		}
	}
	r.Min(10)
}
