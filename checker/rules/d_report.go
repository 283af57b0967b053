package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"path"
	"strings"

	"orchverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "D01", Technique: "completeness of the walk over the work folder, abstract interpretation of the filters, of the comparison and of the build command's arguments, provenance of what is compared with what", Run: runReport})
}

const reportPkg = "internal/report"

// runReport decides D01.
func runReport(c *Ctx) {
	rCol := c.Rule("D01.collected", "every Go file below orchestrion's directory of every directory of the work folder is taken in; only the absence of that directory is tolerated")
	rSrc := c.Rule("D01.source", "a file's original is the one its line directive names")
	rFil := c.Rule("D01.filtered", "a filter leaves out exactly the files it is meant to leave out")
	rCmp := c.Rule("D01.compared", "every file left is compared with its original, unless that does not exist; what fails is reported")
	rLst := c.Rule("D01.listed", "every file left is listed, each package once")
	rCmd := c.Rule("D01.command", "what is printed is what was asked for; an empty report is an error")
	rBld := c.Rule("D01.built", "a build is asked to keep its work folder, which is the one reported on")

	from := rCol.Fn(reportPkg, "FromWorkDir")
	newMod := rSrc.Fn(reportPkg, "NewModifiedFile")
	files := rCol.Field(reportPkg, "Report", "files")
	orig := rSrc.Field(reportPkg, "ModifiedFile", "original")
	mod := rSrc.Field(reportPkg, "ModifiedFile", "modified")
	if from == nil || newMod == nil || files == nil || orig == nil || mod == nil {
		return
	}
	c.reportCollected(rCol, from, newMod, files)
	c.reportSource(rSrc, newMod, orig, mod)
	c.reportFilters(rFil, files, mod)
	c.reportCompared(rCmp, files, orig, mod)
	c.reportListed(rLst, files)
	c.reportCommand(rCmd, rBld, from)
}

// sentinelNotExist: v is fs.ErrNotExist (or os's).
func sentinelNotExist(v ssa.Value) bool {
	ld, ok := eng.Unwrap(v).(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	return ok && g.Name() == "ErrNotExist" && g.Pkg != nil && (g.Pkg.Pkg.Path() == "io/fs" || g.Pkg.Pkg.Path() == "os")
}

// notExist: the literal says that e is that something does not exist.
func notExist(e ssa.Value, l eng.Lit) bool {
	x, ok := l.V.(*ssa.Call)
	if !ok || !l.Pol || len(x.Call.Args) == 0 || eng.Outer(eng.Unwrap(x.Call.Args[0])) != eng.ResolveLocal(e) {
		return false
	}
	switch eng.Key(x) {
	case "errors.Is":
		return sentinelNotExist(x.Call.Args[1])
	case "os.IsNotExist":
		return true
	}
	return false
}

func (c *Ctx) reportCollected(r *R, from, newMod *ssa.Function, files *types.Var) {
	w := c.W
	region := c.Region(from)
	var walk *ssa.Call
	for _, g := range region {
		for _, ci := range eng.Calls(g) {
			x, ok := ci.(*ssa.Call)
			if ok && keyIs(ci, "io/fs.WalkDir", "path/filepath.WalkDir") {
				walk = x
			}
		}
	}
	if !r.Check(walk != nil, "walked", w.Pos(from.Pos()), "orchestrion's directories are not walked") {
		return
	}
	pos := w.At(walk)
	// where
	rootArg := walk.Call.Args[len(walk.Call.Args)-2]
	joined := callOf(eng.ResolveLocal(rootArg))
	ok := joined != nil && keyIs(joined, "path/filepath.Join", "path.Join")
	var name ssa.Value
	if ok {
		args := eng.VarArgs(joined.Call.Args[0])
		ok = len(args) == 2 && globalOf(eng.ResolveLocal(args[1])) == "internal/toolexec/aspect.OrchestrionDirPathElement"
		if ok {
			name = args[0]
		}
	}
	r.Check(ok, "directory", pos, "what is walked is not orchestrion's directory of a directory of the work folder")
	// for every directory
	var read *ssa.Call
	for _, g := range region {
		for _, ci := range eng.Calls(g) {
			if x, ok := ci.(*ssa.Call); ok && keyIs(ci, "io/fs.ReadDir", "os.ReadDir") {
				read = x
			}
		}
	}
	var loop *eng.Loop
	site := ssa.Instruction(walk)
	for d := 0; d < 3 && loop == nil; d++ {
		for _, l := range eng.Loops(site.Parent()) {
			if l.Blocks[site.Block()] && l.Over != nil && read != nil && c.derivesIn(from, l.Over, func(o ssa.Value) bool {
				e, ok := o.(*ssa.Extract)
				return ok && e.Tuple == ssa.Value(read)
			}) {
				loop = l
			}
		}
		if loop == nil {
			cs := w.Callers(site.Parent())
			if len(cs) != 1 {
				break
			}
			site = cs[0]
		}
	}
	if r.Check(loop != nil && read != nil, "every directory", pos, "the directories of the work folder are not gone through") {
		if dir, isC := eng.ConstString(eng.ArgOf(read, len(read.Call.Args)-1)); eng.Key(read) == "io/fs.ReadDir" {
			r.Check(isC && dir == ".", "work folder", w.At(read), "the folder read is not the work folder")
		}
		ev := func(in ssa.Instruction) bool { return in == site }
		skip := func(l eng.Lit) bool {
			x, ok := l.V.(*ssa.Call)
			return ok && x.Call.IsInvoke() && x.Call.Method.Name() == "IsDir" && !l.Pol && loop.IsElem(eng.ResolveLocal(x.Call.Value))
		}
		r.Check(loop.Always(ev, skip), "each directory", w.At(site), "a directory of the work folder may be passed over")
		if e := w.EarlyExit(loop, nil); e != nil {
			r.Bad("all directories", w.At(e), "going through the work folder may end early")
		}
		if name != nil {
			nm := callOf(eng.ResolveLocal(name))
			okN := nm != nil && nm.Call.IsInvoke() && nm.Call.Method.Name() == "Name"
			if okN && nm.Parent() == loop.Fn {
				okN = loop.IsElem(eng.ResolveLocal(nm.Call.Value))
			}
			r.Check(okN || nm == nil && site.Parent() != walk.Parent(), "directory walked", pos, "what is walked is not below the directory at hand")
		}
	}
	f, at := w.FateWith(walk, notExist, nil)
	if at == nil {
		at = walk
	}
	r.Check(f == eng.ErrPropagated, "failing to walk", w.At(at), "a directory that cannot be walked is passed over")
	if read != nil {
		f, _ := w.FateWith(read, func(ssa.Value, eng.Lit) bool { return false }, nil)
		r.Check(f == eng.ErrPropagated, "failing to read", w.At(read), "a work folder that cannot be read is taken for an empty one")
	}

	// what the walk does with each file
	visit := c.literal(walk.Call.Args[len(walk.Call.Args)-1])
	if !r.Check(visit != nil && len(visit.Params) >= 3, "visitor", pos, "what is done with each file is not known") {
		return
	}
	params := visit.Params[len(visit.Params)-3:]
	for _, s := range []struct {
		name        string
		fails       bool
		dir         bool
		file        string
		unreadable  bool
		taken, errs bool
	}{
		{"unreadable directory", true, false, "a.go", false, false, true},
		{"directory", false, true, "a", false, false, false},
		{"directory named like a file", false, true, "a.go", false, false, false},
		{"Go file", false, false, "a.go", false, true, false},
		{"Go file of one letter", false, false, "z.go", false, true, false},
		{"generated Go file", false, false, "link_deps_imports.go", false, true, false},
		{"test file", false, false, "a_test.go", false, true, false},
		{"cgo file", false, false, "a.cgo1.go", false, true, false},
		{"hidden Go file", false, false, "_cgo_gotypes.go", false, true, false},
		{"unreadable Go file", false, false, "a.go", true, false, true},
		{"other file", false, false, "a.s", false, false, false},
		{"archive", false, false, "a.go.a", false, false, false},
	} {
		ex := &eng.Exploration{W: w, Repeat: true, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == reportPkg && g != newMod }}
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			switch x := v.(type) {
			case *ssa.Parameter:
				switch x {
				case params[0]:
					return eng.AStr("b001/orchestrion/src/p/" + s.file), true
				case params[2]:
					if s.fails {
						return eng.ANonNilV(), true
					}
					return eng.ANilV(), true
				}
			case *ssa.Call:
				if x.Call.IsInvoke() {
					switch x.Call.Method.Name() {
					case "IsDir":
						return eng.ABool(s.dir), true
					case "Name":
						return eng.AStr(s.file), true
					}
				}
				switch eng.Key(x) {
				case "path/filepath.Ext", "path.Ext":
					return eng.AStr(path.Ext(s.file)), true
				}
				if x.Call.StaticCallee() == newMod {
					if s.unreadable {
						return tuple(eng.AUnk(), eng.ANonNilV()), true
					}
					return tuple(sym("file"), eng.ANilV()), true
				}
			}
			return eng.AV{}, false
		}
		took := 0
		ex.Event = func(in ssa.Instruction) string {
			if st, ok := in.(*ssa.Store); ok {
				if sl, ok := eng.Deref(st.Addr.Type()).Underlying().(*types.Slice); ok && eng.NamedOf(sl.Elem()) != nil && eng.NamedOf(sl.Elem()).Obj().Name() == "ModifiedFile" {
					if x := callOf(st.Val); x != nil && appendOf(x) {
						return "taken"
					}
					return "lost"
				}
			}
			return ""
		}
		outs := ex.Run(visit)
		r.Check(len(outs) > 0 && !ex.Exhausted, s.name+": explored", w.Pos(visit.Pos()), "what is done with each file could not be followed")
		for _, o := range outs {
			if o.Panics {
				r.Bad(s.name, w.Pos(visit.Pos()), "visiting a file panics")
				continue
			}
			res := o.Rets[0]
			r.Check(o.Has("taken") == s.taken && !o.Has("taken+") && !o.Has("lost"), s.name, w.Pos(visit.Pos()), "taken in: %v, expected: %v", o.Has("taken"), s.taken)
			r.Check((res.K == eng.ANil) == !s.errs && (s.errs == (res.K == eng.ANonNil)), s.name+": outcome", w.Pos(visit.Pos()), "the walk ends or goes on wrongly: %s", res)
		}
		_ = took
	}
	// what is taken in is what was read from this path, and all of it is in the report
	isNew := func(o ssa.Value) bool {
		x := callOf(o)
		return x != nil && x.Call.StaticCallee() == newMod
	}
	appended := 0
	var cells []*ssa.Alloc
	for _, g := range append(c.Region(visit), visit) {
		for _, ci := range eng.Calls(g) {
			x, ok := ci.(*ssa.Call)
			if !ok || !appendOf(x) {
				continue
			}
			sl, ok := x.Type().Underlying().(*types.Slice)
			if !ok || eng.NamedOf(sl.Elem()) == nil || eng.NamedOf(sl.Elem()).Obj().Name() != "ModifiedFile" {
				continue
			}
			appended++
			els := eng.VarArgs(x.Call.Args[1])
			r.Check(len(els) == 1 && c.derivesIn(visit, els[0], isNew), "file taken in", w.At(x), "what is taken in is not the file found")
			for _, ref := range *x.Referrers() {
				if st, ok := ref.(*ssa.Store); ok {
					if al := cellOf(c, st.Addr); al != nil {
						cells = append(cells, al)
					}
				}
			}
		}
		for _, ci := range eng.Calls(g) {
			if x, ok := ci.(*ssa.Call); ok && x.Call.StaticCallee() == newMod {
				p := eng.ResolveLocal(eng.ArgOf(x, len(x.Call.Args)-1))
				r.Check(p == ssa.Value(params[0]) || c.derivesIn(visit, p, func(o ssa.Value) bool { return o == ssa.Value(params[0]) }), "path taken in", w.At(x), "the file taken in is not the one found")
			}
		}
	}
	r.Check(appended > 0 && len(cells) > 0, "kept", pos, "no file is ever taken in")
	n := 0
	for _, g := range region {
		instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || eng.FieldVar(fa) != files {
				return
			}
			n++
			whole := false
			v := eng.ResolveLocal(st.Val)
			for p, ok := v.(*ssa.Parameter); ok; p, ok = v.(*ssa.Parameter) {
				cs := w.Callers(p.Parent())
				if len(cs) != 1 {
					break
				}
				for i, q := range p.Parent().Params {
					if q == p {
						v = eng.ResolveLocal(cs[0].Common().Args[i])
					}
				}
			}
			if ld, ok := v.(*ssa.UnOp); ok {
				al := cellOf(c, ld.X)
				for _, x := range cells {
					whole = whole || al == x
				}
			}
			if !whole {
				whole = w.Carries(st.Val, func(x ssa.Value) bool {
					ld, ok := x.(*ssa.UnOp)
					if !ok {
						return false
					}
					al := cellOf(c, ld.X)
					for _, y := range cells {
						if al != nil && al == y {
							return true
						}
					}
					return false
				})
			}
			r.Check(whole, "reported", w.At(st), "the report is not made of all the files found")
		})
	}
	r.Check(n > 0, "report", pos, "the files found are not reported")
	for _, al := range cells {
		for _, st := range cellStores(c, al) {
			x := callOf(st.Val)
			if x != nil && appendOf(x) || isNil(st.Val) {
				continue
			}
			if x != nil && strings.HasPrefix(eng.Key(x), "slices.Sort") {
				continue
			}
			r.Bad("files lost", w.At(st), "files found before are lost")
		}
	}
}

// appendOf: the call is append.
func appendOf(x *ssa.Call) bool {
	b, ok := x.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func (c *Ctx) reportSource(r *R, newMod *ssa.Function, orig, mod *types.Var) {
	w := c.W
	region := c.Region(newMod)
	lossless := map[string]bool{"path/filepath.Clean": true, "path.Clean": true, "path/filepath.FromSlash": true}
	nO, nM := 0, 0
	path := newMod.Params[len(newMod.Params)-1]
	isPath := func(v ssa.Value) bool { return v == ssa.Value(path) }
	for _, g := range region {
		instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			switch eng.FieldVar(fa) {
			case orig:
				nO++
				r.Check(w.CarriesVia(st.Val, lossless, func(v ssa.Value) bool {
					x := callOf(eng.ResolveLocal(v))
					if x == nil || eng.MKey(x) != "internal/injector/parse.ConsumeLineDirective" {
						return false
					}
					return c.derivesIn(newMod, x.Call.Args[0], func(o ssa.Value) bool {
						op := callOf(o)
						return op != nil && op.Call.IsInvoke() && op.Call.Method.Name() == "Open" && w.Carries(op.Call.Args[0], isPath)
					})
				}), "original", w.At(st), "the original is not what the line directive of the file names")
			case mod:
				nM++
				r.Check(w.CarriesVia(st.Val, lossless, isPath), "path", w.At(st), "the path kept is not that of the file")
			}
		})
	}
	r.Check(nO > 0 && nM > 0, "kept", w.Pos(newMod.Pos()), "the file's original and path are not kept")
}

// keeps explores which files a filter of a report keeps: it returns whether a file may be left out
// and whether it may be kept.
func (c *Ctx) keeps(f *ssa.Function, files *types.Var, setup func(ex *eng.Exploration)) (out, kept, ok bool) {
	w := c.W
	for _, g := range c.Region(f) {
		for _, ci := range eng.Calls(g) {
			x, isCall := ci.(*ssa.Call)
			if !isCall || !strings.HasPrefix(eng.Key(x), "slices.DeleteFunc") {
				continue
			}
			pred := c.literal(x.Call.Args[1])
			if pred == nil || pred.Blocks == nil {
				return false, false, false
			}
			ex := &eng.Exploration{W: w}
			setup(ex)
			for _, o := range ex.Run(pred) {
				if o.Panics || len(o.Rets) != 1 {
					return false, false, false
				}
				if !o.Rets[0].IsFalse() {
					out = true
				}
				if !o.Rets[0].IsTrue() {
					kept = true
				}
			}
			return out, kept, !ex.Exhausted
		}
	}
	// a loop over the files which collects those kept
	ex := &eng.Exploration{W: w, Lists: true, Repeat: true}
	setup(ex)
	atom := ex.Atom
	ex.Atom = func(v ssa.Value) (eng.AV, bool) {
		if isFieldVal(v, files) {
			return eng.AListOf(*listOf("", sym("file"))), true
		}
		return atom(v)
	}
	ex.Event = func(in ssa.Instruction) string {
		if x, ok := in.(*ssa.Call); ok && appendOf(x) {
			return "kept"
		}
		return ""
	}
	outs := ex.Run(f)
	for _, o := range outs {
		if o.Panics {
			return false, false, false
		}
		if len(o.Rets) > 1 && o.Rets[len(o.Rets)-1].K == eng.ANonNil {
			continue
		}
		if o.Has("kept") {
			kept = true
		} else {
			out = true
		}
	}
	return out, kept, len(outs) > 0 && !ex.Exhausted
}

func (c *Ctx) reportFilters(r *R, files, mod *types.Var) {
	w := c.W
	special := r.Fn(reportPkg, "Report.WithSpecialCasesFilter")
	regex := r.Fn(reportPkg, "Report.WithRegexFilter")
	impPath := r.Fn(reportPkg, "ModifiedFile.ImportPath")
	if special == nil || regex == nil || impPath == nil {
		return
	}
	behaviour := map[string]int64{}
	for _, p := range w.Packages() {
		if strings.HasSuffix(p.Types.Path(), "internal/toolexec/aspect") {
			for _, n := range []string{"NoOverride", "NeverWeave", "WeaveTracerInternal"} {
				if k, ok := p.Types.Scope().Lookup(n).(*types.Const); ok {
					behaviour[n], _ = constInt(k)
				}
			}
		}
	}
	r.Check(len(behaviour) == 3, "behaviours", "-", "the special cases of weaving are not known")
	for _, s := range []struct {
		name, pkg string
		special   bool
		behaviour string
		out       bool
	}{
		{"synthetic package", "synthetic", false, "NoOverride", true},
		{"ordinary package", "example.com/p", false, "NoOverride", false},
		{"package below a synthetic one", "synthetic/p", false, "NoOverride", false},
		{"package named synthetic", "example.com/synthetic", false, "NoOverride", false},
		{"main package", "main", false, "NoOverride", false},
		{"special case without effect", "example.com/p", true, "NoOverride", false},
		{"package never woven", "example.com/p", true, "NeverWeave", true},
		{"tracer package", "example.com/p", true, "WeaveTracerInternal", true},
	} {
		asked := true
		out, kept, ok := c.keeps(special, files, func(ex *eng.Exploration) {
			ex.Inline = func(g *ssa.Function) bool { return eng.Rel(g) == reportPkg && g != impPath }
			ex.Atom = func(v ssa.Value) (eng.AV, bool) {
				x, ok := v.(*ssa.Call)
				if !ok {
					return eng.AV{}, false
				}
				if x.Call.StaticCallee() == impPath {
					return eng.AStr(s.pkg), true
				}
				if eng.MKey(x) == "internal/toolexec/aspect.FindBehaviorOverride" {
					return tuple(eng.AInt(behaviour[s.behaviour]), eng.ABool(s.special)), true
				}
				return eng.AV{}, false
			}
			ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
				if eng.MKey(x) == "internal/toolexec/aspect.FindBehaviorOverride" {
					if t, ok := eng.ConstAV(eval(x.Call.Args[0])); !ok || t != s.pkg {
						asked = false
					}
				}
				return eng.AV{}, false
			}
		})
		r.Check(ok, s.name+": explored", w.Pos(special.Pos()), "the filter could not be followed")
		r.Check(out == s.out && kept == !s.out, s.name, w.Pos(special.Pos()), "left out: %v, expected: %v", out, s.out)
		r.Check(asked, s.name+": asked", w.Pos(special.Pos()), "the special case looked for is not that of the file's package")
	}
	for _, m := range []bool{true, false} {
		name := map[bool]string{true: "matching", false: "not matching"}[m]
		about := true
		out, kept, ok := c.keeps(regex, files, func(ex *eng.Exploration) {
			ex.Atom = func(v ssa.Value) (eng.AV, bool) {
				switch x := v.(type) {
				case *ssa.Call:
					switch eng.Key(x) {
					case "regexp.Regexp.MatchString":
						about = about && c.W.Carries(x.Call.Args[1], func(o ssa.Value) bool { return isField(o, mod) || isFieldVal(o, mod) })
						return eng.ABool(m), true
					case "regexp.Compile":
						return tuple(eng.ANonNilV(), eng.ANilV()), true
					}
				}
				return eng.AV{}, false
			}
		})
		r.Check(ok && out == !m && kept == m, "expression "+name, w.Pos(regex.Pos()), "a file %s the expression is left out: %v", name, out)
		r.Check(about, "what is matched", w.Pos(regex.Pos()), "the expression is not matched with the path of the file")
	}
	// the expression is the one given, and has to be valid
	n := 0
	for _, g := range c.Region(regex) {
		for _, ci := range eng.Calls(g) {
			x, ok := ci.(*ssa.Call)
			if !ok || !strings.HasPrefix(eng.Key(x), "regexp.") || !strings.Contains(eng.Key(x), "Compile") {
				continue
			}
			n++
			r.Check(eng.Key(x) == "regexp.Compile", "compiled", w.At(x), "the expression is not compiled as it is")
			r.Check(w.Carries(x.Call.Args[0], func(v ssa.Value) bool { return v == ssa.Value(regex.Params[len(regex.Params)-1]) }), "expression", w.At(x), "the expression compiled is not the one given")
			f, _ := w.FateWith(x, func(ssa.Value, eng.Lit) bool { return false }, nil)
			r.Check(f == eng.ErrPropagated, "invalid expression", w.At(x), "an invalid expression is not reported")
		}
	}
	r.Check(n == 1, "one expression", w.Pos(regex.Pos()), "the expression is compiled %d times", n)
	// all else of the report is kept
	for _, f := range []*ssa.Function{special, regex} {
		for _, fv := range structFields(eng.NamedOf(special.Params[0].Type())) {
			if fv == files {
				continue
			}
			set := 0
			for _, st := range fieldStores(c.Region(f), fv) {
				set++
				r.Check(w.Carries(st.Val, func(v ssa.Value) bool { return isFieldVal(v, fv) || isField(v, fv) }), f.Name()+" keeps "+fv.Name(), w.At(st), "the report filtered is not the same as before otherwise")
			}
			if set == 0 {
				// the report itself, with other files
				whole := false
				for _, rt := range eng.Returns(f) {
					whole = whole || w.Carries(rt.Results[0], func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) }) || c.derivesIn(f, rt.Results[0], func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) })
				}
				r.Check(whole, f.Name()+" keeps "+fv.Name(), w.Pos(f.Pos()), "the report filtered is not the same as before otherwise")
			}
		}
	}
	// the package of a file: what follows orchestrion's directory
	for _, s := range []struct{ path, want string }{
		{"b001/orchestrion/src/example.com/p/a.go", "example.com/p"},
		{"b001/orchestrion/src/main/a.go", "main"},
		{"b001/orchestrion/src/example.com/orchestrion/src/p/a.go", "example.com/orchestrion/src/p"},
	} {
		ex := &eng.Exploration{W: w}
		dir := s.path[:strings.LastIndex(s.path, "/")]
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			if isFieldVal(v, mod) {
				return eng.AStr(s.path), true
			}
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && globalOf(x) == "internal/toolexec/aspect.OrchestrionDirPathElement" {
					return eng.AStr("orchestrion/src"), true
				}
			}
			return eng.AV{}, false
		}
		ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			at := func(i int) string { t, _ := eng.ConstAV(eval(x.Call.Args[i])); return t }
			switch eng.Key(x) {
			case "path/filepath.Dir", "path.Dir":
				if at(0) == s.path {
					return eng.AStr(dir), true
				}
			case "strings.Cut":
				if b, a, ok := strings.Cut(at(0), at(1)); ok && at(1) != "" {
					return tuple(eng.AStr(b), eng.AStr(a), eng.ABool(true)), true
				}
				return tuple(eng.AUnk(), eng.AStr(""), eng.ABool(false)), true
			case "strings.Index":
				return eng.AInt(int64(strings.Index(at(0), at(1)))), at(1) != ""
			case "strings.LastIndex":
				return eng.AInt(int64(strings.LastIndex(at(0), at(1)))), at(1) != ""
			case "path/filepath.ToSlash":
				return eval(x.Call.Args[0]), true
			case "strings.Trim":
				return eng.AStr(strings.Trim(at(0), at(1))), true
			case "strings.TrimLeft":
				return eng.AStr(strings.TrimLeft(at(0), at(1))), true
			case "strings.TrimPrefix":
				return eng.AStr(strings.TrimPrefix(at(0), at(1))), true
			case "strings.TrimSuffix":
				return eng.AStr(strings.TrimSuffix(at(0), at(1))), true
			}
			return eng.AV{}, false
		}
		outs := ex.Run(impPath)
		r.Check(len(outs) > 0, "package of "+s.path, w.Pos(impPath.Pos()), "the package of a file could not be followed")
		for _, o := range outs {
			if o.Panics {
				continue
			}
			t, ok := eng.ConstAV(o.Rets[0])
			r.Check(ok && t == s.want, "package of "+s.path, w.Pos(impPath.Pos()), "the package of %s is %s", s.path, o.Rets[0])
		}
	}
}

func (c *Ctx) reportCompared(r *R, files, orig, mod *types.Var) {
	w := c.W
	diff := r.Fn(reportPkg, "Report.Diff")
	filesFn := r.Fn(reportPkg, "Report.Files")
	root := r.Field(reportPkg, "Report", "root")
	if diff == nil || filesFn == nil || root == nil {
		return
	}
	region := c.Region(diff)
	var made *ssa.Call
	for _, g := range region {
		for _, ci := range eng.Calls(g) {
			x, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			if i, ok := cmdMade(x); ok && len(x.Call.Args) > i {
				made = x
			}
		}
	}
	if !r.Check(made != nil, "compared", w.Pos(diff.Pos()), "nothing is compared") {
		return
	}
	// every file
	site := ssa.Instruction(made)
	var loop *eng.Loop
	for d := 0; d < 4 && loop == nil; d++ {
		for _, l := range eng.Loops(site.Parent()) {
			if !l.Blocks[site.Block()] || l.Over == nil {
				continue
			}
			if c.derivesIn(l.Fn, l.Over, func(o ssa.Value) bool {
				x := callOf(o)
				return x != nil && x.Call.StaticCallee() == filesFn || isField(o, files) || isFieldVal(o, files)
			}) {
				loop = l
			}
		}
		if loop == nil {
			cs := w.Callers(site.Parent())
			if len(cs) != 1 {
				break
			}
			site = cs[0]
		}
	}
	if r.Check(loop != nil, "every file", w.At(made), "the files of the report are not gone through") {
		one := site.Parent() != made.Parent()
		if one {
			r.Check(loop.Always(func(in ssa.Instruction) bool { return in == site }, nil), "each file", w.At(site), "a file of the report may be passed over")
		}
		// whatever becomes of the others
		if e := c.leaves(loop); e != nil {
			r.Bad("all files", w.At(e), "a file that cannot be compared keeps the others from being compared")
		}
	}
	// the comparison of one file
	cmp := made.Parent()
	for _, s := range []struct {
		name, stat string // "", "missing", "error"
		run        string // "same", "different", "trouble", "not run"
		compared   bool
		fails      bool
	}{
		{"no original", "missing", "", false, false},
		{"original not accessible", "error", "", false, true},
		{"same", "", "same", true, false},
		{"different", "", "different", true, false},
		{"trouble", "", "trouble", true, true},
		{"not run", "", "not run", true, true},
	} {
		args := map[string]bool{}
		stats := map[string]bool{}
		ex := &eng.Exploration{W: w, Lists: true, Repeat: true, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == reportPkg }}
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			switch {
			case isFieldVal(v, orig):
				return sym("original"), true
			case isFieldVal(v, mod):
				return sym("modified"), true
			case isFieldVal(v, root):
				return sym("root"), true
			}
			x, ok := v.(*ssa.Call)
			if !ok {
				return eng.AV{}, false
			}
			switch k := eng.Key(x); {
			case k == "os.Stat" || k == "os.Lstat":
				if s.stat == "" {
					return tuple(eng.ANonNilV(), eng.ANilV()), true
				}
				return tuple(eng.ANilV(), sym("stat error")), true
			case k == "errors.Is" && len(x.Call.Args) == 2 && sentinelNotExist(x.Call.Args[1]), k == "os.IsNotExist":
				return eng.ABool(s.stat == "missing"), true
			case isCmdRun(x):
				if s.run == "same" {
					return eng.ANilV(), true
				}
				return sym("run error"), true
			case k == "errors.As":
				return eng.ABool(s.run == "different" || s.run == "trouble"), true
			case exitCodeOf(x) != nil:
				if s.run == "different" {
					return eng.AInt(1), true
				}
				return eng.AInt(2), true
			}
			return eng.AV{}, false
		}
		ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			switch eng.Key(x) {
			case "path/filepath.Join":
				a := eval(x.Call.Args[0]).String()
				return sym("join " + a), true
			}
			return eng.AV{}, false
		}
		ex.Event = func(in ssa.Instruction) string {
			switch x := in.(type) {
			case *ssa.Call:
				if x == made {
					return "made"
				}
				if isCmdRun(x) {
					return "run"
				}
			case *ssa.Store:
				if c.extPkgField(x.Addr, "os/exec", "Cmd", "Stdout") {
					return "output"
				}
			}
			return ""
		}
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if in == ssa.Instruction(made) {
				i, _ := cmdMade(made)
				args[fmt.Sprint(eval(made.Call.Args[i]), " ", eval(made.Call.Args[len(made.Call.Args)-1]))] = true
			}
			if x, ok := in.(*ssa.Call); ok && (eng.Key(x) == "os.Stat" || eng.Key(x) == "os.Lstat") {
				stats[eval(x.Call.Args[0]).String()] = true
			}
			return false
		}
		outs := ex.Run(cmp)
		pos := w.Pos(cmp.Pos())
		r.Check(len(outs) > 0 && !ex.Exhausted, s.name+": explored", pos, "the comparison could not be followed")
		for _, o := range outs {
			if o.Panics {
				continue
			}
			res := o.Rets[len(o.Rets)-1]
			r.Check(o.Has("run") == s.compared && !o.Has("run+"), s.name+": compared", pos, "compared: %v, expected: %v", o.Has("run"), s.compared)
			if s.compared {
				r.Check(o.Has("output"), s.name+": output", pos, "what differs is not printed")
			}
			r.Check((res.K == eng.ANil) == !s.fails, s.name+": outcome", pos, "the outcome is %s", res)
		}
		for a := range stats {
			r.Check(a == "<original>", s.name+": original looked for", pos, "what is looked for is %s", a)
		}
		for a := range args {
			a = strings.TrimSuffix(a, "]")
			r.Check(strings.HasPrefix(a, `"diff" [`) && strings.HasSuffix(a, "<original> <join [<root> <modified>]>"), s.name+": arguments", pos, "what is compared is %s", a)
			r.Check(strings.Contains(a, `"--label" <original> "--label" <modified>`), s.name+": labels", pos, "the labels of what is compared are wrong: %s", a)
			for _, opt := range []string{`"-u"`} {
				r.Check(strings.Contains(a, " "+opt+" ") || strings.Contains(a, "["+opt+" "), s.name+": "+opt, pos, "the differences are not printed with their context")
			}
			for _, part := range strings.Split(a, `"-I" `)[1:] {
				r.Check(strings.HasPrefix(part, `"^//line`), s.name+": ignored", pos, "lines which are no line directives are ignored")
			}
			for _, opt := range []string{`"-q"`, `"--brief"`, `"-s"`} {
				r.Check(!strings.Contains(a, opt), s.name+": "+opt, pos, "the differences are not printed")
			}
		}
	}
	// the writer is the one given
	for _, g := range region {
		instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if ok && c.extPkgField(st.Addr, "os/exec", "Cmd", "Stdout") {
				r.Check(c.derivesIn(diff, st.Val, func(o ssa.Value) bool {
					p, ok := o.(*ssa.Parameter)
					return ok && p.Parent() == diff && p != diff.Params[0]
				}), "printed", w.At(st), "the differences are not printed to the writer given")
			}
		})
	}
	// what fails is reported
	if site != ssa.Instruction(made) {
		if ci, ok := site.(ssa.CallInstruction); ok {
			f, _ := w.FateWith(ci, func(ssa.Value, eng.Lit) bool { return false }, nil)
			r.Check(f == eng.ErrPropagated, "reported", w.At(site), "a comparison that fails is not reported")
		}
	}
}

// leaves is a place where a loop over the files is left before its end.
func (c *Ctx) leaves(l *eng.Loop) ssa.Instruction {
	for b := range l.Blocks {
		if b == l.Header {
			continue
		}
		for _, s := range b.Succs {
			if !l.Blocks[s] {
				return b.Instrs[len(b.Instrs)-1]
			}
		}
		if len(b.Succs) == 0 {
			return b.Instrs[len(b.Instrs)-1]
		}
	}
	// blocks reached from the loop which do not lead back to it are not part of it
	return nil
}

func (c *Ctx) reportListed(r *R, files *types.Var) {
	w := c.W
	filesFn, pkgs, empty := r.Fn(reportPkg, "Report.Files"), r.Fn(reportPkg, "Report.Packages"), r.Fn(reportPkg, "Report.IsEmpty")
	if filesFn == nil || pkgs == nil || empty == nil {
		return
	}
	isFiles := func(v ssa.Value) bool { return isFieldVal(v, files) || isField(v, files) }
	whole := map[string]bool{}
	for _, k := range []string{"slices.SortedFunc", "slices.SortedStableFunc", "slices.Values", "slices.Collect", "slices.Clone", "slices.Sorted"} {
		whole[k] = true
	}
	for _, rt := range eng.Returns(filesFn) {
		ok := w.CarriesVia(rt.Results[0], whole, isFiles)
		r.Check(ok, "files", w.At(rt), "not all the files of the report are listed")
	}
	// IsEmpty
	for _, n := range []int{0, 1, 2} {
		ex := &eng.Exploration{W: w, Lists: true, Atom: func(v ssa.Value) (eng.AV, bool) {
			if isFiles(v) {
				return eng.AListOf(*listOf("", strs("a", "b")[:n]...)), true
			}
			return eng.AV{}, false
		}}
		for _, o := range ex.Run(empty) {
			if !o.Panics {
				r.Check(o.Rets[0].IsTrue() == (n == 0) && o.Rets[0].IsFalse() == (n > 0), fmt.Sprintf("empty with %d files", n), w.Pos(empty.Pos()), "the report says wrongly whether it is empty")
			}
		}
	}
	// packages: for every file, its package is yielded (or collected) unless it has been already
	var loop *eng.Loop
	for _, g := range append(c.Region(pkgs), pkgs) {
		for _, l := range eng.Loops(g) {
			if l.Over != nil && c.derivesIn(pkgs, l.Over, isFiles) {
				loop = l
			}
		}
	}
	if !r.Check(loop != nil, "packages", w.Pos(pkgs.Pos()), "the packages of the report are not gone through") {
		return
	}
	isPkg := func(v ssa.Value) bool {
		x := callOf(eng.ResolveLocal(v))
		return x != nil && eng.MKey(x) == reportPkg+".ModifiedFile.ImportPath" && loop.IsElem(eng.ResolveLocal(x.Call.Args[0]))
	}
	isMap := func(v ssa.Value) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && types.Identical(m.Key(), types.Typ[types.String])
	}
	out := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Call:
			if x.Call.StaticCallee() == nil && !x.Call.IsInvoke() {
				if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
					return len(x.Call.Args) == 1 && isPkg(x.Call.Args[0])
				}
				if appendOf(x) {
					els := eng.VarArgs(x.Call.Args[1])
					return len(els) == 1 && isPkg(els[0])
				}
			}
		case *ssa.MapUpdate:
			// the keys of the map are what is listed
			return false
		}
		return false
	}
	keyed := func(in ssa.Instruction) bool {
		x, ok := in.(*ssa.MapUpdate)
		return ok && isMap(x.Map) && isPkg(x.Key)
	}
	seen := func(l eng.Lit) bool {
		v := eng.ResolveLocal(l.V)
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		lk, ok := v.(*ssa.Lookup)
		return ok && l.Pol && isPkg(lk.Index)
	}
	for b := range loop.Blocks {
		for _, t := range b.Succs {
			if b == loop.Header || loop.Blocks[t] {
				continue
			}
			// whoever goes through the list has seen enough
			l, ok := eng.EdgeLit(b, t)
			call := callOf(eng.ResolveLocal(l.V))
			r.Check(ok && !l.Pol && call != nil && out(call), "all packages", w.At(b.Instrs[len(b.Instrs)-1]), "going through the packages may end early")
		}
	}
	if loop.Always(out, seen) {
		r.Check(true, "each package", w.Pos(pkgs.Pos()), "")
		// recorded as seen exactly when listed
		r.Check(loop.Always(keyed, seen), "each package once", w.Pos(pkgs.Pos()), "a package may be listed several times")
	} else {
		listed := false
		for _, rt := range eng.Returns(pkgs) {
			listed = listed || c.derivesIn(pkgs, rt.Results[0], func(o ssa.Value) bool {
				x := callOf(o)
				return x != nil && strings.HasPrefix(eng.Key(x), "maps.Keys")
			})
		}
		r.Check(listed && loop.Always(keyed, nil), "each package", w.Pos(pkgs.Pos()), "a package of the report may not be listed")
	}
}

func (c *Ctx) reportCommand(r, rb *R, from *ssa.Function) {
	w := c.W
	var action *ssa.Function
	var fromCall *ssa.Call
	for _, f := range w.FuncsIn("internal/cmd") {
		for _, ci := range eng.Calls(f) {
			if x, ok := ci.(*ssa.Call); ok && x.Call.StaticCallee() == from {
				action, fromCall = f, x
			}
		}
	}
	if !r.Check(action != nil, "command", w.Pos(from.Pos()), "no command reports on a work folder") {
		return
	}
	for f := action; ; { // the command's action
		cs := w.Callers(f)
		if len(cs) != 1 || eng.PkgOf(cs[0].Parent()) != eng.PkgOf(f) {
			action = f
			break
		}
		f = cs[0].Parent()
	}
	pos := w.Pos(action.Pos())
	// what finds the work folder
	var folder *ssa.Call
	if e, ok := eng.ResolveLocal(fromCall.Call.Args[len(fromCall.Call.Args)-1]).(*ssa.Extract); ok {
		folder, _ = e.Tuple.(*ssa.Call)
	}
	c.reportFolder(rb, action, fromCall)
	for _, s := range []struct {
		name                        string
		empty, debug                bool
		filter                      string
		badFilter                   bool
		pkg, files, unread, diffErr bool
		report                      string
		out                         string
		fails                       bool
	}{
		{"nothing woven", true, false, "", false, false, false, false, false, "", "", true},
		{"unreadable", false, false, "", false, false, false, true, false, "", "", true},
		{"diff", false, false, "", false, false, false, false, false, "special(all)", "Diff", false},
		{"diff failing", false, false, "", false, false, false, false, true, "special(all)", "Diff", true},
		{"debug", false, true, "", false, false, false, false, false, "all", "Diff", false},
		{"filter", false, false, "f", false, false, false, false, false, "regex(special(all))", "Diff", false},
		{"filter, debug", false, true, "f", false, false, false, false, false, "regex(all)", "Diff", false},
		{"invalid filter", false, false, "f", true, false, false, false, false, "", "", true},
		{"packages", false, false, "", false, true, false, false, false, "special(all)", "Packages", false},
		{"files", false, false, "", false, false, true, false, false, "special(all)", "Files", false},
		{"filtered files, debug", false, true, "f", false, false, true, false, false, "regex(all)", "Files", false},
	} {
		used := map[string]bool{}
		ex := &eng.Exploration{W: w, Repeat: true, Lists: true, Inline: func(g *ssa.Function) bool {
			return eng.PkgOf(g) == eng.PkgOf(action)
		}}
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			x, ok := v.(*ssa.Call)
			if !ok {
				return eng.AV{}, false
			}
			k := eng.MKey(x)
			switch {
			case x == fromCall:
				if s.unread {
					return tuple(eng.AUnk(), sym("read error")), true
				}
				return tuple(sym("all"), eng.ANilV()), true
			case k == reportPkg+".Report.IsEmpty":
				return eng.ABool(s.empty), true
			case k == reportPkg+".Report.Diff":
				if s.diffErr {
					return sym("diff error"), true
				}
				return eng.ANilV(), true
			case x == folder:
				return tuple(eng.AStr("/work"), eng.ANilV()), true
			}
			return eng.AV{}, false
		}
		ex.Deref = func(x *ssa.UnOp, _ func(ssa.Value) eng.AV) (eng.AV, bool) {
			if l := c.flagNames(x); len(l) == 1 {
				return eng.AStr(l[0]), true
			}
			return eng.AV{}, false
		}
		ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			name := func(v ssa.Value) string {
				return strings.Trim(eval(v).String(), "<>")
			}
			switch eng.MKey(x) {
			case reportPkg + ".Report.WithSpecialCasesFilter":
				return sym("special(" + name(x.Call.Args[0]) + ")"), true
			case reportPkg + ".Report.WithRegexFilter":
				if t, _ := eng.ConstAV(eval(x.Call.Args[1])); t != "f" {
					return tuple(sym("wrong filter"), eng.ANilV()), true
				}
				if s.badFilter {
					return tuple(eng.AUnk(), sym("filter error")), true
				}
				return tuple(sym("regex("+name(x.Call.Args[0])+")"), eng.ANilV()), true
			case "github.com/urfave/cli/v2.Context.Bool":
				switch t, _ := eng.ConstAV(eval(x.Call.Args[1])); t {
				case "debug":
					return eng.ABool(s.debug), true
				case "files":
					return eng.ABool(s.files), true
				case "package":
					return eng.ABool(s.pkg), true
				case "build", "no-cache":
					return eng.ABool(false), true
				}
			case "github.com/urfave/cli/v2.Context.String":
				if t, _ := eng.ConstAV(eval(x.Call.Args[1])); t == "filter" {
					return eng.AStr(s.filter), true
				}
			case "github.com/urfave/cli/v2.Exit":
				if n, ok := eng.ConstInt(x.Call.Args[1]); ok && n == 0 {
					return eng.ANilV(), true
				}
				return eng.ANonNilV(), true
			}
			return eng.AV{}, false
		}
		kind := func(in ssa.Instruction) string {
			x, ok := in.(*ssa.Call)
			if !ok {
				return ""
			}
			switch k := eng.MKey(x); k {
			case reportPkg + ".Report.Diff", reportPkg + ".Report.Files", reportPkg + ".Report.Packages":
				return k[strings.LastIndex(k, ".")+1:]
			}
			return ""
		}
		ex.Event = kind
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if k := kind(in); k != "" {
				used[k+" "+strings.Trim(eval(in.(*ssa.Call).Call.Args[0]).String(), "<>")] = true
			}
			return false
		}
		outs := ex.Run(action)
		r.Check(len(outs) > 0 && !ex.Exhausted, s.name+": explored", pos, "the command could not be followed")
		ended := false
		for _, o := range outs {
			if o.Panics {
				continue
			}
			res := o.Rets[len(o.Rets)-1]
			if s.out == "" {
				r.Check(res.K == eng.ANonNil || res.K == eng.ASymbol, s.name, pos, "the outcome is %s", res)
				continue
			}
			if !o.Has("Diff") && !o.Has("Files") && !o.Has("Packages") {
				r.Check(res.K == eng.ANonNil || res.K == eng.ASymbol, s.name+": printed", pos, "nothing is printed")
				continue
			}
			ended = true
			r.Check((res.K == eng.ANil) == !s.fails, s.name+": outcome", pos, "the outcome is %s", res)
		}
		if s.out != "" {
			r.Check(ended && len(used) == 1 && used[s.out+" "+s.report], s.name, pos, "what is printed is %v instead of %s %s", keysOf(used), s.out, s.report)
		}
	}
	// all of a list is printed
	for _, f := range c.Region(action) {
		if eng.PkgOf(f) != eng.PkgOf(action) {
			continue
		}
		for _, l := range eng.Loops(f) {
			if l.Over == nil {
				continue
			}
			x := callOf(eng.ResolveLocal(l.Over))
			if x == nil || eng.MKey(x) != reportPkg+".Report.Files" && eng.MKey(x) != reportPkg+".Report.Packages" {
				continue
			}
			printed := func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(eng.Key(ci), "fmt.Fp") {
					return false
				}
				for _, a := range eng.VarArgs(eng.ArgOf(ci, len(ci.Common().Args)-1)) {
					if l.IsElem(eng.ResolveLocal(eng.Unwrap(a))) {
						return true
					}
				}
				return false
			}
			r.Check(l.Always(printed, nil) && c.leaves(l) == nil, "printed: "+eng.MKey(x), w.At(x), "not all of the list is printed")
		}
	}
	c.reportBuilt(rb, action, fromCall)
}

// reportFolder checks which work folder is reported on.
func (c *Ctx) reportFolder(r *R, action *ssa.Function, fromCall *ssa.Call) {
	w := c.W
	pos := w.Pos(action.Pos())
	for _, asked := range []bool{false, true} {
		name := map[bool]string{false: "no build asked for", true: "build asked for"}[asked]
		used := map[string]bool{}
		built, others := false, true
		ex := &eng.Exploration{W: w, Repeat: true, Lists: true, Inline: func(g *ssa.Function) bool {
			return eng.PkgOf(g) == eng.PkgOf(action)
		}}
		ex.Deref = func(x *ssa.UnOp, _ func(ssa.Value) eng.AV) (eng.AV, bool) {
			if l := c.flagNames(x); len(l) == 1 {
				return eng.AStr(l[0]), true
			}
			return eng.AV{}, false
		}
		ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			switch eng.Key(x) {
			case "github.com/urfave/cli/v2.Context.Bool":
				if t, _ := eng.ConstAV(eval(x.Call.Args[1])); t == "build" {
					return eng.ABool(asked), true
				}
			case "github.com/urfave/cli/v2.Args.First":
				return eng.AStr("/given"), true
			case "github.com/urfave/cli/v2.Args.Get":
				if n, ok := eng.ConstInt(x.Call.Args[0]); ok && n == 0 {
					return eng.AStr("/given"), true
				}
			case "github.com/urfave/cli/v2.Args.Present":
				return eng.ABool(true), true
			}
			return eng.AV{}, false
		}
		isBuild := func(in ssa.Instruction) bool {
			x, ok := in.(*ssa.Call)
			return ok && eng.MKey(x) == goproxyPkg+".BuildCmd"
		}
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if isBuild(in) {
				built = true
				return !asked
			}
			if in == ssa.Instruction(fromCall) {
				used[eval(fromCall.Call.Args[len(fromCall.Call.Args)-1]).String()] = true
				return true
			}
			return false
		}
		ex.Run(action)
		for u := range used {
			others = others && u != `"/given"`
		}
		r.Check(!ex.Exhausted, name+": explored", pos, "the command could not be followed")
		r.Check(built == asked, name+": build", pos, "a build is made: %v", built)
		if asked {
			r.Check(others, name, pos, "the folder reported on is not that of the build")
		} else {
			r.Check(len(used) == 1 && used[`"/given"`], name, pos, "the folder reported on is not the one given but %v", keysOf(used))
		}
	}
}

// reportBuilt checks the build made by diff --build.
func (c *Ctx) reportBuilt(r *R, action *ssa.Function, fromCall *ssa.Call) {
	w := c.W
	region := c.Region(action)
	var run *ssa.Call
	var build *ssa.Call
	for _, g := range region {
		if eng.PkgOf(g) != eng.PkgOf(action) {
			continue
		}
		for _, ci := range eng.Calls(g) {
			x, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			if isCmdRun(x) {
				run = x
			}
			if eng.MKey(x) == goproxyPkg+".BuildCmd" {
				build = x
			}
		}
	}
	if !r.Check(run != nil && build != nil, "build", w.Pos(action.Pos()), "no build is made") {
		return
	}
	// its arguments
	var prep *ssa.Function
	for _, g := range region {
		sig := g.Signature
		if eng.PkgOf(g) == eng.PkgOf(action) && sig.Recv() == nil && sig.Params().Len() == 2 && sig.Results().Len() == 1 &&
			sig.Params().At(0).Type().String() == "[]string" && sig.Results().At(0).Type().String() == "[]string" && sig.Params().At(1).Type().String() == "bool" {
			prep = g
		}
	}
	if !r.Check(prep != nil, "arguments", w.At(build), "how the arguments of the build are made is not known") {
		return
	}
	pos := w.Pos(prep.Pos())
	sc := func(in, plain, forced string) {
		for _, force := range []bool{false, true} {
			want := plain
			if force {
				want = forced
			}
			var l []eng.AV
			if in != "" {
				l = strs(strings.Fields(in)...)
			}
			ex := &eng.Exploration{W: w, Lists: true}
			outs := ex.Run(prep, eng.AListOf(*listOf("", l...)), eng.ABool(force))
			name := fmt.Sprintf("%q, all: %v", in, force)
			r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", pos, "how the arguments of the build are made could not be followed")
			for _, o := range outs {
				if o.Panics {
					r.Bad(name, pos, "making the arguments of the build panics")
					continue
				}
				r.Check(sameArgs(o.Rets[0], want), name, pos, "the build's arguments are %s, expected: %s", o.Rets[0], want)
			}
		}
	}
	sc("", "build -work ./...", "build -work -a ./...")
	for _, verb := range []string{"build", "install", "test"} {
		sc(verb, verb+" -work", verb+" -work -a")
		sc(verb+" ./p", verb+" -work ./p", verb+" -work -a ./p")
		sc(verb+" -work ./p", verb+" -work ./p", verb+" -work -a ./p")
		sc(verb+" -a ./p", verb+" -a -work ./p", verb+" -a -work ./p")
		sc(verb+" -v -a ./p", verb+" -work -v -a ./p", verb+" -work -v -a ./p")
		sc(verb+" -v -work ./p", verb+" -v -work ./p", verb+" -a -v -work ./p")
		sc(verb+" -v -work -a ./p ./q", verb+" -v -work -a ./p ./q", verb+" -v -work -a ./p ./q")
		sc(verb+" -ldflags -w -v", verb+" -work -ldflags -w -v", verb+" -work -a -ldflags -w -v")
		sc(verb+" -v ./p ./q", verb+" -work -v ./p ./q", verb+" -work -a -v ./p ./q")
	}
	sc("./p", "build -work ./p", "build -work -a ./p")
	sc("-v ./p", "build -work -v ./p", "build -work -a -v ./p")
	sc("-work ./p", "build -work ./p", "build -a -work ./p")
	isPrep := func(v ssa.Value) bool {
		x := callOf(eng.ResolveLocal(v))
		return x != nil && x.Call.StaticCallee() == prep
	}
	r.Check(c.derivesIn(action, build.Call.Args[1], isPrep), "arguments used", w.At(build), "the arguments made are not those of the build")
	// --no-cache
	for _, g := range region {
		for _, ci := range eng.Calls(g) {
			x, ok := ci.(*ssa.Call)
			if !ok || x.Call.StaticCallee() != prep {
				continue
			}
			b := callOf(eng.ResolveLocal(x.Call.Args[1]))
			flag := ""
			if b != nil && eng.Key(b) == "github.com/urfave/cli/v2.Context.Bool" {
				if l := c.flagNames(b.Call.Args[1]); len(l) == 1 {
					flag = l[0]
				}
			}
			r.Check(flag == "no-cache", "all packages", w.At(x), "whether all packages are rebuilt is decided by %q", flag)
			r.Check(c.derivesIn(action, x.Call.Args[0], func(o ssa.Value) bool {
				y := callOf(o)
				return y != nil && eng.MKey(y) == goproxyPkg+".ProcessDashC"
			}), "arguments given", w.At(x), "the arguments given are not those the build's are made from")
		}
	}
	// the folder reported on is the one the build printed, once it has succeeded
	isWork := func(v ssa.Value) bool {
		return strings.Contains(fmt.Sprint(c.W.ConstStrings(v)), "WORK=")
	}
	n := 0
	for _, g := range region {
		for _, ci := range eng.Calls(g) {
			x, ok := ci.(*ssa.Call)
			if !ok || !keyIs(ci, "strings.CutPrefix", "strings.TrimPrefix", "strings.HasPrefix") || !isWork(x.Call.Args[1]) {
				continue
			}
			if eng.Key(x) == "strings.HasPrefix" {
				continue
			}
			n++
			if eng.Key(x) == "strings.CutPrefix" {
				for _, ref := range *x.Referrers() {
					e, ok := ref.(*ssa.Extract)
					if !ok || e.Index != 0 {
						continue
					}
					for _, use := range *e.Referrers() {
						switch use.(type) {
						case *ssa.Return, *ssa.Store:
							r.Check(w.MustHold(use, func(l eng.Lit) bool {
								f, ok := eng.ResolveLocal(l.V).(*ssa.Extract)
								return ok && l.Pol && f.Tuple == ssa.Value(x) && f.Index == 1
							}), "folder line", w.At(use), "a line which does not say the work folder is taken for it")
						}
					}
				}
			}
			r.Check(c.returnedFrom(fromCall.Call.Args[len(fromCall.Call.Args)-1], func(o ssa.Value) bool {
				e, ok := o.(*ssa.Extract)
				return o == ssa.Value(x) || ok && e.Tuple == ssa.Value(x) && e.Index == 0
			}), "work folder", w.At(fromCall), "the folder reported on is not the one the build printed")
		}
	}
	r.Check(n > 0, "printed work folder", w.At(run), "the work folder the build printed is not looked for")
	for _, g := range region {
		for _, ci := range eng.Calls(g) {
			x, ok := ci.(*ssa.Call)
			if !ok || x.Call.StaticCallee() == nil || eng.PkgOf(x.Call.StaticCallee()) != eng.PkgOf(action) || g != run.Parent() {
				continue
			}
			// what the output is read by, in the function that runs the build
			if x.Call.Signature().Results().Len() == 1 && x.Call.Signature().Results().At(0).Type() == types.Typ[types.String] && len(x.Call.Args) == 1 {
				r.Check(c.afterSuccess(x, func(y *ssa.Call) bool { return y == run }), "build succeeded", w.At(x), "a folder is reported on although the build failed")
			}
		}
	}
	c.reportRead(r, run)
	for _, rt := range eng.Returns(run.Parent()) {
		if len(rt.Results) == 2 && c.succeeding(rt) {
			r.Check(c.afterSuccess(rt, func(y *ssa.Call) bool { return y == run }), "after the build", w.At(rt), "a folder is reported on although the build failed")
			r.Check(w.MustHold(rt, func(l eng.Lit) bool {
				return emptyLit(l, func(v ssa.Value) bool { return eng.ResolveLocal(v) == eng.ResolveLocal(rt.Results[0]) }) == "nonempty"
			}), "folder known", w.At(rt), "a folder is reported on although none was printed")
		}
	}
}

// reportRead checks that what a command prints on its standard error is what is read once it has
// all been collected.
func (c *Ctx) reportRead(r *R, run *ssa.Call) {
	w := c.W
	fns := eng.WithAnon(run.Parent())
	root := func(v ssa.Value) ssa.Value {
		for {
			v = eng.ResolveLocal(eng.Unwrap(v))
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if cell := cellOf(c, u.X); cell != nil {
					if sts := cellStores(c, cell); len(sts) == 1 {
						v = sts[0].Val
						continue
					}
				}
				return v
			}
			if fv, ok := v.(*ssa.FreeVar); ok {
				if cell := cellOf(c, fv); cell != nil {
					return cell
				}
			}
			return v
		}
	}
	to := map[ssa.Value][]ssa.Value{}
	flow := func(a, b ssa.Value) { to[root(a)] = append(to[root(a)], root(b)) }
	var sinks []*ssa.Call
	var errs []*ssa.Store
	var copying []*ssa.Call
	ext := func(x *ssa.Call, i int) ssa.Value {
		for _, ref := range *x.Referrers() {
			if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
				return e
			}
		}
		return x
	}
	instrs(fns, func(g *ssa.Function, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if c.extPkgField(x.Addr, "os/exec", "Cmd", "Stderr") {
				errs = append(errs, x)
			}
		case *ssa.Call:
			switch eng.Key(x) {
			case "os.Pipe", "io.Pipe":
				a, b := 0, 1
				flow(ext(x, b), ext(x, a))
			case "io.TeeReader":
				flow(x.Call.Args[0], x.Call.Args[1])
				flow(x.Call.Args[0], x)
				copying = append(copying, x)
			case "io.MultiWriter":
				for _, v := range eng.VarArgs(x.Call.Args[0]) {
					flow(x, v)
				}
			case "io.Copy", "io.CopyBuffer":
				flow(x.Call.Args[1], x.Call.Args[0])
				copying = append(copying, x)
			case "strings.Builder.String", "bytes.Buffer.String", "bytes.Buffer.Bytes":
				sinks = append(sinks, x)
			case "os/exec.Cmd.StderrPipe":
				// not started by Run
			}
		}
	})
	if !r.Check(len(errs) > 0, "output collected", w.At(run), "what the build prints is not collected") {
		return
	}
	read := 0
	for _, s := range sinks {
		reached := map[ssa.Value]bool{}
		var visit func(v ssa.Value)
		visit = func(v ssa.Value) {
			if reached[v] {
				return
			}
			reached[v] = true
			for _, t := range to[v] {
				visit(t)
			}
		}
		for _, st := range errs {
			visit(root(st.Val))
		}
		if !reached[root(s.Call.Args[0])] {
			continue
		}
		read++
		// whoever copies at the same time has ended
		for _, cp := range copying {
			g := cp.Parent()
			if eng.Key(cp) == "io.TeeReader" || g == s.Parent() {
				continue
			}
			ended, _ := c.W.MustPrecede(s, func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.UnOp:
					return x.Op == token.ARROW
				case *ssa.Select:
					return x.Blocking
				case *ssa.Call:
					return keyIs(x, "sync.WaitGroup.Wait", "golang.org/x/sync/errgroup.Group.Wait")
				}
				return false
			}, nil)
			r.Check(ended, "output complete", w.At(s), "what the build printed is read although it may not be complete yet")
		}
	}
	r.Check(read > 0, "output read", w.At(run), "what the build prints is not what is read")
}

// returnedFrom: the value is, possibly among others, one satisfying pred, looking through the
// results of the module's functions.
func (c *Ctx) returnedFrom(v ssa.Value, pred func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	ret := func(call *ssa.Call, i int) bool {
		g := call.Call.StaticCallee()
		if g == nil || g.Pkg == nil || !c.W.InModule(g.Pkg.Pkg) {
			return false
		}
		for _, rt := range eng.Returns(g) {
			if i < len(rt.Results) && walk(rt.Results[i]) {
				return true
			}
		}
		return false
	}
	walk = func(v ssa.Value) bool {
		v = eng.ResolveLocal(v)
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if pred(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				return ret(call, x.Index)
			}
		case *ssa.Call:
			return ret(x, 0)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.UnOp:
			if cell := cellOf(c, x.X); cell != nil {
				for _, st := range cellStores(c, cell) {
					if walk(st.Val) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

// flagNames are the names of the flag whose Name field (or constant) v is.
func (c *Ctx) flagNames(v ssa.Value) []string {
	if l := c.W.ConstStrings(v); len(l) > 0 {
		return l
	}
	ld, ok := eng.ResolveLocal(v).(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	g, ok := fa.X.(*ssa.Global)
	if p, isLoad := fa.X.(*ssa.UnOp); isLoad && !ok {
		g, ok = p.X.(*ssa.Global)
	}
	if !ok {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	// the literals the variable is made of
	made := map[ssa.Value]bool{g: true}
	instrs([]*ssa.Function{init}, func(_ *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok || st.Addr != ssa.Value(g) {
			return
		}
		if u, ok := st.Val.(*ssa.UnOp); ok {
			made[u.X] = true
		} else {
			made[st.Val] = true
		}
	})
	var res []string
	instrs([]*ssa.Function{init}, func(_ *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if fb, ok := st.Addr.(*ssa.FieldAddr); ok && made[fb.X] && fb.Field == fa.Field {
			if t, ok := eng.ConstString(st.Val); ok {
				res = append(res, t)
			}
		}
	})
	return res
}

// sameArgs: the list is the command wanted, its flags in any order before the other arguments.
func sameArgs(got eng.AV, want string) bool {
	s := got.String()
	if !strings.HasPrefix(s, "[") || strings.Contains(s, "<") || strings.Contains(s, "?") || strings.Contains(s, "...") && !strings.Contains(s, `/..."`) {
		return false
	}
	var l []string
	for _, x := range strings.Fields(strings.Trim(s, "[]")) {
		l = append(l, strings.Trim(x, `"`))
	}
	ws := strings.Fields(want)
	if len(l) != len(ws) || len(l) == 0 || l[0] != ws[0] {
		return false
	}
	// the flags added come first
	split := func(l []string) (map[string]int, string) {
		flags := map[string]int{}
		i := 1
		for i < len(l) && (l[i] == "-work" || l[i] == "-a") {
			flags[l[i]]++
			i++
		}
		return flags, strings.Join(l[i:], " ")
	}
	fg, rg := split(l)
	fw, rw := split(ws)
	return rg == rw && fg["-work"] == fw["-work"] && fg["-a"] == fw["-a"]
}
