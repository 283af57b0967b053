package rules

import (
	"go/token"
	"go/types"
	"maps"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "W06", Technique: "error-class analysis of type checking, abstract evaluation of what is done with each class, and completeness and provenance of what is type-checked", Run: runFailures})
}

// newerGo is what go/types says when it is older than the language version asked for.
const newerGo = "package requires newer Go version"

// runFailures decides W06.
func runFailures(c *Ctx) {
	rClass := c.Rule("W06.class", "an error of the type checker is reported as one to be left to the compiler, unless it says that orchestrion itself is too old")
	rSkip := c.Rule("W06.skip", "a package which does not type-check is skipped: no file is woven or written, and no change is reported; every other failure is reported before anything is woven")
	rView := c.Rule("W06.view", "type checking sees all files of the package, the language version and the imports of the compile command, and the information it gathers is what is used")
	rCmd := c.Rule("W06.command", "the compile command is only changed once all files of the package have been woven")
	checks := map[*ssa.Function]*ssa.Call{}
	for _, f := range c.shipped() {
		for _, ci := range eng.Calls(f) {
			if k := eng.Key(ci); k == "go/types.Checker.Files" || k == "go/types.Config.Check" {
				if call, ok := ci.(*ssa.Call); ok {
					checks[f] = call
				}
			}
		}
	}
	inj := rSkip.Fn(injPkg, "Injector.InjectFiles")
	if inj == nil {
		return
	}
	left := c.leftToCompiler(rSkip, inj)
	for f, call := range checks {
		c.typeErrors(rClass, f, call, left)
		c.checkedFiles(rView, f, call)
	}
	rClass.Min(1)
	rView.Min(5)
	c.typeInfo(rView, checks)
	c.skips(rSkip, inj, checks)
	c.missingParsed(rView)
	c.commandAfter(rCmd, inj)
}

// leftToCompiler is the type of the errors for which InjectFiles leaves the package alone.
func (c *Ctx) leftToCompiler(r *R, inj *ssa.Function) types.Type {
	var t types.Type
	for _, f := range c.Region(inj) {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) != "errors.Is" && eng.Key(ci) != "errors.As" {
				continue
			}
			v := eng.Unwrap(eng.ArgOf(ci, 1))
			vt := eng.Deref(v.Type())
			if n := eng.NamedOf(vt); n != nil && n.Obj().Pkg() != nil && c.W.InModule(n.Obj().Pkg()) {
				t = n
			}
		}
	}
	r.Check(t != nil, "errors left to the compiler", c.W.Pos(inj.Pos()), "no class of errors is recognised as being left to the compiler")
	if n := eng.NamedOf(t); n != nil {
		if is := methodOf(c.W, n, "Is"); is != nil {
			// Is must accept the type itself, and nothing else
			for _, same := range []bool{true, false} {
				ex := &eng.Exploration{W: c.W, Atom: func(v ssa.Value) (eng.AV, bool) {
					switch x := v.(type) {
					case *ssa.TypeAssert:
						if x.CommaOk {
							return tuple(eng.AUnk(), eng.ABool(same == (eng.NamedOf(x.AssertedType) == n))), true
						}
					case *ssa.BinOp:
						// comparing with a value of the type
						if (x.Op == token.EQL || x.Op == token.NEQ) && types.IsInterface(x.X.Type()) && !isNil(x.X) && !isNil(x.Y) {
							return eng.ABool(same == (x.Op == token.EQL)), true
						}
					}
					return eng.AV{}, false
				}}
				good := true
				for _, o := range ex.Run(is) {
					if !o.Panics && !(same && o.Rets[0].IsTrue() || !same && o.Rets[0].IsFalse()) {
						good = false
					}
				}
				name := "recognises its own type"
				if !same {
					name = "recognises no other type"
				}
				r.Check(good && !ex.Exhausted, n.Obj().Name()+".Is "+name, c.W.Pos(is.Pos()), "the class of errors left to the compiler is misjudged")
			}
		}
	}
	return t
}

// typeErrors: what the errors of the type checker become.
func (c *Ctx) typeErrors(r *R, f *ssa.Function, call *ssa.Call, left types.Type) {
	w := c.W
	e := eng.ResultAt(call, eng.ErrIndex(call.Call.Signature()))
	if e == nil {
		r.Bad("type errors", w.At(call), "the errors of the type checker are ignored")
		return
	}
	tooOld := func(l eng.Lit) bool {
		x, ok := l.V.(*ssa.Call)
		if !ok || eng.Key(x) != "strings.Contains" {
			return false
		}
		s, isC := eng.ConstString(x.Call.Args[1])
		return isC && s == newerGo && c.derives(x.Call.Args[0], func(o ssa.Value) bool { return o == e })
	}
	failed := w.ErrFailed(call)
	n := 0
	// judge looks at the error v a function returns at ret
	var judge func(ret *ssa.Return, v ssa.Value, d int)
	judge = func(ret *ssa.Return, v ssa.Value, d int) {
		if w.MustHoldLocal(ret, func(l eng.Lit) bool { return failed(eng.Lit{V: l.V, Pol: !l.Pol}) }) {
			return // success
		}
		v = eng.ResolveLocal(v)
		if x := callOf(v); x != nil && d < 4 && len(w.Callees(x)) > 0 {
			for _, g := range w.Callees(x) {
				for _, gr := range eng.Returns(g) {
					if i := eng.ErrIndex(g.Signature); i >= 0 {
						judge(gr, gr.Results[i], d+1)
					}
				}
			}
			return
		}
		n++
		old := w.MustHold(ret, func(l eng.Lit) bool { return l.Pol && tooOld(l) })
		young := w.MustHold(ret, func(l eng.Lit) bool { return !l.Pol && tooOld(l) })
		t := concrete(v)
		switch {
		case t != nil && eng.NamedOf(t) != nil && eng.NamedOf(t) == eng.NamedOf(left):
			r.Check(young, "errors of the program", w.At(ret), "an error saying that orchestrion is too old is left to the compiler, which does not have it")
		case w.MaySucceed(ret):
			r.Bad("errors of the program", w.At(ret), "a package that does not type-check is woven")
		default:
			r.Check(old, "errors of orchestrion", w.At(ret), "an error the compiler reports better fails the build here")
		}
	}
	for _, ret := range eng.Returns(f) {
		if eng.CanReach(call, ret) {
			judge(ret, eng.RetErr(ret), 0)
		}
	}
	r.Check(n > 0, "type errors", w.At(call), "the errors of the type checker are not reported")
}

// concrete is the type of the value stored in an interface.
func concrete(v ssa.Value) types.Type {
	v = eng.ResolveLocal(v)
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return x.X.Type()
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		return nil
	}
}

// checkedFiles: what the type checker is given.
func (c *Ctx) checkedFiles(r *R, f *ssa.Function, call *ssa.Call) {
	w := c.W
	astFile := r.Field(parsePkg, "File", "AstFile")
	if astFile == nil {
		return
	}
	var files ssa.Value
	for _, a := range call.Call.Args {
		if sl, ok := a.Type().Underlying().(*types.Slice); ok && strings.HasSuffix(types.TypeString(sl.Elem(), nil), "go/ast.File") {
			files = a
		}
	}
	if files == nil {
		r.Bad("checked files", w.At(call), "cannot tell which files are type-checked")
		return
	}
	// every parsed file's tree goes into the list
	good := false
	for _, g := range c.Region(f) {
		for _, l := range eng.Loops(g) {
			if l.Over == nil {
				continue
			}
			sl, ok := l.Over.Type().Underlying().(*types.Slice)
			if !ok || eng.TypeKey(sl.Elem()) != parsePkg+".File" {
				continue
			}
			ev := func(in ssa.Instruction) bool {
				switch x := in.(type) {
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						return l.IsKey(ia.Index) && isElemField(l, x.Val, astFile)
					}
				case *ssa.Call:
					if builtinCall(x, "append") != nil {
						for _, v := range eng.VarArgs(x.Call.Args[1]) {
							if isElemField(l, v, astFile) {
								return true
							}
						}
					}
				}
				return false
			}
			if c.complete(l) && l.Always(ev, nil) && c.allParsed(l.Over, f) {
				good = true
			}
		}
	}
	r.Check(good, "all files are checked", w.At(call), "some files of the package are left out of type checking")

	// the configuration of the checker
	cfg := map[string]func(v ssa.Value) bool{
		"GoVersion": func(v ssa.Value) bool {
			return c.derivesField(v, c.W.Field(injPkg, "Injector", "GoVersion"))
		},
		"Importer": func(v ssa.Value) bool {
			return c.derives(v, func(o ssa.Value) bool {
				x, ok := o.(*ssa.Call)
				return ok && eng.Key(x) == "go/importer.ForCompiler" && c.derivesField(x.Call.Args[2], c.W.Field(injPkg, "Injector", "Lookup")) && c.isFset(x.Call.Args[0])
			})
		},
	}
	for _, name := range []string{"GoVersion", "Importer"} {
		n := 0
		ok := false
		instrs(c.Region(f), func(_ *ssa.Function, in ssa.Instruction) {
			if s, isS := in.(*ssa.Store); isS && extFieldAddr(s.Addr, "go/types.Config."+name) {
				n++
				ok = cfg[name](s.Val) && eng.CanReach(s, call) || ok && false
			}
		})
		r.Check(n == 1 && ok, "checker's "+name, w.At(call), "the type checker does not use the %s of the compile command", name)
	}
	// settings that would hide errors
	instrs(c.Region(f), func(_ *ssa.Function, in ssa.Instruction) {
		if s, isS := in.(*ssa.Store); isS {
			for _, name := range []string{"IgnoreFuncBodies", "FakeImportC", "Error", "DisableUnusedImportCheck"} {
				if extFieldAddr(s.Addr, "go/types.Config."+name) {
					if b, isB := eng.ConstBool(s.Val); !(isB && !b) && !isNil(s.Val) {
						r.Bad("checker's "+name, w.At(s), "the type checker is told to overlook part of the program")
					}
				}
			}
		}
	})
	// the injector gets them from the command
	want := map[string]func(ssa.Value) bool{
		"GoVersion": func(v ssa.Value) bool {
			n := 0
			return c.derives(v, func(o ssa.Value) bool {
				if fv := eng.FieldVar(o); fv != nil && fv.Name() == "Lang" && strings.HasPrefix(eng.TypeKeyOfField(fv), "internal/toolexec/proxy.") {
					n++
				}
				return n > 0
			})
		},
		"Lookup": func(v ssa.Value) bool {
			fns := c.funcsOf(v)
			for _, g := range fns {
				if eng.FKey(g) == "internal/toolexec/importcfg.ImportConfig.Lookup" || c.Region(g) != nil && c.callsTo(g, "internal/toolexec/importcfg.ImportConfig.Lookup") {
					continue
				}
				return false
			}
			return len(fns) > 0
		},
	}
	for _, name := range []string{"GoVersion", "Lookup"} {
		fv := r.Field(injPkg, "Injector", name)
		if fv == nil {
			continue
		}
		n := 0
		for _, s := range w.FieldStores(fv) {
			if s.Instr.Parent() != nil && eng.PkgOf(s.Instr.Parent()) != "internal/injector" {
				n++
				r.Check(want[name](s.Val), "injector's "+name, w.At(s.Instr), "weaving is not given the %s of the compile command", name)
			}
		}
		r.Check(n > 0, "injector's "+name+" is set", "-", "weaving is not given the %s of the compile command", name)
	}
}

func (c *Ctx) callsTo(f *ssa.Function, key string) bool {
	for _, g := range append([]*ssa.Function{f}, eng.WithAnon(f)...) {
		for _, ci := range eng.Calls(g) {
			if eng.MKey(ci) == key {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) isFset(v ssa.Value) bool {
	return strings.HasSuffix(v.Type().String(), "go/token.FileSet")
}

// isElemField: v is the field of the loop's element.
func isElemField(l *eng.Loop, v ssa.Value, fv *types.Var) bool {
	v = eng.ResolveLocal(eng.Unwrap(v))
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && eng.FieldVar(fa) == fv {
			if l.IsElem(fa.X) {
				return true
			}
			if ia, ok := fa.X.(*ssa.IndexAddr); ok && l.IsKey(ia.Index) {
				return eng.SameLoad(ia.X, l.Over) || ia.X == l.Over
			}
			if al, ok := fa.X.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(al) && l.IsElem(s.Val) {
						return true
					}
				}
			}
		}
	case *ssa.Field:
		return eng.FieldVar(x) == fv && l.IsElem(x.X)
	}
	return false
}

// allParsed: the list is the one the parser returned, whole.
func (c *Ctx) allParsed(v ssa.Value, f *ssa.Function) bool {
	return c.bound(v, func(x ssa.Value) bool { return c.fromCall(x, parsePkg+".Parser.ParseFiles") })
}

// typeInfo: the information read anywhere is gathered.
func (c *Ctx) typeInfo(r *R, checks map[*ssa.Function]*ssa.Call) {
	w := c.W
	made := map[string]bool{}
	for f := range checks {
		instrs(c.Region(f), func(_ *ssa.Function, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && eng.TypeKey(eng.Deref(fa.X.Type())) == "go/types.Info" {
				if _, isMake := eng.Unwrap(s.Val).(*ssa.MakeMap); isMake {
					made[eng.FieldVar(fa).Name()] = true
				}
			}
		})
	}
	read := map[string]ssa.Instruction{}
	for _, f := range c.shipped() {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if eng.TypeKey(eng.Deref(x.X.Type())) == "go/types.Info" {
					for _, u := range *x.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
							read[eng.FieldVar(x).Name()] = x
						}
					}
				}
			case *ssa.Field:
				if eng.TypeKey(x.X.Type()) == "go/types.Info" {
					read[eng.FieldVar(x).Name()] = x
				}
			case ssa.CallInstruction:
				// methods of Info and what they read
				for m, fs := range map[string][]string{"TypeOf": {"Types", "Uses", "Defs"}, "ObjectOf": {"Uses", "Defs"}, "PkgNameOf": {"Implicits", "Defs"}} {
					if eng.Key(x) == "go/types.Info."+m {
						for _, n := range fs[:1] {
							read[n] = in
						}
					}
				}
			}
		})
	}
	names := map[string]bool{}
	for n := range read {
		names[n] = true
	}
	for _, n := range slices.Sorted(maps.Keys(names)) {
		r.Check(made[n], "type information: "+n, w.At(read[n]), "%s is read, but type checking does not gather it", n)
	}
	r.Check(len(read) >= 2, "type information is used", "-", "no use of type information found")
	// what is returned is what the checker filled in
	for f, call := range checks {
		var info ssa.Value
		for _, g := range c.Region(f) {
			for _, ci := range eng.Calls(g) {
				switch eng.Key(ci) {
				case "go/types.NewChecker":
					info = eng.ArgOf(ci, 3)
				case "go/types.Config.Check":
					info = eng.ArgOf(ci, 4)
				}
			}
		}
		failed := w.ErrFailed(call)
		n := 0
		for _, ret := range eng.Returns(f) {
			if !w.MustHoldLocal(ret, func(l eng.Lit) bool { return failed(eng.Lit{V: l.V, Pol: !l.Pol}) }) {
				continue
			}
			for i, v := range ret.Results {
				if eng.TypeKey(eng.Deref(v.Type())) != "go/types.Info" {
					continue
				}
				_ = i
				n++
				same := c.derives(v, func(o ssa.Value) bool { return o == info })
				r.Check(info != nil && same, "type information returned", w.At(ret), "what is returned is not what the type checker found")
			}
		}
		r.Check(n > 0, "type information result", w.At(call), "type checking returns no information")
	}
}

// skips: what InjectFiles does with each failure.
func (c *Ctx) skips(r *R, inj *ssa.Function, checks map[*ssa.Function]*ssa.Call) {
	w := c.W
	reachesCheck := func(ci ssa.CallInstruction) bool {
		for _, g := range w.Callees(ci) {
			if checks[g] != nil {
				return true
			}
			for f := range checks {
				if reaches(w, g, f) && eng.PkgOf(g) == eng.PkgOf(inj) {
					return true
				}
			}
		}
		return false
	}
	applies := c.applySites()
	app, _, _, _ := c.traversal(r)
	weaves := func(in ssa.Instruction) bool {
		if _, ok := in.(*ssa.Go); ok {
			return true
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, g := range w.Callees(ci) {
			if g == app || applies[g] {
				return true
			}
		}
		k := eng.Key(ci)
		return k == "os.WriteFile" || k == "os.MkdirAll" || k == "os.Create" || strings.HasSuffix(k, "errgroup.Group.Go") && eng.PkgOf(in.Parent()) == eng.PkgOf(inj)
	}
	cases := []struct {
		name      string
		parseFail bool
		nothing   bool
		checkFail bool
		left      bool
		wantErr   bool
	}{
		{"failure to parse", true, false, false, false, true},
		{"no applicable aspects", false, true, false, false, false},
		{"type error", false, false, true, true, false},
		{"other failure to check", false, false, true, false, true},
	}
	mapIdx := -1
	for i := 0; i < inj.Signature.Results().Len(); i++ {
		if _, ok := inj.Signature.Results().At(i).Type().Underlying().(*types.Map); ok {
			mapIdx = i
		}
	}
	errIdx := eng.ErrIndex(inj.Signature)
	if mapIdx < 0 || errIdx < 0 {
		r.Bad("results", w.Pos(inj.Pos()), "cannot tell the results of weaving")
		return
	}
	for _, k := range cases {
		reached := false
		ex := &eng.Exploration{W: w,
			Atom: func(v ssa.Value) (eng.AV, bool) {
				call, ok := v.(*ssa.Call)
				if !ok {
					return eng.AV{}, false
				}
				switch {
				case eng.MKey(call) == parsePkg+".Parser.ParseFiles":
					if !k.checkFail {
						reached = true
					}
					if k.parseFail {
						return tuple(eng.ANilV(), eng.ANonNilV()), true
					}
					if k.nothing {
						return tuple(eng.ANilV(), eng.ANilV()), true
					}
					return tuple(eng.ANonNilV(), eng.ANilV()), true
				case builtinCall(call, "len") != nil:
					if sl, ok := call.Call.Args[0].Type().Underlying().(*types.Slice); ok && eng.TypeKey(sl.Elem()) == parsePkg+".File" {
						if k.nothing {
							return eng.AInt(0), true
						}
						return eng.AInt(3), true
					}
				case eng.Key(call) == "errors.Is" || eng.Key(call) == "errors.As":
					if k.checkFail {
						return eng.ABool(k.left), true
					}
				case eng.MKey(call) == injPkg+".Injector.validate":
					return eng.ANilV(), true
				case reachesCheck(call):
					reached = true
					if k.checkFail {
						return tuple(eng.AUnk(), eng.ANonNilV()), true
					}
					return tuple(eng.AUnk(), eng.ANilV()), true
				}
				return eng.AV{}, false
			},
			Event: func(in ssa.Instruction) string {
				if weaves(in) {
					return "weave"
				}
				return ""
			},
			Inline: func(g *ssa.Function) bool {
				return eng.PkgOf(g) == eng.PkgOf(inj) && g != app
			},
		}
		bad := ""
		n := 0
		for _, o := range ex.Run(inj) {
			if o.Panics {
				continue
			}
			n++
			switch {
			case o.Has("weave"):
				bad = "files are woven all the same"
			case k.wantErr && o.Rets[errIdx].K != eng.ANonNil:
				bad = "it may go unreported"
			case !k.wantErr && o.Rets[errIdx].K != eng.ANil:
				bad = "it fails the build here"
			case !k.wantErr && o.Rets[mapIdx].K != eng.ANil:
				bad = "changes are reported"
			}
		}
		r.Check(bad == "" && n > 0 && reached && !ex.Exhausted, k.name, w.Pos(inj.Pos()), "on a %s, %s", k.name, orElse(bad, "the outcome is unclear"))
	}
}

func orElse(s, d string) string {
	if s != "" {
		return s
	}
	return d
}

// missingParsed: the files skipped at first are all parsed.
func (c *Ctx) missingParsed(r *R) {
	w := c.W
	pf := r.Fn(parsePkg, "Parser.ParseFiles")
	parsed := r.Field(parsePkg, "Parser", "parsedFiles")
	raw := r.Field(parsePkg, "Parser", "rawFiles")
	astFile := r.Field(parsePkg, "File", "AstFile")
	if pf == nil || parsed == nil || raw == nil || astFile == nil {
		return
	}
	n := 0
	for _, f := range c.Region(pf) {
		for _, l := range eng.Loops(f) {
			if l.Over == nil || !isFieldVal(l.Over, parsed) {
				continue
			}
			n++
			skip := func(lit eng.Lit) bool {
				return nilLit(lit, func(v ssa.Value) bool { return isFieldVal(v, astFile) }) == "nonnil"
			}
			parses := func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				return ok && eng.MKey(ci) != "" && (eng.Key(ci) == "golang.org/x/sync/errgroup.Group.Go" || returnsFile(ci))
			}
			r.Check(c.complete(l) && l.Always(parses, skip), "files left unparsed", w.Pos(f.Pos()), "not every file left unparsed at first is parsed for type checking")
		}
	}
	r.Check(n > 0, "files left unparsed are looked for", w.Pos(pf.Pos()), "the files left unparsed at first are not parsed for type checking")
	// a parsed file is stored under its own index, parsed from its own content, under its own name
	for _, f := range c.Region(pf) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !isFieldVal(ia.X, parsed) {
				return
			}
			// the content indexed alike
			same := true
			c.W.Origins(st.Val, func(o ssa.Value) eng.Step {
				if ld, ok := o.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if rb, ok := ld.X.(*ssa.IndexAddr); ok && isFieldVal(rb.X, raw) && rb.Parent() == ia.Parent() {
						if eng.ResolveLocal(rb.Index) != eng.ResolveLocal(ia.Index) && !eng.SameLoad(rb.Index, ia.Index) {
							same = false
						}
					}
				}
				if _, isCall := o.(*ssa.Call); isCall {
					for _, a := range o.(*ssa.Call).Call.Args {
						if ld, ok := a.(*ssa.UnOp); ok && ld.Op == token.MUL {
							if rb, ok := ld.X.(*ssa.IndexAddr); ok && isFieldVal(rb.X, raw) {
								if eng.ResolveLocal(rb.Index) != eng.ResolveLocal(ia.Index) && !eng.SameLoad(rb.Index, ia.Index) {
									same = false
								}
							}
						}
					}
				}
				return eng.Follow
			})
			r.Check(same, "own content in "+short(eng.Root(f)), w.At(st), "a file is parsed from another file's content")
		})
	}
	// the tree is the one of the whole content, with comments
	for _, f := range c.Region(pf) {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) != "go/parser.ParseFile" {
				continue
			}
			mode, ok := eng.ConstInt(eng.ArgOf(ci, 3))
			tree := c.fileTree(ci, astFile)
			if !tree {
				continue
			}
			// ParseComments = 4; PackageClauseOnly = 1, ImportsOnly = 2, AllErrors = 32, SkipObjectResolution = 64
			r.Check(ok && mode&4 != 0 && mode&3 == 0, "whole files are parsed", w.At(ci), "files are parsed in part, or without their comments")
		}
	}
}

func returnsFile(ci ssa.CallInstruction) bool {
	g := ci.Common().StaticCallee()
	return g != nil && returnsType(g, parsePkg+".File")
}

// fileTree: the parsed tree is kept as a File's.
func (c *Ctx) fileTree(ci ssa.CallInstruction, astFile *types.Var) bool {
	call, ok := ci.(*ssa.Call)
	if !ok {
		return false
	}
	for _, s := range c.W.FieldStores(astFile) {
		if c.derives(s.Val, func(o ssa.Value) bool {
			if o == ssa.Value(call) {
				return true
			}
			ex, ok := o.(*ssa.Extract)
			return ok && ex.Tuple == ssa.Value(call)
		}) {
			return true
		}
	}
	return false
}

// commandAfter: the compile command changes only after weaving succeeded.
func (c *Ctx) commandAfter(r *R, inj *ssa.Function) {
	w := c.W
	n := 0
	for _, f := range c.shipped() {
		for _, ci := range eng.Calls(f) {
			if !keyIs(ci, "internal/toolexec/proxy.command.ReplaceParam", "internal/toolexec/proxy.CompileCommand.ReplaceParam", "internal/toolexec/proxy.CompileCommand.SetLang") {
				continue
			}
			if !strings.HasPrefix(eng.PkgOf(f), "internal/toolexec/aspect") && !strings.HasSuffix(eng.PkgOf(f), "internal/toolexec/aspect") {
				continue
			}
			if eng.Root(f).Name() != "OnCompile" && !c.calledFrom(f, "OnCompile") {
				continue
			}
			n++
			ok, _ := w.MustPrecede(ci, func(in ssa.Instruction) bool {
				x, ok := in.(ssa.CallInstruction)
				return ok && eng.MKey(x) == eng.FKey(inj)
			}, nil)
			held := w.MustHold(ci, func(l eng.Lit) bool {
				return nilLit(l, func(v ssa.Value) bool { return c.fromCall(v, eng.FKey(inj)) && eng.IsErrorType(v.Type()) }) == "nil"
			})
			r.Check(ok && held, calleeName(ci), w.At(ci), "the compile command is changed although weaving may have failed")
		}
	}
	r.Check(n >= 2, "changes of the compile command", "-", "the compile command is not changed by weaving")
}

func (c *Ctx) calledFrom(f *ssa.Function, name string) bool {
	for g := range c.W.CallersClosure(f) {
		if g.Name() == name {
			return true
		}
	}
	return false
}
