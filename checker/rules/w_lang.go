package rules

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "W09", Technique: "what-follows path analysis of the advice, value provenance of the language level through the weaver, and abstract interpretation of the comparisons", Run: runLang})
}

const advicePkg = "internal/injector/aspect/advice"

// runLang decides W09.
func runLang(c *Ctx) {
	rAdv := c.Rule("W09.advice", "advice that inserts a template's code demands the template's language level")
	rMax := c.Rule("W09.highest", "demanding a level never lowers the one demanded before")
	rFlow := c.Rule("W09.flow", "the level demanded in any file of the package is the one the compile command is given")
	rSet := c.Rule("W09.raise", "the compile command's level is only ever raised, and when one was given")
	rFlag := c.Rule("W09.flag", "setting a flag changes the value of this flag, in whichever form it was given")

	c.langAdvice(rAdv)
	c.langHighest(rMax)
	c.langFlow(rFlow)
	c.langRaised(rSet)
	c.argumentEdits(rFlag, "SetFlag")
}

// templateCompiled: the call turns a template into code; the template is returned.
func (c *Ctx) templateCompiled(ci ssa.CallInstruction) ssa.Value {
	k := eng.MKey(ci)
	if !strings.HasPrefix(k, advicePkg+"/code.Template.") || ci.Common().IsInvoke() || len(ci.Common().Args) == 0 {
		return nil
	}
	for _, p := range ci.Common().Args[1:] {
		if strings.HasSuffix(p.Type().String(), ".AdviceContext") {
			return ci.Common().Args[0]
		}
	}
	return nil
}

func (c *Ctx) langAdvice(r *R) {
	w := c.W
	langF := r.Field(advicePkg+"/code", "Template", "Lang")
	if langF == nil {
		return
	}
	demands := func(in ssa.Instruction) bool {
		ci, ok := in.(*ssa.Call)
		if !ok || !strings.HasSuffix(eng.MKey(ci), "Context.EnsureMinGoLang") {
			return false
		}
		a := ci.Call.Args[len(ci.Call.Args)-1]
		return isFieldVal(a, langF) || c.derivesField(a, langF)
	}
	n := 0
	for _, f := range w.FuncsIn(advicePkg) {
		cnt := 0
		for _, ci := range eng.Calls(f) {
			tmpl := c.templateCompiled(ci)
			if tmpl == nil {
				continue
			}
			n++
			cnt++
			name := fmt.Sprintf("%s#%d", short(f), cnt)
			ctx := ci.Common().Args[1]
			same := func(in ssa.Instruction) bool {
				if !demands(in) {
					return false
				}
				call := in.(*ssa.Call)
				lang, recv := call.Call.Args[len(call.Call.Args)-1], call.Call.Value
				if !call.Call.IsInvoke() {
					recv = call.Call.Args[0]
				}
				return call.Parent() != f || sameTemplate(lang, tmpl) && eng.ResolveLocal(recv) == eng.ResolveLocal(ctx)
			}
			unchanged := func(rt *ssa.Return) bool {
				if !w.MaySucceed(rt) {
					return false
				}
				if b, ok := eng.ConstBool(eng.ResolveLocal(rt.Results[0])); ok && !b {
					return false // nothing was inserted
				}
				return true
			}
			// in a loop, within the same turn
			ok := false
			if l := eng.InnermostLoop(ci.Block()); l != nil {
				ok = !turnWithout(ci, l, w.LiftEvent(same), w) && w.MustFollow(ci, w.LiftEvent(same), unchanged, w.ErrFailed(ci)) == nil
			} else {
				ok = w.MustFollow(ci, w.LiftEvent(same), unchanged, w.ErrFailed(ci)) == nil
			}
			if !ok && f.Signature.Results().Len() > 0 {
				// demanded beforehand, or by those calling a helper
				ok = w.PrecededIn(ci, w.LiftEvent(same))
				if !ok {
					ok = c.demandedByCallers(f, demands, unchanged, 0)
				}
			}
			r.Check(ok, name, w.At(ci), "the template's code may be inserted without demanding the template's language level")
		}
	}
	c.Count("templates compiled by advice", n)
	// the level demanded is recorded
	if f := r.Fn(ctxPkg, "context.EnsureMinGoLang"); f != nil {
		minF := w.Field(ctxPkg, "context", "minGoLang")
		rec := func(in ssa.Instruction) bool {
			call, ok := in.(*ssa.Call)
			return ok && eng.MKey(call) == ctxPkg+".GoLangVersion.SetAtLeast" &&
				isFieldVal(call.Call.Args[0], minF) && w.Carries(call.Call.Args[1], func(o ssa.Value) bool { return o == ssa.Value(f.Params[1]) })
		}
		r.Check(w.MustDo(f, rec, nil, nil) == nil, "recorded", w.Pos(f.Pos()), "the level demanded is not recorded")
	}
	r.Min(6)
}

// demandedByCallers: whoever calls the helper demands a level afterwards.
func (c *Ctx) demandedByCallers(f *ssa.Function, demands eng.Event, exit func(*ssa.Return) bool, d int) bool {
	if o := f.Object(); o == nil || o.Exported() || d > 3 {
		return false
	}
	sites := c.W.EntrySites(f)
	for _, s := range sites {
		ci, ok := s.(ssa.CallInstruction)
		if !ok || eng.InnermostLoop(s.Block()) != nil {
			return false
		}
		ex := exit
		if len(s.Parent().Signature.Results().String()) == 0 {
			ex = nil
		}
		if c.W.MustFollow(s, c.W.LiftEvent(demands), ex, c.W.ErrFailed(ci)) != nil && !c.demandedByCallers(s.Parent(), demands, exit, d+1) {
			return false
		}
	}
	return len(sites) > 0
}

// sameTemplate: the level is the template's.
func sameTemplate(lang, tmpl ssa.Value) bool {
	x := eng.ResolveLocal(lang)
	ld, ok := x.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	a, b := eng.ResolveLocal(fa.X), eng.ResolveLocal(tmpl)
	return a == b || eng.SameLoad(a, b)
}

// turnWithout: another turn of the loop may start after in without the event.
func turnWithout(in ssa.Instruction, l *eng.Loop, ev eng.Event, w *eng.World) bool {
	seen := map[*ssa.BasicBlock]bool{}
	failed := func(eng.Lit) bool { return false }
	if ci, ok := in.(ssa.CallInstruction); ok {
		if x := w.ErrFailed(ci); x != nil {
			failed = x
		}
	}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] != in && ev(b.Instrs[i]) {
				return false
			}
		}
		for _, s := range b.Succs {
			if lit, ok := eng.EdgeLit(b, s); ok && failed(lit) {
				continue
			}
			if s == l.Header {
				return true
			}
			if !seen[s] && l.Blocks[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return walk(in.Block(), i+1)
		}
	}
	return true
}

func (c *Ctx) langHighest(r *R) {
	w := c.W
	f := r.Fn(ctxPkg, "GoLangVersion.SetAtLeast")
	cmp := r.Fn(ctxPkg, "Compare")
	label := r.Field(ctxPkg, "GoLangVersion", "label")
	if f == nil || cmp == nil || label == nil {
		return
	}
	// the receiver and the other
	mine := func(v ssa.Value) bool {
		return c.derivesIn(f, v, func(o ssa.Value) bool { return o == ssa.Value(f.Params[0]) })
	}
	other := func(v ssa.Value) bool {
		return c.derivesIn(f, v, func(o ssa.Value) bool { return o == ssa.Value(f.Params[1]) })
	}
	for _, d := range []int64{-1, 0, 1} {
		ex := &eng.Exploration{W: w, Repeat: true}
		odd := ""
		ex.Inline = func(g *ssa.Function) bool { return eng.Rel(g) == ctxPkg && g != cmp }
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			call, ok := v.(*ssa.Call)
			if !ok || eng.MKey(call) != ctxPkg+".Compare" {
				return eng.AV{}, false
			}
			a, b := call.Call.Args[0], call.Call.Args[1]
			switch {
			case mine(a) && other(b) && !other(a) && !mine(b):
				return eng.AInt(d), true
			case mine(b) && other(a) && !other(b) && !mine(a):
				return eng.AInt(-d), true
			}
			odd = "what is compared could not be told"
			return eng.AV{}, false
		}
		ex.Event = func(in ssa.Instruction) string {
			st, ok := in.(*ssa.Store)
			if !ok {
				return ""
			}
			if al, isAl := st.Addr.(*ssa.Alloc); isAl && !al.Heap {
				return ""
			}
			if fa, isF := st.Addr.(*ssa.FieldAddr); isF {
				if al, isAl := fa.X.(*ssa.Alloc); isAl && !al.Heap {
					return ""
				}
			}
			if other(st.Val) && !mine(st.Val) && mine(st.Addr) {
				return "taken"
			}
			return "changed"
		}
		outs := ex.Run(f)
		ok := len(outs) > 0 && !ex.Exhausted && odd == ""
		for _, o := range outs {
			ok = ok && !o.Has("changed") && !o.Panics
			switch {
			case d < 0:
				ok = ok && o.Has("taken")
			case d > 0:
				ok = ok && !o.Has("taken")
			}
		}
		name := map[int64]string{-1: "a higher level", 0: "the same level", 1: "a lower level"}[d]
		r.Check(ok, name+" is demanded", w.Pos(f.Pos()), "the level kept is not the highest one demanded %s", odd)
	}
	// by order of language versions
	okCmp := len(eng.Returns(cmp)) > 0
	for _, rt := range eng.Returns(cmp) {
		call, ok := eng.ResolveLocal(rt.Results[0]).(*ssa.Call)
		if !ok || eng.Key(call) != "go/version.Compare" {
			okCmp = false
			continue
		}
		for i := 0; i < 2; i++ {
			i := i
			okCmp = okCmp && c.derivesIn(cmp, call.Call.Args[i], func(o ssa.Value) bool { return o == ssa.Value(cmp.Params[i]) }) &&
				!c.derivesIn(cmp, call.Call.Args[i], func(o ssa.Value) bool { return o == ssa.Value(cmp.Params[1-i]) })
		}
	}
	r.Check(okCmp, "order", w.Pos(cmp.Pos()), "levels are not compared as Go versions, the first one with the second one")
	r.Min(4)
}

func (c *Ctx) langFlow(r *R) {
	w := c.W
	// within a file
	minArg := r.Field(ctxPkg, "ContextArgs", "MinGoLang")
	goLang := r.Field(injPkg, "result", "GoLang")
	apply := r.Fn(injPkg, "Injector.applyAspects")
	if minArg == nil || goLang == nil || apply == nil {
		return
	}
	region := c.Region(apply)
	var cells []*ssa.Alloc
	for _, s := range fieldStores(region, minArg) {
		al := cellOf(c, eng.ResolveLocal(s.Val))
		if al == nil {
			al, _ = eng.ResolveLocal(s.Val).(*ssa.Alloc)
		}
		r.Check(al != nil, "file's level", w.At(s), "where the levels demanded in the file are kept could not be told")
		if al != nil {
			cells = append(cells, al)
		}
	}
	r.Check(len(cells) > 0, "file's level kept", w.Pos(apply.Pos()), "the levels demanded in the file are not kept")
	for _, cell := range cells {
		for _, f := range eng.WithAnon(cell.Parent()) {
			instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
				if st, ok := in.(*ssa.Store); ok && cellOf(c, st.Addr) == cell && f != cell.Parent() {
					r.Bad("file's level overwritten", w.At(st), "the level demanded before is forgotten")
				}
			})
		}
		if cell.Parent() != apply {
			r.Bad("file's level shared", w.Pos(cell.Pos()), "the level is not that of one traversal of the file: it starts anew in the middle of it")
		}
	}
	n := 0
	for _, s := range fieldStores(c.Region(apply), goLang) {
		n++
		ok := false
		if ld, is := eng.ResolveLocal(s.Val).(*ssa.UnOp); is && ld.Op == token.MUL {
			for _, cell := range cells {
				if cellOf(c, ld.X) == cell {
					ok = w.PrecededIn(ld, func(in ssa.Instruction) bool {
						ci, is := in.(ssa.CallInstruction)
						return is && eng.Key(ci) == "github.com/dave/dst/dstutil.Apply"
					})
				}
			}
		}
		r.Check(ok, "file's result", w.At(s), "the result does not have the level demanded in the whole of the file")
	}
	r.Check(n > 0, "file's result set", w.Pos(apply.Pos()), "the file's result does not have the level demanded")

	// within the package
	inject := r.Fn(injPkg, "Injector.InjectFiles")
	if inject == nil {
		return
	}
	resF := injPkg + ".result"
	n = 0
	for _, f := range c.Region(inject) {
		for _, ci := range eng.Calls(f) {
			if eng.MKey(ci) != ctxPkg+".GoLangVersion.SetAtLeast" {
				continue
			}
			arg := ci.Common().Args[1]
			if !c.derivesField(arg, goLang) {
				r.Bad("package's level from a file", w.At(ci), "the level merged is not that of a file's result")
				continue
			}
			n++
			// every file that succeeded and was modified
			cell := cellOf(c, ci.Common().Args[0])
			ok := false
			for _, cj := range eng.Calls(f) {
				call, is := cj.(*ssa.Call)
				if !is || call.Call.Signature().Results().Len() == 0 {
					continue
				}
				t := call.Call.Signature().Results().At(0).Type()
				if eng.TypeKey(t) != resF {
					continue
				}
				merges := func(in ssa.Instruction) bool { return in == ci }
				modF := w.Field(injPkg, "result", "Modified")
				skip := anyLit(w.ErrFailed(call), func(l eng.Lit) bool { return !l.Pol && isFieldVal(l.V, modF) })
				ok = w.MustFollow(call, merges, nil, skip) == nil
			}
			r.Check(ok, "every file merged", w.At(ci), "a file may be modified without its level being demanded for the package")
			r.Check(cell != nil, "package's level", w.At(ci), "where the package's level is kept could not be told")
			if cell == nil {
				continue
			}
			for _, st := range cellStores(c, cell) {
				if st.Parent() != cell.Parent() {
					r.Bad("package's level overwritten", w.At(st), "the level demanded by another file is forgotten")
				}
			}
			// returned, once all are done
			for _, rt := range eng.Returns(inject) {
				if !w.MaySucceed(rt) || !reachedFrom(rt, cell, c) {
					continue
				}
				ld, is := eng.ResolveLocal(rt.Results[1]).(*ssa.UnOp)
				okR := is && cellOf(c, ld.X) == cell && w.PrecededIn(ld, callTo("sync.WaitGroup.Wait", "golang.org/x/sync/errgroup.Group.Wait"))
				r.Check(okR, "package's result", w.At(rt), "the level returned is not the one demanded by all files")
			}
		}
	}
	r.Check(n > 0, "package's level merged", w.Pos(inject.Pos()), "the levels demanded in the files are not merged")

	// for the command
	n = 0
	for _, f := range w.FuncsIn("internal/toolexec/aspect") {
		for _, ci := range eng.Calls(f) {
			call, is := ci.(*ssa.Call)
			if !is || eng.MKey(ci) != injPkg+".Injector.InjectFiles" {
				continue
			}
			n++
			level := eng.ResultAt(call, 1)
			set := func(in ssa.Instruction) bool {
				x, ok := in.(*ssa.Call)
				return ok && eng.MKey(x) == "internal/toolexec/proxy.CompileCommand.SetLang" && level != nil && w.Carries(x.Call.Args[1], func(o ssa.Value) bool { return o == level })
			}
			r.Check(w.MustFollow(call, w.LiftEvent(set), w.MaySucceed, w.ErrFailed(call)) == nil, "command", w.At(ci), "the level demanded by the package's files is not set on the compile command")
		}
	}
	r.Check(n > 0, "weaving", "-", "the weaving of a package was not found")
	r.Min(9)
}

// reachedFrom: the return comes after the variable is declared.
func reachedFrom(rt *ssa.Return, cell *ssa.Alloc, c *Ctx) bool {
	if cell.Parent() != rt.Parent() {
		return true
	}
	return eng.CanReach(cell, rt)
}

func (c *Ctx) langRaised(r *R) {
	w := c.W
	f := r.Fn("internal/toolexec/proxy", "CompileCommand.SetLang")
	langF := r.Field("internal/toolexec/proxy", "compileFlagSet", "Lang")
	if f == nil || langF == nil {
		return
	}
	isTo := func(v ssa.Value) bool {
		return c.derivesIn(f, v, func(o ssa.Value) bool { return o == ssa.Value(f.Params[1]) })
	}
	isCur := func(v ssa.Value) bool {
		return c.derivesIn(f, v, func(o ssa.Value) bool { return isField(o, langF) })
	}
	for _, any := range []bool{true, false} {
		for _, given := range []bool{true, false} {
			for _, d := range []int64{-1, 0, 1} {
				for _, fails := range []bool{true, false} {
					if (any || !given) && (d != 0 || fails) {
						continue
					}
					odd := ""
					order := d
					if !given {
						order = -1 // nothing is lower than any level
					}
					ex := &eng.Exploration{W: w, Repeat: true, Defers: true}
					ex.Inline = func(g *ssa.Function) bool { return eng.Rel(g) == "internal/toolexec/proxy" && g.Name() != "SetFlag" }
					ex.Atom = func(v ssa.Value) (eng.AV, bool) {
						switch x := v.(type) {
						case *ssa.UnOp:
							if isField(v, langF) {
								if given {
									return sym("given"), true
								}
								return eng.AStr(""), true
							}
						case *ssa.BinOp:
							if x.Op != token.EQL && x.Op != token.NEQ {
								return eng.AV{}, false
							}
							a, b := x.X, x.Y
							if s, ok := eng.ConstString(a); ok && s == "" {
								a, b = b, a
							}
							if s, ok := eng.ConstString(b); ok && s == "" {
								switch {
								case isFieldVal(a, langF):
									return eng.ABool((x.Op == token.EQL) == !given), true
								case isTo(a) && !isCur(a):
									return eng.ABool((x.Op == token.EQL) == any), true
								}
							}
							if cc, ok := a.(*ssa.Call); ok {
								if bi, isB := cc.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" && isFieldVal(cc.Call.Args[0], langF) {
									return eng.ABool((x.Op == token.EQL) == !given), true
								}
							}
						case *ssa.Call:
							switch eng.MKey(x) {
							case ctxPkg + ".GoLangVersion.IsAny":
								return eng.ABool(any), true
							case ctxPkg + ".Compare":
								a, b := x.Call.Args[0], x.Call.Args[1]
								switch {
								case isCur(a) && isTo(b) && !isTo(a) && !isCur(b):
									return eng.AInt(order), true
								case isCur(b) && isTo(a) && !isTo(b) && !isCur(a):
									return eng.AInt(-order), true
								}
								odd = "what is compared could not be told"
							case "internal/toolexec/proxy.command.SetFlag":
								if fails {
									return sym("flag error"), true
								}
								return eng.ANilV(), true
							case ctxPkg + ".ParseGoLangVersion":
								return tuple(eng.AUnk(), eng.ANilV()), true
							case ctxPkg + ".GoLangVersion.String":
								return sym("to"), true
							}
						}
						return eng.AV{}, false
					}
					ex.Event = func(in ssa.Instruction) string {
						switch x := in.(type) {
						case *ssa.Call:
							if eng.MKey(x) == "internal/toolexec/proxy.command.SetFlag" {
								flag, _ := eng.ConstString(x.Call.Args[1])
								if (flag == "-lang" || flag == "lang") && isTo(x.Call.Args[2]) && !isCur(x.Call.Args[2]) {
									return "set"
								}
								return "other"
							}
						case *ssa.Store:
							if fa, ok := x.Addr.(*ssa.FieldAddr); ok && eng.FieldVarOf(fa) == langF {
								if isTo(x.Val) {
									return "recorded"
								}
								return "other"
							}
						}
						return ""
					}
					outs := ex.Run(f)
					ok := len(outs) > 0 && !ex.Exhausted && odd == ""
					raise := !any && given && d < 0
					for _, o := range outs {
						ok = ok && !o.Panics && !o.Has("other") && len(o.Rets) == 1
						if !ok {
							break
						}
						switch {
						case raise && fails:
							ok = o.Rets[0].K != eng.ANil && o.Has("set")
						case raise:
							ok = o.Rets[0].K == eng.ANil && o.Has("set") && !o.Has("set+")
						case d == 0 && !any && given:
							ok = o.Rets[0].K == eng.ANil || fails && o.Has("set")
						default:
							ok = o.Rets[0].K == eng.ANil && !o.Has("set") && !o.Has("recorded")
						}
					}
					name := fmt.Sprintf("level demanded %v, given %v, order %d, failing %v", !any, given, d, fails)
					r.Check(ok, name, w.Pos(f.Pos()), "the level must be raised to the one demanded exactly when one is given which is lower %s", odd)
				}
			}
		}
	}
	r.Min(8)
}

// derivesIn: v is computed in f (or in a helper, from its arguments) from something satisfying pred.
func (c *Ctx) derivesIn(f *ssa.Function, v ssa.Value, pred func(ssa.Value) bool) bool {
	return c.derivesUpTo(f, v, pred, nil)
}

// derivesUpTo is derivesIn not looking behind values satisfying stop.
func (c *Ctx) derivesUpTo(f *ssa.Function, v ssa.Value, pred, stop func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		v = eng.ResolveLocal(v)
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if pred(v) {
			return true
		}
		if stop != nil && stop(v) {
			return false
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			if x.Parent() == f {
				return false
			}
			for i, p := range x.Parent().Params {
				if p != x {
					continue
				}
				for _, ci := range c.W.Callers(x.Parent()) {
					if !ci.Common().IsInvoke() && i < len(ci.Common().Args) && walk(ci.Common().Args[i]) {
						return true
					}
				}
			}
			return false
		case *ssa.Alloc:
			for _, st := range cellStores(c, x) {
				if walk(st.Val) {
					return true
				}
			}
			for _, ref := range *x.Referrers() {
				var part ssa.Value
				switch y := ref.(type) {
				case *ssa.FieldAddr:
					part = y
				case *ssa.IndexAddr:
					part = y
				default:
					continue
				}
				for _, fr := range *part.Referrers() {
					if st, ok := fr.(*ssa.Store); ok && st.Addr == part && walk(st.Val) {
						return true
					}
				}
			}
			return false
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil && walk(*op) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}
