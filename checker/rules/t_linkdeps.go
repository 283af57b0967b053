package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

const (
	aspectPkg   = "internal/toolexec/aspect"
	linkdepsPkg = "internal/toolexec/aspect/linkdeps"
)

func init() {
	register(&Prop{ID: "T04", Technique: "abstract evaluation of the link dependency format and table, loop-completeness and worklist-closure analysis of recording, propagation and resolution", Run: linkDependencies})
	register(&Prop{ID: "T05", Technique: "abstract evaluation of archive merging over all provenance combinations, must-precede of rejection before merging, format analysis of test-main metadata", Run: testVariants})
}

// bound: v satisfies pred, or is a parameter only ever given values which do.
func (c *Ctx) bound(v ssa.Value, pred func(ssa.Value) bool) bool { return c.boundTo(v, pred, 0) }

func (c *Ctx) boundTo(v ssa.Value, pred func(ssa.Value) bool, d int) bool {
	if v == nil || d > 4 {
		return false
	}
	if pred(v) || pred(eng.ResolveLocal(v)) {
		return true
	}
	switch x := eng.ResolveLocal(v).(type) {
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			cs := c.W.Callers(x.Parent())
			for _, ci := range cs {
				if a := eng.ArgOf(ci, i); a == nil || !c.boundTo(a, pred, d+1) {
					return false
				}
			}
			return len(cs) > 0
		}
	case *ssa.UnOp:
		// captured or address-taken variables assigned once
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FreeVar:
			for i, fv := range a.Parent().FreeVars {
				if fv != a {
					continue
				}
				sites := c.W.ClosureSites(a.Parent())
				for _, mc := range sites {
					al, ok := mc.Bindings[i].(*ssa.Alloc)
					if !ok || !c.allocBound(al, pred, d) {
						return false
					}
				}
				return len(sites) > 0
			}
		case *ssa.Alloc:
			return c.allocBound(a, pred, d)
		}
	case *ssa.MakeInterface:
		return c.boundTo(x.X, pred, d)
	}
	return false
}

func (c *Ctx) allocBound(al *ssa.Alloc, pred func(ssa.Value) bool, d int) bool {
	n := 0
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			n++
			if !c.boundTo(s.Val, pred, d+1) {
				return false
			}
		}
	}
	return n > 0
}

// hasEntry interprets a literal about the presence of a key in a map: "found", "missing" or "".
func (c *Ctx) hasEntry(l eng.Lit, isMap, isKey func(ssa.Value) bool) string {
	lookup := func(v ssa.Value, idx int) bool {
		e, isE := v.(*ssa.Extract)
		if isE {
			if e.Index != idx {
				return false
			}
			v = e.Tuple
		} else if idx == 1 {
			return false
		}
		lk, ok := v.(*ssa.Lookup)
		return ok && (idx == 0 || lk.CommaOk) && isMap(lk.X) && isKey(lk.Index)
	}
	if lookup(eng.ResolveLocal(l.V), 1) {
		return map[bool]string{true: "found", false: "missing"}[l.Pol]
	}
	if v := eng.ResolveLocal(l.V); lookup(v, 0) {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return map[bool]string{true: "found", false: "missing"}[l.Pol]
		}
	}
	switch emptyLit(l, func(v ssa.Value) bool { return lookup(eng.ResolveLocal(v), 0) }) {
	case "empty":
		return "missing"
	case "nonempty":
		return "found"
	}
	return ""
}

func orLit(preds ...func(eng.Lit) bool) func(eng.Lit) bool {
	return func(l eng.Lit) bool {
		for _, p := range preds {
			if p != nil && p(l) {
				return true
			}
		}
		return false
	}
}

// each records that every iteration of the loop performs the event (in it, or in helpers), unless skipped;
// loops over collections must go through all of them (that of work lists is decided by worklist).
func (c *Ctx) each(r *R, l *eng.Loop, name string, ev eng.Event, skip func(eng.Lit) bool, format string, args ...any) {
	w := c.W
	pos := w.Pos(l.Fn.Pos())
	for _, in := range l.Header.Instrs {
		if in.Pos().IsValid() {
			pos = w.Pos(in.Pos())
		}
	}
	r.Check(l.Always(w.LiftExit(ev, w.MaySucceed, skip), skip) && (l.Over == nil || c.complete(l)), name, pos, format, args...)
}

// complete: the loop is only left before its end by failing.
func (c *Ctx) complete(l *eng.Loop) bool {
	x := c.W.EarlyExit(l, nil)
	return x == nil
}

func (c *Ctx) pkgFileField(r *R) *types.Var {
	return r.Field(importcfgPkg, "ImportConfig", "PackageFile")
}

func linkDependencies(c *Ctx) {
	rFmt := c.Rule("format", "link dependencies read back from an archive are those that were written, with their kinds; older data is read conservatively")
	rTab := c.Rule("table", "a dependency is never forgotten or weakened once recorded")
	rArch := c.Rule("archived", "the link dependencies of a package are attached to its archive before it is published or used")
	rRec := c.Rule("recorded", "every package injected code needs is recorded, and made available to the compiler when it is imported")
	rMain := c.Rule("main-imports", "a main package imports the whole closure of its link dependencies")
	rLink := c.Rule("linked", "the linker is given an archive for the whole closure of link dependencies")
	deps := rTab.Field(linkdepsPkg, "LinkDeps", "deps")
	if deps == nil {
		return
	}
	c.depsTable(rTab, deps)
	c.depsFormat(rFmt, deps)
	c.depsArchived(rArch)
	c.depsRecorded(rRec)
	c.depsMain(rMain)
	c.depsLinked(rLink)
}

func (c *Ctx) depsTable(r *R, deps *types.Var) {
	w := c.W
	if f := r.Fn(linkdepsPkg, "LinkDeps.Add"); f != nil {
		for _, t := range []struct {
			name      string
			found     bool
			cur, kind int64
			set       bool
		}{{"new relocation", false, 0, 0, true}, {"new import", false, 0, 1, true}, {"strengthened", true, 0, 1, true}, {"not weakened", true, 1, 0, false}, {"same import", true, 1, 1, false}, {"same relocation", true, 0, 0, false}} {
			same := t.found && t.cur == t.kind
			got := map[string]bool{}
			ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
				if l, ok := v.(*ssa.Lookup); ok && isFieldVal(l.X, deps) {
					if l.CommaOk {
						return tuple(eng.AInt(t.cur), eng.ABool(t.found)), true
					}
					return eng.AInt(t.cur), true
				}
				return eng.AV{}, false
			}, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				if mu, ok := in.(*ssa.MapUpdate); ok && (isFieldVal(mu.Map, deps) || mapStoredIn(mu.Map, deps)) {
					got[eval(mu.Key).String()+"="+eval(mu.Value).String()] = true
				}
				return false
			}, Event: func(in ssa.Instruction) string {
				if mu, ok := in.(*ssa.MapUpdate); ok && (isFieldVal(mu.Map, deps) || mapStoredIn(mu.Map, deps)) {
					return "set"
				}
				return ""
			}}
			want := eng.AStr("p").String() + "=" + eng.AInt(t.kind).String()
			outs := ex.Run(f, eng.ANonNilV(), eng.AStr("p"), eng.AInt(t.kind))
			good := len(outs) > 0
			for _, o := range outs {
				good = good && !o.Panics && (same || o.Has("set") == t.set)
			}
			for g := range got {
				good = good && g == want
			}
			r.Check(good, "added: "+t.name, w.Pos(f.Pos()), "recording a dependency loses it, or weakens what was recorded")
		}
	}
	for _, s := range w.FieldStores(deps) {
		if _, ok := s.Val.(*ssa.MakeMap); ok {
			r.Check(w.MustHold(s.Instr, func(l eng.Lit) bool {
				isDeps := func(v ssa.Value) bool { return isFieldVal(v, deps) }
				return nilLit(l, isDeps) == "nil" || lenCmp(l, isDeps) == "empty"
			}), "table made by "+short(s.Instr.Parent()), w.At(s.Instr), "the dependencies recorded so far can be dropped")
			continue
		}
		r.Check(c.derivesField(s.Val, deps), "table set by "+short(s.Instr.Parent()), w.At(s.Instr), "the table of dependencies is replaced")
	}
	instrs(w.FuncsIn(linkdepsPkg), func(f *ssa.Function, in ssa.Instruction) {
		for _, b := range []string{"delete", "clear"} {
			if d := builtinCall(in, b); d != nil {
				r.Check(!isFieldVal(d.Call.Args[0], deps), "kept by "+short(f), w.At(in), "a recorded dependency is removed")
			}
		}
		if mu, ok := in.(*ssa.MapUpdate); ok && (isFieldVal(mu.Map, deps) || mapStoredIn(mu.Map, deps)) {
			r.Check(strings.HasSuffix(short(eng.Root(f)), ".Add") || !isFieldVal(mu.Map, deps), "set by "+short(f), w.At(in), "a dependency is recorded without regard to what was recorded")
		}
	})
	if f := r.Fn(linkdepsPkg, "LinkDeps.Dependencies"); f != nil {
		c.listsKeys(r, f, deps, "dependencies listed")
	}
	if f := r.Fn(linkdepsPkg, "LinkDeps.Kind"); f != nil {
		for _, ret := range eng.Returns(f) {
			v := ret.Results[0]
			if e, ok := v.(*ssa.Extract); ok {
				v = e.Tuple
			}
			lk, ok := v.(*ssa.Lookup)
			r.Check(ok && isFieldVal(lk.X, deps) && lk.Index == ssa.Value(f.Params[1]), "kind", w.At(ret), "the kind of a dependency is not the one recorded")
		}
	}
	if f := r.Fn(linkdepsPkg, "LinkDeps.Empty"); f != nil {
		for _, n := range []int64{0, 1, 5} {
			ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
				if call, ok := v.(*ssa.Call); ok && builtinCall(call, "len") != nil && isFieldVal(call.Call.Args[0], deps) {
					return eng.AInt(n), true
				}
				return eng.AV{}, false
			}}
			for _, o := range ex.Run(f) {
				r.Check(!o.Panics && (n == 0 && o.Rets[0].IsTrue() || n > 0 && o.Rets[0].IsFalse()), "emptiness", w.Pos(f.Pos()), "recorded dependencies are taken for none")
			}
		}
	}
	r.Min(12)
}

// listsKeys: f returns all keys of the map field.
func (c *Ctx) listsKeys(r *R, f *ssa.Function, fv *types.Var, name string) {
	w := c.W
	isM := func(v ssa.Value) bool { return isFieldVal(v, fv) }
	for _, ret := range eng.Returns(f) {
		v := eng.ResolveLocal(ret.Results[0])
		if c.allKeys(v, isM) {
			r.OK(name, w.At(ret))
			continue
		}
		good := false
		for _, l := range loopsOver([]*ssa.Function{f}, isM) {
			app := func(in ssa.Instruction) bool {
				a := builtinCall(in, "append")
				if a == nil {
					return false
				}
				vs := eng.VarArgs(a.Call.Args[1])
				return len(vs) == 1 && vs[0] != nil && l.IsKey(vs[0])
			}
			good = good || l.Always(app, nil) && c.complete(l) && c.derives(v, func(o ssa.Value) bool { in, ok := o.(ssa.Instruction); return ok && app(in) })
		}
		r.Check(good, name, w.At(ret), "some of the recorded dependencies are left out")
	}
}

func (c *Ctx) depsFormat(r *R, deps *types.Var) {
	w := c.W
	addKey := linkdepsPkg + ".LinkDeps.Add"
	rd := r.Fn(linkdepsPkg, "Read")
	wr := r.Fn(linkdepsPkg, "LinkDeps.Write")
	if rd == nil || wr == nil {
		return
	}
	// what is written
	header := ""
	kinds := map[int64]string{}
	for _, f := range c.Region(wr) {
		for _, ci := range eng.Calls(f) {
			if _, ok := writtenBy(ci); !ok {
				continue
			}
			c.checkErrHandled(r, ci)
		}
	}
	ls := eng.Loops(wr)
	r.Check(len(ls) > 0, "entries", w.Pos(wr.Pos()), "the dependencies are not written")
	for _, kind := range []int64{0, 1} {
		// written text, with the kind of every entry known
		var texts []string
		ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
			if l, ok := v.(*ssa.Lookup); ok && isFieldVal(l.X, deps) {
				if l.CommaOk {
					return tuple(eng.AInt(kind), eng.ABool(true)), true
				}
				return eng.AInt(kind), true
			}
			if e, ok := v.(*ssa.Extract); ok {
				if nx, ok := e.Tuple.(*ssa.Next); ok && e.Index == 2 {
					if rg, ok := nx.Iter.(*ssa.Range); ok && isFieldVal(rg.X, deps) {
						return eng.AInt(kind), true
					}
				}
			}
			return eng.AV{}, false
		}, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			parts, ok := writtenBy(ci)
			if !ok {
				return false
			}
			s := ""
			for _, p := range parts {
				if p.v == nil {
					s += p.s
					continue
				}
				if a := eval(p.v); a.K == eng.AConst {
					s += strings.Trim(a.String(), `"`)
				} else {
					s += "{}"
				}
			}
			if parts == nil {
				s = "?"
			}
			if !has(texts, s) {
				texts = append(texts, s)
			}
			return false
		}}
		ex.Run(wr)
		if !r.Check(len(texts) == 2 && strings.HasSuffix(texts[0], "\n") && strings.HasSuffix(texts[1], "\t{}\n"), "text", w.Pos(wr.Pos()), "the dependencies are written as %q, not a header and lines of a kind and a path", texts) {
			return
		}
		header = strings.TrimSpace(texts[0])
		kinds[kind] = strings.TrimSuffix(texts[1], "\t{}\n")
	}
	r.Check(kinds[0] != kinds[1], "kinds told apart", w.Pos(wr.Pos()), "both kinds of dependencies are written alike")
	// all of them
	complete := false
	for _, f := range c.Region(wr) {
		for _, l := range eng.Loops(f) {
			if l.Always(func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				ps, is := writtenBy(ci)
				if !is {
					return false
				}
				for _, p := range ps {
					if p.v != nil && (l.IsElem(p.v) || l.IsKey(p.v)) {
						return true
					}
				}
				return false
			}, nil) && c.complete(l) && (isFieldVal(l.Over, deps) || c.listOfKeys(l.Over, deps)) {
				complete = true
			}
		}
	}
	r.Check(complete, "all entries", w.Pos(wr.Pos()), "some dependencies are not written")
	// what is read
	type lineCase struct {
		header string
		line   string
		unterm bool
		key    string
		kind   int64
		fails  bool
	}
	v1 := strings.Replace(header, "v2", "v1", 1)
	for _, t := range []lineCase{
		{header, kinds[0] + "\ta/b\n", false, "a/b", 0, false},
		{header, kinds[1] + "\ta/b\n", false, "a/b", 1, false},
		{header, kinds[1] + "\ta/b", true, "a/b", 1, false},
		{header, "a/b\n", false, "", 0, true},
		{header, "other\ta/b\n", false, "", 0, true},
		{header, "# comment\n", false, "", 0, false},
		{header, "\n", false, "", 0, false},
		{v1, "a/b\n", false, "a/b", 1, false},
		{v1, "a/b", true, "a/b", 1, false},
		{v1, "# comment\n", false, "", 0, false},
		{v1, "", true, "", 0, false},
		{strings.Replace(header, "v2", "v3", 1), "a/b\n", false, "", 0, true},
		{"", "", true, "", 0, true},
	} {
		got := map[string]bool{}
		isRead := func(call *ssa.Call) bool { return eng.Key(call) == "bufio.Reader.ReadString" }
		eof := eng.AStr("EOF")
		ex := &eng.Exploration{W: w, Repeat: true, Atom: func(v ssa.Value) (eng.AV, bool) {
			if u, ok := v.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
					return eof, true
				}
			}
			if call, ok := v.(*ssa.Call); ok && eng.MKey(call) == addKey {
				return eng.AUnk(), true
			}
			return eng.AV{}, false
		}, AtomEv: func(call *ssa.Call, happened func(string) bool) (eng.AV, bool) {
			if !isRead(call) {
				return eng.AV{}, false
			}
			switch {
			case !happened("read+"):
				return tuple(eng.AStr(t.header+"\n"), eng.ANilV()), true
			case !happened("entry+"):
				if t.unterm {
					return tuple(eng.AStr(t.line), eof), true
				}
				return tuple(eng.AStr(t.line), eng.ANilV()), true
			}
			return tuple(eng.AStr(""), eof), true
		}, Event: func(in ssa.Instruction) string {
			if call, ok := in.(*ssa.Call); ok {
				if isRead(call) {
					if call.Parent() == rd {
						return "read"
					}
					return "entry"
				}
				if eng.MKey(call) == addKey {
					return "add"
				}
			}
			return ""
		}, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if call, ok := in.(*ssa.Call); ok && eng.MKey(call) == addKey {
				got[eval(call.Call.Args[1]).String()+"="+eval(call.Call.Args[2]).String()] = true
			}
			return false
		}}
		// the header is read once, entries from then on
		ex.AtomEv = func(call *ssa.Call, happened func(string) bool) (eng.AV, bool) {
			if !isRead(call) {
				return eng.AV{}, false
			}
			if call.Parent() == rd && !happened("read+") && !happened("entry") {
				if t.header == "" {
					return tuple(eng.AStr(""), eof), true
				}
				return tuple(eng.AStr(t.header+"\n"), eng.ANilV()), true
			}
			first := !happened("entry+") && happened("entry") && !happened("read+") || happened("read+") && !happened("read++") && !happened("entry")
			if first {
				if t.unterm {
					return tuple(eng.AStr(t.line), eof), true
				}
				return tuple(eng.AStr(t.line), eng.ANilV()), true
			}
			return tuple(eng.AStr(""), eof), true
		}
		outs := ex.Run(rd)
		want := ""
		if t.key != "" {
			want = eng.AStr(t.key).String() + "=" + eng.AInt(t.kind).String()
		}
		good := len(outs) > 0 && !ex.Exhausted
		for _, o := range outs {
			good = good && !o.Panics && (o.Rets[1].K == eng.ANonNil) == t.fails && (o.Rets[1].K == eng.ANil) == !t.fails && o.Has("add") == (want != "") && !o.Has("add+")
		}
		good = good && (want == "" && len(got) == 0 || len(got) == 1 && got[want])
		r.Check(good, "read "+t.header+" "+strings.TrimSpace(t.line)+map[bool]string{true: " (unterminated)", false: ""}[t.unterm], w.Pos(rd.Pos()), "the line %q of data %q is not read as %q: %v", t.line, t.header, want, keysOf(got))
	}
	// the entry of the archive
	if f := r.Fn(linkdepsPkg, "FromArchive"); f != nil {
		isData := func(call *ssa.Call) bool { return eng.MKey(call) == linkdepsPkg+".readArchiveData" }
		for _, st := range []string{"absent", "failing", "present", "unreadable"} {
			ex := &eng.Exploration{W: w, Defers: true, Atom: func(v ssa.Value) (eng.AV, bool) {
				call, ok := v.(*ssa.Call)
				if !ok {
					return eng.AV{}, false
				}
				if isData(call) {
					switch st {
					case "absent":
						return tuple(eng.ANilV(), eng.ANilV()), true
					case "failing":
						return tuple(eng.ANilV(), eng.ANonNilV()), true
					}
					return tuple(eng.ANonNilV(), eng.ANilV()), true
				}
				if eng.MKey(call) == linkdepsPkg+".Read" {
					if st == "unreadable" {
						return tuple(eng.AUnk(), eng.ANonNilV()), true
					}
					return tuple(eng.AUnk(), eng.ANilV()), true
				}
				return eng.AV{}, false
			}, Event: func(in ssa.Instruction) string {
				if call, ok := in.(*ssa.Call); ok {
					if isData(call) {
						return "data"
					}
					if eng.MKey(call) == linkdepsPkg+".Read" {
						return "read"
					}
				}
				return ""
			}}
			outs := ex.Run(f)
			good := len(outs) > 0
			for _, o := range outs {
				fails := st == "failing" || st == "unreadable"
				good = good && !o.Panics && o.Has("data") && (o.Rets[1].K == eng.ANonNil) == fails && (o.Rets[1].K == eng.ANil) == !fails && o.Has("read") == (st == "present" || st == "unreadable")
			}
			r.Check(good, "archive with "+st+" data", w.Pos(f.Pos()), "an archive whose link dependencies are %s is not treated as such", st)
		}
		for _, ci := range eng.Calls(f) {
			if call, ok := ci.(*ssa.Call); ok && isData(call) {
				r.Check(call.Call.Args[0] == ssa.Value(f.Params[1]), "archive read", w.At(call), "the archive read is not the one asked for")
			}
		}
	}
	r.Min(20)
}

// listOfKeys: v is a local list filled with all keys of the map field.
func (c *Ctx) listOfKeys(v ssa.Value, fv *types.Var) bool {
	isM := func(v ssa.Value) bool { return isFieldVal(v, fv) }
	if v == nil {
		return false
	}
	if c.allKeys(v, isM) {
		return true
	}
	if call, ok := eng.ResolveLocal(v).(*ssa.Call); ok && eng.MKey(call) == linkdepsPkg+".LinkDeps.Dependencies" {
		return true
	}
	f := v.Parent()
	for _, l := range loopsOver([]*ssa.Function{f}, isM) {
		app := func(in ssa.Instruction) bool {
			a := builtinCall(in, "append")
			if a == nil {
				return false
			}
			vs := eng.VarArgs(a.Call.Args[1])
			return len(vs) == 1 && vs[0] != nil && l.IsKey(vs[0])
		}
		if l.Always(app, nil) && c.complete(l) && c.derives(v, func(o ssa.Value) bool { in, ok := o.(ssa.Instruction); return ok && app(in) }) {
			return true
		}
	}
	return false
}

// depsArchived: closing a compile command.
func (c *Ctx) depsArchived(r *R) {
	w := c.W
	f := r.Fn(proxyPkg, "CompileCommand.Close")
	attach := r.Fn(proxyPkg, "CompileCommand.attachLinkDeps")
	parse := r.Fn(proxyPkg, "parseCompileCommand")
	ld := r.Field(proxyPkg, "CompileCommand", "LinkDeps")
	if f == nil || attach == nil || parse == nil || ld == nil {
		return
	}
	kind := func(in ssa.Instruction) string {
		call, ok := in.(*ssa.Call)
		if !ok {
			return ""
		}
		switch k := eng.MKey(call); {
		case strings.HasSuffix(k, "CompileCommand.attachLinkDeps"):
			return "deps"
		case strings.HasSuffix(k, "CompileCommand.attachTestMain"):
			return "testmain"
		case strings.HasSuffix(k, "CompileCommand.notifyJobServer"):
			return "notify"
		}
		return ""
	}
	for _, t := range []string{"command failed", "deps", "testmain", "notify", "nothing"} {
		bad := ""
		ex := &eng.Exploration{W: w, Repeat: true, Defers: true, Atom: func(v ssa.Value) (eng.AV, bool) { return eng.AV{}, false },
			AtomEv: func(call *ssa.Call, happened func(string) bool) (eng.AV, bool) {
				k := kind(call)
				if k == "" {
					return eng.AV{}, false
				}
				if k == "notify" && t != "command failed" && (!happened("deps") || t != "deps" && !happened("testmain")) {
					bad = "the job server is told before the archive is complete"
				}
				if k == t {
					return eng.ANonNilV(), true
				}
				return eng.ANilV(), true
			}, Event: kind,
			At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				if kind(in) == "notify" {
					args := in.(*ssa.Call).Call.Args
					a := eval(args[len(args)-1])
					fails := t == "command failed" || t == "deps" || t == "testmain"
					if (a.K == eng.ANonNil) != fails {
						bad = "the job server is not told the outcome of the command"
					}
				}
				return false
			}}
		cmdErr := eng.ANilV()
		if t == "command failed" {
			cmdErr = eng.ANonNilV()
		}
		outs := ex.Run(f, eng.ANonNilV(), eng.ANonNilV(), cmdErr)
		good := len(outs) > 0
		for _, o := range outs {
			good = good && !o.Panics && o.Has("notify") && !o.Has("notify+") && (t == "command failed" || o.Has("deps") && !o.Has("deps+"))
			if t != "command failed" {
				good = good && (o.Rets[0].K == eng.ANonNil) == (t != "nothing") && (o.Rets[0].K == eng.ANil) == (t == "nothing")
			}
		}
		r.Check(good && bad == "", "closing ("+t+" failing)", w.Pos(f.Pos()), "link dependencies are not attached to the archive before it is published, or a failure is not reported: %s", bad)
	}
	// attached whole
	var writes, headers int
	for _, ci := range c.callsKey(c.Region(attach), linkdepsPkg+".LinkDeps.Write") {
		r.Check(isFieldAddrOf(ci.Common().Args[0], ld), "what is attached", w.At(ci.(ssa.Instruction)), "what is attached is not the command's link dependencies")
		c.checkErrHandled(r, ci)
	}
	for _, g := range c.Region(attach) {
		for _, ci := range eng.Calls(g) {
			switch eng.Key(ci) {
			case "github.com/blakesmith/ar.Writer.WriteHeader":
				headers++
				c.checkErrHandled(r, ci)
				c.archiveRead(r, c.entryHeader(r, ci, linkdepsPkg))
			case "github.com/blakesmith/ar.Writer.Write":
				writes++
				c.checkErrHandled(r, ci)
				call := callOf(ci.Common().Args[1])
				r.Check(call != nil && eng.Key(call) == "bytes.Buffer.Bytes" && sameBuffer(call.Call.Args[0], c.callsKey(c.Region(attach), linkdepsPkg+".LinkDeps.Write")), "content", w.At(ci.(ssa.Instruction)), "the content attached is not the link dependencies, whole")
			case "os.OpenFile":
				n, ok := eng.ConstInt(ci.Common().Args[1])
				r.Check(ok && n&0x400 != 0 && n&0x200 == 0, "appended", w.At(ci.(ssa.Instruction)), "the entry is not appended to the archive")
			}
		}
	}
	r.Check(headers == 1 && writes == 1, "entry", w.Pos(attach.Pos()), "%d headers and %d contents are attached", headers, writes)
	// skipped only when there is nothing, or no archive
	c.mustDo(r, "attached", attach, callTo("github.com/blakesmith/ar.Writer.Write"), c.succeeding, func(l eng.Lit) bool {
		if call := callOf(l.V); call != nil {
			switch eng.MKey(call) {
			case linkdepsPkg + ".LinkDeps.Empty":
				return l.Pol
			case "errors.Is":
				return l.Pol && globalOf(call.Call.Args[1]) != "" && strings.HasSuffix(globalOf(call.Call.Args[1]), "ErrNotExist")
			}
		}
		return lenCmp(l, func(v ssa.Value) bool {
			call := callOf(v)
			return call != nil && eng.MKey(call) == linkdepsPkg+".LinkDeps.Len"
		}) == "empty"
	}, "link dependencies are not attached to the archive")
	// inherited from what the package imports
	for _, ci := range c.callsKey(c.Region(parse), linkdepsPkg+".FromImportConfig") {
		c.checkErrHandled(r, ci)
	}
	c.mustDo(r, "inherited", parse, func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && eng.FieldVar(fa) == ld && c.fromCall(s.Val, linkdepsPkg+".FromImportConfig")
	}, func(ret *ssa.Return) bool { return w.MaySucceed(ret) && !eng.IsNilConst(ret.Results[0]) }, func(l eng.Lit) bool {
		// without an import configuration there is nothing to inherit
		fi := w.Field(proxyPkg, "compileFlagSet", "ImportCfg")
		return fi != nil && emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, fi) }) == "empty"
	}, "a package does not inherit the link dependencies of what it imports")
	if g := r.Fn(linkdepsPkg, "FromImportConfig"); g != nil {
		pf := c.pkgFileField(r)
		isPF := func(v ssa.Value) bool { return c.bound(v, func(x ssa.Value) bool { return isFieldVal(x, pf) }) }
		n := 0
		for _, l := range loopsOver(c.Region(g), isPF) {
			n++
			c.each(r, l, "every archive", func(in ssa.Instruction) bool {
				ci := isCall(in, linkdepsPkg+".FromArchive")
				return ci != nil && c.bound(ci.Common().Args[1], l.IsElem)
			}, nil, "the link dependencies of some imported package are not inherited")
		}
		for _, l := range c.depLoops(c.Region(g)) {
			n++
			c.each(r, l, "every dependency", func(in ssa.Instruction) bool { return c.addsDep(in, l) }, func(x eng.Lit) bool {
				return c.hasEntry(x, isPF, func(v ssa.Value) bool { return c.bound(v, c.depOf(l)) }) == "found"
			}, "some link dependency of an imported package is not inherited")
		}
		r.Check(n >= 2, "inheritance", w.Pos(g.Pos()), "link dependencies of imported packages are not gathered")
	}
	r.Min(15)
}

// isFieldAddrOf: v is the address of the field.
func isFieldAddrOf(v ssa.Value, fv *types.Var) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && eng.FieldVar(fa) == fv
}

func sameBuffer(buf ssa.Value, writes []ssa.CallInstruction) bool {
	for _, ci := range writes {
		if eng.Unwrap(ci.Common().Args[1]) == buf {
			return true
		}
	}
	return false
}

// entryHeader: the header of an archive entry gives the size of what is written.
func (c *Ctx) entryHeader(r *R, ci ssa.CallInstruction, _ string) (name string) {
	w := c.W
	ok := false
	w.Origins(ci.Common().Args[1], func(o ssa.Value) eng.Step {
		al, isA := o.(*ssa.Alloc)
		if !isA {
			return eng.Follow
		}
		for _, rr := range *al.Referrers() {
			fa, isF := rr.(*ssa.FieldAddr)
			if !isF {
				continue
			}
			for _, s := range *fa.Referrers() {
				if st, isS := s.(*ssa.Store); isS {
					if eng.FieldVar(fa).Name() == "Name" {
						name, _ = eng.ConstString(st.Val)
					}
					if eng.FieldVar(fa).Name() != "Size" {
						continue
					}
					v := st.Val
					if cv, isC := v.(*ssa.Convert); isC {
						v = cv.X
					}
					if call, isCall := v.(*ssa.Call); isCall {
						ok = eng.Key(call) == "bytes.Buffer.Len" || builtinCall(call, "len") != nil
					}
				}
			}
		}
		return eng.Stop
	})
	r.Check(ok, "size of the entry", w.At(ci.(ssa.Instruction)), "the size of the archive entry is not that of its content")
	return name
}

// archiveRead: the entry attached to archives is the one read back from them.
func (c *Ctx) archiveRead(r *R, name string) {
	w := c.W
	f := r.Fn(linkdepsPkg, "FromArchive")
	if f == nil {
		return
	}
	for _, t := range []struct {
		name, entry string
		openFails   bool
		nextFails   bool
		read, fails bool
	}{
		{"with the entry", name, false, false, true, false},
		{"without the entry", "__.PKGDEF", false, false, false, false},
		{"with an entry of a longer name", name + ".old", false, false, false, false},
		{"with an entry of another prefix", "x" + name, false, false, false, false},
		{"with an entry of a shorter name", strings.TrimSuffix(name, "s"), false, false, false, false},
		{"unreadable", name, true, false, false, true},
		{"corrupt", name, false, true, false, true},
	} {
		errOf := func(b bool) eng.AV {
			if b {
				return eng.ANonNilV()
			}
			return eng.ANilV()
		}
		ex := &eng.Exploration{W: w, Repeat: true, Defers: true, Atom: func(v ssa.Value) (eng.AV, bool) {
			switch x := v.(type) {
			case *ssa.Call:
				switch eng.Key(x) {
				case "os.Open":
					return tuple(errOf(!t.openFails), errOf(t.openFails)), true
				case "os.File.Close", "io.Closer.Close", "io.ReadCloser.Close":
					return eng.ANilV(), true
				}
				if eng.MKey(x) == linkdepsPkg+".Read" {
					return tuple(eng.AUnk(), eng.ANilV()), true
				}
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && eng.FieldVar(fa).Name() == "Name" && strings.HasSuffix(eng.Deref(fa.X.Type()).String(), "ar.Header") {
					return eng.AStr(t.entry), true
				}
			}
			return eng.AV{}, false
		}, AtomEv: func(call *ssa.Call, happened func(string) bool) (eng.AV, bool) {
			switch eng.Key(call) {
			case "github.com/blakesmith/ar.Reader.Next":
				end := t.nextFails || happened("next+")
				return tuple(errOf(!end), errOf(end)), true
			case "errors.Is":
				return eng.ABool(!t.nextFails && happened("next+")), true
			}
			return eng.AV{}, false
		}, Event: func(in ssa.Instruction) string {
			if call, ok := in.(*ssa.Call); ok {
				if eng.Key(call) == "github.com/blakesmith/ar.Reader.Next" {
					return "next"
				}
				if eng.MKey(call) == linkdepsPkg+".Read" {
					return "read"
				}
			}
			return ""
		}}
		k, good := 0, name != ""
		for _, o := range ex.Run(f) {
			k++
			good = good && !o.Panics && o.Has("read") == t.read
			if n := len(o.Rets); good && !t.read {
				good = (o.Rets[n-1].K == eng.ANonNil) == t.fails
			}
		}
		r.Check(k > 0 && good && !ex.Exhausted, "read from an archive "+t.name, w.Pos(f.Pos()), "the link dependencies attached to an archive are not read from it, or a failure to do so is taken for an archive without any")
	}
	for _, g := range w.FuncsIn(aspectPkg, linkdepsPkg, proxyPkg) {
		for _, ci := range c.callsKey([]*ssa.Function{g}, linkdepsPkg+".FromArchive") {
			c.checkErrHandled(r, ci)
		}
	}
}

// depLoops lists the loops over link dependencies: their list, or the table itself.
func (c *Ctx) depLoops(fs []*ssa.Function) []*eng.Loop {
	deps := c.W.Field(linkdepsPkg, "LinkDeps", "deps")
	return loopsOver(fs, func(v ssa.Value) bool {
		if isFieldVal(v, deps) {
			return true
		}
		call, ok := eng.ResolveLocal(v).(*ssa.Call)
		return ok && eng.MKey(call) == linkdepsPkg+".LinkDeps.Dependencies"
	})
}

// depOf: v is the dependency of the current iteration.
func (c *Ctx) depOf(l *eng.Loop) func(ssa.Value) bool {
	if l.Next != nil {
		return l.IsKey
	}
	return l.IsElem
}

// addsDep: records the dependency of the current iteration with its kind.
func (c *Ctx) addsDep(in ssa.Instruction, l *eng.Loop) bool {
	ci := isCall(in, linkdepsPkg+".LinkDeps.Add")
	if ci == nil {
		return false
	}
	a := ci.Common().Args
	if !c.bound(a[1], c.depOf(l)) {
		return false
	}
	return c.bound(a[2], func(v ssa.Value) bool {
		if l.Next != nil && l.IsElem(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Call:
			return eng.MKey(x) == linkdepsPkg+".LinkDeps.Kind" && c.bound(x.Call.Args[1], c.depOf(l))
		case *ssa.UnOp:
			// a field of a record made of the dependency
			if x.Op != token.MUL {
				return false
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return c.kindField(fa, l)
			}
		case *ssa.Field:
			return false
		}
		return false
	})
}

func (c *Ctx) kindField(fa *ssa.FieldAddr, l *eng.Loop) bool {
	vs := fieldOfLocal(fa)
	for _, v := range vs {
		call, ok := eng.ResolveLocal(v).(*ssa.Call)
		if !ok || eng.MKey(call) != linkdepsPkg+".LinkDeps.Kind" || !c.bound(call.Call.Args[1], c.depOf(l)) {
			return false
		}
	}
	return len(vs) > 0
}

// fieldOfLocal lists what is stored in the field of a local record, directly or in the literals copied to it;
// none when it can be something else.
func fieldOfLocal(fa *ssa.FieldAddr) []ssa.Value {
	var res []ssa.Value
	bad := false
	seen := map[*ssa.Alloc]bool{}
	var walk func(al *ssa.Alloc)
	walk = func(al *ssa.Alloc) {
		if seen[al] {
			return
		}
		seen[al] = true
		for _, rr := range *al.Referrers() {
			switch o := rr.(type) {
			case *ssa.FieldAddr:
				for _, s := range *o.Referrers() {
					if st, ok := s.(*ssa.Store); ok && o.Field == fa.Field && st.Addr == ssa.Value(o) {
						res = append(res, st.Val)
					}
				}
			case *ssa.Store:
				if o.Addr != ssa.Value(al) {
					bad = true
					continue
				}
				u, ok := o.Val.(*ssa.UnOp)
				if !ok {
					bad = true
					continue
				}
				if src, ok := u.X.(*ssa.Alloc); ok && u.Op == token.MUL {
					walk(src)
				} else {
					bad = true
				}
			}
		}
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	walk(al)
	if bad {
		return nil
	}
	return res
}

// depsRecorded: weaving a package.
func (c *Ctx) depsRecorded(r *R) {
	w := c.W
	f := r.Fn(aspectPkg, "Weaver.OnCompile")
	pf := c.pkgFileField(r)
	ld := r.Field(proxyPkg, "CompileCommand", "LinkDeps")
	pkgF := r.Field(proxyPkg, "compileFlagSet", "Package")
	if f == nil || pf == nil || ld == nil || pkgF == nil {
		return
	}
	region := c.Region(f)
	isPF := func(v ssa.Value) bool { return c.bound(v, func(x ssa.Value) bool { return isFieldVal(x, pf) }) }
	isRefs := func(v ssa.Value) bool {
		call, ok := eng.ResolveLocal(v).(*ssa.Call)
		return ok && strings.HasSuffix(eng.MKey(call), "typed.ReferenceMap.Map")
	}
	var loops []*eng.Loop
	for _, l := range loopsOver(region, func(v ssa.Value) bool { return isRefs(v) || c.allKeys(v, isRefs) }) {
		loops = append(loops, l)
	}
	if !r.Check(len(loops) == 1, "references", w.Pos(f.Pos()), "the packages injected code refers to are not gone through once") {
		return
	}
	l := loops[0]
	ref := c.depOf(l)
	isRef := func(v ssa.Value) bool { return c.bound(v, ref) }
	unsafeLit := func(x eng.Lit) bool { return cmpLit(x, isRef, isStr("unsafe")) == 1 }
	satisfied := func(x eng.Lit) bool { return c.hasEntry(x, isPF, isRef) == "found" }
	isAdd := func(in ssa.Instruction) bool {
		ci := isCall(in, linkdepsPkg+".LinkDeps.Add")
		return ci != nil && isRef(ci.Common().Args[1])
	}
	c.each(r, l, "every reference", isAdd, orLit(unsafeLit, satisfied), "a package injected code refers to is not recorded as a link dependency")
	// reached, with those of every file
	isCount := func(v ssa.Value) bool {
		call := callOf(v)
		return call != nil && strings.HasSuffix(eng.MKey(call), "typed.ReferenceMap.Count")
	}
	none := func(x eng.Lit) bool {
		return countCmp(x, isCount) == "empty" || lenCmp(x, isRefs) == "empty"
	}
	atLoop := func(in ssa.Instruction) bool { return in == l.Header.Instrs[0] }
	isResults := func(v ssa.Value) bool {
		return c.bound(v, func(x ssa.Value) bool {
			e, ok := x.(*ssa.Extract)
			call := callOf(x)
			return ok && e.Index == 0 && call != nil && strings.HasSuffix(eng.MKey(call), "injector.Injector.InjectFiles")
		})
	}
	inject := w.CallEvent(func(ci ssa.CallInstruction) bool {
		return strings.HasSuffix(eng.MKey(ci), "injector.Injector.InjectFiles")
	})
	if l.Fn == f {
		for _, ci := range eng.Calls(f) {
			if in, ok := ci.(ssa.Instruction); ok && inject(in) {
				leak := w.MustFollow(in, atLoop, c.succeeding, orLit(none, w.ErrFailed(ci)))
				r.Check(leak == nil, "references reached", w.At(in), "the packages injected code refers to are not recorded")
			}
		}
	}
	n := 0
	for _, rl := range loopsOver(region, isResults) {
		n++
		c.each(r, rl, "references of every file", func(in ssa.Instruction) bool {
			ci := isCall(in, "internal/injector/typed.ReferenceMap.Merge")
			return ci != nil && len(ci.Common().Args) == 2
		}, nil, "the packages code injected in some file refers to are forgotten")
	}
	r.Check(n == 1, "references of files", w.Pos(f.Pos()), "the packages injected code refers to are not gathered")
	// its kind, and whether it is resolved
	isKindOf := func(v ssa.Value) bool {
		if l.Next != nil {
			return l.IsElem(v)
		}
		if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
			v = e.Tuple
		}
		lk, ok := v.(*ssa.Lookup)
		return ok && isRefs(lk.X) && l.IsElem(lk.Index)
	}
	isResolve := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		k := eng.MKey(call)
		return (k == aspectPkg+".resolvePackageFiles" || k == aspectPkg+".resolvePackageFilesForTest") && isRef(call.Call.Args[1])
	}
	for _, imp := range []bool{true, false} {
		for _, main := range []bool{true, false} {
			badKind := ""
			name := map[bool]string{true: "import", false: "link name"}[imp] + " in " + map[bool]string{true: "a main package", false: "another package"}[main]
			ex := &eng.Exploration{W: w, Inline: func(g *ssa.Function) bool {
				return eng.PkgOf(g) == eng.PkgOf(f) && !strings.Contains(g.Name(), "resolvePackageFiles") && g.Name() != "FindBehaviorOverride"
			}, Atom: func(v ssa.Value) (eng.AV, bool) {
				switch {
				case isKindOf(v):
					return eng.ABool(imp), true
				case isFieldVal(v, pkgF):
					if _, isLoad := v.(*ssa.UnOp); !isLoad {
						return eng.AV{}, false
					}
					if main {
						return eng.AStr("main"), true
					}
					return eng.AStr("other"), true
				}
				switch x := v.(type) {
				case *ssa.Lookup:
					if isPF(x.X) && isRef(x.Index) {
						if x.CommaOk {
							return tuple(eng.AStr(""), eng.ABool(false)), true
						}
						return eng.AStr(""), true
					}
					if isPF(x.X) && x.CommaOk {
						return tuple(eng.AStr(""), eng.ABool(false)), true
					}
				case *ssa.BinOp:
					if x.Op == token.EQL && (isRef(x.X) || isRef(x.Y)) {
						return eng.ABool(false), true
					}
					if x.Op == token.NEQ && (isRef(x.X) || isRef(x.Y)) {
						return eng.ABool(true), true
					}
				}
				return eng.AV{}, false
			}, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				if isAdd(in) {
					n, ok := eval(in.(*ssa.Call).Call.Args[2]).Int()
					if !ok || (n == 1) != imp {
						badKind = w.At(in)
					}
				}
				return false
			}, Event: func(in ssa.Instruction) string {
				switch {
				case isAdd(in):
					return "add"
				case isResolve(in):
					return "resolve"
				case isCall(in, importcfgPkg+".ImportConfig.SetPackageFile") != nil:
					return "set"
				case isCall(in, importcfgPkg+".ImportConfig.WriteFile") != nil:
					return "write"
				}
				return ""
			}}
			outs := ex.Run(f)
			seen := 0
			for _, o := range outs {
				if o.Panics || !o.Has("add") || o.Rets[0].K == eng.ANonNil {
					continue
				}
				seen++
				r.Check(o.Has("resolve") == (imp || main), name+": resolved", w.Pos(f.Pos()), "a package injected code imports is not made available to the compiler (or a link name is, which can be a cycle)")
				r.Check(!o.Has("set") || o.Has("write"), name+": written", w.Pos(f.Pos()), "the import configuration is not updated with the packages injected code imports")
			}
			r.Check(seen > 0 && !ex.Exhausted, name, w.Pos(f.Pos()), "cannot tell how references of injected code are recorded")
			r.Check(badKind == "", name+": kind", w.Pos(f.Pos()), "at %s, a reference is recorded with the wrong kind", badKind)
		}
	}
	// everything resolved is available, and its own dependencies are inherited
	isResolved := func(v ssa.Value) bool {
		return c.bound(v, func(x ssa.Value) bool { return c.isResolved(x) })
	}
	n = 0
	for _, dl := range loopsOver(region, func(v ssa.Value) bool { return isResolved(v) || c.allKeys(v, isResolved) }) {
		if dl.Fn != l.Fn && !c.W.Reachable(f)[dl.Fn] || strings.Contains(dl.Fn.Name(), "resolvePackageFiles") || dl.Fn.Name() == "mergeResolvedArchives" || c.W.Reachable(w.Func(aspectPkg, "mergeResolvedArchives"))[dl.Fn] && dl.Fn.Name() != f.Name() {
			continue
		}
		n++
		dep := c.depOf(dl)
		isDep := func(v ssa.Value) bool { return c.bound(v, dep) }
		c.each(r, dl, "every resolved package", func(in ssa.Instruction) bool {
			ci := isCall(in, importcfgPkg+".ImportConfig.SetPackageFile")
			return ci != nil && isDep(ci.Common().Args[1]) && c.exportFileOf(ci.Common().Args[2], isResolved, dl)
		}, func(x eng.Lit) bool { return c.hasEntry(x, isPF, isDep) == "found" }, "a package injected code imports, or one of its dependencies, is not made available to the compiler")
		c.each(r, dl, "every resolved package's own", func(in ssa.Instruction) bool {
			ci := isCall(in, linkdepsPkg+".FromArchive")
			return ci != nil && c.exportFileOf(ci.Common().Args[1], isResolved, dl)
		}, nil, "the link dependencies of a package injected code imports are not inherited")
		for _, tl := range c.depLoops(region) {
			if !dl.Blocks[tl.Header] && tl.Fn == dl.Fn {
				continue
			}
			n++
			c.each(r, tl, "every inherited dependency", func(in ssa.Instruction) bool { return c.addsDep(in, tl) }, func(x eng.Lit) bool {
				return c.hasEntry(x, isPF, func(v ssa.Value) bool { return c.bound(v, c.depOf(tl)) }) == "found"
			}, "a link dependency of a package injected code imports is not inherited")
		}
	}
	r.Check(n >= 2, "resolved packages", w.Pos(f.Pos()), "the packages resolved for injected code are not gone through")
	r.Min(10)
}

// isResolved: v is the answer of a resolution.
func (c *Ctx) isResolved(v ssa.Value) bool {
	call := callOf(v)
	if call == nil {
		return false
	}
	k := eng.MKey(call)
	return k == aspectPkg+".resolvePackageFiles" || k == aspectPkg+".resolvePackageFilesForTest"
}

// exportFileOf: v is the archive of the resolved package of the current iteration.
func (c *Ctx) exportFileOf(v ssa.Value, isResolved func(ssa.Value) bool, l *eng.Loop) bool {
	ef := c.W.Field("internal/jobserver/pkgs", "ResolvedArchive", "ExportFile")
	return c.bound(v, func(x ssa.Value) bool {
		var base ssa.Value
		switch y := x.(type) {
		case *ssa.Field:
			if eng.FieldVar(y) == ef {
				base = y.X
			}
		case *ssa.UnOp:
			if fa, ok := y.X.(*ssa.FieldAddr); ok && eng.FieldVar(fa) == ef {
				if al, ok := fa.X.(*ssa.Alloc); ok {
					for _, rr := range *al.Referrers() {
						if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
							base = s.Val
						}
					}
				}
			}
		}
		if base == nil {
			return false
		}
		base = eng.ResolveLocal(base)
		if l.Next != nil && l.IsElem(base) {
			return true
		}
		if e, ok := base.(*ssa.Extract); ok && e.Index == 0 {
			base = e.Tuple
		}
		lk, ok := base.(*ssa.Lookup)
		return ok && isResolved(lk.X) && c.depOf(l)(lk.Index)
	})
}

// listVar is a list kept in a variable: a loop-carried value, or an address-taken local.
type listVar struct {
	phi *ssa.Phi
	al  *ssa.Alloc
}

func (l listVar) is(v ssa.Value) bool {
	if l.phi != nil && v == ssa.Value(l.phi) {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && l.al != nil && u.X == ssa.Value(l.al)
}

func (l listVar) ok() bool { return l.phi != nil || l.al != nil }

// worklist checks that a loop goes on until the list is empty, taking one element at a time.
func (c *Ctx) worklist(r *R, name string, l *eng.Loop) (list listVar) {
	w := c.W
	var ifi *ssa.If
	if n := len(l.Header.Instrs); n > 0 {
		ifi, _ = l.Header.Instrs[n-1].(*ssa.If)
	}
	if ifi == nil {
		return
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	ln, ok := bo.X.(*ssa.Call)
	if !ok || builtinCall(ln, "len") == nil || !isZeroConst(bo.Y) {
		return
	}
	switch x := ln.Call.Args[0].(type) {
	case *ssa.Phi:
		if x.Block() != l.Header {
			return
		}
		list.phi = x
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return
		}
		list.al = al
	default:
		return
	}
	in := ssa.Instruction(ifi)
	r.Check(bo.Op == token.GTR || bo.Op == token.NEQ, name+" until empty", w.At(in), "the search stops before everything was looked at")
	x := w.EarlyExit(l, func(x eng.Lit) bool {
		return x.V == ifi.Cond || lenCmp(x, list.is) == "empty"
	})
	r.Check(x == nil, name+" complete", w.At(in), "the search can stop, successfully, before everything was looked at")
	// exactly one element is dropped: the one looked at
	n := 0
	for b := range l.Blocks {
		for _, i := range b.Instrs {
			sl, ok := i.(*ssa.Slice)
			if !ok || !list.is(sl.X) {
				continue
			}
			n++
			first := sl.Low != nil && sl.High == nil
			good := false
			if first {
				k, ok := eng.ConstInt(sl.Low)
				good = ok && k == 1
			} else if sl.High != nil && (sl.Low == nil || isZeroConst(sl.Low)) {
				good = lastIndex(sl.High, list)
			}
			// the element dropped is read
			read := false
			for bb := range l.Blocks {
				for _, j := range bb.Instrs {
					if v, ok := j.(ssa.Value); ok && isPopAddr(v, list, first) {
						read = true
					}
				}
			}
			r.Check(good && read, name+" one at a time", w.At(i), "what is dropped from the list is not what is looked at")
		}
	}
	r.Check(n == 1, name+" taken", w.At(in), "the list is cut %d times per step", n)
	return list
}

func isPopAddr(v ssa.Value, list listVar, first bool) bool {
	ia, ok := v.(*ssa.IndexAddr)
	return ok && list.is(ia.X) && (first && isZeroConst(ia.Index) || !first && lastIndex(ia.Index, list))
}

// taken: v is (part of) the element taken from the list.
func (c *Ctx) taken(list listVar) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		return c.derives(v, func(o ssa.Value) bool {
			switch x := o.(type) {
			case *ssa.IndexAddr:
				return isPopAddr(x, list, true) || isPopAddr(x, list, false)
			case *ssa.UnOp:
				return isPopAddr(x.X, list, true) || isPopAddr(x.X, list, false)
			case *ssa.Lookup:
				u, ok := eng.ResolveLocal(x.Index).(*ssa.UnOp)
				return ok && (isPopAddr(u.X, list, true) || isPopAddr(u.X, list, false))
			}
			return false
		})
	}
}

// lastIndex: v is len(list)-1.
func lastIndex(v ssa.Value, list listVar) bool {
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.SUB {
		return false
	}
	n, ok := eng.ConstInt(bo.Y)
	ln, isLen := bo.X.(*ssa.Call)
	return ok && n == 1 && isLen && builtinCall(ln, "len") != nil && list.is(ln.Call.Args[0])
}

// appendsTo: in appends the element to a list which flows into v.
func (c *Ctx) appendsTo(in ssa.Instruction, list func(ssa.Value) bool, elem func(ssa.Value) bool) bool {
	a := builtinCall(in, "append")
	if a == nil {
		return false
	}
	vs := eng.VarArgs(a.Call.Args[1])
	if len(vs) != 1 || vs[0] == nil || !elem(vs[0]) {
		return false
	}
	return c.flowsTo(a, list)
}

// flowsTo: a list is v, or what v becomes by appending, merging paths and loops.
func (c *Ctx) flowsTo(v ssa.Value, list func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if list(v) {
			return true
		}
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, rr := range *v.Referrers() {
			switch x := rr.(type) {
			case *ssa.Phi:
				if walk(x) {
					return true
				}
			case *ssa.Slice:
				if x.X == v && walk(x) {
					return true
				}
			case *ssa.Call:
				if a := builtinCall(x, "append"); a != nil && a.Call.Args[0] == v && walk(x) {
					return true
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, r2 := range *al.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok && walk(u) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

// isLocalMap: v is a map made in this package and kept in a local.
func (c *Ctx) isLocalMap(v ssa.Value) bool {
	return c.bound(v, func(x ssa.Value) bool { _, ok := x.(*ssa.MakeMap); return ok })
}

// elemPart: v is the element of the iteration, or a field of it.
func (c *Ctx) elemPart(l *eng.Loop) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		v = eng.ResolveLocal(v)
		if l.IsElem(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Field:
			return l.IsElem(x.X)
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			switch b := fa.X.(type) {
			case *ssa.IndexAddr:
				return l.Over != nil && b.Index == l.Key && eng.SameLoad(b.X, l.Over)
			case *ssa.Alloc:
				for _, rr := range *b.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(b) && l.IsElem(s.Val) {
						return true
					}
				}
			}
		}
		return false
	}
}

func (c *Ctx) pkgFileMap(pf *types.Var) func(ssa.Value) bool {
	return func(v ssa.Value) bool { return c.bound(v, func(x ssa.Value) bool { return isFieldVal(x, pf) }) }
}

// pathOfRecord: v is a field of a local record, stored once, whose value satisfies pred; or v satisfies it.
func (c *Ctx) part(v ssa.Value, pred func(ssa.Value) bool) bool {
	return c.bound(v, func(x ssa.Value) bool {
		if pred(x) {
			return true
		}
		u, ok := x.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		vs := fieldOfLocal(fa)
		for _, v := range vs {
			if !pred(v) && !pred(eng.ResolveLocal(v)) {
				return false
			}
		}
		return len(vs) > 0
	})
}

// depsMain: compiling a main package.
func (c *Ctx) depsMain(r *R) {
	w := c.W
	f := r.Fn(aspectPkg, "Weaver.OnCompileMain")
	ini := r.Fn(aspectPkg, "initialLinkDependencies")
	pf := c.pkgFileField(r)
	if f == nil || ini == nil || pf == nil {
		return
	}
	isPF := c.pkgFileMap(pf)
	// where it starts: the dependencies of everything imported
	n := 0
	iniRegion := c.Region(ini)
	for _, l := range loopsOver(iniRegion, func(v ssa.Value) bool { return isPF(v) || c.allKeys(v, isPF) || c.listOfKeys(v, pf) }) {
		reads := func(in ssa.Instruction) bool { return isCall(in, linkdepsPkg+".FromArchive") != nil }
		any := false
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				any = any || w.LiftExit(reads, w.MaySucceed, nil)(in)
			}
		}
		if !any {
			continue
		}
		n++
		c.each(r, l, "every import", reads, nil, "the link dependencies of some imported package are not looked at")
	}
	r.Check(n == 1, "imports", w.Pos(ini.Pos()), "the link dependencies of imported packages are not looked at")
	var byPath *ssa.MakeMap
	for _, l := range c.depLoops(iniRegion) {
		n++
		dep := func(v ssa.Value) bool { return c.bound(v, c.depOf(l)) }
		c.each(r, l, "every initial dependency", func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			if ok && dep(mu.Key) {
				byPath, _ = eng.ResolveLocal(mu.Map).(*ssa.MakeMap)
				return true
			}
			return false
		}, func(x eng.Lit) bool { return c.hasEntry(x, isPF, dep) == "found" }, "a link dependency of an imported package is not satisfied")
	}
	r.Check(n >= 2, "initial dependencies", w.Pos(ini.Pos()), "the initial link dependencies are not gathered")
	if byPath != nil {
		for _, l := range loopsOver(iniRegion, func(v ssa.Value) bool { return eng.ResolveLocal(v) == ssa.Value(byPath) }) {
			app := func(in ssa.Instruction) bool {
				a := builtinCall(in, "append")
				if a == nil {
					return false
				}
				vs := eng.VarArgs(a.Call.Args[1])
				return len(vs) == 1 && vs[0] != nil && (l.IsElem(vs[0]) || l.IsKey(vs[0]))
			}
			c.each(r, l, "every gathered dependency", app, nil, "a link dependency is not satisfied")
			n++
		}
		r.Check(n >= 3, "gathered", w.Pos(ini.Pos()), "the gathered dependencies are not returned")
	}
	for _, ci := range c.callsKey(c.Region(f), aspectPkg+".initialLinkDependencies") {
		c.checkErrHandled(r, ci)
	}

	// the closure
	isResolve := func(in ssa.Instruction) *ssa.Call {
		call, ok := in.(*ssa.Call)
		if ok && (eng.MKey(call) == aspectPkg+".resolvePackageFilesForTest" || eng.MKey(call) == aspectPkg+".resolvePackageFiles") {
			return call
		}
		return nil
	}
	var list listVar
	var wl *eng.Loop
	for _, l := range eng.Loops(f) {
		has := false
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				has = has || w.LiftExit(func(x ssa.Instruction) bool { return isResolve(x) != nil }, w.MaySucceed, nil)(in)
			}
		}
		if !has {
			continue
		}
		if lv := c.worklist(r, "closure", l); lv.ok() {
			list, wl = lv, l
			break
		}
	}
	if !r.Check(wl != nil, "closure", w.Pos(f.Pos()), "the closure of link dependencies is not computed until nothing is left") {
		return
	}
	isTaken := c.taken(list)
	c.each(r, wl, "every pending", func(in ssa.Instruction) bool {
		call := isResolve(in)
		return call != nil && (isTaken(call.Call.Args[1]) || c.bound(call.Call.Args[1], isTaken))
	}, nil, "a pending link dependency is not resolved")
	c.each(r, wl, "every resolution", func(in ssa.Instruction) bool {
		ci := isCall(in, aspectPkg+".mergeResolvedArchives")
		return ci != nil && c.bound(ci.Common().Args[1], c.isResolved)
	}, nil, "the archives of a link dependency are not given to the compiler")
	// new dependencies: the list imported in the end
	isNew := c.importedList(r, f)
	local := func(v ssa.Value) bool { return isPF(v) || c.isLocalMap(v) }
	region := c.Region(f)
	n = 0
	isResolved := func(v ssa.Value) bool { return c.bound(v, c.isResolved) }
	for _, dl := range loopsOver(region, func(v ssa.Value) bool { return isResolved(v) || c.allKeys(v, isResolved) }) {
		if dl.Fn.Name() == "mergeResolvedArchives" || strings.HasPrefix(dl.Fn.Name(), "resolvePackageFiles") || !w.Reachable(f)[dl.Fn] {
			continue
		}
		any := false
		for b := range dl.Blocks {
			for _, in := range b.Instrs {
				any = any || w.LiftExit(callTo(linkdepsPkg+".FromArchive"), w.MaySucceed, nil)(in)
			}
		}
		if !any {
			continue
		}
		n++
		c.each(r, dl, "every resolved archive", func(in ssa.Instruction) bool {
			ci := isCall(in, linkdepsPkg+".FromArchive")
			return ci != nil && c.exportFileOf(ci.Common().Args[1], isResolved, dl)
		}, nil, "the link dependencies of a resolved package are not looked at")
	}
	r.Check(n == 1, "resolved archives", w.Pos(f.Pos()), "the link dependencies of resolved packages are not looked at")
	n = 0
	for _, tl := range c.depLoops(region) {
		if !w.Reachable(f)[tl.Fn] || w.Reachable(ini)[tl.Fn] {
			continue
		}
		n++
		dep := func(v ssa.Value) bool { return c.bound(v, c.depOf(tl)) }
		known := func(x eng.Lit) bool { return c.hasEntry(x, local, dep) == "found" }
		c.each(r, tl, "every further dependency", func(in ssa.Instruction) bool { return c.appendsTo(in, list.is, dep) }, known, "a link dependency of a resolved package is not resolved in turn")
		c.each(r, tl, "every further dependency imported", func(in ssa.Instruction) bool { return c.appendsTo(in, isNew, dep) }, known, "a link dependency of a resolved package is not imported by the main package")
		c.each(r, tl, "every further dependency recorded", func(in ssa.Instruction) bool { return c.addsDep(in, tl) }, known, "a link dependency of a resolved package is not recorded")
	}
	r.Check(n == 1, "further dependencies", w.Pos(f.Pos()), "the link dependencies of resolved packages are not followed")
	// what marks a dependency as known
	instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !c.isLocalMap(mu.Map) {
			return
		}
		good := false
		for _, l := range eng.Loops(f) {
			if !l.Blocks[in.Block()] {
				continue
			}
			if l.Over != nil && (isResolved(l.Over) && l.IsKey(mu.Key) || c.elemPart(l)(mu.Key)) {
				good = true
			}
		}
		r.Check(good, "known", w.At(in), "something which was not resolved counts as known")
	})
	// initial ones
	n = 0
	for _, l := range loopsOver([]*ssa.Function{f}, func(v ssa.Value) bool {
		return c.bound(v, func(x ssa.Value) bool {
			call := callOf(x)
			return call != nil && eng.MKey(call) == aspectPkg+".initialLinkDependencies"
		})
	}) {
		n++
		part := c.elemPart(l)
		c.each(r, l, "every initial one", func(in ssa.Instruction) bool { return c.appendsTo(in, list.is, part) }, nil, "an initial link dependency is not resolved")
		c.each(r, l, "every initial one imported", func(in ssa.Instruction) bool { return c.appendsTo(in, isNew, part) }, nil, "an initial link dependency is not imported by the main package")
	}
	r.Check(n == 1, "initial", w.Pos(f.Pos()), "the search does not start from the initial link dependencies")
	// given to the compiler
	unless := func(l eng.Lit) bool {
		pk := w.Field(proxyPkg, "compileFlagSet", "Package")
		if cmpLit(l, func(v ssa.Value) bool { return isFieldVal(v, pk) }, isStr("main")) == -1 {
			return true
		}
		if call := callOf(l.V); call != nil && strings.HasSuffix(eng.MKey(call), "pkgs.ResolvingTestVariants") {
			return l.Pol
		}
		return lenCmp(l, func(v ssa.Value) bool {
			return c.bound(v, func(x ssa.Value) bool {
				call := callOf(x)
				return call != nil && eng.MKey(call) == aspectPkg+".initialLinkDependencies"
			})
		}) == "empty"
	}
	c.mustDo(r, "configuration written", f, callTo(importcfgPkg+".ImportConfig.WriteFile"), c.succeeding, unless, "the compiler is not given the archives of link dependencies")
	c.mustDo(r, "imports added", f, callTo(proxyPkg+".CompileCommand.AddFiles"), c.succeeding, unless, "the compiler is not given the imports of link dependencies")
	r.Min(20)
}

// importedList: the synthetic file importing link dependencies; returns what flows into its list.
func (c *Ctx) importedList(r *R, f *ssa.Function) func(ssa.Value) bool {
	w := c.W
	region := c.Region(f)
	var over []ssa.Value
	for _, g := range region {
		if !w.Reachable(f)[g] {
			continue
		}
		for _, l := range eng.Loops(g) {
			if l.Over == nil {
				continue
			}
			quotes := func(v ssa.Value) bool {
				return c.derives(v, func(o ssa.Value) bool {
					call, ok := o.(*ssa.Call)
					return ok && eng.Key(call) == "strconv.Quote" && l.IsElem(call.Call.Args[0])
				})
			}
			specs := func(in ssa.Instruction) bool {
				s, ok := in.(*ssa.Store)
				if ok {
					ia, isIA := s.Addr.(*ssa.IndexAddr)
					return isIA && l.IsKey(ia.Index) && c.derives(ia.X, func(o ssa.Value) bool {
						fa, ok := o.(*ssa.FieldAddr)
						if !ok {
							if ms, isMS := o.(*ssa.MakeSlice); isMS {
								return strings.HasSuffix(ms.Type().String(), "go/ast.Spec")
							}
							return false
						}
						return eng.FieldVar(fa).Name() == "Specs"
					}) && c.quoted(s.Val, quotes)
				}
				if a := builtinCall(in, "append"); a != nil && strings.HasSuffix(a.Type().String(), "go/ast.Spec") {
					vs := eng.VarArgs(a.Call.Args[1])
					return len(vs) == 1 && vs[0] != nil && c.quoted(vs[0], quotes)
				}
				return false
			}
			any := false
			for b := range l.Blocks {
				for _, in := range b.Instrs {
					any = any || specs(in)
					if call, ok := in.(*ssa.Call); ok && any && eng.Key(call) == "go/ast.NewIdent" {
						s, _ := eng.ConstString(call.Call.Args[0])
						r.Check(s == "_", "blank import", w.At(in), "a link dependency is imported under a name")
					}
				}
			}
			if !any {
				continue
			}
			c.each(r, l, "every import written", specs, nil, "a link dependency is not imported")
			over = append(over, c.given(l.Over)...)
		}
	}
	r.Check(len(over) == 1, "synthetic imports", w.Pos(f.Pos()), "the imports of link dependencies are not written")
	// the file added is the one written
	var created, added []string
	for _, g := range region {
		if !w.Reachable(f)[g] {
			continue
		}
		for _, ci := range eng.Calls(g) {
			switch {
			case eng.Key(ci) == "os.Create", eng.Key(ci) == "os.WriteFile", eng.Key(ci) == "os.OpenFile":
				created = append(created, w.Expr(ci.Common().Args[0]))
			case eng.MKey(ci) == proxyPkg+".CompileCommand.AddFiles":
				for _, v := range eng.VarArgs(ci.Common().Args[1]) {
					if v != nil {
						added = append(added, w.Expr(v))
					}
				}
			}
		}
	}
	r.Check(len(added) == 1 && has(created, added[0]), "file of imports", w.Pos(f.Pos()), "the file given to the compiler is not the one which was written")
	return func(v ssa.Value) bool {
		for _, o := range over {
			if v == o || eng.SameLoad(v, o) {
				return true
			}
		}
		return false
	}
}

// given: v, or what is given for it by the callers when it is a parameter.
func (c *Ctx) given(v ssa.Value) []ssa.Value {
	p, ok := eng.ResolveLocal(v).(*ssa.Parameter)
	if !ok {
		return []ssa.Value{v}
	}
	for i, q := range p.Parent().Params {
		if q != p {
			continue
		}
		var res []ssa.Value
		for _, ci := range c.W.Callers(p.Parent()) {
			if a := eng.ArgOf(ci, i); a != nil {
				res = append(res, a)
			}
		}
		if len(res) > 0 {
			return res
		}
	}
	return []ssa.Value{v}
}

// quoted: the import spec is made of the quoted path.
func (c *Ctx) quoted(v ssa.Value, quotes func(ssa.Value) bool) bool {
	found := false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 6 || v == nil || seen[v] || found {
			return
		}
		seen[v] = true
		v = eng.Unwrap(v)
		if quotes(v) {
			found = true
			return
		}
		al, ok := eng.ResolveLocal(v).(*ssa.Alloc)
		if !ok {
			return
		}
		for _, rr := range *al.Referrers() {
			fa, ok := rr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, s := range *fa.Referrers() {
				if st, ok := s.(*ssa.Store); ok {
					walk(st.Val, d+1)
				}
			}
		}
	}
	walk(v, 0)
	return found
}

// depsLinked: linking.
func (c *Ctx) depsLinked(r *R) {
	w := c.W
	f := r.Fn(aspectPkg, "Weaver.OnLink")
	pf := c.pkgFileField(r)
	if f == nil || pf == nil {
		return
	}
	isPF := c.pkgFileMap(pf)
	var list listVar
	var wl *eng.Loop
	reads := callTo(linkdepsPkg + ".FromArchive")
	for _, l := range eng.Loops(f) {
		has := false
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				has = has || w.LiftExit(reads, w.MaySucceed, nil)(in)
			}
		}
		if !has {
			continue
		}
		if lv := c.worklist(r, "queue", l); lv.ok() {
			list, wl = lv, l
			break
		}
	}
	if !r.Check(wl != nil, "queue", w.Pos(f.Pos()), "archives are not looked at until none is left") {
		return
	}
	isTaken := c.taken(list)
	seen := func(x eng.Lit) bool { return c.hasEntry(x, c.isLocalMap, isTaken) == "found" }
	c.each(r, wl, "every archive", func(in ssa.Instruction) bool {
		ci := isCall(in, linkdepsPkg+".FromArchive")
		return ci != nil && c.bound(ci.Common().Args[1], isTaken)
	}, seen, "the link dependencies of some archive are not looked at")
	c.wholeKeys(r, f, isTaken)
	region := c.Region(f)
	n := 0
	for _, l := range loopsOver([]*ssa.Function{f}, isPF) {
		n++
		c.each(r, l, "every linked archive", func(in ssa.Instruction) bool {
			a := builtinCall(in, "append")
			return a != nil && c.flowsTo(a, list.is)
		}, nil, "an archive given to the linker is not looked at")
	}
	r.Check(n == 1, "linked archives", w.Pos(f.Pos()), "the archives given to the linker are not looked at")
	n = 0
	for _, l := range c.depLoops(region) {
		if !w.Reachable(f)[l.Fn] {
			continue
		}
		n++
		dep := func(v ssa.Value) bool { return c.bound(v, c.depOf(l)) }
		found := func(x eng.Lit) bool { return c.hasEntry(x, isPF, dep) == "found" }
		c.each(r, l, "every dependency resolved", func(in ssa.Instruction) bool {
			call, ok := in.(*ssa.Call)
			return ok && (eng.MKey(call) == aspectPkg+".resolvePackageFilesForTest" || eng.MKey(call) == aspectPkg+".resolvePackageFiles") && dep(call.Call.Args[1])
		}, found, "a link dependency is not given to the linker")
		c.each(r, l, "every dependency merged", func(in ssa.Instruction) bool {
			ci := isCall(in, aspectPkg+".mergeResolvedArchives")
			return ci != nil && c.bound(ci.Common().Args[1], c.isResolved)
		}, found, "the archives of a link dependency are not given to the linker")
	}
	r.Check(n == 1, "dependencies", w.Pos(f.Pos()), "link dependencies are not resolved for the linker")
	isUpd := func(v ssa.Value) bool {
		return c.bound(v, func(x ssa.Value) bool {
			e, ok := x.(*ssa.Extract)
			if !ok || e.Index != 0 {
				return false
			}
			call := callOf(e)
			return call != nil && eng.MKey(call) == aspectPkg+".mergeResolvedArchives"
		})
	}
	var queues []ssa.Instruction
	n = 0
	for _, l := range loopsOver(region, func(v ssa.Value) bool { return isUpd(v) || c.allKeys(v, isUpd) }) {
		if !w.Reachable(f)[l.Fn] || l.Fn != f {
			continue
		}
		n++
		ev := func(in ssa.Instruction) bool {
			a := builtinCall(in, "append")
			return a != nil && c.flowsTo(a, list.is)
		}
		c.each(r, l, "every new archive", ev, nil, "the link dependencies of a newly added archive are not looked at")
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				if ev(in) {
					queues = append(queues, in)
				}
			}
		}
	}
	r.Check(n == 1, "new archives", w.Pos(f.Pos()), "the link dependencies of newly added archives are not looked at")
	ex := &eng.Exploration{W: w, Inline: func(g *ssa.Function) bool { return false }, Event: func(in ssa.Instruction) string {
		for _, q := range queues {
			if in == q {
				return "added"
			}
		}
		if isCall(in, importcfgPkg+".ImportConfig.WriteFile") != nil || w.LiftExit(callTo(importcfgPkg+".ImportConfig.WriteFile"), w.MaySucceed, nil)(in) {
			return "write"
		}
		return ""
	}}
	k := 0
	for _, o := range ex.Run(f) {
		if o.Panics || !o.Has("added") || o.Rets[0].K == eng.ANonNil {
			continue
		}
		k++
		r.Check(o.Has("write"), "configuration written", w.Pos(f.Pos()), "the linker is not given archives that were added")
	}
	r.Check(k > 0 && !ex.Exhausted, "updates", w.Pos(f.Pos()), "cannot tell whether the linker is given the archives that were added")
	c.resolutionKept(r)
	// resolution is complete
	if g := r.Fn(aspectPkg, "resolvePackageFilesForTest"); g != nil {
		ef := r.Field("internal/jobserver/pkgs", "ResolvedArchive", "ExportFile")
		n := 0
		isArchives := func(v ssa.Value) bool {
			return strings.HasSuffix(v.Type().String(), "pkgs.ResolveResponse")
		}
		for _, l := range loopsOver(c.Region(g), isArchives) {
			if !w.Reachable(g)[l.Fn] {
				continue
			}
			n++
			c.each(r, l, "every archive resolved", func(ssa.Instruction) bool { return false }, func(x eng.Lit) bool {
				return emptyLit(x, func(v ssa.Value) bool { return isFieldVal(v, ef) }) == "nonempty"
			}, "a package resolved without an archive is taken for resolved")
		}
		r.Check(n == 1, "archives resolved", w.Pos(g.Pos()), "resolved archives are not checked")
		for _, t := range []struct {
			name, key, file string
			fails           bool
		}{{"complete", "p", "/p.a", false}, {"without the package", "q", "/q.a", true}, {"without an archive", "p", "", true}, {"without an archive for another package", "q", "", true}, {"for tests without the package", "q", "/q.a", true}} {
			ex := &eng.Exploration{W: w, Defers: true, Atom: func(v ssa.Value) (eng.AV, bool) {
				if ef != nil && isFieldVal(v, ef) {
					if _, ok := v.(*ssa.UnOp); ok {
						return eng.AStr(t.file), true
					}
					if _, ok := v.(*ssa.Field); ok {
						return eng.AStr(t.file), true
					}
				}
				if e, ok := v.(*ssa.Extract); ok {
					if nx, ok := e.Tuple.(*ssa.Next); ok && e.Index == 1 && !nx.IsString {
						return eng.AStr(t.key), true
					}
				}
				return eng.AV{}, false
			}, Event: func(in ssa.Instruction) string {
				if e, ok := in.(*ssa.Extract); ok {
					if nx, ok := e.Tuple.(*ssa.Next); ok && e.Index == 1 && !nx.IsString {
						return "seen"
					}
				}
				return ""
			}}
			k, bad := 0, false
			for _, o := range ex.Run(g, eng.ANonNilV(), eng.AStr("p"), eng.AStr(map[bool]string{true: "t"}[strings.HasPrefix(t.name, "for tests")]), eng.AStr("")) {
				if !o.Has("seen") {
					continue
				}
				k++
				bad = bad || o.Panics || t.fails && o.Rets[1].K != eng.ANonNil
			}
			r.Check(k > 0 && !bad && !ex.Exhausted, "resolution "+t.name, w.Pos(g.Pos()), "a resolution %s is taken for a complete one", t.name)
		}
	}
	r.Min(14)
}

func testVariants(c *Ctx) {
	rMerge := c.Rule("merge", "resolved archives never replace the package under test, come from no other test, and replace others only by the right variant")
	rReject := c.Rule("rejected-first", "a dependency which would mix a test variant with archives built without it is rejected before anything is merged")
	rMeta := c.Rule("test-main-metadata", "the package under test recorded in a test main's archive is the one the linker uses")
	c.mergesArchives(rMerge)
	c.rejectsVariants(rReject)
	c.testMainMeta(rMeta)
	c.variantsBuilt()
	c.nestedMains(c.Rule("nested-test-main", "only the test main of the nested load that builds variants is left alone"))
}

func (c *Ctx) mergesArchives(r *R) {
	w := c.W
	f := r.Fn(aspectPkg, "mergeResolvedArchives")
	pf := c.pkgFileField(r)
	ft := r.Field("internal/jobserver/pkgs", "ResolvedArchive", "ForTest")
	ef := r.Field("internal/jobserver/pkgs", "ResolvedArchive", "ExportFile")
	if f == nil || pf == nil || ft == nil || ef == nil {
		return
	}
	isPF := c.pkgFileMap(pf)
	for _, t := range []struct {
		name              string
		key, test, target string
		found             bool
		current           string
		set, fails        bool
	}{
		{"new", "p", "", "t", false, "", true, false},
		{"new, no test", "p", "", "", false, "", true, false},
		{"new variant", "p", "t", "t", false, "", true, false},
		{"present", "p", "", "t", true, "/old.a", false, false},
		{"present, no test", "p", "", "", true, "/old.a", false, false},
		{"present variant", "p", "t", "t", true, "/old.a", true, false},
		{"present same variant", "p", "t", "t", true, "/new.a", false, false},
		{"other test's", "p", "u", "t", false, "", false, true},
		{"other test's, present", "p", "u", "t", true, "/old.a", false, true},
		{"a test's, no test", "p", "u", "", false, "", false, true},
		{"package under test", "t", "", "t", true, "/old.a", false, true},
		{"package under test's variant", "t", "t", "t", true, "/old.a", false, true},
		{"missing package under test", "t", "t", "t", false, "", false, true},
	} {
		got := map[string]bool{}
		isSet := func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && (isFieldVal(mu.Map, pf) || mapStoredIn(mu.Map, pf)) || isCall(in, importcfgPkg+".ImportConfig.SetPackageFile") != nil
		}
		ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
			switch x := v.(type) {
			case *ssa.UnOp, *ssa.Field:
				if isFieldVal(v, ft) {
					return eng.AStr(t.test), true
				}
				if isFieldVal(v, ef) {
					return eng.AStr("/new.a"), true
				}
			case *ssa.Lookup:
				if isPF(x.X) {
					if x.CommaOk {
						return tuple(eng.AStr(t.current), eng.ABool(t.found)), true
					}
					return eng.AStr(t.current), true
				}
			case *ssa.Extract:
				if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 && !nx.IsString {
					return eng.AStr(t.key), true
				}
			}
			return eng.AV{}, false
		}, Event: func(in ssa.Instruction) string {
			if isSet(in) {
				return "set"
			}
			if mu, ok := in.(*ssa.MapUpdate); ok && mu.Parent() == f {
				return "changed"
			}
			if e, ok := in.(*ssa.Extract); ok {
				if nx, ok := e.Tuple.(*ssa.Next); ok && e.Index == 1 && !nx.IsString {
					return "seen"
				}
			}
			return ""
		}, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				got[eval(x.Key).String()+"="+eval(x.Value).String()] = true
			case *ssa.Call:
				if isSet(in) {
					got[eval(x.Call.Args[1]).String()+"="+eval(x.Call.Args[2]).String()] = true
				}
			}
			return false
		}, Inline: func(g *ssa.Function) bool { return eng.PkgOf(g) == eng.PkgOf(f) }}
		k, good := 0, true
		for _, o := range ex.Run(f, eng.ANonNilV(), eng.ANonNilV(), eng.AStr(t.target)) {
			if !o.Has("seen") {
				continue
			}
			k++
			good = good && !o.Panics && o.Has("set") == t.set && o.Has("changed") == t.set && (o.Rets[1].K == eng.ANonNil) == t.fails && (o.Rets[1].K == eng.ANil) == !t.fails
		}
		for g := range got {
			good = good && g == eng.AStr("p").String()+"="+eng.AStr("/new.a").String()
		}
		r.Check(k > 0 && good && !ex.Exhausted, "merged: "+t.name, w.Pos(f.Pos()), "a resolved archive (%s) replaces what it must not, is left out, or is not reported", t.name)
	}
	r.Min(13)
}

func (c *Ctx) rejectsVariants(r *R) {
	w := c.W
	ft := r.Field("internal/jobserver/pkgs", "ResolvedArchive", "ForTest")
	if ft == nil {
		return
	}
	forTest := func(s string) func(ssa.Value) (eng.AV, bool) {
		return func(v ssa.Value) (eng.AV, bool) {
			switch v.(type) {
			case *ssa.UnOp, *ssa.Field:
				if isFieldVal(v, ft) {
					return eng.AStr(s), true
				}
			}
			return eng.AV{}, false
		}
	}
	check := func(f *ssa.Function, name string, sel string, fails bool, params ...eng.AV) {
		ex := &eng.Exploration{W: w, Atom: forTest(sel)}
		outs := ex.Run(f, params...)
		good := len(outs) > 0
		for _, o := range outs {
			good = good && !o.Panics && (o.Rets[0].K == eng.ANonNil) == fails && (o.Rets[0].K == eng.ANil) == !fails
		}
		r.Check(good, short(f)+": "+name, w.Pos(f.Pos()), "mixing a test variant with archives built without it is not rejected exactly when it happens (%s)", name)
	}
	if f := r.Fn(aspectPkg, "rejectResolvedSyntheticVariantDependency"); f != nil {
		for _, t := range []struct {
			name, parent, target, sel string
			imp, fails                bool
		}{
			{"variant imported", "q", "t", "t", true, true},
			{"variant linked", "q", "t", "t", false, false},
			{"no variant", "q", "t", "", true, false},
			{"no test", "q", "", "", true, false},
		} {
			check(f, t.name, t.sel, t.fails, eng.AStr(t.parent), eng.AStr("p"), eng.AStr(t.target), eng.ABool(t.imp))
		}
	}
	if f := r.Fn(aspectPkg, "rejectSatisfiedSyntheticDependency"); f != nil {
		for _, t := range []struct {
			name, dep, target, sel string
			kind                   int64
			fails                  bool
		}{
			{"package under test imported", "t", "t", "t", 1, true},
			{"package under test linked", "t", "t", "t", 0, false},
			{"package under test without a variant", "t", "t", "", 1, false},
			{"another package", "p", "t", "t", 1, false},
			{"no test", "p", "", "", 1, false},
		} {
			check(f, t.name, t.sel, t.fails, eng.AStr("q"), eng.AStr(t.dep), eng.AStr(t.target), eng.AInt(t.kind))
		}
	}
	merge := w.Func(aspectPkg, "mergeResolvedArchives")
	rej := w.CallEvent(func(ci ssa.CallInstruction) bool {
		return eng.MKey(ci) == aspectPkg+".rejectResolvedSyntheticVariantDependency"
	})
	if merge != nil {
		n := 0
		for _, s := range w.Callers(merge) {
			n++
			in := s.(ssa.Instruction)
			ok, _ := w.MustPrecede(in, rej, nil)
			r.Check(ok, "checked before merged in "+short(s.Parent()), w.At(in), "resolved archives are merged without checking the variants they need")
			c.checkErrHandled(r, s)
			// for the same test
			res := callOf(eng.ResolveLocal(s.Common().Args[1]))
			if r.Check(res != nil && c.isResolved(res), "resolution merged in "+short(s.Parent()), w.At(in), "what is merged is not what was just resolved") {
				r.Check(eng.MKey(res) == aspectPkg+".resolvePackageFilesForTest" && c.sameVal(res.Call.Args[2], s.Common().Args[2]), "test of "+short(s.Parent()), w.At(in), "the archives are not resolved for the test they are merged for")
			}
		}
		r.Check(n >= 2, "merges", w.Pos(merge.Pos()), "archives are not merged where link dependencies are resolved")
	}
	for _, fn := range []string{"rejectResolvedSyntheticVariantDependency", "rejectSatisfiedSyntheticDependency", "rejectSyntheticVariantDependency"} {
		if f := w.Func(aspectPkg, fn); f != nil {
			for _, s := range w.Callers(f) {
				c.checkErrHandled(r, s)
			}
		}
	}
	c.variantInputs(r)
	c.strongestKept(r)
	// dependencies that are there already
	pf := c.pkgFileField(r)
	isPF := c.pkgFileMap(pf)
	n := 0
	for _, name := range []string{"initialLinkDependencies", "Weaver.OnCompileMain", "Weaver.OnLink"} {
		f := r.Fn(aspectPkg, name)
		if f == nil {
			continue
		}
		for _, l := range c.depLoops(c.Region(f)) {
			if l.Fn != f {
				continue
			}
			n++
			dep := func(v ssa.Value) bool { return c.bound(v, c.depOf(l)) }
			other := func(v ssa.Value) bool { return !dep(v) && v.Type().String() == "string" && !isStr("")(v) }
			isKind := func(v ssa.Value) bool {
				call := callOf(v)
				return call != nil && eng.MKey(call) == linkdepsPkg+".LinkDeps.Kind"
			}
			isImport := func(v ssa.Value) bool { n, ok := eng.ConstInt(v); return ok && n == 1 }
			isReloc := func(v ssa.Value) bool { n, ok := eng.ConstInt(v); return ok && n == 0 }
			skip := func(x eng.Lit) bool {
				if c.hasEntry(x, isPF, dep) == "missing" || c.hasEntry(x, c.isLocalMap, dep) == "found" {
					return true
				}
				return cmpLit(x, dep, other) == -1 || cmpLit(x, isKind, isImport) == -1 || cmpLit(x, isKind, isReloc) == 1
			}
			// no test: nothing to check
			noTest := func(x eng.Lit) bool { return cmpLit(x, other, isStr("")) == 1 }
			r.Check(l.Always(w.LiftExit(callTo(aspectPkg+".rejectSatisfiedSyntheticDependency"), w.MaySucceed, skip), orLit(skip, noTest)), "satisfied in "+name, w.Pos(f.Pos()), "importing the package under test from link dependencies is not checked")
			if name == "Weaver.OnLink" {
				r.Check(l.Always(w.LiftExit(func(in ssa.Instruction) bool {
					ci := isCall(in, aspectPkg+".resolvePackageFilesForTest")
					return ci != nil && dep(ci.Common().Args[1])
				}, w.MaySucceed, nil), func(x eng.Lit) bool {
					return noTest(x) || cmpLit(x, dep, other) == 1
				}), "resolved for the test in "+name, w.Pos(f.Pos()), "a link dependency of a test is not looked for among the archives built for it")
			}
			// what is known of the package under test is resolved first
			r.Check(l.Always(w.LiftExit(func(in ssa.Instruction) bool {
				call, ok := in.(*ssa.Call)
				return ok && c.isProvenance(call)
			}, w.MaySucceed, nil), orLit(skip, noTest)), "provenance used in "+name, w.Pos(f.Pos()), "the provenance of the package under test is not looked at")
			if name == "initialLinkDependencies" {
				r.Check(l.Always(func(ssa.Instruction) bool { return false }, func(x eng.Lit) bool {
					return c.hasEntry(x, isPF, dep) == "found" || cmpLit(x, dep, other) == -1
				}), "missing package under test", w.Pos(f.Pos()), "a test main without its package under test is not rejected")
			}
		}
	}
	r.Check(n == 3, "satisfied dependencies", "-", "dependencies which are there already are looked at %d times", n)
	r.Min(20)
}

// isProvenance: a call of the resolver of the package under test's provenance.
func (c *Ctx) isProvenance(call *ssa.Call) bool {
	return c.bound(call.Call.Value, func(x ssa.Value) bool {
		o := callOf(x)
		return o != nil && eng.MKey(o) == aspectPkg+".newTestTargetProvenanceResolver"
	})
}

// variantInputs: what decides whether a variant may be used is what was resolved, for the right package and kind.
func (c *Ctx) variantInputs(r *R) {
	w := c.W
	fns := w.FuncsIn(aspectPkg)
	isArchives := func(v ssa.Value) bool { return strings.HasSuffix(v.Type().String(), "pkgs.ResolveResponse") }
	isArchive := func(t types.Type) bool { return strings.HasSuffix(eng.Deref(t).String(), "pkgs.ResolvedArchive") }
	// the archive of the package itself
	if f := w.Func(aspectPkg, "rejectResolvedSyntheticVariantDependency"); f != nil {
		n, good := 0, true
		ex := &eng.Exploration{W: w, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if lk, ok := in.(*ssa.Lookup); ok && isArchives(lk.X) {
				n++
				good = good && eval(lk.Index).String() == eng.AStr("p").String()
			}
			return false
		}}
		ex.Run(f, eng.AStr("q"), eng.AStr("p"), eng.AStr("t"), eng.ABool(true))
		r.Check(n > 0 && good, "archive judged", w.Pos(f.Pos()), "the archive judged is not that of the dependency")
	}
	instrs(fns, func(f *ssa.Function, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !isArchive(fa.X.Type()) {
			return
		}
		// fields of a new record are copied whole
		r.Check(false, "resolved archives kept by "+short(f), w.At(in), "what was resolved is changed")
	})
	r.OK("resolved archives kept", "-")
	// what is asked for
	if f := r.Fn(aspectPkg, "resolvePackageFilesForTest"); f != nil {
		fv := r.Field("internal/jobserver/pkgs", "ResolveRequest", "TestVariantFor")
		for _, t := range []string{"t", ""} {
			asked, good := 0, true
			set := ""
			ex := &eng.Exploration{W: w, Defers: true, Event: func(in ssa.Instruction) string {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && eng.FieldVar(fa) == fv {
						return "set"
					}
				}
				return ""
			}, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && eng.FieldVar(fa) == fv {
						set = eval(s.Val).String()
						good = good && set == eng.AStr(t).String()
					}
				}
				return false
			}, AtomEv: func(call *ssa.Call, happened func(string) bool) (eng.AV, bool) {
				if strings.HasSuffix(eng.MKey(call), "jobserver/client.Request") {
					asked++
					good = good && (t == "" || happened("set"))
				}
				return eng.AV{}, false
			}}
			for _, pkg := range []string{"p", "t"} {
				ex.Run(f, eng.ANonNilV(), eng.AStr(pkg), eng.AStr(t), eng.AStr(""))
			}
			r.Check(asked > 0 && good, "asked for the test", w.Pos(f.Pos()), "archives are not resolved for the package under test they are asked for")
		}
	}
	// whose provenance
	if f := r.Fn(aspectPkg, "newTestTargetProvenanceResolver"); f != nil {
		target := func(v ssa.Value) bool {
			return c.bound(v, func(x ssa.Value) bool { return x == ssa.Value(f.Params[1]) }) || c.capturedParam(v, f.Params[1])
		}
		n := 0
		for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
			for _, ci := range eng.Calls(g) {
				if eng.MKey(ci) == aspectPkg+".resolvePackageFilesForTest" {
					n++
					a := ci.Common().Args
					r.Check(target(a[1]) && target(a[2]), "provenance resolved", w.At(ci.(ssa.Instruction)), "the provenance is not that of the package under test")
					c.checkErrHandled(r, ci)
				}
			}
			instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
				if lk, ok := in.(*ssa.Lookup); ok && isArchives(lk.X) {
					n++
					r.Check(target(lk.Index), "provenance selected", w.At(in), "the provenance is not that of the package under test")
				}
			})
		}
		r.Check(n >= 2, "provenance", w.Pos(f.Pos()), "the provenance of the package under test is not resolved")
	}
	// kinds
	isKind := func(v ssa.Value) bool {
		call := callOf(eng.ResolveLocal(v))
		if call != nil && eng.MKey(call) == linkdepsPkg+".LinkDeps.Kind" {
			return true
		}
		return strings.HasSuffix(v.Type().String(), "linkdeps.DependencyKind") && !isConst(v)
	}
	n := 0
	for fn, i := range map[string]int{"rejectResolvedSyntheticVariantDependency": 3, "rejectSyntheticVariantDependency": 3} {
		f := w.Func(aspectPkg, fn)
		if f == nil {
			continue
		}
		for _, s := range w.Callers(f) {
			n++
			a := eng.ArgOf(s, i)
			if p, ok := a.(*ssa.Parameter); ok && strings.HasPrefix(p.Parent().Name(), "reject") {
				r.OK("kind considered by "+short(s.Parent()), w.At(s.(ssa.Instruction)))
				continue
			}
			bo, ok := eng.ResolveLocal(a).(*ssa.BinOp)
			good := false
			if ok {
				x, y := bo.X, bo.Y
				if isConst(x) {
					x, y = y, x
				}
				k, isC := eng.ConstInt(y)
				good = isC && isKind(x) && (bo.Op == token.EQL && k == 1 || bo.Op == token.NEQ && k == 0 || bo.Op == token.GTR && k == 0)
			}
			r.Check(good, "kind considered by "+short(s.Parent()), w.At(s.(ssa.Instruction)), "imports are not told from link names when deciding whether a variant may be used")
		}
	}
	r.Check(n >= 4, "kinds considered", "-", "variants are judged at %d places", n)
}

// capturedParam: v is a variable captured by a closure, holding the parameter.
func (c *Ctx) capturedParam(v ssa.Value, p *ssa.Parameter) bool {
	if fv, ok := v.(*ssa.FreeVar); ok {
		for i, x := range fv.Parent().FreeVars {
			if x == fv {
				for _, mc := range c.W.ClosureSites(fv.Parent()) {
					if mc.Bindings[i] != ssa.Value(p) && eng.ResolveLocal(mc.Bindings[i]) != ssa.Value(p) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// strongestKept: of several reasons for a dependency, imports (which can be refused) are the ones remembered,
// and so are the variants which were used.
func (c *Ctx) strongestKept(r *R) {
	w := c.W
	strong := r.Fn(aspectPkg, "strongestPendingLinkDep")
	kf := r.Field(aspectPkg, "pendingLinkDep", "kind")
	pf := c.pkgFileField(r)
	ft := r.Field("internal/jobserver/pkgs", "ResolvedArchive", "ForTest")
	if strong == nil || kf == nil || pf == nil || ft == nil {
		return
	}
	isPF := c.pkgFileMap(pf)
	ofParam := func(v ssa.Value, p *ssa.Parameter) bool {
		switch x := v.(type) {
		case *ssa.Field:
			return x.X == ssa.Value(p)
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			al, ok := fa.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, rr := range *al.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(al) && st.Val == ssa.Value(p) {
					return true
				}
			}
		}
		return false
	}
	for _, t := range [][2]int64{{0, 1}, {1, 0}} {
		ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
			if isFieldVal(v, kf) {
				for i := range t {
					if ofParam(v, strong.Params[i]) {
						return eng.AInt(t[i]), true
					}
				}
			}
			return eng.AV{}, false
		}}
		want := strong.Params[0]
		if t[1] > t[0] {
			want = strong.Params[1]
		}
		k, good := 0, true
		for _, o := range ex.Run(strong) {
			k++
			ret, ok := o.Exit.(*ssa.Return)
			good = good && ok && !o.Panics
			if !good {
				break
			}
			v := ret.Results[0]
			is := eng.ResolveLocal(v) == ssa.Value(want)
			if u, ok := v.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok {
					for _, rr := range *al.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(al) && st.Val == ssa.Value(want) {
							is = true
						}
					}
				}
			}
			good = is
		}
		r.Check(k > 0 && good, "strongest of two", w.Pos(strong.Pos()), "the weaker of two reasons for a link dependency is kept")
	}
	// applied whenever there is one already
	f := r.Fn(aspectPkg, "Weaver.OnCompileMain")
	if f == nil {
		return
	}
	n := 0
	for _, l := range c.depLoops(c.Region(f)) {
		if !w.Reachable(f)[l.Fn] {
			continue
		}
		n++
		dep := func(v ssa.Value) bool { return c.bound(v, c.depOf(l)) }
		isPending := func(v ssa.Value) bool {
			return c.isLocalMap(v) && strings.HasSuffix(v.Type().String(), "aspect.pendingLinkDep")
		}
		isProcessed := func(v ssa.Value) bool {
			return c.isLocalMap(v) && strings.HasSuffix(v.Type().String(), "pkgs.ResolvedArchive")
		}
		entryOf := func(isMap func(ssa.Value) bool) func(ssa.Value) bool {
			return func(v ssa.Value) bool {
				return c.bound(v, func(x ssa.Value) bool {
					if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
						x = e.Tuple
					}
					lk, ok := x.(*ssa.Lookup)
					return ok && isMap(lk.X) && dep(lk.Index)
				})
			}
		}
		isCurrent := entryOf(isPending)
		kept := func(in ssa.Instruction) bool {
			call := isCall(in, aspectPkg+".strongestPendingLinkDep")
			if call == nil || !isCurrent(call.Common().Args[0]) && !isCurrent(call.Common().Args[1]) {
				return false
			}
			found := false
			instrs([]*ssa.Function{in.Parent()}, func(_ *ssa.Function, x ssa.Instruction) {
				mu, ok := x.(*ssa.MapUpdate)
				if ok && isPending(mu.Map) && dep(mu.Key) && c.derives(mu.Value, func(o ssa.Value) bool { return o == ssa.Value(call.(*ssa.Call)) }) {
					found = true
				}
			})
			return found
		}
		r.Check(l.Always(w.LiftExit(kept, w.MaySucceed, nil), func(x eng.Lit) bool {
			return c.hasEntry(x, isPending, dep) == "missing" || c.hasEntry(x, isPF, dep) == "found"
		}), "strongest kept in "+short(l.Fn), w.Pos(l.Fn.Pos()), "the strongest reason for a pending link dependency is not remembered")
		if w.Reachable(w.Func(aspectPkg, "initialLinkDependencies"))[l.Fn] {
			continue
		}
		// those resolved already
		isPrevious := entryOf(isProcessed)
		r.Check(l.Always(w.LiftExit(func(in ssa.Instruction) bool {
			ci := isCall(in, aspectPkg+".rejectSyntheticVariantDependency")
			return ci != nil && isPrevious(ci.Common().Args[4])
		}, w.MaySucceed, nil), func(x eng.Lit) bool {
			return c.hasEntry(x, isPending, dep) == "found" || c.hasEntry(x, isProcessed, dep) == "missing"
		}), "resolved ones judged again", w.Pos(l.Fn.Pos()), "a dependency which was resolved as a test variant can be imported by others")
	}
	r.Check(n == 2, "pending", w.Pos(f.Pos()), "pending link dependencies are kept at %d places", n)
	// variants used are remembered
	n = 0
	isResolved := func(v ssa.Value) bool { return c.bound(v, c.isResolved) }
	for _, l := range loopsOver(c.Region(f), isResolved) {
		if !w.Reachable(f)[l.Fn] || l.Next == nil {
			continue
		}
		var ups []*ssa.MapUpdate
		rec := func(in ssa.Instruction) bool {
			mu, ok := in.(*ssa.MapUpdate)
			return ok && strings.HasSuffix(mu.Map.Type().String(), "pkgs.ResolvedArchive") && l.IsKey(mu.Key) && l.IsElem(eng.ResolveLocal(mu.Value))
		}
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				if rec(in) {
					ups = append(ups, in.(*ssa.MapUpdate))
				}
			}
		}
		if len(ups) == 0 {
			continue
		}
		n++
		elemFT := func(v ssa.Value) bool { return isFieldVal(v, ft) && c.elemPart(l)(v) }
		curFT := func(v ssa.Value) bool { return isFieldVal(v, ft) && !c.elemPart(l)(v) }
		isMap := func(v ssa.Value) bool { return strings.HasSuffix(v.Type().String(), "pkgs.ResolvedArchive") }
		r.Check(l.Always(rec, func(x eng.Lit) bool { return emptyLit(x, elemFT) == "empty" }), "variants remembered", w.Pos(f.Pos()), "a test variant which was used is not remembered")
		r.Check(l.Always(rec, func(x eng.Lit) bool { return c.hasEntry(x, isMap, l.IsKey) == "found" }), "resolved ones remembered", w.Pos(f.Pos()), "what was resolved is not remembered")
		for _, u := range ups {
			r.Check(w.MustHold(u, func(x eng.Lit) bool {
				return c.hasEntry(x, isMap, l.IsKey) == "missing" || emptyLit(x, elemFT) == "nonempty" || emptyLit(x, curFT) == "empty"
			}), "variants not forgotten", w.At(u), "a test variant which was used is forgotten")
		}
	}
	r.Check(n == 1, "resolved", w.Pos(f.Pos()), "what was resolved is remembered at %d places", n)
}

// sameVal: both are the same value, possibly kept in a variable.
func (c *Ctx) sameVal(a, b ssa.Value) bool {
	ra, rb := eng.ResolveLocal(a), eng.ResolveLocal(b)
	return a == b || ra == rb || eng.SameLoad(ra, rb) || eng.SameLoad(a, b) || c.W.Expr(a) == c.W.Expr(b)
}

func (c *Ctx) testMainMeta(r *R) {
	w := c.W
	at := r.Fn(proxyPkg, "CompileCommand.attachTestMain")
	rd := r.Fn(proxyPkg, "readTestMain")
	tv := r.Fn(proxyPkg, "LinkCommand.TestVariantFor")
	mark := r.Fn(proxyPkg, "CompileCommand.MarkTestMain")
	fv := r.Field(proxyPkg, "CompileCommand", "testVariantFor")
	if at == nil || rd == nil || tv == nil || mark == nil || fv == nil {
		return
	}
	// written
	header, name := "", ""
	for _, g := range c.Region(at) {
		for _, ci := range eng.Calls(g) {
			if eng.Key(ci) == "github.com/blakesmith/ar.Writer.WriteHeader" {
				c.entryHeader(r, ci, proxyPkg)
				c.checkErrHandled(r, ci)
				w.Origins(ci.Common().Args[1], func(o ssa.Value) eng.Step {
					if al, ok := o.(*ssa.Alloc); ok {
						for _, rr := range *al.Referrers() {
							if fa, ok := rr.(*ssa.FieldAddr); ok && eng.FieldVar(fa).Name() == "Name" {
								for _, s := range *fa.Referrers() {
									if st, ok := s.(*ssa.Store); ok {
										name, _ = eng.ConstString(st.Val)
									}
								}
							}
						}
						return eng.Stop
					}
					return eng.Follow
				})
				continue
			}
			parts, ok := writtenBy(ci)
			if !ok {
				continue
			}
			c.checkErrHandled(r, ci)
			var n []part
			for _, p := range parts {
				if p.v == nil && len(n) > 0 && n[len(n)-1].v == nil {
					n[len(n)-1].s += p.s
					continue
				}
				n = append(n, p)
			}
			good := len(n) == 3 && strings.HasSuffix(n[0].s, "\n") && n[1].v != nil && isFieldVal(n[1].v, fv) && n[2].s == "\n"
			if r.Check(good, "metadata", w.At(ci.(ssa.Instruction)), "the package under test is not what is recorded") {
				header = strings.TrimSuffix(n[0].s, "\n")
			}
		}
	}
	c.mustDo(r, "metadata attached", at, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		_, ok = writtenBy(ci)
		return ok
	}, c.succeeding, func(l eng.Lit) bool {
		if call := callOf(l.V); call != nil && eng.Key(call) == "errors.Is" {
			return l.Pol && strings.HasSuffix(globalOf(call.Call.Args[1]), "ErrNotExist")
		}
		return emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, fv) }) == "empty"
	}, "the package under test is not recorded")
	for _, s := range w.FieldStores(fv) {
		r.Check(eng.Root(s.Instr.Parent()) == mark && s.Val == ssa.Value(mark.Params[1]), "marked by "+short(s.Instr.Parent()), w.At(s.Instr), "the package under test recorded is not the one given")
	}
	// marked, for test mains, with their package
	if f := r.Fn(aspectPkg, "Weaver.OnCompileMain"); f != nil {
		n := 0
		for _, ci := range c.callsKey(c.Region(f), proxyPkg+".CompileCommand.MarkTestMain") {
			n++
			merged := false
			for _, m := range c.callsKey(c.Region(f), aspectPkg+".mergeResolvedArchives") {
				merged = merged || c.derives(m.Common().Args[2], func(o ssa.Value) bool { return o == ci.Common().Args[1] || eng.ResolveLocal(ci.Common().Args[1]) == o })
			}
			r.Check(merged, "marked with its target", w.At(ci.(ssa.Instruction)), "a test main is marked with something else than the package whose variants it uses")
			ip := r.Field(aspectPkg, "Weaver", "ImportPath")
			call := callOf(eng.ResolveLocal(ci.Common().Args[1]))
			good := call != nil && eng.Key(call) == "strings.TrimSuffix" && isFieldVal(call.Call.Args[0], ip) && isStr(".test")(call.Call.Args[1])
			r.Check(good, "target of test main", w.At(ci.(ssa.Instruction)), "the package under test is not the test main's path without .test")
		}
		r.Check(n == 1, "test main marked", w.Pos(f.Pos()), "test mains are not marked")
		isTM := func(x eng.Lit) int {
			call := callOf(x.V)
			if call == nil || eng.MKey(call) != proxyPkg+".CompileCommand.TestMain" {
				return 0
			}
			if x.Pol {
				return 1
			}
			return -1
		}
		isTest := func(x eng.Lit) int {
			call := callOf(x.V)
			if call == nil || eng.Key(call) != "strings.HasSuffix" || !isStr(".test")(call.Call.Args[1]) {
				return 0
			}
			if x.Pol {
				return 1
			}
			return -1
		}
		for _, ci := range c.callsKey(c.Region(f), proxyPkg+".CompileCommand.MarkTestMain") {
			in := ci.(ssa.Instruction)
			r.Check(w.MustHold(in, func(x eng.Lit) bool { return isTM(x) == 1 }) && w.MustHold(in, func(x eng.Lit) bool { return isTest(x) == 1 }), "only test mains marked", w.At(in), "something else than a test main is marked as one")
		}
		pk := w.Field(proxyPkg, "compileFlagSet", "Package")
		c.mustDo(r, "test mains marked", f, callTo(proxyPkg+".CompileCommand.MarkTestMain"), c.succeeding, func(x eng.Lit) bool {
			if call := callOf(x.V); call != nil && strings.HasSuffix(eng.MKey(call), "pkgs.ResolvingTestVariants") {
				return x.Pol
			}
			return w.Implies(x, func(x eng.Lit) bool { return isTM(x) == -1 || isTest(x) == -1 }) || cmpLit(x, func(v ssa.Value) bool { return isFieldVal(v, pk) }, isStr("main")) == -1
		}, "a test main is not marked as one")
	}
	// read
	for _, t := range []struct {
		name  string
		lines []string
		val   string
		fails bool
	}{
		{"good", []string{header, "a/b"}, "a/b", false},
		{"other header", []string{"x", "a/b"}, "", true},
		{"empty", nil, "", true},
		{"no target", []string{header}, "", true},
		{"blank target", []string{header, "  "}, "", true},
		{"more", []string{header, "a/b", "c"}, "", true},
	} {
		k := -1
		cur := ""
		ex := &eng.Exploration{W: w, Defers: true, Atom: func(v ssa.Value) (eng.AV, bool) {
			switch x := v.(type) {
			case *ssa.Call:
				switch eng.Key(x) {
				case "os.Open":
					return tuple(eng.ANonNilV(), eng.ANilV()), true
				case "io.ReadFull", "os.File.Seek":
					return tuple(eng.AUnk(), eng.ANilV()), true
				case "bytes.Equal":
					return eng.ABool(true), true
				case "github.com/blakesmith/ar.Reader.Next":
					return tuple(eng.ANonNilV(), eng.ANilV()), true
				case "errors.Is":
					return eng.ABool(false), true
				case "bufio.Scanner.Err":
					return eng.ANilV(), true
				}
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && eng.FieldVar(fa).Name() == "Name" && strings.HasSuffix(eng.Deref(fa.X.Type()).String(), "ar.Header") {
					return eng.AStr(name), true
				}
			}
			return eng.AV{}, false
		}, AtomEv: func(call *ssa.Call, _ func(string) bool) (eng.AV, bool) {
			switch eng.Key(call) {
			case "bufio.Scanner.Scan":
				k++
				if k < len(t.lines) {
					cur = t.lines[k]
				}
				return eng.ABool(k < len(t.lines)), true
			case "bufio.Scanner.Text":
				return eng.AStr(cur), true
			}
			return eng.AV{}, false
		}}
		outs := ex.Run(rd)
		good := len(outs) == 1 && header != ""
		for _, o := range outs {
			good = good && !o.Panics && (o.Rets[2].K == eng.ANonNil) == t.fails && (o.Rets[2].K == eng.ANil) == !t.fails
			if good && !t.fails {
				good = o.Rets[0].String() == eng.AStr(t.val).String() && o.Rets[1].IsTrue()
			}
		}
		r.Check(good, "read: "+t.name, w.Pos(rd.Pos()), "the package under test of a test main is not read as it was recorded (%s)", t.name)
	}
	// of every input
	in := r.Field(proxyPkg, "LinkCommand", "Inputs")
	n := 0
	for _, l := range loopsOver(c.Region(tv), func(v ssa.Value) bool { return isFieldVal(v, in) }) {
		n++
		c.each(r, l, "every input", func(x ssa.Instruction) bool {
			ci := isCall(x, proxyPkg+".readTestMain")
			return ci != nil && c.bound(ci.Common().Args[0], l.IsElem)
		}, nil, "some input of the linker is not looked at")
	}
	r.Check(n == 1, "inputs", w.Pos(tv.Pos()), "the inputs of the linker are not looked at")
	for _, t := range []struct {
		name string
		is   bool
		val  string
		err  bool
	}{{"test main", true, "a/b", false}, {"no test main", false, "", false}, {"unreadable", false, "", true}} {
		ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
			if call, ok := v.(*ssa.Call); ok && eng.MKey(call) == proxyPkg+".readTestMain" {
				e := eng.ANilV()
				if t.err {
					e = eng.ANonNilV()
				}
				return tuple(eng.AStr(t.val), eng.ABool(t.is), e), true
			}
			return eng.AV{}, false
		}, Event: func(x ssa.Instruction) string {
			if isCall(x, proxyPkg+".readTestMain") != nil {
				return "read"
			}
			return ""
		}}
		k, good := 0, true
		for _, o := range ex.Run(tv) {
			if !o.Has("read") {
				continue
			}
			k++
			good = good && !o.Panics && (o.Rets[2].K == eng.ANonNil) == t.err && (t.err || o.Rets[0].String() == eng.AStr(t.val).String())
		}
		r.Check(k > 0 && good, "target: "+t.name, w.Pos(tv.Pos()), "the package under test the linker uses is not the one recorded (%s)", t.name)
	}
	if f := r.Fn(aspectPkg, "Weaver.OnLink"); f != nil {
		for _, m := range c.callsKey(c.Region(f), aspectPkg+".mergeResolvedArchives") {
			r.Check(!w.Reachable(f)[m.Parent()] || m.Parent() != f || c.derivesCall(m.Common().Args[2], proxyPkg+".LinkCommand.TestVariantFor"), "target used by OnLink", w.At(m.(ssa.Instruction)), "the linker does not use the package under test that was recorded")
		}
	}
	r.Min(14)
}

// wholeKeys: an archive is told from others by all there is to tell them apart.
func (c *Ctx) wholeKeys(r *R, f *ssa.Function, isTaken func(ssa.Value) bool) {
	w := c.W
	readFields := map[*types.Var]bool{}
	for _, ci := range eng.Calls(f) {
		if eng.MKey(ci) == linkdepsPkg+".FromArchive" {
			if fv := loadedField(ci.Common().Args[1]); fv != nil {
				readFields[fv] = true
			}
		}
	}
	n := 0
	check := func(in ssa.Instruction, m, key ssa.Value) {
		if !c.isLocalMap(m) || !c.bound(key, isTaken) {
			return
		}
		n++
		good := true
		if _, ok := key.Type().Underlying().(*types.Struct); ok {
			if u, ok := key.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok {
					for _, rr := range *al.Referrers() {
						fa, ok := rr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						for _, fr := range *fa.Referrers() {
							if s, ok := fr.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
								good = good && c.wholeLiteral(al)
							}
						}
					}
				}
			}
		} else if fv := loadedField(key); fv != nil {
			good = readFields[fv]
		}
		r.Check(good, "archives told apart", w.At(in), "different archives are taken for the same: only one of them is looked at")
	}
	instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Lookup:
			check(in, x.X, x.Index)
		case *ssa.MapUpdate:
			check(in, x.Map, x.Key)
		}
	})
	r.Check(n >= 2, "archives looked at", w.Pos(f.Pos()), "archives looked at are not remembered")
}

// wholeLiteral: every field of the structure is set.
func (c *Ctx) wholeLiteral(al *ssa.Alloc) bool {
	st, ok := eng.Deref(al.Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	set := map[int]bool{}
	for _, rr := range *al.Referrers() {
		if fa, ok := rr.(*ssa.FieldAddr); ok {
			for _, fr := range *fa.Referrers() {
				if s, ok := fr.(*ssa.Store); ok && s.Addr == ssa.Value(fa) && !isConst(s.Val) {
					set[fa.Field] = true
				}
			}
		}
	}
	return len(set) == st.NumFields()
}

// resolutionKept: the job server's answer has every package the go command loaded, even those it has no archive of.
func (c *Ctx) resolutionKept(r *R) {
	w := c.W
	f := r.Fn(resolvePkg, "ResolveResponse.mergeFrom")
	if f == nil {
		return
	}
	type pk struct {
		id, file string
		errs     int
		imports  []string
	}
	for _, s := range []struct {
		name  string
		ps    []pk
		want  string
		fails bool
	}{
		{"one", []pk{{"a", "a.a", 0, nil}}, "a", false},
		{"imports", []pk{{"a", "a.a", 0, []string{"b", "d"}}, {"b", "b.a", 0, nil}, {"d", "d.a", 0, nil}}, "a b d", false},
		{"imports of imports", []pk{{"a", "a.a", 0, []string{"b"}}, {"b", "b.a", 0, []string{"d"}}, {"d", "d.a", 0, nil}}, "a b d", false},
		{"no archive", []pk{{"a", "", 0, []string{"b"}}, {"b", "b.a", 0, nil}}, "a b", false},
		{"an import without archive", []pk{{"a", "a.a", 0, []string{"b"}}, {"b", "", 0, []string{"d"}}, {"d", "d.a", 0, nil}}, "a b d", false},
		{"unsafe", []pk{{"a", "a.a", 0, []string{"unsafe"}}, {"unsafe", "", 0, nil}}, "a", false},
		{"errors", []pk{{"a", "a.a", 1, nil}}, "", true},
		{"errors of an import", []pk{{"a", "a.a", 0, []string{"b"}}, {"b", "b.a", 2, nil}}, "", true},
	} {
		objs := map[string]eng.AV{}
		for _, p := range s.ps {
			objs[p.id+".ID"], objs[p.id+".PkgPath"], objs[p.id+".ExportFile"] = eng.AStr(p.id), eng.AStr(p.id), eng.AStr(p.file)
			objs[p.id+".Imports"] = sym("map@" + p.id)
			for _, i := range p.imports {
				objs["map@"+p.id+"["+eng.AStr(i).String()+"]"] = sym(i)
			}
			var es []eng.AV
			for range p.errs {
				es = append(es, sym("err"))
			}
			objs[p.id+".Errors"] = eng.AListOf(*listOf("", es...))
		}
		ex := &eng.Exploration{W: w, Lists: true, Ranges: true, Objs: objs, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == resolvePkg }}
		ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			if eng.Key(x) == "errors.Join" {
				if a := eval(x.Call.Args[0]); a.K == eng.AList && a.L != nil && a.L.Rest == "" {
					for _, e := range a.L.Pre {
						if e.K != eng.ANil {
							return sym("joined"), true
						}
					}
					return eng.ANilV(), true
				}
			}
			return eng.AV{}, false
		}
		seen := r.Field(resolvePkg, "ResolvedArchive", "ExportFile")
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			// nothing is reached twice here
			if x, ok := v.(*ssa.Field); ok && isFieldVal(x, seen) {
				return eng.AStr(""), true
			}
			if x, ok := v.(*ssa.UnOp); ok && isFieldVal(x, seen) {
				return eng.AStr(""), true
			}
			return eng.AV{}, false
		}
		got := map[string]bool{}
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if n := eng.NamedOf(mu.Value.Type()); n != nil && n.Obj().Name() == "ResolvedArchive" {
					k, _ := eng.ConstAV(eval(mu.Key))
					got[k] = true
				}
			}
			return false
		}
		outs := ex.Run(f, sym("map@response"), sym("a"))
		good := len(outs) > 0 && !ex.Exhausted
		for _, o := range outs {
			good = good && !o.Panics && o.Rets[0].K != eng.AUnknown && (o.Rets[0].K == eng.ANil) == !s.fails
		}
		r.Check(good, "resolved: "+s.name, w.Pos(f.Pos()), "errors of resolved packages are not reported as they are")
		r.Check(s.fails || join2(keysOf(got)) == s.want, "answered: "+s.name, w.Pos(f.Pos()), "the packages answered are %s, expected: %s", join(keysOf(got)), s.want)
	}
}
