package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

const importcfgPkg = "internal/toolexec/importcfg"

func init() {
	register(&Prop{ID: "T03", Technique: "abstract evaluation of the parser on every class of line, loop-completeness and text-template analysis of the writer, abstract evaluation of lookups, effect analysis of the tables", Run: importConfigs})
}

func importConfigs(c *Ctx) {
	rParse := c.Rule("parsed-or-kept", "every line of an import configuration is understood as the Go tools do, or kept as it is")
	rWrite := c.Rule("written-whole", "an import configuration is written with all its entries, each on a line of its own, and a failure is reported")
	rLook := c.Rule("lookup", "the archive of a package is looked up through the import map")
	rMerge := c.Rule("merge", "merging import configurations adds entries without replacing any")
	rEff := c.Rule("tables-kept", "nothing is ever removed from an import configuration")
	pf := rParse.Field(importcfgPkg, "ImportConfig", "PackageFile")
	im := rParse.Field(importcfgPkg, "ImportConfig", "ImportMap")
	ext := rParse.Field(importcfgPkg, "ImportConfig", "Extras")
	if pf == nil || im == nil || ext == nil {
		return
	}
	c.parsesLines(rParse, pf, im, ext)
	c.writesConfig(rWrite, pf, im, ext)
	c.looksUp(rLook, pf, im)
	c.combines(rMerge, pf)
	c.tablesKept(rEff, pf, im, ext)
}

func (c *Ctx) parsesLines(r *R, pf, im, ext *types.Var) {
	w := c.W
	parse := r.Fn(importcfgPkg, "parse")
	file := r.Fn(importcfgPkg, "ParseFile")
	if parse == nil || file == nil {
		return
	}
	pos := w.Pos(parse.Pos())
	for _, t := range []struct{ line, kind, key, val string }{
		{"packagefile a/b=/x/y.a", "PackageFile", "a/b", "/x/y.a"},
		{"packagefile a/b=/x=1/y.a", "PackageFile", "a/b", "/x=1/y.a"},
		{"  packagefile a/b=/x/y.a ", "PackageFile", "a/b", "/x/y.a"},
		{"packagefile a/b [a/b.test]=/x y/z.a", "PackageFile", "a/b [a/b.test]", "/x y/z.a"},
		{"importmap a/b=vendor/a/b", "ImportMap", "a/b", "vendor/a/b"},
		{"packageshlib a/b=/x.so", "Extras", "packageshlib a/b=/x.so", ""},
		{"modinfo \"a=b\\n\"", "Extras", "modinfo \"a=b\\n\"", ""},
		{"packagefile nothing", "Extras", "packagefile nothing", ""},
		{"importmap nothing", "Extras", "importmap nothing", ""},
		{"packagefile", "Extras", "packagefile", ""},
		{"whatever=1", "Extras", "whatever=1", ""},
		{"# import config", "", "", ""},
		{"", "", "", ""},
		{"   ", "", "", ""},
	} {
		var got []string
		rec := func(s string) {
			if !has(got, s) {
				got = append(got, s)
			}
		}
		sink := func(in ssa.Instruction) (string, []ssa.Value) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if isFieldVal(x.Map, pf) || mapStoredIn(x.Map, pf) {
					return "PackageFile", []ssa.Value{x.Key, x.Value}
				}
				if isFieldVal(x.Map, im) || mapStoredIn(x.Map, im) {
					return "ImportMap", []ssa.Value{x.Key, x.Value}
				}
			case *ssa.Call:
				if a := builtinCall(x, "append"); a != nil && isFieldVal(a.Call.Args[0], ext) {
					return "Extras", eng.VarArgs(a.Call.Args[1])
				}
			}
			return "", nil
		}
		scan := func(call *ssa.Call) bool { return eng.Key(call) == "bufio.Scanner.Scan" }
		ex := &eng.Exploration{W: w, Repeat: true, Defers: true,
			Atom: func(v ssa.Value) (eng.AV, bool) {
				if call, ok := v.(*ssa.Call); ok {
					switch eng.Key(call) {
					case "bufio.Scanner.Text":
						return eng.AStr(t.line), true
					case "bufio.Scanner.Err":
						return eng.ANilV(), true
					}
				}
				return eng.AV{}, false
			},
			AtomEv: func(call *ssa.Call, happened func(string) bool) (eng.AV, bool) {
				if scan(call) {
					return eng.ABool(!happened("scan+")), true
				}
				return eng.AV{}, false
			},
			Event: func(in ssa.Instruction) string {
				if call, ok := in.(*ssa.Call); ok && scan(call) {
					return "scan"
				}
				if k, _ := sink(in); k != "" {
					return "sink"
				}
				return ""
			},
			At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				if k, vs := sink(in); k != "" {
					s := k
					for _, v := range vs {
						if v == nil {
							s += " ?"
							continue
						}
						s += " " + eval(v).String()
					}
					rec(s)
				}
				return false
			},
		}
		want := ""
		switch {
		case t.val != "":
			want = t.kind + " " + eng.AStr(t.key).String() + " " + eng.AStr(t.val).String()
		case t.kind != "":
			want = t.kind + " " + eng.AStr(t.key).String()
		}
		outs := ex.Run(parse)
		good := len(outs) > 0 && !ex.Exhausted
		for _, o := range outs {
			good = good && !o.Panics && o.Has("scan+") && o.Has("sink") == (want != "") && !o.Has("sink+") && o.Rets[len(o.Rets)-1].K == eng.ANil
		}
		good = good && (want == "" && len(got) == 0 || len(got) == 1 && got[0] == want)
		r.Check(good, "line "+t.line, pos, "the line %q is not taken as %q, but as %q", t.line, want, join(got))
	}
	// failures
	for _, f := range []*ssa.Function{parse, file} {
		for _, fail := range []string{"bufio.Scanner.Err", "os.Open", "parse"} {
			if f == parse && fail != "bufio.Scanner.Err" || f == file && fail == "bufio.Scanner.Err" {
				continue
			}
			is := func(v ssa.Value) bool {
				call, ok := v.(*ssa.Call)
				return ok && (eng.Key(call) == fail || fail == "os.Open" && (eng.Key(call) == "os.ReadFile" || eng.Key(call) == "os.OpenFile") || fail == "parse" && eng.MKey(call) == importcfgPkg+".parse")
			}
			ex := &eng.Exploration{W: w, Defers: true, Atom: func(v ssa.Value) (eng.AV, bool) {
				if is(v) {
					if v.Type().String() == "error" {
						return eng.ANonNilV(), true
					}
					return tuple(eng.AUnk(), eng.ANonNilV()), true
				}
				return eng.AV{}, false
			}, Event: func(in ssa.Instruction) string {
				if v, ok := in.(ssa.Value); ok && is(v) {
					return "failed"
				}
				return ""
			}}
			seen := false
			for _, o := range ex.Run(f) {
				if o.Has("failed") {
					seen = true
					r.Check(!o.Panics && o.Rets[len(o.Rets)-1].K == eng.ANonNil, "failing "+fail, w.Pos(f.Pos()), "a failure to read an import configuration is not reported")
				}
				r.Check(o.Panics || o.Has("failed") || fail != "bufio.Scanner.Err" || o.Rets[len(o.Rets)-1].K == eng.ANonNil, "failing to scan", w.Pos(f.Pos()), "reading can succeed without knowing whether all lines were read")
			}
			r.Check(seen, "failing "+fail+" seen", w.Pos(f.Pos()), "cannot tell that a failure of %s is reported", fail)
		}
	}
	r.Min(17)
}

// part of a text: a constant, or a value.
type part struct {
	s string
	v ssa.Value
}

// textOf decomposes the text of a value.
func textOf(v ssa.Value) []part {
	v = eng.Unwrap(v)
	if s, ok := eng.ConstString(v); ok {
		return []part{{s: s}}
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return append(textOf(x.X), textOf(x.Y)...)
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return textOf(x.X)
		}
	case *ssa.Call:
		switch eng.Key(x) {
		case "fmt.Sprintf":
			return formatted(x.Call.Args[0], x.Call.Args[1])
		}
	}
	return []part{{v: v}}
}

// formatted decomposes a format with its arguments.
func formatted(format, args ssa.Value) []part {
	f, ok := eng.ConstString(format)
	if !ok {
		return nil
	}
	vs := eng.VarArgs(args)
	var res []part
	i := 0
	for {
		k := strings.IndexByte(f, '%')
		if k < 0 || k+1 >= len(f) {
			break
		}
		if k > 0 {
			res = append(res, part{s: f[:k]})
		}
		switch f[k+1] {
		case '%':
			res = append(res, part{s: "%"})
		case 's', 'v':
			if i >= len(vs) || vs[i] == nil {
				return nil
			}
			res = append(res, part{v: eng.Unwrap(vs[i])})
			i++
		default:
			return nil
		}
		f = f[k+2:]
	}
	if f != "" {
		res = append(res, part{s: f})
	}
	return res
}

// written decomposes what a call writes (ok=false: the call writes nothing we know of).
func writtenBy(ci ssa.CallInstruction) (parts []part, ok bool) {
	args := ci.Common().Args
	switch k := eng.Key(ci); k {
	case "fmt.Fprintf":
		return formatted(args[1], args[2]), true
	case "fmt.Fprintln", "fmt.Fprint":
		var res []part
		vs := eng.VarArgs(args[1])
		if k == "fmt.Fprint" && len(vs) > 1 {
			return nil, true
		}
		for i, v := range vs {
			if v == nil {
				return nil, true
			}
			if i > 0 {
				res = append(res, part{s: " "})
			}
			res = append(res, textOf(v)...)
		}
		if k == "fmt.Fprintln" {
			res = append(res, part{s: "\n"})
		}
		return res, true
	case "io.WriteString":
		return textOf(args[1]), true
	}
	o := eng.CalleeObj(ci)
	if o == nil || o.Signature().Recv() == nil || o.Name() != "Write" && o.Name() != "WriteString" {
		return nil, false
	}
	return textOf(args[len(args)-1]), true
}

func (c *Ctx) writesConfig(r *R, pf, im, ext *types.Var) {
	w := c.W
	wr := r.Fn(importcfgPkg, "ImportConfig.write")
	wf := r.Fn(importcfgPkg, "ImportConfig.WriteFile")
	if wr == nil || wf == nil {
		return
	}
	fields := map[*types.Var]string{pf: "packagefile ", im: "importmap ", ext: ""}
	got := map[*types.Var]int{}
	emit := func(f *ssa.Function, ci, site ssa.CallInstruction) {
		parts, _ := writtenBy(ci)
		in := ci.(ssa.Instruction)
		// what parameters stand for at the call site
		subst := func(v ssa.Value) ssa.Value {
			if p, ok := v.(*ssa.Parameter); ok && site != nil && p.Parent() == f {
				for i, q := range f.Params {
					if a := eng.ArgOf(site, i); q == p && a != nil {
						return a
					}
				}
			}
			return v
		}
		is := func(v ssa.Value, fv *types.Var) bool { return isFieldVal(subst(v), fv) }
		l := eng.InnermostLoop(in.Block())
		var fv *types.Var
		var base *ssa.Lookup
		if l != nil && l.Over != nil {
			for x := range fields {
				if is(l.Over, x) {
					fv = x
				}
				// through the keys, sorted or not
				for _, p := range parts {
					if lk, ok := p.v.(*ssa.Lookup); ok && is(lk.X, x) && l.IsElem(lk.Index) && c.allKeys(l.Over, func(v ssa.Value) bool { return is(v, x) }) {
						fv, base = x, lk
					}
				}
			}
		}
		if !r.Check(fv != nil, "written by "+short(f), w.At(in), "what is written is not an entry of the import configuration, for all entries") {
			return
		}
		got[fv]++
		// normalise
		var n []part
		for _, p := range parts {
			if p.v != nil {
				if s, ok := eng.ConstString(subst(p.v)); ok {
					p = part{s: s}
				}
			}
			if p.v == nil && len(n) > 0 && n[len(n)-1].v == nil {
				n[len(n)-1].s += p.s
				continue
			}
			n = append(n, p)
		}
		good := false
		isK := func(v ssa.Value) bool {
			if base != nil {
				return l.IsElem(v)
			}
			return l.IsKey(v)
		}
		isV := func(v ssa.Value) bool {
			if base != nil {
				lk, ok := v.(*ssa.Lookup)
				return ok && is(lk.X, fv) && l.IsElem(lk.Index)
			}
			return l.IsElem(v)
		}
		if fv == ext {
			good = len(n) == 2 && n[0].v != nil && l.IsElem(n[0].v) && n[1].s == "\n"
		} else {
			good = len(n) == 5 && n[0].s == fields[fv] && n[1].v != nil && isK(n[1].v) && n[2].s == "=" && n[3].v != nil && isV(n[3].v) && n[4].s == "\n"
		}
		r.Check(good, "line of "+fv.Name(), w.At(in), "an entry is not written as the Go tools read it")
		r.Check(l.Always(func(x ssa.Instruction) bool { return x == in }, nil), "each of "+fv.Name(), w.At(in), "some entries are left out")
		early := w.EarlyExit(l, nil)
		r.Check(early == nil || w.OnlyFails(early.Block()) || w.FailsFrom(early.Block(), l), "all of "+fv.Name(), w.At(in), "entries can be left out without a failure")
		c.checkErrHandled(r, ci)
		// reached from the beginning
		reached := w.MustDo(f, func(x ssa.Instruction) bool { return x == l.Header.Instrs[0] }, c.succeeding, nil) == nil
		if site != nil {
			c.checkErrHandled(r, site)
			reached = reached && w.MustDo(wr, func(x ssa.Instruction) bool { return x == site.(ssa.Instruction) }, c.succeeding, nil) == nil
		}
		r.Check(reached, "always "+fv.Name(), w.At(in), "some import configurations are written without their %s", fv.Name())
	}
	for _, f := range c.Region(wr) {
		for _, ci := range eng.Calls(f) {
			if _, ok := writtenBy(ci); !ok {
				continue
			}
			if f == wr || f.Parent() == wr {
				emit(f, ci, nil)
				continue
			}
			for _, site := range w.Callers(f) {
				emit(f, ci, site)
			}
		}
	}
	for fv := range fields {
		r.Check(got[fv] == 1, "once "+fv.Name(), w.Pos(wr.Pos()), "the entries of %s are written %d times", fv.Name(), got[fv])
	}
	// the file
	kinds := map[string]func(*ssa.Call) bool{
		"create": func(x *ssa.Call) bool {
			k := eng.Key(x)
			return k == "os.Create" || k == "os.OpenFile" || k == "os.CreateTemp"
		},
		"write": func(x *ssa.Call) bool { return eng.MKey(x) == importcfgPkg+".ImportConfig.write" },
		"close": func(x *ssa.Call) bool { return eng.Key(x) == "os.File.Close" },
	}
	for kind, is := range kinds {
		ex := &eng.Exploration{W: w, Defers: true, Atom: func(v ssa.Value) (eng.AV, bool) {
			call, ok := v.(*ssa.Call)
			if !ok {
				return eng.AV{}, false
			}
			for k, f := range kinds {
				if f(call) {
					e := eng.ANilV()
					if k == kind {
						e = eng.ANonNilV()
					}
					if k == "create" {
						return tuple(eng.ANonNilV(), e), true
					}
					return e, true
				}
			}
			return eng.AV{}, false
		}, Event: func(in ssa.Instruction) string {
			if call, ok := in.(*ssa.Call); ok && is(call) {
				return "failed"
			}
			return ""
		}}
		outs := ex.Run(wf)
		r.Check(len(outs) > 0, "failing to "+kind+": explored", w.Pos(wf.Pos()), "cannot tell")
		for _, o := range outs {
			r.Check(!o.Panics && o.Has("failed") && o.Rets[0].K == eng.ANonNil, "failing to "+kind, w.Pos(wf.Pos()), "a failure to %s the file of an import configuration is not reported", kind)
		}
	}
	for _, f := range c.Region(wf) {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) == "os.OpenFile" {
				n, ok := eng.ConstInt(ci.Common().Args[1])
				r.Check(ok && n&0x200 != 0, "truncated", w.At(ci.(ssa.Instruction)), "the file keeps what it contained")
			}
		}
	}
	r.Min(16)
}

// allKeys: v lists the keys of the map field.
func (c *Ctx) allKeys(v ssa.Value, is func(ssa.Value) bool) bool {
	call, ok := eng.ResolveLocal(v).(*ssa.Call)
	if !ok {
		return false
	}
	switch eng.Key(call) {
	case "slices.Sorted", "slices.Collect":
		return c.allKeys(call.Call.Args[0], is)
	case "maps.Keys":
		return is(call.Call.Args[0])
	}
	return false
}

func (c *Ctx) looksUp(r *R, pf, im *types.Var) {
	w := c.W
	f := r.Fn(importcfgPkg, "ImportConfig.Lookup")
	if f == nil {
		return
	}
	for _, t := range []struct {
		name, mapped string
		files        map[string]string
		want         string
	}{
		{"present", "", map[string]string{"p": "/p.a"}, "/p.a"},
		{"mapped", "q", map[string]string{"q": "/q.a"}, "/q.a"},
		{"mapped, both present", "q", map[string]string{"p": "/p.a", "q": "/q.a"}, "/q.a"},
		{"mapped to a missing one", "q", map[string]string{"p": "/p.a"}, ""},
		{"missing", "", map[string]string{"q": "/q.a"}, ""},
	} {
		opened := map[string]bool{}
		var lookupEval func(ssa.Value) eng.AV
		val := func(l *ssa.Lookup, s string, ok bool) eng.AV {
			if l.CommaOk {
				return tuple(eng.AStr(s), eng.ABool(ok))
			}
			return eng.AStr(s)
		}
		_ = lookupEval
		// the values of lookups, set when they are reached
		cur := map[*ssa.Lookup]eng.AV{}
		ex := &eng.Exploration{W: w, Defers: true, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			switch x := in.(type) {
			case *ssa.Lookup:
				delete(cur, x)
				k := eval(x.Index)
				if k.K != eng.AConst {
					return false
				}
				key := strings.Trim(k.String(), `"`)
				switch {
				case isFieldVal(x.X, im):
					if key == "p" && t.mapped != "" {
						cur[x] = val(x, t.mapped, true)
					} else {
						cur[x] = val(x, "", false)
					}
				case isFieldVal(x.X, pf):
					s, ok := t.files[key]
					cur[x] = val(x, s, ok)
				}
			case *ssa.Call:
				if eng.Key(x) == "os.Open" {
					opened[strings.Trim(eval(x.Call.Args[0]).String(), `"`)] = true
				}
			}
			return false
		}, Atom: func(v ssa.Value) (eng.AV, bool) {
			if l, ok := v.(*ssa.Lookup); ok {
				a, ok := cur[l]
				return a, ok
			}
			if call, ok := v.(*ssa.Call); ok && eng.Key(call) == "os.Open" {
				return tuple(eng.ANonNilV(), eng.ANilV()), true
			}
			return eng.AV{}, false
		}}
		outs := ex.Run(f, eng.ANonNilV(), eng.AStr("p"))
		good := len(outs) > 0
		for _, o := range outs {
			good = good && !o.Panics && (o.Rets[1].K == eng.ANil) == (t.want != "")
		}
		var l []string
		for k := range opened {
			l = append(l, k)
		}
		sort.Strings(l)
		good = good && (t.want == "" && len(l) == 0 || len(l) == 1 && l[0] == t.want)
		r.Check(good, t.name, w.Pos(f.Pos()), "the archive opened for a package (%s) is %q instead of %q", t.name, join(l), t.want)
	}
	r.Min(5)
}

func (c *Ctx) combines(r *R, pf *types.Var) {
	w := c.W
	if f := w.Func(importcfgPkg, "ImportConfig.CombinePackageFile"); f != nil {
		for _, found := range []bool{true, false} {
			sets := func(in ssa.Instruction) bool {
				mu, ok := in.(*ssa.MapUpdate)
				return ok && (isFieldVal(mu.Map, pf) || mapStoredIn(mu.Map, pf))
			}
			ex := &eng.Exploration{W: w, Repeat: true, Atom: func(v ssa.Value) (eng.AV, bool) {
				if l, ok := v.(*ssa.Lookup); ok && l.CommaOk && isFieldVal(l.X, pf) {
					return tuple(eng.AUnk(), eng.ABool(found)), true
				}
				return eng.AV{}, false
			}, Event: func(in ssa.Instruction) string {
				switch x := in.(type) {
				case *ssa.Lookup:
					if isFieldVal(x.X, pf) {
						return "looked"
					}
				default:
					if sets(in) {
						return "set"
					}
				}
				return ""
			}}
			for _, o := range ex.Run(f) {
				if !o.Has("looked") {
					continue
				}
				good := !o.Panics && o.Has("set") == !found && (found && o.Rets[0].IsFalse() || !found && o.Rets[0].IsTrue())
				r.Check(good, "combined, "+map[bool]string{true: "present", false: "absent"}[found], w.Pos(f.Pos()), "merging replaces entries, leaves some out, or misreports a change")
			}
		}
		for _, l := range eng.Loops(f) {
			if l.Over == nil {
				continue
			}
			r.Check(w.EarlyExit(l, nil) == nil, "combined completely", w.Pos(f.Pos()), "merging stops before the last entry")
		}
	}
	// an entry is set as asked
	if f := r.Fn(importcfgPkg, "ImportConfig.SetPackageFile"); f != nil {
		got := ""
		ex := &eng.Exploration{W: w, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if mu, ok := in.(*ssa.MapUpdate); ok && (isFieldVal(mu.Map, pf) || mapStoredIn(mu.Map, pf)) {
				got = eval(mu.Key).String() + "=" + eval(mu.Value).String()
			}
			return false
		}, Event: func(in ssa.Instruction) string {
			if mu, ok := in.(*ssa.MapUpdate); ok && (isFieldVal(mu.Map, pf) || mapStoredIn(mu.Map, pf)) {
				return "set"
			}
			return ""
		}}
		for _, o := range ex.Run(f, eng.ANonNilV(), eng.AStr("p"), eng.AStr("a")) {
			r.Check(!o.Panics && o.Has("set") && got == `"p"="a"`, "set", w.Pos(f.Pos()), "setting the archive of a package sets something else")
		}
		// made only when there is none
		for _, s := range w.FieldStores(pf) {
			if _, ok := s.Val.(*ssa.MakeMap); !ok {
				continue
			}
			r.Check(w.MustHold(s.Instr, func(l eng.Lit) bool {
				return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, pf) }) == "nil" || lenCmp(l, func(v ssa.Value) bool { return isFieldVal(v, pf) }) == "empty"
			}) || freshBase(s), "made by "+short(s.Instr.Parent()), w.At(s.Instr), "the entries there are can be dropped when one is set")
		}
	}
	r.Min(4)
}

// freshBase: the struct whose field is stored was made in the same function, and not filled yet.
func freshBase(s eng.Store) bool {
	st, ok := s.Instr.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	al, ok := fa.X.(*ssa.Alloc)
	return ok && st.Block() == al.Parent().Blocks[0]
}

func (c *Ctx) tablesKept(r *R, pf, im, ext *types.Var) {
	w := c.W
	n := 0
	for _, fv := range []*types.Var{pf, im, ext} {
		for _, s := range w.FieldStores(fv) {
			n++
			ok := eng.Rel(s.Instr.Parent()) == importcfgPkg
			if !ok {
				// a copy, or the same entries
				ok = c.derivesField(s.Val, fv)
			}
			r.Check(ok, fv.Name()+" assigned by "+short(s.Instr.Parent()), w.At(s.Instr), "the entries of an import configuration are replaced")
		}
	}
	instrs(w.Funcs, func(f *ssa.Function, in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		var m ssa.Value
		if d := builtinCall(in, "delete"); d != nil {
			m = d.Call.Args[0]
		} else if d := builtinCall(in, "clear"); d != nil {
			m = d.Call.Args[0]
		} else if eng.Key(call) == "maps.DeleteFunc" {
			m = call.Call.Args[0]
		} else {
			return
		}
		n++
		r.Check(!c.isTable(m, 0, pf, im), "kept by "+short(f), w.At(in), "entries are removed from an import configuration")
	})
	r.Min(4)
}

// isTable: v is one of the map fields, possibly given as an argument.
func (c *Ctx) isTable(v ssa.Value, d int, fvs ...*types.Var) bool {
	for _, fv := range fvs {
		if isFieldVal(v, fv) {
			return true
		}
	}
	p, ok := eng.ResolveLocal(v).(*ssa.Parameter)
	if !ok || d > 4 {
		return false
	}
	for i, q := range p.Parent().Params {
		if q != p {
			continue
		}
		for _, ci := range c.W.Callers(p.Parent()) {
			if a := eng.ArgOf(ci, i); a != nil && c.isTable(a, d+1, fvs...) {
				return true
			}
		}
	}
	return false
}
