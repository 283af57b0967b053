package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

const proxyPkg = "internal/toolexec/proxy"

func init() {
	register(&Prop{ID: "T01", Technique: "path analysis of the toolexec command over all outcomes of its steps, value provenance of the executed command line, abstract evaluation of argument edits", Run: runCommand})
}

// weaverPhase: the call processes the command with one of the weaver's methods.
func (c *Ctx) weaverPhase(ci ssa.CallInstruction) string {
	name := func(f *ssa.Function) string {
		if f == nil {
			return ""
		}
		for _, m := range []string{"OnCompileMain", "OnCompile", "OnLink"} {
			if strings.HasPrefix(f.Name(), m) && strings.Contains(f.String(), "Weaver") {
				return m
			}
		}
		return ""
	}
	for _, g := range c.W.Callees(ci) {
		if n := name(g); n != "" {
			return n
		}
	}
	for _, a := range ci.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Signature); !ok {
			continue
		}
		for _, g := range c.funcsOf(a) {
			if n := name(g); n != "" {
				return n
			}
		}
	}
	return ""
}

func globalOf(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	if g, ok := v.(*ssa.Global); ok {
		return strings.TrimPrefix(g.Pkg.Pkg.Path(), eng.ModPath+"/") + "." + g.Name()
	}
	return ""
}

func runCommand(c *Ctx) {
	w := c.W
	rFlow := c.Rule("run-once", "a command is run exactly once after it was processed, and never when processing failed or its outputs were reused")
	rProc := c.Rule("processors", "a processor is invoked for the commands of its kind, and its failure is returned")
	rExec := c.Rule("executed-as-given", "the tool is executed with the command's arguments, environment and standard streams, and its outcome is returned")
	rArgs := c.Rule("arguments-kept", "the arguments of a command are those given, apart from explicit edits of what the edit names")
	rKind := c.Rule("command-kinds", "commands are recognised by the tool's name")

	parse := rFlow.Fn(proxyPkg, "ParseCommand")
	run := rExec.Fn(proxyPkg, "RunCommand")
	if parse == nil || run == nil {
		return
	}
	var action *ssa.Function
	for _, s := range w.Callers(parse) {
		if f := s.Parent(); f.Name() != "MustParseCommand" && eng.Rel(f) == "internal/cmd" {
			action = f
		}
	}
	if action == nil {
		rFlow.Bad("toolexec command", "-", "the command handling tool invocations was not found")
		return
	}
	for {
		// the command's action: up from extracted helpers
		cs := w.Callers(action)
		if len(cs) == 1 && eng.PkgOf(cs[0].Parent()) == eng.PkgOf(action) {
			action = cs[0].Parent()
			continue
		}
		break
	}
	c.toolexecFlow(rFlow, action)
	c.processors(rProc)
	c.runsAsGiven(rExec, run, action)
	c.keepsArgs(rArgs, parse)
	c.commandKinds(rKind, parse)
}

func (c *Ctx) toolexecFlow(r *R, action *ssa.Function) {
	w := c.W
	const runErr = "the tool's error"
	type sc struct {
		name                      string
		parse                     string // ok, none, fail
		other, version            bool
		pin, tool, close, compute bool   // fails
		phase, how                string // failing phase: skip or fail
	}
	var scs []sc
	scs = append(scs, sc{name: "unparsable command", parse: "fail"}, sc{name: "reused outputs", parse: "none"})
	for _, t := range []bool{false, true} {
		for _, cl := range []bool{false, true} {
			n := map[bool]string{false: " succeeding", true: " failing"}[t] + map[bool]string{false: "", true: ", failing to close"}[cl]
			scs = append(scs, sc{name: "other tool" + n, parse: "ok", other: true, tool: t, close: cl})
			scs = append(scs, sc{name: "compile or link" + n, parse: "ok", tool: t, close: cl})
		}
	}
	scs = append(scs, sc{name: "failing to pin", parse: "ok", pin: true})
	scs = append(scs, sc{name: "version query", parse: "ok", version: true}, sc{name: "failing version query", parse: "ok", version: true, compute: true})
	for _, ph := range []string{"OnCompile", "OnCompileMain", "OnLink"} {
		scs = append(scs, sc{name: ph + " failing", parse: "ok", phase: ph, how: "fail"}, sc{name: ph + " skipping", parse: "ok", phase: ph, how: "skip"})
	}
	retErr := func(v ssa.Value, e eng.AV) eng.AV {
		if t, ok := v.Type().(*types.Tuple); ok {
			var vs []eng.AV
			for i := 0; i < t.Len()-1; i++ {
				vs = append(vs, eng.AUnk())
			}
			return tuple(append(vs, e)...)
		}
		return e
	}
	fails := func(b bool) eng.AV {
		if b {
			return eng.ANonNilV()
		}
		return eng.ANilV()
	}
	for _, s := range scs {
		var code eng.AV
		coded := false
		ex := &eng.Exploration{W: w, Repeat: true, Defers: true}
		kindOf := func(v ssa.Value) string {
			call, ok := v.(*ssa.Call)
			if !ok {
				return ""
			}
			if p := c.weaverPhase(call); p != "" {
				return p
			}
			switch k := eng.MKey(call); {
			case k == proxyPkg+".ParseCommand":
				return "parse"
			case k == proxyPkg+".RunCommand":
				return "run"
			case strings.HasPrefix(k, proxyPkg+".") && strings.HasSuffix(k, "ommand.Close"):
				return "close"
			case strings.HasPrefix(k, proxyPkg+".") && strings.HasSuffix(k, "ommand.Type"):
				return "type"
			case strings.HasPrefix(k, proxyPkg+".") && strings.HasSuffix(k, "ommand.ShowVersion"):
				return "show"
			case strings.HasSuffix(k, "pin.AutoPinOrchestrion"):
				return "pin"
			case strings.HasSuffix(k, "toolexec.ComputeVersion"):
				return "compute"
			case strings.HasPrefix(eng.Key(call), "fmt.Print"), strings.HasPrefix(eng.Key(call), "fmt.Fprint"):
				return "print"
			case eng.Key(call) == "github.com/urfave/cli/v2.Exit":
				return "exit"
			}
			return ""
		}
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			if ta, ok := v.(*ssa.TypeAssert); ok && ta.CommaOk && strings.HasSuffix(ta.AssertedType.String(), "cli/v2.ExitCoder") {
				return tuple(eng.ANonNilV(), eng.ABool(true)), true
			}
			if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && (globalOf(bo.X) == proxyPkg+".ErrSkipCommand" || globalOf(bo.Y) == proxyPkg+".ErrSkipCommand") {
				return eng.ABool((s.how == "skip") == (bo.Op == token.EQL)), true
			}
			call, ok := v.(*ssa.Call)
			if !ok {
				return eng.AV{}, false
			}
			if eng.Key(call) == "errors.Is" && globalOf(call.Call.Args[1]) == proxyPkg+".ErrSkipCommand" {
				return eng.AV{}, false // depends on the error, see AtomEv
			}
			if call.Call.IsInvoke() && call.Call.Method.Name() == "ExitCode" {
				return eng.AInt(7), true
			}
			switch k := kindOf(v); k {
			case "":
			case "parse":
				switch s.parse {
				case "ok":
					return tuple(eng.ANonNilV(), eng.ANilV()), true
				case "none":
					return tuple(eng.ANilV(), eng.ANilV()), true
				}
				return tuple(eng.ANilV(), eng.ANonNilV()), true
			case "run":
				if s.tool {
					return eng.AStr(runErr), true
				}
				return eng.ANilV(), true
			case "close":
				return fails(s.close), true
			case "type":
				if s.other {
					return eng.AInt(0), true
				}
				return eng.AInt(1), true
			case "show":
				return eng.ABool(s.version), true
			case "pin":
				return fails(s.pin), true
			case "compute":
				return retErr(v, fails(s.compute)), true
			case "print":
				return retErr(v, eng.ANilV()), true
			case "exit":
				return eng.ANonNilV(), true
			default:
				if k == s.phase {
					return retErr(v, eng.ANonNilV()), true
				}
				return retErr(v, eng.ANilV()), true
			}
			return eng.AV{}, false
		}
		ex.AtomEv = func(call *ssa.Call, happened func(string) bool) (eng.AV, bool) {
			if eng.Key(call) == "errors.Is" && globalOf(call.Call.Args[1]) == proxyPkg+".ErrSkipCommand" {
				return eng.ABool(s.how == "skip" && happened(s.phase)), true
			}
			return eng.AV{}, false
		}
		ex.Event = func(in ssa.Instruction) string {
			v, ok := in.(ssa.Value)
			if !ok {
				return ""
			}
			return kindOf(v)
		}
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if v, ok := in.(ssa.Value); ok && kindOf(v) == "exit" {
				code, coded = eval(v.(*ssa.Call).Call.Args[1]), true
			}
			return false
		}
		outs := ex.Run(action)
		pos := w.Pos(action.Pos())
		r.Check(len(outs) > 0 && !ex.Exhausted, s.name+": explored", pos, "the paths of the toolexec command could not be followed")
		for _, o := range outs {
			if o.Panics {
				r.Bad(s.name, pos, "the command panics")
				continue
			}
			res := o.Rets[len(o.Rets)-1]
			ran := o.Has("run")
			r.Check(!o.Has("run+"), s.name+": once", pos, "the tool is run more than once")
			if s.parse == "ok" {
				r.Check(o.Has("close") && !o.Has("close+"), s.name+": closed", pos, "the command is not closed exactly once")
			}
			switch {
			case s.parse == "fail":
				r.Check(!ran && res.K == eng.ANonNil, s.name, pos, "a command which cannot be parsed is run or reported as a success")
			case s.parse == "none":
				r.Check(!ran && res.K == eng.ANil, s.name, pos, "a command whose outputs were reused is run or fails")
			case s.other:
				weaved := o.Has("OnCompile") || o.Has("OnCompileMain") || o.Has("OnLink") || o.Has("pin")
				r.Check(ran && !weaved, s.name, pos, "a tool other than the compiler and the linker is not run as it is")
				r.Check(c.outcome(res, s.tool, s.close, runErr, code, coded), s.name+": outcome", pos, "the outcome of the tool is not the one reported: %s", res)
			case s.pin:
				r.Check(!ran && res.K == eng.ANonNil, s.name, pos, "the tool is run although pinning failed")
			case s.version:
				r.Check(!ran && o.Has("compute") && (res.K == eng.ANonNil) == s.compute && (s.compute || o.Has("print")), s.name, pos, "a version query is not answered with the extended version")
			case s.how == "fail":
				r.Check(!ran && res.K == eng.ANonNil, s.name, pos, "the tool is run, or success is reported, although processing the command failed")
			case s.how == "skip":
				r.Check(!ran && res.K == eng.ANil, s.name, pos, "a skipped command is run, or fails")
			default:
				r.Check(ran && o.Has("OnCompile") && o.Has("OnCompileMain") && o.Has("OnLink") && !o.Has("OnCompile+") && !o.Has("OnCompileMain+") && !o.Has("OnLink+"), s.name, pos, "the command is not processed and run")
				r.Check(c.outcome(res, s.tool, s.close, runErr, code, coded), s.name+": outcome", pos, "the outcome of the tool is not the one reported: %s", res)
			}
		}
		// the order of the phases
		if s.name == "compile or link succeeding" {
			bad := ""
			ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool { return false }
			ex.AtomEv = func(call *ssa.Call, happened func(string) bool) (eng.AV, bool) { return eng.AV{}, false }
			old := ex.Atom
			ex.Atom = func(v ssa.Value) (eng.AV, bool) {
				if k := kindOf(v); k == "run" || k == "OnCompileMain" {
					return eng.AV{}, false
				}
				return old(v)
			}
			ex.AtomEv = func(call *ssa.Call, happened func(string) bool) (eng.AV, bool) {
				switch kindOf(call) {
				case "run":
					if !happened("OnCompile") || !happened("OnCompileMain") || !happened("OnLink") {
						bad = "the tool is run before the command was processed"
					}
				case "OnCompileMain":
					if !happened("OnCompile") {
						bad = "link dependencies are processed before weaving"
					}
				default:
					return eng.AV{}, false
				}
				return retErr(call, eng.ANilV()), true
			}
			ex.Run(action)
			r.Check(bad == "", "order of phases", pos, "%s", bad)
		}
	}
	r.Min(40)
}

// outcome: what is returned tells the tool's outcome.
func (c *Ctx) outcome(res eng.AV, tool, closing bool, runErr string, code eng.AV, coded bool) bool {
	switch {
	case !tool && !closing:
		return res.K == eng.ANil
	case tool && !closing:
		return res.String() == eng.AStr(runErr).String()
	case !tool:
		return res.K == eng.ANonNil
	}
	if res.String() == eng.AStr(runErr).String() {
		return true
	}
	n, ok := code.Int()
	return res.K == eng.ANonNil && coded && ok && n == 7
}

// processors: ProcessCommand.
func (c *Ctx) processors(r *R) {
	w := c.W
	n := 0
	insts := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		for _, ci := range eng.Calls(f) {
			g := ci.Common().StaticCallee()
			if g == nil {
				continue
			}
			o := g
			if g.Origin() != nil {
				o = g.Origin()
			}
			if eng.Rel(o) == proxyPkg && o.Name() == "ProcessCommand" {
				insts[o] = true
			}
		}
	}
	for f := range insts {
		if len(f.Blocks) == 0 {
			continue
		}
		n++
		for _, is := range []bool{true, false} {
			for _, fail := range []bool{true, false} {
				ex := &eng.Exploration{W: w, Repeat: true, Atom: func(v ssa.Value) (eng.AV, bool) {
					switch x := v.(type) {
					case *ssa.TypeAssert:
						if x.CommaOk {
							return tuple(eng.AUnk(), eng.ABool(is)), true
						}
					case *ssa.Call:
						if x.Call.StaticCallee() == nil && !x.Call.IsInvoke() {
							if fail {
								return eng.AStr("its error"), true
							}
							return eng.ANilV(), true
						}
					}
					return eng.AV{}, false
				}, Event: func(in ssa.Instruction) string {
					if x, ok := in.(*ssa.Call); ok && x.Call.StaticCallee() == nil && !x.Call.IsInvoke() {
						return "processed"
					}
					return ""
				}}
				for _, o := range ex.Run(f) {
					good := !o.Panics && o.Has("processed") == is && !o.Has("processed+")
					if good && is && fail {
						good = o.Rets[0].String() == eng.AStr("its error").String()
					} else if good {
						good = o.Rets[0].K == eng.ANil
					}
					r.Check(good, "processor of "+f.Name(), w.Pos(f.Pos()), "a processor is not invoked for its kind of command only, or its outcome is not returned")
				}
			}
		}
	}
	r.Check(n > 0, "processors", "-", "no processor invocation found")
}

func (c *Ctx) extPkgField(v ssa.Value, pkg, typ, field string) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n := eng.NamedOf(eng.Deref(fa.X.Type()))
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == typ && eng.FieldVar(fa).Name() == field
}

// runsAsGiven: RunCommand.
func (c *Ctx) runsAsGiven(r *R, run, action *ssa.Function) {
	w := c.W
	region := c.Region(run)
	var cmds []*ssa.Call
	streams := map[string]bool{}
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			if k := eng.Key(ci); k == "os/exec.Command" || k == "os/exec.CommandContext" {
				if call, ok := ci.(*ssa.Call); ok && (f == run || w.Reachable(run)[f]) {
					cmds = append(cmds, call)
				}
			}
		}
	}
	r.Check(len(cmds) == 1, "execution", w.Pos(run.Pos()), "%d executions of the tool", len(cmds))
	isArgs := func(v ssa.Value) bool {
		call, ok := eng.ResolveLocal(v).(*ssa.Call)
		return ok && strings.HasSuffix(eng.MKey(call), "ommand.Args")
	}
	for _, call := range cmds {
		a := call.Call.Args
		if len(a) == 3 {
			a = a[1:]
		}
		name, okN := a[0].(*ssa.UnOp)
		if okN {
			ia, isIA := name.X.(*ssa.IndexAddr)
			okN = isIA && isArgs(ia.X) && isZeroConst(ia.Index)
		}
		r.Check(okN, "tool", w.At(call), "what is executed is not the tool the command names")
		sl, okA := a[1].(*ssa.Slice)
		if okA {
			lo := int64(0)
			if sl.Low != nil {
				lo, _ = eng.ConstInt(sl.Low)
			}
			okA = lo == 1 && sl.High == nil && isArgs(sl.X)
		}
		r.Check(okA, "tool arguments", w.At(call), "the tool is not executed with exactly the command's arguments")
	}
	for _, f := range region {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			for _, st := range []string{"Stdin", "Stdout", "Stderr"} {
				if c.extPkgField(s.Addr, "os/exec", "Cmd", st) {
					good := globalOf(eng.Unwrap(s.Val)) == "os."+st
					r.Check(good, st, w.At(in), "the tool's %s is not that of this process", st)
					streams[st] = good
				}
			}
			if c.extPkgField(s.Addr, "os/exec", "Cmd", "Dir") || c.extPkgField(s.Addr, "os/exec", "Cmd", "Env") {
				call, isCall := s.Val.(*ssa.Call)
				r.Check(isCall && eng.Key(call) == "os.Environ", "environment", w.At(in), "the tool does not run in the directory and environment of this process")
			}
		})
	}
	r.Check(len(streams) == 3, "streams", w.Pos(run.Pos()), "the tool is not given all three standard streams")
	isRun := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		return ok && eng.Key(call) == "os/exec.Cmd.Run"
	}
	for _, fail := range []bool{true, false} {
		ex := &eng.Exploration{W: w, Repeat: true, Defers: true, Atom: func(v ssa.Value) (eng.AV, bool) {
			if isRun(v) {
				if fail {
					return eng.AStr("its error"), true
				}
				return eng.ANilV(), true
			}
			if call, ok := v.(*ssa.Call); ok && strings.HasPrefix(eng.Key(call), "os/exec.Command") {
				return eng.ANonNilV(), true
			}
			return eng.AV{}, false
		}, Event: func(in ssa.Instruction) string {
			if v, ok := in.(ssa.Value); ok && isRun(v) {
				return "run"
			}
			return ""
		}}
		for _, o := range ex.Run(run) {
			res := o.Rets
			good := !o.Panics && o.Has("run") && !o.Has("run+") && (fail && res[0].String() == eng.AStr("its error").String() || !fail && res[0].K == eng.ANil)
			r.Check(good, "outcome", w.Pos(run.Pos()), "the tool is not run exactly once, or its outcome is not returned")
		}
	}
	// nothing alters the command between
	for _, s := range w.Callers(run) {
		if w.Reachable(action)[s.Parent()] && eng.Rel(s.Parent()) == "internal/cmd" {
			args := s.Common().Args
			r.Check(eng.IsNilConst(args[len(args)-1]), "unaltered", w.At(s.(ssa.Instruction)), "the tool is run with alterations")
		}
	}
	r.Min(8)
}

func isZeroConst(v ssa.Value) bool {
	n, ok := eng.ConstInt(v)
	return ok && n == 0
}

// keepsArgs: what command lines are made of and how they are edited.
func (c *Ctx) keepsArgs(r *R, parse *ssa.Function) {
	w := c.W
	args := r.Field(proxyPkg, "command", "args")
	posF := r.Field(proxyPkg, "command", "paramPos")
	if args == nil || posF == nil {
		return
	}
	fs := w.FuncsIn(proxyPkg)
	// constructions and replacements of the list
	for _, s := range w.FieldStores(args) {
		in := s.Instr
		if a := builtinCall(asInstr(s.Val), "append"); a != nil {
			r.Check(isFieldVal(a.Call.Args[0], args), "extended "+short(in.Parent()), w.At(in), "arguments are lost when others are added")
			continue
		}
		whole := true
		w.Origins(s.Val, func(o ssa.Value) eng.Step {
			switch x := o.(type) {
			case *ssa.Slice:
				if _, isArr := eng.Deref(x.X.Type()).Underlying().(*types.Array); isArr {
					return eng.Stop
				}
				if x.Low != nil && !isZeroConst(x.Low) || x.High != nil || x.Max != nil {
					whole = false
				}
			case *ssa.Parameter:
				if x.Parent() == parse {
					return eng.Stop
				}
			case *ssa.MakeSlice, *ssa.Const:
				whole = false
			}
			return eng.Follow
		})
		r.Check(whole, "given "+short(in.Parent()), w.At(in), "part of the command's arguments is dropped")
	}
	// returned as they are
	for _, f := range fs {
		if f.Name() == "Args" && f.Synthetic == "" && f.Signature.Recv() != nil {
			for _, ret := range eng.Returns(f) {
				r.Check(isFieldVal(ret.Results[0], args) || clonesField(ret.Results[0], args), "read "+short(f), w.At(ret), "the arguments reported are not the command's")
			}
		}
	}
	// positions
	n := 0
	instrs(fs, func(f *ssa.Function, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isFieldVal(mu.Map, posF) && !mapStoredIn(mu.Map, posF) {
			return
		}
		n++
		r.Check(c.positionOf(mu, args, posF), "position recorded by "+short(f), w.At(in), "the position recorded for an argument is not where it is")
	})
	r.Check(n >= 2, "positions", "-", "argument positions are not recorded")
	c.argumentEdits(r, "ReplaceParam")
	c.argumentEdits(r, "SetFlag")
	r.Min(16)
}

// argumentEdits interprets the replacement of arguments (ReplaceParam) or of flags (SetFlag).
func (c *Ctx) argumentEdits(r *R, fn string) {
	type edit struct {
		name, old, val string
		want           []string // nil: refused
	}
	for _, x := range []struct {
		fn    string
		args  []string
		edits []edit
	}{
		{"ReplaceParam", []string{"compile", "-o", "x", "-p", "a.go", "-v", "a/b.go", "c.go"}, []edit{
			{"parameter", "a/b.go", "/w/b.go", []string{"compile", "-o", "x", "-p", "a.go", "-v", "/w/b.go", "c.go"}},
			{"absent parameter", "b.go", "y", nil},
			{"parameter of another value", "a/b.go", "y", nil},
			{"last parameter", "c.go", "/w/c.go", []string{"compile", "-o", "x", "-p", "a.go", "-v", "/w/b.go", "/w/c.go"}},
			{"replaced parameter", "/w/b.go", "b", []string{"compile", "-o", "x", "-p", "a.go", "-v", "b", "/w/c.go"}},
			{"first parameter", "-o", "-q", []string{"compile", "-q", "x", "-p", "a.go", "-v", "b", "/w/c.go"}},
		}},
		{"SetFlag", []string{"compile", "-lang", "go1.1", "a.go"}, []edit{{"separate value", "-lang", "new", []string{"compile", "-lang", "new", "a.go"}}, {"again", "-lang", "newer", []string{"compile", "-lang", "newer", "a.go"}}}},
		{"SetFlag", []string{"compile", "-o", "x", "--lang", "go1.1", "a.go"}, []edit{{"separate value, two hyphens", "-lang", "new", []string{"compile", "-o", "x", "--lang", "new", "a.go"}}}},
		{"SetFlag", []string{"compile", "-o", "x", "-lang=go1.1", "a.go"}, []edit{{"assigned", "-lang", "new", []string{"compile", "-o", "x", "-lang=new", "a.go"}}, {"assigned", "-lang", "newer", []string{"compile", "-o", "x", "-lang=newer", "a.go"}}}},
		{"SetFlag", []string{"compile", "--lang=go1.1", "a.go"}, []edit{{"assigned, two hyphens", "-lang", "new", []string{"compile", "--lang=new", "a.go"}}}},
		{"SetFlag", []string{"compile", "-lang=", "-p=m"}, []edit{{"empty", "-lang", "new", []string{"compile", "-lang=new", "-p=m"}}}},
		{"SetFlag", []string{"compile", "-lang=go1.1", "-p=m", "-lang=go1.2", "a.go"}, []edit{{"given twice", "-lang", "new", []string{"compile", "-lang=go1.1|-lang=new", "-p=m", "-lang=new", "a.go"}}}},
		{"SetFlag", []string{"compile", "-lang", "go1.1", "-p=m", "-lang=go1.2", "a.go"}, []edit{{"given twice", "-lang", "new", []string{"compile", "-lang", "go1.1|new", "-p=m", "-lang=new", "a.go"}}}},
		{"SetFlag", []string{"compile", "-language=go1.1", "-lan=x", "-p=-lang=x", "lang", "lang=a", "x-lang=b", "---lang=c"}, []edit{{"other flags", "-lang", "new", nil}}},
		{"SetFlag", []string{"-lang=go1.1", "a.go"}, []edit{{"program", "-lang", "new", nil}}},
	} {
		if x.fn != fn {
			continue
		}
		f := r.Fn(proxyPkg, "command."+x.fn)
		if f == nil {
			continue
		}
		pos := c.W.Pos(f.Pos())
		objs := map[string]eng.AV{"cmd.args": eng.AListOf(*listOf("", strs(x.args...)...)), "cmd.paramPos": sym("map@P")}
		for i, a := range x.args[1:] {
			objs["map@P["+eng.AStr(a).String()+"]"] = eng.AInt(int64(i + 1))
		}
		now := x.args
		for _, e := range x.edits {
			name := x.fn + ": " + e.name
			ex := &eng.Exploration{W: c.W, Lists: true, Small: 16, Ranges: true, Objs: objs, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == proxyPkg }}
			outs := ex.Run(f, sym("cmd"), eng.AStr(e.old), eng.AStr(e.val))
			if !r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", pos, "how arguments are replaced could not be followed") {
				break
			}
			want := e.want
			if want == nil {
				want = now
			}
			for _, o := range outs {
				if !r.Check(!o.Panics, name+": panic", pos, "replacing an argument panics") {
					continue
				}
				err := o.Rets[len(o.Rets)-1]
				r.Check(err.K == eng.ANil && e.want != nil || err.K == eng.ANonNil && e.want == nil, name+": outcome", pos, "the outcome does not tell whether the argument was replaced: %s", err)
				got := o.Obj("cmd.args")
				good := got.K == eng.AList && got.L != nil && got.L.Rest == "" && len(got.L.Pre) == len(want)
				for i := 0; good && i < len(want); i++ {
					v, ok := eng.ConstAV(got.L.Pre[i])
					good = ok && has(strings.Split(want[i], "|"), v)
				}
				r.Check(good, name, pos, "the arguments become %s, expected: %q", got, want)
				objs = o.Objs()
			}
			now = want
		}
	}
}

func asInstr(v ssa.Value) ssa.Instruction {
	in, _ := v.(ssa.Instruction)
	return in
}

func clonesField(v ssa.Value, fv *types.Var) bool {
	call, ok := v.(*ssa.Call)
	return ok && eng.Key(call) == "slices.Clone" && isFieldVal(call.Call.Args[0], fv)
}

// mapStoredIn: v is a map made here which is stored in the field.
func mapStoredIn(v ssa.Value, fv *types.Var) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, rr := range *v.Referrers() {
		if s, ok := rr.(*ssa.Store); ok && s.Val == v {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && eng.FieldVar(fa) == fv {
				return true
			}
		}
	}
	return false
}

// positionOf: the value recorded is the index of the key among the arguments.
func (c *Ctx) positionOf(mu *ssa.MapUpdate, args, posF *types.Var) bool {
	v := mu.Value
	// moved along with what it was recorded for
	if c.derives(v, func(o ssa.Value) bool {
		if e, ok := o.(*ssa.Extract); ok {
			o = e.Tuple
		}
		l, ok := o.(*ssa.Lookup)
		return ok && isFieldVal(l.X, posF)
	}) {
		_, isB := v.(*ssa.BinOp)
		return !isB
	}
	l := eng.InnermostLoop(mu.Block())
	if l == nil || l.Over == nil || !l.IsElem(mu.Key) {
		return false
	}
	base, off := l.Over, int64(0)
	if sl, ok := base.(*ssa.Slice); ok {
		if sl.Low != nil {
			n, ok := eng.ConstInt(sl.Low)
			if !ok {
				return false
			}
			off = n
		}
		base = sl.X
	}
	bo, isB := v.(*ssa.BinOp)
	if isB && bo.Op != token.ADD {
		return false
	}
	whole := isFieldVal(base, args)
	if p, ok := base.(*ssa.Parameter); ok && !whole {
		// the list the command is made of
		for _, s := range c.W.FieldStores(args) {
			if s.Instr.Parent() == p.Parent() && s.Val == ssa.Value(p) {
				whole = true
			}
		}
	}
	if whole {
		if !isB {
			return off == 0 && l.IsKey(v)
		}
		for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			if n, ok := eng.ConstInt(xy[1]); ok && n == off && l.IsKey(xy[0]) {
				return true
			}
		}
		return false
	}
	// appended: after those that were there
	if !isB || off != 0 {
		return false
	}
	for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
		n, ok := xy[0].(*ssa.Call)
		if !ok || builtinCall(n, "len") == nil || !isFieldVal(n.Call.Args[0], args) || !l.IsKey(xy[1]) {
			continue
		}
		appended := false
		before := true
		for _, s := range c.W.FieldStores(args) {
			if s.Instr.Parent() != mu.Parent() {
				continue
			}
			if a := builtinCall(asInstr(s.Val), "append"); a != nil && (a.Call.Args[1] == l.Over || a.Call.Args[1] == base) {
				appended = true
				before = before && eng.Dominates(n, s.Instr) && loadBefore(n.Call.Args[0], s.Instr)
			}
		}
		return appended && before
	}
	return false
}

func loadBefore(v ssa.Value, in ssa.Instruction) bool {
	ld, ok := v.(ssa.Instruction)
	return ok && eng.Dominates(ld, in)
}

// commandKinds: which tools are processed.
func (c *Ctx) commandKinds(r *R, parse *ssa.Function) {
	w := c.W
	isCompile := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		return ok && call.Call.StaticCallee() != nil && strings.HasSuffix(call.Call.StaticCallee().Name(), "parseCompileCommand")
	}
	isLink := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		return ok && call.Call.StaticCallee() != nil && strings.HasSuffix(call.Call.StaticCallee().Name(), "parseLinkCommand")
	}
	for _, t := range []struct{ arg, want string }{
		{"/go/pkg/tool/linux_amd64/compile", "compile"}, {"/go/pkg/tool/compile.exe", "compile"}, {"compile", "compile"},
		{"/go/pkg/tool/linux_amd64/link", "link"}, {"/go/pkg/tool/link.exe", "link"},
		{"/go/pkg/tool/linux_amd64/asm", "other"}, {"/go/pkg/tool/cgo", "other"}, {"/go/pkg/tool/vet", "other"},
		{"/compile/asm", "other"}, {"/go/pkg/tool/precompile", "other"}, {"/go/pkg/tool/linker", "other"},
	} {
		ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
			if isCompile(v) || isLink(v) {
				return tuple(eng.ANonNilV(), eng.ANilV()), true
			}
			switch x := v.(type) {
			case *ssa.UnOp:
				if ia, ok := x.X.(*ssa.IndexAddr); ok && isZeroConst(ia.Index) {
					if p, ok := ia.X.(*ssa.Parameter); ok && p.Parent() == parse {
						return eng.AStr(t.arg), true
					}
				}
			case *ssa.BinOp:
				// there are arguments
				if call, ok := x.X.(*ssa.Call); ok && builtinCall(call, "len") != nil && isZeroConst(x.Y) {
					switch x.Op {
					case token.EQL, token.LEQ:
						return eng.ABool(false), true
					case token.NEQ, token.GTR:
						return eng.ABool(true), true
					}
				}
			}
			return eng.AV{}, false
		}, Event: func(in ssa.Instruction) string {
			v, ok := in.(ssa.Value)
			switch {
			case !ok:
			case isCompile(v):
				return "compile"
			case isLink(v):
				return "link"
			}
			return ""
		}}
		outs := ex.Run(parse)
		r.Check(len(outs) > 0, t.arg, w.Pos(parse.Pos()), "cannot tell how %s is treated", t.arg)
		for _, o := range outs {
			good := !o.Panics && o.Has("compile") == (t.want == "compile") && o.Has("link") == (t.want == "link") && o.Rets[0].K == eng.ANonNil && o.Rets[1].K == eng.ANil
			r.Check(good, t.arg+" is "+t.want, w.Pos(parse.Pos()), "the command running %s is not treated as %s", t.arg, t.want)
		}
	}
}
