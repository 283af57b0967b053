package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

const goproxyPkg = "internal/goproxy"

func init() {
	register(&Prop{ID: "P02", Technique: "abstract interpretation of the construction of the go command line over lists with a part of unknown length; path analysis of starting the job server and the command; value provenance of environment and streams", Run: runGoCommand})
	register(&Prop{ID: "G03", Technique: "audit of every explicit exit status, path analysis of main, and abstract interpretation of how the go command's exit status is passed on", Run: runExit})
}

// symbolic elements of argument lists
func sym(s string) eng.AV { return eng.ASym(s) }

func listOf(rest string, pre ...eng.AV) *eng.List { return &eng.List{Pre: pre, Rest: rest} }

func strs(l ...string) []eng.AV {
	var r []eng.AV
	for _, s := range l {
		if strings.HasPrefix(s, "<") {
			r = append(r, sym(strings.Trim(s, "<>")))
		} else {
			r = append(r, eng.AStr(s))
		}
	}
	return r
}

func runGoCommand(c *Ctx) {
	rArgs := c.Rule("P02.arguments", "the go command is given the user's arguments, in order, with -toolexec and its value right after the name of a command that builds")
	rEnv := c.Rule("P02.environment", "the go command has the process's environment and standard streams, and the URL of the job server when it builds")
	rSrv := c.Rule("P02.server", "the go command only starts once the job server is known to listen; when it does not, nothing is run")
	rDir := c.Rule("P02.directory", "a -C flag is honoured, removed, and takes effect before anything else is done")
	rTool := c.Rule("P02.toolexec", "the program given to -toolexec is this executable, with its toolexec command")
	rOnce := c.Rule("P02.once", "the command built is run exactly once, unless building it failed")

	build := rArgs.Fn(goproxyPkg, "BuildCmd")
	run := rOnce.Fn(goproxyPkg, "Run")
	dashC := rDir.Fn(goproxyPkg, "ProcessDashC")
	if build == nil || run == nil || dashC == nil {
		return
	}
	c.goArguments(rArgs, rEnv, rSrv, build)
	c.serverHandshake(rSrv, build)
	c.dashC(rDir, dashC)
	c.toolexecOption(rTool)
	c.runOnce(rOnce, run, build)
	c.dirFirst(rDir, dashC, run, build)
}

// cmdMade: the call makes the command to execute; idx is the first of name and arguments.
func cmdMade(call *ssa.Call) (int, bool) {
	switch eng.Key(call) {
	case "os/exec.Command":
		return 0, true
	case "os/exec.CommandContext":
		return 1, true
	}
	return 0, false
}

// envEntry: v is the environment entry giving the job server's URL.
func (c *Ctx) envEntry(v ssa.Value) bool {
	url := c.derives(v, func(o ssa.Value) bool {
		call, ok := o.(*ssa.Call)
		return ok && strings.HasSuffix(eng.MKey(call), "jobserver.Server.ClientURL")
	})
	if !url {
		return false
	}
	const name = "ORCHESTRION_JOBSERVER_URL"
	switch x := eng.Unwrap(v).(type) {
	case *ssa.Call:
		if eng.Key(x) != "fmt.Sprintf" {
			return false
		}
		f, _ := eng.ConstString(eng.ArgOf(x, 0))
		va := eng.VarArgs(eng.ArgOf(x, 1))
		if f == name+"=%s" && len(va) == 1 {
			return true
		}
		if f != "%s=%s" || len(va) != 2 {
			return false
		}
		n, _ := eng.ConstString(eng.Unwrap(va[0]))
		return n == name
	case *ssa.BinOp:
		s := ""
		var flat func(v ssa.Value)
		flat = func(v ssa.Value) {
			if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
				flat(b.X)
				flat(b.Y)
				return
			}
			if k, ok := eng.ConstString(v); ok {
				s += k
			} else {
				s += "%"
			}
		}
		flat(x)
		return s == name+"=%"
	}
	return false
}

func (c *Ctx) goArguments(rArgs, rEnv, rSrv *R, build *ssa.Function) {
	w := c.W
	builds := []string{"build", "clean", "get", "install", "list", "run", "test"}
	type sc struct {
		name     string
		args     *eng.List
		toolexec bool
		server   bool // starts
		want     *eng.List
	}
	var scs []sc
	T := eng.AStr("the toolexec value")
	for _, b := range builds {
		scs = append(scs,
			sc{b, listOf("args", strs(b)...), true, true, listOf("args", append(strs(b, "-toolexec"), T)...)},
			sc{b + " with two arguments", listOf("", strs(b, "<x>", "<y>")...), true, true, listOf("", append(append(strs(b, "-toolexec"), T), strs("<x>", "<y>")...)...)},
			sc{b + ", the job server failing", listOf("args", strs(b)...), true, false, nil},
			sc{b + " without toolexec", listOf("args", strs(b)...), false, true, listOf("args", strs(b)...)})
	}
	for _, o := range []string{"mod", "version", "env", "tool", "help"} {
		scs = append(scs, sc{o, listOf("args", strs(o)...), true, true, listOf("args", strs(o)...)})
	}
	scs = append(scs, sc{"no argument", listOf(""), true, true, listOf("")})
	for _, s := range scs {
		pos := w.Pos(build.Pos())
		made := map[string]bool{}
		envs, flags := map[string]bool{}, map[string]bool{}
		ex := &eng.Exploration{W: w, Lists: true, Gos: true, Repeat: true}
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			switch x := v.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
					f := eng.FieldVar(fa)
					if f.Name() == "toolexec" && f.Pkg() != nil && strings.HasSuffix(f.Pkg().Path(), goproxyPkg) {
						if s.toolexec {
							return T, true
						}
						return eng.AStr(""), true
					}
				}
			case *ssa.Call:
				switch k := eng.MKey(x); {
				case strings.HasSuffix(k, "goenv.GoBinPath"):
					return tuple(sym("go"), eng.ANilV()), true
				case k == "internal/jobserver.New":
					if s.server {
						return tuple(eng.ANonNilV(), eng.ANilV()), true
					}
					return tuple(eng.ANilV(), eng.ANonNilV()), true
				case k == "os.Environ":
					return eng.AListOf(eng.List{Rest: "environ"}), true
				}
				if c.envEntry(x) {
					return sym("job server"), true
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && c.envEntry(x) {
					return sym("job server"), true
				}
			}
			return eng.AV{}, false
		}
		ex.Event = func(in ssa.Instruction) string {
			switch x := in.(type) {
			case *ssa.Call:
				if _, ok := cmdMade(x); ok {
					return "made"
				}
				if eng.MKey(x) == "internal/jobserver.New" {
					return "server"
				}
				if eng.MKey(x) == flagsPkg+".SetFlags" {
					return "flags"
				}
			case *ssa.Store:
				for _, st := range []string{"Stdin", "Stdout", "Stderr"} {
					if c.extPkgField(x.Addr, "os/exec", "Cmd", st) && globalOf(eng.Unwrap(x.Val)) == "os."+st {
						return st
					}
				}
				if c.extPkgField(x.Addr, "os/exec", "Cmd", "Dir") || c.extPkgField(x.Addr, "os/exec", "Cmd", "Args") || c.extPkgField(x.Addr, "os/exec", "Cmd", "Path") {
					return "altered"
				}
				if c.extPkgField(x.Addr, "os/exec", "Cmd", "Env") {
					return "env"
				}
			}
			return ""
		}
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			switch x := in.(type) {
			case *ssa.Call:
				if i, ok := cmdMade(x); ok {
					made[fmt.Sprint(eval(x.Call.Args[i]), " ", eval(x.Call.Args[i+1]))] = true
				}
				if eng.MKey(x) == flagsPkg+".SetFlags" {
					flags[fmt.Sprint(eval(x.Call.Args[1]), " ", eval(x.Call.Args[2]))] = true
				}
			case *ssa.Store:
				if c.extPkgField(x.Addr, "os/exec", "Cmd", "Env") {
					envs[fmt.Sprint(eval(x.Val))] = true
				}
			}
			return false
		}
		outs := ex.Run(build, eng.AUnk(), eng.AListOf(*s.args))
		rArgs.Check(len(outs) > 0 && !ex.Exhausted, s.name+": explored", pos, "the paths building the command could not be followed")
		starts := s.want != nil && s.toolexec && s.want.String() != s.args.String()
		for _, o := range outs {
			if o.Panics {
				continue // nothing is run
			}
			err := o.Rets[len(o.Rets)-1]
			switch {
			case s.want == nil:
				rSrv.Check(err.K == eng.ANonNil, s.name, pos, "the go command runs without the job server it needs")
			case err.K == eng.ANonNil:
				rArgs.Bad(s.name+": built", pos, "the command is refused")
			default:
				rArgs.Check(o.Has("made") && !o.Has("made+") && !o.Has("altered"), s.name+": made", pos, "not exactly the go command is made, or it is altered")
				rEnv.Check(o.Has("Stdin") && o.Has("Stdout") && o.Has("Stderr") && !o.Has("Stdin+") && !o.Has("Stdout+") && !o.Has("Stderr+"), s.name+": streams", pos, "the go command is not given the three standard streams")
				rSrv.Check(o.Has("server") == starts && !o.Has("server+"), s.name+": server", pos, "a job server is started exactly for the commands that build")
				if starts {
					rSrv.Check(o.Has("flags"), s.name+": flags given", pos, "the job server is not told the flags of the go command")
					rEnv.Check(o.Has("env"), s.name+": environment set", pos, "the go command is not told the job server's URL")
				}
			}
		}
		if s.want != nil {
			rArgs.Check(len(made) == 1 && made["<go> "+s.want.String()], s.name+": command line", pos, "given %s, the go command is run as %v instead of %s", s.args, keysOf(made), "<go> "+s.want.String())
			for f := range flags {
				dir, l, _ := strings.Cut(f, " ")
				rSrv.Check((dir == `""` || dir == `"."`) && (l == s.want.String() || l == s.args.String()), s.name+": flags", pos, "the job server is told the flags are %s instead of %s", f, s.want)
			}
			want := "[environ...]"
			if starts {
				want = "[environ... <job server>]"
			}
			for e := range envs {
				rEnv.Check(e == want, s.name+": environment", pos, "the environment of the go command is %s instead of %s", e, want)
			}
		}
	}
	rArgs.Min(60)
	rEnv.Min(30)
}

// serverHandshake: what a goroutine found out is read after it said so.
func (c *Ctx) serverHandshake(r *R, build *ssa.Function) {
	w := c.W
	n := 0
	for _, f := range c.Region(build) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			g, ok := in.(*ssa.Go)
			if !ok {
				return
			}
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				return
			}
			body := mc.Fn.(*ssa.Function)
			starts := false
			for _, h := range c.Region(body) {
				for _, ci := range eng.Calls(h) {
					starts = starts || eng.MKey(ci) == "internal/jobserver.New"
				}
			}
			if !starts {
				return
			}
			n++
			chans := map[ssa.Value]bool{} // variables holding the channels closed
			var closes []ssa.Instruction
			for _, ci := range eng.Calls(body) {
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
					closes = append(closes, ci)
					v := ci.Common().Args[0]
					if u, ok := v.(*ssa.UnOp); ok {
						v = u.X
					}
					for i, fv := range body.FreeVars {
						if v == ssa.Value(fv) {
							chans[mc.Bindings[i]] = true
						}
					}
				}
			}
			isClose := func(x ssa.Instruction) bool {
				for _, y := range closes {
					if x == y {
						return true
					}
				}
				return false
			}
			// shut down only once the command is over
			over := func(x ssa.Instruction) bool {
				u, ok := x.(*ssa.UnOp)
				if !ok || u.Op != token.ARROW {
					return false
				}
				call, ok := u.X.(*ssa.Call)
				return ok && eng.Key(call) == "context.Context.Done"
			}
			overEdge := func(from, to *ssa.BasicBlock) bool {
				call, ok := receivedFrom(from, to).(*ssa.Call)
				return ok && eng.Key(call) == "context.Context.Done"
			}
			shuts := func(h *ssa.Function) bool {
				for _, k := range c.Region(h) {
					for _, ci := range eng.Calls(k) {
						if eng.MKey(ci) == "internal/jobserver.Server.Shutdown" {
							return true
						}
					}
				}
				return false
			}
			for _, ci := range eng.Calls(body) {
				var h *ssa.Function
				if h = ci.Common().StaticCallee(); h == nil || eng.MKey(ci) != "internal/jobserver.Server.Shutdown" && !(eng.Rel(h) == goproxyPkg && shuts(h)) {
					continue
				}
				if _, ok := ci.(*ssa.Go); ok {
					r.Bad("lifetime", w.At(ci), "the job server is shut down at any time")
					continue
				}
				good := true
				if d, ok := ci.(*ssa.Defer); ok {
					for _, b := range body.Blocks {
						if rd, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && eng.CanReach(d, rd) {
							good = good && c.happensBetween(d, rd, over, overEdge)
						}
					}
				} else {
					good = c.happensBetween(body.Blocks[0].Instrs[0], ci, over, overEdge)
				}
				r.Check(good, "lifetime", w.At(ci), "the job server can be shut down before the go command is over")
			}
			// told on every path, before waiting
			leak := w.MustDo(body, isClose, nil, nil)
			r.Check(leak == nil && len(chans) > 0, "goroutine tells", w.At(in), "the goroutine starting the job server does not always tell that it is done")
			instrs([]*ssa.Function{body}, func(_ *ssa.Function, x ssa.Instruction) {
				if u, ok := x.(*ssa.UnOp); ok && u.Op == token.ARROW {
					r.Check(w.PrecededIn(x, isClose), "goroutine waits", w.At(x), "the goroutine waits before telling that the job server is started")
				}
				s, ok := x.(*ssa.Store)
				if !ok {
					return
				}
				fv, ok := s.Addr.(*ssa.FreeVar)
				if !ok {
					return
				}
				late := false
				for _, cl := range closes {
					late = late || eng.CanReach(cl, s)
				}
				r.Check(!late, "result before telling", w.At(x), "the goroutine tells it is done before its result is stored")
				// reads, in the function starting it
				for i, o := range body.FreeVars {
					if o != fv {
						continue
					}
					b := mc.Bindings[i]
					if b.Referrers() == nil {
						continue
					}
					for _, u := range *b.Referrers() {
						ld, ok := u.(*ssa.UnOp)
						if !ok || !eng.CanReach(g, ld) {
							continue
						}
						recv := func(y ssa.Instruction) bool {
							z, ok := y.(*ssa.UnOp)
							if !ok || z.Op != token.ARROW {
								return false
							}
							v := z.X
							if l, ok := v.(*ssa.UnOp); ok {
								v = l.X
							}
							return chans[v]
						}
						chosen := func(from, to *ssa.BasicBlock) bool {
							ch := receivedFrom(from, to)
							if l, ok := ch.(*ssa.UnOp); ok {
								ch = l.X
							}
							return ch != nil && chans[ch]
						}
						// from the goroutine's start to the read
						r.Check(c.happensBetween(g, ld, recv, chosen), "result after being told", w.At(ld), "the result of starting the job server is read before it is known")
					}
				}
			})
		})
	}
	c.Count("goroutines starting a job server", n)
}

// receivedFrom: the edge is taken when a select has received from a channel.
func receivedFrom(from, to *ssa.BasicBlock) ssa.Value {
	lit, ok := eng.EdgeLit(from, to)
	if !ok {
		return nil
	}
	b, ok := lit.V.(*ssa.BinOp)
	if !ok || !(b.Op == token.EQL && lit.Pol || b.Op == token.NEQ && !lit.Pol) {
		return nil
	}
	ex, n := b.X, b.Y
	if _, ok := ex.(*ssa.Const); ok {
		ex, n = n, ex
	}
	e, ok := ex.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return nil
	}
	sel, ok := e.Tuple.(*ssa.Select)
	i, isN := eng.ConstInt(n)
	if !ok || !isN || i < 0 || int(i) >= len(sel.States) || sel.States[i].Dir != types.RecvOnly {
		return nil
	}
	return sel.States[i].Chan
}

// happensBetween: on every path from a to b an event occurs.
func (c *Ctx) happensBetween(a, b ssa.Instruction, ev func(ssa.Instruction) bool, edge func(from, to *ssa.BasicBlock) bool) bool {
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	idx := 0
	for i, x := range a.Block().Instrs {
		if x == a {
			idx = i + 1
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []at{{a.Block(), idx}}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		hit := false
		for _, x := range t.b.Instrs[t.i:] {
			if x == b {
				return false
			}
			if ev(x) {
				hit = true
				break
			}
		}
		if hit {
			continue
		}
		for _, s := range t.b.Succs {
			if edge != nil && edge(t.b, s) {
				continue
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, at{s, 0})
			}
		}
	}
	return true
}

func (c *Ctx) dashC(r *R, fn *ssa.Function) {
	w := c.W
	pos := w.Pos(fn.Pos())
	D := sym("dir")
	type sc struct {
		name string
		in   *eng.List
		dir  string
		out  *eng.List
	}
	app := func(a []eng.AV, b ...eng.AV) []eng.AV { return append(append([]eng.AV(nil), a...), b...) }
	var scs []sc
	for _, fl := range []string{"-C", "--C"} {
		scs = append(scs,
			sc{"leading " + fl, listOf("args", app(strs(fl), D)...), D.String(), listOf("args")},
			sc{"leading " + fl + "=", listOf("args", strs(fl+"=some/dir")...), `"some/dir"`, listOf("args")},
			sc{fl + " after the command", listOf("args", app(strs("build", fl), D)...), D.String(), listOf("args", strs("build")...)},
			sc{fl + "= after the command", listOf("args", strs("test", fl+"=some/dir")...), `"some/dir"`, listOf("args", strs("test")...)},
			sc{fl + " after an argument", listOf("args", app(strs("run", "main.go", fl), D)...), "", nil},
			sc{fl + " after a flag", listOf("args", app(strs("build", "-x", fl), D)...), "", nil},
			sc{fl + " without a value", listOf("", strs("build", fl)...), "", nil},
		)
	}
	scs = append(scs,
		sc{"no flag", listOf("args", strs("build", "./...")...), "", nil},
		sc{"other flag", listOf("args", strs("build", "-tags", "a")...), "", nil},
		sc{"another flag starting with -C", listOf("args", strs("vet", "-Cfoo", "x")...), "", nil},
		sc{"no argument", listOf(""), "", nil},
		sc{"one argument", listOf("", strs("version")...), "", nil},
	)
	for _, s := range scs {
		if s.out == nil {
			s.out = s.in
		}
		for _, fails := range []bool{false, true} {
			if fails && s.dir == "" {
				continue
			}
			name := s.name
			if fails {
				name += ", failing"
			}
			dirs := map[string]bool{}
			ex := &eng.Exploration{W: w, Lists: true, Repeat: true, Atom: func(v ssa.Value) (eng.AV, bool) {
				if call, ok := v.(*ssa.Call); ok && eng.Key(call) == "os.Chdir" {
					if fails {
						return eng.ANonNilV(), true
					}
					return eng.ANilV(), true
				}
				return eng.AV{}, false
			}, Event: func(in ssa.Instruction) string {
				if call, ok := in.(*ssa.Call); ok && eng.Key(call) == "os.Chdir" {
					return "chdir"
				}
				return ""
			}, At: func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				if call, ok := in.(*ssa.Call); ok && eng.Key(call) == "os.Chdir" {
					dirs[eval(call.Call.Args[0]).String()] = true
				}
				return false
			}}
			outs := ex.Run(fn, eng.AUnk(), eng.AListOf(*s.in))
			r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", pos, "the paths handling -C could not be followed")
			for _, o := range outs {
				if o.Panics || len(o.Rets) != 2 {
					r.Bad(name, pos, "handling -C panics")
					continue
				}
				if s.dir == "" {
					r.Check(!o.Has("chdir"), name+": directory", pos, "given %s, the directory is changed to %v", s.in, keysOf(dirs))
				} else {
					r.Check(o.Has("chdir") && !o.Has("chdir+") && len(dirs) == 1 && dirs[s.dir], name+": directory", pos, "given %s, the directory is changed to %v", s.in, keysOf(dirs))
				}
				if fails {
					r.Check(o.Rets[1].K == eng.ANonNil, name, pos, "failing to enter the directory is not reported")
					continue
				}
				got := o.Rets[0].String()
				if o.Rets[0].K == eng.ANil {
					got = "[]"
				}
				r.Check(o.Rets[1].K == eng.ANil && got == s.out.String(), name, pos, "given %s, %s is left instead of %s", s.in, got, s.out)
			}
		}
	}
	r.Min(30)
}

// toolexecOption: every go command that may build is given this executable.
func (c *Ctx) toolexecOption(r *R) {
	w := c.W
	n := 0
	for _, f := range c.shipped() {
		for _, ci := range eng.Calls(f) {
			switch eng.MKey(ci) {
			case goproxyPkg + ".Run", goproxyPkg + ".BuildCmd":
				if eng.Rel(f) == goproxyPkg {
					continue
				}
				n++
				opts := eng.ArgOf(ci, 2)
				has := opts != nil && c.derives(opts, func(o ssa.Value) bool {
					call, ok := o.(*ssa.Call)
					return ok && eng.MKey(call) == goproxyPkg+".WithToolexec"
				})
				if !has && opts != nil {
					for _, v := range eng.VarArgs(opts) {
						has = has || v != nil && c.derives(v, func(o ssa.Value) bool {
							call, ok := o.(*ssa.Call)
							return ok && eng.MKey(call) == goproxyPkg+".WithToolexec"
						})
					}
				}
				r.Check(has, "option "+eng.Name(eng.Root(f)), w.At(ci), "the go command is run without -toolexec")
			case goproxyPkg + ".WithToolexec":
				va := eng.VarArgs(eng.ArgOf(ci, 1))
				good := globalOf(eng.ArgOf(ci, 0)) == "internal/binpath.Orchestrion" && len(va) == 1
				if good {
					s, _ := eng.ConstString(va[0])
					good = s == "toolexec"
				}
				r.Check(good, "program "+eng.Name(eng.Root(f)), w.At(ci), "-toolexec does not run this executable's toolexec command")
			}
		}
	}
	// the option's value: each part quoted, separated by a space
	if f := r.Fn(goproxyPkg, "WithToolexec"); f != nil {
		fld := r.Field(goproxyPkg, "config", "toolexec")
		sets := 0
		for _, g := range c.Region(f) {
			for _, s := range fieldStores([]*ssa.Function{g}, fld) {
				sets++
				bin := c.derives(s.Val, func(o ssa.Value) bool { return o == ssa.Value(f.Params[0]) }) || c.textOf(s.Val, f.Params[0])
				args := c.derives(s.Val, func(o ssa.Value) bool { return o == ssa.Value(f.Params[1]) }) || c.textOf(s.Val, f.Params[1])
				r.Check(c.allQuoted(f), "quoted", w.At(s), "the program or its arguments are not quoted in the value of -toolexec")
				r.Check(bin && args, "value", w.At(s), "the value of -toolexec lacks the program or its arguments")
			}
		}
		r.Check(sets > 0, "value set", w.Pos(f.Pos()), "the value of -toolexec is not set")
	}
	r.Min(4)
}

// exactly: v is x, passed around as it is.
func (c *Ctx) exactly(v, x ssa.Value) bool {
	for i := 0; i < 5; i++ {
		v = eng.ResolveLocal(v)
		if v == x {
			return true
		}
		p, ok := v.(*ssa.Parameter)
		if !ok {
			return false
		}
		cs := c.W.Callers(p.Parent())
		if len(cs) != 1 {
			return false
		}
		n := -1
		for k, q := range p.Parent().Params {
			if q == p {
				n = k
			}
		}
		if n < 0 || n >= len(cs[0].Common().Args) {
			return false
		}
		v = cs[0].Common().Args[n]
	}
	return false
}

// allQuoted: whatever f formats is quoted.
func (c *Ctx) allQuoted(f *ssa.Function) bool {
	n := 0
	raw := func(v ssa.Value) bool {
		v = eng.ResolveLocal(eng.Unwrap(v))
		if _, ok := v.(*ssa.Parameter); ok {
			return v.Type().Underlying().String() == "string" || v.Type().Underlying().String() == "[]string"
		}
		if u, ok := v.(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				_, isP := ia.X.(*ssa.Parameter)
				return isP
			}
		}
		return false
	}
	for _, g := range c.Region(f) {
		cat := false
		instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
			if b, ok := in.(*ssa.BinOp); ok && b.Op == token.ADD {
				cat = cat || raw(b.X) || raw(b.Y)
			}
		})
		if cat {
			return false
		}
		for _, ci := range eng.Calls(g) {
			k := eng.Key(ci)
			if strings.HasSuffix(k, ".WriteString") || k == "strings.Join" {
				for _, a := range ci.Common().Args {
					if raw(a) {
						return false
					}
				}
			}
			switch k {
			case "strconv.Quote", "strconv.AppendQuote":
				n++
			case "fmt.Fprintf", "fmt.Sprintf", "fmt.Appendf":
				i := 1
				if k == "fmt.Sprintf" {
					i = 0
				}
				format, ok := eng.ConstString(eng.ArgOf(ci, i))
				verbs := strings.Split(strings.ReplaceAll(format, "%%", ""), "%")
				vals := eng.VarArgs(eng.ArgOf(ci, i+1))
				if !ok || len(verbs)-1 != len(vals) {
					return false
				}
				for j, v := range verbs[1:] {
					switch {
					case strings.HasPrefix(v, "q"):
						n++
					case strings.HasPrefix(v, "d"), strings.HasPrefix(v, "t"):
					default:
						call, ok := eng.Unwrap(vals[j]).(*ssa.Call)
						if !ok || eng.Key(call) != "strconv.Quote" {
							return false
						}
					}
				}
			}
		}
	}
	return n >= 1
}

// textOf: v is the text of a buffer into which x (or its elements) was printed.
func (c *Ctx) textOf(v, x ssa.Value) bool {
	hit := false
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		call, ok := o.(*ssa.Call)
		if !ok {
			return eng.Follow
		}
		k := eng.Key(call)
		if k != "strings.Builder.String" && k != "bytes.Buffer.String" {
			return eng.Follow
		}
		buf := eng.ResolveLocal(call.Call.Args[0])
		for _, f := range c.Region(call.Parent()) {
			for _, ci := range eng.Calls(f) {
				in := false
				for _, a := range ci.Common().Args {
					in = in || eng.ResolveLocal(eng.Unwrap(a)) == buf
				}
				if !in || ci == ssa.CallInstruction(call) {
					continue
				}
				for _, a := range ci.Common().Args {
					vs := append(eng.VarArgs(a), a)
					for _, y := range vs {
						if y == nil || eng.ResolveLocal(eng.Unwrap(y)) == buf {
							continue
						}
						if c.derives(y, func(o ssa.Value) bool {
							if o == x {
								return true
							}
							u, ok := o.(*ssa.UnOp)
							if !ok {
								return false
							}
							ia, ok := u.X.(*ssa.IndexAddr)
							return ok && ia.X == x
						}) {
							hit = true
						}
					}
				}
			}
		}
		return eng.Stop
	})
	return hit
}

func (c *Ctx) runOnce(r *R, run, build *ssa.Function) {
	w := c.W
	pos := w.Pos(run.Pos())
	for _, kind := range []string{"", "fails", "broken"} {
		fails, broken := kind == "fails", kind == "broken"
		ex := &eng.Exploration{W: w, Repeat: true, Defers: true, Inline: func(g *ssa.Function) bool { return g != build && eng.PkgOf(g) == eng.PkgOf(run) },
			Atom: func(v ssa.Value) (eng.AV, bool) {
				call, ok := v.(*ssa.Call)
				if !ok {
					return eng.AV{}, false
				}
				if call.Call.StaticCallee() == build {
					if fails {
						return tuple(eng.ANilV(), eng.ANonNilV()), true
					}
					return tuple(eng.ANonNilV(), eng.ANilV()), true
				}
				if isCmdRun(call) {
					if broken {
						return eng.ANonNilV(), true
					}
					return eng.ANilV(), true
				}
				return eng.AV{}, false
			}, Event: func(in ssa.Instruction) string {
				if call, ok := in.(*ssa.Call); ok && isCmdRun(call) {
					return "run"
				}
				return ""
			}}
		for _, o := range ex.Run(run) {
			if fails {
				r.Check(!o.Has("run") && !o.Panics && o.Rets[0].K == eng.ANonNil, "command not built", pos, "a command that could not be built is run, or reported as a success")
			} else if broken {
				r.Check(o.Panics || o.Has("run") && !o.Has("run+") && o.Rets[0].K != eng.ANil, "command failing", pos, "a command which fails is run again, or is reported as a success")
			} else {
				r.Check(o.Has("run") && !o.Has("run+") && !o.Panics && o.Rets[0].K == eng.ANil, "command built", pos, "the command is not run exactly once, or its success is not reported")
			}
		}
	}
	// each option given is taken into account
	applied := 0
	for _, f := range c.Region(build) {
		for _, l := range eng.Loops(f) {
			if l.Over == nil || !c.exactly(l.Over, build.Params[2]) {
				continue
			}
			app := func(in ssa.Instruction) bool {
				ci, ok := in.(*ssa.Call)
				return ok && l.IsElem(ci.Call.Value)
			}
			if l.Always(app, nil) && w.EarlyExit(l, nil) == nil {
				applied++
			}
		}
	}
	r.Check(applied > 0, "options applied", w.Pos(build.Pos()), "some of the options given are not taken into account")
	// the command is not cancelled before it is over
	for _, f := range c.Region(run) {
		if f == build || eng.Rel(f) != goproxyPkg {
			continue
		}
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok || call.Call.IsInvoke() || call.Call.StaticCallee() != nil || eng.ResolveLocal(call.Call.Value).Type().String() != "context.CancelFunc" {
				continue
			}
			after := func(in ssa.Instruction) bool {
				x, ok := in.(*ssa.Call)
				return ok && isCmdRun(x)
			}
			pre, _ := w.MustPrecede(call, w.LiftEvent(after), nil)
			r.Check(pre, "cancelled", w.At(ci), "the command can be cancelled before it is over")
		}
	}
	// the arguments are passed through
	for _, ci := range eng.Calls(run) {
		if ci.Common().StaticCallee() == build {
			r.Check(eng.ResolveLocal(eng.ArgOf(ci, 1)) == ssa.Value(run.Params[1]), "arguments passed", w.At(ci), "the arguments built from are not those given")
			r.Check(c.derives(eng.ArgOf(ci, 2), func(o ssa.Value) bool { return o == ssa.Value(run.Params[2]) }) || carriesArg(ci, run.Params[2]), "options passed", w.At(ci), "the options given are not passed on")
		}
	}
	r.Min(4)
}

func carriesArg(ci ssa.CallInstruction, p ssa.Value) bool {
	a, ok := eng.ArgOf(ci, 2).(*ssa.Call)
	if !ok {
		return false
	}
	for _, x := range a.Call.Args {
		if x == p {
			return true
		}
		for _, y := range eng.VarArgs(x) {
			if y == p {
				return true
			}
		}
	}
	return false
}

func isCmdRun(call *ssa.Call) bool {
	switch eng.Key(call) {
	case "os/exec.Cmd.Run", "os/exec.Cmd.Start", "os/exec.Cmd.Output", "os/exec.Cmd.CombinedOutput":
		return true
	}
	return false
}

// dirFirst: -C is dealt with before pinning and running, and what it leaves is what is run.
func (c *Ctx) dirFirst(r *R, dashC, run, build *ssa.Function) {
	w := c.W
	isC := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && ci.Common().StaticCallee() == dashC
	}
	for _, f := range c.shipped() {
		for _, ci := range eng.Calls(f) {
			g := ci.Common().StaticCallee()
			k := eng.MKey(ci)
			switch {
			case (g == run || g == build) && eng.Rel(f) != goproxyPkg:
				if g != run {
					// an other command, which may add flags of its own
					ok := c.derives(eng.ArgOf(ci, 1), func(o ssa.Value) bool {
						ex, isEx := o.(*ssa.Extract)
						if !isEx {
							return false
						}
						call, isCall := ex.Tuple.(*ssa.Call)
						return isCall && call.Call.StaticCallee() == dashC
					})
					r.Check(ok, "arguments of "+eng.Name(eng.Root(f)), w.At(ci), "the go command is given arguments in which -C was not dealt with")
					continue
				}
				// as they are
				ok, n := true, 0
				w.Origins(eng.ArgOf(ci, 1), func(o ssa.Value) eng.Step {
					switch x := o.(type) {
					case *ssa.Extract:
						call, isCall := x.Tuple.(*ssa.Call)
						if isCall && call.Call.StaticCallee() == dashC && x.Index == 0 {
							n++
							c.userArguments(r, call)
							return eng.Stop
						}
					case *ssa.Call, *ssa.Slice, *ssa.Alloc, *ssa.Const:
						if call, isCall := o.(*ssa.Call); !isCall || len(w.Callees(call)) == 0 {
							if al, isAl := o.(*ssa.Alloc); !isAl || !isSliceVar(al) {
								ok = false
								return eng.Stop
							}
						}
					}
					return eng.Follow
				})
				r.Check(ok && n > 0, "arguments of "+eng.Name(eng.Root(f)), w.At(ci), "the go command is given arguments other than those left once -C was dealt with")
			case strings.HasSuffix(k, "pin.AutoPinOrchestrion") && c.reachesGo(f, run, build):
				ok, _ := w.MustPrecede(ci, isC, nil)
				r.Check(ok, "pinning in "+eng.Name(eng.Root(f)), w.At(ci), "the module in the directory orchestrion was started in is checked, instead of the one -C names")
			}
		}
	}
}

// reachesGo: f (or what it calls) runs the go command.
// isSliceVar: the variable holds a slice (rather than being the array of one).
func isSliceVar(al *ssa.Alloc) bool {
	_, ok := eng.Deref(al.Type()).Underlying().(*types.Slice)
	return ok
}

// userArguments: -C is looked for in the arguments of the command, as they are.
func (c *Ctx) userArguments(r *R, call *ssa.Call) {
	good, n := true, 0
	c.W.Origins(eng.ArgOf(call, 1), func(o ssa.Value) eng.Step {
		switch x := o.(type) {
		case *ssa.Call:
			if eng.Key(x) == "github.com/urfave/cli/v2.Args.Slice" {
				n++
				return eng.Stop
			}
			if len(c.W.Callees(x)) == 0 {
				good = false
				return eng.Stop
			}
		case *ssa.Slice, *ssa.Const:
			good = false
			return eng.Stop
		}
		return eng.Follow
	})
	r.Check(good && n > 0, "arguments given to "+eng.Name(eng.Root(call.Parent())), c.W.At(call), "these are not the arguments of the command, as they are")
}

func (c *Ctx) reachesGo(f, run, build *ssa.Function) bool {
	for _, g := range c.Region(f) {
		for _, ci := range eng.Calls(g) {
			if h := ci.Common().StaticCallee(); h != nil && (h == run || h == build) {
				return true
			}
		}
	}
	return false
}

// ---- G03

func runExit(c *Ctx) {
	w := c.W
	rCode := c.Rule("G03.status", "an explicit exit status is a non-zero constant, or that of a command which failed")
	rMain := c.Rule("G03.main", "main ends with a non-zero status whenever the application reports an error, and nothing intercepts errors before")
	rFwd := c.Rule("G03.forwarded", "the exit status of the go command is the one orchestrion ends with")

	for _, f := range c.shipped() {
		for _, ci := range eng.Calls(f) {
			var code ssa.Value
			switch k := eng.Key(ci); k {
			case "github.com/urfave/cli/v2.Exit", "github.com/urfave/cli/v2.NewExitError":
				code = eng.ArgOf(ci, 1)
			case "os.Exit", "syscall.Exit":
				code = eng.ArgOf(ci, 0)
			default:
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					v, isV := ci.(ssa.Value)
					good := isV && v.Referrers() != nil && c.recoveredReported(v)
					rMain.Check(good, "recover in "+eng.Name(eng.Root(f)), w.At(ci), "a panic is silenced")
				}
				continue
			}
			good := true
			why := ""
			w.Origins(code, func(o ssa.Value) eng.Step {
				switch x := o.(type) {
				case *ssa.Const:
					if n, ok := eng.ConstInt(x); !ok || n&0xff == 0 {
						good, why = false, "the status can be 0"
					}
					return eng.Stop
				case *ssa.Call:
					if exitCodeOf(x) != nil {
						return eng.Stop
					}
					if len(w.Callees(x)) == 0 {
						good, why = false, "the status is not known to be non-zero"
						return eng.Stop
					}
				case *ssa.BinOp, *ssa.Lookup, *ssa.IndexAddr:
					good, why = false, "the status is not known to be non-zero"
					return eng.Stop
				case *ssa.UnOp:
					if x.Op != token.MUL {
						good, why = false, "the status is not known to be non-zero"
						return eng.Stop
					}
				}
				return eng.Follow
			})
			rCode.Check(good, "status in "+eng.Name(eng.Root(f)), w.At(ci), "%s", why)
		}
	}
	rCode.Min(15)
	// a status not treated as a failure is not that of an error
	for _, f := range c.shipped() {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			b, ok := in.(*ssa.BinOp)
			if !ok {
				return
			}
			x, y := eng.ResolveLocal(b.X), b.Y
			n, isN := eng.ConstInt(y)
			if !isN {
				n, isN = eng.ConstInt(b.X)
				x = eng.ResolveLocal(b.Y)
			}
			call, isCall := x.(*ssa.Call)
			if !isN || !isCall || exitCodeOf(call) == nil {
				return
			}
			rCode.Check(b.Op == token.EQL || b.Op == token.NEQ, "comparison in "+eng.Name(eng.Root(f)), w.At(in), "exit statuses are compared by order")
			var makers []*ssa.Function
			w.Origins(exitCodeOf(call), func(o ssa.Value) eng.Step {
				if mk, ok := o.(*ssa.Call); ok {
					for _, g := range w.Callees(mk) {
						if g.Pkg != nil && w.InModule(g.Pkg.Pkg) {
							makers = append(makers, c.Region(g)...)
						}
					}
				}
				return eng.Follow
			})
			done := map[*ssa.Function]bool{}
			for _, g := range makers {
				if done[g] {
					continue
				}
				done[g] = true
				for _, ci := range eng.Calls(g) {
					if eng.Key(ci) != "github.com/urfave/cli/v2.Exit" {
						continue
					}
					if m, ok := eng.ConstInt(eng.ArgOf(ci, 1)); ok && m == n {
						isErr := eng.IsErrorType(eng.Unwrap(eng.ArgOf(ci, 0)).Type())
						rCode.Check(!isErr || n == 1, "distinct status in "+eng.Name(eng.Root(g)), w.At(ci), "an error is given the exit status %d, which is told apart in %s", n, eng.Name(eng.Root(f)))
					}
				}
			}
		})
	}

	// the commands report what fails
	rCmd := c.Rule("G03.commands", "in the commands and in main, an error is returned, or is one which does not matter")
	c.Count("functions of the commands", c.errorFates(rCmd, func(f *ssa.Function) bool {
		return eng.Rel(f) == "internal/cmd" || eng.Rel(f) == ""
	}))
	rCmd.Min(40)

	// nothing intercepts
	n := 0
	for _, f := range w.Funcs {
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			n++
			for _, fld := range []string{"ExitErrHandler", "OnUsageError", "CommandNotFound"} {
				for _, t := range []string{"App", "Command"} {
					if c.extPkgField(s.Addr, "github.com/urfave/cli/v2", t, fld) && !eng.IsNilConst(s.Val) {
						rMain.Bad(fld+" in "+eng.Name(eng.Root(f)), w.At(in), "errors are handled by %s instead of ending the process", fld)
					}
				}
			}
			if g := globalOf(s.Addr); g == "github.com/urfave/cli/v2.OsExiter" {
				rMain.Bad("OsExiter in "+eng.Name(eng.Root(f)), w.At(in), "ending the process is replaced")
			}
		})
	}
	c.Count("assignments looked at for handlers of errors", n)

	main := w.Func("", "main")
	if main == nil {
		rMain.Bad("anchor main", "-", "function main not found")
		return
	}
	found := 0
	for _, f := range c.Region(main) {
		for _, ci := range eng.Calls(f) {
			k := eng.Key(ci)
			if k != "github.com/urfave/cli/v2.App.RunContext" && k != "github.com/urfave/cli/v2.App.Run" {
				continue
			}
			found++
			call, ok := ci.(*ssa.Call)
			if !ok {
				rMain.Bad("application", w.At(ci), "the outcome of the application is ignored")
				continue
			}
			exits := func(in ssa.Instruction) bool {
				if _, ok := in.(*ssa.Panic); ok {
					return true
				}
				x, ok := in.(*ssa.Call)
				return ok && (eng.Key(x) == "os.Exit" || strings.HasPrefix(eng.Key(x), "log.Fatal"))
			}
			ok2 := true
			if eng.ErrIndex(f.Signature) >= 0 {
				fate, _ := w.FateWith(call, recognised, exits)
				ok2 = fate == eng.ErrPropagated
			}
			leak := w.MustFollow(call, c.W.LiftUnder(exits, nil), nil, func(l eng.Lit) bool {
				return nilLit(l, func(v ssa.Value) bool { return eng.ResolveLocal(v) == ssa.Value(call) }) == "nil"
			})
			rMain.Check(leak == nil && ok2, "application", w.At(ci), "the process can end with status 0 although the application reported an error")
		}
	}
	rMain.Check(found == 1, "application run", w.Pos(main.Pos()), "the application is run %d times", found)

	c.exitForwarded(rFwd)
}

// recoveredReported: what was recovered is raised again or becomes an error.
func (c *Ctx) recoveredReported(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int) bool
	walk = func(v ssa.Value, d int) bool {
		if d > 6 || seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Store:
				if x.Val == v && eng.IsErrorType(eng.Deref(x.Addr.Type())) {
					return true
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && walk(ia.X, d+1) {
					return true
				}
			case ssa.Value:
				if walk(x, d+1) {
					return true
				}
			}
		}
		return false
	}
	return walk(v, 0)
}

// exitCodeOf: the call obtains the exit status of what it returns.
func exitCodeOf(call *ssa.Call) ssa.Value {
	if call.Call.IsInvoke() {
		if call.Call.Method.Name() == "ExitCode" {
			return call.Call.Value
		}
		return nil
	}
	switch eng.Key(call) {
	case "os.ProcessState.ExitCode", "os/exec.ExitError.ExitCode":
		return call.Call.Args[0]
	}
	return nil
}

func (c *Ctx) exitForwarded(r *R) {
	w := c.W
	run := r.Fn(goproxyPkg, "Run")
	if run == nil {
		return
	}
	n := 0
	for _, s := range w.Callers(run) {
		action := s.Parent()
		if eng.Rel(action) != "internal/cmd" {
			continue
		}
		for {
			cs := w.Callers(action)
			if len(cs) == 1 && eng.PkgOf(cs[0].Parent()) == eng.PkgOf(action) {
				action = cs[0].Parent()
				continue
			}
			break
		}
		n++
		pos := w.Pos(action.Pos())
		for _, kind := range []string{"success", "exit status 7", "not started", "not built", "not pinned"} {
			isErr := kind == "exit status 7"
			ex := &eng.Exploration{W: w, Repeat: true, Defers: true, Lists: true,
				Inline: func(g *ssa.Function) bool {
					return eng.PkgOf(g) == eng.PkgOf(action) || g == run || eng.PkgOf(g) == eng.PkgOf(run) && g.Name() != "BuildCmd" && g.Name() != "ProcessDashC"
				}}
			ex.Atom = func(v ssa.Value) (eng.AV, bool) {
				switch x := v.(type) {
				case *ssa.TypeAssert:
					t := x.AssertedType.String()
					if strings.HasSuffix(t, "exec.ExitError") || strings.HasSuffix(t, "cli/v2.ExitCoder") {
						if x.CommaOk {
							return tuple(sym("exit error"), eng.ABool(isErr)), true
						}
						return sym("exit error"), true
					}
				case *ssa.Call:
					k := eng.MKey(x)
					switch {
					case isCmdRun(x):
						switch kind {
						case "exit status 7":
							return sym("exit error"), true
						case "not started":
							return sym("other error"), true
						}
						return eng.ANilV(), true
					case k == goproxyPkg+".ProcessDashC":
						return tuple(eng.AListOf(eng.List{Rest: "args"}), eng.ANilV()), true
					case k == goproxyPkg+".BuildCmd":
						if kind == "not built" {
							return tuple(eng.ANilV(), sym("other error")), true
						}
						return tuple(eng.ANonNilV(), eng.ANilV()), true
					case strings.HasSuffix(k, "pin.AutoPinOrchestrion"):
						if kind == "not pinned" {
							return sym("other error"), true
						}
						return eng.ANilV(), true
					case exitCodeOf(x) != nil:
						return eng.AInt(7), true
					case k == "errors.As":
						return eng.ABool(isErr), true
					}
				}
				return eng.AV{}, false
			}
			ex.Model = func(call *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
				switch eng.Key(call) {
				case "github.com/urfave/cli/v2.Exit":
					code := eval(call.Call.Args[1])
					return sym("exit " + code.String()), true
				}
				return eng.AV{}, false
			}
			outs := ex.Run(action)
			ended := 0
			for _, o := range outs {
				if o.Panics {
					continue // that is a failure, whatever the reason
				}
				ended++
				res := o.Rets[len(o.Rets)-1]
				switch kind {
				case "success":
					r.Check(res.K == eng.ANil, kind, pos, "a success of the go command is reported as %s", res)
				case "exit status 7":
					good := res.K == eng.ASymbol && (constant.StringVal(res.C) == "exit 7" || constant.StringVal(res.C) == "exit error")
					r.Check(good, kind, pos, "the go command ending with status 7 is reported as %s", res)
				default:
					r.Check(res.K == eng.ASymbol || res.K == eng.ANonNil, kind, pos, "the go command is %s, which is reported as %s", kind, res)
				}
			}
			r.Check(ended > 0 && !ex.Exhausted, kind+": explored", pos, "the paths of the go command could not be followed")
		}
	}
	r.Check(n > 0, "go command", "-", "no command running the go command was found")
	r.Min(10)
}

var _ = types.Universe
