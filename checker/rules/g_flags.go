package rules

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strconv"
	"strings"

	"orchverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "G05", Technique: "abstract interpretation of the flag parser over every build flag in every form and over combinations of arguments, compared with the go command's own rules; provenance of the command line parsed, of the coverage patterns and of the copies made", Run: runFlags})
}

const flagsPkg = "internal/goflags"

// The build flags of the go command (go help build, go help testflag), by whether they take a value.
var (
	goBoolFlags  = []string{"-a", "-asan", "-cover", "-linkshared", "-modcacherw", "-msan", "-race", "-trimpath", "-work"}
	goValueFlags = []string{"-asmflags", "-buildmode", "-buildvcs", "-compiler", "-covermode", "-coverpkg", "-gccgoflags", "-gcflags", "-installsuffix", "-ldflags", "-mod", "-modfile", "-overlay", "-pgo", "-pkgdir", "-tags", "-toolexec"}
	// flags which say nothing about what is built: without and with a value
	otherBoolFlags  = []string{"-n", "-v", "-x", "-json", "-short", "-failfast", "-benchmem", "-c", "-fullpath"}
	otherValueFlags = []string{"-run", "-timeout", "-coverprofile", "-o", "-exec", "-p", "-count"}
)

type parsedFlags struct {
	long       map[string]string
	short      map[string]bool
	positional []string
	fails      bool
}

func (p parsedFlags) String() string {
	if p.fails {
		return "an error"
	}
	var l []string
	for k, v := range p.long {
		l = append(l, k+"="+v)
	}
	for k := range p.short {
		l = append(l, k)
	}
	sort.Strings(l)
	return fmt.Sprintf("%q %q", l, p.positional)
}

// parseGo is how the go command understands the arguments (after "go").
func parseGo(env, args []string) parsedFlags {
	res := parsedFlags{long: map[string]string{}, short: map[string]bool{}}
	if len(args) > 0 && strings.HasPrefix(args[0], "-C") {
		if args[0] == "-C" {
			args = args[1:]
		}
		args = args[1:]
	}
	cmd := args[0]
	all := append(append([]string(nil), env...), args[1:]...)
	for i := 0; i < len(all); i++ {
		a := all[i]
		if a == "--" {
			res.positional = append(res.positional, all[i+1:]...)
			break
		}
		if !strings.HasPrefix(a, "-") {
			res.positional = append(res.positional, a)
			if cmd != "run" {
				continue
			}
			if strings.HasSuffix(a, ".go") {
				for i+1 < len(all) && strings.HasSuffix(all[i+1], ".go") {
					i++
					res.positional = append(res.positional, all[i])
				}
			}
			break
		}
		name, val, assigned := strings.Cut(a, "=")
		name = "-" + strings.TrimLeft(name, "-")
		if cmd == "test" && name == "-args" {
			break
		}
		switch {
		case has(goBoolFlags, name):
			on := true
			if assigned {
				on, _ = strconv.ParseBool(val)
			}
			if on {
				res.short[name] = true
			} else {
				delete(res.short, name)
			}
		case has(goValueFlags, name):
			if !assigned && name == "-buildvcs" {
				val = "true"
			} else if !assigned {
				if i++; i >= len(all) {
					return parsedFlags{fails: true}
				}
				val = all[i]
			}
			res.long[name] = val
		case has(otherValueFlags, name) && !assigned:
			i++
		}
	}
	return res
}

func runFlags(c *Ctx) {
	rEach := c.Rule("G05.table", "every build flag of the go command is known, and whether it takes a value")
	rParse := c.Rule("G05.parsed", "the arguments are understood as the go command does")
	rCov := c.Rule("G05.coverage", "coverage without a list of packages is for the packages named; relative patterns are expanded where the command runs")
	rSrc := c.Rule("G05.command", "the arguments parsed are those of the go command above this process, and once for all")
	rCopy := c.Rule("G05.copied", "the flags passed on are all those parsed but the ones removed")
	parse := rParse.Fn(flagsPkg, "ParseCommandFlags")
	if parse == nil {
		return
	}
	c.flagParser(rEach, rParse, parse)
	c.flagCoverage(rCov, parse)
	c.flagCommand(rSrc, parse)
	c.flagCopies(rCopy)
	c.quotedFields(c.Rule("G05.quoted", "the value of GOFLAGS is split as the go command does"))
}

// splitQuoted is how the go command splits GOFLAGS.
func splitQuoted(s string) (res []string, ok bool) {
	const space = " \t\n\r"
	for s = strings.TrimLeft(s, space); s != ""; s = strings.TrimLeft(s, space) {
		if q := s[0]; q == '"' || q == '\'' {
			f, rest, closed := strings.Cut(s[1:], string(q))
			if !closed {
				return nil, false
			}
			res, s = append(res, f), rest
			continue
		}
		n := strings.IndexAny(s, space)
		if n < 0 {
			n = len(s)
		}
		res, s = append(res, s[:n]), s[n:]
	}
	return res, true
}

// quotedFields compares how texts are split with how the go command does.
func (c *Ctx) quotedFields(r *R) {
	split := r.Fn(flagsPkg+"/quoted", "Split")
	if split == nil {
		return
	}
	pos := c.W.Pos(split.Pos())
	texts := []string{""}
	for from := 0; len(texts) < 1500; {
		to := len(texts)
		for _, t := range texts[from:to] {
			for _, ch := range []string{"a", "=", " ", "\t", "\"", "'"} {
				texts = append(texts, t+ch)
			}
		}
		from = to
	}
	texts = append(texts, "-tags=a,b  -race", "\n-x\r-y ", `-g='-N -l' '-d=a="b c"' -v`, `"-tags=a b"-race`, `-a="b" 'c`, `\"a`, "é è", "\v-a", "'' \"\"")
	for _, t := range texts {
		want, ok := splitQuoted(t)
		ex := &eng.Exploration{W: c.W, Lists: true, Small: 64, Objs: map[string]eng.AV{}, Inline: func(g *ssa.Function) bool { return eng.PkgOf(g) == eng.PkgOf(split) }}
		outs := ex.Run(split, eng.AStr(t))
		if !r.Check(len(outs) > 0 && !ex.Exhausted, fmt.Sprintf("%q: explored", t), pos, "how this is split could not be followed") {
			return
		}
		for _, o := range outs {
			if o.Panics || (o.Rets[1].K == eng.ANil) != ok || o.Rets[1].K == eng.AUnknown {
				r.Bad(fmt.Sprintf("%q", t), pos, "splitting this fails, or should have")
				return
			}
			l := eng.AListOf(*listOf("", strs(want...)...)).String()
			if !r.Check(!ok || o.Rets[0].String() == l || len(want) == 0 && o.Rets[0].K == eng.ANil, fmt.Sprintf("%q", t), pos, "split as %s, expected: %s", o.Rets[0], l) {
				return
			}
		}
	}
}

// globalMaps describes the package's maps, by the keys their initialisers give.
func (c *Ctx) globalMaps(pkg string) (objs map[string]eng.AV, names map[*ssa.Global]string) {
	objs, names = map[string]eng.AV{}, map[*ssa.Global]string{}
	stores := map[*ssa.Global]int{}
	var made = map[*ssa.Global]ssa.Value{}
	fns := map[*ssa.Function]bool{}
	for _, f := range append(c.W.FuncsIn(pkg), c.W.Init(pkg)...) {
		fns[f] = true
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok {
					stores[g]++
					made[g] = st.Val
				}
			}
		}
	}
	for g, v := range made {
		m, ok := v.(*ssa.MakeMap)
		if !ok || stores[g] != 1 {
			continue
		}
		id, good := "map@global."+g.Name(), true
		for _, ref := range *m.Referrers() {
			switch x := ref.(type) {
			case *ssa.MapUpdate:
				k, isC := eng.ConstString(x.Key)
				if !isC {
					good = false
					continue
				}
				v := eng.AUnk()
				if b, isB := eng.ConstBool(x.Value); isB {
					v = eng.ABool(b)
				} else if s, isS := eng.ConstString(x.Value); isS {
					v = eng.AStr(s)
				}
				objs[id+"["+eng.AStr(k).String()+"]"] = v
			case *ssa.Store, *ssa.DebugRef:
			default:
				good = false
			}
		}
		if good {
			names[g] = id
		}
	}
	return objs, names
}

type flagRun struct {
	exploration *eng.Exploration
	outs        []eng.Outcome
	positional  map[string]bool // what coverage is inferred for
}

// parseRun interprets the parser.
func (c *Ctx) parseRun(parse *ssa.Function, env, args []string, badEnv, badCover bool) flagRun {
	objs, names := c.globalMaps(flagsPkg)
	list := func(l []string) eng.AV {
		if len(l) == 0 {
			return eng.ANilV()
		}
		return eng.AListOf(*listOf("", strs(l...)...))
	}
	res := flagRun{positional: map[string]bool{}}
	ex := &eng.Exploration{W: c.W, Lists: true, Objs: objs, Inline: func(g *ssa.Function) bool {
		return eng.Rel(g) == flagsPkg
	}}
	ex.Deref = func(x *ssa.UnOp, _ func(ssa.Value) eng.AV) (eng.AV, bool) {
		if g, ok := x.X.(*ssa.Global); ok && names[g] != "" {
			return sym(names[g]), true
		}
		return eng.AV{}, false
	}
	ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
		switch k := eng.MKey(x); {
		case eng.Key(x) == "os.Getenv":
			if n, ok := eng.ConstAV(eval(x.Call.Args[0])); ok && n == "GOFLAGS" {
				return sym("GOFLAGS"), true
			}
		case k == flagsPkg+"/quoted.Split":
			if eval(x.Call.Args[0]).String() != "<GOFLAGS>" {
				return eng.AV{}, true
			}
			if badEnv {
				return tuple(eng.ANilV(), sym("quotes")), true
			}
			return tuple(list(env), eng.ANilV()), true
		case k == flagsPkg+".CommandFlags.inferCoverpkg":
			for _, a := range x.Call.Args {
				if strings.HasPrefix(a.Type().String(), "[]") {
					res.positional[eval(a).String()] = true
				}
			}
			if badCover {
				return sym("coverage"), true
			}
			return eng.ANilV(), true
		}
		return eng.AV{}, false
	}
	res.outs = ex.Run(parse, eng.AUnk(), sym("wd"), list(args))
	res.exploration = ex
	return res
}

// checkParse compares what is parsed with what the go command understands.
func (c *Ctx) checkParse(r *R, parse *ssa.Function, env, args []string) {
	pos := c.W.Pos(parse.Pos())
	name := strings.Join(args, " ")
	if len(env) > 0 {
		name += " with GOFLAGS=" + strings.Join(env, " ")
	}
	want := parseGo(env, args)
	run := c.parseRun(parse, env, args, false, false)
	if !r.Check(len(run.outs) > 0 && !run.exploration.Exhausted, name+": explored", pos, "how these arguments are parsed could not be followed") {
		return
	}
	for _, o := range run.outs {
		if o.Panics {
			r.Bad(name, pos, "parsing panics")
			continue
		}
		if failed := o.Rets[1].K != eng.ANil; want.fails || failed {
			r.Check(failed == want.fails && o.Rets[1].K != eng.AUnknown, name, pos, "the error is %s, expected: %s", o.Rets[1], want)
			continue
		}
		got := parsedFlags{long: map[string]string{}, short: map[string]bool{}, positional: want.positional}
		id := strings.Trim(o.Rets[0].String(), "<>")
		long, ok1 := o.Entries(o.Obj(id + ".Long"))
		short, ok2 := o.Entries(o.Obj(id + ".Short"))
		if !r.Check(ok1 && ok2, name+": known", pos, "which flags result could not be followed") {
			continue
		}
		for k, v := range long {
			s, ok := eng.ConstAV(v)
			if !ok {
				s = v.String()
			}
			got.long[k] = s
		}
		for k := range short {
			got.short[k] = true
		}
		r.Check(got.String() == want.String(), name, pos, "parsed as %s, expected: %s", got, want)
	}
	if !want.fails {
		l := eng.AListOf(*listOf("", strs(want.positional...)...)).String()
		for p := range run.positional {
			r.Check(p == l || p == "nil" && len(want.positional) == 0, name+": packages", pos, "the packages named are %s, expected: %s", p, l)
		}
		r.Check(len(run.positional) == 1, name+": coverage", pos, "the packages covered are not inferred from what is named")
	}
}

func (c *Ctx) flagParser(rEach, rParse *R, parse *ssa.Function) {
	w := c.W
	for _, f := range []string{"Long", "Short"} {
		rParse.Field(flagsPkg, "CommandFlags", f)
	}
	for _, f := range goBoolFlags {
		for _, a := range []string{f, "-" + f, f + "=true", f + "=1", f + "=false", "-" + f + "=0"} {
			c.checkParse(rEach, parse, nil, []string{"build", a, "./p"})
		}
		c.checkParse(rEach, parse, []string{f}, []string{"build"})
		c.checkParse(rEach, parse, []string{f}, []string{"build", f + "=false"})
	}
	for _, f := range goValueFlags {
		for _, l := range [][]string{{f, "v"}, {"-" + f, "v"}, {f + "=v"}, {f + "=a=b"}, {f + "="}, {f, "-race"}, {f, ""}, {f}} {
			if f == "-buildvcs" && len(l) == 2 {
				continue
			}
			c.checkParse(rEach, parse, nil, append([]string{"build"}, l...))
		}
		c.checkParse(rEach, parse, []string{f + "=u"}, []string{"build", f + "=v"})
	}
	for _, f := range otherBoolFlags {
		c.checkParse(rEach, parse, nil, []string{"test", f, "p", "-race"})
		c.checkParse(rEach, parse, nil, []string{"test", f + "=true", "p", "-race"})
	}
	for _, f := range otherValueFlags {
		c.checkParse(rEach, parse, nil, []string{"test", f, "v", "p", "-race"})
		c.checkParse(rEach, parse, nil, []string{"test", f + "=v", "p", "-race"})
	}
	tokens := []string{"-race", "--race=false", "-race=true", "-tags", "--tags=y", "-ldflags=-X a=b", "-buildvcs", "-v", "-run=X", "-cover", "p", "./...", "a.go", "--"}
	args := func(cmd string, l ...string) bool {
		// (the go command refuses flags after packages, except for tests)
		pos := false
		for i, t := range l {
			if t == "--" && cmd != "build" {
				return i+1 == len(l)
			}
			pos = pos || !strings.HasPrefix(t, "-") && (i == 0 || l[i-1] != "-tags")
			if pos && strings.HasPrefix(t, "-") && cmd == "build" {
				return false
			}
		}
		return true
	}
	for _, cmd := range []string{"build", "test", "run"} {
		for _, a := range tokens {
			for _, b := range tokens {
				if args(cmd, a, b) {
					c.checkParse(rParse, parse, nil, []string{cmd, a, b})
				}
				for _, d := range []string{"-race", "-tags=z", "q", "b.go"} {
					if args(cmd, a, b, d) {
						c.checkParse(rParse, parse, nil, []string{cmd, a, b, d})
					}
				}
			}
		}
	}
	for _, l := range [][]string{
		{"test", "p", "-args", "-race", "-tags=x", "q"}, {"test", "-race", "-args"}, {"test", "--args", "-tags", "x"}, {"test", "-run", "X", "p", "-race", "-args", "q"},
		{"run", "a.go", "b.go", "-race", "c"}, {"run", "-race", "p", "-tags=x"}, {"run", "-exec", "sudo", "p", "-cover"}, {"run", "p", "--", "-race"},
		{"-C", "dir", "build", "-race", "p"}, {"-C=dir", "build", "-race", "p"}, {"-C", "dir", "build"}, {"-C", "dir", "test", "p"}, {"-C", "dir", "test", "p", "-tags", "x"}, {"-C", "dir", "run", "p", "-race"},
		{"build", "-tags", "a", "-race", "-tags=b", "-gcflags", "-N -l", "./...", "q"}, {"test", "p", "-timeout", "30m", "-cover", "-coverpkg", "./...", "q"},
	} {
		c.checkParse(rParse, parse, nil, l)
		c.checkParse(rParse, parse, []string{"-tags=env", "-msan", "-toolexec=a b"}, l)
	}
	pos := w.Pos(parse.Pos())
	for _, o := range c.parseRun(parse, nil, []string{"build", "-cover"}, false, true).outs {
		rParse.Check(!o.Panics && o.Rets[1].String() == "<coverage>" || !o.Panics && o.Rets[1].K == eng.ANonNil, "coverage failing", pos, "a failure to tell what is covered is lost")
	}
	for _, o := range c.parseRun(parse, nil, []string{"build", "-race"}, true, false).outs {
		if o.Panics || o.Rets[1].K != eng.ANil {
			continue
		}
		short, _ := o.Entries(o.Obj(strings.Trim(o.Rets[0].String(), "<>") + ".Short"))
		_, race := short["-race"]
		rParse.Check(race, "bad GOFLAGS", pos, "the arguments are lost when GOFLAGS cannot be understood")
	}
}

// flagCommand checks which command line is parsed.
func (c *Ctx) flagCommand(r *R, parse *ssa.Function) {
	w := c.W
	parent := r.Fn(flagsPkg, "parentGoCommandFlags")
	if parent == nil {
		return
	}
	pos := w.Pos(parent.Pos())
	bin := map[string]string{"go": "/go/bin/go", "/go/bin/go": "/go/bin/go", "bash": "/bin/bash", "compile": "/go/pkg/tool/compile", "/usr/bin/go": "/usr/bin/go", "run": "/bin/run"}
	for _, x := range []struct {
		name  string
		procs [][]string // this process's parent first
		fails string
		want  []string // nil: an error
		wd    int
	}{
		{"parent", [][]string{{"go", "build", "-race"}}, "", []string{"build", "-race"}, 1},
		{"full path", [][]string{{"/go/bin/go", "test", "./..."}, {"bash"}}, "", []string{"test", "./..."}, 1},
		{"grandparent", [][]string{{"bash", "-c", "x"}, {"go", "build", "-tags=a"}, {"go", "run", "x"}}, "", []string{"build", "-tags=a"}, 2},
		{"go as an argument", [][]string{{"bash", "go", "vet"}, {"compile", "/go/bin/go"}, {"go", "build"}}, "", []string{"build"}, 3},
		{"another go", [][]string{{"/usr/bin/go", "vet"}, {"go", "build"}}, "", []string{"build"}, 2},
		{"command named as an executable", [][]string{{"go", "run", "go"}}, "", []string{"run", "go"}, 1},
		{"emulated", [][]string{{"rosetta", "/go/bin/go", "build", "-race"}}, "", []string{"build", "-race"}, 1},
		{"emulated among others", [][]string{{"rosetta", "bash", "go"}, {"rosetta", "go", "test", "p"}}, "", []string{"test", "p"}, 2},
		{"emulator alone", [][]string{{"rosetta"}, {"go", "build"}}, "", nil, 0},
		{"emulated what is missing", [][]string{{"rosetta", "gone"}, {"go", "build"}}, "", nil, 0},
		{"no go command", [][]string{{"bash"}}, "", nil, 0},
		{"missing executable", [][]string{{"gone", "go", "build"}, {"go", "build"}}, "", nil, 0},
		{"empty command line", [][]string{{}, {"go", "build"}}, "", nil, 0},
		{"no go", [][]string{{"go", "build"}}, "GoBinPath", nil, 0},
		{"no process", [][]string{{"go", "build"}}, "NewProcess", nil, 0},
		{"no command line", [][]string{{"go", "build"}}, "CmdlineSlice", nil, 0},
		{"no working directory", [][]string{{"go", "build"}}, "Cwd", nil, 0},
		{"flags not understood", [][]string{{"go", "build"}}, "parse", nil, 0},
	} {
		proc := func(a eng.AV) int {
			n, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(a.String(), "<proc@"), ">"))
			if err != nil {
				return -1
			}
			return n
		}
		var parsed [][2]string
		ex := &eng.Exploration{W: w, Lists: true, Small: 8, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == flagsPkg && g != parse }}
		or := func(op string, v eng.AV) eng.AV {
			if x.fails == op {
				return tuple(zeroLike(v), sym("failed"))
			}
			return tuple(v, eng.ANilV())
		}
		ex.Model = func(y *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			if y.Call.StaticCallee() == parse {
				parsed = append(parsed, [2]string{eval(y.Call.Args[1]).String(), eval(y.Call.Args[2]).String()})
				return or("parse", sym("flags")), true
			}
			k := eng.Key(y)
			switch m := k[strings.LastIndexByte(k, '.')+1:]; {
			case eng.MKey(y) == "internal/goenv.GoBinPath":
				return or("GoBinPath", eng.AStr("/go/bin/go")), true
			case k == "os/exec.LookPath":
				n, ok := eng.ConstAV(eval(y.Call.Args[0]))
				if !ok {
					return eng.AV{}, true
				}
				if p := bin[n]; p != "" {
					return tuple(eng.AStr(p), eng.ANilV()), true
				}
				return tuple(eng.AStr(""), sym("not found")), true
			case k == "errors.Is" && eval(y.Call.Args[0]).String() == "<not found>":
				return eng.ABool(true), true
			case !strings.HasPrefix(k, "github.com/shirou/gopsutil"):
			case strings.HasPrefix(m, "NewProcess"):
				return or("NewProcess", sym("proc@0")), true
			case strings.HasPrefix(m, "Parent"):
				n := proc(eval(y.Call.Args[0]))
				if n < 0 {
					return eng.AV{}, true
				}
				if n >= len(x.procs) {
					return tuple(eng.ANilV(), sym("no parent")), true
				}
				return tuple(sym(fmt.Sprintf("proc@%d", n+1)), eng.ANilV()), true
			case strings.HasPrefix(m, "CmdlineSlice"):
				n := proc(eval(y.Call.Args[0]))
				if n < 1 || n > len(x.procs) {
					return eng.AV{}, true
				}
				return or("CmdlineSlice", eng.AListOf(*listOf("", strs(x.procs[n-1]...)...))), true
			case strings.HasPrefix(m, "Cwd"):
				return or("Cwd", sym("wd of "+eval(y.Call.Args[0]).String())), true
			}
			return eng.AV{}, false
		}
		outs := ex.Run(parent, eng.AUnk(), eng.AUnk())
		if !r.Check(len(outs) > 0 && !ex.Exhausted, x.name+": explored", pos, "which command line is parsed could not be followed") {
			continue
		}
		for _, o := range outs {
			if r.Check(!o.Panics, x.name, pos, "looking for the go command panics") {
				r.Check((o.Rets[1].K == eng.ANil) == (x.want != nil) && o.Rets[1].K != eng.AUnknown, x.name+": failing", pos, "the error is %s", o.Rets[1])
				r.Check(x.want == nil || o.Rets[0].String() == "<flags>", x.name+": flags", pos, "the flags are %s", o.Rets[0])
			}
		}
		if x.want != nil {
			want := eng.AListOf(*listOf("", strs(x.want...)...)).String()
			r.Check(len(parsed) > 0, x.name, pos, "no command line is parsed")
			for _, p := range parsed {
				r.Check(p[1] == want, x.name+": arguments", pos, "the arguments parsed are %s, expected: %s", p[1], want)
				r.Check(p[0] == fmt.Sprintf("<wd of <proc@%d>>", x.wd), x.name+": directory", pos, "the directory is %s", p[0])
			}
		} else if x.fails != "parse" {
			r.Check(len(parsed) == 0, x.name, pos, "%s is parsed", parsed)
		}
	}
	// what is found is kept for good
	n := 0
	for _, f := range w.FuncsIn(flagsPkg) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if _, ok := st.Addr.(*ssa.Global); !ok || f.Synthetic != "" {
				return
			}
			n++
			once := f.Parent() != nil
			for _, ci := range w.PassSites(f) {
				call, ok := ci.(ssa.CallInstruction)
				once = once && ok && eng.Key(call) == "sync.Once.Do"
			}
			r.Check(once && len(w.PassSites(f)) > 0, "kept by "+eng.Name(eng.Root(f)), w.At(st), "the flags may change once known, or be looked for more than once")
		})
	}
	r.Check(n > 0, "kept", pos, "the flags found are not kept")
}

func zeroLike(v eng.AV) eng.AV {
	if v.K == eng.AConst {
		return eng.AStr("")
	}
	return eng.ANilV()
}

// flagCoverage checks which packages are covered.
func (c *Ctx) flagCoverage(r *R, parse *ssa.Function) {
	w := c.W
	infer := r.Fn(flagsPkg, "CommandFlags.inferCoverpkg")
	if infer == nil {
		return
	}
	pos := w.Pos(infer.Pos())
	objs, names := c.globalMaps(flagsPkg)
	pkgs := map[string][]string{"./...": {"m/a", "m/a/b"}, ".": {"m/a"}, "..": {"m"}, "../c/...": {"m/c", "m/c/d"}, "./b": {"m/a/b"}, "p": {"p"}, "": {"m/a"}}
	for _, x := range []struct {
		name       string
		long       map[string]string
		short      []string
		positional []string
		fails      bool
		want       string // -: none
		loads      []string
	}{
		{"not covered", nil, []string{"-race"}, []string{"./..."}, false, "-", nil},
		{"-cover", nil, []string{"-cover"}, []string{"./..."}, false, "m/a,m/a/b", []string{"./..."}},
		{"-cover of several", nil, []string{"-cover"}, []string{"./b", "p"}, false, "m/a/b,p", []string{"./b p"}},
		{"-cover of nothing named", nil, []string{"-cover"}, nil, false, "m/a", []string{""}},
		{"-covermode", map[string]string{"-covermode": "atomic"}, nil, []string{"p"}, false, "p", []string{"p"}},
		{"-cover failing", nil, []string{"-cover"}, []string{"p"}, true, "", []string{"p"}},
		{"-coverpkg=", map[string]string{"-coverpkg": ""}, []string{"-cover"}, []string{"p"}, false, "", nil},
		{"-coverpkg=q,r/...", map[string]string{"-coverpkg": "q,r/..."}, nil, []string{"p"}, false, "q,r/...", nil},
		{"-coverpkg=./...", map[string]string{"-coverpkg": "./..."}, []string{"-cover"}, []string{"p"}, false, "m/a,m/a/b", []string{"./..."}},
		{"-coverpkg=.", map[string]string{"-coverpkg": "."}, []string{"-cover"}, []string{"p"}, false, "m/a", []string{"."}},
		{"-coverpkg=..", map[string]string{"-coverpkg": ".."}, nil, []string{"p"}, false, "m", []string{".."}},
		{"-coverpkg=std,../c/...,./b,q", map[string]string{"-coverpkg": "std,../c/...,./b,q"}, nil, nil, false, "std,m/c,m/c/d,m/a/b,q", []string{"../c/...", "./b"}},
		{"-coverpkg=.hidden/x", map[string]string{"-coverpkg": ".hidden/x"}, nil, nil, false, ".hidden/x", nil},
		{"-coverpkg failing", map[string]string{"-coverpkg": "./b"}, nil, nil, true, "", []string{"./b"}},
	} {
		o := map[string]eng.AV{"f.Long": sym("map@L"), "f.Short": sym("map@S")}
		for k, v := range objs {
			o[k] = v
		}
		for k, v := range x.long {
			o["map@L["+eng.AStr(k).String()+"]"] = eng.AStr(v)
		}
		for _, k := range x.short {
			o["map@S["+eng.AStr(k).String()+"]"] = eng.AUnk()
		}
		for _, l := range pkgs {
			for _, p := range l {
				o["pkg "+p+".PkgPath"] = eng.AStr(p)
				o["pkg "+p+".Errors"] = eng.ANilV()
			}
		}
		ex := &eng.Exploration{W: w, Lists: true, Objs: o, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == flagsPkg }}
		ex.Deref = func(u *ssa.UnOp, _ func(ssa.Value) eng.AV) (eng.AV, bool) {
			if g, ok := u.X.(*ssa.Global); ok && names[g] != "" {
				return sym(names[g]), true
			}
			return eng.AV{}, false
		}
		loads := map[string]bool{}
		ex.Model = func(y *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			if eng.MKey(y) == flagsPkg+".CommandFlags.Slice" {
				return eng.AUnk(), true
			}
			if eng.Key(y) != "golang.org/x/tools/go/packages.Load" {
				return eng.AV{}, false
			}
			var ps []string
			if l := eval(y.Call.Args[1]); l.K == eng.AList && l.L != nil && l.L.Rest == "" {
				for _, p := range l.L.Pre {
					s, ok := eng.ConstAV(p)
					if !ok {
						s = p.String()
					}
					ps = append(ps, s)
				}
			} else if l.K != eng.ANil {
				ps = append(ps, "?")
			}
			loads[strings.Join(ps, " ")] = true
			if x.fails {
				return tuple(eng.ANilV(), sym("loading")), true
			}
			if len(ps) == 0 {
				ps = []string{""}
			}
			var res []eng.AV
			for _, p := range ps {
				for _, q := range pkgs[p] {
					res = append(res, sym("pkg "+q))
				}
			}
			return tuple(eng.AListOf(*listOf("", res...)), eng.ANilV()), true
		}
		positional := eng.ANilV()
		if x.positional != nil {
			positional = eng.AListOf(*listOf("", strs(x.positional...)...))
		}
		outs := ex.Run(infer, sym("f"), eng.AUnk(), sym("wd"), positional)
		if !r.Check(len(outs) > 0 && !ex.Exhausted, x.name+": explored", pos, "what is covered could not be followed") {
			continue
		}
		for _, out := range outs {
			if out.Panics {
				r.Bad(x.name, pos, "inferring what is covered panics")
				continue
			}
			failing := out.Rets[0].K != eng.ANil
			if !r.Check(failing == x.fails && out.Rets[0].K != eng.AUnknown, x.name+": failing", pos, "the error is %s", out.Rets[0]) || x.fails {
				continue
			}
			l, ok := out.Entries(out.Obj("f.Long"))
			got, present := l["-coverpkg"]
			if x.want == "-" {
				r.Check(ok && !present, x.name, pos, "-coverpkg is set although nothing is covered")
				continue
			}
			s, isC := eng.ConstAV(got)
			r.Check(ok && present && isC && s == x.want, x.name, pos, "-coverpkg is %s, expected: %s", got, x.want)
		}
		r.Check(len(loads) == len(x.loads), x.name+": loaded", pos, "the packages looked up are %v, expected: %v", keysOf(loads), x.loads)
		for _, l := range x.loads {
			r.Check(loads[l], x.name+": loaded "+l, pos, "the packages looked up are %v", keysOf(loads))
		}
	}
	// how packages are looked up
	for _, x := range []struct {
		field, what string
		from        func(v ssa.Value) bool
	}{
		{"Dir", "the directory the command runs in", func(v ssa.Value) bool {
			return w.Carries(v, func(o ssa.Value) bool { return o == ssa.Value(infer.Params[2]) })
		}},
		{"BuildFlags", "the flags of the command", func(v ssa.Value) bool {
			return c.derivesIn(infer, v, func(o ssa.Value) bool {
				call, ok := o.(*ssa.Call)
				return ok && eng.MKey(call) == flagsPkg+".CommandFlags.Slice"
			}) && c.derivesIn(infer, v, func(o ssa.Value) bool { s, ok := eng.ConstString(o); return ok && s == "-toolexec=" })
		}},
	} {
		n := 0
		for _, f := range w.FuncsIn(flagsPkg) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && eng.FieldVar(fa).Name() == x.field && strings.HasSuffix(eng.Deref(fa.X.Type()).String(), "tools/go/packages.Config") {
						n++
						r.Check(x.from(st.Val), x.field, w.At(st), "the packages are not looked up with %s", x.what)
					}
				}
			}
		}
		loads := 0
		for _, f := range w.FuncsIn(flagsPkg) {
			for _, ci := range eng.Calls(f) {
				if eng.Key(ci) == "golang.org/x/tools/go/packages.Load" {
					loads++
				}
			}
		}
		r.Check(n > 0 && n <= loads, x.field+" given", pos, "packages are looked up without %s", x.what)
	}
	// the parser infers it for the directory given
	for _, ci := range w.Callers(infer) {
		if slices.Contains(c.Region(parse), eng.Root(ci.Parent())) {
			r.Check(w.Carries(eng.ArgOf(ci, 2), func(o ssa.Value) bool { return o == ssa.Value(parse.Params[1]) }), "directory", w.At(ci), "the directory is not that of the command")
		}
	}
}

// flagCopies checks what is passed on.
func (c *Ctx) flagCopies(r *R) {
	w := c.W
	slice, except := r.Fn(flagsPkg, "CommandFlags.Slice"), r.Fn(flagsPkg, "CommandFlags.Except")
	if slice == nil || except == nil {
		return
	}
	for _, f := range []*ssa.Function{slice, except} {
		for _, field := range []string{"Long", "Short"} {
			fv := r.Field(flagsPkg, "CommandFlags", field)
			if fv == nil {
				continue
			}
			name := f.Name() + " " + field
			n := 0
			for _, l := range eng.Loops(f) {
				if l.Over == nil || !w.Carries(l.Over, func(o ssa.Value) bool { return fieldOfLoad(o) == fv }) {
					continue
				}
				n++
				item := func(in ssa.Instruction) bool {
					switch x := in.(type) {
					case *ssa.MapUpdate:
						return f == except
					case *ssa.Call:
						b, ok := x.Call.Value.(*ssa.Builtin)
						return f == slice && ok && b.Name() == "append"
					}
					return false
				}
				removed := func(l eng.Lit) bool {
					call, ok := l.V.(*ssa.Call)
					return ok && l.Pol && f == except && eng.Key(call) == "slices.Contains" && w.Carries(call.Call.Args[0], func(o ssa.Value) bool { return o == ssa.Value(f.Params[1]) })
				}
				for in := range l.Blocks {
					for _, x := range in.Instrs {
						if !item(x) {
							continue
						}
						ok := false
						switch x := x.(type) {
						case *ssa.MapUpdate:
							ok = join(entryText(x.Key)) == "key" && join(entryText(x.Value)) == "value"
						case *ssa.Call:
							vs := eng.VarArgs(x.Call.Args[1])
							ok = len(vs) == 1 && join(entryText(vs[0])) == map[string]string{"Long": `key, "=", value`, "Short": "key"}[field]
						}
						r.Check(ok, name+": same", w.At(x), "a flag is not passed on as it is")
					}
				}
				r.Check(l.Always(item, removed), name+": each", w.Pos(f.Pos()), "a flag may be left out")
			}
			if n == 0 && f == except && c.clonedExcept(f, fv) {
				n = 1
			}
			r.Check(n == 1, name, w.Pos(f.Pos()), "the flags are gone through %d times", n)
		}
	}
}

// textOf takes a text made in the loop over a map apart.
func entryText(v ssa.Value) []string {
	v = eng.Unwrap(v)
	if s, ok := eng.ConstString(v); ok {
		return []string{strconv.Quote(s)}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return []string{"value"}
	case *ssa.UnOp:
		if x.Type().Underlying().String() == "struct{}" {
			return []string{"value"}
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return []string{[]string{"?", "key", "value"}[x.Index]}
		}
	case *ssa.BinOp:
		return merged(append(entryText(x.X), entryText(x.Y)...))
	case *ssa.Call:
		if eng.Key(x) != "fmt.Sprintf" {
			break
		}
		f, ok := eng.ConstString(eng.ArgOf(x, 0))
		args := eng.VarArgs(eng.ArgOf(x, 1))
		ps := strings.Split(f, "%s")
		if !ok || len(ps) != len(args)+1 {
			break
		}
		var res []string
		for i, p := range ps {
			if strings.Contains(p, "%") {
				return []string{"?"}
			}
			if p != "" {
				res = append(res, strconv.Quote(p))
			}
			if i < len(args) {
				res = append(res, entryText(args[i])...)
			}
		}
		return merged(res)
	}
	return []string{"?"}
}

// merged joins the constants which follow one another.
func merged(l []string) []string {
	var res []string
	for _, s := range l {
		if n := len(res); n > 0 && s[0] == '"' && res[n-1][0] == '"' {
			res[n-1] = res[n-1][:len(res[n-1])-1] + s[1:]
			continue
		}
		res = append(res, s)
	}
	return res
}

// clonedExcept: the map is cloned, and what is asked for deleted from the clone.
func (c *Ctx) clonedExcept(f *ssa.Function, fv *types.Var) bool {
	for _, ci := range eng.Calls(f) {
		if eng.Key(ci) != "maps.DeleteFunc" || !c.derivesIn(f, eng.ArgOf(ci, 0), func(o ssa.Value) bool {
			call, ok := o.(*ssa.Call)
			return ok && eng.Key(call) == "maps.Clone" && c.derivesIn(f, eng.ArgOf(call, 0), func(o ssa.Value) bool { return fieldOfLoad(o) == fv })
		}) {
			continue
		}
		for _, g := range f.AnonFuncs {
			if mc, ok := eng.ArgOf(ci, 1).(*ssa.MakeClosure); !ok || mc.Fn != ssa.Value(g) {
				continue
			}
			good, n := true, 0
			for _, b := range g.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				n++
				call, ok := ret.Results[0].(*ssa.Call)
				good = good && ok && eng.Key(call) == "slices.Contains" && eng.ArgOf(call, 1) == ssa.Value(g.Params[0]) &&
					c.derives(eng.ArgOf(call, 0), func(o ssa.Value) bool { return o == ssa.Value(f.Params[1]) })
			}
			return good && n > 0 && c.W.AlwaysExecutes(ci)
		}
	}
	return false
}
