package rules

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"orchverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "T02", Technique: "comparison of the flags registered (abstract interpretation of the registration) with those declared in the source of the toolchain's compiler and linker; provenance of the arguments parsed and of the flags captured", Run: toolFlags})
}

// What a flag of a tool takes.
const (
	takesBool  = "an optional boolean"
	takesCount = "an optional count"
	takesInt   = "a number"
	takesText  = "a value"
)

// toolchainFlags reads the flags the tool declares from its source.
func toolchainFlags(root, tool string) map[string]string {
	res := map[string]string{"V": takesCount}
	dir := filepath.Join(root, "src/cmd/compile/internal/base")
	if tool == "link" {
		dir = filepath.Join(root, "src/cmd/link/internal/ld")
	}
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		if f, err := parser.ParseFile(fset, n, nil, parser.SkipObjectResolution); err == nil {
			files = append(files, f)
		}
	}
	optional := map[string]bool{} // types with an IsBoolFlag method
	typeOf := map[string]string{} // package variables
	for _, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Name.Name == "IsBoolFlag" && d.Recv != nil {
					optional[strings.TrimPrefix(exprName(d.Recv.List[0].Type), "*")] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if v, ok := s.(*ast.ValueSpec); ok && v.Type != nil {
						for _, n := range v.Names {
							typeOf[n.Name] = exprName(v.Type)
						}
					} else if ok {
						for i, n := range v.Names {
							if i < len(v.Values) {
								if cl, isC := v.Values[i].(*ast.CompositeLit); isC {
									typeOf[n.Name] = exprName(cl.Type)
								} else if call, isC := v.Values[i].(*ast.CallExpr); isC && len(call.Args) == 1 {
									typeOf[n.Name] = exprName(call.Fun)
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IfStmt:
				// only for some platforms (plan9)
				return !strings.Contains(exprText(n.Cond), "GOOS")
			case *ast.TypeSpec:
				st, ok := n.Type.(*ast.StructType)
				if !ok || tool != "compile" || n.Name.Name != "CmdFlags" {
					return true
				}
				for _, fl := range st.Fields.List {
					if fl.Tag == nil {
						continue
					}
					tag, _ := strconv.Unquote(fl.Tag.Value)
					for _, id := range fl.Names {
						name := strings.ToLower(id.Name)
						if len(id.Name) == 1 {
							name = id.Name
						} else if rest, is := strings.CutPrefix(id.Name, "Lower"); is && len(rest) == 1 {
							name = strings.ToLower(rest)
						}
						if t := reflect.StructTag(tag).Get("flag"); t == "-" {
							continue
						} else if t != "" {
							name = t
						}
						switch strings.TrimPrefix(exprName(fl.Type), "*") {
						case "bool":
							res[name] = takesBool
						case "CountFlag":
							res[name] = takesCount
						case "int":
							res[name] = takesInt
						default:
							res[name] = takesText
						}
					}
				}
			case *ast.CallExpr:
				if tool != "link" {
					return true
				}
				fn := exprName(n.Fun)
				arg := func(i int) string {
					if i < len(n.Args) {
						if l, ok := n.Args[i].(*ast.BasicLit); ok && l.Kind == token.STRING {
							s, _ := strconv.Unquote(l.Value)
							return s
						}
					}
					return ""
				}
				put := func(name, kind string) {
					if name != "" {
						res[name] = kind
					}
				}
				switch k := strings.TrimPrefix(fn, "flag."); {
				case fn == "objabi.Flagcount":
					put(arg(0), takesCount)
				case fn == "objabi.Flagfn1":
					put(arg(0), takesText)
				case fn == "objabi.Flagfn0":
					put(arg(0), takesCount)
				case k == fn:
				case k == "Bool":
					put(arg(0), takesBool)
				case k == "BoolVar":
					put(arg(1), takesBool)
				case k == "Int" || k == "Int64":
					put(arg(0), takesInt)
				case k == "IntVar" || k == "Int64Var":
					put(arg(1), takesInt)
				case k == "Var":
					kind := takesText
					if u, ok := n.Args[0].(*ast.UnaryExpr); ok && optional[typeOf[exprName(u.X)]] {
						kind = takesBool
					}
					put(arg(1), kind)
				case strings.HasSuffix(k, "Var"):
					put(arg(1), takesText)
				default:
					put(arg(0), takesText)
				}
			}
			return true
		})
	}
	return res
}

func exprName(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return exprName(e.X) + "." + e.Sel.Name
	case *ast.StarExpr:
		return "*" + exprName(e.X)
	case *ast.FuncType:
		return "func"
	case *ast.ParenExpr:
		return exprName(e.X)
	}
	return "?"
}

func exprText(e ast.Expr) string {
	s := ""
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			s += id.Name + " "
		}
		return true
	})
	return s
}

// What is captured of a command line, and the flag it is the value of.
var capturedFlags = map[string]map[string]string{
	"compile": {"Asmhdr": "asmhdr", "BuildID": "buildid", "ImportCfg": "importcfg", "Lang": "lang", "Output": "o", "Package": "p", "ShowVersion": "V"},
	"link":    {"BuildMode": "buildmode", "ImportCfg": "importcfg", "Output": "o", "ShowVersion": "V"},
}

func toolFlags(c *Ctx) {
	rAcc := c.Rule("T02.accepted", "every flag the tool declares is accepted, with the arguments the tool gives it")
	rCap := c.Rule("T02.captured", "what is kept of a flag is its value")
	rArg := c.Rule("T02.arguments", "all arguments are parsed, as the tool would, and what is left are the tool's inputs")
	w := c.W
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir = w.Repo
	out, _ := cmd.Output()
	root := strings.TrimSpace(string(out))
	for _, tool := range []string{"compile", "link"} {
		parse := rAcc.Fn(proxyPkg, tool+"FlagSet.parse")
		if parse == nil {
			continue
		}
		pos := w.Pos(parse.Pos())
		want := toolchainFlags(root, tool)
		if _, err := os.Stat(root); err != nil || !rAcc.Check(len(want) > 40, tool+": toolchain", pos, "the flags of the toolchain in %q could not be read", root) {
			continue
		}
		c.Count(tool+" flags of the toolchain", len(want))
		type reg struct {
			kind string
			call *ssa.Call
		}
		regs := map[string]reg{}
		ex := &eng.Exploration{W: w, Lists: true, Small: 128, Objs: map[string]eng.AV{}, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == proxyPkg }}
		known := true
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				return false
			}
			k := eng.Key(call)
			m, is := strings.CutPrefix(k, "flag.FlagSet.")
			if !is {
				return false
			}
			i := 1
			switch m {
			case "Parse", "Args", "NArg", "Arg", "SetOutput", "Init", "Visit", "VisitAll", "Lookup", "Parsed", "NFlag", "Output", "Name", "PrintDefaults", "ErrorHandling", "Set":
				return false
			}
			if strings.HasSuffix(m, "Var") {
				i = 2
			}
			name, ok := eng.ConstAV(eval(call.Call.Args[i]))
			if !ok {
				known = false
				return false
			}
			kind := "?"
			switch m {
			case "Bool", "BoolVar":
				kind = takesBool
			case "BoolFunc":
				kind = takesBool + ", if valid"
				if c.acceptsAll(call.Call.Args[3]) {
					kind = takesCount
				}
			case "Int", "IntVar", "Int64", "Int64Var":
				kind = takesInt
			case "String", "StringVar":
				kind = takesText
			case "Func":
				kind = takesText + ", if valid"
				if c.acceptsAll(call.Call.Args[3]) {
					kind = takesText
				}
			}
			if _, twice := regs[name]; !twice {
				regs[name] = reg{kind, call}
			}
			inLoop := eng.InnermostLoopOf(call) != nil
			rAcc.Check(inLoop || w.AlwaysExecutes(call), tool+" -"+name+": always", w.At(call), "the flag is not always accepted")
			return false
		}
		outs := ex.Run(parse, sym("f"), eng.AListOf(*listOf("args")))
		rAcc.Check(len(outs) > 0 && !ex.Exhausted && known, tool+": explored", pos, "which flags are accepted could not be told")
		for name, kind := range want {
			got, ok := regs[name]
			if !rAcc.Check(ok, tool+" -"+name, pos, "the tool's flag -%s is not accepted", name) {
				continue
			}
			good := got.kind == kind || kind == takesBool && got.kind == takesCount || kind == takesInt && got.kind == takesText
			rAcc.Check(good, tool+" -"+name+": kind", w.At(got.call), "-%s takes %s, but is read as taking %s", name, kind, got.kind)
		}
		// what is captured
		for field, name := range capturedFlags[tool] {
			fv := rCap.Field(proxyPkg, tool+"FlagSet", field)
			got, ok := regs[name]
			if fv == nil || !ok {
				continue
			}
			good := false
			if fa, is := eng.Unwrap(got.call.Call.Args[1]).(*ssa.FieldAddr); is && strings.HasSuffix(eng.Key(got.call), "Var") {
				good = eng.FieldVar(fa) == fv && w.Carries(fa.X, func(o ssa.Value) bool { return o == ssa.Value(parse.Params[0]) })
			} else {
				for _, g := range parse.AnonFuncs {
					if mc, is := eng.Unwrap(got.call.Call.Args[len(got.call.Call.Args)-1]).(*ssa.MakeClosure); !is || mc.Fn != ssa.Value(g) {
						continue
					}
					good = w.MustDo(g, func(in ssa.Instruction) bool {
						st, ok := in.(*ssa.Store)
						if !ok {
							return false
						}
						fa, ok := st.Addr.(*ssa.FieldAddr)
						if !ok || eng.FieldVar(fa) != fv {
							return false
						}
						on, isC := eng.ConstBool(st.Val)
						return isC && on || fv.Type().String() == "string" && st.Val == ssa.Value(g.Params[0])
					}, nil, nil) == nil
				}
			}
			rCap.Check(good, tool+" "+field, w.At(got.call), "%s is not the value of -%s", field, name)
			// nothing else is taken for it
			for _, st := range w.FieldStores(fv) {
				f := st.Instr.Parent()
				if eng.Root(f) == parse || st.Val == nil {
					continue
				}
				if f.Name() == "SetLang" && field == "Lang" {
					continue // the flag is changed as well, see W09
				}
				rCap.Bad(tool+" "+field+" set by "+short(f), w.At(st.Instr), "%s is changed after the command line was parsed", field)
			}
		}
		for name, r := range regs {
			if fa, is := eng.Unwrap(r.call.Call.Args[1]).(*ssa.FieldAddr); is && strings.HasSuffix(eng.Key(r.call), "Var") {
				f := eng.FieldVar(fa).Name()
				if want, ok := capturedFlags[tool][f]; ok {
					rCap.Check(want == name, tool+" "+f+": only", w.At(r.call), "%s is the value of -%s", f, name)
				}
			}
		}
		// the arguments
		n := 0
		for _, f := range c.Region(parse) {
			for _, ci := range eng.Calls(f) {
				switch eng.Key(ci) {
				case "flag.FlagSet.Parse":
					n++
					rArg.Check(w.Carries(eng.ArgOf(ci, 1), func(o ssa.Value) bool { return o == ssa.Value(parse.Params[1]) }), tool+": parsed", w.At(ci), "what is parsed are not the arguments")
					c.checkErrHandled(rArg, ci)
				case "flag.NewFlagSet":
					h, ok := eng.ConstInt(eng.ArgOf(ci, 1))
					rArg.Check(ok && h == 0, tool+": failing", w.At(ci), "a command line which is not understood ends the process")
				}
			}
		}
		rArg.Check(n == 1, tool+": once", pos, "the arguments are parsed %d times", n)
		for _, ret := range eng.Returns(parse) {
			left := w.Carries(ret.Results[0], func(o ssa.Value) bool {
				call, ok := o.(*ssa.Call)
				return ok && eng.Key(call) == "flag.FlagSet.Args"
			})
			rArg.Check(left || !w.MaySucceed(ret), tool+": inputs", w.At(ret), "what is returned are not the arguments left")
		}
		for _, ci := range w.Callers(parse) {
			f := ci.Parent()
			sl, ok := eng.ArgOf(ci, 1).(*ssa.Slice)
			low := int64(-1)
			if ok && sl.Low != nil {
				low, _ = eng.ConstInt(sl.Low)
			}
			rArg.Check(ok && low == 1 && sl.High == nil, tool+": arguments of "+short(f), w.At(ci), "the arguments parsed are not those following the tool's name")
			c.checkErrHandled(rArg, ci)
			call, isCall := ci.(*ssa.Call)
			if !isCall {
				continue
			}
			kept := false
			for _, in := range []string{"Files", "Inputs"} {
				fv := w.Field(proxyPkg, strings.Title(tool)+"Command", in)
				if fv == nil {
					continue
				}
				for _, st := range w.FieldStores(fv) {
					kept = kept || st.Val != nil && st.Instr.Parent() == f && w.Carries(st.Val, func(o ssa.Value) bool {
						e, ok := o.(*ssa.Extract)
						return ok && e.Tuple == ssa.Value(call) && e.Index == 0
					})
				}
			}
			rArg.Check(kept, tool+": inputs of "+short(f), w.At(ci), "the inputs of the command are not the arguments left")
		}
	}
	rAcc.Min(200)
	rCap.Min(11)
	rArg.Min(12)
}

// acceptsAll: the handler of a flag never fails.
func (c *Ctx) acceptsAll(v ssa.Value) bool {
	fs := c.funcsOf(v)
	for _, f := range fs {
		for _, ret := range eng.Returns(f) {
			if !isNil(ret.Results[0]) {
				return false
			}
		}
	}
	return len(fs) > 0
}
