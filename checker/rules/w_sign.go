package rules

import (
	"fmt"
	"go/types"
	"strings"

	"orchverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "W10", Technique: "abstract interpretation of the function options and of the template's signature methods over all small parameter lists (none, unnamed, named, grouped, blank), compared with the list of single parameters they stand for", Run: runSignatures})
}

// a group is one field of a parameter list.
type paramGroup struct {
	typ   string
	names []string // none: unnamed
}

type paramList struct {
	name   string
	absent bool // no list at all
	groups []paramGroup
}

type param struct{ typ, name string }

func (l paramList) flat() []param {
	var res []param
	for _, g := range l.groups {
		if len(g.names) == 0 {
			res = append(res, param{g.typ, ""})
		}
		for _, n := range g.names {
			res = append(res, param{g.typ, n})
		}
	}
	return res
}

func (l paramList) types() []string {
	var res []string
	for _, p := range l.flat() {
		res = append(res, p.typ)
	}
	return res
}

// objects describes the list as the fields of an object.
func (l paramList) objects(id string, objs map[string]eng.AV) eng.AV {
	if l.absent {
		return eng.ANilV()
	}
	var fs []eng.AV
	for i, g := range l.groups {
		f := fmt.Sprintf("%s%d", id, i)
		fs = append(fs, sym(f))
		objs[f+".Type"] = sym(g.typ)
		if len(g.names) == 0 {
			objs[f+".Names"] = eng.ANilV()
			continue
		}
		var ns []eng.AV
		for j, n := range g.names {
			x := fmt.Sprintf("%sn%d", f, j)
			ns = append(ns, sym(x))
			objs[x+".Name"] = eng.AStr(n)
		}
		objs[f+".Names"] = eng.AListOf(*listOf("", ns...))
	}
	if len(fs) == 0 {
		objs[id+".List"] = eng.ANilV()
	} else {
		objs[id+".List"] = eng.AListOf(*listOf("", fs...))
	}
	return sym(id)
}

func grp(t string, names ...string) paramGroup { return paramGroup{t, names} }

// E is the interface looked for, I a type implementing it.
var paramLists = []paramList{
	{name: "no list", absent: true},
	{name: "()"},
	{name: "(A)", groups: []paramGroup{grp("A")}},
	{name: "(a A)", groups: []paramGroup{grp("A", "a")}},
	{name: "(_ A)", groups: []paramGroup{grp("A", "_")}},
	{name: "(a, b A)", groups: []paramGroup{grp("A", "a", "b")}},
	{name: "(a A, b A)", groups: []paramGroup{grp("A", "a"), grp("A", "b")}},
	{name: "(A, A)", groups: []paramGroup{grp("A"), grp("A")}},
	{name: "(A, B)", groups: []paramGroup{grp("A"), grp("B")}},
	{name: "(b B, a A)", groups: []paramGroup{grp("B", "b"), grp("A", "a")}},
	{name: "(a, _ A, b B)", groups: []paramGroup{grp("A", "a", "_"), grp("B", "b")}},
	{name: "(b B, a, c A)", groups: []paramGroup{grp("B", "b"), grp("A", "a", "c")}},
	{name: "(E)", groups: []paramGroup{grp("E")}},
	{name: "(I)", groups: []paramGroup{grp("I")}},
	{name: "(A, I, E)", groups: []paramGroup{grp("A"), grp("I"), grp("E")}},
	{name: "(E, I, A)", groups: []paramGroup{grp("E"), grp("I"), grp("A")}},
	{name: "(a, b A, i, j I)", groups: []paramGroup{grp("A", "a", "b"), grp("I", "i", "j")}},
	{name: "(i, _ I, a A)", groups: []paramGroup{grp("I", "i", "_"), grp("A", "a")}},
	{name: "(a A, e, f E)", groups: []paramGroup{grp("A", "a"), grp("E", "e", "f")}},
	{name: "(e E, _, a A, g E)", groups: []paramGroup{grp("E", "e"), grp("A", "_", "a"), grp("E", "g")}},
}

func runSignatures(c *Ctx) {
	rSig := c.Rule("W10.signature", "the signature options compare the types of the parameters and results, one for each name, in order")
	rImp := c.Rule("W10.implements", "the implements options look at the types of all parameters or results, or of the last result")
	rName := c.Rule("W10.named", "the other options look at the function's own name, receiver and type; all options have to agree")
	rTpl := c.Rule("W10.template", "the template's methods return the parameter or result asked for, named so that it can be referred to")
	c.typeNames(c.Rule("W10.types", "a type name matches the expressions that spell this type, and no other"))
	c.signatureOptions(rSig, rImp)
	c.functionOptions(rName)
	c.signatureTemplates(rTpl)
	c.otherFunctions(rTpl)
	c.templateFunction(rTpl)
}

// signExploration interprets the packages concerned with signatures.
func (c *Ctx) signExploration(objs map[string]eng.AV, unresolved, invalid bool) *eng.Exploration {
	made := 0
	name := func(a eng.AV) string {
		if t, ok := eng.ConstAV(a); ok {
			return t
		}
		return strings.Trim(a.String(), "<>")
	}
	ex := &eng.Exploration{W: c.W, Lists: true, Objs: objs, Inline: func(g *ssa.Function) bool {
		r := eng.Rel(g)
		return r == joinPkg || r == codePkg || r == typedPkg
	}}
	ex.Made = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, map[string]eng.AV, bool) {
		if eng.Key(x) != "github.com/dave/dst.NewIdent" {
			return eng.AV{}, nil, false
		}
		made++
		id := fmt.Sprintf("new%d", made)
		return sym(id), map[string]eng.AV{id + ".Name": eval(x.Call.Args[0])}, true
	}
	ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
		switch eng.MKey(x) {
		case typedPkg + ".NewTypeName":
			if invalid {
				return tuple(eng.AUnk(), sym("name error")), true
			}
			return tuple(sym("t"+name(eval(x.Call.Args[0]))), eng.ANilV()), true
		case typedPkg + ".ResolveInterfaceTypeByName":
			if unresolved {
				return tuple(eng.ANilV(), sym("interface error")), true
			}
			return tuple(sym("i"+name(eval(x.Call.Args[0]))), eng.ANilV()), true
		case typedPkg + ".TypeName.Matches":
			a, b := eval(x.Call.Args[0]), eval(x.Call.Args[1])
			if a.K != eng.ASymbol || b.K != eng.ASymbol {
				return eng.AV{}, true
			}
			return eng.ABool(name(a) == "t"+name(b)), true
		case typedPkg + ".ExprImplements":
			t, i := eval(x.Call.Args[1]), eval(x.Call.Args[2])
			if t.K != eng.ASymbol || i.K != eng.ASymbol {
				return eng.AV{}, true
			}
			return eng.ABool(name(i) == "iE" && (name(t) == "E" || name(t) == "I")), true
		}
		if eng.Key(x) == "fmt.Sprintf" && len(x.Call.Args) == 2 {
			if l := eval(x.Call.Args[1]); l.K == eng.AList && l.L != nil {
				t := name(eval(x.Call.Args[0]))
				for _, a := range l.L.Pre {
					t += "," + name(a)
				}
				return eng.AStr("__" + t), true
			}
		}
		return eng.AV{}, false
	}
	return ex
}

// eachBool checks that the only result, on every path, is want.
func (r *R) eachBool(ex *eng.Exploration, outs []eng.Outcome, name, pos string, want bool) {
	if !r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", pos, "what is matched could not be followed") {
		return
	}
	for _, o := range outs {
		if o.Panics {
			r.Bad(name, pos, "matching panics")
			continue
		}
		r.Check(o.Rets[0].IsTrue() == want && o.Rets[0].IsFalse() == !want, name, pos, "matched: %s, expected: %v", o.Rets[0], want)
	}
}

func typeNames(l []string) eng.AV {
	if len(l) == 0 {
		return eng.ANilV()
	}
	var r []eng.AV
	for _, t := range l {
		r = append(r, sym("t"+t))
	}
	return eng.AListOf(*listOf("", r...))
}

func same(a, b []string) bool {
	return strings.Join(a, ",") == strings.Join(b, ",")
}

func (c *Ctx) signatureOptions(r, ri *R) {
	w := c.W
	sig, con := r.Fn(joinPkg, "signature.evaluate"), r.Fn(joinPkg, "signatureContains.evaluate")
	arg, res, fin := ri.Fn(joinPkg, "argumentImplements.evaluate"), ri.Fn(joinPkg, "resultImplements.evaluate"), ri.Fn(joinPkg, "finalResultImplements.evaluate")
	if sig == nil || con == nil || arg == nil || res == nil || fin == nil {
		return
	}
	r.Field(joinPkg, "signature", "Arguments")
	r.Field(joinPkg, "signature", "Results")
	ri.Field(joinPkg, "argumentImplements", "InterfaceName")
	ri.Field(joinPkg, "functionInformation", "Type")
	info := func(params, results paramList) map[string]eng.AV {
		objs := map[string]eng.AV{"info.Type": sym("ft"), "info.typeResolver": sym("resolver")}
		objs["ft.Params"] = params.objects("P", objs)
		objs["ft.Results"] = results.objects("R", objs)
		return objs
	}
	none := paramLists[0]
	sets := [][]string{{}, {"A"}, {"B"}, {"A", "A"}, {"A", "B"}, {"B", "A"}, {"A", "A", "B"}, {"B", "A", "A"}, {"A", "A", "A"}, {"C", "B"}}
	one := paramLists[3] // (a A)
	for _, l := range paramLists {
		for _, want := range sets {
			for _, place := range []string{"parameters", "results"} {
				for _, other := range []paramList{none, one} {
					objs := info(l, other)
					if place == "results" {
						objs = info(other, l)
					}
					// the other list is as expected
					mine, others := "Arguments", "Results"
					if place == "results" {
						mine, others = others, mine
					}
					for _, pre := range []string{"fo.", "fo.signature."} {
						objs[pre+mine] = typeNames(want)
						objs[pre+others] = typeNames(other.types())
					}
					name := fmt.Sprintf("%s %s %s, others %s", place, l.name, want, other.name)
					ex := c.signExploration(objs, false, false)
					r.eachBool(ex, ex.Run(sig, sym("fo"), sym("info")), name, w.Pos(sig.Pos()), same(l.types(), want))
					// any of the types
					any := len(other.types()) > 0
					for _, t := range want {
						any = any || has(l.types(), t)
					}
					ex = c.signExploration(objs, false, false)
					r.eachBool(ex, ex.Run(con, sym("fo"), sym("info")), "contains: "+name, w.Pos(con.Pos()), any)
				}
				if same(want, []string{"A"}) {
					// the other list is not as expected
					objs := info(one, one)
					for _, pre := range []string{"fo.", "fo.signature."} {
						objs[pre+"Arguments"], objs[pre+"Results"] = typeNames(l.types()), typeNames([]string{"A"})
						if place == "results" {
							objs[pre+"Arguments"], objs[pre+"Results"] = objs[pre+"Results"], objs[pre+"Arguments"]
						}
					}
					ex := c.signExploration(objs, false, false)
					r.eachBool(ex, ex.Run(sig, sym("fo"), sym("info")), fmt.Sprintf("(a A) expected to be %s: %s", l.name, place), w.Pos(sig.Pos()), same(l.types(), []string{"A"}))
				}
			}
		}
		for _, unresolved := range []bool{false, true} {
			implements := func(t string) bool { return t == "E" || t == "I" && !unresolved }
			some, last := false, false
			for _, t := range l.types() {
				some = some || implements(t)
				last = implements(t)
			}
			for _, other := range []paramList{none, one, {name: "(i I)", groups: []paramGroup{grp("I", "i")}}} {
				name := fmt.Sprintf("%s, others %s, unknown interface: %v", l.name, other.name, unresolved)
				for _, x := range []struct {
					f    *ssa.Function
					what string
					objs map[string]eng.AV
					want bool
				}{
					{arg, "argument-implements", info(l, other), some},
					{res, "result-implements", info(other, l), some},
					{fin, "final-result-implements", info(other, l), last},
				} {
					x.objs["fo.InterfaceName"] = eng.AStr("E")
					ex := c.signExploration(x.objs, unresolved, false)
					ri.eachBool(ex, ex.Run(x.f, sym("fo"), sym("info")), x.what+": "+name, w.Pos(x.f.Pos()), x.want)
				}
			}
		}
	}
}

func (c *Ctx) functionOptions(r *R) {
	w := c.W
	match := r.Fn(joinPkg, "functionDeclaration.Matches")
	nameOpt, recvOpt, hasOpt := r.Fn(joinPkg, "functionName.evaluate"), r.Fn(joinPkg, "receiver.evaluate"), r.Fn(joinPkg, "hasReceiver.evaluate")
	opts := r.Field(joinPkg, "functionDeclaration", "Options")
	if match == nil || nameOpt == nil || recvOpt == nil || hasOpt == nil || opts == nil {
		return
	}
	// all options have to agree, on functions only
	for _, node := range []string{"method", "function", "literal", "other"} {
		for _, answers := range []string{"", "t", "f", "tt", "tf", "ft", "ff"} {
			objs := map[string]eng.AV{
				"decl.Type": sym("ft"), "lit.Type": sym("ft"), "decl.Name": sym("id"), "id.Name": eng.AStr("f"), "decl.Recv": eng.ANilV(),
			}
			if node == "method" {
				objs["decl.Recv"] = paramList{groups: []paramGroup{grp("T", "t")}}.objects("V", objs)
			}
			var l []eng.AV
			for i, a := range answers {
				l = append(l, sym(fmt.Sprintf("%c%d", a, i)))
			}
			objs["fo.Options"] = eng.AListOf(*listOf("", l...))
			if len(l) == 0 {
				objs["fo.Options"] = eng.ANilV()
			}
			ex := c.signExploration(objs, false, false)
			model := ex.Model
			ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
				if x.Call.IsInvoke() {
					switch x.Call.Method.Name() {
					case "evaluate":
						if a := eval(x.Call.Value); a.K == eng.ASymbol {
							return eng.ABool(strings.HasPrefix(a.String(), "<t")), true
						}
					case "Node":
						return sym("node"), true
					case "ImportPath":
						return eng.AStr("p"), true
					}
				}
				return model(x, eval)
			}
			ex.Assert = func(x *ssa.TypeAssert, _ func(ssa.Value) eng.AV) (eng.AV, bool) {
				is := map[string]string{"*github.com/dave/dst.FuncDecl": "decl", "*github.com/dave/dst.FuncLit": "lit"}[x.AssertedType.String()]
				want := map[string]string{"method": "decl", "function": "decl", "literal": "lit"}[node]
				if is == "" || !x.CommaOk {
					return eng.AV{}, false
				}
				if is == want {
					return tuple(sym(is), eng.ABool(true)), true
				}
				return tuple(eng.ANilV(), eng.ABool(false)), true
			}
			r.eachBool(ex, ex.Run(match, sym("fo"), sym("ctx")), fmt.Sprintf("%s, options %q", node, answers), w.Pos(match.Pos()), node != "other" && !strings.Contains(answers, "f"))
		}
	}
	// what they are told of the function
	for _, x := range []struct {
		field string
		from  func(o ssa.Value) bool
		what  string
	}{
		{"Type", func(o ssa.Value) bool { return nodeField(o, "FuncDecl", "Type") || nodeField(o, "FuncLit", "Type") }, "type"},
		{"Name", func(o ssa.Value) bool { return nodeField(o, "Ident", "Name") }, "name"},
		{"Receiver", func(o ssa.Value) bool { return nodeField(o, "Field", "Type") }, "type of the receiver"},
		{"ImportPath", func(o ssa.Value) bool {
			y, ok := o.(*ssa.Call)
			return ok && y.Call.IsInvoke() && y.Call.Method.Name() == "ImportPath"
		}, "import path"},
	} {
		f := r.Field(joinPkg, "functionInformation", x.field)
		if f == nil {
			continue
		}
		sts := fieldStores(c.Region(match), f)
		r.Check(len(sts) > 0, x.field+" told", w.Pos(match.Pos()), "the options are not told the %s of the function", x.what)
		for _, st := range sts {
			r.Check(w.Carries(st.Val, x.from), x.field, w.At(st), "the options are not told the %s of the function but %s", x.what, w.Expr(st.Val))
			if x.field == "Name" {
				r.Check(c.derivesIn(match, st.Val, func(o ssa.Value) bool { return nodeField(o, "FuncDecl", "Name") }), "own name", w.At(st), "the name told is not that of the function")
			}
			if x.field == "Receiver" {
				r.Check(c.derivesIn(match, st.Val, func(o ssa.Value) bool { return nodeField(o, "FuncDecl", "Recv") }), "own receiver", w.At(st), "the receiver told is not that of the function")
			}
		}
	}
	for _, n := range []string{"", "f", "g"} {
		for _, want := range []string{"f", "F", ""} {
			ex := c.signExploration(map[string]eng.AV{"info.Name": eng.AStr(n)}, false, false)
			r.eachBool(ex, ex.Run(nameOpt, eng.AStr(want), sym("info")), fmt.Sprintf("function %q, name: %q", n, want), w.Pos(nameOpt.Pos()), n == want)
		}
	}
	for _, has := range []bool{false, true} {
		recv := eng.ANilV()
		if has {
			recv = sym("T")
		}
		objs := func() map[string]eng.AV {
			return map[string]eng.AV{"info.Receiver": recv, "info.ImportPath": eng.AStr("p"), "fo.TypeName": sym("tn")}
		}
		for _, want := range []bool{false, true} {
			ex := c.signExploration(objs(), false, false)
			r.eachBool(ex, ex.Run(hasOpt, eng.ABool(want), sym("info")), fmt.Sprintf("has receiver: %v, expected: %v", has, want), w.Pos(hasOpt.Pos()), has == want)
			ex = c.signExploration(objs(), false, false)
			model := ex.Model
			asked := true
			ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
				if eng.MKey(x) == typedPkg+".TypeName.MatchesDefinition" {
					t, _ := eng.ConstAV(eval(x.Call.Args[2]))
					asked = asked && t == "p" && eval(x.Call.Args[1]).String() == "<T>" && strings.Contains(eval(x.Call.Args[0]).String(), "tn")
					return eng.ABool(want), true
				}
				return model(x, eval)
			}
			name := fmt.Sprintf("receiver present: %v, of the type: %v", has, want)
			r.eachBool(ex, ex.Run(recvOpt, sym("fo"), sym("info")), name, w.Pos(recvOpt.Pos()), has && want)
			r.Check(asked, name+": compared", w.Pos(recvOpt.Pos()), "what is compared is not the receiver's type and the one expected")
		}
	}
}

// nodeField: v is (a load of) the field of a node.
func nodeField(v ssa.Value, typ, name string) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	var f *types.Var
	var in types.Type
	switch x := v.(type) {
	case *ssa.FieldAddr:
		f, in = eng.FieldVar(x), eng.Deref(x.X.Type())
	case *ssa.Field:
		in = x.X.Type()
		f = in.Underlying().(*types.Struct).Field(x.Field)
	default:
		return false
	}
	n := eng.NamedOf(in)
	return n != nil && n.Obj().Name() == typ && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/dave/dst" && f.Name() == name
}

// identAt is the name the i-th parameter has in the end.
func identAt(o eng.Outcome, id string, l paramList, i int) (string, bool) {
	n := 0
	for k := range l.groups {
		names := o.Obj(fmt.Sprintf("%s%d.Names", id, k))
		if names.K == eng.ANil {
			if n == i {
				return "", false
			}
			n++
			continue
		}
		if names.K != eng.AList || names.L == nil || names.L.Rest != "" {
			return "", false
		}
		for _, x := range names.L.Pre {
			if n == i {
				return eng.ConstAV(o.Obj(strings.Trim(x.String(), "<>") + ".Name"))
			}
			n++
		}
	}
	return "", false
}

func (c *Ctx) signatureTemplates(r *R) {
	w := c.W
	type method struct {
		f    *ssa.Function
		list string // P or R
		kind string
	}
	var ms []method
	for _, x := range []struct{ n, l, k string }{
		{"Argument", "P", "at"}, {"Result", "R", "at"},
		{"ArgumentOfType", "P", "of"}, {"ResultOfType", "R", "of"},
		{"ArgumentThatImplements", "P", "first"}, {"ResultThatImplements", "R", "first"},
		{"LastResultThatImplements", "R", "last"}, {"FinalResultImplements", "R", "final"},
	} {
		if f := r.Fn(codePkg, "signature."+x.n); f != nil {
			ms = append(ms, method{f, x.l, x.k})
		}
	}
	if f := r.Fn(codePkg, "declaredFunc.Receiver"); f != nil {
		ms = append(ms, method{f, "V", "recv"})
	}
	setup := func(list string, l paramList) map[string]eng.AV {
		objs := map[string]eng.AV{"sig.FuncType": sym("ft"), "sig.context": sym("ctx"), "sig.Decl": sym("decl")}
		decoy := paramList{groups: []paramGroup{grp("E", "decoy")}}
		objs["ft.Params"] = decoy.objects("P", objs)
		objs["ft.Results"] = decoy.objects("R", objs)
		switch list {
		case "P":
			objs["ft.Params"] = l.objects("P", objs)
		case "R":
			objs["ft.Results"] = l.objects("R", objs)
		}
		objs["decl.Recv"] = l.objects("V", objs)
		return objs
	}
	given := map[string]string{} // the names given, and what to
	isErr := func(o eng.Outcome) bool { return o.Rets[len(o.Rets)-1].K != eng.ANil }
	for _, m := range ms {
		pos := w.Pos(m.f.Pos())
		base := m.f.Name()
		// expect checks that what is returned is the name of parameter i (-1: none, -2: an error).
		expect := func(name string, l paramList, ex *eng.Exploration, outs []eng.Outcome, i int) {
			if !r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", pos, "the method could not be followed") {
				return
			}
			for _, o := range outs {
				if o.Panics {
					r.Bad(name, pos, "the method panics")
					continue
				}
				if i == -2 {
					r.Check(isErr(o), name, pos, "no error is returned")
					continue
				}
				if !r.Check(!isErr(o), name+": failing", pos, "an error is returned") {
					continue
				}
				got, ok := eng.ConstAV(o.Rets[0])
				if i == -1 {
					r.Check(ok && got == "", name, pos, "what is returned is %s although there is none", o.Rets[0])
					continue
				}
				p := l.flat()[i]
				if ok && (p.name == "" || p.name == "_") {
					at := fmt.Sprintf("%s%d", m.list, i)
					other, taken := given[got]
					r.Check(!taken || other == at, name+": unique", pos, "the name given (%s) is also given to another parameter or result", got)
					given[got] = at
				}
				if p.name != "" && p.name != "_" {
					r.Check(ok && got == p.name, name, pos, "what is returned is %s, expected: %q", o.Rets[0], p.name)
				} else {
					has, known := identAt(o, m.list, l, i)
					r.Check(ok && got != "" && got != "_" && known && has == got, name, pos, "what is returned (%s) is not the name given to the parameter (%q)", o.Rets[0], has)
				}
				// the others keep their names, and all have one or none has
				for k, q := range l.flat() {
					has, known := identAt(o, m.list, l, k)
					if q.name != "" && k != i {
						r.Check(known && (has == q.name || q.name == "_"), fmt.Sprintf("%s: parameter %d", name, k), pos, "another parameter is renamed to %q", has)
					}
					if q.name == "" {
						r.Check(known && has != "", fmt.Sprintf("%s: parameter %d named", name, k), pos, "some parameters have no name, although others do")
					}
				}
			}
		}
		for _, l := range paramLists {
			flat := l.flat()
			run := func(unresolved, invalid bool, args ...eng.AV) (*eng.Exploration, []eng.Outcome) {
				ex := c.signExploration(setup(m.list, l), unresolved, invalid)
				return ex, ex.Run(m.f, append([]eng.AV{sym("sig")}, args...)...)
			}
			find := func(t string, implementing bool) (first, last int) {
				first, last = -1, -1
				for i, p := range flat {
					if p.typ == t || implementing && p.typ == "I" {
						if first < 0 {
							first = i
						}
						last = i
					}
				}
				return
			}
			switch m.kind {
			case "at":
				for i := 0; i <= len(flat)+1; i++ {
					want := i
					if i >= len(flat) {
						want = -2
					}
					ex, outs := run(false, false, eng.AInt(int64(i)))
					expect(fmt.Sprintf("%s %d of %s", base, i, l.name), l, ex, outs, want)
				}
			case "recv":
				want := 0
				if len(flat) != 1 {
					want = -2
					if !l.absent {
						continue
					}
				}
				ex, outs := run(false, false)
				expect(fmt.Sprintf("%s %s", base, l.name), l, ex, outs, want)
			case "of":
				for _, t := range []string{"A", "B", "E"} {
					first, _ := find(t, false)
					ex, outs := run(false, false, eng.AStr(t))
					expect(fmt.Sprintf("%s %s in %s", base, t, l.name), l, ex, outs, first)
				}
				ex, outs := run(false, true, eng.AStr("?"))
				expect(fmt.Sprintf("%s invalid in %s", base, l.name), l, ex, outs, -2)
			case "first", "last":
				pick := func(implementing bool) int {
					first, last := find("E", implementing)
					if m.kind == "last" {
						return last
					}
					return first
				}
				// one of the very type is preferred
				want := pick(false)
				if want < 0 {
					want = pick(true)
				}
				ex, outs := run(false, false, eng.AStr("E"))
				expect(fmt.Sprintf("%s E in %s", base, l.name), l, ex, outs, want)
				if !l.absent {
					want = pick(false)
					if want < 0 {
						want = -2
					}
					ex, outs = run(true, false, eng.AStr("E"))
					expect(fmt.Sprintf("%s unknown E in %s", base, l.name), l, ex, outs, want)
				}
			case "final":
				want := len(flat) > 0 && (flat[len(flat)-1].typ == "E" || flat[len(flat)-1].typ == "I")
				ex, outs := run(false, false, eng.AStr("E"))
				name := fmt.Sprintf("%s E in %s", base, l.name)
				if r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", pos, "the method could not be followed") {
					for _, o := range outs {
						r.Check(!o.Panics && o.Rets[0].IsTrue() == want && o.Rets[0].IsFalse() == !want && !isErr(o), name, pos, "answered %s, expected: %v", o.Rets[0], want)
					}
				}
			}
		}
	}
}

// otherFunctions checks what the templates get where there is no declared function.
func (c *Ctx) otherFunctions(r *R) {
	w := c.W
	for _, x := range []struct {
		typ, method string
		fails       bool
	}{
		{"noFunc", "Receiver", true}, {"noFunc", "Name", true}, {"noFunc", "Argument", true}, {"noFunc", "Result", true},
		{"noFunc", "ArgumentOfType", false}, {"noFunc", "ArgumentThatImplements", false}, {"noFunc", "ResultOfType", false}, {"noFunc", "ResultThatImplements", false},
		{"noFunc", "LastResultThatImplements", false}, {"noFunc", "FinalResultImplements", false},
		{"literalFunc", "Receiver", true}, {"literalFunc", "Name", false}, {"declaredFunc", "Name", false},
	} {
		f := r.Fn(codePkg, x.typ+"."+x.method)
		if f == nil {
			continue
		}
		name, pos := x.typ+"."+x.method, w.Pos(f.Pos())
		ex := c.signExploration(map[string]eng.AV{"f.Decl": sym("d"), "d.Name": sym("id"), "id.Name": eng.AStr("fname"), "d.Type": sym("ft")}, false, false)
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			if u, ok := v.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && types.Identical(eng.Deref(g.Type()), types.Universe.Lookup("error").Type()) {
					return sym(g.Name()), true
				}
			}
			return eng.AV{}, false
		}
		outs := ex.Run(f, sym("f"), eng.AUnk())
		if !r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", pos, "the method could not be followed") {
			continue
		}
		for _, o := range outs {
			if !r.Check(!o.Panics, name, pos, "the method panics") {
				continue
			}
			failing := o.Rets[1].K != eng.ANil
			if !r.Check(failing == x.fails && o.Rets[1].K != eng.AUnknown, name, pos, "the answer's error is %s", o.Rets[1]) || x.fails {
				continue
			}
			got, ok := eng.ConstAV(o.Rets[0])
			want := ""
			if x.typ == "declaredFunc" {
				want = "fname"
			}
			r.Check(ok && got == want || o.Rets[0].IsFalse(), name, pos, "the answer is %s", o.Rets[0])
		}
	}
}

// templateFunction checks that a template's function is the innermost one.
func (c *Ctx) templateFunction(r *R) {
	w := c.W
	fn := r.Fn(codePkg, "dot.Function")
	if fn == nil {
		return
	}
	pos := w.Pos(fn.Pos())
	for _, chain := range []string{"", "x", "d", "l", "xd", "xl", "ld", "dl", "xld", "xxl", "xdxl", "lxd"} {
		want := strings.TrimLeft(chain, "x")
		objs := map[string]eng.AV{"d.context": sym("ctx")}
		for i := range chain {
			objs[fmt.Sprintf("decl%d.Type", i)] = sym(fmt.Sprintf("ft%d", i))
			objs[fmt.Sprintf("lit%d.Type", i)] = sym(fmt.Sprintf("ft%d", i))
		}
		at := func(a eng.AV, pre string) int {
			n := -1
			if _, err := fmt.Sscanf(strings.Trim(a.String(), "<>"), pre+"%d", &n); err != nil {
				return -1
			}
			return n
		}
		node := func(i int) eng.AV {
			if i < 0 || i >= len(chain) {
				return eng.ANilV()
			}
			return sym(fmt.Sprintf("c%d", i))
		}
		ex := c.signExploration(objs, false, false)
		model := ex.Model
		ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			o := eng.CalleeObj(x)
			if o == nil {
				return model(x, eval)
			}
			recv := x.Call.Value
			if !x.Call.IsInvoke() && len(x.Call.Args) > 0 {
				recv = x.Call.Args[0]
			}
			switch o.Name() {
			case "Chain":
				return node(0), true
			case "Parent":
				if i := at(eval(recv), "c"); i >= 0 {
					return node(i + 1), true
				}
			case "Node":
				if i := at(eval(recv), "c"); i >= 0 {
					return sym(fmt.Sprintf("n%d", i)), true
				}
			}
			return model(x, eval)
		}
		ex.Assert = func(x *ssa.TypeAssert, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			is := map[string]string{"*github.com/dave/dst.FuncDecl": "decl", "*github.com/dave/dst.FuncLit": "lit"}[x.AssertedType.String()]
			i := at(eval(x.X), "n")
			if is == "" || i < 0 || !x.CommaOk {
				return eng.AV{}, false
			}
			if map[byte]string{'d': "decl", 'l': "lit"}[chain[i]] == is {
				return tuple(sym(fmt.Sprintf("%s%d", is, i)), eng.ABool(true)), true
			}
			return tuple(eng.ANilV(), eng.ABool(false)), true
		}
		// which function's type is used
		used := map[string]bool{}
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			if u, ok := in.(*ssa.UnOp); ok && (nodeField(u, "FuncDecl", "Type") || nodeField(u, "FuncLit", "Type")) {
				used[eval(u).String()] = true
			}
			return false
		}
		outs := ex.Run(fn, sym("d"))
		name := fmt.Sprintf("function in chain %q", chain)
		r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", pos, "which function is used could not be followed")
		if want == "" {
			r.Check(len(used) == 0, name, pos, "there is a function although none surrounds the place")
		} else {
			i := len(chain) - len(want)
			r.Check(len(used) == 1 && used[fmt.Sprintf("<ft%d>", i)], name, pos, "the function used is not the innermost one: %v, expected ft%d", keysOf(used), i)
		}
	}
}

// typeNames checks which expressions a type name matches.
func (c *Ctx) typeNames(r *R) {
	w := c.W
	fn, def := r.Fn(typedPkg, "TypeName.Matches"), r.Fn(typedPkg, "TypeName.MatchesDefinition")
	for _, f := range []string{"ImportPath", "Name", "Pointer"} {
		r.Field(typedPkg, "TypeName", f)
	}
	if fn == nil || def == nil {
		return
	}
	// the expressions, by what they stand for: pointers, import path, name
	type expr struct {
		name     string
		node     string // the outermost one
		pointers int
		path, id string
	}
	kinds := map[string]string{ // by the first letter of the node
		"i": "Ident", "s": "SelectorExpr", "p": "StarExpr", "x": "IndexExpr", "l": "IndexListExpr", "t": "InterfaceType", "a": "ArrayType", "f": "FuncType", "e": "Ellipsis", "c": "ChanType",
	}
	objs := func() map[string]eng.AV {
		m := map[string]eng.AV{
			"iT.Path": eng.AStr(""), "iT.Name": eng.AStr("T"), "ipT.Path": eng.AStr("p"), "ipT.Name": eng.AStr("T"), "ip.Path": eng.AStr(""), "ip.Name": eng.AStr("p"),
			"iU.Path": eng.AStr(""), "iU.Name": eng.AStr("U"), "iqp.Path": eng.AStr("q"), "iqp.Name": eng.AStr("p"), "iany.Path": eng.AStr(""), "iany.Name": eng.AStr("any"),
			"ierror.Path": eng.AStr(""), "ierror.Name": eng.AStr("error"),
			"sp.X": sym("ip"), "sp.Sel": sym("iT"), "sq.X": sym("iqp"), "sq.Sel": sym("iT"), "ss.X": sym("sp"), "ss.Sel": sym("iT"), "spU.X": sym("ip"), "spU.Sel": sym("iU"),
			"t0.Methods": sym("m0"), "m0.List": eng.ANilV(), "t1.Methods": sym("m1"), "m1.List": eng.AListOf(*listOf("", sym("m"))),
			"aT.Elt": sym("iT"), "eT.Elt": sym("iT"), "cT.Value": sym("iT"),
		}
		for _, k := range []string{"iT", "ipT", "sp", "t0", "t1", "xT", "xpT", "aT", "iany", "fT"} {
			n := strings.TrimPrefix(k, "i")
			m["p"+n+".X"] = sym(k)
		}
		m["xT.X"], m["xT.Index"], m["xpT.X"], m["lT.X"] = sym("iT"), sym("iU"), sym("ipT"), sym("iT")
		return m
	}
	exprs := []expr{
		{"T", "iT", 0, "", "T"}, {"p.T", "ipT", 0, "p", "T"}, {"U", "iU", 0, "", "U"}, {"any", "iany", 0, "", "any"}, {"error", "ierror", 0, "", "error"},
		{"p.T (selector)", "sp", 0, "p", "T"}, {"p.U (selector)", "spU", 0, "p", "U"}, {"p.T.T", "ss", -1, "", ""}, {"x.T of a variable of another package", "sq", -1, "", ""},
		{"*T", "pT", 1, "", "T"}, {"*p.T", "ppT", 1, "p", "T"}, {"**T", "ppT2", 2, "", "T"}, {"*(p.T) (selector)", "psp", 1, "p", "T"}, {"*any", "pany", 1, "", "any"},
		{"T[U]", "xT", 0, "", "T"}, {"p.T[U]", "xpT", 0, "p", "T"}, {"T[U, U]", "lT", 0, "", "T"}, {"*T[U]", "pxT", 1, "", "T"}, {"*p.T[U]", "pxpT", 1, "p", "T"},
		{"interface{}", "t0", 0, "", "any"}, {"*interface{}", "pt0", 1, "", "any"}, {"interface{ m() }", "t1", -1, "", ""}, {"*interface{ m() }", "pt1", -1, "", ""},
		{"[]T", "aT", -1, "", ""}, {"*[]T", "paT", -1, "", ""}, {"func()", "fT", -1, "", ""}, {"...T", "eT", -1, "", ""}, {"chan T", "cT", -1, "", ""}, {"nothing", "", -1, "", ""},
	}
	for _, ptr := range []bool{false, true} {
		for _, path := range []string{"", "p"} {
			for _, name := range []string{"T", "any"} {
				for _, x := range exprs {
					m := objs()
					m["ppT2.X"] = sym("pT")
					m["n.Pointer"], m["n.ImportPath"], m["n.Name"] = eng.ABool(ptr), eng.AStr(path), eng.AStr(name)
					node := sym(x.node)
					if x.node == "" {
						node = eng.ANilV()
					}
					explore := func() *eng.Exploration {
						ex := c.signExploration(m, false, false)
						ex.Model = nil
						ex.Assert = func(y *ssa.TypeAssert, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
							a := eval(y.X)
							is := strings.TrimPrefix(y.AssertedType.String(), "*github.com/dave/dst.")
							if !y.CommaOk || a.K != eng.ASymbol && a.K != eng.ANil || is == y.AssertedType.String() {
								return eng.AV{}, false
							}
							if t := strings.Trim(a.String(), "<>"); a.K == eng.ASymbol && kinds[t[:1]] == is {
								return tuple(a, eng.ABool(true)), true
							}
							return tuple(eng.ANilV(), eng.ABool(false)), true
						}
						return ex
					}
					pointers := 0
					if ptr {
						pointers = 1
					}
					tn := strings.Repeat("*", pointers) + path + "." + name
					ex := explore()
					r.eachBool(ex, ex.Run(fn, sym("n"), node), fmt.Sprintf("%s against %s", tn, x.name), w.Pos(fn.Pos()), pointers == x.pointers && path == x.path && name == x.id)
					for _, in := range []string{"p", "q"} {
						// in its own package, the type goes by its name alone
						ex := explore()
						r.eachBool(ex, ex.Run(def, sym("n"), node, eng.AStr(in)), fmt.Sprintf("%s against %s in %s", tn, x.name, in), w.Pos(def.Pos()), path == in && pointers == x.pointers && x.path == "" && name == x.id)
					}
				}
			}
		}
	}
}
