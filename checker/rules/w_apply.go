package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"orchverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "W11", Technique: "abstract interpretation of every advice's Apply over the shapes of nodes it can be given, following the syntax tree it builds, compared with the tree the documentation describes", Run: runApply})
}

// a nodeWorld is a syntax tree, known by name.
type nodeWorld struct {
	kind map[string]string // the node types of the symbols ("" for none)
	objs map[string]eng.AV
}

func newNodes() *nodeWorld {
	return &nodeWorld{map[string]string{}, map[string]eng.AV{}}
}

// node adds a node and its fields.
func (n *nodeWorld) node(id, kind string, fields map[string]eng.AV) {
	n.kind[id] = kind
	n.objs[id+".$type"] = eng.AStr(kind)
	for k, v := range fields {
		n.objs[id+"."+k] = v
	}
}

func symName(a eng.AV) string {
	if a.K != eng.ASymbol {
		return ""
	}
	return strings.Trim(a.String(), "<>")
}

// notExprs are the node types that are no expressions.
var notExprs = []string{"ValueSpec", "TypeSpec", "BlockStmt", "File", "Field", "FieldList", "ReturnStmt"}

func (c *Ctx) adviceExploration(n *nodeWorld, fails bool) *eng.Exploration {
	text := func(a eng.AV) string {
		if t, ok := eng.ConstAV(a); ok {
			return t
		}
		return strings.Trim(a.String(), "<>")
	}
	made := 0
	fresh := func(what string) string {
		made++
		return fmt.Sprintf("%s#%d", what, made)
	}
	ex := &eng.Exploration{W: c.W, Lists: true, Escaping: true, Objs: n.objs, Inline: func(g *ssa.Function) bool {
		return eng.Rel(g) == advicePkg && g.Name() != "inferPkgName"
	}}
	if len(n.objs) == 0 {
		n.objs["$"] = eng.AStr("")
	}
	ex.Assert = func(x *ssa.TypeAssert, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
		v := eval(x.X)
		id := symName(v)
		if id == "" {
			return eng.AV{}, false
		}
		k, ok := n.kind[strings.SplitN(id, "#", 2)[0]]
		if !ok {
			return eng.AV{}, false
		}
		is := false
		if types.IsInterface(x.AssertedType) {
			is = isDst(x.AssertedType, "Node") || isDst(x.AssertedType, "Expr") && !has(notExprs, k)
		} else {
			is = isDst(eng.Deref(x.AssertedType), k)
		}
		if !x.CommaOk {
			return v, is
		}
		if !is {
			return tuple(eng.ANilV(), eng.ABool(false)), true
		}
		return tuple(v, eng.ABool(true)), true
	}
	ex.Made = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, map[string]eng.AV, bool) {
		args := func() string {
			var l []string
			for _, a := range x.Call.Args {
				l = append(l, text(eval(a)))
			}
			return strings.Join(l, ", ")
		}
		if x.Call.IsInvoke() {
			m := x.Call.Method.Name()
			switch m {
			case "AddImport":
				return sym("added"), map[string]eng.AV{"log." + m + "(" + args() + ")": eng.ABool(true)}, true
			case "AddLink", "ReplaceNode", "Release":
				on := symName(eval(x.Call.Value))
				return eng.AUnk(), map[string]eng.AV{"log." + m + "(" + args() + ") on " + on: eng.ABool(true)}, true
			case "EnsureMinGoLang":
				return eng.AV{}, nil, true
			case "Child":
				return sym("child(" + args() + ")"), nil, true
			}
			return eng.AV{}, nil, false
		}
		switch eng.Key(x) {
		case "github.com/dave/dst.NewIdent":
			id := fresh("ident")
			return sym(id), map[string]eng.AV{id + ".Name": eval(x.Call.Args[0]), id + ".$type": eng.AStr("Ident")}, true
		case "github.com/dave/dst.Clone":
			if id := symName(eval(x.Call.Args[0])); id != "" {
				return sym(fresh(strings.SplitN(id, "#", 2)[0])), nil, true
			}
		}
		return eng.AV{}, nil, false
	}
	ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
		if x.Call.IsInvoke() {
			on := symName(eval(x.Call.Value))
			switch x.Call.Method.Name() {
			case "Node":
				if on == "ctx" {
					return sym("node"), true
				}
			case "File":
				if strings.HasPrefix(on, "ctx") {
					return sym("file"), true
				}
			}
			return eng.AV{}, false
		}
		switch eng.MKey(x) {
		case codePkg + ".Template.CompileExpression", codePkg + ".Template.CompileBlock", codePkg + ".Template.CompileDeclarations":
			t, on := symName(eval(x.Call.Args[0])), symName(eval(x.Call.Args[1]))
			if t == "" || on == "" {
				return eng.AV{}, false
			}
			if fails {
				return tuple(eng.ANilV(), sym("failed")), true
			}
			if strings.HasSuffix(eng.MKey(x), "Declarations") {
				if t == "nothing" {
					return tuple(eng.ANilV(), eng.ANilV()), true
				}
				return tuple(eng.AListOf(*listOf("", sym(t+"-first"), sym(t+"-second"))), eng.ANilV()), true
			}
			return tuple(sym(t+"-in-"+on), eng.ANilV()), true
		case typedPkg + ".TypeName.AsNode":
			t := symName(eval(x.Call.Args[0]))
			if fa, ok := x.Call.Args[0].(*ssa.FieldAddr); ok && eng.FieldVar(fa).Name() == "TypeName" {
				t = "type"
			}
			if t != "" {
				return sym(fresh("typed " + strings.SplitN(t, "#", 2)[0])), true
			}
		case advicePkg + ".inferPkgName":
			return sym("name of " + text(eval(x.Call.Args[0]))), true
		}
		switch eng.Key(x) {
		case "fmt.Errorf", "errors.New":
			return sym("error"), true
		}
		return eng.AV{}, false
	}
	return ex
}

func isDst(t types.Type, name string) bool {
	n := eng.NamedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/dave/dst"
}

// tree is the text of a syntax tree; the fields without a value are left out.
func tree(o eng.Outcome, a eng.AV, seen map[string]int, depth int) string {
	if depth > 20 {
		return "..."
	}
	switch a.K {
	case eng.ANil:
		return ""
	case eng.AConst:
		if t := a.String(); t != "false" && t != `""` && t != "0" {
			return t
		}
		return ""
	case eng.AList:
		if a.L == nil {
			return "?"
		}
		var l []string
		for _, x := range a.L.Pre {
			l = append(l, tree(o, x, seen, depth+1))
		}
		if a.L.Rest != "" {
			l = append(l, "...")
		}
		if len(l) == 0 {
			return ""
		}
		return "[" + strings.Join(l, " ") + "]"
	case eng.ASymbol:
		id := symName(a)
		seen[id]++
		var fs []string
		typ := ""
		for k, v := range o.Objs() {
			f, ok := strings.CutPrefix(k, id+".")
			if !ok || strings.Contains(f, ".") {
				continue
			}
			if f == "$type" {
				typ = strings.Trim(v.String(), `"`)
				continue
			}
			if t := tree(o, v, seen, depth+1); t != "" {
				fs = append(fs, f+":"+t)
			}
		}
		if len(fs) == 0 && typ == "" || typ != "" && len(fs) == 0 && !strings.Contains(id, "@") {
			return strings.SplitN(id, "#", 2)[0]
		}
		sort.Strings(fs)
		return typ + "{" + strings.Join(fs, " ") + "}"
	}
	return "?"
}

// logged are the calls made on the context.
func logged(o eng.Outcome, but ...string) string {
	var l []string
next:
	for k := range o.Objs() {
		if rest, ok := strings.CutPrefix(k, "log."); ok {
			for _, b := range but {
				if strings.HasPrefix(rest, b+"(") {
					continue next
				}
			}
			l = append(l, rest)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func runApply(c *Ctx) {
	rCall := c.Rule("W11.calls", "append-args adds its values after the arguments of the call, replace-function changes only what is called")
	rNode := c.Rule("W11.nodes", "prepend-statements, wrap-expression and assign-value change the matched node as documented")
	rDecl := c.Rule("W11.declarations", "inject-declarations, add-blank-import and add-struct-field add what they are asked to, at the end")
	rWrong := c.Rule("W11.refused", "an advice that does not apply to the node, or whose template fails, reports this and changes nothing")
	c.callAdvice(rCall, rWrong)
	c.nodeAdvice(rNode, rWrong)
	c.declAdvice(rDecl, rWrong)
	c.decodedValues(c.Rule("W11.decoded", "what is read from the configuration is read into a value: a pointer is never filled in, and using it panics"))
}

// decodedValues checks that no configuration is decoded into a nil pointer: the decoder leaves
// these as they are.
func (c *Ctx) decodedValues(r *R) {
	const aspects = "internal/injector/aspect"
	fs := c.W.FuncsIn(aspects, joinPkg, advicePkg, codePkg, aspects+"/context")
	calls := c.W.CallsTo(fs, yamlDecode)
	r.Check(len(calls) > 0, "decoding of nodes", "", "no call of %s found", yamlDecode)
	for _, call := range calls {
		a := call.Common().Args
		d := eng.Unwrap(a[len(a)-1])
		into := eng.Deref(d.Type())
		_, isPtr := into.Underlying().(*types.Pointer)
		ok := !isPtr
		if al, isAl := d.(*ssa.Alloc); isAl && isPtr {
			// pointing somewhere when it is read into
			for _, ref := range *al.Referrers() {
				if st, isSt := ref.(*ssa.Store); isSt && st.Addr == ssa.Value(al) && eng.Dominates(st, call) {
					if k, isC := st.Val.(*ssa.Const); !isC || k.Value != nil {
						ok = true
					}
				}
			}
		}
		r.Check(ok, eng.FKey(call.Parent())+": into a value", c.W.Pos(call.Pos()), "decodes into a %s, which stays nil", into)
	}
}

// an adviceCase is one application of an advice.
type adviceCase struct {
	name  string
	f     *ssa.Function
	recv  eng.AV
	n     *nodeWorld
	root  string              // the node looked at in the end
	want  []string            // its text in the end
	log   string              // the calls on the context
	may   string              // a call that is harmless
	fails bool                // the template fails
	wrong bool                // an error is expected
	ret   string              // what is returned, if not true
	norm  func(string) string // applied to the text found
}

func (c *Ctx) applied(r *R, ac adviceCase) {
	pos := c.W.Pos(ac.f.Pos())
	before := map[string]eng.AV{}
	for k, v := range ac.n.objs {
		before[k] = v
	}
	ex := c.adviceExploration(ac.n, ac.fails)
	outs := ex.Run(ac.f, ac.recv, sym("ctx"))
	if !r.Check(len(outs) > 0 && !ex.Exhausted, ac.name+": explored", pos, "what is changed could not be followed") {
		return
	}
	for _, o := range outs {
		if o.Panics || len(o.Rets) != 2 {
			r.Bad(ac.name, pos, "applying the advice panics")
			continue
		}
		if ac.wrong {
			changed := ""
			for k, v := range o.Objs() {
				if w, ok := before[k]; ok && w.String() != v.String() {
					changed = k
				}
			}
			r.Check(o.Rets[0].IsFalse() && o.Rets[1].K == eng.ASymbol, ac.name+": reported", pos, "returned %s, %s", o.Rets[0], o.Rets[1])
			r.Check(changed == "" && logged(o, "Release") == "", ac.name+": unchanged", pos, "changed: %s %s", changed, logged(o, "Release"))
			continue
		}
		ret := "true"
		if ac.ret != "" {
			ret = ac.ret
		}
		r.Check(o.Rets[0].String() == ret && o.Rets[1].K == eng.ANil, ac.name+": result", pos, "returned %s, %s, expected %s", o.Rets[0], o.Rets[1], ret)
		seen := map[string]int{}
		got := tree(o, sym(ac.root), seen, 0)
		if ac.norm != nil {
			got = ac.norm(got)
		}
		ok := false
		for _, w := range ac.want {
			ok = ok || w == got
		}
		r.Check(ok, ac.name, pos, "the node becomes %s, expected %s", got, ac.want[0])
		for id, k := range seen {
			if k > 1 && !strings.HasPrefix(id, "shared") {
				r.Bad(ac.name+": each node in one place", pos, "%s appears %d times in the tree", id, k)
			}
		}
		r.Check(logged(o, "Release") == ac.log || ac.may != "" && logged(o, "Release") == ac.may, ac.name+": effects", pos, "calls on the context: %s, expected: %s", logged(o, "Release"), ac.log)
	}
}

func nodeList(ids ...string) eng.AV {
	if len(ids) == 0 {
		return eng.ANilV()
	}
	var l []eng.AV
	for _, id := range ids {
		l = append(l, sym(id))
	}
	return eng.AListOf(*listOf("", l...))
}

// wrongNodes checks that nodes of other types are refused.
func (c *Ctx) wrongNodes(r *R, what string, f *ssa.Function, recv eng.AV, fields map[string]eng.AV, kinds ...string) {
	for _, k := range kinds {
		n := newNodes()
		n.node("node", k, nil)
		for f, v := range fields {
			n.objs[f] = v
		}
		c.applied(r, adviceCase{name: what + " on a " + k, f: f, recv: recv, n: n, wrong: true})
	}
}

func (c *Ctx) callAdvice(r, rw *R) {
	add, repl := r.Fn(advicePkg, "appendArgs.Apply"), r.Fn(advicePkg, "redirectCall.Apply")
	if add == nil || repl == nil {
		return
	}
	r.Field(advicePkg, "appendArgs", "Templates")
	r.Field(advicePkg, "appendArgs", "TypeName")
	r.Field(advicePkg, "redirectCall", "ImportPath")
	r.Field(advicePkg, "redirectCall", "Name")
	call := func(n *nodeWorld, fun string, ellipsis bool, args ...string) {
		n.node("node", "CallExpr", map[string]eng.AV{"Fun": sym(fun), "Args": nodeList(args...), "Ellipsis": eng.ABool(ellipsis)})
	}
	fields := func(path string, ts ...string) map[string]eng.AV {
		return map[string]eng.AV{"recv.Templates": nodeList(ts...), "recv.TypeName": sym("type"), "type.ImportPath": eng.AStr(path), "recv.TypeName.ImportPath": eng.AStr(path)}
	}
	for _, ts := range [][]string{{}, {"t1"}, {"t1", "t2"}} {
		var in []string
		for _, t := range ts {
			in = append(in, t+"-in-ctx")
		}
		for _, args := range [][]string{{}, {"a"}, {"a", "b"}} {
			for _, path := range []string{"", "some/path"} {
				n := newNodes()
				call(n, "f", false, args...)
				for k, v := range fields(path, ts...) {
					n.objs[k] = v
				}
				want := "CallExpr{Fun:f}"
				if l := append(append([]string{}, args...), in...); len(l) > 0 {
					want = "CallExpr{Args:[" + strings.Join(l, " ") + "] Fun:f}"
				}
				// importing what the type needs is harmless
				c.applied(r, adviceCase{name: fmt.Sprintf("append-args %v to f(%v), %q", ts, args, path), f: add, recv: sym("recv"), n: n, root: "node", want: []string{want}, may: "AddImport(" + path + ", name of " + path + ")"})
				if len(args) == 0 || len(ts) == 0 {
					continue
				}
				n = newNodes()
				call(n, "f", true, args...)
				for k, v := range fields(path, ts...) {
					n.objs[k] = v
				}
				last := len(args) - 1
				fn := "FuncLit{Body:BlockStmt{List:[ReturnStmt{Results:[CallExpr{Args:[Ident{Name:\"opts\"} " + strings.Join(in, " ") + "] Fun:Ident{Name:\"append\"}}]}]} " +
					"Type:FuncType{Params:FieldList{List:[Field{Names:[Ident{Name:\"opts\"}] Type:Ellipsis{Elt:typed type}}]} Results:FieldList{List:[Field{Type:ArrayType{Elt:typed type}}]}}}"
				l := append(append([]string{}, args[:last]...), "CallExpr{Args:["+args[last]+"] Ellipsis:true Fun:"+fn+"}")
				log := ""
				if path != "" {
					log = "AddImport(" + path + ", name of " + path + ")"
				}
				c.applied(r, adviceCase{name: fmt.Sprintf("append-args %v to f(%v...), %q", ts, args, path), f: add, recv: sym("recv"), n: n, root: "node",
					want: []string{"CallExpr{Args:[" + strings.Join(l, " ") + "] Ellipsis:true Fun:f}"}, log: log, norm: paramName})
			}
		}
	}
	for _, ellipsis := range []bool{false, true} {
		n := newNodes()
		call(n, "f", ellipsis, "a")
		for k, v := range fields("", "t1") {
			n.objs[k] = v
		}
		c.applied(rw, adviceCase{name: fmt.Sprintf("append-args, failing template, ellipsis %v", ellipsis), f: add, recv: sym("recv"), n: n, fails: true, wrong: true})
	}
	c.wrongNodes(rw, "append-args", add, sym("recv"), fields("", "t1"), "Ident", "KeyValueExpr", "BlockStmt", "ValueSpec")
	for _, path := range []string{"", "some/path"} {
		for _, fun := range []string{"Ident", "SelectorExpr", "FuncLit"} {
			for _, ellipsis := range []bool{false, true} {
				n := newNodes()
				call(n, "f", ellipsis, "a", "b")
				n.node("f", fun, nil)
				if fun == "Ident" {
					n.node("f", fun, map[string]eng.AV{"Name": eng.AStr("old"), "Path": eng.AStr("old/path"), "Obj": sym("oldobj")})
				}
				n.objs["recv.ImportPath"], n.objs["recv.Name"] = eng.AStr(path), eng.AStr("New")
				want, log, end := `Ident{Name:"New"}`, "", ""
				if path != "" {
					want, log = `Ident{Name:"New" Path:"some/path"}`, "AddImport("+path+", name of "+path+")"
				}
				if ellipsis {
					end = " Ellipsis:true"
				}
				c.applied(r, adviceCase{name: fmt.Sprintf("replace-function by %q.New in a call of a %s, ellipsis %v", path, fun, ellipsis), f: repl, recv: sym("recv"), n: n, root: "node",
					want: []string{"CallExpr{Args:[a b]" + end + " Fun:" + want + "}"}, log: log})
			}
		}
	}
	c.wrongNodes(rw, "replace-function", repl, sym("recv"), map[string]eng.AV{"recv.ImportPath": eng.AStr("p"), "recv.Name": eng.AStr("N")}, "Ident", "SelectorExpr", "BlockStmt")
}

// paramName gives the parameter of the function built the name "opts".
func paramName(t string) string {
	const at = `Params:FieldList{List:[Field{Names:[Ident{Name:"`
	_, rest, ok := strings.Cut(t, at)
	if !ok {
		return t
	}
	name, _, _ := strings.Cut(rest, `"`)
	if name == "" || name == "_" || name == "append" {
		return t
	}
	return strings.ReplaceAll(t, `Ident{Name:"`+name+`"}`, `Ident{Name:"opts"}`)
}

func (c *Ctx) nodeAdvice(r, rw *R) {
	pre, wrap, assign := r.Fn(advicePkg, "prependStatements.Apply"), r.Fn(advicePkg, "wrapExpression.Apply"), r.Fn(advicePkg, "assignValue.Apply")
	if pre == nil || wrap == nil || assign == nil {
		return
	}
	for _, t := range []string{"prependStatements", "wrapExpression", "assignValue"} {
		r.Field(advicePkg, t, "Template")
	}
	tpl := map[string]eng.AV{"recv.Template": sym("t")}
	world := func(id, kind string, fs map[string]eng.AV) *nodeWorld {
		n := newNodes()
		n.node(id, kind, fs)
		for k, v := range tpl {
			n.objs[k] = v
		}
		return n
	}
	for _, list := range [][]string{{}, {"s1"}, {"s1", "s2", "s3"}} {
		w := "BlockStmt{List:[" + strings.Join(append([]string{"t-in-ctx"}, list...), " ") + "]}"
		c.applied(r, adviceCase{name: fmt.Sprintf("prepend-statements to %v", list), f: pre, recv: sym("recv"), n: world("node", "BlockStmt", map[string]eng.AV{"List": nodeList(list...)}), root: "node", want: []string{w}})
	}
	c.applied(rw, adviceCase{name: "prepend-statements, failing template", f: pre, recv: sym("recv"), n: world("node", "BlockStmt", map[string]eng.AV{"List": nodeList("s1")}), fails: true, wrong: true})
	c.wrongNodes(rw, "prepend-statements", pre, sym("recv"), tpl, "CallExpr", "File", "FuncDecl")

	for _, k := range []string{"CallExpr", "Ident", "CompositeLit", "FuncLit"} {
		n := world("node", k, nil)
		c.applied(r, adviceCase{name: "wrap-expression on a " + k, f: wrap, recv: sym("recv"), n: n, root: "node", want: []string{"node"}, log: "ReplaceNode(t-in-ctx) on ctx"})
		c.applied(rw, adviceCase{name: "wrap-expression on a " + k + ", failing template", f: wrap, recv: sym("recv"), n: world("node", k, nil), fails: true, wrong: true})
	}
	kv := map[string]eng.AV{"Key": sym("k"), "Value": sym("v")}
	c.applied(r, adviceCase{name: "wrap-expression on a KeyValueExpr", f: wrap, recv: sym("recv"), n: world("node", "KeyValueExpr", kv), root: "node", want: []string{"KeyValueExpr{Key:k Value:t-in-child(v, Value, -1)}"}})
	c.applied(rw, adviceCase{name: "wrap-expression on a KeyValueExpr, failing template", f: wrap, recv: sym("recv"), n: world("node", "KeyValueExpr", kv), fails: true, wrong: true})
	c.wrongNodes(rw, "wrap-expression", wrap, sym("recv"), tpl, "BlockStmt", "ValueSpec", "File")

	for _, names := range [][]string{{"x"}, {"x", "y"}, {"x", "y", "z"}} {
		for _, values := range [][]string{{}, {"v"}} {
			var vs []string
			for range names {
				vs = append(vs, "t-in-ctx")
			}
			w := "ValueSpec{Names:[" + strings.Join(names, " ") + "] Type:ty Values:[" + strings.Join(vs, " ") + "]}"
			n := world("node", "ValueSpec", map[string]eng.AV{"Names": nodeList(names...), "Values": nodeList(values...), "Type": sym("ty")})
			n.kind["t-in-ctx"] = "CallExpr"
			c.applied(r, adviceCase{name: fmt.Sprintf("assign-value to %v (%v)", names, values), f: assign, recv: sym("recv"), n: n, root: "node", want: []string{w}})
		}
	}
	n := world("node", "ValueSpec", map[string]eng.AV{"Names": nodeList("x"), "Values": eng.ANilV(), "Type": sym("ty")})
	c.applied(rw, adviceCase{name: "assign-value, failing template", f: assign, recv: sym("recv"), n: n, fails: true, wrong: true})
	c.wrongNodes(rw, "assign-value", assign, sym("recv"), tpl, "TypeSpec", "CallExpr", "File")
}

func (c *Ctx) declAdvice(r, rw *R) {
	inj, imp, field := r.Fn(advicePkg, "injectDeclarations.Apply"), r.Fn(advicePkg, "addBlankImport.Apply"), r.Fn(advicePkg, "addStructField.Apply")
	if inj == nil || imp == nil || field == nil {
		return
	}
	r.Field(advicePkg, "injectDeclarations", "Template")
	r.Field(advicePkg, "injectDeclarations", "Links")
	r.Field(advicePkg, "addStructField", "Name")
	r.Field(advicePkg, "addStructField", "TypeName")
	for _, decls := range [][]string{{}, {"d1"}, {"d1", "d2"}} {
		for _, links := range [][]string{{}, {"l1"}, {"l1", "l2"}} {
			for _, t := range []string{"t", "nothing"} {
				n := newNodes()
				n.node("node", "FuncDecl", nil)
				n.node("file", "File", map[string]eng.AV{"Decls": nodeList(decls...), "Name": sym("fileName")})
				n.objs["recv.Template"] = sym(t)
				n.objs["recv.Links"] = eng.ANilV()
				var ls []eng.AV
				log := []string{}
				for _, l := range links {
					ls = append(ls, eng.AStr(l))
					log = append(log, "AddLink("+l+") on ctx")
				}
				if len(ls) > 0 {
					log = append([]string{"AddImport(unsafe, _)"}, log...)
					n.objs["recv.Links"] = eng.AListOf(*listOf("", ls...))
				}
				all, ret := append(append([]string{}, decls...), "t-first", "t-second"), "true"
				if t == "nothing" {
					all, ret, log = decls, "false", nil
				}
				want := "File{Name:fileName}"
				if len(all) > 0 {
					want = "File{Decls:[" + strings.Join(all, " ") + "] Name:fileName}"
				}
				c.applied(r, adviceCase{name: fmt.Sprintf("inject-declarations %s with links %v to %v", t, links, decls), f: inj, recv: sym("recv"), n: n, root: "file", want: []string{want}, ret: ret, log: strings.Join(log, "; ")})
			}
		}
	}
	n := newNodes()
	n.node("file", "File", map[string]eng.AV{"Decls": nodeList("d1")})
	n.objs["recv.Template"], n.objs["recv.Links"] = sym("t"), eng.AListOf(*listOf("", eng.AStr("l1")))
	c.applied(rw, adviceCase{name: "inject-declarations, failing template", f: inj, recv: sym("recv"), n: n, fails: true, wrong: true})

	n = newNodes()
	n.node("node", "File", nil)
	c.applied(r, adviceCase{name: "add-blank-import", f: imp, recv: eng.AStr("some/path"), n: n, root: "node", want: []string{"node"}, ret: "<added>", log: "AddImport(some/path, _)"})

	for _, path := range []string{"", "some/path"} {
		for _, old := range []string{"no list", "none", "one", "two"} {
			n := newNodes()
			n.node("node", "TypeSpec", map[string]eng.AV{"Name": sym("N"), "Type": sym("struct")})
			n.node("struct", "StructType", map[string]eng.AV{"Fields": sym("fields")})
			pre := ""
			switch old {
			case "no list":
				n.objs["struct.Fields"] = eng.ANilV()
			case "none":
				n.node("fields", "FieldList", map[string]eng.AV{"List": eng.ANilV()})
			case "one":
				n.node("fields", "FieldList", map[string]eng.AV{"List": nodeList("f1")})
				pre = "f1 "
			case "two":
				n.node("fields", "FieldList", map[string]eng.AV{"List": nodeList("f1", "f2")})
				pre = "f1 f2 "
			}
			n.objs["recv.Name"], n.objs["recv.TypeName"] = eng.AStr("added"), sym("type")
			n.objs["type.ImportPath"], n.objs["recv.TypeName.ImportPath"] = eng.AStr(path), eng.AStr(path)
			log := ""
			if path != "" {
				log = "AddImport(" + path + ", name of " + path + ")"
			}
			c.applied(r, adviceCase{name: fmt.Sprintf("add-struct-field to a structure with fields: %s, %q", old, path), f: field, recv: sym("recv"), n: n, root: "node",
				want: []string{`TypeSpec{Name:N Type:StructType{Fields:FieldList{List:[` + pre + `Field{Names:[Ident{Name:"added"}] Type:typed type}]}}}`}, log: log})
		}
	}
	fs := map[string]eng.AV{"recv.Name": eng.AStr("added"), "recv.TypeName": sym("type"), "type.ImportPath": eng.AStr("p"), "recv.TypeName.ImportPath": eng.AStr("p")}
	c.wrongNodes(rw, "add-struct-field", field, sym("recv"), fs, "ValueSpec", "StructType", "File")
	n = newNodes()
	n.node("node", "TypeSpec", map[string]eng.AV{"Name": sym("N"), "Type": sym("other")})
	n.node("other", "InterfaceType", nil)
	for k, v := range fs {
		n.objs[k] = v
	}
	c.applied(rw, adviceCase{name: "add-struct-field to an interface", f: field, recv: sym("recv"), n: n, wrong: true})
}
