package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"orchverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "W12", Technique: "abstract interpretation of every join point's Matches over the shapes of nodes, their ancestors and types, compared with the answer its documentation gives", Run: runMatching})
}

// a matchWorld is a node, its ancestors, and what is known about them.
type matchWorld struct {
	*nodeWorld
	importPath string
	types      map[string]string // "named", "pointer", "alias" or another kind, by name
	pkg        string
	config     map[string]string
	testMain   bool
}

func newMatch() *matchWorld {
	return &matchWorld{nodeWorld: newNodes(), importPath: "here", types: map[string]string{}, pkg: "herepkg", config: map[string]string{}}
}

// chain makes the nodes, the innermost first, the ancestors of the first, under the given property names.
func (m *matchWorld) chain(props []string, ids ...string) {
	for i, id := range ids {
		m.objs[fmt.Sprintf("chain%d.$node", i)] = sym(id)
		p := eng.ANilV()
		if i+1 < len(ids) {
			p = sym(fmt.Sprintf("chain%d", i+1))
		}
		m.objs[fmt.Sprintf("chain%d.$parent", i)] = p
		name := ""
		if i < len(props) {
			name = props[i]
		}
		m.objs[fmt.Sprintf("chain%d.$property", i)] = eng.AStr(name)
	}
}

// runes is the rune an abstract value stands for.
func runeOf(a eng.AV) (rune, bool) {
	n, ok := a.Int()
	return rune(n), ok
}

func (c *Ctx) matchExploration(m *matchWorld) *eng.Exploration {
	ex := &eng.Exploration{W: c.W, Lists: true, Ranges: true, Objs: m.objs, Inline: func(g *ssa.Function) bool {
		r := eng.Rel(g)
		return r == joinPkg
	}}
	// what a method is called on, which may be a field of it
	on := func(v ssa.Value, eval func(ssa.Value) eng.AV) string {
		for {
			if s := symName(eval(v)); s != "" {
				return s
			}
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.Field:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			default:
				return ""
			}
		}
	}
	ex.Assert = func(x *ssa.TypeAssert, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
		v := eval(x.X)
		no := tuple(eng.ANilV(), eng.ABool(false))
		if v.K == eng.ANil {
			return no, x.CommaOk
		}
		id := symName(v)
		is := false
		if k, ok := m.kind[id]; ok {
			switch {
			case !types.IsInterface(x.AssertedType):
				is = isDst(eng.Deref(x.AssertedType), k)
			case isDst(x.AssertedType, "Node"):
				is = true
			case isDst(x.AssertedType, "Spec"):
				is = has([]string{"ValueSpec", "TypeSpec", "ImportSpec"}, k)
			default:
				return eng.AV{}, false
			}
		} else if k, ok := m.types[id]; ok {
			n := eng.NamedOf(eng.Deref(x.AssertedType))
			if n == nil {
				return eng.AV{}, false
			}
			is = strings.EqualFold(n.Obj().Name(), k)
		} else {
			return eng.AV{}, false
		}
		if !x.CommaOk {
			return v, is
		}
		if !is {
			return no, true
		}
		return tuple(v, eng.ABool(true)), true
	}
	obj := func(k string) (eng.AV, bool) {
		a, ok := m.objs[k]
		return a, ok
	}
	ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
		if x.Call.IsInvoke() {
			id := on(x.Call.Value, eval)
			switch n := x.Call.Method.Name(); n {
			case "Node":
				return sym("n0"), id == "ctx"
			case "Chain":
				return sym("chain0"), id == "ctx"
			case "ImportPath":
				return eng.AStr(m.importPath), id == "ctx"
			case "Package":
				return eng.AStr(m.pkg), id == "ctx"
			case "TestMain":
				return eng.ABool(m.testMain), id == "ctx"
			case "Config":
				if k, ok := eng.ConstAV(eval(x.Call.Args[0])); ok {
					v, found := m.config[k]
					return tuple(eng.AStr(v), eng.ABool(found)), true
				}
			case "ResolveType":
				return obj(symName(eval(x.Call.Args[0])) + ".$type of")
			case "Decorations":
				return sym(id + " decorations"), id != ""
			case "Matches":
				if id != "" {
					return eng.ABool(id[0] == 't'), true
				}
			}
			return eng.AV{}, false
		}
		if fn := eng.CalleeObj(x); fn != nil && fn.Pkg() != nil {
			n := fn.Name()
			switch fn.Pkg().Path() {
			case eng.ModPath + "/internal/injector/aspect/context":
				id := on(eng.ArgOf(x, 0), eval)
				switch n {
				case "Parent":
					return obj(id + ".$parent")
				case "Node":
					return obj(id + ".$node")
				case "PropertyName":
					return obj(id + ".$property")
				}
			case "go/types":
				if n == "Unalias" {
					t := symName(eval(x.Call.Args[0]))
					for m.types[t] == "alias" {
						t = symName(m.objs[t+".$of"])
					}
					return sym(t), t != ""
				}
				id := on(eng.ArgOf(x, 0), eval)
				switch n {
				case "Elem":
					return obj(id + ".$of")
				case "Obj":
					return sym(id + " object"), id != ""
				case "Pkg":
					return obj(id + ".$pkg")
				case "Path", "Name":
					return obj(id + ".$" + n)
				}
			case "github.com/dave/dst":
				if n == "All" {
					if id := on(eng.ArgOf(x, 0), eval); id != "" {
						return obj(id + ".Start")
					}
				}
			case "strings":
				s, ok := eng.ConstAV(eval(x.Call.Args[0]))
				if !ok {
					return eng.AV{}, false
				}
				switch n {
				case "TrimLeftFunc":
					if f, ok := x.Call.Args[1].(*ssa.Function); ok && f.RelString(nil) == "unicode.IsSpace" {
						return eng.AStr(strings.TrimLeftFunc(s, unicode.IsSpace)), true
					}
				case "TrimSpace":
					return eng.AStr(strings.TrimSpace(s)), true
				}
			case "unicode/utf8":
				if s, ok := eng.ConstAV(eval(x.Call.Args[0])); ok && n == "DecodeRuneInString" {
					r, k := utf8.DecodeRuneInString(s)
					return tuple(eng.AInt(int64(r)), eng.AInt(int64(k))), true
				}
			case "unicode":
				if r, ok := runeOf(eval(x.Call.Args[0])); ok && n == "IsSpace" {
					return eng.ABool(unicode.IsSpace(r)), true
				}
			}
		}
		if eng.MKey(x) == typedPkg+".TypeName.Matches" {
			a := eval(x.Call.Args[1])
			if a.K == eng.ANil {
				return eng.ABool(false), true
			}
			return eng.ABool(symName(a) == "T"), symName(a) != ""
		}
		return eng.AV{}, false
	}
	return ex
}

func (c *Ctx) matches(r *R, name string, f *ssa.Function, recv eng.AV, m *matchWorld, want bool) {
	ex := c.matchExploration(m)
	r.eachBool(ex, ex.Run(f, recv, sym("ctx")), name, c.W.Pos(f.Pos()), want)
}

func runMatching(c *Ctx) {
	c.matchStructs(c.Rule("W12.structures", "struct-definition and struct-literal match the definitions and literals of the type, with or without & as asked for"))
	c.matchDeclarations(c.Rule("W12.declarations", "declaration-of and value-declaration match declarations of the package only, not of its functions"))
	c.matchCalls(c.Rule("W12.calls", "function-call and method-call match the calls of the function or method only, however the type is spelled"))
	c.matchDirective(c.Rule("W12.directives", "a directive is matched on the node it is attached to and where it is passed on to, and spelled exactly"))
	c.matchOthers(c.Rule("W12.combined", "combined join points and those looking at the package match when their parts do"))
}

func (c *Ctx) matchStructs(r *R) {
	def, lit := r.Fn(joinPkg, "structDefinition.Matches"), r.Fn(joinPkg, "structLiteral.Matches")
	if def == nil || lit == nil {
		return
	}
	r.Field(joinPkg, "structDefinition", "TypeName")
	for _, f := range []string{"TypeName", "Field", "Match"} {
		r.Field(joinPkg, "structLiteral", f)
	}
	for _, pointer := range []bool{false, true} {
		for _, kind := range []string{"TypeSpec", "ValueSpec"} {
			for _, name := range []string{"T", "U", "none"} {
				for _, of := range []string{"StructType", "InterfaceType"} {
					for _, in := range []string{"here", "there", ""} {
						m := newMatch()
						m.node("n0", kind, map[string]eng.AV{"Name": sym("name"), "Type": sym("ty")})
						if name == "none" {
							m.objs["n0.Name"] = eng.ANilV()
						}
						m.objs["name.Name"] = eng.AStr(name)
						m.node("ty", of, nil)
						for f, v := range map[string]eng.AV{"Pointer": eng.ABool(pointer), "Name": eng.AStr("T"), "ImportPath": eng.AStr(in)} {
							m.objs["recv.TypeName."+f] = v
						}
						c.matches(r, fmt.Sprintf("struct-definition (pointer %v, of package %q) on a %s %s of a %s", pointer, in, kind, name, of), def, sym("recv"), m,
							!pointer && kind == "TypeSpec" && name == "T" && of == "StructType" && in == "here")
					}
				}
			}
		}
	}
	modes := map[string]eng.AV{}
	for _, n := range []string{"Any", "ValueOnly", "PointerOnly"} {
		if k, ok := c.W.Pkg(joinPkg).Types.Scope().Lookup("StructLiteralMatch" + n).(*types.Const); ok {
			modes[n] = eng.AV{K: eng.AConst, C: constant.ToInt(k.Val())}
		}
	}
	if !r.Check(len(modes) == 3, "the modes of struct-literal", "", "not found") {
		return
	}
	for mode, k := range modes {
		for _, node := range []string{"literal", "&literal", "-literal", "&other", "other"} {
			for _, typ := range []string{"T", "U"} {
				for _, parent := range []string{"", "&", "-", "call"} {
					m := newMatch()
					id := "n0"
					if strings.HasSuffix(node, "literal") && node != "literal" || node == "&other" {
						op := token.AND
						if node[0] == '-' {
							op = token.SUB
						}
						m.node("n0", "UnaryExpr", map[string]eng.AV{"Op": eng.AInt(int64(op)), "X": sym("x")})
						id = "x"
					}
					if strings.HasSuffix(node, "literal") {
						m.node(id, "CompositeLit", map[string]eng.AV{"Type": sym(typ)})
					} else {
						m.node(id, "Ident", nil)
					}
					if parent == "" {
						m.chain(nil, "n0")
					} else {
						m.chain(nil, "n0", "up")
						switch parent {
						case "&":
							m.node("up", "UnaryExpr", map[string]eng.AV{"Op": eng.AInt(int64(token.AND)), "X": sym("n0")})
						case "-":
							m.node("up", "UnaryExpr", map[string]eng.AV{"Op": eng.AInt(int64(token.SUB)), "X": sym("n0")})
						default:
							m.node("up", "CallExpr", nil)
						}
					}
					m.objs["recv.Field"], m.objs["recv.Match"] = eng.AStr(""), k
					want := typ == "T"
					switch mode {
					case "Any":
						want = want && node == "literal"
					case "ValueOnly":
						want = want && node == "literal" && parent != "&"
					case "PointerOnly":
						want = want && node == "&literal"
					}
					c.matches(r, fmt.Sprintf("struct-literal %s of T on %s %s below %q", mode, node, typ, parent), lit, sym("recv"), m, want)
				}
			}
		}
	}
	for _, node := range []string{"KeyValueExpr", "CompositeLit"} {
		for _, key := range []string{"F", "G", "literal"} {
			for _, parent := range []string{"", "T", "U", "other"} {
				m := newMatch()
				m.node("n0", node, map[string]eng.AV{"Key": sym("key"), "Value": sym("v"), "Type": sym("T")})
				m.node("key", "Ident", map[string]eng.AV{"Name": eng.AStr(key), "Path": eng.AStr("")})
				if key == "literal" {
					m.node("key", "BasicLit", map[string]eng.AV{"Value": eng.AStr("F")})
				}
				if parent == "" {
					m.chain(nil, "n0")
				} else {
					m.chain(nil, "n0", "up")
					m.node("up", "CompositeLit", map[string]eng.AV{"Type": sym(parent)})
					if parent == "other" {
						m.node("up", "CallExpr", nil)
					}
				}
				m.objs["recv.Field"], m.objs["recv.Match"] = eng.AStr("F"), modes["Any"]
				c.matches(r, fmt.Sprintf("struct-literal T.F on a %s with key %s below %q", node, key, parent), lit, sym("recv"), m, node == "KeyValueExpr" && key == "F" && parent == "T")
			}
		}
	}
}

func (c *Ctx) matchDeclarations(r *R) {
	of, val := r.Fn(joinPkg, "declarationOf.Matches"), r.Fn(joinPkg, "valueDeclaration.Matches")
	if of == nil || val == nil {
		return
	}
	r.Field(joinPkg, "declarationOf", "ImportPath")
	r.Field(joinPkg, "declarationOf", "Name")
	r.Field(joinPkg, "valueDeclaration", "TypeName")
	for _, in := range []string{"here", "there"} {
		for _, name := range []string{"f", "g"} {
			for _, recv := range []bool{false, true} {
				m := newMatch()
				m.node("n0", "FuncDecl", map[string]eng.AV{"Name": sym("name"), "Recv": eng.ANilV()})
				if recv {
					m.objs["n0.Recv"] = sym("receiver")
				}
				m.objs["name.Name"] = eng.AStr(name)
				m.node("file", "File", nil)
				m.chain(nil, "n0", "file")
				m.objs["recv.ImportPath"], m.objs["recv.Name"] = eng.AStr(in), eng.AStr("f")
				c.matches(r, fmt.Sprintf("declaration-of %s.f on a function %s, method: %v", in, name, recv), of, sym("recv"), m, in == "here" && name == "f" && !recv)
			}
		}
		for _, kind := range []string{"ValueSpec", "Field"} {
			for _, names := range [][]string{{"f"}, {"g"}, {"g", "f"}, {"g", "h"}} {
				for _, where := range []string{"top", "alone", "local", "none", "other"} {
					for _, typ := range []string{"T", "U", "none"} {
						m := newMatch()
						var l []eng.AV
						for i, n := range names {
							id := fmt.Sprintf("name%d", i)
							m.objs[id+".Name"] = eng.AStr(n)
							l = append(l, sym(id))
						}
						ty := sym(typ)
						if typ == "none" {
							ty = eng.ANilV()
						}
						m.node("n0", kind, map[string]eng.AV{"Names": eng.AListOf(*listOf("", l...)), "Type": ty})
						m.node("decl", "GenDecl", nil)
						m.node("file", "File", nil)
						m.node("stmt", "DeclStmt", nil)
						m.node("block", "BlockStmt", nil)
						switch where {
						case "top":
							m.chain(nil, "n0", "decl", "file")
						case "alone":
							m.chain(nil, "n0", "decl")
						case "local":
							m.chain(nil, "n0", "decl", "stmt", "block")
						case "none":
							m.chain(nil, "n0")
						case "other":
							m.chain(nil, "n0", "block")
						}
						m.objs["recv.ImportPath"], m.objs["recv.Name"] = eng.AStr(in), eng.AStr("f")
						top := kind == "ValueSpec" && (where == "top" || where == "alone")
						c.matches(r, fmt.Sprintf("declaration-of %s.f on a %s %v (%s)", in, kind, names, where), of, sym("recv"), m, in == "here" && top && has(names, "f"))
						c.matches(r, fmt.Sprintf("value-declaration T on a %s of type %s (%s)", kind, typ, where), val, sym("recv"), m, top && typ != "U")
					}
				}
			}
		}
		m := newMatch()
		m.node("n0", "CallExpr", nil)
		m.chain(nil, "n0")
		m.objs["recv.ImportPath"], m.objs["recv.Name"] = eng.AStr(in), eng.AStr("f")
		c.matches(r, "declaration-of on a call", of, sym("recv"), m, false)
	}
}

func (c *Ctx) matchCalls(r *R) {
	fn, meth := r.Fn(joinPkg, "functionCall.Matches"), r.Fn(joinPkg, "methodCall.Matches")
	if fn == nil || meth == nil {
		return
	}
	r.Field(joinPkg, "functionCall", "ImportPath")
	r.Field(joinPkg, "functionCall", "Name")
	for _, kind := range []string{"CallExpr", "Ident"} {
		for _, fun := range []string{"Ident", "SelectorExpr of Ident", "SelectorExpr of CallExpr", "FuncLit"} {
			for _, path := range []string{"p", "q", ""} {
				for _, name := range []string{"f", "g"} {
					m := newMatch()
					m.node("n0", kind, map[string]eng.AV{"Fun": sym("fun")})
					switch fun {
					case "Ident":
						m.node("fun", "Ident", map[string]eng.AV{"Path": eng.AStr(path), "Name": eng.AStr(name)})
					case "FuncLit":
						m.node("fun", "FuncLit", nil)
					default:
						m.node("fun", "SelectorExpr", map[string]eng.AV{"Sel": sym("sel"), "X": sym("x")})
						m.objs["sel.Name"] = eng.AStr(name)
						m.node("x", strings.TrimPrefix(fun, "SelectorExpr of "), map[string]eng.AV{"Path": eng.AStr(path), "Name": eng.AStr("p")})
					}
					m.objs["recv.ImportPath"], m.objs["recv.Name"] = eng.AStr("p"), eng.AStr("f")
					c.matches(r, fmt.Sprintf("function-call p.f on a %s of a %s %q.%s", kind, fun, path, name), fn, sym("recv"), m,
						kind == "CallExpr" && (fun == "Ident" || fun == "SelectorExpr of Ident") && path == "p" && name == "f")
				}
			}
		}
	}
	for _, f := range []string{"Receiver", "Name", "Match"} {
		r.Field(joinPkg, "methodCall", f)
	}
	modes := map[string]eng.AV{}
	for _, n := range []string{"Any", "ValueOnly", "PointerOnly"} {
		if k, ok := c.W.Pkg(joinPkg).Types.Scope().Lookup("MethodCallMatch" + n).(*types.Const); ok {
			modes[n] = eng.AV{K: eng.AConst, C: constant.ToInt(k.Val())}
		}
	}
	if !r.Check(len(modes) == 3, "the modes of method-call", "", "not found") {
		return
	}
	// the types of the receiver, from the outside in
	spelled := [][]string{{"named"}, {"pointer", "named"}, {"alias", "named"}, {"alias", "pointer", "named"}, {"pointer", "alias", "named"}, {"alias", "pointer", "alias", "named"}, {"pointer", "pointer", "named"}, {"slice"}, {"pointer", "slice"}, {}}
	for mode, k := range modes {
		for _, shape := range []string{"call", "other call", "no call", "other name"} {
			for _, ts := range spelled {
				for _, named := range []string{"p.T", "q.T", "p.U", "T"} {
					m := newMatch()
					m.node("n0", "CallExpr", map[string]eng.AV{"Fun": sym("fun")})
					m.node("fun", "SelectorExpr", map[string]eng.AV{"Sel": sym("sel"), "X": sym("x")})
					m.objs["sel.Name"] = eng.AStr("M")
					switch shape {
					case "other call":
						m.node("fun", "Ident", nil)
					case "no call":
						m.node("n0", "Ident", nil)
					case "other name":
						m.objs["sel.Name"] = eng.AStr("N")
					}
					m.objs["x.$type of"] = eng.ANilV()
					if len(ts) > 0 {
						m.objs["x.$type of"] = sym("ty0")
					}
					pointers := 0
					var path []string
					for i, t := range ts {
						id := fmt.Sprintf("ty%d", i)
						m.types[id] = t
						path = append(path, t)
						switch t {
						case "named":
							pkg, name, ok := strings.Cut(named, ".")
							if !ok {
								name = pkg
								m.objs[id+" object.$pkg"] = eng.ANilV()
							} else {
								m.objs[id+" object.$pkg"] = sym("package")
								m.objs["package.$Path"] = eng.AStr(pkg)
								m.objs["package.$Name"] = eng.AStr(pkg)
							}
							m.objs[id+" object.$Name"] = eng.AStr(name)
						case "pointer":
							pointers++
							m.objs[id+".$of"] = sym(fmt.Sprintf("ty%d", i+1))
						case "alias":
							m.objs[id+".$of"] = sym(fmt.Sprintf("ty%d", i+1))
						}
					}
					m.objs["recv.Name"], m.objs["recv.Match"] = eng.AStr("M"), k
					m.objs["recv.Receiver.ImportPath"], m.objs["recv.Receiver.Name"], m.objs["recv.Receiver.Pointer"] = eng.AStr("p"), eng.AStr("T"), eng.ABool(false)
					want := shape == "call" && named == "p.T" && has(ts, "named")
					switch mode {
					case "Any":
						want = want && pointers <= 1
					case "ValueOnly":
						want = want && pointers == 0
					case "PointerOnly":
						want = want && pointers == 1
					}
					c.matches(r, fmt.Sprintf("method-call %s of p.T.M on %s, receiver %s %s", mode, shape, strings.Join(path, " to "), named), meth, sym("recv"), m, want)
				}
			}
		}
	}
}

func (c *Ctx) matchDirective(r *R) {
	f := r.Fn(joinPkg, "directive.Matches")
	if f == nil {
		return
	}
	decs := func(m *matchWorld, id string, texts ...string) {
		m.objs[id+" decorations.Start"] = eng.ANilV()
		if len(texts) > 0 {
			m.objs[id+" decorations.Start"] = eng.AListOf(*listOf("", strs(texts...)...))
		}
	}
	for text, want := range map[string]bool{
		"//dd:span": true, "//dd:span a:b": true, "//dd:span\ta": true, " \t//dd:span": true, "//dd:span ": true, "//dd:span\n": true,
		"// dd:span": false, "//dd:spanner": false, "//dd:span:x": false, "//dd:spa": false, "/*dd:span*/": false, "\n": false, "": false,
		"//": false, "/": false, "//x dd:span": false, "//dd:spané": false, "//dd:span\u00a0x": true, "dd:span": false, "/dd:span": false, "//DD:span": false,
	} {
		for _, pre := range [][]string{nil, {"\n"}, {"// foo", "\n"}} {
			m := newMatch()
			m.node("n0", "FuncDecl", nil)
			m.chain(nil, "n0")
			decs(m, "n0", append(append([]string{}, pre...), text)...)
			c.matches(r, fmt.Sprintf("directive dd:span, comments %q", append(pre, text)), f, eng.AStr("dd:span"), m, want)
		}
	}
	type up struct {
		child, parent, prop string
		tok                 token.Token
	}
	passes := func(u up) bool {
		if has([]string{"ValueSpec", "TypeSpec", "ImportSpec"}, u.child) {
			return true
		}
		switch u.parent {
		case "AssignStmt":
			return u.prop == "Rhs" || u.prop == "Lhs" && u.tok == token.DEFINE
		case "CallExpr":
			return u.prop == "Fun"
		case "SendStmt":
			return u.prop == "Value"
		case "DeferStmt", "ExprStmt", "GoStmt", "ReturnStmt":
			return true
		}
		return false
	}
	ups := []up{
		{"Ident", "AssignStmt", "Rhs", token.ASSIGN}, {"Ident", "AssignStmt", "Lhs", token.ASSIGN}, {"Ident", "AssignStmt", "Rhs", token.DEFINE}, {"Ident", "AssignStmt", "Lhs", token.DEFINE}, {"Ident", "AssignStmt", "Lhs", token.ADD_ASSIGN},
		{"Ident", "CallExpr", "Fun", 0}, {"Ident", "CallExpr", "Args", 0}, {"CallExpr", "SendStmt", "Value", 0}, {"CallExpr", "SendStmt", "Chan", 0},
		{"CallExpr", "DeferStmt", "Call", 0}, {"CallExpr", "GoStmt", "Call", 0}, {"CallExpr", "ExprStmt", "X", 0}, {"CallExpr", "ReturnStmt", "Results", 0},
		{"ValueSpec", "GenDecl", "Specs", 0}, {"TypeSpec", "GenDecl", "Specs", 0}, {"ImportSpec", "GenDecl", "Specs", 0},
		{"Ident", "BlockStmt", "List", 0}, {"Ident", "IfStmt", "Cond", 0}, {"FuncDecl", "File", "Decls", 0}, {"Ident", "ValueSpec", "Values", 0}, {"Ident", "ParenExpr", "X", 0}, {"BlockStmt", "FuncDecl", "Body", 0},
	}
	node := func(m *matchWorld, id, kind string, u up) {
		m.node(id, kind, nil)
		if kind == "AssignStmt" {
			m.objs[id+".Tok"] = eng.AInt(int64(u.tok))
		}
	}
	for _, u := range ups {
		for _, on := range []string{"child", "parent", "none"} {
			m := newMatch()
			node(m, "n0", u.child, up{tok: token.ASSIGN})
			node(m, "n1", u.parent, u)
			m.chain([]string{u.prop}, "n0", "n1")
			decs(m, "n0")
			decs(m, "n1")
			switch on {
			case "child":
				decs(m, "n0", "//dd:span")
			case "parent":
				decs(m, "n1", "//dd:span")
			}
			c.matches(r, fmt.Sprintf("directive on the %s: %s, the %s of a %s (%s)", on, u.child, u.prop, u.parent, u.tok), f, eng.AStr("dd:span"), m, on == "child" || on == "parent" && passes(u))
		}
		// one more node, passing it on or not
		for _, v := range ups {
			if v.child != u.parent {
				continue
			}
			m := newMatch()
			node(m, "n0", u.child, up{tok: token.ASSIGN})
			node(m, "n1", u.parent, u)
			node(m, "n2", v.parent, v)
			m.chain([]string{u.prop, v.prop}, "n0", "n1", "n2")
			decs(m, "n0")
			decs(m, "n1")
			decs(m, "n2", "//dd:span")
			c.matches(r, fmt.Sprintf("directive on the %s of which the %s is the %s (%s), for its %s %s (%s)", v.parent, u.parent, v.prop, v.tok, u.prop, u.child, u.tok), f, eng.AStr("dd:span"), m, passes(u) && passes(v))
		}
	}
}

func (c *Ctx) matchOthers(r *R) {
	all, one, not := r.Fn(joinPkg, "allOf.Matches"), r.Fn(joinPkg, "oneOf.Matches"), r.Fn(joinPkg, "not.Matches")
	path, name, conf, test := r.Fn(joinPkg, "importPath.Matches"), r.Fn(joinPkg, "packageName.Matches"), r.Fn(joinPkg, "configuration.Matches"), r.Fn(joinPkg, "testMain.Matches")
	if all == nil || one == nil || not == nil || path == nil || name == nil || conf == nil || test == nil {
		return
	}
	for _, parts := range []string{"", "t", "f", "tt", "tf", "ft", "ff", "ttf", "fft"} {
		var l []eng.AV
		for i, p := range parts {
			l = append(l, sym(fmt.Sprintf("%c%d", p, i)))
		}
		list := eng.ANilV()
		if len(l) > 0 {
			list = eng.AListOf(*listOf("", l...))
		}
		for _, x := range []struct {
			what string
			f    *ssa.Function
			want bool
		}{{"all-of", all, parts != "" && !strings.Contains(parts, "f")}, {"one-of", one, strings.Contains(parts, "t")}} {
			m := newMatch()
			m.objs["$"] = eng.AStr("")
			// the list is given as what an object holds, so that it is known from the start
			c.matches(r, fmt.Sprintf("%s with parts matching %q", x.what, parts), x.f, list, m, x.want)
		}
	}
	for _, part := range []string{"t", "f"} {
		m := newMatch()
		m.objs["recv.JoinPoint"] = sym(part)
		c.matches(r, "not, the part matches: "+part, not, sym("recv"), m, part == "f")
	}
	r.Field(joinPkg, "not", "JoinPoint")
	for _, here := range []bool{false, true} {
		m := newMatch()
		m.objs["$"] = eng.AStr("")
		p, n := "there", "therepkg"
		if here {
			p, n = "here", "herepkg"
		}
		c.matches(r, fmt.Sprintf("import-path, same: %v", here), path, eng.AStr(p), m, here)
		c.matches(r, fmt.Sprintf("package-name, same: %v", here), name, eng.AStr(n), m, here)
		for _, is := range []bool{false, true} {
			m.testMain = is
			c.matches(r, fmt.Sprintf("test-main %v in a test main: %v", here, is), test, eng.ABool(here), m, here == is)
		}
	}
	for _, want := range []map[string]string{{}, {"a": "1"}, {"a": "1", "b": "2"}, {"a": ""}} {
		for _, have := range []map[string]string{{}, {"a": "1"}, {"a": "2"}, {"a": "1", "b": "2"}, {"a": "1", "b": "3"}, {"a": ""}} {
			m := newMatch()
			m.objs["$"] = eng.AStr("")
			m.config = have
			ok := true
			for k, v := range want {
				m.objs["map@conf["+eng.AStr(k).String()+"]"] = eng.AStr(v)
				h, found := have[k]
				ok = ok && found && h == v
			}
			c.matches(r, fmt.Sprintf("configuration %v, configured %v", want, have), conf, sym("map@conf"), m, ok)
		}
	}
}
