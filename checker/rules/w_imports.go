package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "W04", Technique: "typestate of package references in advice (reference then import), completeness of import listings, refutation of implied imports, exploration of the import bookkeeping", Run: runImports})
}

const codePkg = advPkg + "/code"

const (
	identPath   = "github.com/dave/dst.Ident.Path"
	specType    = "github.com/dave/dst.ImportSpec"
	refMapType  = typedPkg + ".ReferenceMap"
	importStmt  = 1
	relocTarget = 0
)

func runImports(c *Ctx) {
	rTpl := c.Rule("template-imports", "each name selected from an import of a template refers to that package, which is imported")
	rAdv := c.Rule("advice-imports", "an advice which refers to a package imports it")
	rList := c.Rule("listed", "every package an advice can import or link is listed ahead of time")
	rImp := c.Rule("implied", "a package is only taken to be imported already when every match of the join point requires it")
	rRef := c.Rule("reference-map", "an import is only left out when the file has it, usable by name, in the scope of the injected code")
	rSyn := c.Rule("synthetic", "every import recorded is added to the woven file, under its alias")
	rCan := c.Rule("canonical", "one import of each package is kept: one that names the package if there is any")

	c.templateImports(rTpl)
	c.adviceImports(rAdv, rList)
	c.aspectListing(rList)
	c.impliedImports(rImp)
	c.referenceMap(rRef)
	c.syntheticImports(rSyn)
	c.canonicalImports(rCan)
}

// extFieldKey identifies a field by its declaring package, type and name.
func extFieldAddr(v ssa.Value, key string) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n := eng.NamedOf(eng.Deref(fa.X.Type()))
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path()+"."+n.Obj().Name()+"."+eng.FieldVar(fa).Name() == key
}

// isExtLoad: v is a load of such a field.
func isExtLoad(v ssa.Value, key string) bool {
	u, ok := eng.ResolveLocal(v).(*ssa.UnOp)
	return ok && u.Op == token.MUL && extFieldAddr(u.X, key)
}

func storesExt(in ssa.Instruction, key string) *ssa.Store {
	s, ok := in.(*ssa.Store)
	if ok && extFieldAddr(s.Addr, key) {
		return s
	}
	return nil
}

// ctxCall: a call to this method of the advice context.
func ctxCall(in ssa.Instruction, name string) ssa.CallInstruction {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	o := eng.CalleeObj(ci)
	if o == nil || o.Name() != name || o.Pkg() == nil || !strings.HasSuffix(o.Pkg().Path(), ctxPkg) {
		return nil
	}
	if o.Type().(*types.Signature).Recv() == nil {
		return nil
	}
	return ci
}

// ctxArgs are the arguments of a method call, without the receiver.
func ctxArgs(ci ssa.CallInstruction) []ssa.Value {
	if ci.Common().IsInvoke() {
		return ci.Common().Args
	}
	return ci.Common().Args[1:]
}

func typeAssertLit(l eng.Lit, typ string) string {
	e, ok := l.V.(*ssa.Extract)
	if !ok || e.Index != 1 {
		return ""
	}
	ta, ok := e.Tuple.(*ssa.TypeAssert)
	if !ok || !strings.HasSuffix(ta.AssertedType.String(), typ) {
		return ""
	}
	if l.Pol {
		return "is"
	}
	return "isnot"
}

// ---- templates

func (c *Ctx) templateImports(r *R) {
	w := c.W
	imps := r.Field(codePkg, "Template", "Imports")
	comp := r.Fn(codePkg, "Template.compileTemplate")
	if imps == nil || comp == nil {
		return
	}
	isMap := func(v ssa.Value) bool { return c.bound(v, func(x ssa.Value) bool { return isFieldVal(x, imps) }) }
	// the node callback: looks names up in the imports
	var cb *ssa.Function
	var lk *ssa.Lookup
	for _, f := range c.Region(comp) {
		instrs([]*ssa.Function{f}, func(fn *ssa.Function, in ssa.Instruction) {
			if l, ok := in.(*ssa.Lookup); ok && isMap(l.X) {
				if lk != nil {
					r.Bad("lookup", w.At(in), "the imports of a template are looked up at several places")
				}
				cb, lk = fn, l
			}
		})
	}
	if lk == nil || !lk.CommaOk {
		r.Bad("lookup", w.Pos(comp.Pos()), "no place resolves names from the imports of a template")
		return
	}
	// the traversal it serves
	var apply *ssa.Call
	for _, f := range c.Region(comp) {
		for _, ci := range w.CallsTo([]*ssa.Function{f}, "github.com/dave/dst/dstutil.Apply") {
			for _, g := range c.funcsOf(ci.Common().Args[1]) {
				if w.Reachable(g)[cb] || g == cb {
					apply, _ = ci.(*ssa.Call)
					if ci.Common().Args[2] != nil && !isNil(ci.Common().Args[2]) {
						for _, p := range c.funcsOf(ci.Common().Args[2]) {
							for _, ret := range eng.Returns(p) {
								r.Check(constTrue(ret.Results[0]), "leave", w.At(ret), "the traversal of a template can stop before its end")
							}
						}
					}
					for _, ret := range eng.Returns(g) {
						r.Check(constTrue(ret.Results[0]), "enter", w.At(ret), "parts of a template are not searched for references to its imports")
					}
				}
			}
		}
	}
	if apply == nil {
		r.Bad("traversal", w.Pos(cb.Pos()), "no traversal of the template's code resolves names")
		return
	}
	// key: the name of the identifier selected from
	r.Check(c.selectedFrom(lk.Index), "name", w.At(lk), "the import looked up is not that of the name selected from")
	isPath := func(v ssa.Value) bool {
		e, ok := eng.ResolveLocal(v).(*ssa.Extract)
		return ok && e.Tuple == ssa.Value(lk) && e.Index == 0
	}
	isNode := func(v ssa.Value) bool { return c.derives(v, isCursorNode) }
	other := func(l eng.Lit) bool {
		return typeAssertLit(l, "dst.SelectorExpr") == "isnot" || typeAssertLit(l, "dst.Ident") == "isnot"
	}
	r.Check(c.derives(lk.Index, isNode), "node", w.At(lk), "the import looked up is not that of the node visited")
	missing := func(l eng.Lit) bool {
		return c.hasEntry(l, isMap, func(k ssa.Value) bool { return eng.SameLoad(k, lk.Index) || c.sameVal(k, lk.Index) }) == "missing"
	}
	// every selection is looked up
	if leak := w.MustDo(cb, is(lk), nil, other); leak != nil {
		r.Bad("looked-up", w.At(leak.Exit), "some selections from an imported name are not recognised")
	} else {
		r.OK("looked-up", w.At(lk))
	}
	setsPath := func(in ssa.Instruction) bool {
		s := storesExt(in, identPath)
		return s != nil && c.bound(s.Val, isPath) && c.derives(s.Addr, func(o ssa.Value) bool { return extFieldAddr(o, "github.com/dave/dst.SelectorExpr.Sel") })
	}
	replaces := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || eng.Key(ci) != "github.com/dave/dst/dstutil.Cursor.Replace" {
			return false
		}
		return c.derives(ci.Common().Args[1], func(o ssa.Value) bool { return extFieldAddr(o, "github.com/dave/dst.SelectorExpr.Sel") })
	}
	imports := func(in ssa.Instruction) bool {
		ci := ctxCall(in, "AddImport")
		if ci == nil {
			return false
		}
		a := ctxArgs(ci)
		return (c.part(a[0], isPath) || c.bound(a[0], isPath)) && c.part(a[1], func(v ssa.Value) bool { return c.selectedFrom(v) })
	}
	for name, ev := range map[string]eng.Event{"path-set": setsPath, "replaced": replaces, "imported": imports} {
		leak := w.MustFollow(lk, w.LiftEvent(ev), nil, missing)
		pos := w.At(lk)
		if leak != nil {
			pos = w.At(leak.Exit)
		}
		r.Check(leak == nil, name, pos, "a name selected from an import of the template is not turned into a reference to that package, imported under its own alias (%s)", name)
	}
	// in every declaration, before placeholders are put back
	isDecls := func(v ssa.Value) bool { return isExtLoad(v, "github.com/dave/dst.File.Decls") }
	var loop *eng.Loop
	for _, l := range loopsOver(c.Region(comp), isDecls) {
		loop = l
	}
	if loop == nil {
		r.Bad("declarations", w.Pos(comp.Pos()), "the declarations of a template are not gone through")
		return
	}
	none := func(l eng.Lit) bool { return emptyLit(l, isMap) == "empty" }
	c.each(r, loop, "each-declaration", is(apply), none, "imports are not resolved in every declaration of a template")
	for _, f := range c.Region(comp) {
		for _, ci := range eng.Calls(f) {
			g := ci.Common().StaticCallee()
			if g == nil || f == g || eng.InnermostLoop(ci.Block()) == nil || !strings.Contains(strings.ToLower(g.Name()), "replaceallin") {
				continue
			}
			ok, _ := w.MustPrecede(ci, w.LiftUnder(is(apply), none), none)
			r.Check(ok, "before-placeholders", w.At(ci), "the imports of a template are resolved in code which is not the template's")
		}
	}
	// the result of the traversal is what is used
	r.Check(flowsToReturn(apply), "result-used", w.At(apply), "the resolved code is dropped")
	// import declarations are refused
	refused := false
	for b := range loop.Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !(isExtLoad(bo.X, "github.com/dave/dst.GenDecl.Tok") || isExtLoad(bo.Y, "github.com/dave/dst.GenDecl.Tok")) {
			continue
		}
		n, isC := eng.ConstInt(bo.Y)
		if !isC {
			n, isC = eng.ConstInt(bo.X)
		}
		if !isC || n != int64(token.IMPORT) {
			continue
		}
		succ := 0
		if bo.Op == token.NEQ {
			succ = 1
		}
		refused = refused || w.OnlyFails(b.Succs[succ])
	}
	r.Check(refused, "no-import-declarations", w.Pos(loop.Fn.Pos()), "a template can declare imports nobody knows about")
}

// selectedFrom: v is the name of the identifier a selector selects from.
func (c *Ctx) selectedFrom(v ssa.Value) bool {
	x, sel := false, false
	c.derives(v, func(o ssa.Value) bool {
		x = x || extFieldAddr(o, "github.com/dave/dst.SelectorExpr.X")
		sel = sel || extFieldAddr(o, "github.com/dave/dst.SelectorExpr.Sel")
		return false
	})
	return isExtLoad(v, "github.com/dave/dst.Ident.Name") && x && !sel
}

// flowsToReturn: some part of v's result is used otherwise than dropped.
func flowsToReturn(v *ssa.Call) bool {
	for _, r := range eng.FlowRefs(v) {
		switch r.(type) {
		case *ssa.Return, *ssa.Store, ssa.CallInstruction, *ssa.TypeAssert, *ssa.MakeInterface, *ssa.Phi:
			return true
		}
	}
	return false
}

// ---- advice

func (c *Ctx) adviceImports(r, rl *R) {
	w := c.W
	adv := w.Type(advPkg, "Advice")
	if adv == nil {
		r.Bad("anchor Advice", "-", "type not found")
		return
	}
	asNode := r.Fn(typedPkg, "TypeName.AsNode")
	handled := map[*ssa.Function]bool{}
	n := 0
	for _, t := range c.implementing(adv) {
		m, pre := c.methodOf(t, "Apply")
		if m == nil || pre != "" || len(m.Blocks) == 0 {
			continue
		}
		n++
		name := t.Obj().Name()
		recv := recvOf(m)
		region := c.Region(m)
		path := func(v ssa.Value) string {
			ps := c.paths(v, recv, nil, 0)
			if len(ps) == 1 {
				return ps[0]
			}
			ps = c.paths(eng.ResolveLocal(v), recv, nil, 0)
			if len(ps) == 1 {
				return ps[0]
			}
			return "?"
		}
		need := map[string]bool{} // import paths which must be listed
		tpls := map[string]bool{}
		for _, f := range region {
			handled[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					// packages imported
					for _, meth := range []string{"AddImport", "AddLink"} {
						ci := ctxCall(in, meth)
						if ci == nil {
							continue
						}
						a := ctxArgs(ci)
						if s, ok := eng.ConstString(a[0]); ok && s == "unsafe" {
							continue
						}
						p := path(a[0])
						if p == "?" {
							rl.Bad(name+" "+meth, w.At(in), "cannot tell which package %s imports", name)
							continue
						}
						need[p] = true
					}
					// references made
					p := ""
					if s := storesExt(in, identPath); s != nil {
						if x, ok := eng.ConstString(s.Val); ok && x == "" {
							continue
						}
						p = path(s.Val)
					} else if ci, ok := in.(ssa.CallInstruction); ok {
						g := ci.Common().StaticCallee()
						switch {
						case asNode != nil && g == asNode:
							if p = path(eng.ArgOf(ci, 0)); p != "?" {
								p += ".ImportPath"
							}
						case g != nil && eng.PkgOf(g) == full(codePkg) && strings.HasPrefix(eng.FKey(g), codePkg+".Template.Compile"):
							if tp := path(eng.ArgOf(ci, 0)); tp != "?" {
								tpls[tp] = true
							} else {
								rl.Bad(name+" template", w.At(in), "cannot tell which template %s uses", name)
							}
							continue
						default:
							continue
						}
					} else {
						continue
					}
					if p == "?" {
						r.Bad(name+" reference", w.At(in), "cannot tell which package the code inserted by %s refers to", name)
						continue
					}
					isP := func(v ssa.Value) bool { return path(v) == p }
					imports := func(in ssa.Instruction) bool {
						ci := ctxCall(in, "AddImport")
						if ci == nil {
							return false
						}
						a := ctxArgs(ci)
						if s, ok := eng.ConstString(a[1]); ok && (s == "_" || s == ".") {
							return false
						}
						return isP(a[0])
					}
					empty := func(l eng.Lit) bool { return emptyLit(l, isP) == "empty" }
					ok := w.MustFollow(in, w.LiftUnder(imports, empty), w.MaySucceed, empty) == nil
					if !ok {
						ok, _ = w.MustPrecede(in, w.LiftUnder(imports, empty), empty)
					}
					if !ok && f != m {
						// a helper: its callers see to it
						ok = true
						for _, site := range w.PassSites(f) {
							if !inFuncs(region, site.Parent()) {
								continue
							}
							s2 := w.MustFollow(site, w.LiftUnder(imports, empty), w.MaySucceed, empty) == nil
							if !s2 {
								s2, _ = w.MustPrecede(site, w.LiftUnder(imports, empty), empty)
							}
							ok = ok && s2
						}
					}
					r.Check(ok, name+" "+strings.TrimPrefix(p, "."), w.At(in), "%s inserts a reference to a package it does not import", name)
				}
			}
		}
		// what is listed
		lm, lpre := c.methodOf(t, "AddedImports")
		if lm == nil || lpre != "" || len(lm.Blocks) == 0 {
			rl.Bad(name+" AddedImports", w.Pos(m.Pos()), "no listing of imports")
			continue
		}
		ls := &listing{c: c, recv: recvOf(lm), region: c.Region(lm)}
		for p := range need {
			rl.Check(ls.all(lm, p, false), name+" "+strings.TrimPrefix(p, "."), w.Pos(lm.Pos()), "%s can import a package it does not list", name)
		}
		for p := range tpls {
			rl.Check(ls.all(lm, p, true), name+" "+strings.TrimPrefix(p, ".")+" imports", w.Pos(lm.Pos()), "%s does not list the imports of its template", name)
		}
	}
	c.Count("advice kinds", n)
	if n < 8 {
		r.Bad("kinds", "-", "%d kinds of advice found, at least 8 expected", n)
	}
	// a template lists all of its imports
	if f := rl.Fn(codePkg, "Template.AddedImports"); f != nil {
		imps := rl.Field(codePkg, "Template", "Imports")
		isMap := func(v ssa.Value) bool { return c.bound(v, func(x ssa.Value) bool { return isFieldVal(x, imps) }) }
		rl.Check(c.listsValues(f, isMap), "Template.AddedImports", w.Pos(f.Pos()), "a template does not list all of its imports")
	}
	// nobody else makes references
	if comp := w.Func(codePkg, "Template.compileTemplate"); comp != nil {
		for _, f := range c.Region(comp) {
			handled[f] = true // decided by the rule on templates
		}
	}
	for _, f := range w.Funcs {
		if handled[f] || !strings.HasPrefix(eng.PkgOf(f), full(injPkg)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s := storesExt(in, identPath); s != nil {
					if x, ok := eng.ConstString(s.Val); ok && x == "" {
						continue
					}
					r.Check(f == asNode, short(f)+" reference", w.At(in), "a reference to a package is made where nothing imports it")
				}
				if ci, ok := in.(ssa.CallInstruction); ok && asNode != nil && ci.Common().StaticCallee() == asNode {
					r.Bad(short(f)+" AsNode", w.At(in), "a reference to a package is made where nothing imports it")
				}
			}
		}
	}
}

// listsValues: f returns a list with every value of the map.
func (c *Ctx) listsValues(f *ssa.Function, isMap func(ssa.Value) bool) bool {
	w := c.W
	for _, ret := range eng.Returns(f) {
		ok := false
		v := eng.ResolveLocal(ret.Results[0])
		for _, l := range loopsOver(c.Region(f), isMap) {
			if c.complete(l) && l.Fn == f && l.Always(func(in ssa.Instruction) bool {
				return c.appendsTo(in, func(x ssa.Value) bool { return x == v || x == ret.Results[0] }, func(e ssa.Value) bool { return l.IsElem(e) })
			}, nil) {
				ok = true
			}
		}
		if !ok {
			// slices.Collect(maps.Values(m)), lo.Values, ...
			ok = c.valuesOf(v, isMap)
		}
		if !ok && !w.MustHold(ret, func(l eng.Lit) bool { return emptyLit(l, isMap) == "empty" }) {
			return false
		}
	}
	return true
}

func (c *Ctx) valuesOf(v ssa.Value, isMap func(ssa.Value) bool) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	switch eng.Key(call) {
	case "slices.Collect", "slices.Sorted", "slices.AppendSeq":
		for _, a := range call.Call.Args {
			if c.valuesOf(eng.ResolveLocal(a), isMap) {
				return true
			}
		}
	case "maps.Values":
		return isMap(call.Call.Args[0])
	}
	return false
}

// listing decides which paths a list contains.
type listing struct {
	c      *Ctx
	recv   *ssa.Parameter
	region []*ssa.Function
	seen   map[ssa.Value]bool
}

// all: every list returned contains the path (or, imports: the imports of the template found there), or the path is empty.
func (ls *listing) all(f *ssa.Function, p string, imports bool) bool {
	for _, ret := range eng.Returns(f) {
		ls.seen = map[ssa.Value]bool{}
		if !ls.holds(ret.Results[0], p, imports) && !ls.c.W.MustHold(ret, ls.isEmpty(p)) {
			return false
		}
	}
	return true
}

func (ls *listing) path(v ssa.Value) string {
	for _, x := range []ssa.Value{v, eng.ResolveLocal(v), eng.Unwrap(eng.ResolveLocal(v))} {
		if ps := ls.c.paths(x, ls.recv, nil, 0); len(ps) == 1 {
			return ps[0]
		}
	}
	return "?"
}

func (ls *listing) isEmpty(p string) func(eng.Lit) bool {
	return func(l eng.Lit) bool {
		return emptyLit(l, func(v ssa.Value) bool { return ls.path(v) == p }) == "empty"
	}
}

func (ls *listing) elem(v ssa.Value, p string, imports bool) bool {
	return v != nil && !imports && ls.path(v) == p
}

func (ls *listing) holds(v ssa.Value, p string, imports bool) bool {
	v = eng.ResolveLocal(v)
	if v == nil || ls.seen[v] {
		return false
	}
	ls.seen[v] = true
	defer delete(ls.seen, v)
	if !imports && ls.path(v)+"[]" == p {
		return true // the collection itself
	}
	switch x := v.(type) {
	case *ssa.Call:
		if a := builtinCall(x, "append"); a != nil {
			return ls.holds(a.Call.Args[0], p, imports) || ls.added(a.Call.Args[1], p, imports)
		}
		switch eng.Key(x) {
		case "slices.Concat":
			for _, e := range eng.VarArgs(x.Call.Args[0]) {
				if e != nil && ls.holds(e, p, imports) {
					return true
				}
			}
			return false
		case "slices.Clone", "slices.Compact", "slices.Clip":
			return ls.holds(x.Call.Args[0], p, imports)
		}
		if o := eng.CalleeObj(x); o != nil && o.Name() == "AddedImports" {
			return imports && ls.path(eng.ArgOf(x, 0)) == p
		}
		if g := x.Call.StaticCallee(); g != nil && inFuncs(ls.region, g) && g.Signature.Results().Len() == 1 {
			for _, ret := range eng.Returns(g) {
				if !ls.holds(ret.Results[0], p, imports) && !ls.c.W.MustHoldLocal(ret, ls.isEmpty(p)) {
					return false
				}
			}
			return true
		}
	case *ssa.Slice:
		if ls.added(x, p, imports) {
			return true
		}
		return ls.holds(x.X, p, imports)
	case *ssa.ChangeType:
		return ls.holds(x.X, p, imports)
	case *ssa.Phi:
		var l *eng.Loop
		for _, lp := range eng.Loops(x.Parent()) {
			if lp.Header == x.Block() {
				l = lp
			}
		}
		empty := ls.isEmpty(p)
		entry, step := true, true
		for i, e := range x.Edges {
			pr := x.Block().Preds[i]
			if l != nil && l.Blocks[pr] {
				if e != ssa.Value(x) && !ls.holds(e, p, imports) && !ls.grows(e, x, l) {
					step = false
				}
				continue
			}
			if ls.holds(e, p, imports) {
				continue
			}
			if el, ok := eng.EdgeLit(pr, x.Block()); ok && ls.c.W.Implies(el, empty) || ls.c.W.MustHoldLocal(pr.Instrs[len(pr.Instrs)-1], empty) {
				continue
			}
			entry = false
		}
		if l == nil {
			return entry
		}
		if entry {
			return step
		}
		// filled by the loop, one element at a time
		i := strings.LastIndex(p, "[]")
		if i < 0 || l.Over == nil || ls.path(l.Over) != p[:i] || !ls.c.complete(l) {
			return false
		}
		for i, e := range x.Edges {
			if !l.Blocks[x.Block().Preds[i]] {
				continue
			}
			if !ls.step(e, x, l, p, imports) {
				return false
			}
		}
		return true
	}
	return false
}

// grows: e is x with elements appended.
func (ls *listing) grows(e ssa.Value, x *ssa.Phi, l *eng.Loop) bool {
	switch y := e.(type) {
	case *ssa.Call:
		a := builtinCall(y, "append")
		return a != nil && ls.grows(a.Call.Args[0], x, l)
	case *ssa.Phi:
		if y == x {
			return true
		}
		if y.Block() == x.Block() {
			return false
		}
		for _, ed := range y.Edges {
			if ed != ssa.Value(y) && !ls.grows(ed, x, l) {
				return false
			}
		}
		return true
	}
	return false
}

// step: e is the list x after an iteration, which added the element.
func (ls *listing) step(e ssa.Value, x *ssa.Phi, l *eng.Loop, p string, imports bool) bool {
	switch y := e.(type) {
	case *ssa.Call:
		if a := builtinCall(y, "append"); a != nil {
			return ls.added(a.Call.Args[1], p, imports) || ls.step(a.Call.Args[0], x, l, p, imports)
		}
	case *ssa.Phi:
		if y == x {
			return false
		}
		for i, ed := range y.Edges {
			pr := y.Block().Preds[i]
			if ls.step(ed, x, l, p, imports) {
				continue
			}
			if el, ok := eng.EdgeLit(pr, y.Block()); ok && ls.c.W.Implies(el, ls.isEmpty(p)) {
				continue
			}
			return false
		}
		return true
	}
	return false
}

// added: the appended values include the element.
func (ls *listing) added(v ssa.Value, p string, imports bool) bool {
	if vs := eng.VarArgs(v); len(vs) > 0 {
		for _, e := range vs {
			if ls.elem(e, p, imports) {
				return true
			}
		}
		return false
	}
	if _, isSlice := v.(*ssa.Slice); isSlice {
		return false
	}
	return ls.holds(v, p, imports)
}

// aspectListing: aspects list what their advice list, except what is there already.
func (c *Ctx) aspectListing(r *R) {
	f := r.Fn("internal/injector/aspect", "Aspect.AddedImports")
	adv := r.Field("internal/injector/aspect", "Aspect", "Advice")
	jp := r.Field("internal/injector/aspect", "Aspect", "JoinPoint")
	if f == nil || adv == nil || jp == nil {
		return
	}
	implied := func(v ssa.Value) bool {
		call, ok := eng.ResolveLocal(v).(*ssa.Call)
		return ok && isNamed(call, "ImpliesImported") && c.derivesField(eng.ArgOf(call, 0), jp)
	}
	c.pathsKept(r, "Aspect.AddedImports", f, nil, func(v ssa.Value) bool { return isFieldVal(v, adv) }, func(k ssa.Value) bool {
		if s, ok := eng.ConstString(k); ok {
			return s == "unsafe"
		}
		for _, l := range loopsOver(c.Region(f), implied) {
			if l.IsElem(k) {
				return true
			}
		}
		return false
	})
	g := r.Fn("internal/injector/aspect", "InjectedPaths")
	if g == nil {
		return
	}
	c.pathsKept(r, "InjectedPaths", g, c.Region(f), func(v ssa.Value) bool { return eng.ResolveLocal(v) == ssa.Value(g.Params[0]) }, nil)
}

func isNamed(call *ssa.Call, name string) bool {
	o := eng.CalleeObj(call)
	return o != nil && o.Name() == name
}

// pathsKept: f returns every path listed by an element of the collection, except those in a local map
// whose keys are accepted by skipKey (nil: paths that were returned already).
func (c *Ctx) pathsKept(r *R, name string, f *ssa.Function, except []*ssa.Function, isColl func(ssa.Value) bool, skipKey func(ssa.Value) bool) {
	w := c.W
	var region []*ssa.Function
	for _, g := range c.Region(f) {
		if !inFuncs(except, g) {
			region = append(region, g)
		}
	}
	var outer *eng.Loop
	for _, l := range loopsOver(region, isColl) {
		outer = l
	}
	if outer == nil {
		r.Bad(name, w.Pos(f.Pos()), "not every element is asked for its imports")
		return
	}
	var inner *eng.Loop
	for _, l := range loopsOver(region, func(v ssa.Value) bool {
		call, ok := eng.ResolveLocal(v).(*ssa.Call)
		return ok && isNamed(call, "AddedImports") && c.derives(eng.ArgOf(call, 0), func(o ssa.Value) bool { return outer.IsElem(o) || isValue(o) && outer.IsElem(eng.ResolveLocal(o)) })
	}) {
		inner = l
	}
	if inner == nil {
		// whole lists appended
		app := func(in ssa.Instruction) bool {
			a := builtinCall(in, "append")
			if a == nil {
				return false
			}
			call, ok := eng.ResolveLocal(a.Call.Args[1]).(*ssa.Call)
			return ok && isNamed(call, "AddedImports")
		}
		c.each(r, outer, name, app, nil, "the imports of some elements are left out")
		return
	}
	list := func(v ssa.Value) bool {
		for _, ret := range eng.Returns(inner.Fn) {
			if eng.ResolveLocal(ret.Results[0]) == v || ret.Results[0] == v {
				return true
			}
		}
		return false
	}
	isElem := func(v ssa.Value) bool { return inner.IsElem(v) || inner.IsElem(eng.ResolveLocal(v)) }
	app := func(in ssa.Instruction) bool { return c.appendsTo(in, list, isElem) }
	var used []ssa.Value
	known := func(l eng.Lit) bool {
		return c.hasEntry(l, func(m ssa.Value) bool {
			if c.isLocalMap(m) {
				used = append(used, eng.ResolveLocal(m))
				return true
			}
			return false
		}, isElem) == "found"
	}
	c.each(r, inner, name+" paths", app, known, "some imports of an element are left out")
	entered := func(in ssa.Instruction) bool { return in.Block() == inner.Header }
	c.each(r, outer, name+" elements", entered, nil, "the imports of some elements are left out")
	for _, fn := range region {
		instrs([]*ssa.Function{fn}, func(_ *ssa.Function, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			for _, m := range used {
				if eng.ResolveLocal(mu.Map) != m {
					continue
				}
				good := false
				if skipKey != nil {
					good = skipKey(mu.Key)
				} else if isElem(mu.Key) {
					// it is appended whenever it is marked
					good = inner.Blocks[mu.Block()] && (w.MustFollow(in, app, nil, func(l eng.Lit) bool { return false }) == nil || appendsAround(inner, mu, app))
				}
				r.Check(good, name+" left out", w.At(in), "imports are left out though nothing provides them")
				return
			}
		})
	}
}

func isValue(v ssa.Value) bool { return v != nil }

// appendsAround: in the iteration marking a path, the path is appended.
func appendsAround(l *eng.Loop, mu ssa.Instruction, app eng.Event) bool {
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			if app(in) && (b == mu.Block() || b.Dominates(mu.Block()) || mu.Block().Dominates(b) && len(mu.Block().Succs) == 1) {
				return true
			}
		}
	}
	return false
}

// ---- implied imports

func (c *Ctx) impliedImports(r *R) {
	w := c.W
	n := 0
	for _, kind := range []struct {
		it            *types.Named
		matches, meth string
	}{
		{w.Type(joinPkg, "Point"), "Matches", "ImpliesImported"},
		{w.Type(joinPkg, "FunctionOption"), "evaluate", "impliesImported"},
	} {
		if kind.it == nil {
			r.Bad("anchor "+kind.meth, "-", "type not found")
			continue
		}
		for _, t := range c.implementing(kind.it) {
			m, pre := c.methodOf(t, kind.matches)
			if m == nil || pre != "" || len(m.Blocks) == 0 {
				continue
			}
			f, fpre := c.methodOf(t, kind.meth)
			if f == nil || len(f.Blocks) == 0 {
				r.Bad(t.Obj().Name(), w.Pos(m.Pos()), "no %s", kind.meth)
				continue
			}
			n++
			p := &prefilter{c: c, recv: recvOf(f), pre: fpre}
			ref := &refuter{c: c, matches: m, recv: recvOf(m), typ: t}
			bad := ""
			seen := map[ssa.Value]bool{}
			var list func(v ssa.Value)
			need := func(h hyp) {
				if h.kind == "import" && c.filteredOn(t, h.path) {
					return // packages without it are never asked
				}
				if bad == "" && (h.kind == "unknown" || !ref.impossible(conj{h})) {
					bad = "it takes packages to be imported without which it can match"
				}
			}
			list = func(v ssa.Value) {
				v = eng.ResolveLocal(v)
				if v == nil || seen[v] || isNil(v) || bad != "" {
					return
				}
				seen[v] = true
				if vs := eng.VarArgs(v); len(vs) > 0 {
					for _, e := range vs {
						if e == nil {
							bad = "cannot tell what it implies"
						} else if !c.everyCandidate(e, f) {
							need(p.hyp("import", e, nil))
						}
					}
					return
				}
				switch x := v.(type) {
				case *ssa.MakeSlice:
				case *ssa.Slice:
					list(x.X)
				case *ssa.Alloc:
				case *ssa.Phi:
					for _, e := range x.Edges {
						list(e)
					}
				case *ssa.Call:
					if a := builtinCall(x, "append"); a != nil {
						list(a.Call.Args[0])
						list(a.Call.Args[1])
						return
					}
					if o := eng.CalleeObj(x); o != nil && (o.Name() == "ImpliesImported" || o.Name() == "impliesImported") {
						need(p.hypFn("inner", eng.ArgOf(x, 0), nil, nil))
						return
					}
					bad = "cannot tell what it implies"
				default:
					bad = "cannot tell what it implies"
				}
			}
			for _, ret := range eng.Returns(f) {
				list(ret.Results[0])
			}
			r.Check(bad == "", t.Obj().Name(), w.Pos(f.Pos()), "%s", bad)
		}
	}
	c.Count("implied imports", n)
	r.Min(20)
}

// filteredOn: packages which do not import what the path designates are filtered out.
func (c *Ctx) filteredOn(t *types.Named, path string) bool {
	f, pre := c.methodOf(t, "PackageMayMatch")
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	p := &prefilter{c: c, recv: recvOf(f), pre: pre}
	for _, ret := range eng.Returns(f) {
		call, ok := eng.ResolveLocal(ret.Results[0]).(*ssa.Call)
		if !ok || !keyIs(call, mayPkg+".PackageContext.PackageImports") {
			return false
		}
		if h := p.hyp("import", eng.ArgOf(call, 1), nil); h.kind != "import" || h.path != path || h.some {
			return false
		}
	}
	return true
}

// everyCandidate: e is the key of a count which equals the number of candidates, each of which counted at most once.
func (c *Ctx) everyCandidate(e ssa.Value, f *ssa.Function) bool {
	w := c.W
	for _, l := range eng.Loops(f) {
		if l.Over == nil || !l.IsKey(e) {
			continue
		}
		m := eng.ResolveLocal(l.Over)
		if _, ok := m.(*ssa.MakeMap); !ok {
			continue
		}
		ev, ok := e.(ssa.Instruction)
		_ = ev
		// the place where it is used: guarded by the count
		total := func(v ssa.Value) bool {
			return c.derives(v, func(o ssa.Value) bool {
				call, ok := o.(*ssa.Call)
				if !ok || builtinCall(call, "len") == nil {
					return false
				}
				ps := c.paths(eng.ResolveLocal(call.Call.Args[0]), recvOf(f), nil, 0)
				return len(ps) == 1 && ps[0] == ""
			})
		}
		guarded := ok
		for _, u := range eng.FlowRefs(e) {
			if _, isStore := u.(*ssa.Store); !isStore {
				continue
			}
			guarded = guarded && w.MustHoldLocal(u, func(lt eng.Lit) bool {
				return cmpLit(lt, func(v ssa.Value) bool { return l.IsElem(v) }, total) == 1
			})
		}
		if !guarded {
			return false
		}
		// counted once per candidate
		counted := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, isMU := in.(*ssa.MapUpdate)
				if !isMU || eng.ResolveLocal(mu.Map) != m {
					continue
				}
				counted = true
				in1 := eng.InnermostLoop(b)
				if in1 == nil || !in1.IsElem(mu.Key) {
					return false
				}
				over, isCall := eng.ResolveLocal(in1.Over).(*ssa.Call)
				if !isCall || eng.Key(over) != "slices.Compact" {
					return false
				}
				bo, isBO := mu.Value.(*ssa.BinOp)
				if !isBO || bo.Op != token.ADD {
					return false
				}
				if one, isC := eng.ConstInt(bo.Y); !isC || one != 1 {
					return false
				}
				// a candidate's list, sorted
				arg := eng.ResolveLocal(over.Call.Args[0])
				if ok, _ := w.MustPrecede(over, func(x ssa.Instruction) bool {
					ci, isCI := x.(ssa.CallInstruction)
					return isCI && eng.Key(ci) == "slices.Sort" && eng.ResolveLocal(ci.Common().Args[0]) == arg
				}, nil); !ok {
					return false
				}
			}
		}
		return counted
	}
	return false
}

// ---- the reference map

func (c *Ctx) referenceMap(r *R) {
	w := c.W
	f := r.Fn(typedPkg, "ReferenceMap.AddImport")
	fl := r.Fn(typedPkg, "ReferenceMap.AddLink")
	refs := r.Field(typedPkg, "ReferenceMap", "refs")
	aliases := r.Field(typedPkg, "ReferenceMap", "aliases")
	if f == nil || fl == nil || refs == nil || aliases == nil {
		return
	}
	var has, scope *ssa.Function
	for _, ci := range eng.CallsIn(c.Region(f)) {
		g := ci.Common().StaticCallee()
		if g == nil || eng.PkgOf(g) != full(typedPkg) {
			continue
		}
		res := g.Signature.Results()
		looksUp := len(c.callsExt([]*ssa.Function{g}, "go/types.Scope.LookupParent")) > 0
		switch {
		case res.Len() == 2 && res.At(1).Type() == types.Typ[types.Bool] && res.At(0).Type() == types.Typ[types.String]:
			has = g
		case boolResult(g) && looksUp:
			scope = g
		}
	}
	if has == nil || scope == nil {
		r.Bad("AddImport", w.Pos(f.Pos()), "cannot tell when an import is taken to be there already")
		return
	}
	pathP, nameP := paramNamed(f, 3), paramNamed(f, 4)
	isRefsMap := func(v ssa.Value) bool { return mapStoredIn(v, refs) || isFieldVal(v, refs) }
	isAliasMap := func(v ssa.Value) bool { return mapStoredIn(v, aliases) || isFieldVal(v, aliases) }
	explore := func(fn *ssa.Function, kindWant int64, found bool, prev string, inScope bool, local string, cur int64) []eng.Outcome {
		var ex *eng.Exploration
		ex = &eng.Exploration{W: w,
			Atom: func(v ssa.Value) (eng.AV, bool) {
				switch x := v.(type) {
				case *ssa.Call:
					switch x.Call.StaticCallee() {
					case has:
						return tuple(eng.AStr(prev), eng.ABool(found)), true
					case scope:
						return eng.ABool(inScope), true
					}
					if builtinCall(x, "len") != nil && x.Parent() == fn {
						return eng.AInt(1), true
					}
				case *ssa.Lookup:
					if isRefsMap(x.X) {
						k := eng.ABool(cur == importStmt)
						if x.CommaOk {
							return tuple(k, eng.ABool(cur >= 0)), true
						}
						return k, true
					}
				case *ssa.UnOp:
					if isFieldVal(x, refs) && cur >= 0 {
						return eng.ANonNilV(), true
					}
				}
				return eng.AV{}, false
			},
			Event: func(in ssa.Instruction) string {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if isRefsMap(mu.Map) {
						return "ref"
					}
					if isAliasMap(mu.Map) {
						return "alias"
					}
				}
				return ""
			},
			Inline: func(g *ssa.Function) bool { return eng.PkgOf(g) == full(typedPkg) },
		}
		ps := make([]eng.AV, len(fn.Params))
		if fn == f {
			ps[4] = eng.AStr(local)
		}
		var kept []eng.Outcome
		for _, o := range ex.Run(fn, ps...) {
			if !o.Panics {
				kept = append(kept, o)
			}
		}
		if ex.Exhausted {
			return nil
		}
		return kept
	}
	n := 0
	for _, found := range []bool{false, true} {
		for _, prev := range []string{"", "x", ".", "_"} {
			for _, in := range []bool{false, true} {
				for _, local := range []string{"x", "_"} {
					n++
					usable := found && prev != "." && prev != "_" && in
					if usable {
						continue
					}
					outs := explore(f, importStmt, found, prev, in, local, -1)
					ok := len(outs) > 0
					for _, o := range outs {
						ok = ok && o.Has("ref") && (local == "_" || o.Has("alias")) && o.Rets[0].IsTrue()
					}
					if !ok {
						r.Bad("AddImport", w.Pos(f.Pos()), "an import of an unusable kind (present: %v, as %q, visible: %v) is not added under its alias", found, prev, in)
						return
					}
				}
			}
		}
	}
	r.OK("AddImport", w.Pos(f.Pos()))
	c.Count("import situations", n)
	// links: recorded unless imported
	outs := explore(fl, relocTarget, false, "", false, "", -1)
	ok := len(outs) > 0
	for _, o := range outs {
		ok = ok && o.Has("ref")
	}
	r.Check(ok, "AddLink", w.Pos(fl.Pos()), "a link dependency the file does not import is not recorded")
	// what the questions are about
	for _, fn := range []*ssa.Function{f, fl} {
		i := len(fn.Params) - 1
		if fn == f {
			i = 3
		}
		w.Within(fn, func() {
			for _, ci := range eng.CallsIn(c.Region(fn)) {
				switch ci.Common().StaticCallee() {
				case has:
					r.Check(c.anyArg(ci, fn.Params[1]) && c.anyArg(ci, fn.Params[i]), short(fn)+" file", w.At(ci), "the imports of the wrong file, or of the wrong package, are looked at")
				case scope:
					r.Check(c.anyArg(ci, fn.Params[2]) && c.anyArg(ci, pathP) && c.anyArg(ci, nameP), short(fn)+" scope", w.At(ci), "the scope of the wrong node, name or package is looked at")
				}
			}
		})
	}
	// entries: path and kind
	entry := func(fn *ssa.Function, in *ssa.MapUpdate) {
		if isRefsMap(in.Map) {
			_, isP := eng.ResolveLocal(in.Key).(*ssa.Parameter)
			r.Check(isP, short(fn)+" entry", w.At(in), "the package recorded is not the one given")
		} else if isAliasMap(in.Map) && fn == f {
			good := eng.ResolveLocal(in.Key) == ssa.Value(pathP) && c.derives(in.Value, func(o ssa.Value) bool { return o == ssa.Value(nameP) })
			r.Check(good, short(fn)+" alias", w.At(in), "the alias recorded is not that of the package imported")
		}
	}
	addSite := map[ssa.Instruction]bool{}
	for _, fn := range c.Region(f, fl) {
		instrs([]*ssa.Function{fn}, func(fn *ssa.Function, in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				entry(fn, mu)
				if isRefsMap(mu.Map) {
					addSite[in] = true
				}
			}
		})
	}
	// the kind passed by each
	for fn, want := range map[*ssa.Function]int64{f: importStmt, fl: relocTarget} {
		i := 3
		if fn == fl {
			i = 2
		}
		okAll, n := true, 0
		for _, ci := range eng.Calls(fn) {
			g := ci.Common().StaticCallee()
			if g == nil || g == has || g == scope || eng.PkgOf(g) != full(typedPkg) || !c.anyArg(ci, fn.Params[i]) {
				continue
			}
			for _, a := range ci.Common().Args {
				if b, isB := eng.ConstBool(a); isB && eng.TypeKey(a.Type()) == typedPkg+".ReferenceKind" {
					n++
					okAll = okAll && b == (want == importStmt)
				}
			}
		}
		if n > 0 {
			r.Check(okAll, short(fn)+" kind", w.Pos(fn.Pos()), "the reference is recorded as being of the wrong kind")
		}
		for in := range addSite {
			if in.Parent() == fn {
				b, isB := eng.ConstBool(in.(*ssa.MapUpdate).Value)
				r.Check(isB && b == (want == importStmt), short(fn)+" kind", w.At(in), "the reference is recorded as being of the wrong kind")
			}
		}
	}
	// existing entries are never weakened; new ones always made
	for in := range addSite {
		g := in.Parent()
		if len(g.Params) < 3 || g == f || g == fl {
			continue
		}
		for _, t := range []struct{ cur, kind int64 }{{-1, 0}, {-1, 1}, {0, 1}, {1, 0}} {
			ps := make([]eng.AV, len(g.Params))
			for i, p := range g.Params {
				if eng.TypeKey(p.Type()) == typedPkg+".ReferenceKind" {
					ps[i] = eng.ABool(t.kind == importStmt)
				}
			}
			ex := &eng.Exploration{W: w,
				Atom: func(v ssa.Value) (eng.AV, bool) {
					switch x := v.(type) {
					case *ssa.Lookup:
						if isRefsMap(x.X) {
							k := eng.ABool(t.cur == importStmt)
							if x.CommaOk {
								return tuple(k, eng.ABool(t.cur >= 0)), true
							}
							return k, true
						}
					case *ssa.UnOp:
						if isFieldVal(x, refs) && t.cur >= 0 {
							return eng.ANonNilV(), true
						}
					}
					return eng.AV{}, false
				},
				Event: func(in ssa.Instruction) string {
					if mu, ok := in.(*ssa.MapUpdate); ok && isRefsMap(mu.Map) {
						return "ref"
					}
					return ""
				},
			}
			good := true
			for _, o := range ex.Run(g, ps...) {
				if o.Panics {
					continue
				}
				want := t.kind > t.cur || t.cur < 0
				if want != o.Has("ref") {
					good = false
				}
			}
			r.Check(good && !ex.Exhausted, fmt.Sprintf("%s %d over %d", short(g), t.kind, t.cur), w.Pos(g.Pos()), "recording a reference loses it, or weakens an import to a link dependency")
		}
		break
	}
	// has: present means this very path is imported
	c.hasImportRule(r, has)
	// scope: visible means the name stands for this package
	denotes := func(l eng.Lit) bool {
		return cmpLit(l, func(v ssa.Value) bool { return c.bound(v, func(x ssa.Value) bool { return x == ssa.Value(pathP) }) }, func(v ssa.Value) bool {
			return c.derivesExternalCall(v, "go/types.Package.Path") && c.derivesExternalCall(v, "go/types.PkgName.Imported") && c.derives(v, func(o ssa.Value) bool {
				call := callOf(o)
				return call != nil && eng.Key(call) == "go/types.Scope.LookupParent"
			})
		}) == 1
	}
	for _, ret := range eng.Returns(scope) {
		v := ret.Results[0]
		if b, isB := eng.ConstBool(v); isB && !b {
			continue
		}
		r.Check(w.Implies(eng.Lit{V: v, Pol: true}, denotes) || w.MustHold(ret, denotes), "visible", w.At(ret), "an import is taken to be usable though its name may stand for something else there")
	}
	for _, ci := range c.callsExt(c.Region(scope), "go/types.Scope.LookupParent") {
		a := ci.Common().Args
		r.Check(c.bound(a[1], func(x ssa.Value) bool { return x == ssa.Value(nameP) }), "visible name", w.At(ci), "the scope is asked about another name")
		r.Check(c.derivesExternalCall(a[2], "go/ast.Node.Pos"), "visible position", w.At(ci), "the scope is not asked about the place code is injected at")
	}
	// the nearest scope is asked
	c.nearestScope(r, scope)

	// merging
	if mg := r.Fn(typedPkg, "ReferenceMap.Merge"); mg != nil {
		isOther := func(v ssa.Value) bool { return isFieldVal(v, refs) && !derivesParam(v, mg.Params[0]) }
		var loop *eng.Loop
		for _, l := range loopsOver(c.Region(mg), isOther) {
			loop = l
		}
		if loop == nil {
			r.Bad("Merge", w.Pos(mg.Pos()), "references are not merged")
		} else {
			adds := func(in ssa.Instruction) bool {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					return isRefsMap(mu.Map) && loop.IsKey(mu.Key) && loop.IsElem(mu.Value)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return false
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					return false
				}
				adder := false
				for s := range addSite {
					adder = adder || s.Parent() == g
				}
				return adder && len(ci.Common().Args) == 3 && loop.IsKey(ci.Common().Args[1]) && loop.IsElem(ci.Common().Args[2])
			}
			c.each(r, loop, "Merge", adds, nil, "merging references loses some")
		}
	}
	// contexts forward to the map of the file at hand
	for _, name := range []string{"AddImport", "AddLink"} {
		cf := r.Fn(ctxPkg, "context."+name)
		if cf == nil {
			continue
		}
		fileF, refF := r.Field(ctxPkg, "context", "file"), r.Field(ctxPkg, "context", "refMap")
		calls := w.CallsTo(c.Region(cf), typedPkg+".ReferenceMap."+name)
		good := len(calls) > 0
		for _, ci := range calls {
			a := ci.Common().Args
			good = good && isFieldVal(a[0], refF) && isFieldVal(a[1], fileF)
			if name == "AddImport" {
				good = good && c.sameOrParam(a[3], cf.Params[1]) && c.sameOrParam(a[4], cf.Params[2])
			} else {
				good = good && c.sameOrParam(a[2], cf.Params[1])
			}
		}
		good = good && w.MustDo(cf, callTo(typedPkg+".ReferenceMap."+name), nil, nil) == nil
		r.Check(good, "context."+name, w.Pos(cf.Pos()), "imports are not recorded, or for another file or package")
	}
	c.nodeChainArg(r)
}

func (c *Ctx) callsExt(fs []*ssa.Function, key string) []ssa.CallInstruction {
	var res []ssa.CallInstruction
	for _, f := range fs {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) == key {
				res = append(res, ci)
			}
		}
	}
	return res
}

func derivesParam(v ssa.Value, p *ssa.Parameter) bool {
	for d := 0; d < 8; d++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					v = s.Val
				}
			}
			if v == ssa.Value(x) {
				return false
			}
		default:
			return v == ssa.Value(p)
		}
	}
	return false
}

func paramNamed(f *ssa.Function, i int) *ssa.Parameter {
	if i < len(f.Params) {
		return f.Params[i]
	}
	return nil
}

func (c *Ctx) anyArg(ci ssa.CallInstruction, p *ssa.Parameter) bool {
	for _, a := range ci.Common().Args {
		if c.bound(a, func(v ssa.Value) bool { return v == ssa.Value(p) }) {
			return true
		}
	}
	return false
}

// hasImportRule: the name and presence reported are those of an import of the path.
func (c *Ctx) hasImportRule(r *R, has *ssa.Function) {
	w := c.W
	pathP := has.Params[len(has.Params)-1]
	same := func(l eng.Lit) bool {
		return cmpLit(l, func(v ssa.Value) bool { return v == ssa.Value(pathP) }, func(v ssa.Value) bool {
			return c.derives(v, func(o ssa.Value) bool { return extFieldAddr(o, specType+".Path") })
		}) == 1
	}
	n := 0
	for _, ret := range eng.Returns(has) {
		if b, isB := eng.ConstBool(ret.Results[1]); isB && !b {
			continue
		}
		n++
		r.Check(w.Implies(eng.Lit{V: ret.Results[1], Pol: true}, same) || w.MustHold(ret, same), "present", w.At(ret), "another package's import is taken for the one needed")
		named := func(v ssa.Value) bool { return isExtLoad(v, specType+".Name") }
		anon := func(l eng.Lit) bool { return nilLit(l, named) == "nil" }
		var good func(v ssa.Value, in ssa.Instruction) bool
		good = func(v ssa.Value, in ssa.Instruction) bool {
			v = eng.ResolveLocal(v)
			if s, ok := eng.ConstString(v); ok {
				return s == "" && w.MustHoldLocal(in, anon)
			}
			if isExtLoad(v, "github.com/dave/dst.Ident.Name") {
				return c.derives(v, func(o ssa.Value) bool { return extFieldAddr(o, specType+".Name") })
			}
			if phi, ok := v.(*ssa.Phi); ok {
				for i, e := range phi.Edges {
					p := phi.Block().Preds[i]
					if s, ok := eng.ConstString(e); ok && s == "" {
						if el, has := eng.EdgeLit(p, phi.Block()); has && anon(el) {
							continue
						}
					}
					if !good(e, p.Instrs[len(p.Instrs)-1]) {
						return false
					}
				}
				return true
			}
			return false
		}
		r.Check(good(ret.Results[0], ret), "present name", w.At(ret), "the name reported is not that of the import")
	}
	if n == 0 {
		r.Bad("present", w.Pos(has.Pos()), "cannot tell when an import is there")
	}
}

// nearestScope: nodes are gone through outwards, up to the first one that has a scope.
func (c *Ctx) nearestScope(r *R, scope *ssa.Function) {
	w := c.W
	scopes := r.Field(typedPkg, "ReferenceMap", "scopes")
	if scopes == nil {
		return
	}
	ok := false
	for _, f := range c.Region(scope) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				lk, isL := in.(*ssa.Lookup)
				if !isL || !isFieldVal(lk.X, scopes) {
					continue
				}
				l := eng.InnermostLoop(b)
				ok = l != nil && forward(l)
			}
		}
	}
	r.Check(ok, "nearest scope", w.Pos(scope.Pos()), "the scope asked is not the innermost one around the injected code")
}

// nodeChainArg: the chain passed starts at the node at hand and goes through all of its ancestors.
func (c *Ctx) nodeChainArg(r *R) {
	w := c.W
	cf := w.Func(ctxPkg, "context.AddImport")
	nodeF, parF := r.Field(ctxPkg, "NodeChain", "node"), r.Field(ctxPkg, "NodeChain", "parent")
	if cf == nil || nodeF == nil || parF == nil {
		return
	}
	for _, ci := range w.CallsTo(c.Region(cf), typedPkg+".ReferenceMap.AddImport") {
		v := eng.ResolveLocal(ci.Common().Args[2])
		up := false
		for _, f := range c.Region(cf) {
			for _, l := range eng.Loops(f) {
				up = up || c.climbs(l, nodeF, parF)
			}
		}
		r.Check(up && c.derivesField(v, nodeF), "context.AddImport chain", w.At(ci), "the ancestors of the node are not passed on")
	}
}

// climbs: the loop appends the node of every link of a chain, up to its end.
func (c *Ctx) climbs(l *eng.Loop, nodeF, parF *types.Var) bool {
	for _, in := range l.Header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok || eng.TypeKey(eng.Deref(phi.Type())) != ctxPkg+".NodeChain" {
			continue
		}
		same := func(v ssa.Value) bool { return eng.ResolveLocal(v) == ssa.Value(phi) }
		for i, e := range phi.Edges {
			if l.Blocks[phi.Block().Preds[i]] && !(fieldOfLoad(e) == parF && same(baseOfLoad(e))) {
				return false
			}
		}
		for b := range l.Blocks {
			for _, s := range b.Succs {
				if l.Blocks[s] {
					continue
				}
				lit, has := eng.EdgeLit(b, s)
				if !has || nilLit(lit, same) != "nil" {
					return false
				}
			}
		}
		return l.Always(func(in ssa.Instruction) bool {
			a := builtinCall(in, "append")
			if a == nil {
				return false
			}
			vs := eng.VarArgs(a.Call.Args[1])
			if len(vs) != 1 || vs[0] == nil {
				return false
			}
			return fieldOfLoad(vs[0]) == nodeF && same(baseOfLoad(vs[0]))
		}, nil)
	}
	return false
}

// ---- the file's imports

func (c *Ctx) syntheticImports(r *R) {
	w := c.W
	f := r.Fn(typedPkg, "ReferenceMap.AddSyntheticImports")
	refs := r.Field(typedPkg, "ReferenceMap", "refs")
	aliases := r.Field(typedPkg, "ReferenceMap", "aliases")
	app := r.Fn(injPkg, "Injector.applyAspects")
	if f == nil || refs == nil || aliases == nil || app == nil {
		return
	}
	region := c.Region(f)
	var loop *eng.Loop
	for _, l := range loopsOver(region, func(v ssa.Value) bool { return isFieldVal(v, refs) }) {
		loop = l
	}
	if loop == nil {
		r.Bad("imports", w.Pos(f.Pos()), "recorded imports are not gone through")
		return
	}
	reloc := func(l eng.Lit) bool {
		if loop.IsElem(l.V) || loop.IsElem(eng.ResolveLocal(l.V)) {
			return !l.Pol
		}
		bo, ok := l.V.(*ssa.BinOp)
		if !ok || !loop.IsElem(bo.X) && !loop.IsElem(bo.Y) {
			return false
		}
		k, isC := eng.ConstBool(bo.Y)
		if !isC {
			k, isC = eng.ConstBool(bo.X)
		}
		return isC && ((bo.Op == token.EQL) == l.Pol) == !k
	}
	var spec *ssa.Alloc
	adds := func(in ssa.Instruction) bool {
		a := builtinCall(in, "append")
		if a == nil {
			return false
		}
		vs := eng.VarArgs(a.Call.Args[1])
		if len(vs) != 1 {
			return false
		}
		al, ok := eng.ResolveLocal(vs[0]).(*ssa.Alloc)
		if !ok || eng.TypeKey(eng.Deref(al.Type())) != specType {
			return false
		}
		spec = al
		return true
	}
	c.each(r, loop, "each", adds, reloc, "an import that was recorded is not added")
	if spec == nil {
		r.Bad("spec", w.Pos(f.Pos()), "cannot tell which import is added")
		return
	}
	// its path
	pathOK, nameOK := false, false
	for _, rr := range *spec.Referrers() {
		fa, ok := rr.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, v := range storedIn(fa) {
			switch eng.FieldVar(fa).Name() {
			case "Path":
				pathOK = c.quotesKey(v, loop)
			case "Name":
				nameOK = c.aliasName(v, aliases, loop)
			}
		}
	}
	r.Check(pathOK, "path", w.At(spec), "the import added is of another package")
	r.Check(nameOK, "alias", w.At(spec), "the import added does not have the alias it was recorded with")
	// added to the file, and to its declarations
	for name, ev := range map[string]eng.Event{
		"file": func(in ssa.Instruction) bool {
			s := storesExt(in, "github.com/dave/dst.File.Imports")
			return s != nil && c.derives(s.Val, func(o ssa.Value) bool { return o == ssa.Value(spec) }) && growsExt(s)
		},
		"declaration": func(in ssa.Instruction) bool {
			s := storesExt(in, "github.com/dave/dst.GenDecl.Specs")
			return s != nil && c.derives(s.Val, func(o ssa.Value) bool { return o == ssa.Value(spec) }) && growsExt(s)
		},
	} {
		none := func(l eng.Lit) bool {
			return lenCmp(l, func(v ssa.Value) bool {
				return eng.TypeKey(elemOf(v.Type())) == specType || c.derives(v, func(o ssa.Value) bool { return o == ssa.Value(spec) })
			}) == "empty"
		}
		// in one go, or one by one
		byOne := map[ssa.Instruction]bool{}
		for _, fn := range region {
			for _, l := range eng.Loops(fn) {
				if l.Over != nil && l != loop && eng.TypeKey(elemOf(l.Over.Type())) == specType && c.complete(l) && l.Always(ev, nil) {
					byOne[l.Header.Instrs[0]] = true
				}
			}
		}
		leak := w.MustDo(f, func(in ssa.Instruction) bool { return ev(in) || byOne[in] }, nil, none)
		pos := w.Pos(f.Pos())
		if leak != nil && leak.Exit != nil {
			pos = w.At(leak.Exit)
		}
		r.Check(leak == nil, name, pos, "the imports recorded are not added to the %s", name)
	}
	// a whole copy of the list
	for _, fn := range region {
		for _, l := range eng.Loops(fn) {
			if l.Over == nil || l == loop || eng.TypeKey(elemOf(l.Over.Type())) != specType {
				continue
			}
			cp := func(in ssa.Instruction) bool {
				if s, ok := in.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
						return ia.Index == l.Key && l.IsElem(eng.Unwrap(s.Val))
					}
				}
				a := builtinCall(in, "append")
				if a == nil {
					return false
				}
				vs := eng.VarArgs(a.Call.Args[1])
				return len(vs) == 1 && vs[0] != nil && l.IsElem(eng.Unwrap(vs[0]))
			}
			c.each(r, l, "copied", cp, nil, "not all imports are added to the declaration")
		}
	}
	// a declaration made for them is part of the file
	for _, fn := range region {
		instrs([]*ssa.Function{fn}, func(_ *ssa.Function, in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || eng.TypeKey(eng.Deref(al.Type())) != "github.com/dave/dst.GenDecl" {
				return
			}
			leak := w.MustFollow(al, func(in ssa.Instruction) bool {
				s := storesExt(in, "github.com/dave/dst.File.Decls")
				return s != nil && c.derives(s.Val, func(o ssa.Value) bool { return o == ssa.Value(al) })
			}, nil, nil)
			r.Check(leak == nil, "new declaration", w.At(al), "the declaration made for new imports is not part of the file")
		})
	}
	// once nodes were all visited, for every file woven
	apply, _, _, at := c.traversal(r)
	if apply == nil {
		return
	}
	synth := w.CallEvent(func(ci ssa.CallInstruction) bool { return ci.Common().StaticCallee() == f })
	leak := w.MustFollow(at, w.LiftEvent(synth), w.MaySucceed, nil)
	r.Check(leak == nil, "after weaving", w.At(at), "the imports injected code needs are not added to the file")
	for _, ci := range w.Callers(f) {
		// same map and same file as the traversal's
		fileOK := c.derives(eng.ArgOf(ci, 1), func(o ssa.Value) bool {
			return isFieldAddrNamed(o, "File") || eng.ResolveLocal(o) == eng.ResolveLocal(eng.Unwrap(at.(ssa.CallInstruction).Common().Args[0]))
		})
		r.Check(fileOK, "same file", w.At(ci), "imports are added to another file")
	}
}

// storedIn lists what is stored at a field's address.
func storedIn(fa *ssa.FieldAddr) []ssa.Value {
	var res []ssa.Value
	for _, r := range *fa.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
			res = append(res, s.Val)
		}
	}
	return res
}

// quotesKey: v is a string literal holding the key of the iteration.
func (c *Ctx) quotesKey(v ssa.Value, loop *eng.Loop) bool {
	al, ok := eng.ResolveLocal(v).(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, rr := range *al.Referrers() {
		fa, ok := rr.(*ssa.FieldAddr)
		if !ok || eng.FieldVar(fa).Name() != "Value" {
			continue
		}
		vs := storedIn(fa)
		for _, v := range vs {
			if !c.W.Carries(v, func(o ssa.Value) bool { return loop.IsKey(o) }) && !c.quoted(v, func(o ssa.Value) bool { return loop.IsKey(o) }) {
				return false
			}
		}
		return len(vs) > 0
	}
	return false
}

func isFieldAddrNamed(o ssa.Value, name string) bool {
	switch o.(type) {
	case *ssa.FieldAddr, *ssa.Field:
		return eng.FieldVar(o) != nil && eng.FieldVar(o).Name() == name
	}
	return false
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return eng.Deref(s.Elem())
	}
	return types.Typ[types.Invalid]
}

// growsExt: the value stored is what was there, with more appended.
func growsExt(s *ssa.Store) bool {
	fv := eng.FieldVar(s.Addr)
	v := eng.ResolveLocal(s.Val)
	for d := 0; d < 6; d++ {
		a, ok := v.(*ssa.Call)
		if !ok {
			break
		}
		if builtinCall(a, "append") == nil {
			return false
		}
		if sl, ok := eng.ResolveLocal(a.Call.Args[1]).(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
			return false // only some of them
		}
		v = eng.ResolveLocal(a.Call.Args[0])
	}
	return fieldOfLoad(v) == fv
}

// aliasName: v is an identifier named by the alias recorded for the path, or blank when there is none.
func (c *Ctx) aliasName(v ssa.Value, aliases *types.Var, loop *eng.Loop) bool {
	lookup := func(x ssa.Value) bool {
		x = eng.ResolveLocal(x)
		if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
			x = e.Tuple
		}
		lk, ok := x.(*ssa.Lookup)
		return ok && isFieldVal(lk.X, aliases) && loop.IsKey(lk.Index)
	}
	hasAlias := func(l eng.Lit) string {
		return c.hasEntry(l, func(m ssa.Value) bool { return isFieldVal(m, aliases) }, func(k ssa.Value) bool { return loop.IsKey(k) })
	}
	// every value its name can have
	al, ok := eng.ResolveLocal(v).(*ssa.Alloc)
	if !ok {
		return false
	}
	sawAlias := false
	for _, rr := range *al.Referrers() {
		fa, ok := rr.(*ssa.FieldAddr)
		if !ok || eng.FieldVar(fa).Name() != "Name" {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(fa) {
				continue
			}
			if s, isC := eng.ConstString(st.Val); isC && s == "_" {
				continue // overwritten below when there is an alias
			}
			if lookup(st.Val) {
				// stored whenever there is one
				sawAlias = true
				if !loop.Always(is(st), func(l eng.Lit) bool { return hasAlias(l) == "missing" || reloc01(l, loop) }) {
					return false
				}
				continue
			}
			phi, isPhi := eng.ResolveLocal(st.Val).(*ssa.Phi)
			if !isPhi {
				return false
			}
			for i, e := range phi.Edges {
				p := phi.Block().Preds[i]
				if lookup(e) {
					sawAlias = true
					continue
				}
				s, isC := eng.ConstString(e)
				missing := func(l eng.Lit) bool { return hasAlias(l) == "missing" }
				el, has := eng.EdgeLit(p, phi.Block())
				if !isC || s != "_" || !(has && missing(el)) && !c.W.MustHoldLocal(p.Instrs[len(p.Instrs)-1], missing) {
					return false
				}
			}
		}
	}
	return sawAlias
}

func reloc01(l eng.Lit, loop *eng.Loop) bool {
	if loop.IsElem(l.V) {
		return !l.Pol
	}
	bo, ok := l.V.(*ssa.BinOp)
	if !ok || !loop.IsElem(bo.X) {
		return false
	}
	k, isC := eng.ConstBool(bo.Y)
	return isC && ((bo.Op == token.EQL) == l.Pol) == !k
}

// ---- one import per package

func (c *Ctx) canonicalImports(r *R) {
	w := c.W
	can := r.Fn(injPkg, "canonicalizeImports")
	wr := r.Fn(injPkg, "Injector.writeModifiedFile")
	if can == nil || wr == nil {
		return
	}
	// before the file is restored to source
	for _, ci := range c.callsExt(c.Region(wr), "github.com/dave/dst/decorator.FileRestorer.RestoreFile") {
		ok, _ := w.MustPrecede(ci, w.LiftEvent(w.CallEvent(func(ci ssa.CallInstruction) bool { return ci.Common().StaticCallee() == can })), nil)
		r.Check(ok, "canonicalized", w.At(ci), "a file with several imports of a package can be printed")
	}
	region := c.Region(can)
	// the choice among the imports of one package
	isSpecs := func(v ssa.Value) bool { return eng.TypeKey(elemOf(v.Type())) == specType }
	n := 0
	for _, f := range region {
		for _, l := range eng.Loops(f) {
			if l.Over == nil || !isSpecs(l.Over) {
				continue
			}
			// a choice: keeps one element over iterations
			phi := choicePhi(l)
			if phi == nil {
				continue
			}
			n++
			bad := c.choice(l, phi)
			r.Check(bad == "", "choice", w.Pos(f.Pos()), "%s", bad)
			// it starts from one of them
			for i, e := range phi.Edges {
				if l.Blocks[phi.Block().Preds[i]] {
					continue
				}
				r.Check(c.derives(e, func(o ssa.Value) bool { _, ok := o.(*ssa.IndexAddr); return ok }) || isNil(e), "choice start", w.At(phi), "the import kept is not one of the package's")
			}
		}
	}
	if n == 0 {
		r.Bad("choice", w.Pos(can.Pos()), "cannot tell which import of a package is kept")
	}
	// only the imports not chosen are deleted
	for _, f := range region {
		for _, ci := range c.callsExt([]*ssa.Function{f}, "github.com/dave/dst/dstutil.Cursor.Delete") {
			ok := w.MustHold(ci, func(l eng.Lit) bool {
				notKept := c.hasEntry(l, func(m ssa.Value) bool { return isSpecSet(m.Type()) }, func(k ssa.Value) bool {
					return c.derives(k, isCursorNode)
				}) == "missing"
				noSpecs := lenCmp(l, func(v ssa.Value) bool { return isExtLoad(v, "github.com/dave/dst.GenDecl.Specs") }) == "empty"
				return notKept || noSpecs
			})
			r.Check(ok, "deleted", w.At(ci), "an import that should be kept is deleted")
		}
		// every choice is kept
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s := storesExt(in, "github.com/dave/dst.File.Imports")
				if s == nil {
					continue
				}
				if sl, ok := s.Val.(*ssa.Slice); ok && isExtLoad(sl.X, "github.com/dave/dst.File.Imports") {
					continue // emptied, to be filled again
				}
				a, ok := s.Val.(*ssa.Call)
				r.Check(ok && builtinCall(a, "append") != nil && growsExt(s), "imports", w.At(in), "the imports of the file are replaced")
			}
		}
	}
	sets := 0
	for _, f := range region {
		for _, l := range eng.Loops(f) {
			if l.Over == nil {
				continue
			}
			m, ok := l.Over.Type().Underlying().(*types.Map)
			if !ok {
				continue
			}
			switch {
			case isSpecSet(l.Over.Type()):
				sets++
				c.each(r, l, "kept in file", func(in ssa.Instruction) bool {
					a := builtinCall(in, "append")
					if a == nil {
						return false
					}
					vs := eng.VarArgs(a.Call.Args[1])
					return len(vs) == 1 && vs[0] != nil && l.IsKey(vs[0])
				}, nil, "an import that was chosen is lost")
			case isSpecsType(m.Elem()):
				sets++
				c.each(r, l, "kept", func(in ssa.Instruction) bool {
					mu, ok := in.(*ssa.MapUpdate)
					return ok && isSpecSet(mu.Map.Type())
				}, nil, "no import of some package is kept")
			}
		}
	}
	if sets < 2 {
		r.Bad("kept", w.Pos(can.Pos()), "cannot tell which imports are kept")
	}
}

func isSpecSet(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && eng.TypeKey(eng.Deref(m.Key())) == specType
}

func isSpecsType(t types.Type) bool { return eng.TypeKey(elemOf(t)) == specType }

func choicePhi(l *eng.Loop) *ssa.Phi {
	for _, in := range l.Header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok && eng.TypeKey(eng.Deref(phi.Type())) == specType {
			return phi
		}
	}
	return nil
}

// choice runs an iteration over each kind of import kept so far, and each kind of import seen next.
func (c *Ctx) choice(l *eng.Loop, phi *ssa.Phi) string {
	kinds := []string{"unnamed", "blank", "named"}
	for kept := range kinds {
		for next := range kinds {
			var cur map[ssa.Value]int // spec value -> kind
			cur = map[ssa.Value]int{phi: kept}
			kindOf := func(v ssa.Value) (int, bool) {
				v = eng.ResolveLocal(v)
				if k, ok := cur[v]; ok {
					return k, true
				}
				if l.IsElem(v) {
					return next, true
				}
				return 0, false
			}
			// evaluate a condition
			ex := &eng.Exploration{W: c.W, Atom: func(v ssa.Value) (eng.AV, bool) {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					return eng.AV{}, false
				}
				if extFieldAddr(u.X, specType+".Name") {
					if k, ok := kindOf(u.X.(*ssa.FieldAddr).X); ok {
						if k == 0 {
							return eng.ANilV(), true
						}
						return eng.ANonNilV(), true
					}
				}
				if extFieldAddr(u.X, "github.com/dave/dst.Ident.Name") {
					if n, ok := u.X.(*ssa.FieldAddr).X.(*ssa.UnOp); ok && extFieldAddr(n.X, specType+".Name") {
						if k, ok := kindOf(n.X.(*ssa.FieldAddr).X); ok && k > 0 {
							return eng.AStr([]string{"", "_", "x"}[k]), true
						}
					}
				}
				return eng.AV{}, false
			}}
			type st struct{ b, pred *ssa.BasicBlock }
			seen := map[st]bool{}
			bad := ""
			var walk func(b, pred *ssa.BasicBlock, env map[ssa.Value]int)
			walk = func(b, pred *ssa.BasicBlock, env map[ssa.Value]int) {
				if bad != "" {
					return
				}
				if !l.Blocks[b] {
					if pred == l.Header {
						return
					}
					// left early: nothing better may come
					best := kept
					for _, in := range b.Instrs {
						if p, ok := in.(*ssa.Phi); ok && eng.TypeKey(eng.Deref(p.Type())) == specType {
							for i, q := range b.Preds {
								if q == pred {
									best, _ = kindOf2(p.Edges[i], env, kindOf)
								}
							}
						}
					}
					if best < 2 && !c.W.FailsFrom(b, l) {
						bad = fmt.Sprintf("with an %s import kept and an %s one at hand, the following ones are not looked at", kinds[kept], kinds[next])
					}
					return
				}
				if b == l.Header && pred != nil && l.Blocks[pred] {
					// end of the iteration
					for i, p := range b.Preds {
						if p != pred {
							continue
						}
						k, ok := kindOf2(phi.Edges[i], env, kindOf)
						want := kept
						if next > want {
							want = next
						}
						if !ok {
							bad = "cannot tell which import is kept"
						} else if k < want {
							bad = fmt.Sprintf("an %s import is kept rather than an %s one", kinds[k], kinds[want])
						}
					}
					return
				}
				if seen[st{b, pred}] {
					return
				}
				seen[st{b, pred}] = true
				ne := map[ssa.Value]int{}
				for k, v := range env {
					ne[k] = v
				}
				for _, in := range b.Instrs {
					if p, ok := in.(*ssa.Phi); ok && p != phi {
						for i, q := range b.Preds {
							if q == pred {
								if k, ok := kindOf2(p.Edges[i], env, kindOf); ok {
									ne[p] = k
								}
							}
						}
					}
				}
				old := cur
				cur = ne
				cur[phi] = kept
				defer func() { cur = old }()
				ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok || b == l.Header {
					for _, s := range b.Succs {
						if b == l.Header && !l.Blocks[s] {
							continue
						}
						walk(s, b, ne)
					}
					return
				}
				cond, neg := ssa.Value(ifi.Cond), false
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, neg = u.X, !neg
				}
				av := ex.EvalAt(cond)
				if call, ok := cond.(*ssa.Call); ok && call.Call.StaticCallee() != nil && len(call.Call.StaticCallee().Blocks) > 0 {
					g := call.Call.StaticCallee()
					for i, p := range g.Params {
						if k, ok := kindOf(eng.ArgOf(call, i)); ok {
							cur[p] = k
						}
					}
					t, f := false, false
					for _, o := range ex.Run(g) {
						if !o.Panics && len(o.Rets) == 1 {
							t = t || !o.Rets[0].IsFalse()
							f = f || !o.Rets[0].IsTrue()
						}
					}
					if t != f {
						av = eng.ABool(t)
					}
				}
				if neg && (av.IsTrue() || av.IsFalse()) {
					av = eng.ABool(av.IsFalse())
				}
				for i, s := range b.Succs {
					if i == 0 && av.IsFalse() || i == 1 && av.IsTrue() {
						continue
					}
					walk(s, b, ne)
				}
			}
			walk(l.Header, nil, map[ssa.Value]int{phi: kept})
			if bad != "" {
				return bad
			}
		}
	}
	return ""
}

func kindOf2(v ssa.Value, env map[ssa.Value]int, kindOf func(ssa.Value) (int, bool)) (int, bool) {
	if k, ok := env[v]; ok {
		return k, true
	}
	return kindOf(v)
}
