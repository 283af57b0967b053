package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "W08", Technique: "symbolic provenance of positions and exhaustive path analysis of the annotating visitor; ordering and flow of the woven text", Run: runLines})
}

const (
	linePkg = "internal/injector/lineinfo"
)

func runLines(c *Ctx) {
	rAnn := c.Rule("W08.annotated", "every woven file is annotated with its original positions before it is printed, and written as printed")
	rMeas := c.Rule("W08.measured", "positions are measured on the file as it will be printed, for all of its nodes")
	rVisit := c.Rule("W08.visit", "a node has a //line directive unless it is where the previous one puts it")
	rPlaced := c.Rule("W08.placed", "directives are attached where they can be printed on a line of their own")
	rDir := c.Rule("W08.directive", "a directive names the original file and line")
	rText := c.Rule("W08.text", "directives start their line, and nothing but their indentation is removed from the text")
	rUse := c.Rule("W08.consume", "a leading //line F:1:1 directive names the file; nothing else is skipped")
	rEff := c.Rule("W08.effects", "annotating changes nothing but white space and comments")

	l := &lines{Ctx: c}
	l.annotated(rAnn, rText)
	l.measured(rMeas)
	if l.roles(rVisit) {
		l.visits(rVisit, rPlaced)
		l.directive(rDir)
	}
	l.consumes(rUse)
	l.effects(rEff)
}

type lines struct {
	*Ctx
	visit              *ssa.Function
	region             []*ssa.Function
	curFile, curLine   *types.Var
	adjFile, adjLine   *types.Var
	generated, dirFunc string
	text               ssa.Value
	busy               map[ssa.Value]bool
}

const (
	lnCur = "pos(v.res.Fset,Pos(node))"
	lnDst = "v.res.Dst.Nodes[node]"
	lnOrg = "v.dec.Ast.Nodes[" + lnDst + "]"
	lnAdj = "pos(v.dec.Fset,Pos(" + lnOrg + "))"
)

func (l *lines) state(fv *types.Var) bool {
	if l.visit == nil || fv == nil {
		return false
	}
	// a basic field of the visitor's (possibly embedded) state
	b, ok := fv.Type().Underlying().(*types.Basic)
	if !ok || fv.Pkg() == nil || strip(fv.Pkg().Path()) != linePkg {
		return false
	}
	return b.Info()&(types.IsString|types.IsInteger) != 0
}

// term names the value a function of the visitor computes, in terms of the visited node.
func (l *lines) term(v ssa.Value) string {
	if v == nil {
		return "?"
	}
	if l.busy[v] {
		return "?"
	}
	l.busy[v] = true
	defer delete(l.busy, v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Parameter:
		f := x.Parent()
		if f == l.visit {
			if x == f.Params[0] {
				return "v"
			}
			return "node"
		}
		res := ""
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, ci := range l.W.Callers(f) {
				a := eng.ArgOf(ci, i)
				if a == nil {
					return "?"
				}
				t := l.term(a)
				if res != "" && t != res {
					return "?"
				}
				res = t
			}
		}
		if res == "" {
			return "?"
		}
		return res
	case *ssa.FreeVar:
		for _, mc := range l.W.ClosureSites(x.Parent()) {
			for i, fv := range x.Parent().FreeVars {
				if fv == x && i < len(mc.Bindings) {
					return l.term(mc.Bindings[i])
				}
			}
		}
	case *ssa.Alloc:
		var whole []*ssa.Store
		for _, s := range cellStores(l.Ctx, x) {
			whole = append(whole, s)
		}
		if len(whole) == 1 {
			return l.term(whole[0].Val)
		}
	case *ssa.FieldAddr:
		return l.field(x, x.X)
	case *ssa.Field:
		return l.field(x, x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return l.loaded(x, fa)
		}
		if r := eng.ResolveLocal(x); r != ssa.Value(x) {
			return l.term(r)
		}
		return l.term(x.X)
	case *ssa.ChangeType:
		return l.term(x.X)
	case *ssa.Convert:
		if eng.IsLossless(x.X.Type(), x.Type()) {
			return l.term(x.X)
		}
	case *ssa.ChangeInterface:
		return l.term(x.X)
	case *ssa.MakeInterface:
		return l.term(x.X)
	case *ssa.Lookup:
		return l.term(x.X) + "[" + l.term(x.Index) + "]"
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if x.Index == 0 {
				return l.term(t)
			}
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return l.term(t.X)
			}
		case *ssa.Call:
			return l.inlined(t, x.Index)
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return l.term(x.X)
		}
	case *ssa.Phi:
		// the same on all edges
		res := ""
		for _, e := range x.Edges {
			t := l.term(e)
			if res != "" && t != res {
				return "?"
			}
			res = t
		}
		return res
	case *ssa.Call:
		name := ""
		if o := eng.CalleeObj(x); o != nil {
			name = o.Name()
		}
		switch {
		case eng.Key(x) == "go/token.FileSet.Position":
			return "pos(" + l.term(x.Call.Args[0]) + "," + l.term(x.Call.Args[1]) + ")"
		case eng.Key(x) == "go/token.FileSet.PositionFor":
			if b, ok := eng.ConstBool(x.Call.Args[2]); ok && b {
				return "pos(" + l.term(x.Call.Args[0]) + "," + l.term(x.Call.Args[1]) + ")"
			}
			return "rawpos"
		case x.Call.IsInvoke() && (name == "Pos" || name == "Decorations"):
			return name + "(" + l.term(x.Call.Value) + ")"
		case !x.Call.IsInvoke() && len(x.Call.Args) == 1 && (name == "Pos" || name == "Decorations"):
			return name + "(" + l.term(x.Call.Args[0]) + ")"
		}
		return l.inlined(x, 0)
	}
	return "?"
}

// inlined: the value of a helper's only result.
func (l *lines) inlined(call *ssa.Call, idx int) string {
	g := call.Call.StaticCallee()
	if g == nil || eng.Rel(g) != linePkg {
		return "?"
	}
	if g.Name() == l.dirFunc && l.dirFunc != "" {
		res := "directive(" + l.term(call.Call.Args[0])
		for _, a := range call.Call.Args[1:] {
			res += "," + l.term(a)
		}
		return res + ")"
	}
	res := ""
	for _, rt := range eng.Returns(g) {
		if idx >= len(rt.Results) {
			return "?"
		}
		t := l.term(rt.Results[idx])
		if t == "nil" || t == "zero" {
			continue // the absence of a value is told from the conditions
		}
		if res != "" && t != res {
			return "?"
		}
		res = t
	}
	if res == "" {
		return "?"
	}
	return res
}

// field names a selection.
func (l *lines) field(sel, base ssa.Value) string {
	fv := eng.FieldVarOf(sel)
	b := l.term(base)
	if fv == nil {
		return "?"
	}
	if fv.Embedded() {
		return b
	}
	name := fv.Name()
	switch fv.Type().String() {
	case "*github.com/dave/dst/decorator.Decorator":
		name = "dec"
	case "*github.com/dave/dst/decorator.FileRestorer":
		name = "res"
	}
	return b + "." + name
}

// loaded names the content of a field.
func (l *lines) loaded(ld *ssa.UnOp, fa *ssa.FieldAddr) string {
	fv := eng.FieldVar(fa)
	base := l.term(fa.X)
	if al, ok := fa.X.(*ssa.Alloc); ok {
		if ws := cellStores(l.Ctx, al); len(ws) == 1 {
			// the copy of a structure
			return l.term(ws[0].Val) + "." + l.fieldName(fv)
		}
		var vals []ssa.Value
		for _, ref := range *al.Referrers() {
			if f2, ok := ref.(*ssa.FieldAddr); ok && eng.FieldVar(f2) == fv {
				for _, r2 := range *f2.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(f2) {
						vals = append(vals, st.Val)
					}
				}
			}
		}
		if len(vals) == 1 {
			return l.term(vals[0])
		}
		return "?"
	}
	if base != "v" {
		if fv.Embedded() {
			return base
		}
		return base + "." + l.fieldName(fv)
	}
	if !l.state(fv) && !l.holdsState(fv.Type()) {
		return l.field(fa, fa.X)
	}
	return l.stateAt(ld, fv, 0)
}

// stateAt: the visitor's state when an instruction runs: as it was on entry, or as stored since.
func (l *lines) stateAt(at ssa.Instruction, fv *types.Var, d int) string {
	whole := l.holdsState(fv.Type())
	now := "now." + l.fieldName(fv)
	if whole {
		now = "v"
	}
	reach, dom := 0, (*ssa.Store)(nil)
	for _, st := range l.stateStores(fv) {
		if st.Parent() == at.Parent() && eng.CanReach(st, at) {
			reach++
			if eng.Dominates(st, at) {
				dom = st
			}
		}
	}
	switch {
	case l.changedBefore(at, fv):
		return now
	case reach == 1 && dom != nil && !whole:
		return l.term(dom.Val)
	case reach > 0:
		return now
	case at.Parent() == l.visit:
		if whole {
			return "prev"
		}
		return "prev." + l.fieldName(fv)
	case d > 4:
		return now
	}
	// as it is where the helper is called
	res := ""
	for _, ci := range l.W.Callers(at.Parent()) {
		t := l.stateAt(ci.(ssa.Instruction), fv, d+1)
		if res != "" && res != t {
			return now
		}
		res = t
	}
	if res == "" {
		return now
	}
	return res
}

func (l *lines) fieldName(fv *types.Var) string {
	switch fv {
	case l.curFile:
		return "curFile"
	case l.curLine:
		return "curLine"
	case l.adjFile:
		return "adjFile"
	case l.adjLine:
		return "adjLine"
	}
	return fv.Name()
}

// holdsState: a structure of the package whose fields are the state.
func (l *lines) holdsState(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || strip(n.Obj().Pkg().Path()) != linePkg {
		return false
	}
	for _, f := range structFields(n) {
		if !l.state(f) {
			return false
		}
	}
	return len(structFields(n)) > 0
}

// stateStores: stores to a field of the visitor itself (not to copies of its state).
func (l *lines) stateStores(fv *types.Var) []*ssa.Store {
	var res []*ssa.Store
	instrs(l.region, func(_ *ssa.Function, in ssa.Instruction) {
		if l.isStateStore(in, fv) {
			res = append(res, in.(*ssa.Store))
		}
	})
	return res
}

func (l *lines) isStateStore(in ssa.Instruction, fv *types.Var) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	if f2 := eng.FieldVar(fa); f2 != fv && !(l.holdsState(fv.Type()) && l.state(f2)) {
		return false
	}
	return l.baseOf(fa.X) == "v"
}

func (l *lines) baseOf(v ssa.Value) string {
	if al, ok := v.(*ssa.Alloc); ok {
		return "local " + al.Name()
	}
	if fa, ok := v.(*ssa.FieldAddr); ok && eng.FieldVar(fa).Embedded() {
		return l.baseOf(fa.X)
	}
	return l.term(v)
}

// changedBefore: a helper called before may have changed the field.
func (l *lines) changedBefore(ld ssa.Instruction, fv *types.Var) bool {
	for _, ci := range eng.Calls(ld.Parent()) {
		g := ci.Common().StaticCallee()
		if g == nil || eng.Rel(g) != linePkg || g == l.visit || ci == ld || !eng.CanReach(ci.(ssa.Instruction), ld) {
			continue
		}
		for _, h := range l.Region(g) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if l.isStateStore(in, fv) {
						return true
					}
				}
			}
		}
	}
	return false
}

// roles finds the visitor, and what its fields hold.
func (l *lines) roles(r *R) bool {
	l.busy = map[ssa.Value]bool{}
	ann := r.Fn(linePkg, "AnnotateMovedNodes")
	if ann == nil {
		return false
	}
	for _, f := range l.Region(ann) {
		for _, ci := range l.W.CallsTo([]*ssa.Function{f}, "go/ast.Walk") {
			if n := l.concrete(ci.Common().Args[0]); n != nil {
				l.visit = l.method(n, "Visit")
			}
		}
	}
	if l.visit == nil {
		r.Bad("visitor", l.W.Pos(ann.Pos()), "no visitor of the restored file found")
		return false
	}
	l.region = l.Region(l.visit)
	for _, f := range l.region {
		if f == l.visit || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.String]) {
			continue
		}
		l.dirFunc = f.Name()
	}
	if l.dirFunc == "" {
		r.Bad("directive", l.W.Pos(l.visit.Pos()), "no function builds the directives")
		return false
	}
	// which field is which
	count := map[*types.Var]int{}
	instrs(l.region, func(f *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !l.state(eng.FieldVar(fa)) || l.baseOf(fa.X) != "v" {
			return
		}
		fv := eng.FieldVar(fa)
		set := func(p **types.Var) {
			if *p != nil && *p != fv {
				r.Bad("state", l.W.At(in), "two fields hold the same part of a position")
			}
			*p = fv
		}
		count[fv]++
		switch t := l.term(st.Val); {
		case t == lnCur+".Filename":
			set(&l.curFile)
		case t == lnCur+".Line":
			set(&l.curLine)
		case t == lnAdj+".Filename":
			set(&l.adjFile)
		case t == lnAdj+".Line":
			set(&l.adjLine)
		default:
			if s, ok := eng.ConstString(st.Val); ok && strings.HasPrefix(s, "<") {
				l.generated = s
				break
			}
			if n, ok := eng.ConstInt(st.Val); ok && n == 1 {
				break
			}
			r.Bad("state "+fv.Name(), l.W.At(in), "set to something that is neither the current nor the original position of the node (%s)", t)
		}
	})
	ok := l.curFile != nil && l.curLine != nil && l.adjFile != nil && l.adjLine != nil
	return r.Check(ok && l.generated == "<generated>", "state", l.W.Pos(l.visit.Pos()), "the visitor does not record the current and the original file and line of each node")
}

// concrete: the module type an interface value holds.
func (l *lines) concrete(v ssa.Value) *types.Named {
	v = eng.ResolveLocal(v)
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		v = ld.X
	}
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	return eng.NamedOf(eng.Deref(mi.X.Type()))
}

func (l *lines) is(t string) func(ssa.Value) bool {
	return func(v ssa.Value) bool { return l.term(v) == t }
}

// linear adds the terms of an integer expression.
func (l *lines) linear(v ssa.Value, k int, m map[string]int) {
	v = eng.ResolveLocal(v)
	if bo, ok := v.(*ssa.BinOp); ok {
		switch bo.Op {
		case token.ADD:
			l.linear(bo.X, k, m)
			l.linear(bo.Y, k, m)
			return
		case token.SUB:
			l.linear(bo.X, k, m)
			l.linear(bo.Y, -k, m)
			return
		}
	}
	if p, ok := v.(*ssa.Parameter); ok && p.Parent() != l.visit {
		cs := l.W.Callers(p.Parent())
		if len(cs) == 1 {
			for i, q := range p.Parent().Params {
				if a := eng.ArgOf(cs[0], i); q == p && a != nil {
					l.linear(a, k, m)
					return
				}
			}
		}
	}
	if n, ok := eng.ConstInt(v); ok {
		m["1"] += k * int(n)
		return
	}
	m[l.term(v)] += k
}

// sameOffset: the literal says that the node is as far from the previous position in the original as in the woven file.
func (l *lines) sameOffset(lit eng.Lit) bool {
	bo, ok := lit.V.(*ssa.BinOp)
	if !ok || !(bo.Op == token.EQL && lit.Pol || bo.Op == token.NEQ && !lit.Pol) {
		return false
	}
	m := map[string]int{}
	l.linear(bo.X, 1, m)
	l.linear(bo.Y, -1, m)
	for k, n := range m {
		if n == 0 {
			delete(m, k)
		}
	}
	want := map[string]int{lnAdj + ".Line": 1, "prev.adjLine": -1, lnCur + ".Line": -1, "prev.curLine": 1}
	if len(m) != len(want) {
		return false
	}
	sign := m[lnAdj+".Line"]
	for k, n := range want {
		if m[k] != n*sign || sign == 0 {
			return false
		}
	}
	return true
}

type litp = func(eng.Lit) bool

func (l *lines) nilTerm(t string) litp {
	return func(lit eng.Lit) bool {
		if nilLit(lit, l.is(t)) == "nil" {
			return true
		}
		// a failed lookup
		if ex, ok := lit.V.(*ssa.Extract); ok && ex.Index == 1 && !lit.Pol {
			if lk, ok := ex.Tuple.(*ssa.Lookup); ok {
				return l.term(lk) == t
			}
		}
		return false
	}
}

func (l *lines) eq(a, b func(ssa.Value) bool, want int) litp {
	return func(lit eng.Lit) bool { return cmpLit(lit, a, b) == want }
}

func (l *lines) visits(r, rPlaced *R) {
	w, v := l.W, l.visit
	empty := isStr("")
	isZero := func(v ssa.Value) bool { n, ok := eng.ConstInt(v); return ok && n == 0 }
	isGen := isStr(l.generated)
	adjName, adjLn := l.is(lnAdj+".Filename"), l.is(lnAdj+".Line")
	prevFile := l.is("prev.adjFile")

	nodeNil, dstNil, orgNil := l.nilTerm("node"), l.nilTerm(lnDst), l.nilTerm(lnOrg)
	noOrigin := anyLit(l.eq(adjName, empty, 1), func(lit eng.Lit) bool { return emptyLit(lit, adjName) == "empty" }, orgNil)
	hasOrigin := anyLit(l.eq(adjName, empty, -1), func(lit eng.Lit) bool { return emptyLit(lit, adjName) == "nonempty" })
	isIdent := func(lit eng.Lit) bool {
		ex, ok := lit.V.(*ssa.Extract)
		if !ok || ex.Index != 1 || !lit.Pol {
			return false
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		return ok && strings.HasSuffix(ta.AssertedType.String(), "dave/dst.Ident") && l.term(ta.X) == lnDst
	}
	noLine := anyLit(l.eq(adjLn, isZero, 1), func(lit eng.Lit) bool { return countCmp(lit, adjLn) == "empty" })
	wasGen := l.eq(prevFile, isGen, 1)
	sameCur := l.eq(l.is("prev.curFile"), l.is(lnCur+".Filename"), 1)
	sameAdj := l.eq(prevFile, adjName, 1)

	imp := func(p litp) litp { return func(lit eng.Lit) bool { return w.Implies(lit, p) } }
	virtual := []litp{isIdent, noLine}
	gen := []litp{noOrigin, wasGen}
	sync := []litp{l.sameOffset, sameCur, sameAdj}
	base := anyLit(nodeNil, dstNil)

	isAppend := func(ci ssa.CallInstruction, at string, dirOf ...string) bool {
		o := eng.CalleeObj(ci)
		if o == nil || o.Name() != at || !strings.HasPrefix(eng.Key(ci), "github.com/dave/dst.Decorations.") {
			return false
		}
		if l.term(ci.Common().Args[0]) != "Decorations("+lnDst+").Start" {
			return false
		}
		args := eng.VarArgs(ci.Common().Args[1])
		if len(args) != 1 {
			return false
		}
		t := l.term(args[0])
		for _, d := range dirOf {
			if t == d || strings.HasPrefix(t, "directive("+d+",") || t == "directive("+d+")" {
				return true
			}
		}
		return false
	}
	var sites []ssa.CallInstruction
	appended := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && isAppend(ci, "Append", "v", "now")
	}
	instrs(l.region, func(_ *ssa.Function, in ssa.Instruction) {
		if appended(in) {
			sites = append(sites, in.(ssa.CallInstruction))
		}
	})
	r.Check(len(sites) > 0, "directives", w.Pos(v.Pos()), "no directive is ever attached to the node visited")

	// every path attaches a directive, or has an excuse
	spaced := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || eng.FieldVar(fa).Name() != "Before" || l.term(fa.X) != "Decorations("+lnDst+")" {
			return false
		}
		n, ok := eng.ConstInt(st.Val)
		return ok && n > 0
	}
	isBefore := func(v ssa.Value) bool {
		v = eng.Unwrap(eng.ResolveLocal(v))
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		return ok && eng.FieldVar(fa).Name() == "Before" && l.term(fa.X) == "Decorations("+lnDst+")"
	}
	alone := anyLit(l.eq(isBefore, isZero, -1), func(lit eng.Lit) bool { return countCmp(lit, isBefore) == "nonempty" })
	for i, vi := range virtual {
		for j, g := range gen {
			for k, s := range sync {
				any := anyLit(base, vi, g, s)
				skip := imp(any)
				name := fmt.Sprintf("excuse %d%d%d", i, j, k)
				l.mustDo(r, name, v, appended, nil, skip, "a node can be left without directive although it is not where the previous one puts it")
				l.mustDo(r, "own line, "+name, v, spaced, nil, imp(anyLit(any, alone)), "a directive can be attached to a node without starting a line")
			}
		}
	}
	// what is recorded
	stores := func(fv *types.Var, ok func(ssa.Value) bool) eng.Event {
		return func(in ssa.Instruction) bool {
			return l.isStateStore(in, fv) && (ok == nil || ok(in.(*ssa.Store).Val))
		}
	}
	l.mustDo(r, "current file", v, stores(l.curFile, nil), nil, imp(base), "the current file is not recorded")
	l.mustDo(r, "current line", v, stores(l.curLine, nil), nil, imp(base), "the current line is not recorded")
	for i, vi := range virtual {
		skip := imp(anyLit(base, vi))
		l.mustDo(r, fmt.Sprintf("original file %d", i), v, stores(l.adjFile, nil), nil, skip, "the original file is not recorded")
		l.mustDo(r, fmt.Sprintf("original line %d", i), v, stores(l.adjLine, nil), nil, skip, "the original line is not recorded")
	}
	for _, fv := range []*types.Var{l.curFile, l.curLine, l.adjFile, l.adjLine} {
		for _, st := range l.stateStores(fv) {
			t := l.term(st.Val)
			_, isC := eng.Unwrap(st.Val).(*ssa.Const)
			switch {
			case fv == l.curFile || fv == l.curLine:
				want := map[bool]string{true: ".Filename", false: ".Line"}[fv == l.curFile]
				r.Check(t == lnCur+want, "recorded "+l.fieldName(fv), w.At(st), "the current position recorded is not that of the node")
			case isC:
				ok := w.MustHold(st, noOrigin)
				r.Check(ok, "generated "+l.fieldName(fv), w.At(st), "a node with an original position is taken for a generated one")
			default:
				ok := w.MustHold(st, hasOrigin)
				r.Check(ok, "original "+l.fieldName(fv), w.At(st), "a node without original position is not taken for a generated one")
			}
		}
	}
	for _, ci := range sites {
		in := ci.(ssa.Instruction)
		for _, fv := range []*types.Var{l.adjFile, l.adjLine} {
			ok, _ := w.MustPrecede(in, stores(fv, nil), nil)
			r.Check(ok, "directive's "+l.fieldName(fv), w.At(in), "the directive is made before the position of the node is known")
		}
	}
	// the original position is looked for
	if al, st := l.adjCell(); al != nil {
		got := func(in ssa.Instruction) bool { return in == ssa.Instruction(st) }
		l.mustDo(r, "original position", v, got, nil, imp(anyLit(base, orgNil)), "the original position of a node is not looked for")
	}
	// previous position: as it was, or the start of the file
	first := anyLit(l.eq(prevFile, empty, 1), func(lit eng.Lit) bool { return emptyLit(lit, prevFile) == "empty" })
	notFirst := anyLit(l.eq(prevFile, empty, -1), func(lit eng.Lit) bool { return emptyLit(lit, prevFile) == "nonempty" })
	n := 0
	instrs(l.region, func(f *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok || !l.state(eng.FieldVar(fa)) || l.baseOf(fa.X) == "v" || l.term(fa.X) != "prev" {
			return
		}
		n++
		t := l.term(st.Val)
		fv := eng.FieldVar(fa)
		want := t == "1"
		if fv == l.curFile || fv == l.adjFile {
			want = t == lnCur+".Filename"
		}
		r.Check(want && w.MustHold(st, first), "start "+l.fieldName(fv), w.At(st), "the previous position is changed other than to the first line of the file, at its start")
	})
	for _, fv := range []*types.Var{l.curFile, l.curLine, l.adjFile, l.adjLine} {
		set := func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && eng.FieldVar(fa) == fv && l.baseOf(fa.X) != "v" && l.term(fa.X) == "prev"
		}
		l.mustDo(r, "start "+l.fieldName(fv)+" set", v, set, nil, imp(anyLit(base, notFirst)), "the directive at the start of the file is not what the first nodes are compared with")
	}
	prepended := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && isAppend(ci, "Prepend", "prev", `"//line "`)
	}
	l.mustDo(r, "start of file", v, prepended, nil, imp(anyLit(base, notFirst)), "no directive at the start of the file")
	r.Check(n >= 4, "start", w.Pos(v.Pos()), "the start of the file is not recorded")

	// statements after which no new line may be printed
	placed := len(sites) > 0
	for _, ci := range sites {
		in := ci.(ssa.Instruction)
		hoists := func(lit eng.Lit) bool {
			ex, ok := lit.V.(*ssa.Extract)
			if !ok || ex.Index != 1 {
				return false
			}
			ta, ok := ex.Tuple.(*ssa.TypeAssert)
			return ok && strings.HasSuffix(ta.AssertedType.String(), ".ReturnStmt")
		}
		placed = placed && w.MustHold(in, hoists)
	}
	rPlaced.Check(placed, "return statements", w.Pos(v.Pos()), "a directive can be attached to the first result of a return statement, which must start on the line of the keyword: it is printed within that line, where it has no effect")
}

// adjCell: the variable holding the original position.
func (l *lines) adjCell() (*ssa.Alloc, *ssa.Store) {
	var al *ssa.Alloc
	var st *ssa.Store
	instrs(l.region, func(_ *ssa.Function, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok || l.term(s.Val) != lnAdj {
			return
		}
		if a, ok := s.Addr.(*ssa.Alloc); ok && s.Parent() == l.visit {
			al, st = a, s
		}
	})
	return al, st
}

// directive: what a directive says, for the kinds of lines there are.
func (l *lines) directive(r *R) {
	w := l.W
	var f *ssa.Function
	for _, g := range l.region {
		if g.Name() == l.dirFunc {
			f = g
		}
	}
	instrs(l.Region(f), func(_ *ssa.Function, in ssa.Instruction) {
		if cv, ok := in.(*ssa.Convert); ok {
			r.Check(eng.IsLossless(cv.X.Type(), cv.Type()), "conversion", w.At(in), "part of the line number is lost")
		}
	})
	type tc struct {
		line  int64
		start bool
		want  string
	}
	for _, t := range []tc{{0, false, "//line F"}, {1, false, "//line F:1"}, {1, true, "//line F:1:1"}, {2, false, "//line F:2"}, {2, true, "//line F:2"}, {137, false, "//line F:137"}} {
		ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
			switch {
			case isFieldVal(v, l.adjFile):
				return eng.AStr("F"), true
			case isFieldVal(v, l.adjLine):
				return eng.AInt(t.line), true
			}
			return eng.AV{}, false
		}}
		ex.Model = func(call *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
			switch eng.Key(call) {
			case "strconv.FormatInt":
				if n, ok := eval(call.Call.Args[0]).Int(); ok {
					if b, ok := eval(call.Call.Args[1]).Int(); ok && b == 10 {
						return eng.AStr(fmt.Sprint(n)), true
					}
				}
			case "strconv.Itoa":
				if n, ok := eval(call.Call.Args[0]).Int(); ok {
					return eng.AStr(fmt.Sprint(n)), true
				}
			case "bytes.Buffer.String", "strings.Builder.String":
				return eng.AStr("\x00text"), true
			}
			return eng.AV{}, false
		}
		text, bad := "", false
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			call, ok := in.(*ssa.Call)
			if !ok {
				return false
			}
			switch eng.Key(call) {
			case "bytes.Buffer.WriteString", "strings.Builder.WriteString":
				s, ok := avStr(eval(call.Call.Args[1]))
				text += s
				bad = bad || !ok
			case "bytes.Buffer.WriteByte", "strings.Builder.WriteByte", "bytes.Buffer.WriteRune", "strings.Builder.WriteRune":
				n, ok := eval(call.Call.Args[1]).Int()
				text += string(rune(n))
				bad = bad || !ok
			case "bytes.Buffer.Write", "fmt.Fprintf", "fmt.Fprint", "bytes.Buffer.Reset", "bytes.Buffer.Truncate":
				bad = true
			}
			return false
		}
		outs := ex.Run(f, eng.ANonNilV(), eng.ABool(t.start))
		ok := len(outs) == 1 && !outs[0].Panics && !bad
		if ok {
			got, isC := avStr(outs[0].Rets[0])
			if got == "\x00text" {
				got = text
			}
			ok = isC
			ok = ok && got == t.want
		}
		r.Check(ok, fmt.Sprintf("line %d start %v", t.line, t.start), w.Pos(f.Pos()), "the directive for line %d of F (start of file: %v) is not %q", t.line, t.start, t.want)
	}
}

func avStr(a eng.AV) (string, bool) {
	if a.K != eng.AConst {
		return "", false
	}
	return eng.ConstAV(a)
}

const restoreKey = "github.com/dave/dst/decorator.FileRestorer.RestoreFile"

// annotated: what happens between weaving a file and writing it.
func (l *lines) annotated(r, rText *R) {
	w := l.W
	inj := r.Fn(injPkg, "Injector.InjectFiles")
	ann := r.Fn(linePkg, "AnnotateMovedNodes")
	mk := r.Fn(injPkg, "Injector.newRestorer")
	if inj == nil || ann == nil || mk == nil {
		return
	}
	region := l.Region(inj)
	isAnn := func(ci ssa.CallInstruction) bool { return ci.Common().StaticCallee() == ann }
	var anns []ssa.CallInstruction
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			if isAnn(ci) {
				anns = append(anns, ci)
			}
		}
	}
	same := func(a, b ssa.Value) bool {
		a, b = l.rootParam(a), l.rootParam(b)
		return a == b || eng.SameLoad(a, b)
	}
	n := 0
	for _, ci := range w.CallsTo(region, restoreKey) {
		n++
		rest := ci.(*ssa.Call)
		at := w.At(rest)
		file := rest.Call.Args[1]
		var by ssa.CallInstruction
		for _, a := range anns {
			if same(a.Common().Args[1], file) {
				by = a
			}
		}
		if !r.Check(by != nil, "annotated", at, "the file printed is not annotated") {
			continue
		}
		before, _ := w.MustPrecede(rest, w.CallEvent(func(x ssa.CallInstruction) bool { return x == by }), nil)
		ok := before && !l.ranAfterFailure(by, rest)
		r.Check(ok, "annotated before", at, "a file can be printed without having been annotated")
		// nothing changes it in between
		for _, x := range eng.Calls(rest.Parent()) {
			xi := x.(ssa.Instruction)
			if x == ssa.CallInstruction(rest) || x == by || eng.CanReach(xi, rest) == false {
				continue
			}
			takes := false
			for _, a := range x.Common().Args {
				takes = takes || same(a, file)
				if mi, ok := eng.Unwrap(a).(*ssa.MakeInterface); ok {
					takes = takes || same(mi.X, file)
				}
			}
			if !takes || l.leadsTo(x, ann) {
				continue
			}
			after := true
			if by.Parent() == x.Parent() {
				after = eng.CanReach(by.(ssa.Instruction), xi)
			} else {
				// the annotation is made by a helper called here
				after = false
				for _, y := range eng.Calls(x.Parent()) {
					after = after || l.leadsTo(y, ann) && eng.CanReach(y.(ssa.Instruction), xi)
				}
			}
			r.Check(!after, "changed after "+calleeShort(x), w.At(xi), "the file may be changed after it was annotated")
		}
		// measured with the same kind of restorer
		r.Check(l.derivesFunc(rest.Call.Args[0], mk), "restorer", at, "the file is not printed with the restorer used to measure it")
		r.Check(l.isFuncValue(by.Common().Args[2], mk), "measuring restorer", w.At(by.(ssa.Instruction)), "the file is not measured with the restorer used to print it")
		r.Check(l.isDecorator(by.Common().Args[0]), "decorator", w.At(by.(ssa.Instruction)), "the original positions are not those of the decorator of the file")

		// printed
		m := 0
		for _, p := range w.CallsTo(region, "go/format.Node") {
			call := p.(*ssa.Call)
			if !l.derives(call.Call.Args[2], func(v ssa.Value) bool { return callOf(v) == rest }) {
				continue
			}
			m++
			r.Check(l.derivesFunc(call.Call.Args[1], mk), "printed with", w.At(call), "the file is printed with the positions of another one")
			l.written(rText, call, region)
		}
		r.Check(m == 1, "printed", at, "the file restored is not printed with go/format")
	}
	r.Check(n > 0, "restored", w.Pos(inj.Pos()), "no woven file is restored")
	// restorers are named after the file
	named := 0
	instrs(l.Region(mk), func(_ *ssa.Function, in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if ok && eng.FieldVar(fa).Name() == "Name" && strings.HasSuffix(eng.Deref(fa.X.Type()).String(), "decorator.FileRestorer") {
			named++
			r.Check(l.rootParam(st.Val) == ssa.Value(mk.Params[len(mk.Params)-1]), "restorer's name", w.At(in), "the restorer is not given the name of the file")
		}
	})
	r.Check(named > 0, "restorer named", w.Pos(mk.Pos()), "the restorer is not given the name of the file")
}

// rootParam follows parameters of helpers with one caller to what they are given.
func (l *lines) rootParam(v ssa.Value) ssa.Value {
	for i := 0; i < 6; i++ {
		v = eng.Unwrap(eng.ResolveLocal(v))
		if l.text != nil && v == l.text {
			return v
		}
		p, ok := v.(*ssa.Parameter)
		if !ok {
			return v
		}
		cs := l.W.Callers(p.Parent())
		if len(cs) != 1 {
			return v
		}
		next := v
		for j, q := range p.Parent().Params {
			if a := eng.ArgOf(cs[0], j); q == p && a != nil {
				next = a
			}
		}
		if next == v || eng.PkgOf(cs[0].Parent()) != eng.PkgOf(p.Parent()) {
			return v
		}
		v = next
	}
	return v
}

// leadsTo: the call is (or runs) the function.
func (l *lines) leadsTo(ci ssa.CallInstruction, f *ssa.Function) bool {
	g := ci.Common().StaticCallee()
	return g != nil && (g == f || l.W.Reachable(g)[f])
}

// ranAfterFailure: in can run although the call failed.
func (l *lines) ranAfterFailure(ci ssa.CallInstruction, in ssa.Instruction) bool {
	if ci.Parent() == in.Parent() {
		return !l.W.MustHold(in, l.succeeded(ci))
	}
	// the helper making the call reports its failure, and is obeyed
	if !l.reportsFailure(ci) {
		return true
	}
	for _, x := range eng.Calls(in.Parent()) {
		if call, ok := x.(*ssa.Call); ok && l.leadsTo(x, ci.Parent()) || ok && call.Call.StaticCallee() == ci.Parent() {
			return !l.W.MustHold(in, l.succeeded(x))
		}
	}
	return true
}

func (l *lines) reportsFailure(ci ssa.CallInstruction) bool {
	fate, _ := l.W.Fate(ci)
	return fate == eng.ErrPropagated
}

// derivesFunc: v was made with the given constructor.
func (l *lines) derivesFunc(v ssa.Value, mk *ssa.Function) bool {
	return l.derives(v, func(o ssa.Value) bool {
		call := callOf(o)
		return call != nil && call.Call.StaticCallee() == mk
	})
}

// isFuncValue: v is the given method, bound.
func (l *lines) isFuncValue(v ssa.Value, mk *ssa.Function) bool {
	for _, f := range l.funcsOf(v) {
		if f == mk || f.Object() != nil && f.Object() == mk.Object() {
			return true
		}
		for _, ci := range eng.Calls(f) {
			if ci.Common().StaticCallee() == mk {
				return true
			}
		}
	}
	return false
}

// isDecorator: the decorator the file was made with.
func (l *lines) isDecorator(v ssa.Value) bool {
	return strings.HasSuffix(eng.Deref(v.Type()).String(), "decorator.Decorator")
}

// written: the text printed is what is written, less the indentation of directives.
func (l *lines) written(r *R, printed *ssa.Call, region []*ssa.Function) {
	w := l.W
	isBytes := func(v ssa.Value) bool {
		call := callOf(v)
		return call != nil && eng.Key(call) == "bytes.Buffer.Bytes" && (l.rootParam(call.Call.Args[0]) == l.rootParam(printed.Call.Args[0]) || l.samePrinted(call.Call.Args[0], printed.Call.Args[0]))
	}
	var post *ssa.Function
	n := 0
	for _, ci := range w.CallsTo(region, "os.WriteFile") {
		raw, done := false, false
		w.Origins(ci.Common().Args[1], func(v ssa.Value) eng.Step {
			call, ok := v.(*ssa.Call)
			if !ok {
				return eng.Follow
			}
			if g := call.Call.StaticCallee(); g != nil && eng.Rel(g) == injPkg && len(call.Call.Args) > 0 && isBytes(l.rootParam(call.Call.Args[0])) {
				post, done = g, true
				return eng.Stop
			}
			if eng.Key(call) == "bytes.Buffer.Bytes" {
				raw = true
				return eng.Stop
			}
			return eng.Follow
		})
		if done && !raw {
			n++
		}
	}
	if !r.Check(n == 1, "post-processed", w.At(printed), "the text printed is not written with its directives at the start of their lines") {
		return
	}
	// when printing fails, nothing is written
	for _, ci := range w.CallsTo(region, "os.WriteFile") {
		if ci.Parent() == printed.Parent() {
			r.Check(w.MustHold(ci.(ssa.Instruction), l.succeeded(printed)), "printed first", w.At(ci.(ssa.Instruction)), "a file that could not be printed is written")
		}
	}
	l.unindented(r, post)
}

func (l *lines) samePrinted(a, b ssa.Value) bool {
	mi, ok := eng.Unwrap(eng.ResolveLocal(b)).(*ssa.MakeInterface)
	if !ok {
		return eng.Unwrap(b) == eng.Unwrap(a)
	}
	return mi.X == a
}

// unindented: the function returns its argument less white space before line directives.
func (l *lines) unindented(r *R, post *ssa.Function) {
	w := l.W
	region := l.Region(post)
	src := post.Params[0]
	l.text = src
	defer func() { l.text = nil }()
	isSrc := func(v ssa.Value) bool { return l.paramRoot(v) == ssa.Value(src) }
	// the tokens of the text
	scans := w.CallsTo(region, "go/scanner.Scanner.Scan")
	if !r.Check(len(scans) == 1, "scanner", w.Pos(post.Pos()), "the text is not read with the scanner of the language: what is in a literal cannot be told from a comment") {
		return
	}
	for _, ci := range w.CallsTo(region, "go/scanner.Scanner.Init") {
		a := ci.Common().Args
		mode, _ := eng.ConstInt(a[len(a)-1])
		r.Check(isSrc(a[2]) && mode&1 == 1, "comments", w.At(ci.(ssa.Instruction)), "the comments of the text are not looked at")
	}
	scan := scans[0].(*ssa.Call)
	part := func(i int) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			v = l.paramRoot(v)
			ex, ok := v.(*ssa.Extract)
			return ok && ex.Tuple == ssa.Value(scan) && ex.Index == i
		}
	}
	isOffset := func(v ssa.Value) bool {
		call := callOf(l.paramRoot(v))
		return call != nil && eng.Key(call) == "go/token.File.Offset" && part(0)(call.Call.Args[1])
	}
	isComment := func(v ssa.Value) bool { n, ok := eng.ConstInt(v); return ok && n == int64(token.COMMENT) }
	isEOF := func(v ssa.Value) bool { n, ok := eng.ConstInt(v); return ok && n == int64(token.EOF) }
	comment := l.eq(part(1), isComment, 1)
	directive := func(lit eng.Lit) bool {
		call, ok := lit.V.(*ssa.Call)
		return ok && lit.Pol && eng.Key(call) == "strings.HasPrefix" && part(2)(call.Call.Args[0]) && isStr("//line ")(call.Call.Args[1])
	}
	not := func(p litp) litp { return func(lit eng.Lit) bool { return p(eng.Lit{V: lit.V, Pol: !lit.Pol}) } }
	// bytes right before an index
	byteBefore := func(v ssa.Value) ssa.Value {
		ld, ok := eng.Unwrap(v).(*ssa.UnOp)
		if !ok {
			return nil
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok || !isSrc(ia.X) {
			return nil
		}
		bo, ok := ia.Index.(*ssa.BinOp)
		if !ok || bo.Op != token.SUB {
			return nil
		}
		if n, ok := eng.ConstInt(bo.Y); !ok || n != 1 {
			return nil
		}
		return bo.X
	}
	before := func(idx func(ssa.Value) bool, bytes string) func(lit eng.Lit, want int) bool {
		return func(lit eng.Lit, want int) bool {
			return cmpLit(lit, func(v ssa.Value) bool { i := byteBefore(v); return i != nil && idx(i) }, func(v ssa.Value) bool {
				n, ok := eng.ConstInt(v)
				return ok && strings.IndexByte(bytes, byte(n)) >= 0
			}) == want
		}
	}
	// start: moves backwards from the comment over white space only
	isStart := func(v ssa.Value) bool {
		phi, ok := l.valueOf(v).(*ssa.Phi)
		if !ok {
			return false
		}
		from, steps := false, 0
		for i, e := range phi.Edges {
			if isOffset(e) {
				from = true
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.SUB || bo.X != ssa.Value(phi) {
				return false
			}
			if n, ok := eng.ConstInt(bo.Y); !ok || n != 1 {
				return false
			}
			steps++
			white := before(func(x ssa.Value) bool { return x == ssa.Value(phi) }, " \t")
			p := phi.Block().Preds[i]
			if !w.MustHold(p.Instrs[len(p.Instrs)-1], func(lit eng.Lit) bool { return white(lit, 1) }) {
				return false
			}
		}
		return from && steps > 0
	}
	isLow := func(v ssa.Value) bool { // where the text kept resumes
		var walk func(v ssa.Value, d int) bool
		seen := map[ssa.Value]bool{}
		walk = func(v ssa.Value, d int) bool {
			if v == nil || seen[v] {
				return true
			}
			seen[v] = true
			if n, ok := eng.ConstInt(v); ok {
				return n == 0
			}
			if phi, ok := v.(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					if !walk(e, d+1) {
						return false
					}
				}
				return true
			}
			return isOffset(v)
		}
		return walk(v, 0)
	}
	cuts := 0
	instrs(region, func(f *ssa.Function, in ssa.Instruction) {
		sl, ok := in.(*ssa.Slice)
		if !ok || !isSrc(sl.X) {
			return
		}
		at := w.At(in)
		r.Check(isLow(sl.Low), "kept from", at, "text other than the indentation of a directive is dropped")
		if sl.High == nil {
			return
		}
		cuts++
		ok = isStart(sl.High)
		r.Check(ok, "kept until", at, "what is removed before a directive is not white space only")
		r.Check(w.MustHold(in, comment) && w.MustHold(in, directive), "removed", at, "white space is removed elsewhere than before a //line comment")
		nl := before(isStart, "\n")
		r.Check(w.MustHold(in, func(lit eng.Lit) bool {
			return nl(lit, 1) || countCmp(lit, isStart) == "empty"
		}), "own line", at, "white space is removed before a comment that does not start its line")
	})
	r.Check(cuts > 0, "removal", w.Pos(post.Pos()), "the indentation of directives is not removed")
	// every directive is handled
	loop := eng.InnermostLoop(scan.Block())
	if loop == nil {
		r.Bad("all tokens", w.Pos(post.Pos()), "not every comment is looked at")
		return
	}
	cut := func(in ssa.Instruction) bool {
		sl, ok := in.(*ssa.Slice)
		return ok && sl.High != nil && isSrc(sl.X)
	}
	nl := before(isStart, "\n")
	none := func(lit eng.Lit) bool { // start == end: nothing to remove; or not at the start of its line
		if bo, ok := lit.V.(*ssa.BinOp); ok && (isStart(bo.X) && isOffset(bo.Y) || isStart(bo.Y) && isOffset(bo.X)) {
			return bo.Op == token.EQL && lit.Pol || bo.Op == token.NEQ && !lit.Pol
		}
		return nl(lit, -1)
	}
	imp := func(p litp) litp { return func(lit eng.Lit) bool { return w.Implies(lit, p) } }
	skip := imp(anyLit(not(comment), l.eq(part(1), isComment, -1), not(directive), none, l.eq(part(1), isEOF, 1)))
	r.Check(loop.Always(w.LiftUnder(cut, skip), skip), "every directive", w.At(scan), "the white space before some directive is kept")
	r.Check(w.EarlyExit(loop, imp(l.eq(part(1), isEOF, 1))) == nil, "whole text", w.At(scan), "the end of the text is not looked at")
	// the pieces are put together in order
	for _, rt := range eng.Returns(post) {
		v := l.rootParam(rt.Results[0])
		ok := isSrc(v)
		if call := callOf(v); call != nil {
			if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" {
				sl, isS := call.Call.Args[1].(*ssa.Slice)
				ok = isS && isSrc(sl.X) && sl.High == nil
			}
		}
		if isSrc(v) {
			// unchanged: only when nothing was removed
			ok = len(eng.Returns(post)) == 1 || w.MustHold(rt, func(lit eng.Lit) bool {
				return cmpLit(lit, isLow, func(v ssa.Value) bool { n, ok := eng.ConstInt(v); return ok && n == 0 }) == 1 || countCmp(lit, isLow) == "empty" || emptyLit(lit, func(ssa.Value) bool { return true }) != ""
			})
		}
		r.Check(ok, "result", w.At(rt), "what is returned is not the text less what is removed")
	}
}

// paramRoot is rootParam, seeing through captured variables.
func (l *lines) paramRoot(v ssa.Value) ssa.Value {
	v = l.rootParam(v)
	if fv, ok := v.(*ssa.FreeVar); ok {
		for _, mc := range l.W.ClosureSites(fv.Parent()) {
			for i, x := range fv.Parent().FreeVars {
				if x == fv && i < len(mc.Bindings) {
					return l.rootParam(mc.Bindings[i])
				}
			}
		}
	}
	return v
}

// valueOf sees through helpers with a single return.
func (l *lines) valueOf(v ssa.Value) ssa.Value {
	v = l.rootParam(v)
	if call, ok := v.(*ssa.Call); ok {
		if g := call.Call.StaticCallee(); g != nil && l.W.InModule(g.Pkg.Pkg) {
			if rs := eng.Returns(g); len(rs) == 1 && len(rs[0].Results) == 1 {
				return l.valueOf(rs[0].Results[0])
			}
		}
	}
	return v
}

// measured: AnnotateMovedNodes.
func (l *lines) measured(r *R) {
	w := l.W
	ann := r.Fn(linePkg, "AnnotateMovedNodes")
	if ann == nil {
		return
	}
	region := l.Region(ann)
	dec, file, mk := ann.Params[0], ann.Params[1], ann.Params[2]
	is := func(v ssa.Value, p *ssa.Parameter) bool {
		v = l.rootParam(v)
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = l.rootParam(mi.X)
		}
		return v == ssa.Value(p)
	}
	rs := w.CallsTo(region, restoreKey)
	if !r.Check(len(rs) == 1, "restored", w.Pos(ann.Pos()), "the file is not restored exactly once to measure it") {
		return
	}
	rest := rs[0].(*ssa.Call)
	at := w.At(rest)
	r.Check(is(rest.Call.Args[1], file), "file measured", at, "another file is measured")
	res := l.rootParam(rest.Call.Args[0])
	made := callOf(res)
	ok := made != nil && !made.Call.IsInvoke() && l.rootParam(made.Call.Value) == ssa.Value(mk)
	if r.Check(ok, "restorer", at, "the file is not measured with the restorer asked for") {
		lk, isL := l.rootParam(made.Call.Args[0]).(*ssa.Lookup)
		named := isL && is(lk.Index, file)
		if named {
			ld, ok := lk.X.(*ssa.UnOp)
			named = ok
			if ok {
				fa, ok := ld.X.(*ssa.FieldAddr)
				named = ok && eng.FieldVar(fa).Name() == "Filenames" && is(fa.X, dec)
			}
		}
		r.Check(named, "restorer's file", w.At(made), "the file measured is not known by its name")
	}
	canon := func(in ssa.Instruction) bool {
		ci := isCall(in, "github.com/dave/dst.Walk")
		return ci != nil && is(ci.Common().Args[1], file) && l.concrete(ci.Common().Args[0]) != nil
	}
	pre, _ := w.MustPrecede(rest, w.LiftEvent(canon), nil)
	r.Check(pre, "canonicalized", at, "the layout of the file is not made canonical before it is measured")
	for _, f := range region {
		for _, ci := range w.CallsTo([]*ssa.Function{f}, "github.com/dave/dst.Walk") {
			if f == rest.Parent() {
				r.Check(!eng.CanReach(rest, ci.(ssa.Instruction)), "canonicalized before", w.At(ci.(ssa.Instruction)), "the layout of the file is changed after it was measured")
			}
		}
	}
	walks := func(in ssa.Instruction) bool {
		ci := isCall(in, "go/ast.Walk")
		return ci != nil && l.derivesIn(ann, ci.Common().Args[1], func(v ssa.Value) bool { return callOf(v) == rest })
	}
	l.mustDo(r, "all nodes", ann, walks, l.succeeding, nil, "it may succeed without having looked at the nodes of the file")
	fate, _ := w.Fate(rest)
	r.Check(fate == eng.ErrPropagated, "failure", at, "a file which could not be measured is not reported")
	// the visitor is given the decorator and the restorer
	for _, ci := range w.CallsTo(region, "go/ast.Walk") {
		n := l.concrete(ci.Common().Args[0])
		if n == nil {
			r.Bad("visitor", w.At(ci.(ssa.Instruction)), "cannot tell what visits the file")
			continue
		}
		for _, fv := range structFields(n) {
			var want ssa.Value
			switch fv.Type().String() {
			case "*github.com/dave/dst/decorator.Decorator":
				want = dec
			case "*github.com/dave/dst/decorator.FileRestorer":
				want = res
			default:
				for _, st := range fieldStores(region, fv) {
					if st.Parent() == ci.Parent() {
						r.Bad("visitor "+fv.Name(), w.At(st), "the visitor starts with something else than the decorator and the restorer")
					}
				}
				continue
			}
			ok := false
			for _, st := range fieldStores(region, fv) {
				ok = l.rootParam(st.Val) == want
				if !ok {
					break
				}
			}
			r.Check(ok, "visitor "+fv.Name(), w.At(ci.(ssa.Instruction)), "the visitor is not given what it finds positions with")
		}
	}
}

// consumes: ConsumeLineDirective and the parser.
func (l *lines) consumes(r *R) {
	w := l.W
	f := r.Fn(parsePkg, "ConsumeLineDirective")
	cut := r.Fn(parsePkg, "cutPositionSuffix")
	if f == nil || cut == nil {
		return
	}
	cuts := map[*ssa.Call]bool{}
	for _, ci := range w.CallsTo(l.Region(f), eng.FKey(cut)) {
		if call, ok := ci.(*ssa.Call); ok {
			cuts[call] = true
		}
	}
	res := func(call *ssa.Call, i int) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			ex, ok := eng.ResolveLocal(v).(*ssa.Extract)
			return ok && ex.Tuple == ssa.Value(call) && ex.Index == i
		}
	}
	isOne := func(v ssa.Value) bool { n, ok := eng.ConstInt(v); return ok && n == 1 }
	none := func(call *ssa.Call) litp {
		return func(lit eng.Lit) bool { return !lit.Pol && res(call, 2)(lit.V) }
	}
	first := func(call *ssa.Call) litp { return anyLit(none(call), l.eq(res(call, 1), isOne, 1)) }
	rewound := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		args := ci.Common().Args
		if len(args) < 2 {
			return false
		}
		a, b := args[len(args)-2], args[len(args)-1]
		x, ok1 := eng.ConstInt(a)
		y, ok2 := eng.ConstInt(b)
		if !ok1 || !ok2 || x != 0 || y != 0 {
			return false
		}
		if ci.Common().IsInvoke() {
			return ci.Common().Method.Name() == "Seek"
		}
		for _, g := range l.funcsOf(ci.Common().Value) {
			for _, y := range eng.Calls(g) {
				if y.Common().IsInvoke() && y.Common().Method.Name() == "Seek" && len(g.Params) >= 2 && y.Common().Args[0] == ssa.Value(g.Params[len(g.Params)-2]) && y.Common().Args[1] == ssa.Value(g.Params[len(g.Params)-1]) {
					return true
				}
			}
		}
		return false
	}
	n := 0
	for _, rt := range eng.Returns(f) {
		if !w.MaySucceed(rt) {
			continue
		}
		v := eng.ResolveLocal(rt.Results[0])
		at := w.At(rt)
		if s, ok := eng.ConstString(v); ok && s == "" {
			ok, _ := w.MustPrecede(rt, rewound, nil)
			r.Check(ok, "not consumed", at, "text which is not a directive for the first line is skipped")
			continue
		}
		n++
		var by *ssa.Call
		c, isConv := v.(*ssa.Convert)
		if isConv {
			for call := range cuts {
				if res(call, 0)(c.X) {
					by = call
				}
			}
		}
		if !r.Check(by != nil, "name", at, "the name returned is not that of the directive") {
			continue
		}
		r.Check(w.MustHold(rt, first(by)), "position", at, "a directive for another line than the first names the file")
		// by cuts the rest of another one, or is cut further
		for call := range cuts {
			if call == by {
				continue
			}
			if res(call, 0)(by.Call.Args[0]) {
				r.Check(w.MustHold(rt, first(call)), "column", at, "a directive for another position than the first names the file")
			} else if res(by, 0)(call.Call.Args[0]) {
				r.Check(w.MustHold(rt, anyLit(none(by), none(call))), "name cut", at, "the name returned still has a position")
			}
		}
	}
	r.Check(n >= 1 && len(cuts) >= 2, "names", w.Pos(f.Pos()), "no name is ever returned, or positions are not told from names")
	// what is taken for a directive
	pre := false
	instrs(l.Region(f), func(g *ssa.Function, in ssa.Instruction) {
		bo, ok := in.(*ssa.BinOp)
		if ok && (isStr("//line ")(bo.X) || isStr("//line ")(bo.Y)) {
			pre = true
		}
	})
	prefix := func(lit eng.Lit) bool {
		return cmpLit(lit, isStr("//line "), func(v ssa.Value) bool { return true }) == 1
	}
	for call := range cuts {
		r.Check(pre && w.MustHold(call, prefix), "prefix", w.At(call), "something else than a //line directive is consumed")
	}
	// its use by the parser
	fRead := l.W.CallsTo(l.FuncsOf(parsePkg), eng.FKey(f))
	r.Check(len(fRead) > 0, "parser", "-", "the parser does not look for directives")
	raw := r.Field(parsePkg, "rawFile", "mappedName")
	content := r.Field(parsePkg, "rawFile", "content")
	if raw == nil || content == nil {
		return
	}
	for _, ci := range fRead {
		call := ci.(*ssa.Call)
		reader := l.openedFile(call.Call.Args[0])
		for _, st := range fieldStores(l.FuncsOf(parsePkg), raw) {
			phi, ok := eng.ResolveLocal(st.Val).(*ssa.Phi)
			given := false
			if ok {
				given = len(phi.Edges) == 2
				for i, e := range phi.Edges {
					p := phi.Block().Preds[i]
					lits := eng.DomLits(p)
					if el, ok := eng.EdgeLit(p, phi.Block()); ok {
						lits = append(lits, el)
					}
					has := func(want string) bool {
						for _, lit := range lits {
							if w.Implies(lit, func(x eng.Lit) bool { return emptyLit(x, res(call, 0)) == want }) {
								return true
							}
						}
						return false
					}
					switch {
					case res(call, 0)(e):
						given = given && has("nonempty")
					default:
						_, isP := eng.ResolveLocal(e).(*ssa.Parameter)
						given = given && isP && has("empty")
					}
				}
			} else {
				given = l.derives(st.Val, func(o ssa.Value) bool { return callOf(o) == call })
			}
			r.Check(given, "mapped name", w.At(st), "the file is not known by the name of its leading directive, or by its own when it has none")
		}
		for _, st := range fieldStores(l.FuncsOf(parsePkg), content) {
			rd := callOf(eng.ResolveLocal(st.Val))
			ok := rd != nil && eng.Key(rd) == "io.ReadAll" && l.openedFile(rd.Call.Args[0]) == reader && eng.Dominates(call, rd)
			r.Check(ok, "content", w.At(st), "the text parsed is not all that follows the leading directive")
		}
	}
	for _, ci := range w.CallsTo(l.FuncsOf(parsePkg), "go/parser.ParseFile") {
		a := ci.Common().Args
		at := w.At(ci.(ssa.Instruction))
		r.Check(isFieldVal(a[1], raw), "parsed as", at, "the file is not parsed under the name it is known by")
		src := a[2]
		if mi, ok := src.(*ssa.MakeInterface); ok {
			src = mi.X
		}
		r.Check(isFieldVal(src, content), "parsed text", at, "the file is not parsed from the text read")
	}
	comments := false
	for _, ci := range w.CallsTo(l.FuncsOf(parsePkg), "go/parser.ParseFile") {
		m, _ := eng.ConstInt(ci.Common().Args[3])
		comments = comments || m&4 != 0 && m&1 == 0
		r.Check(m&4 != 0 || m&1 != 0, "comments", w.At(ci.(ssa.Instruction)), "the comments of a file to weave are dropped")
	}
	r.Check(comments, "full parse", "-", "no file is parsed with its comments")
}

func (l *lines) openedFile(v ssa.Value) ssa.Value {
	v = l.rootParam(v)
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return l.rootParam(mi.X)
	}
	if ci, ok := v.(*ssa.ChangeInterface); ok {
		return l.rootParam(ci.X)
	}
	return v
}

// FuncsOf lists the functions of a package.
func (l *lines) FuncsOf(rel string) []*ssa.Function { return l.W.FuncsIn(rel) }

// effects: what the package may change in the files it is given.
func (l *lines) effects(r *R) {
	w := l.W
	fs := l.W.FuncsIn(linePkg)
	layout := map[string]bool{"Before": true, "After": true, "Start": true, "End": true}
	n := 0
	instrs(fs, func(f *ssa.Function, in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			fv := eng.FieldVar(fa)
			if fv.Pkg() == nil || fv.Pkg().Path() != "github.com/dave/dst" {
				return
			}
			n++
			isL := layout[fv.Name()] && (fv.Type().String() == "github.com/dave/dst.SpaceType" || fv.Type().String() == "github.com/dave/dst.Decorations")
			r.Check(isL, "sets "+fv.Name(), w.At(in), "something else than the layout of the file is changed")
			if isL && fv.Type().String() == "github.com/dave/dst.Decorations" {
				// comments are added only
				call, ok := eng.Unwrap(st.Val).(*ssa.Call)
				ok = ok && call.Call.StaticCallee() == nil
				if ok {
					b, isB := call.Call.Value.(*ssa.Builtin)
					ld, isL := eng.Unwrap(call.Call.Args[0]).(*ssa.UnOp)
					ok = isB && b.Name() == "append" && isL && eng.SameAddr(ld.X, fa)
				}
				r.Check(ok, "keeps comments "+fv.Name(), w.At(in), "comments of the file are replaced")
			}
			return
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok || !strings.HasPrefix(eng.Key(ci), "github.com/dave/dst.Decorations.") {
			return
		}
		n++
		switch eng.CalleeObj(ci).Name() {
		case "Append", "Prepend", "All":
			r.OK("comments "+eng.CalleeObj(ci).Name(), w.At(in))
		default:
			// moved elsewhere first
			fa, _ := ci.Common().Args[0].(*ssa.FieldAddr)
			moved := false
			instrs([]*ssa.Function{f}, func(_ *ssa.Function, x ssa.Instruction) {
				st, ok := x.(*ssa.Store)
				if !ok || fa == nil || !eng.Dominates(x, in) {
					return
				}
				if _, isF := st.Addr.(*ssa.FieldAddr); !isF {
					return
				}
				call, ok := st.Val.(*ssa.Call)
				if !ok || len(call.Call.Args) != 2 {
					return
				}
				ld, ok := eng.Unwrap(call.Call.Args[1]).(*ssa.UnOp)
				if ok && eng.SameAddr(ld.X, fa) {
					moved = true
				}
			})
			r.Check(moved, "comments "+eng.CalleeObj(ci).Name(), w.At(in), "comments of the file are dropped")
		}
	})
	r.Check(n >= 4, "changes", "-", "the package changes nothing")
}
