package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "W01", Technique: "refutation by abstract interpretation: under what makes a prefilter give up, the join point cannot match", Run: runPrefilter})
}

const (
	joinPkg   = "internal/injector/aspect/join"
	mayPkg    = "internal/injector/aspect/may"
	ctxPkg    = "internal/injector/aspect/context"
	typedPkg  = "internal/injector/typed"
	parsePkg  = "internal/injector/parse"
	injPkg    = "internal/injector"
	neverByte = 'N'
)

// hyp is a fact a prefilter relies on to rule a match out.
type hyp struct {
	kind  string // import, self, file, pkgname, testmain, inner, pred, structs
	path  string // of the join point's value concerned, relative to its receiver
	text  []string
	fn    *ssa.Function
	some  bool // holds for some element of the collection the path goes through (all otherwise)
	byTyp string
}

func (h hyp) String() string {
	s := h.kind + "(" + h.path + ")"
	if h.some {
		s = "some " + s
	}
	return s
}

type conj []hyp

// penv resolves parameters of helpers while walking calls.
type penv struct {
	m  map[*ssa.Parameter]ssa.Value
	up *penv
}

// paths: how v selects from the receiver of the method it is evaluated in.
func (c *Ctx) paths(v ssa.Value, recv *ssa.Parameter, e *penv, d int) []string {
	if v == nil || d > 12 {
		return nil
	}
	ext := func(b []string, s string) []string {
		var r []string
		for _, x := range b {
			r = append(r, x+s)
		}
		return r
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if e != nil {
			if a, ok := e.m[x]; ok {
				return c.paths(a, recv, e.up, d+1)
			}
		}
		if x == recv {
			return []string{""}
		}
		if recv == nil || x.Parent() == recv.Parent() {
			return nil
		}
		// a helper's parameter: what its callers within reach pass
		var res []string
		reach := c.W.Reachable(recv.Parent())
		idx := -1
		for i, p := range x.Parent().Params {
			if p == x {
				idx = i
			}
		}
		for _, ci := range c.W.Callers(x.Parent()) {
			if !reach[eng.Root(ci.Parent())] && ci.Parent() != recv.Parent() {
				continue
			}
			if eng.ArgOf(ci, idx) == ssa.Value(x) {
				continue // recursion
			}
			ps := c.paths(eng.ArgOf(ci, idx), recv, nil, d+1)
			if len(ps) == 0 {
				return nil
			}
			res = append(res, ps...)
		}
		return res
	case *ssa.FieldAddr:
		return ext(c.paths(x.X, recv, e, d+1), "."+eng.FieldVar(x).Name())
	case *ssa.Field:
		return ext(c.paths(x.X, recv, e, d+1), "."+x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name())
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return c.paths(x.X, recv, e, d+1)
		}
	case *ssa.IndexAddr:
		return ext(c.paths(x.X, recv, e, d+1), "[]")
	case *ssa.Index:
		return ext(c.paths(x.X, recv, e, d+1), "[]")
	case *ssa.ChangeType:
		return c.paths(x.X, recv, e, d+1)
	case *ssa.Convert:
		return c.paths(x.X, recv, e, d+1)
	case *ssa.ChangeInterface:
		return c.paths(x.X, recv, e, d+1)
	case *ssa.MakeInterface:
		return c.paths(x.X, recv, e, d+1)
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return ext(c.paths(r.X, recv, e, d+1), "[]")
			}
		}
	case *ssa.Alloc:
		var st []*ssa.Store
		for _, r := range useRefs(x) {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				st = append(st, s)
			}
		}
		if len(st) == 1 {
			return c.paths(st[0].Val, recv, e, d+1)
		}
	}
	return nil
}

type prefilter struct {
	c    *Ctx
	recv *ssa.Parameter
	pre  string // path prefix (promoted methods)
	err  string
}

func (p *prefilter) paths(v ssa.Value, e *penv) []string {
	var r []string
	for _, x := range p.c.paths(v, p.recv, e, 0) {
		r = append(r, p.pre+x)
	}
	return r
}

var innerNames = map[string]string{
	"PackageMayMatch": "Matches", "FileMayMatch": "Matches", "packageMayMatch": "evaluate", "fileMayMatch": "evaluate",
	"ImpliesImported": "Matches", "impliesImported": "evaluate",
}

// never lists the sets of facts under which v can be NeverMatch at block b.
func (p *prefilter) never(v ssa.Value, b *ssa.BasicBlock, lits []eng.Lit, e *penv, seen map[ssa.Value]bool) []conj {
	for _, l := range lits {
		if bo, ok := l.V.(*ssa.BinOp); ok && bo.X == v && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			if n, isC := eng.ConstInt(bo.Y); isC && (n == neverByte) != ((bo.Op == token.EQL) == l.Pol) {
				return nil // known to be another answer here
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if n, ok := eng.ConstInt(x); ok && n == neverByte {
			return []conj{p.facts(lits, e, seen)}
		}
		return nil
	case *ssa.Parameter:
		if e != nil {
			if a, ok := e.m[x]; ok {
				return p.never(a, nil, nil, e.up, seen)
			}
		}
	case *ssa.Phi:
		if seen[x] {
			return nil
		}
		seen[x] = true
		defer delete(seen, x)
		var l *eng.Loop
		for _, lp := range eng.Loops(x.Parent()) {
			if lp.Header == x.Block() {
				l = lp
			}
		}
		if l == nil {
			var res []conj
			for i, ed := range x.Edges {
				pr := x.Block().Preds[i]
				ls := eng.DomLits(pr)
				if el, ok := eng.EdgeLit(pr, x.Block()); ok {
					ls = append(ls, el)
				}
				res = append(res, p.never(ed, pr, ls, e, seen)...)
			}
			return res
		}
		// an accumulator
		var init, steps []conj
		or, and := false, false
		for i, ed := range x.Edges {
			pr := x.Block().Preds[i]
			if !l.Blocks[pr] {
				init = append(init, p.never(ed, pr, nil, e, seen)...)
				if k, ok := eng.ConstInt(ed); ok && k == neverByte {
					init = []conj{{}}
				}
				continue
			}
			call, ok := ed.(*ssa.Call)
			if !ok {
				if ed != ssa.Value(x) {
					p.err = "an accumulator is not built with And or Or"
				}
				continue
			}
			var a, bb ssa.Value = eng.ArgOf(call, 0), eng.ArgOf(call, 1)
			if bb == ssa.Value(x) {
				a, bb = bb, a
			}
			switch {
			case keyIs(call, mayPkg+".MatchType.And") && a == ssa.Value(x):
				and = true
				steps = append(steps, p.never(bb, call.Block(), nil, e, seen)...)
			case keyIs(call, mayPkg+".MatchType.Or") && a == ssa.Value(x):
				or = true
				st := p.never(bb, call.Block(), nil, e, seen)
				if len(st) == 1 {
					var all conj
					for _, h := range st[0] {
						h.some = false // every element was asked
						all = append(all, h)
					}
					steps = append(steps, all)
				} else if len(st) > 1 {
					p.err = "an Or over filters with several reasons"
				} else {
					return nil // one of them never gives up
				}
			default:
				p.err = "an accumulator is not built with And or Or"
			}
		}
		if or && and {
			p.err = "an accumulator mixes And and Or"
			return nil
		}
		if or {
			var res []conj
			if b != nil && b != l.Header && !afterLoop(l, b) {
				return []conj{{{kind: "unknown"}}} // not all elements were asked yet
			}
			for _, i := range init {
				j := append(conj{}, i...)
				for _, s := range steps {
					j = append(j, s...)
				}
				res = append(res, j)
			}
			return res
		}
		return append(init, steps...)
	case *ssa.Call:
		switch {
		case keyIs(x, mayPkg+".PackageContext.PackageImports"):
			return []conj{{p.hyp("import", eng.ArgOf(x, 1), e)}}
		case keyIs(x, mayPkg+".FileContext.FileContains"):
			return []conj{p.fileHyps(eng.ArgOf(x, 1), e)}
		case keyIs(x, mayPkg+".MatchType.Not"):
			return nil // established for Not itself
		case keyIs(x, mayPkg+".MatchType.And"):
			return append(p.never(eng.ArgOf(x, 0), b, lits, e, seen), p.never(eng.ArgOf(x, 1), b, lits, e, seen)...)
		case keyIs(x, mayPkg+".MatchType.Or"):
			var res []conj
			for _, s := range p.never(eng.ArgOf(x, 0), b, lits, e, seen) {
				for _, t := range p.never(eng.ArgOf(x, 1), b, lits, e, seen) {
					res = append(res, append(append(conj{}, s...), t...))
				}
			}
			return res
		}
		o := eng.CalleeObj(x)
		if o != nil && innerNames[o.Name()] != "" {
			return []conj{{p.hypFn("inner", eng.ArgOf(x, 0), e, nil)}}
		}
		if g := x.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && !seen[x] {
			seen[x] = true
			defer delete(seen, x)
			ne := &penv{m: map[*ssa.Parameter]ssa.Value{}, up: e}
			for i, pr := range g.Params {
				ne.m[pr] = eng.ArgOf(x, i)
			}
			var res []conj
			for _, r := range eng.Returns(g) {
				res = append(res, p.never(r.Results[0], r.Block(), eng.DomLits(r.Block()), ne, seen)...)
			}
			return res
		}
	}
	p.err = fmt.Sprintf("cannot tell when %s is NeverMatch", v.Name())
	return []conj{{}}
}

// afterLoop: b is only reached once the loop went through everything.
func afterLoop(l *eng.Loop, b *ssa.BasicBlock) bool {
	for _, s := range l.Header.Succs {
		if !l.Blocks[s] && s.Dominates(b) {
			return true
		}
	}
	return false
}

func (p *prefilter) hyp(kind string, v ssa.Value, e *penv) hyp { return p.hypFn(kind, v, e, nil) }

func (p *prefilter) hypFn(kind string, v ssa.Value, e *penv, fn *ssa.Function) hyp {
	ps := p.paths(v, e)
	if len(ps) != 1 {
		return hyp{kind: "unknown"}
	}
	return hyp{kind: kind, path: ps[0], fn: fn, some: strings.Contains(ps[0], "[]")}
}

// fileHyps: the file does not contain the text v.
func (p *prefilter) fileHyps(v ssa.Value, e *penv) conj {
	if s, ok := eng.ConstString(v); ok {
		return conj{{kind: "text", text: []string{s}}}
	}
	var parts []string
	var walk func(v ssa.Value) (string, bool)
	path := ""
	walk = func(v ssa.Value) (string, bool) {
		if s, ok := eng.ConstString(v); ok {
			parts = append(parts, s)
			return "", true
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			_, ok1 := walk(b.X)
			_, ok2 := walk(b.Y)
			return "", ok1 && ok2
		}
		ps := p.paths(v, e)
		if len(ps) != 1 || path != "" {
			return "", false
		}
		path = ps[0]
		if path == "" {
			path = "self"
		}
		return path, true
	}
	if _, ok := walk(v); !ok {
		return conj{{kind: "unknown"}}
	}
	if path == "self" {
		path = ""
	}
	return conj{{kind: "file", path: path, text: parts, some: strings.Contains(path, "[]")}}
}

// facts extracts what the literals on the way to a NeverMatch establish.
func (p *prefilter) facts(lits []eng.Lit, e *penv, seen map[ssa.Value]bool) conj {
	var res conj
	for _, l := range lits {
		v, pol := l.V, l.Pol
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v, pol = u.X, !pol
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				continue
			}
			eq := (x.Op == token.EQL) == pol
			if n, ok := eng.ConstInt(x.Y); ok && n == neverByte && eq {
				for _, cj := range p.never(x.X, x.Block(), nil, e, seen) {
					res = append(res, cj...)
				}
				continue
			}
			if eq {
				continue
			}
			a, b := x.X, x.Y
			for i := 0; i < 2; i++ {
				if fv := fieldOfLoad(a); fv != nil {
					kind := map[string]string{"ImportPath": "self", "PackageName": "pkgname", "TestMain": "testmain"}[fv.Name()]
					if kind != "" && fv.Pkg() != nil && strings.HasSuffix(fv.Pkg().Path(), mayPkg) {
						if h := p.hyp(kind, b, e); h.kind == kind {
							res = append(res, h)
						}
					}
				}
				a, b = b, a
			}
		case *ssa.Call:
			if pol {
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil || !p.c.W.InModule(g.Pkg.Pkg) {
				continue
			}
			kind := ""
			var recvArg ssa.Value
			for i := range g.Params {
				a := eng.ArgOf(x, i)
				if fv := fieldOfLoad(a); fv != nil && fv.Name() == "ImportPath" && strings.HasSuffix(fv.Pkg().Path(), mayPkg) {
					kind = "pred"
				} else {
					recvArg = a
				}
			}
			if kind != "" {
				if h := p.hypFn(kind, recvArg, e, g); h.kind == kind {
					res = append(res, h)
				}
			}
		}
	}
	return res
}

// refuter shows that the join point cannot match under given facts.
type refuter struct {
	c       *Ctx
	matches *ssa.Function
	recv    *ssa.Parameter
	typ     *types.Named
	env     *penv // what the helper looked into was called with
}

func isCtxValue(v ssa.Value, kind string) bool {
	if u, ok := v.(*ssa.ChangeType); ok {
		return isCtxValue(u.X, kind)
	}
	if call, ok := v.(*ssa.Call); ok {
		o := eng.CalleeObj(call)
		if o == nil || o.Pkg() == nil || !strings.HasSuffix(o.Pkg().Path(), ctxPkg) {
			return false
		}
		return o.Name() == map[string]string{"self": "ImportPath", "pkgname": "Package", "testmain": "TestMain"}[kind]
	}
	if fv := fieldOfLoad(v); fv != nil && kind == "self" {
		return fv.Name() == "ImportPath" && eng.TypeKeyOfField(fv) == joinPkg+".functionInformation"
	}
	return false
}

// syntaxName: v is the name of an identifier in the file at hand.
func syntaxName(v ssa.Value) bool {
	fv := fieldOfLoad(v)
	if fv == nil || fv.Name() != "Name" {
		return false
	}
	return strings.HasSuffix(fv.Pkg().Path(), "dave/dst") || eng.TypeKeyOfField(fv) == joinPkg+".functionInformation"
}

var typeMatchers = map[string]bool{typedPkg + ".TypeName.Matches": true, typedPkg + ".TypeName.MatchesDefinition": true}

// falsified: under h, the boolean value v is false (or true when the test is negated).
func (r *refuter) atom(hs conj) func(v ssa.Value) (eng.AV, bool) {
	return func(v ssa.Value) (eng.AV, bool) {
		if _, isVal := v.(ssa.Instruction); !isVal {
			return eng.AV{}, false
		}
		covers := func(val ssa.Value, want func(h hyp, path string) bool) bool {
			ps := r.c.paths(val, r.recv, r.env, 0)
			if len(ps) == 0 {
				return false
			}
			for _, p := range ps {
				ok := false
				for _, h := range hs {
					ok = ok || want(h, p)
				}
				if !ok {
					return false
				}
			}
			return true
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return eng.AV{}, false
			}
			a, b := x.X, x.Y
			for i := 0; i < 2; i++ {
				other := b
				if covers(a, func(h hyp, p string) bool {
					if h.path != p || h.some {
						return false
					}
					switch h.kind {
					case "import":
						return true
					case "self", "pkgname", "testmain":
						return isCtxValue(other, h.kind)
					case "file":
						_, isC := eng.ConstString(other)
						return len(h.text) == 0 && (syntaxName(other) || isC)
					}
					return false
				}) {
					return eng.ABool(x.Op == token.NEQ), true
				}
				a, b = b, a
			}
		case *ssa.Call:
			o := eng.CalleeObj(x)
			if o == nil {
				return eng.AV{}, false
			}
			k := eng.MKey(x)
			switch {
			case typeMatchers[k]:
				def := strings.HasSuffix(k, "Definition")
				if covers(eng.ArgOf(x, 0), func(h hyp, p string) bool {
					if h.some {
						return false
					}
					switch h.kind {
					case "import":
						return h.path == p+".ImportPath"
					case "self":
						return def && h.path == p+".ImportPath" && isCtxValue(eng.ArgOf(x, 2), "self")
					case "file":
						return h.path == p+".Name" && len(h.text) == 0
					}
					return false
				}) {
					return eng.ABool(false), true
				}
			case eng.Key(x) == "strings.HasPrefix":
				arg := x.Call.Args[1]
				if s, ok := eng.ConstString(arg); ok {
					_ = s
					return eng.AV{}, false
				}
				if covers(arg, func(h hyp, p string) bool { return h.kind == "file" && h.path == p && !h.some }) && r.prefixed(x, hs) {
					return eng.ABool(false), true
				}
			case o.Name() == "Matches" || o.Name() == "evaluate":
				if covers(eng.ArgOf(x, 0), func(h hyp, p string) bool { return h.kind == "inner" && h.path == p && !h.some }) {
					return eng.ABool(false), true
				}
			}
			if g := x.Call.StaticCallee(); g != nil {
				if g == x.Parent() && boolResult(g) && len(g.Params) > 0 && eng.ArgOf(x, 0) == ssa.Value(g.Params[0]) {
					return eng.ABool(false), true // by induction on the depth of the recursion
				}
				for _, h := range hs {
					if h.kind != "pred" || h.fn != g {
						continue
					}
					okR, okC := false, false
					for i := range g.Params {
						a := eng.ArgOf(x, i)
						if isCtxValue(a, "self") {
							okC = true
						} else if ps := r.c.paths(a, r.recv, nil, 0); len(ps) == 1 && ps[0] == h.path {
							okR = true
						}
					}
					if okR && okC {
						return eng.ABool(false), true
					}
				}
			}
		case *ssa.Extract:
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if ok && x.Index == 1 {
				for _, h := range hs {
					if h.kind == "text" && len(h.text) == 1 && h.text[0] == "struct" && strings.HasSuffix(ta.AssertedType.String(), "dst.StructType") {
						return eng.ABool(false), true
					}
				}
			}
		}
		return eng.AV{}, false
	}
}

// prefixed: the constant texts in front of the searched value are tested for at the same place.
func (r *refuter) prefixed(call *ssa.Call, hs conj) bool {
	if !r.c.substring(call.Call.Args[0], 0) {
		return false
	}
	for _, h := range hs {
		if h.kind != "file" {
			continue
		}
		for _, t := range h.text {
			n := int64(len(t))
			ok := false
			// rest[len(t):] of a value known to start with t
			sl, isSl := call.Call.Args[0].(*ssa.Slice)
			if isSl && sl.Low != nil {
				lo, isC := eng.ConstInt(sl.Low)
				if isC && lo == n {
					ok = r.c.W.MustHoldLocal(call, func(l eng.Lit) bool {
						hc := callOf(l.V)
						if hc == nil || !l.Pol || eng.Key(hc) != "strings.HasPrefix" {
							return false
						}
						s, isS := eng.ConstString(hc.Call.Args[1])
						return isS && s == t && hc.Call.Args[0] == sl.X
					})
				}
			}
			if !ok {
				// CutPrefix
				if e, isE := call.Call.Args[0].(*ssa.Extract); isE && e.Index == 0 {
					if cc, isCall := e.Tuple.(*ssa.Call); isCall && eng.Key(cc) == "strings.CutPrefix" {
						s, _ := eng.ConstString(cc.Call.Args[1])
						ok = s == t && r.c.W.MustHoldLocal(call, func(l eng.Lit) bool {
							x, isX := l.V.(*ssa.Extract)
							return isX && x.Index == 1 && x.Tuple == ssa.Value(cc) && l.Pol
						})
					}
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// substring: v is part of a text found in the file, unchanged.
func (c *Ctx) substring(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		return c.substring(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != ssa.Value(x) && !c.substring(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			switch eng.Key(call) {
			case "strings.Cut", "strings.CutPrefix", "strings.CutSuffix":
				return c.substring(call.Call.Args[0], d+1)
			}
			return false
		}
		return true
	case *ssa.Call:
		if k := eng.Key(x); strings.HasPrefix(k, "strings.Trim") {
			return c.substring(x.Call.Args[0], d+1)
		}
		return false
	case *ssa.Parameter:
		idx := -1
		for i, p := range x.Parent().Params {
			if p == x {
				idx = i
			}
		}
		for _, ci := range c.W.Callers(x.Parent()) {
			if a := eng.ArgOf(ci, idx); a != ssa.Value(x) && !c.substring(a, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp, *ssa.Field, *ssa.Index:
		return true
	}
	return false
}

// impossible: the join point cannot match when all of hs hold.
func (r *refuter) impossible(hs conj) bool {
	for _, h := range hs {
		if h.some && r.requiresAll(h) {
			return true
		}
	}
	if len(hs) == 0 {
		return false
	}
	ex := &eng.Exploration{W: r.c.W, Atom: r.atom(hs), Inline: func(f *ssa.Function) bool {
		return eng.PkgOf(f) == eng.PkgOf(r.matches)
	}}
	for _, o := range ex.Run(r.matches) {
		if o.Panics {
			continue
		}
		if len(o.Rets) != 1 || !o.Rets[0].IsFalse() {
			return false
		}
	}
	return !ex.Exhausted
}

// requiresAll: a match needs every element of the collection to pass the test h speaks of.
func (r *refuter) requiresAll(h hyp) bool {
	i := strings.LastIndex(h.path, "[]")
	if i < 0 {
		return false
	}
	coll := h.path[:i]
	isColl := func(v ssa.Value) bool {
		ps := r.c.paths(v, r.recv, r.env, 0)
		return len(ps) == 1 && ps[0] == coll
	}
	hh := h
	hh.some = false
	at := r.atom(conj{hh})
	var trueOnlyAfter func(fn *ssa.Function, d int) bool
	onlyFalse := func(b *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, pred *ssa.BasicBlock) bool
		walk = func(b, pred *ssa.BasicBlock) bool {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				v := ret.Results[0]
				if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
					for k, p := range b.Preds {
						if p == pred {
							v = phi.Edges[k]
						}
					}
				}
				bv, isC := eng.ConstBool(v)
				return isC && !bv
			}
			if seen[b] {
				return false // looping on
			}
			seen[b] = true
			if len(b.Succs) == 0 {
				return true
			}
			for _, s := range b.Succs {
				if !walk(s, b) {
					return false
				}
			}
			return true
		}
		return walk(b, nil)
	}
	trueOnlyAfter = func(fn *ssa.Function, d int) bool {
		if d > 3 || len(fn.Blocks) == 0 {
			return false
		}
		var headers []ssa.Instruction
		for _, l := range eng.Loops(fn) {
			if l.Over == nil || !isColl(l.Over) {
				continue
			}
			tested := false
			good := true
			for b := range l.Blocks {
				ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if ok {
					cond, neg := ssa.Value(ifi.Cond), false
					for {
						u, ok := cond.(*ssa.UnOp)
						if !ok || u.Op != token.NOT {
							break
						}
						cond, neg = u.X, !neg
					}
					if av, ok := at(cond); ok {
						fail := 1
						if av.IsTrue() != neg {
							fail = 0
						}
						if onlyFalse(b.Succs[fail]) && l.Always(func(in ssa.Instruction) bool { return in == ssa.Instruction(ifi) }, nil) {
							tested = true
						}
					}
				}
				for _, s := range b.Succs {
					if !l.Blocks[s] && b != l.Header && !onlyFalse(s) {
						good = false
					}
				}
			}
			if tested && good {
				headers = append(headers, l.Header.Instrs[len(l.Header.Instrs)-1])
			}
		}
		isHeader := func(in ssa.Instruction) bool {
			for _, x := range headers {
				if x == in {
					return true
				}
			}
			return false
		}
		empty := func(l eng.Lit) bool { return emptyLit(l, isColl) == "empty" }
		viaCall := func(v ssa.Value) bool {
			call, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			g := call.Call.StaticCallee()
			if g == nil || g == fn {
				return false
			}
			up := r.env
			r.env = &penv{m: map[*ssa.Parameter]ssa.Value{}, up: up}
			for i, p := range g.Params {
				r.env.m[p] = eng.ArgOf(call, i)
			}
			defer func() { r.env = up }()
			return trueOnlyAfter(g, d+1)
		}
		var trueOK func(v ssa.Value, at ssa.Instruction) bool
		trueOK = func(v ssa.Value, at ssa.Instruction) bool {
			if b, isC := eng.ConstBool(v); isC && !b {
				return true
			}
			if viaCall(v) {
				return true
			}
			if !r.c.W.EntryReaches(at, isHeader, empty) {
				return true
			}
			if r.c.W.MustHoldLocal(at, func(l eng.Lit) bool { return l.Pol && viaCall(l.V) }) {
				return true
			}
			if phi, ok := v.(*ssa.Phi); ok {
				for i, e := range phi.Edges {
					p := phi.Block().Preds[i]
					if !trueOK(e, p.Instrs[len(p.Instrs)-1]) {
						return false
					}
				}
				return true
			}
			return false
		}
		for _, ret := range eng.Returns(fn) {
			if !trueOK(ret.Results[0], ret) {
				return false
			}
		}
		return true
	}
	return trueOnlyAfter(r.matches, 0) || r.failsForAny(h, coll, h.path[i+2:])
}

// failsForAny: whichever element of the (small) collection fails the test h speaks of, there is no match.
func (r *refuter) failsForAny(h hyp, coll, part string) bool {
	for n := 1; n <= 3; n++ {
		for k := 0; k < n; k++ {
			var l []eng.AV
			for j := 0; j < n; j++ {
				l = append(l, sym(fmt.Sprintf("element%d", j)))
			}
			failing := func(a eng.AV) bool { return a.K == eng.ASymbol && a.String() == fmt.Sprintf("<element%d>", k) }
			ex := &eng.Exploration{W: r.c.W, Lists: true, Small: 3, Objs: map[string]eng.AV{"recv" + coll: eng.AListOf(*listOf("", l...))}, Inline: func(f *ssa.Function) bool {
				return eng.PkgOf(f) == eng.PkgOf(r.matches)
			}}
			ex.Model = func(x *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
				o := eng.CalleeObj(x)
				if o == nil || eng.ArgOf(x, 0) == nil || !failing(eval(eng.ArgOf(x, 0))) {
					return eng.AV{}, false
				}
				switch mk := eng.MKey(x); {
				case typeMatchers[mk]:
					def := strings.HasSuffix(mk, "Definition")
					switch h.kind {
					case "import":
						return eng.ABool(false), part == ".ImportPath"
					case "self":
						return eng.ABool(false), def && part == ".ImportPath" && isCtxValue(eng.ArgOf(x, 2), "self")
					case "file":
						return eng.ABool(false), part == ".Name" && len(h.text) == 0
					}
				case o.Name() == "Matches" || o.Name() == "evaluate":
					return eng.ABool(false), h.kind == "inner" && part == ""
				}
				return eng.AV{}, false
			}
			outs := ex.Run(r.matches, sym("recv"))
			if len(outs) == 0 || ex.Exhausted {
				return false
			}
			for _, o := range outs {
				if !o.Panics && (len(o.Rets) != 1 || !o.Rets[0].IsFalse()) {
					return false
				}
			}
		}
	}
	return true
}

// methodOf finds a method (possibly promoted) and the path to the value it is called on.
func (c *Ctx) methodOf(n *types.Named, name string) (*ssa.Function, string) {
	obj, idx, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name)
	fo, ok := obj.(*types.Func)
	if !ok {
		return nil, ""
	}
	pre := ""
	var t types.Type = n
	for _, i := range idx[:len(idx)-1] {
		st, ok := eng.Deref(t).Underlying().(*types.Struct)
		if !ok {
			return nil, ""
		}
		pre += "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	return c.W.Prog.FuncValue(fo), pre
}

// implementing lists the concrete types of the module implementing the interface.
func (c *Ctx) implementing(it *types.Named) []*types.Named {
	if it == nil {
		return nil
	}
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res []*types.Named
	for _, n := range c.W.NamedTypes() {
		if types.IsInterface(n) || n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(n, i) || types.Implements(types.NewPointer(n), i) {
			res = append(res, n)
		}
	}
	sort.Slice(res, func(a, b int) bool { return res[a].Obj().Name() < res[b].Obj().Name() })
	return res
}

func runPrefilter(c *Ctx) {
	rLat := c.Rule("lattice", "combining filter answers gives up only when the combination cannot match")
	rCtx := c.Rule("context", "a filter context gives up only when the package is not imported, or the text is not in the file")
	rGive := c.Rule("gives-up-soundly", "whenever a join point's filter gives up, the join point cannot match")
	rDrop := c.Rule("aspects-dropped", "aspects are only left out when a filter gave up, and never from a shared list")
	rSame := c.Rule("same-facts", "filters see the same package, imports, file and mode as the join points")
	rParse := c.Rule("files-kept", "files are left unparsed only when no file of the package has aspects left")

	c.prefilterLattice(rLat)
	c.prefilterContext(rCtx)

	n := 0
	point, opt := c.W.Type(joinPkg, "Point"), c.W.Type(joinPkg, "FunctionOption")
	for _, kind := range []struct {
		it      *types.Named
		matches string
		filters []string
	}{
		{point, "Matches", []string{"PackageMayMatch", "FileMayMatch"}},
		{opt, "evaluate", []string{"packageMayMatch", "fileMayMatch"}},
	} {
		impls := c.implementing(kind.it)
		if len(impls) == 0 {
			rGive.Bad("implementations of "+kind.matches, "-", "no join point found")
		}
		for _, t := range impls {
			m, pre := c.methodOf(t, kind.matches)
			if m == nil || pre != "" || len(m.Blocks) == 0 {
				continue // wrappers embedding the interface
			}
			for _, fname := range kind.filters {
				f, fpre := c.methodOf(t, fname)
				if f == nil || len(f.Blocks) == 0 {
					rGive.Bad(t.Obj().Name()+"."+fname, "-", "filter not found")
					continue
				}
				n++
				p := &prefilter{c: c, recv: recvOf(f), pre: fpre}
				var alts []conj
				for _, ret := range eng.Returns(f) {
					alts = append(alts, p.never(ret.Results[0], ret.Block(), eng.DomLits(ret.Block()), nil, map[ssa.Value]bool{})...)
				}
				r := &refuter{c: c, matches: m, recv: recvOf(m), typ: t}
				bad := ""
				if p.err != "" {
					bad = p.err
				}
				for _, a := range alts {
					if bad == "" && !r.impossible(a) {
						bad = fmt.Sprintf("it gives up on %v, but can match all the same", a)
					}
				}
				rGive.Check(bad == "", t.Obj().Name()+"."+fname, c.W.Pos(f.Pos()), "%s", bad)
			}
		}
	}
	c.Count("filters", n)
	rGive.Min(40)
	c.prefilterTypeName(rGive)
	c.prefilterInfo(rSame)
	c.prefilterUse(rDrop, rSame)
	c.prefilterParser(rParse, rDrop)
}

func recvOf(f *ssa.Function) *ssa.Parameter {
	if f.Signature.Recv() == nil || len(f.Params) == 0 {
		return nil
	}
	return f.Params[0]
}

// The matchers taken for granted above: a type name matches only its own import path and name.
func (c *Ctx) prefilterTypeName(r *R) {
	for _, name := range []string{"Matches", "MatchesDefinition"} {
		f := r.Fn(typedPkg, "TypeName."+name)
		if f == nil {
			continue
		}
		for _, part := range []string{"ImportPath", "Name"} {
			rf := &refuter{c: c, matches: f, recv: recvOf(f)}
			h := conj{{kind: "import", path: "." + part}}
			base := rf.atom(h)
			ex := &eng.Exploration{W: c.W, Atom: func(v ssa.Value) (eng.AV, bool) {
				if call, ok := v.(*ssa.Call); ok && typeMatchers[eng.MKey(call)] {
					// by induction, when the same import path and name are passed on
					if c.samePart(eng.ArgOf(call, 0), part, recvOf(f)) {
						return eng.ABool(false), true
					}
				}
				return base(v)
			}}
			ok := true
			for _, o := range ex.Run(f) {
				if !o.Panics && (len(o.Rets) != 1 || !o.Rets[0].IsFalse()) {
					ok = false
				}
			}
			if name == "MatchesDefinition" && part == "ImportPath" {
				// compares with the import path it is given
				ok = ok && c.comparesParam(f, part)
			}
			r.Check(ok && !ex.Exhausted, "TypeName."+name+" "+part, c.W.Pos(f.Pos()), "a type name matches a type with another %s", part)
		}
	}
}

func (c *Ctx) comparesParam(f *ssa.Function, part string) bool {
	found := false
	instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		for _, pair := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			if pair[1] == ssa.Value(f.Params[2]) {
				if fv := fieldOfLoad(pair[0]); fv != nil && fv.Name() == part {
					found = true
				}
			}
		}
	})
	return found
}

// samePart: the type name v has the same part as the receiver.
func (c *Ctx) samePart(v ssa.Value, part string, recv *ssa.Parameter) bool {
	if ps := c.paths(v, recv, nil, 0); len(ps) == 1 && ps[0] == "" {
		return true
	}
	v = eng.Unwrap(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range useRefs(al) {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || eng.FieldVar(fa).Name() != part {
			continue
		}
		for _, rr := range useRefs(fa) {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == fa {
				ps := c.paths(s.Val, recv, nil, 0)
				return len(ps) == 1 && ps[0] == "."+part
			}
		}
	}
	return false
}

func (c *Ctx) prefilterLattice(r *R) {
	vals := []byte{'?', 'Y', 'N'}
	mt := func(b byte) eng.AV { return eng.AInt(int64(b)) }
	for _, name := range []string{"Not", "And", "Or"} {
		f := r.Fn(mayPkg, "MatchType."+name)
		if f == nil {
			continue
		}
		for _, a := range vals {
			for _, b := range vals {
				if name == "Not" && b != '?' {
					continue
				}
				args := []eng.AV{mt(a)}
				if name != "Not" {
					args = append(args, mt(b))
				}
				ex := &eng.Exploration{W: c.W}
				mayNever := false
				outs := ex.Run(f, args...)
				for _, o := range outs {
					if o.Panics {
						mayNever = true
						continue
					}
					if n, ok := o.Rets[0].Int(); !ok || n == neverByte {
						mayNever = true
					}
				}
				allowed := false
				switch name {
				case "And":
					allowed = a == 'N' || b == 'N'
				case "Or":
					allowed = a == 'N' && b == 'N'
				}
				label := fmt.Sprintf("%s(%c)", name, a)
				if name != "Not" {
					label = fmt.Sprintf("%s(%c,%c)", name, a, b)
				}
				r.Check(len(outs) > 0 && (allowed || !mayNever), label, c.W.Pos(f.Pos()), "%s gives up although the combination may match", label)
			}
		}
	}
	r.Min(21)
}

func (c *Ctx) prefilterContext(r *R) {
	nevers := func(f *ssa.Function, atom func(v ssa.Value) (eng.AV, bool), args ...eng.AV) bool {
		ex := &eng.Exploration{W: c.W, Atom: atom}
		outs := ex.Run(f, args...)
		for _, o := range outs {
			if o.Panics || len(o.Rets) != 1 {
				return true
			}
			if n, ok := o.Rets[0].Int(); !ok || n == neverByte {
				return true
			}
		}
		return len(outs) == 0 || ex.Exhausted
	}
	if f := r.Fn(mayPkg, "PackageContext.PackageImports"); f != nil {
		path := f.Params[1]
		r.Check(!nevers(f, nil, eng.AUnk(), eng.AStr("")), "PackageImports of no package", c.W.Pos(f.Pos()), "it gives up on builtin or local names, which need no import")
		fm := c.W.Field(mayPkg, "PackageContext", "ImportMap")
		r.Check(fm != nil && !nevers(f, func(v ssa.Value) (eng.AV, bool) {
			if e, ok := v.(*ssa.Extract); ok && e.Index == 1 {
				if lk, ok := e.Tuple.(*ssa.Lookup); ok && isFieldVal(lk.X, fm) && lk.Index == ssa.Value(path) {
					return eng.ABool(true), true
				}
			}
			if lk, ok := v.(*ssa.Lookup); ok && !lk.CommaOk && isFieldVal(lk.X, fm) && lk.Index == ssa.Value(path) {
				return eng.AStr("archive"), true
			}
			return eng.AV{}, false
		}), "PackageImports of an imported package", c.W.Pos(f.Pos()), "it gives up although the package is imported")
		fi := c.W.Field(mayPkg, "PackageContext", "ImportPath")
		r.Check(fi != nil && !nevers(f, func(v ssa.Value) (eng.AV, bool) {
			if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if isFieldVal(b.X, fi) && b.Y == ssa.Value(path) || isFieldVal(b.Y, fi) && b.X == ssa.Value(path) {
					return eng.ABool(b.Op == token.EQL), true
				}
			}
			return eng.AV{}, false
		}), "PackageImports of the package itself", c.W.Pos(f.Pos()), "it gives up on the package's own import path")
	}
	if f := r.Fn(mayPkg, "FileContext.FileContains"); f != nil {
		r.Check(!nevers(f, nil, eng.AUnk(), eng.AStr("")), "FileContains of nothing", c.W.Pos(f.Pos()), "it gives up on the empty text, which every file contains")
		fc := c.W.Field(mayPkg, "FileContext", "FileContent")
		content := f.Params[1]
		about := func(v ssa.Value) bool {
			return c.W.Carries(v, func(x ssa.Value) bool { return x == ssa.Value(content) })
		}
		r.Check(fc != nil && !nevers(f, func(v ssa.Value) (eng.AV, bool) {
			call, ok := v.(*ssa.Call)
			if !ok {
				return eng.AV{}, false
			}
			if builtinCall(call, "len") != nil {
				if lk, ok := call.Call.Args[0].(*ssa.Call); ok && eng.Key(lk) == "index/suffixarray.Index.Lookup" && about(lk.Call.Args[1]) && !atMostZero(lk.Call.Args[2]) {
					return eng.AInt(1), true
				}
				return eng.AV{}, false
			}
			switch k := eng.Key(call); k {
			case "bytes.Contains", "strings.Contains":
				if about(call.Call.Args[1]) {
					return eng.ABool(true), true
				}
			case "bytes.Index", "strings.Index":
				if about(call.Call.Args[1]) {
					return eng.AInt(0), true
				}
			}
			return eng.AV{}, false
		}), "FileContains of a text in the file", c.W.Pos(f.Pos()), "it gives up although the file contains the text")
		// the index is built from the file's content
		ok := false
		for _, g := range c.Region(f) {
			for _, ci := range eng.Calls(g) {
				switch eng.Key(ci) {
				case "index/suffixarray.New", "bytes.Contains", "bytes.Index", "strings.Contains":
					ok = ok || c.W.Carries(ci.Common().Args[0], func(x ssa.Value) bool { return isFieldVal(x, fc) })
				}
			}
		}
		r.Check(ok, "FileContains searches the content", c.W.Pos(f.Pos()), "the text is not searched in the whole content of the file")
	}
}

func atMostZero(v ssa.Value) bool { n, ok := eng.ConstInt(v); return ok && n == 0 }

// prefilterInfo: what function options see of a function comes from the declaration and package at hand.
func (c *Ctx) prefilterInfo(r *R) {
	for _, field := range []string{"ImportPath", "Name"} {
		fv := r.Field(joinPkg, "functionInformation", field)
		if fv == nil {
			continue
		}
		for _, s := range c.W.FieldStores(fv) {
			ok := false
			if k, isC := eng.ConstString(s.Val); isC && k == "" {
				ok = true
			} else if field == "ImportPath" {
				ok = isCtxValue(s.Val, "self")
			} else {
				ok = syntaxName(s.Val)
			}
			r.Check(ok, "functionInformation."+field, c.W.At(s.Instr), "function options are not told the %s of the function at hand", field)
		}
	}
}

func (c *Ctx) prefilterUse(rDrop, rSame *R) {
	w := c.W
	n := 0
	for _, f := range w.Funcs {
		if eng.PkgOf(f) == full(joinPkg) {
			continue
		}
		for _, ci := range eng.Calls(f) {
			o := eng.CalleeObj(ci)
			if o == nil || (o.Name() != "PackageMayMatch" && o.Name() != "FileMayMatch") || !ci.Common().IsInvoke() {
				continue
			}
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			n++
			name := short(eng.Root(f)) + " " + o.Name()
			rDrop.Check(c.dropsOnlyNever(f, call), name, w.At(call), "an aspect is left out although its filter did not give up")
			// context
			c.filterContext(rSame, name, call)
		}
	}
	if n < 2 {
		rDrop.Bad("filter uses", "-", "found %d uses of the filters, 2 expected", n)
	}
	// the injector's package, imports and mode reach the contexts join points see
	app := rSame.Fn(injPkg, "Injector.applyAspects")
	if app == nil {
		return
	}
	for _, pair := range [][2]string{{"TestMain", "TestMain"}} {
		from := rSame.Field(injPkg, "Injector", pair[0])
		to := rSame.Field(ctxPkg, "ContextArgs", pair[1])
		for _, s := range w.FieldStores(to) {
			rSame.Check(c.derivesField(s.Val, from), "ContextArgs."+pair[1], w.At(s.Instr), "join points see another %s than the filters", pair[0])
		}
		if len(w.FieldStores(to)) == 0 {
			rSame.Bad("ContextArgs."+pair[1], "-", "join points are not told %s", pair[0])
		}
	}
	ip := rSame.Field(injPkg, "Injector", "ImportPath")
	for _, ci := range w.CallsTo(c.Region(rSame.Fn(injPkg, "Injector.InjectFiles")), "github.com/dave/dst/decorator.NewDecoratorWithImports") {
		rSame.Check(c.derivesField(ci.Common().Args[1], ip), "decorator import path", w.At(ci.(ssa.Instruction)), "files are decorated for another package than the filters look at")
	}
	if to := rSame.Field(ctxPkg, "ContextArgs", "ImportPath"); to != nil {
		for _, s := range w.FieldStores(to) {
			rSame.Check(c.derivesField(s.Val, ip) || extFieldNamed(s.Val, "Path"), "ContextArgs.ImportPath", w.At(s.Instr), "join points see another import path than the filters")
		}
	}
	imap := rSame.Field(injPkg, "Injector", "ImportMap")
	if imap != nil {
		pf := c.W.Field("internal/toolexec/importcfg", "ImportConfig", "PackageFile")
		for _, s := range w.FieldStores(imap) {
			if strings.HasSuffix(w.At(s.Instr), "_test.go") {
				continue
			}
			rSame.Check(pf != nil && c.derivesField(s.Val, pf), "Injector.ImportMap", w.At(s.Instr), "the filters are not given the packages in the import configuration")
		}
	}
}

func extFieldNamed(v ssa.Value, name string) bool {
	fv := fieldOfLoad(v)
	return fv != nil && fv.Name() == name
}

func full(rel string) string { return eng.ModPath + "/" + rel }

// filterContext: the context handed to a filter describes the package (file) being woven.
func (c *Ctx) filterContext(r *R, name string, call *ssa.Call) {
	want := map[string]string{}
	if strings.Contains(name, "PackageMayMatch") {
		want = map[string]string{"ImportPath": "ImportPath", "ImportMap": "ImportMap", "TestMain": "TestMain"}
	} else {
		want = map[string]string{"FileContent": "content", "PackageName": "Name"}
	}
	typ := "PackageContext"
	if want["FileContent"] != "" {
		typ = "FileContext"
	}
	for _, f := range keysOf(want) {
		fv := r.Field(mayPkg, typ, f)
		if fv == nil {
			continue
		}
		st := c.W.FieldStores(fv)
		n := 0
		for _, s := range st {
			n++
			ok := c.derives(s.Val, func(v ssa.Value) bool {
				x := fieldOfLoad(v)
				return x != nil && x.Name() == want[f]
			})
			r.Check(ok, typ+"."+f, c.W.At(s.Instr), "filters are told something else than the %s of what is woven", f)
		}
		if n == 0 {
			r.Bad(typ+"."+f, c.W.At(call), "filters are not told the %s of what is woven", f)
		}
	}
}

// dropsOnlyNever: the aspect the filter was asked about is kept unless the answer is NeverMatch.
func (c *Ctx) dropsOnlyNever(f *ssa.Function, call *ssa.Call) bool {
	w := c.W
	for _, ans := range []int64{'Y', '?'} {
		atom := func(v ssa.Value) (eng.AV, bool) {
			if v == ssa.Value(call) {
				return eng.AInt(ans), true
			}
			return eng.AV{}, false
		}
		if f.Parent() != nil || boolResult(f) {
			// a predicate telling what to delete
			ex := &eng.Exploration{W: w, Atom: atom}
			for _, o := range ex.Run(f) {
				if !o.Panics && (len(o.Rets) != 1 || !o.Rets[0].IsFalse()) {
					return false
				}
			}
			continue
		}
		// a loop keeping aspects
		l := eng.InnermostLoop(call.Block())
		if l == nil {
			return false
		}
		never := func(lit eng.Lit) bool {
			b, ok := lit.V.(*ssa.BinOp)
			if !ok || b.X != ssa.Value(call) {
				return false
			}
			n, isC := eng.ConstInt(b.Y)
			return isC && n == neverByte && (b.Op == token.EQL) == lit.Pol
		}
		if !l.Always(func(in ssa.Instruction) bool { return builtinCall(in, "append") != nil }, never) {
			return false
		}
	}
	if f.Parent() == nil && !boolResult(f) {
		return true
	}
	// the list deleted from is a copy
	ok := false
	var sites []ssa.Instruction
	sites = append(sites, w.PassSites(f)...)
	for _, s := range w.FnRefs(f) {
		sites = append(sites, s)
	}
	for _, s := range sites {
		ci, isCall := s.(ssa.CallInstruction)
		if !isCall || eng.Key(ci) != "slices.DeleteFunc" {
			continue
		}
		ok = c.freshSlice(ci.Common().Args[0], 0)
		if !ok {
			return false
		}
	}
	return ok
}

func boolResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 1 {
		return false
	}
	b, ok := rs.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// freshSlice: v is a newly made slice.
func (c *Ctx) freshSlice(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := eng.ResolveLocal(v).(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			_ = al
			return true
		}
		if x.Max != nil && x.Max == x.High {
			return false
		}
		return c.freshSlice(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != ssa.Value(x) && !c.freshSlice(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Call:
		switch eng.Key(x) {
		case "slices.Clone", "slices.Collect", "slices.Concat":
			return true
		case "slices.DeleteFunc", "slices.Clip":
			return c.freshSlice(x.Call.Args[0], d+1)
		}
		if builtinCall(x, "append") != nil {
			return c.freshSlice(x.Call.Args[0], d+1)
		}
		for _, g := range c.W.Callees(x) {
			for _, r := range eng.Returns(g) {
				if !c.freshSlice(r.Results[0], d+1) {
					return false
				}
			}
		}
		return len(c.W.Callees(x)) > 0
	}
	return false
}

// prefilterParser: what the parser leaves out.
func (c *Ctx) prefilterParser(r, rDrop *R) {
	w := c.W
	pf := r.Fn(parsePkg, "Parser.ParseFiles")
	if pf == nil {
		return
	}
	region := c.Region(pf)
	aspects := r.Field(parsePkg, "File", "Aspects")
	astFile := r.Field(parsePkg, "File", "AstFile")
	flag := r.Field(parsePkg, "Parser", "mustParseAll")
	parsed := r.Field(parsePkg, "Parser", "parsedFiles")
	if aspects == nil || astFile == nil || flag == nil || parsed == nil {
		return
	}
	sets := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && eng.Key(ci) == "sync/atomic.Bool.Store" && isFieldAddr(ci.Common().Args[0], flag) && constTrue(ci.Common().Args[1])
	}
	loads := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		return ok && eng.Key(call) == "sync/atomic.Bool.Load" && isFieldAddr(call.Call.Args[0], flag)
	}
	// a file left unparsed has no aspects left, and says so only by being skipped
	n := 0
	isLeftover := func(v ssa.Value) bool {
		if !aspectList(v.Type()) {
			return false
		}
		return c.derives(v, func(x ssa.Value) bool {
			call, ok := x.(*ssa.Call)
			if ok && eng.Key(call) == "slices.DeleteFunc" {
				return true
			}
			p, ok := x.(*ssa.Parameter)
			return ok && p.Parent() == pf && aspectList(p.Type())
		})
	}
	for _, f := range region {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || !isFieldVal(ia.X, parsed) {
					continue
				}
				n++
				if c.parsedValue(st.Val, astFile) {
					continue
				}
				r.Check(w.MustHoldLocal(st, func(l eng.Lit) bool { return emptyLit(l, isLeftover) == "empty" }), short(eng.Root(f))+" skips a file", w.At(st),
					"a file is left unparsed although aspects may apply to it")
			}
		}
	}
	if n < 2 {
		r.Bad("parsed files", "-", "found %d stores of parsed files", n)
	}
	// whenever a file is parsed for its aspects, all files are going to be
	np := 0
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			g := ci.Common().StaticCallee()
			if g == nil || !returnsType(g, parsePkg+".File") {
				continue
			}
			arg := aspectsArg(ci)
			if arg == nil {
				continue
			}
			if isNil(arg) {
				// only for files skipped before
				ok := w.MustHold(ci.(ssa.Instruction), func(l eng.Lit) bool {
					return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, astFile) }) == "nil"
				})
				r.Check(ok, short(eng.Root(f))+" parses without aspects", w.At(ci.(ssa.Instruction)), "a file loses its aspects")
				continue
			}
			np++
			ok, _ := w.MustPrecede(ci.(ssa.Instruction), sets, nil)
			r.Check(ok, short(eng.Root(f))+" announces", w.At(ci.(ssa.Instruction)), "a file has aspects that may apply, but the package can still be skipped")
			r.Check(isLeftover(arg) && c.onlyFiltered(arg, pf), short(eng.Root(f))+" passes the aspects", w.At(ci.(ssa.Instruction)), "the file is not given all aspects that may apply")
		}
	}
	if np == 0 {
		r.Bad("parses with aspects", "-", "no file is parsed with its aspects")
	}
	// the parsed file carries the aspects given
	for _, s := range w.FieldStores(aspects) {
		if isNil(s.Val) {
			continue
		}
		_, isParam := eng.ResolveLocal(s.Val).(*ssa.Parameter)
		r.Check(isParam || isLeftover(s.Val) && c.onlyFiltered(s.Val, pf), "File.Aspects in "+short(eng.Root(s.Instr.Parent())), w.At(s.Instr), "a parsed file does not get all aspects that may apply")
	}
	// nothing is returned only when no file had applicable aspects
	for _, ret := range eng.Returns(pf) {
		if !c.succeeding(ret) {
			continue
		}
		if eng.IsNilConst(ret.Results[0]) {
			ok := w.MustHoldLocal(ret, func(l eng.Lit) bool {
				return w.Implies(l, func(x eng.Lit) bool { return loads(x.V) && !x.Pol })
			})
			r.Check(ok, "nothing to weave", w.At(ret), "a package is skipped although a file has aspects that may apply")
			continue
		}
		ok, _ := w.MustPrecede(ret, w.LiftEvent(func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			a := aspectsArg(ci)
			return a != nil && isNil(a)
		}), nil)
		_ = ok
		// the files skipped at first are parsed
		called := w.PrecededIn(ret, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			for _, g := range w.Callees(ci) {
				if g == pf {
					continue
				}
				for _, h := range c.Region(g) {
					for _, x := range eng.Calls(h) {
						if a := aspectsArg(x); a != nil && isNil(a) {
							return true
						}
					}
				}
			}
			return false
		})
		r.Check(called, "all files parsed", w.At(ret), "files without aspects are missing from type checking")
	}
	// every file of the package is looked at
	var first *eng.Loop
	for _, l := range eng.Loops(pf) {
		if l.Over == ssa.Value(pf.Params[2]) {
			first = l
		}
	}
	r.Check(first != nil && w.EarlyExit(first, nil) == nil && first.Always(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && eng.Key(ci) == "golang.org/x/sync/errgroup.Group.Go"
	}, nil), "every file", w.Pos(pf.Pos()), "not every file of the package is looked at")
	// injection gets the file's own aspects
	inj := r.Fn(injPkg, "Injector.InjectFiles")
	if inj != nil {
		ok := false
		for _, f := range c.Region(inj) {
			for _, ci := range eng.Calls(f) {
				for _, g := range w.Callees(ci) {
					if eng.FKey(g) == injPkg+".Injector.injectFile" {
						ok = c.derivesField(ci.Common().Args[len(ci.Common().Args)-1], aspects)
					}
				}
			}
		}
		r.Check(ok, "injection uses the file's aspects", w.Pos(inj.Pos()), "a file is not woven with the aspects kept for it")
	}
}

func aspectList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && eng.TypeKey(sl.Elem()) == "internal/injector/aspect.Aspect"
}

func isFieldAddr(v ssa.Value, fv *types.Var) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && eng.FieldVar(fa) == fv
}

func constTrue(v ssa.Value) bool { b, ok := eng.ConstBool(v); return ok && b }

func returnsType(g *ssa.Function, key string) bool {
	rs := g.Signature.Results()
	return rs.Len() > 0 && eng.TypeKey(eng.Deref(rs.At(0).Type())) == key
}

// aspectsArg: the aspect list argument of a call yielding a parsed file.
func aspectsArg(ci ssa.CallInstruction) ssa.Value {
	g := ci.Common().StaticCallee()
	if g == nil || !returnsType(g, parsePkg+".File") {
		return nil
	}
	for i, p := range g.Params {
		if aspectList(p.Type()) {
			return eng.ArgOf(ci, i)
		}
	}
	return nil
}

// parsedValue: v is the result of parsing (not a placeholder).
func (c *Ctx) parsedValue(v ssa.Value, astFile *types.Var) bool {
	if e, ok := v.(*ssa.Extract); ok {
		call, ok := e.Tuple.(*ssa.Call)
		return ok && returnsType2(call, parsePkg+".File")
	}
	return false
}

func returnsType2(call *ssa.Call, key string) bool {
	g := call.Call.StaticCallee()
	return g != nil && returnsType(g, key)
}

// onlyFiltered: the list is the one ParseFiles got, or what the filter left of it.
func (c *Ctx) onlyFiltered(v ssa.Value, pf *ssa.Function) bool {
	ok := true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Slice:
			if x.Low != nil || x.High != nil {
				ok = false
			}
			walk(x.X)
		case *ssa.UnOp:
			if al, isA := x.X.(*ssa.Alloc); isA {
				for _, r := range useRefs(al) {
					if s, isS := r.(*ssa.Store); isS && s.Addr == al {
						walk(s.Val)
					}
				}
			}
		}
	}
	walk(v)
	return ok
}
