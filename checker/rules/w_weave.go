package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "W02", Technique: "abstract interpretation of the opt-out tests over classes of comments and import paths; path analysis of the traversal and the weaver", Run: runOptOut})
}

const (
	weavePkg = "internal/toolexec/aspect"
	advPkg   = "internal/injector/aspect/advice"
)

// funcsOf: the functions a value can be.
func (c *Ctx) funcsOf(v ssa.Value) []*ssa.Function {
	var res []*ssa.Function
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		switch x := o.(type) {
		case *ssa.MakeClosure:
			res = append(res, x.Fn.(*ssa.Function))
			return eng.Stop
		case *ssa.Function:
			res = append(res, x)
			return eng.Stop
		}
		return eng.Follow
	})
	return res
}

func tuple(a ...eng.AV) eng.AV { return eng.AV{K: eng.ATuple, T: a} }

// traversal: the enter and leave functions of the AST traversal that weaves a file.
func (c *Ctx) traversal(r *R) (app, pre, post *ssa.Function, at ssa.Instruction) {
	inj := r.Fn(injPkg, "Injector.InjectFiles")
	if inj == nil {
		return
	}
	inject := c.applySites()
	for _, f := range c.Region(inj) {
		for _, ci := range c.W.CallsTo([]*ssa.Function{f}, "github.com/dave/dst/dstutil.Apply") {
			pres, posts := c.funcsOf(ci.Common().Args[1]), c.funcsOf(ci.Common().Args[2])
			weaves := false
			for _, g := range append(append([]*ssa.Function{}, pres...), posts...) {
				for h := range c.W.Reachable(g) {
					weaves = weaves || inject[h]
				}
				weaves = weaves || inject[g]
			}
			if !weaves {
				continue
			}
			if len(pres) == 1 && len(posts) == 1 && at == nil {
				app, pre, post, at = f, pres[0], posts[0], ci.(ssa.Instruction)
			} else {
				r.Bad("traversal", c.W.At(ci.(ssa.Instruction)), "cannot tell what is done at each node")
				return nil, nil, nil, nil
			}
		}
	}
	if at == nil {
		r.Bad("traversal", "-", "no traversal weaves files")
	}
	return
}

// applySites: functions outside of the advice package calling Advice.Apply.
func (c *Ctx) applySites() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, f := range c.W.Funcs {
		if strings.HasPrefix(eng.PkgOf(f), full(advPkg)) {
			continue
		}
		for _, ci := range eng.Calls(f) {
			if isAdviceApply(ci) {
				res[f] = true
			}
		}
	}
	return res
}

func isAdviceApply(ci ssa.CallInstruction) bool {
	o := eng.CalleeObj(ci)
	if o == nil || o.Name() != "Apply" || o.Pkg() == nil || !strings.HasSuffix(o.Pkg().Path(), advPkg) {
		return false
	}
	sig := o.Type().(*types.Signature)
	return sig.Params().Len() == 1 && eng.TypeKey(sig.Params().At(0).Type()) == ctxPkg+".AdviceContext"
}

func isCursorNode(v ssa.Value) bool {
	call, ok := eng.Unwrap(v).(*ssa.Call)
	return ok && eng.Key(call) == "github.com/dave/dst/dstutil.Cursor.Node"
}

// ignoreCalls: the calls in f deciding, from its comments, whether the visited node is ignored.
func (c *Ctx) ignoreCalls(f *ssa.Function) []*ssa.Call {
	var res []*ssa.Call
	for _, g := range c.Region(f) {
		for _, ci := range eng.Calls(g) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			h := call.Call.StaticCallee()
			if h == nil || !c.W.InModule(h.Pkg.Pkg) || !boolResult(h) {
				continue
			}
			hasNode := false
			for _, p := range h.Params {
				hasNode = hasNode || eng.TypeKey(p.Type()) == "github.com/dave/dst.Node"
			}
			if hasNode && c.readsDecorations(h) {
				res = append(res, call)
			}
		}
	}
	return res
}

func (c *Ctx) readsDecorations(f *ssa.Function) bool {
	for _, g := range c.Region(f) {
		for _, ci := range eng.Calls(g) {
			if o := eng.CalleeObj(ci); o != nil && o.Name() == "Decorations" {
				return true
			}
		}
	}
	return false
}

func runOptOut(c *Ctx) {
	w := c.W
	rIgn := c.Rule("ignored-nodes", "an ignored node and everything below it is not visited, and every other node is")
	rTest := c.Rule("ignore-test", "a node is ignored exactly when one of the comments in front of it is an ignore directive")
	rOnly := c.Rule("only-visited", "advice is only ever applied to nodes the traversal visits")
	rTable := c.Rule("special-packages", "the override found for a package is the one of the first rule matching its path or a parent directory's path")
	rWeave := c.Rule("overrides-obeyed", "packages never to be woven are not, tracer packages only get tracer-internal aspects, others get all")

	app, pre, post, _ := c.traversal(rIgn)
	if pre != nil {
		calls := c.ignoreCalls(pre)
		rIgn.Check(len(calls) > 0, "ignore test", w.Pos(pre.Pos()), "the traversal does not look for ignore directives")
		isIgn := map[ssa.Value]bool{}
		fns := map[*ssa.Function]bool{}
		for _, call := range calls {
			isIgn[call] = true
			fns[call.Call.StaticCallee()] = true
			ok := false
			for _, a := range call.Call.Args {
				if eng.TypeKey(a.Type()) == "github.com/dave/dst.Node" {
					ok = c.derives(a, isCursorNode) || isCursorNode(a)
				}
			}
			rIgn.Check(ok, "ignore test subject", w.At(call), "the directive is looked for at another node than the one visited")
		}
		for _, ign := range []bool{true, false} {
			ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
				if isIgn[v] {
					return eng.ABool(ign), true
				}
				if isCursorNode(v) {
					return eng.ANonNilV(), true
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && u.Type().String() == "error" {
					return eng.ANilV(), true
				}
				return eng.AV{}, false
			}, Event: func(in ssa.Instruction) string {
				if ci, ok := in.(ssa.CallInstruction); ok && eng.MKey(ci) == ctxPkg+".NodeChain.Child" {
					return "entered"
				}
				return ""
			}}
			for _, o := range ex.Run(pre) {
				if o.Panics {
					continue
				}
				if ign {
					rIgn.Check(o.Rets[0].IsFalse() && !o.Has("entered"), "ignored node", w.Pos(pre.Pos()), "an ignored node is visited")
				} else {
					rIgn.Check(o.Rets[0].IsTrue() && o.Has("entered"), "other node", w.Pos(pre.Pos()), "a node that is not ignored is not visited")
				}
			}
			rIgn.Check(!ex.Exhausted, "paths", w.Pos(pre.Pos()), "not all paths could be explored")
		}
		for _, f := range w.Funcs {
			if fns[f] {
				c.ignoreTest(rTest, f)
			}
		}
		// only through post
		for _, f := range w.Funcs {
			if !c.applySites()[f] {
				continue
			}
			bad := c.reachesOutside(f, map[*ssa.Function]bool{post: true}, map[*ssa.Function]bool{})
			rOnly.Check(bad == "", short(f), w.Pos(f.Pos()), "advice is applied outside of the traversal, from %s", bad)
		}
		rOnly.Check(app != nil, "traversal", "-", "")
		rOnly.Min(2)
	}
	c.specialTable(rTable)
	c.overridesObeyed(rWeave)
}

// reachesOutside: a root from which f is called without passing through one of the allowed functions.
func (c *Ctx) reachesOutside(f *ssa.Function, allowed, seen map[*ssa.Function]bool) string {
	if allowed[f] || seen[f] {
		return ""
	}
	seen[f] = true
	n := 0
	for _, ci := range c.W.Callers(f) {
		n++
		if bad := c.reachesOutside(ci.Parent(), allowed, seen); bad != "" {
			return bad
		}
	}
	if f.Parent() != nil {
		for _, s := range c.W.ClosureSites(f) {
			n++
			if bad := c.reachesOutside(s.Parent(), allowed, seen); bad != "" {
				return bad
			}
		}
	}
	if n == 0 {
		return short(f)
	}
	return ""
}

// ignoreTest evaluates the directive test for each class of comments.
func (c *Ctx) ignoreTest(r *R, f *ssa.Function) {
	region := c.Region(f)
	comments := func(v ssa.Value) bool {
		return c.derives(v, func(o ssa.Value) bool {
			call, ok := o.(*ssa.Call)
			if !ok {
				return false
			}
			obj := eng.CalleeObj(call)
			return obj != nil && (obj.Name() == "Decorations" || obj.Name() == "All")
		})
	}
	loops := map[*ssa.Function][]*eng.Loop{}
	for _, g := range region {
		for _, l := range eng.Loops(g) {
			if l.Over != nil && comments(l.Over) {
				loops[g] = append(loops[g], l)
			}
		}
	}
	preds := map[ssa.Value]*ssa.Function{}
	for _, ci := range c.W.CallsTo(region, "slices.ContainsFunc") {
		if comments(ci.Common().Args[0]) {
			if fs := c.funcsOf(ci.Common().Args[1]); len(fs) == 1 {
				preds[ci.(*ssa.Call)] = fs[0]
			}
		}
	}
	r.Check(len(loops)+len(preds) > 0, "all comments", c.W.Pos(f.Pos()), "not all comments in front of the node are looked at")
	for _, ls := range loops {
		for _, l := range ls {
			part := false
			c.W.Origins(l.Over, func(o ssa.Value) eng.Step {
				switch o.(type) {
				case *ssa.Slice:
					part = true
				case *ssa.Call:
					return eng.Stop
				}
				return eng.Follow
			})
			r.Check(!part && forward(l), "every comment", c.W.Pos(f.Pos()), "only some of the comments in front of the node are looked at")
		}
	}
	// the comments in front of the node, and only these
	instrs(region, func(_ *ssa.Function, in ssa.Instruction) {
		if fa, ok := in.(*ssa.FieldAddr); ok && eng.TypeKey(eng.Deref(fa.X.Type())) == "github.com/dave/dst.NodeDecs" {
			r.Check(eng.FieldVar(fa).Name() == "Start", "comments", c.W.At(in), "directives are looked for in comments that do not precede the node")
		}
	})
	var eval func(text string) (all, none bool)
	eval = func(text string) (bool, bool) {
		all, none := true, true
		examined := false
		isElem := func(v ssa.Value) bool {
			ins, ok := v.(ssa.Instruction)
			if !ok {
				return false
			}
			for _, l := range loops[ins.Parent()] {
				if b, isB := v.Type().Underlying().(*types.Basic); isB && b.Kind() == types.String && l.IsElem(v) {
					return true
				}
			}
			return false
		}
		ex := &eng.Exploration{W: c.W, Repeat: true, Atom: func(v ssa.Value) (eng.AV, bool) {
			if isElem(v) {
				return eng.AStr(text), true
			}
			if p, ok := preds[v]; ok {
				sub := &eng.Exploration{W: c.W}
				a, n := true, true
				for _, o := range sub.Run(p, eng.AStr(text)) {
					a = a && !o.Panics && o.Rets[0].IsTrue()
					n = n && !o.Panics && o.Rets[0].IsFalse()
				}
				if a != n {
					return eng.ABool(a), true
				}
				return eng.AUnk(), true
			}
			return eng.AV{}, false
		}, Event: func(in ssa.Instruction) string {
			for _, l := range loops[in.Parent()] {
				if headOf(l, in) {
					return "head"
				}
			}
			if v, ok := in.(ssa.Value); ok {
				if isElem(v) {
					return "elem"
				}
				if _, ok := preds[v]; ok {
					return "elem"
				}
			}
			return ""
		}}
		for _, o := range ex.Run(f) {
			if !o.Has("elem") {
				if o.Panics || !o.Rets[0].IsFalse() {
					none = false
				}
				all = all && !o.Has("head+") // a comment was passed over
				continue
			}
			if o.Has("head") && !o.Has("head+") {
				none = false // the following comments are not looked at
			}
			examined = true
			all = all && !o.Panics && o.Rets[0].IsTrue()
			none = none && !o.Panics && o.Rets[0].IsFalse()
		}
		if !examined || ex.Exhausted {
			return false, false
		}
		return all, none
	}
	for _, d := range []string{"//orchestrion:ignore", "//dd:ignore"} {
		for _, text := range []string{d, d + " ", d + " because", d + " because: //orchestrion"} {
			all, _ := eval(text)
			r.Check(all, "directive "+strings.ReplaceAll(text, " ", "_"), c.W.Pos(f.Pos()), "a node preceded by %q is not ignored", text)
		}
		for _, text := range []string{d + "d", d + ":x", d[2:], "// " + d[2:], "/" + d, "// see " + d, strings.ToUpper(d), d[:len(d)-1], "//", ""} {
			_, none := eval(text)
			r.Check(none, "no directive "+strings.ReplaceAll(text, " ", "_"), c.W.Pos(f.Pos()), "a node preceded by %q is ignored", text)
		}
	}
}

// headOf: in is the point of a loop's header that every iteration goes through.
func headOf(l *eng.Loop, in ssa.Instruction) bool {
	if in.Block() != l.Header {
		return false
	}
	for _, x := range l.Header.Instrs {
		if _, ok := x.(*ssa.Phi); !ok {
			return x == in
		}
	}
	return false
}

type row map[string]constant.Value

// specialTable decides each representative import path by the rules, one after the other.
func (c *Ctx) specialTable(r *R) {
	w := c.W
	find := r.Fn(weavePkg, "FindBehaviorOverride")
	if find == nil {
		return
	}
	var table *ssa.Global
	var loop *eng.Loop
	for _, f := range c.Region(find) {
		for _, l := range eng.Loops(f) {
			if l.Over == nil {
				continue
			}
			v := l.Over
			if u, ok := v.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					table, loop = g, l
				}
			}
			if g, ok := v.(*ssa.Global); ok {
				table, loop = g, l
			}
		}
	}
	index := map[ssa.Value]*ssa.Function{}
	for _, ci := range w.CallsTo(c.Region(find), "slices.IndexFunc") {
		u, _ := ci.Common().Args[0].(*ssa.UnOp)
		if u == nil {
			continue
		}
		if g, ok := u.X.(*ssa.Global); ok && table == nil {
			if fs := c.funcsOf(ci.Common().Args[1]); len(fs) == 1 {
				table, index[ci.(*ssa.Call)] = g, fs[0]
			}
		}
	}
	if table == nil {
		r.Bad("table", w.Pos(find.Pos()), "the rules are not looked at one after the other")
		return
	}
	st, ok := elemStruct(table.Type())
	if !ok {
		r.Bad("table", w.Pos(table.Pos()), "the rules are not structures")
		return
	}
	r.Check(loop == nil || forward(loop), "order", w.Pos(find.Pos()), "the rules are not looked at in the order they are listed")
	rows, why := c.tableRows(table, st)
	if why != "" {
		r.Bad("table rows", w.Pos(table.Pos()), "%s", why)
		return
	}
	c.Count("override rules", len(rows))
	consts := map[string]int64{}
	for _, n := range []string{"NoOverride", "NeverWeave", "WeaveTracerInternal"} {
		if k, ok := w.Pkg(weavePkg).Types.Scope().Lookup(n).(*types.Const); ok {
			v, _ := constInt(k)
			consts[n] = v
		} else {
			r.Bad("constant "+n, "-", "override not found")
		}
	}
	decide := func(path string) (string, string) {
		for _, rw := range rows {
			var atom func(v ssa.Value) (eng.AV, bool)
			atom = func(v ssa.Value) (eng.AV, bool) {
				if fv := fieldOfLoad(v); fv != nil {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i) == fv {
							return eng.AV{K: eng.AConst, C: rw[fv.Name()]}, true
						}
					}
				}
				if p, ok := index[v]; ok {
					sub := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
						x := v
						if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
							x = u.X
						}
						if fv, ok := x.(*ssa.FreeVar); ok && types.Identical(eng.Deref(fv.Type()), types.Typ[types.String]) {
							return eng.AStr(path), true
						}
						return atom(v)
					}}
					res := eng.AUnk()
					for i, o := range sub.Run(p) {
						n := eng.AUnk()
						switch {
						case o.Panics:
						case o.Rets[0].IsTrue():
							n = eng.AInt(0)
						case o.Rets[0].IsFalse():
							n = eng.AInt(-1)
						}
						if i > 0 && n.String() != res.String() {
							n = eng.AUnk()
						}
						res = n
					}
					return res, true
				}
				return eng.AV{}, false
			}
			ex := &eng.Exploration{W: w, Repeat: true, Atom: atom, Event: func(in ssa.Instruction) string {
				ins, isVal := in.(ssa.Value)
				if loop == nil {
					if _, ok := index[ins]; ok && isVal {
						return "row"
					}
					return ""
				}
				if headOf(loop, in) {
					return "head"
				}
				if isVal && loop.IsElem(ins) {
					return "row"
				}
				for _, s := range loop.Header.Succs {
					if loop.Blocks[s] && in == s.Instrs[0] {
						return "row"
					}
				}
				return ""
			}}
			var hit, miss, other bool
			beh := ""
			for _, o := range ex.Run(find, eng.AStr(path)) {
				if !o.Has("row") {
					if o.Panics || len(o.Rets) != 2 || !o.Rets[1].IsFalse() {
						other = true
					}
					continue
				}
				switch {
				case o.Panics || len(o.Rets) != 2:
					other = true
				case loop != nil && o.Has("head+") == o.Rets[1].IsTrue():
					other = true // goes on after a match, or stops without one
				case o.Rets[1].IsTrue() && o.Rets[0].K == eng.AConst:
					hit = true
					beh = o.Rets[0].C.ExactString()
				case o.Rets[1].IsFalse():
					miss = true
				default:
					other = true
				}
			}
			if other || hit == miss || ex.Exhausted {
				return "", fmt.Sprintf("cannot decide whether the rule for %v matches", rw["path"])
			}
			if hit {
				for n, v := range consts {
					if fmt.Sprint(v) == beh {
						return n, ""
					}
				}
				return "", "unknown override " + beh
			}
		}
		return "none", ""
	}
	const gh = "github.com/DataDog/"
	for _, t := range []struct{ path, want string }{
		{gh + "orchestrion", "NeverWeave"},
		{gh + "orchestrion/internal/injector", "NeverWeave"},
		{gh + "orchestrion/instrument", "NeverWeave"},
		{gh + "orchestrion/runtime", "NoOverride"},
		{gh + "orchestrion/runtime/built", "NoOverride"},
		{gh + "orchestrion/runtimes", "NeverWeave"},
		{gh + "orchestrion-samples", "none"},
		{gh + "orchestrion.v2/x", "none"},
		{"gopkg.in/DataDog/dd-trace-go.v1", "WeaveTracerInternal"},
		{"gopkg.in/DataDog/dd-trace-go.v1/ddtrace/tracer", "WeaveTracerInternal"},
		{"gopkg.in/DataDog/dd-trace-go.v12/ddtrace", "none"},
		{gh + "dd-trace-go/v2/ddtrace/tracer", "WeaveTracerInternal"},
		{gh + "dd-trace-go/contrib/net/http/v2", "WeaveTracerInternal"},
		{gh + "dd-trace-go/internal/orchestrion/_integration/os", "NoOverride"},
		{gh + "dd-trace-go/v2/internal/orchestrion/_integration/os", "NoOverride"},
		{gh + "dd-trace-go/internal/orchestrion/_integrations", "WeaveTracerInternal"},
		{gh + "dd-trace-gopher", "none"},
		{gh + "go-tuf/client", "NeverWeave"},
		{gh + "go-tuf/client/x", "none"},
		{gh + "go-tuf/data", "none"},
		{"example.com/" + gh + "orchestrion", "none"},
		{"main", "none"}, {"net/http", "none"}, {"", "none"},
	} {
		got, why := decide(t.path)
		ok := got == t.want || (t.want == "none" && got == "NoOverride") || (t.want == "NoOverride" && got == "none")
		if why != "" {
			r.Bad("override of "+t.path, w.Pos(find.Pos()), "%s", why)
			continue
		}
		r.Check(ok, "override of "+t.path, w.Pos(find.Pos()), "package %q gets override %s, not %s", t.path, got, t.want)
	}
}

// forward: the loop goes from the first element to the last.
func forward(l *eng.Loop) bool {
	if l.Next != nil {
		return false // a map or string
	}
	var phi *ssa.Phi
	switch k := l.Key.(type) {
	case *ssa.Phi:
		phi = k
	case *ssa.BinOp:
		phi, _ = k.X.(*ssa.Phi)
	}
	if phi == nil {
		return false
	}
	for i, e := range phi.Edges {
		if l.Blocks[phi.Block().Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			n, isC := int64(0), false
			if ok {
				n, isC = eng.ConstInt(b.Y)
			}
			if !ok || b.Op != token.ADD || !isC || n != 1 {
				return false
			}
			continue
		}
		n, ok := eng.ConstInt(e)
		_, ranged := l.Key.(*ssa.BinOp)
		if !ok || (ranged && n != -1) || (!ranged && n != 0) {
			return false
		}
	}
	return true
}

func elemStruct(t types.Type) (*types.Struct, bool) {
	t = eng.Deref(t)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s, ok := eng.Deref(u.Elem()).Underlying().(*types.Struct)
		return s, ok
	case *types.Array:
		s, ok := eng.Deref(u.Elem()).Underlying().(*types.Struct)
		return s, ok
	}
	return nil, false
}

// tableRows reads the rows of a package-level table of structures from its initialiser.
func (c *Ctx) tableRows(g *ssa.Global, st *types.Struct) ([]row, string) {
	var stores []*ssa.Store
	for _, f := range c.W.Funcs {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				stores = append(stores, s)
			}
		})
	}
	if len(stores) != 1 {
		return nil, "the table is not assigned exactly once"
	}
	var arr ssa.Value
	if sl, ok := stores[0].Val.(*ssa.Slice); ok {
		arr = sl.X
	}
	al, ok := arr.(*ssa.Alloc)
	if !ok {
		return nil, "the table is not a literal"
	}
	n := eng.Deref(al.Type()).Underlying().(*types.Array).Len()
	rows := make([]row, n)
	for i := range rows {
		rows[i] = row{}
		for k := 0; k < st.NumFields(); k++ {
			f := st.Field(k)
			b, ok := f.Type().Underlying().(*types.Basic)
			if !ok {
				return nil, "field " + f.Name() + " is not a constant"
			}
			switch {
			case b.Info()&types.IsBoolean != 0:
				rows[i][f.Name()] = constant.MakeBool(false)
			case b.Info()&types.IsString != 0:
				rows[i][f.Name()] = constant.MakeString("")
			default:
				rows[i][f.Name()] = constant.MakeInt64(0)
			}
		}
	}
	for _, ref := range useRefs(al) {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := eng.ConstInt(ia.Index)
		if !ok || i < 0 || i >= n {
			return nil, "rows cannot be told apart"
		}
		if why := rowFields(ia, rows[i]); why != "" {
			return nil, why
		}
	}
	return rows, ""
}

// rowFields reads the constants stored into the fields of the structure at addr.
func rowFields(addr ssa.Value, rw row) string {
	for _, rr := range useRefs(addr) {
		switch x := rr.(type) {
		case *ssa.FieldAddr:
			for _, r3 := range useRefs(x) {
				s, ok := r3.(*ssa.Store)
				if !ok {
					return "a row is used in another way"
				}
				k, ok := s.Val.(*ssa.Const)
				if !ok || k.Value == nil {
					return "a row is not constant"
				}
				rw[eng.FieldVar(x).Name()] = k.Value
			}
		case *ssa.Store:
			if k, ok := x.Val.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			u, ok := x.Val.(*ssa.UnOp)
			if !ok {
				return "a row is not a literal"
			}
			al, ok := u.X.(*ssa.Alloc)
			if !ok {
				return "a row is not a literal"
			}
			if why := rowFields(al, rw); why != "" {
				return why
			}
		}
	}
	return ""
}

// overridesObeyed: what the weaver does about each override.
func (c *Ctx) overridesObeyed(r *R) {
	w := c.W
	oc := r.Fn(weavePkg, "Weaver.OnCompile")
	tracerInternal := r.Field("internal/injector/aspect", "Aspect", "TracerInternal")
	if oc == nil || tracerInternal == nil {
		return
	}
	path := r.Field(weavePkg, "Weaver", "ImportPath")
	isFind := func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		return ok && eng.MKey(call) == weavePkg+".FindBehaviorOverride"
	}
	nf := 0
	for _, f := range c.Region(oc) {
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok || !isFind(call) {
				continue
			}
			nf++
			r.Check(c.derivesField(call.Call.Args[0], path) || isFieldVal(call.Call.Args[0], path), "override of the package", w.At(call), "the override is looked up for something else than the package being compiled")
		}
	}
	r.Check(nf > 0, "override looked up", w.Pos(oc.Pos()), "no override is looked up for the package being compiled")
	// the filter
	filters := map[ssa.Value]bool{}
	for _, ci := range w.CallsTo(c.Region(oc), "slices.DeleteFunc") {
		call, ok := ci.(*ssa.Call)
		if !ok || !aspectList(call.Call.Args[0].Type()) {
			continue
		}
		good := false
		for _, p := range c.funcsOf(call.Call.Args[1]) {
			good = true
			for _, ti := range []bool{true, false} {
				ex := &eng.Exploration{W: w, Atom: func(v ssa.Value) (eng.AV, bool) {
					if fieldOfLoad(v) == tracerInternal {
						return eng.ABool(ti), true
					}
					return eng.AV{}, false
				}}
				for _, o := range ex.Run(p) {
					if o.Panics || (ti && !o.Rets[0].IsFalse()) || (!ti && !o.Rets[0].IsTrue()) {
						good = false
					}
				}
			}
		}
		filters[call] = good
	}
	for _, g := range c.Region(oc) {
		for _, l := range eng.Loops(g) {
			if l.Over == nil || !aspectList(l.Over.Type()) {
				continue
			}
			ti := func(lit eng.Lit) (bool, bool) {
				if fieldOfLoad(lit.V) == tracerInternal {
					return lit.Pol, true
				}
				return false, false
			}
			for b := range l.Blocks {
				for _, in := range b.Instrs {
					call := builtinCall(in, "append")
					if call == nil || !aspectList(call.Type()) {
						continue
					}
					only := w.MustHoldLocal(in, func(x eng.Lit) bool { p, is := ti(x); return is && p })
					all := l.Always(func(x ssa.Instruction) bool { return x == in }, func(x eng.Lit) bool { p, is := ti(x); return is && !p })
					if only && all {
						for _, ph := range l.Header.Instrs {
							if phi, ok := ph.(*ssa.Phi); ok && aspectList(phi.Type()) {
								filters[phi] = true
							}
						}
					}
				}
			}
		}
	}
	kinds := map[string]int64{}
	for _, n := range []string{"NoOverride", "NeverWeave", "WeaveTracerInternal"} {
		if k, ok := w.Pkg(weavePkg).Types.Scope().Lookup(n).(*types.Const); ok {
			kinds[n], _ = constInt(k)
		}
	}
	for _, t := range []struct {
		name    string
		beh     int64
		special bool
	}{
		{"NeverWeave", kinds["NeverWeave"], true},
		{"WeaveTracerInternal", kinds["WeaveTracerInternal"], true},
		{"NoOverride", kinds["NoOverride"], true},
		{"none", kinds["NoOverride"], false},
	} {
		woven, bad := false, ""
		ex := &eng.Exploration{W: w}
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			if isFind(v) {
				return tuple(eng.AInt(t.beh), eng.ABool(t.special)), true
			}
			if good, ok := filters[v]; ok {
				if good {
					return eng.AStr("tracer-internal"), true
				}
				return eng.AStr("other"), true
			}
			if call, ok := v.(*ssa.Call); ok {
				switch k := eng.MKey(call); {
				case strings.HasSuffix(k, ".Aspects") && aspectList(call.Type()):
					return eng.AStr("all"), true
				case k == "slices.Clone":
					return eng.AV{}, false
				}
			}
			return eng.AV{}, false
		}
		ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			switch k := eng.MKey(ci); {
			case k == injPkg+".Injector.InjectFiles":
				woven = true
				a := eval(ci.Common().Args[len(ci.Common().Args)-1])
				want := "all"
				if t.name == "WeaveTracerInternal" {
					want = "tracer-internal"
				}
				if a.K != eng.AConst || a.C.Kind() != constant.String || constant.StringVal(a.C) != want {
					bad = fmt.Sprintf("weaving uses %s aspects, not the %s ones", a, want)
				}
				return true
			case strings.Contains(k, "CompileCommand.") && (strings.HasSuffix(k, ".ReplaceParam") || strings.HasSuffix(k, ".AddFiles") || strings.HasSuffix(k, ".SetLang")):
				if t.name == "NeverWeave" {
					bad = "the compile command is changed"
				}
			}
			return false
		}
		ex.Run(oc)
		if ex.Exhausted {
			bad = "not all paths could be explored"
		}
		if t.name == "NeverWeave" {
			r.Check(!woven && bad == "", "weaver "+t.name, w.Pos(oc.Pos()), "a package never to be woven is woven %s", bad)
		} else {
			r.Check(woven && bad == "", "weaver "+t.name, w.Pos(oc.Pos()), "%s", bad)
		}
	}
	// the package woven is the one the override was looked up for
	ip := r.Field(injPkg, "Injector", "ImportPath")
	for _, s := range w.FieldStores(ip) {
		r.Check(isFieldVal(s.Val, path) || c.derivesField(s.Val, path), "package woven", w.At(s.Instr), "another package is woven than the override was looked up for")
	}
	for _, s := range w.FieldStores(path) {
		r.Check(c.derivesExternalCall(s.Val, "os.Getenv") || c.derivesCall(s.Val, "os.Getenv", "os.LookupEnv"), "package compiled", w.At(s.Instr), "the weaver is not told the package being compiled")
	}
}
