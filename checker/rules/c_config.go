package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "C02", Technique: "completeness of loops and accumulations over the loader's structures, path analysis of what is skipped, and value provenance of file names", Run: runConfig})
}

const configPkg = "internal/injector/config"

// runConfig decides C02.
func runConfig(c *Ctx) {
	rAll := c.Rule("C02.all", "the aspects (and the visit) of a configuration cover everything it is made of, nothing being dropped or repeated")
	rGo := c.Rule("C02.imports", "every import of a tool file, and every entry of extends, is loaded")
	rOnce := c.Rule("C02.once", "each configuration file is loaded at most once")
	rEmpty := c.Rule("C02.skipped", "only what contributes nothing is left out")
	rOwn := c.Rule("C02.contents", "the configuration built holds all that was read from its files")
	rMiss := c.Rule("C02.missing", "only the absence of a package's own files is tolerated")
	rVal := c.Rule("C02.validated", "when validation is asked for, nothing invalid is accepted")
	rUse := c.Rule("C02.used", "weaving uses the configuration of the main module")

	cf := c.configTypes(rAll)
	if cf == nil {
		return
	}
	cf.gathered(rAll)
	cf.loaded(rGo, rEmpty)
	cf.once(rOnce)
	cf.contents(rOwn)
	cf.missing(rMiss)
	cf.validated(rVal)
	cf.used(rUse)
}

// configs describes the types configurations are made of.
type configs struct {
	*Ctx
	iface *types.Interface
	impls []*types.Named
}

func (c *Ctx) configTypes(r *R) *configs {
	obj := c.W.Type(configPkg, "Config")
	if obj == nil {
		r.Bad("anchor Config", "-", "type not found")
		return nil
	}
	cf := &configs{Ctx: c, iface: obj.Underlying().(*types.Interface)}
	for _, n := range c.W.NamedTypes() {
		if n.Obj().Pkg() == nil || n.Obj().Pkg() != obj.Obj().Pkg() {
			continue
		}
		if _, isI := n.Underlying().(*types.Interface); !isI && types.Implements(types.NewPointer(n), cf.iface) {
			cf.impls = append(cf.impls, n)
		}
	}
	r.Check(len(cf.impls) >= 2, "implementations", "-", "fewer than two kinds of configuration found")
	c.Count("kinds of configuration", len(cf.impls))
	return cf
}

func (cf *configs) impl(t types.Type) *types.Named {
	n, _ := eng.Deref(t).(*types.Named)
	for _, m := range cf.impls {
		if m == n {
			return m
		}
	}
	return nil
}

// nested: the field holds other configurations; list tells whether several.
func (cf *configs) nested(f *types.Var) (is, list bool) {
	if s, ok := f.Type().Underlying().(*types.Slice); ok {
		e := s.Elem()
		if types.Identical(e.Underlying(), cf.iface) || cf.impl(e) != nil {
			return true, true
		}
		return false, false
	}
	if types.Identical(f.Type().Underlying(), cf.iface) || cf.impl(f.Type()) != nil {
		return true, false
	}
	return false, false
}

// own: the field holds aspects.
func ownAspects(f *types.Var) bool {
	s, ok := f.Type().Underlying().(*types.Slice)
	return ok && strings.HasSuffix(eng.Deref(s.Elem()).String(), "/aspect.Aspect")
}

// isRecvNil: the literal says the receiver (or a value of the same type) is nil.
func (cf *configs) nilOf(ts ...types.Type) func(eng.Lit) bool {
	return func(l eng.Lit) bool {
		return nilLit(l, func(v ssa.Value) bool {
			for _, t := range ts {
				if types.Identical(eng.Deref(v.Type()), t) {
					return true
				}
			}
			return false
		}) == "nil"
	}
}

func isMethodCall(in ssa.Instruction, name string) *ssa.Call {
	call, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	if call.Call.IsInvoke() {
		if call.Call.Method.Name() == name {
			return call
		}
		return nil
	}
	if f := call.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && f.Name() == name {
		return call
	}
	return nil
}

func callRecv(call *ssa.Call) ssa.Value {
	if call.Call.IsInvoke() {
		return call.Call.Value
	}
	return call.Call.Args[0]
}

// joins: the call makes a list out of others (append, slices.Concat...).
func joins(in ssa.Instruction) *ssa.Call {
	call, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return call
	}
	switch eng.Key(call) {
	case "slices.Concat", "slices.Insert", "slices.AppendSeq":
		return call
	}
	return nil
}

// accumulated: whatever src gives in m is part of every result m can return after it.
func (c *Ctx) accumulated(m *ssa.Function, src ssa.Value, at ssa.Instruction, elem func(types.Type) bool) string {
	w := c.W
	var adders []*ssa.Call
	for _, b := range m.Blocks {
		for _, in := range b.Instrs {
			if j := joins(in); j != nil {
				if s, ok := j.Type().Underlying().(*types.Slice); ok && elem(s.Elem()) {
					adders = append(adders, j)
				}
			}
		}
	}
	uses := func(v ssa.Value, x ssa.Value) bool {
		return c.derivesIn(m, v, func(o ssa.Value) bool { return o == x })
	}
	usedBy := func(call *ssa.Call, x ssa.Value) bool {
		for _, a := range call.Call.Args {
			if uses(a, x) {
				return true
			}
		}
		return false
	}
	// from holders of the source on, every later step keeps it
	holders := map[*ssa.Call]bool{}
	var first []*ssa.Call
	for _, a := range adders {
		for _, arg := range a.Call.Args {
			if arg == src || c.directly(m, arg, src) {
				first = append(first, a)
				holders[a] = true
			}
		}
	}
	if l := eng.InnermostLoop(at.Block()); l != nil {
		for _, in := range l.Header.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for _, e := range phi.Edges {
				if _, isPhi := eng.ResolveLocal(e).(*ssa.Phi); !isPhi && c.directly(m, e, src) {
					return "what was gathered before is dropped"
				}
			}
		}
	}
	for _, rt := range eng.Returns(m) {
		if !eng.CanReach(at, rt) || eng.ErrIndex(m.Signature) >= 0 && !w.MaySucceed(rt) {
			continue
		}
		if len(rt.Results) > 0 && c.directly(m, rt.Results[0], src) {
			if l := eng.InnermostLoop(at.Block()); l != nil && !l.Blocks[rt.Block()] && len(first) == 0 {
				return "what was gathered before is dropped"
			}
			continue
		}
		if len(first) == 0 {
			return "what it gives is not part of the result"
		}
		for _, a := range first {
			if eng.CanReach(a, rt) && !uses(rt.Results[0], a) {
				return "what it gives may be missing from the result"
			}
		}
	}
	for _, a := range first {
		for _, b := range adders {
			if eng.CanReach(a, b) && !usedBy(b, a) && (b != a || eng.InnermostLoop(a.Block()) != nil) {
				return "what was gathered before is dropped"
			}
		}
	}
	return ""
}

// directly: v is x, through local variables and variadic argument lists only.
func (c *Ctx) directly(m *ssa.Function, v, x ssa.Value) bool {
	v = eng.ResolveLocal(v)
	if v == x || eng.ResolveLocal(x) == v {
		return true
	}
	switch y := v.(type) {
	case *ssa.Extract:
		return y.Tuple == x
	case *ssa.MakeInterface:
		return c.directly(m, y.X, x)
	case *ssa.ChangeInterface:
		return c.directly(m, y.X, x)
	case *ssa.Slice:
		for _, e := range eng.VarArgs(v) {
			if c.directly(m, e, x) {
				return true
			}
		}
		if _, isAlloc := y.X.(*ssa.Alloc); !isAlloc {
			return c.directly(m, y.X, x)
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if e != v && c.directly(m, e, x) {
				return true
			}
		}
	}
	return false
}

func (cf *configs) gathered(r *R) {
	w := cf.W
	isAspect := func(t types.Type) bool { return strings.HasSuffix(eng.Deref(t).String(), "/aspect.Aspect") }
	for _, n := range cf.impls {
		for _, name := range []string{"Aspects", "visit"} {
			m := cf.method(n, name)
			if m == nil {
				r.Bad(n.Obj().Name()+"."+name, "-", "method not found")
				continue
			}
			label := n.Obj().Name() + "." + name
			noRecv := cf.contradictsOnly(cf.nilOf(n))
			exit := func(rt *ssa.Return) bool { return eng.ErrIndex(m.Signature) < 0 || w.MaySucceed(rt) }
			if name == "visit" && cf.isFile(n) {
				told := func(in ssa.Instruction) bool {
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.IsInvoke() || call.Call.StaticCallee() != nil || len(call.Call.Args) != 2 {
						return false
					}
					p, ok := eng.ResolveLocal(call.Call.Value).(*ssa.Parameter)
					return ok && p == m.Params[1] && cf.directly(m, call.Call.Args[0], m.Params[0])
				}
				r.Check(w.MustDo(m, told, exit, noRecv) == nil, label+" itself", w.Pos(m.Pos()), "the visitor may not be told about the file itself")
			}
			for _, fv := range structFields(n) {
				is, list := cf.nested(fv)
				own := ownAspects(fv)
				switch {
				case own && name == "Aspects":
					var src []ssa.Value
					var at ssa.Instruction
					for _, ld := range fieldLoads([]*ssa.Function{m}, fv) {
						src, at = append(src, ld.(ssa.Value)), ld
					}
					if len(src) == 0 {
						r.Bad(label+"."+fv.Name(), w.Pos(m.Pos()), "its own aspects are not part of the result")
						continue
					}
					why := ""
					okOne := false
					for _, s := range src {
						if x := cf.accumulated(m, s, s.(ssa.Instruction), isAspect); x == "" {
							okOne = true
						} else {
							why = x
						}
					}
					_ = at
					always := func(in ssa.Instruction) bool {
						for _, s := range src {
							if in == s.(ssa.Instruction) {
								return true
							}
						}
						return false
					}
					skip := func(l eng.Lit) bool {
						return noRecv(l) || emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, fv) }) == "empty"
					}
					r.Check(okOne && w.MustDo(m, always, exit, skip) == nil, label+"."+fv.Name(), w.Pos(m.Pos()), "its own aspects may be missing from the result %s", why)
				case is && list:
					cf.everyOne(r, m, label+"."+fv.Name(), fv, name, noRecv, exit, isAspect)
				case is:
					skip := func(l eng.Lit) bool {
						return noRecv(l) || nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fv) }) == "nil"
					}
					var calls []*ssa.Call
					ev := func(in ssa.Instruction) bool {
						call := isMethodCall(in, name)
						if call == nil || !isFieldVal(callRecv(call), fv) {
							return false
						}
						calls = append(calls, call)
						return true
					}
					ok := w.MustDo(m, w.LiftEvent(ev), exit, skip) == nil
					r.Check(ok && len(calls) > 0, label+"."+fv.Name(), w.Pos(m.Pos()), "%s may leave out this part", name)
					if name == "Aspects" {
						for _, call := range calls {
							why := cf.accumulated(call.Parent(), call, call, isAspect)
							r.Check(why == "", label+"."+fv.Name()+" kept", w.At(call), "%s", why)
						}
					}
				}
			}
			if name == "Aspects" {
				// a nil configuration gives none, but nothing else ends early
				for _, rt := range eng.Returns(m) {
					if eng.IsNilConst(eng.ResolveLocal(rt.Results[0])) {
						ok := w.MustHold(rt, cf.nilOf(n))
						r.Check(ok, label+" nothing", w.At(rt), "no aspects are returned although there may be some")
					}
				}
			}
		}
	}
	r.Min(10)
}

// contradictsOnly: the literal holds when pred does (pred being what makes a path irrelevant).
func (cf *configs) contradictsOnly(pred func(eng.Lit) bool) func(eng.Lit) bool {
	return func(l eng.Lit) bool { return cf.W.Implies(l, pred) }
}

// isFile: the type describes one configuration file.
func (cf *configs) isFile(n *types.Named) bool {
	o := cf.W.Type(configPkg, "File")
	if o == nil {
		return false
	}
	i, ok := o.Underlying().(*types.Interface)
	return ok && types.Implements(types.NewPointer(n), i)
}

// everyOne: every element of the list field has its method called, and what it gives is kept.
func (cf *configs) everyOne(r *R, m *ssa.Function, label string, fv *types.Var, name string, noRecv func(eng.Lit) bool, exit func(*ssa.Return) bool, elem func(types.Type) bool) {
	w := cf.W
	var loop *eng.Loop
	for _, g := range cf.Region(m) {
		if g != m && (g.Parent() == nil && g.Object() != nil && g.Object().Exported() || cf.isMethodOf(g, name)) {
			continue
		}
		for _, l := range eng.Loops(g) {
			if l.Over == nil {
				continue
			}
			for _, v := range cf.valuesIn(m, l.Over, 0) {
				if isFieldVal(v, fv) {
					loop = l
				}
			}
		}
	}
	if loop == nil {
		r.Bad(label, w.Pos(m.Pos()), "its elements are not enumerated")
		return
	}
	head := loop.Header.Instrs[0]
	reach := func(in ssa.Instruction) bool { return in == head }
	skip := func(l eng.Lit) bool {
		return noRecv(l) || emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, fv) }) == "empty"
	}
	r.Check(w.MustDo(m, w.LiftEvent(reach), exit, skip) == nil, label+" enumerated", w.At(head), "its elements may not be enumerated")
	var calls []*ssa.Call
	ev := func(in ssa.Instruction) bool {
		call := isMethodCall(in, name)
		if call == nil || !loop.IsElem(callRecv(call)) {
			return false
		}
		calls = append(calls, call)
		return true
	}
	ok := loop.Always(ev, nil) && w.EarlyExit(loop, nil) == nil && len(calls) > 0
	r.Check(ok, label+" each", w.At(head), "%s may leave out some elements", name)
	if name != "Aspects" {
		return
	}
	for _, call := range calls {
		why := cf.accumulated(call.Parent(), call, call, elem)
		r.Check(why == "", label+" kept", w.At(call), "%s", why)
	}
}

func (cf *configs) isMethodOf(g *ssa.Function, name string) bool {
	return g.Signature.Recv() != nil && g.Name() == name
}

// leaves are the fields of n (and of the configurations it points to) that hold something.
type leaf struct {
	f     *types.Var
	types []types.Type // nil pointers on the way to it
	via   []*types.Var
}

func (cf *configs) leaves(n *types.Named, d int) []leaf {
	var res []leaf
	if d > 3 {
		return nil
	}
	for _, fv := range structFields(n) {
		is, list := cf.nested(fv)
		if is && list || ownAspects(fv) {
			res = append(res, leaf{fv, []types.Type{n}, nil})
			continue
		}
		if m := cf.impl(fv.Type()); is && m != nil {
			for _, l := range cf.leaves(m, d+1) {
				res = append(res, leaf{l.f, append([]types.Type{n}, l.types...), append([]*types.Var{fv}, l.via...)})
			}
		}
	}
	return res
}

// hollow: the literal implies that a configuration of type n holds nothing.
func (cf *configs) hollow(lits []eng.Lit, n *types.Named) bool {
	any := func(pred func(eng.Lit) bool) bool {
		for _, l := range lits {
			if cf.W.Implies(l, pred) {
				return true
			}
		}
		return false
	}
	if _, isI := n.Underlying().(*types.Interface); isI {
		return any(cf.nilOf(n))
	}
	lv := cf.leaves(n, 0)
	if len(lv) == 0 {
		return false
	}
	for _, lf := range lv {
		if !any(func(x eng.Lit) bool {
			if cf.nilOf(lf.types...)(x) {
				return true
			}
			return emptyLit(x, func(v ssa.Value) bool { return isFieldVal(v, lf.f) }) == "empty"
		}) {
			return false
		}
	}
	return true
}

// loaders are the functions giving a configuration from a file or package.
func (cf *configs) loaders() map[*ssa.Function]*types.Named {
	res := map[*ssa.Function]*types.Named{}
	for _, f := range cf.W.FuncsIn(configPkg) {
		if f.Parent() != nil || f.Signature.Recv() == nil || f.Signature.Results().Len() != 2 || eng.ErrIndex(f.Signature) < 0 {
			continue
		}
		if n, _ := f.Signature.Results().At(0).Type().(*types.Named); n != nil && types.Identical(n.Underlying(), cf.iface) {
			res[f] = n
		} else if n := cf.impl(f.Signature.Results().At(0).Type()); n != nil {
			if _, ptr := f.Signature.Results().At(0).Type().(*types.Pointer); ptr {
				res[f] = n
			}
		}
	}
	return res
}

func (cf *configs) loaderCall(in ssa.Instruction, ls map[*ssa.Function]*types.Named) (*ssa.Call, *types.Named) {
	call, ok := in.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	if f := call.Call.StaticCallee(); f != nil && ls[f] != nil {
		return call, ls[f]
	}
	return nil, nil
}

func (cf *configs) isConfigElem(t types.Type) bool {
	return types.Identical(t.Underlying(), cf.iface) || cf.impl(t) != nil
}

// packagesCall: the call resolves packages.
func packagesCall(in ssa.Instruction) *ssa.Call {
	call, ok := in.(*ssa.Call)
	if !ok {
		return nil
	}
	res := call.Call.Signature().Results()
	if res.Len() != 2 || !strings.HasSuffix(res.At(0).Type().String(), "packages.Package") || call.Call.Signature().Params().Len() < 2 {
		return nil
	}
	return call
}

func (cf *configs) loaded(r, rEmpty *R) {
	w := cf.W
	ls := cf.loaders()
	r.Check(len(ls) >= 2, "loaders", "-", "the functions loading configuration were not found")

	// every loop loading configurations keeps all of them
	nLoops := 0
	for _, f := range w.FuncsIn(configPkg) {
		for _, l := range eng.Loops(f) {
			var calls []*ssa.Call
			for b := range l.Blocks {
				if eng.InnermostLoop(b) == nil || eng.InnermostLoop(b).Header != l.Header {
					continue
				}
				for _, in := range b.Instrs {
					if call, _ := cf.loaderCall(in, ls); call != nil {
						calls = append(calls, call)
					}
				}
			}
			if len(calls) == 0 {
				continue
			}
			nLoops++
			name := short(f) + " " + cf.overName(l)
			ev := func(in ssa.Instruction) bool {
				call, _ := cf.loaderCall(in, ls)
				return call != nil
			}
			r.Check(l.Over != nil, name+" enumerates", w.At(l.Header.Instrs[0]), "what is loaded is not enumerated from a list")
			r.Check(l.Always(ev, nil) && w.EarlyExit(l, nil) == nil, name+" each", w.At(l.Header.Instrs[0]), "some of them may not be loaded")
			for _, call := range calls {
				_, n := cf.loaderCall(call, ls)
				keep := func(in ssa.Instruction) bool {
					j := joins(in)
					if j == nil {
						if st, ok := in.(*ssa.Store); ok {
							if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
								return l.IsKey(ia.Index) && cf.directly(f, st.Val, call)
							}
						}
						return false
					}
					for _, a := range j.Call.Args[1:] {
						if cf.directly(f, a, call) {
							return true
						}
					}
					return false
				}
				skip := func(lits []eng.Lit) bool { return cf.hollow(lits, n) }
				kept := !cf.turnEnds(call, l, keep, skip)
				rEmpty.Check(kept, name+" kept "+n.Obj().Name(), w.At(call), "a configuration that holds something may be left out")
				if why := cf.accumulated(f, call, call, cf.isConfigElem); why != "" && !cf.indexed(f, call) {
					// handed on as the elements of the configuration built
					rEmpty.Check(cf.builtInto(f, call), name+" gathered "+n.Obj().Name(), w.At(call), "%s", why)
				} else {
					rEmpty.OK(name+" gathered "+n.Obj().Name(), w.At(call))
				}
			}
		}
	}
	r.Check(nLoops >= 2, "enumerations", "-", "fewer than two enumerations of configurations found (imports, extends)")

	cf.importsEnumerated(r)
	cf.extendsEnumerated(r, ls)
	cf.emptyTests(rEmpty)
	cf.fileNames(r)
}

func (cf *configs) overName(l *eng.Loop) string {
	if l.Over == nil {
		return "loop"
	}
	if fv := loadedField(l.Over); fv != nil {
		return fv.Name()
	}
	if callOf(eng.ResolveLocal(l.Over)) != nil {
		return "packages"
	}
	return "list"
}

func (cf *configs) indexed(f *ssa.Function, call *ssa.Call) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if _, ok := st.Addr.(*ssa.IndexAddr); ok && cf.directly(f, st.Val, call) {
					return true
				}
			}
		}
	}
	return false
}

// builtInto: what call gives ends up in the configuration f builds.
func (cf *configs) builtInto(f *ssa.Function, call *ssa.Call) bool {
	var first []*ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if j := joins(in); j != nil {
				for _, a := range j.Call.Args {
					if cf.directly(f, a, call) {
						first = append(first, j)
					}
				}
			}
		}
	}
	if len(first) == 0 {
		return false
	}
	for _, a := range first {
		// later turns keep what was gathered
		base := cf.derivesIn(f, a.Call.Args[0], func(o ssa.Value) bool { return o == ssa.Value(a) })
		if !base {
			return false
		}
		stored := false
		for _, n := range cf.impls {
			for _, fv := range structFields(n) {
				is, list := cf.nested(fv)
				if !is || !list {
					continue
				}
				for _, st := range fieldStores([]*ssa.Function{f}, fv) {
					if cf.derivesIn(f, st.Val, func(o ssa.Value) bool { return o == ssa.Value(a) }) {
						stored = true
					}
				}
			}
		}
		if !stored {
			return false
		}
	}
	return true
}

// turnEnds: the turn of the loop after call can end without keep.
func (cf *configs) turnEnds(call ssa.Instruction, l *eng.Loop, keep eng.Event, skip func([]eng.Lit) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if keep(b.Instrs[i]) {
				return false
			}
		}
		for _, s := range b.Succs {
			if lit, has := eng.EdgeLit(b, s); has && skip(append(eng.DomLits(b), lit)) {
				continue
			}
			if s == l.Header {
				return true
			}
			if !l.Blocks[s] || seen[s] {
				continue
			}
			seen[s] = true
			if walk(s, 0) {
				return true
			}
		}
		return false
	}
	for i, in := range call.Block().Instrs {
		if in == call {
			return walk(call.Block(), i+1)
		}
	}
	return true
}

// importsEnumerated: the packages loaded for a tool file are all those it imports.
func (cf *configs) importsEnumerated(r *R) {
	w := cf.W
	n := 0
	for _, f := range w.FuncsIn(configPkg) {
		var parse *ssa.Call
		for _, ci := range eng.Calls(f) {
			if call, ok := ci.(*ssa.Call); ok && eng.Key(call) == "go/parser.ParseFile" {
				parse = call
			}
		}
		if parse == nil {
			continue
		}
		n++
		name := short(f)
		// parsed whole, as far as imports are concerned
		mode, isC := eng.ConstInt(parse.Call.Args[3])
		r.Check(isC && mode&1 == 0, name+" parsed", w.At(parse), "the imports may not be parsed")
		src := parse.Call.Args[2]
		opens := cf.derives(src, func(o ssa.Value) bool {
			call := callOf(o)
			return call != nil && (eng.Key(call) == "os.Open" || eng.Key(call) == "os.ReadFile")
		}) || eng.IsNilConst(src)
		r.Check(opens, name+" read", w.At(parse), "what is parsed is not the file")
		var loop *eng.Loop
		for _, g := range cf.Region(f) {
			for _, l := range eng.Loops(g) {
				if l.Over != nil && extField(l.Over, "go/ast.File", "Imports") {
					loop = l
				}
			}
		}
		if loop == nil {
			r.Bad(name+" imports", w.At(parse), "the file's imports are not enumerated")
			continue
		}
		g := loop.Fn
		var adds []*ssa.Call
		var lists []ssa.Value
		isPath := func(o ssa.Value) bool { return extField(o, "go/ast.ImportSpec", "Path") }
		add := func(in ssa.Instruction) bool {
			if st, ok := in.(*ssa.Store); ok {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && loop.IsKey(ia.Index) && cf.derivesIn(g, st.Val, isPath) {
					lists = append(lists, eng.ResolveLocal(ia.X))
					return true
				}
			}
			j := joins(in)
			if j == nil {
				return false
			}
			for _, a := range j.Call.Args[1:] {
				if cf.derivesIn(g, a, isPath) {
					adds = append(adds, j)
					lists = append(lists, j)
					return true
				}
			}
			return false
		}
		r.Check(loop.Always(add, nil) && w.EarlyExit(loop, nil) == nil && len(lists) > 0, name+" imports", w.At(loop.Header.Instrs[0]), "some imports may be left out")
		for _, a := range adds {
			r.Check(cf.derivesIn(g, a.Call.Args[0], func(o ssa.Value) bool { return o == ssa.Value(a) }), name+" imports kept", w.At(a), "the imports found before are dropped")
		}
		for _, a := range lists {
			used := false
			for _, h := range cf.Region(f) {
				for _, ci := range eng.Calls(h) {
					if p := packagesCall(ci); p != nil {
						args := p.Call.Args
						if cf.derives(args[len(args)-1], func(o ssa.Value) bool { return o == a }) {
							used = true
						}
					}
				}
			}
			r.Check(used, name+" imports resolved", w.At(loop.Header.Instrs[0]), "the imports found are not those resolved")
		}
		// nothing is loaded for a tool file but on a first visit or failure
		for _, rt := range eng.Returns(f) {
			if len(rt.Results) != 2 || !w.MaySucceed(rt) || !eng.IsNilConst(eng.ResolveLocal(rt.Results[0])) {
				continue
			}
			r.Check(w.MustHold(rt, cf.seenBefore), name+" nothing", w.At(rt), "nothing is loaded although the file was not loaded before")
		}
	}
	r.Check(n > 0, "tool file", "-", "no function parsing tool files found")
}

// loadedField is the field v is a load of.
func loadedField(v ssa.Value) *types.Var {
	v = eng.ResolveLocal(eng.Unwrap(v))
	switch x := eng.Unwrap(v).(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return eng.FieldVar(fa)
		}
	case *ssa.Field:
		return eng.FieldVar(x)
	}
	return nil
}

// extField: v is (a load of) the field of that type of another module.
func extField(v ssa.Value, typ, name string) bool {
	v = eng.ResolveLocal(eng.Unwrap(v))
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		v = ld.X
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return eng.FieldVar(x).Name() == name && eng.Deref(x.X.Type()).String() == typ
	case *ssa.Field:
		return eng.FieldVar(x).Name() == name && x.X.Type().String() == typ
	}
	return false
}

func overField(l *eng.Loop) *types.Var {
	if l.Over == nil {
		return nil
	}
	return loadedField(l.Over)
}

// seenBefore: the literal says the file was marked as loaded before.
func (cf *configs) seenBefore(l eng.Lit) bool {
	return cf.W.Implies(l, func(x eng.Lit) bool { return cf.lookedUp(x) == 1 })
}

// lookedUp: +1 the file is in the set of loaded files, -1 it is not, 0 something else.
func (cf *configs) lookedUp(l eng.Lit) int {
	set := cf.W.Field(configPkg, "Loader", "loaded")
	ex, ok := l.V.(*ssa.Extract)
	if !ok || ex.Index != 1 {
		return 0
	}
	lk, ok := ex.Tuple.(*ssa.Lookup)
	if !ok || !isFieldVal(lk.X, set) {
		return 0
	}
	if l.Pol {
		return 1
	}
	return -1
}

// extendsEnumerated: each entry of extends is loaded as the package or file of that name.
func (cf *configs) extendsEnumerated(r *R, ls map[*ssa.Function]*types.Named) {
	w := cf.W
	n := 0
	for _, f := range w.FuncsIn(configPkg) {
		for _, l := range eng.Loops(f) {
			fv := overField(l)
			if fv == nil {
				continue
			}
			s, ok := fv.Type().Underlying().(*types.Slice)
			if !ok || s.Elem().String() != "string" || !strings.HasPrefix(eng.TypeKeyOfField(fv), configPkg) {
				continue
			}
			n++
			name := short(f) + " " + fv.Name()
			ofEntry := func(v ssa.Value) bool {
				return cf.derivesIn(f, v, func(o ssa.Value) bool { return l.IsElem(o) })
			}
			for b := range l.Blocks {
				for _, in := range b.Instrs {
					call, n := cf.loaderCall(in, ls)
					if call == nil {
						continue
					}
					okArg := false
					for _, a := range namingArgs(call) {
						okArg = okArg || ofEntry(a)
					}
					r.Check(okArg, name+" entry "+n.Obj().Name(), w.At(call), "what is loaded does not depend on the entry")
					// relative to the directory of the file
					okDir := false
					for _, a := range namingArgs(call) {
						okDir = okDir || cf.derivesUpTo(f, a, func(o ssa.Value) bool { return cf.markedIn(f, o) }, l.IsElem)
					}
					r.Check(okDir, name+" relative "+n.Obj().Name(), w.At(call), "the entry is not relative to the file's directory")
				}
			}
		}
	}
	r.Check(n > 0, "extends", "-", "no enumeration of the files a configuration extends found")
}

// namingArgs are the arguments telling what to load.
func namingArgs(call *ssa.Call) []ssa.Value {
	var res []ssa.Value
	for _, a := range call.Call.Args[1:] {
		if a.Type().String() != "context.Context" {
			res = append(res, a)
		}
	}
	return res
}

// markedIn: v is the name f marks as loaded.
func (cf *configs) markedIn(f *ssa.Function, v ssa.Value) bool {
	set := cf.W.Field(configPkg, "Loader", "loaded")
	v = eng.ResolveLocal(v)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if isFieldVal(x.Map, set) && eng.ResolveLocal(x.Key) == v {
					return true
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil {
					continue
				}
				for _, gb := range g.Blocks {
					for _, gi := range gb.Instrs {
						mu, ok := gi.(*ssa.MapUpdate)
						if !ok || !isFieldVal(mu.Map, set) {
							continue
						}
						for i, p := range g.Params {
							if eng.ResolveLocal(mu.Key) == ssa.Value(p) && eng.ResolveLocal(x.Call.Args[i]) == v {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// fileNames: the file a function loads is the one it is told to, and those of a package are in its directory.
func (cf *configs) fileNames(r *R) {
	w := cf.W
	n := 0
	for _, f := range w.FuncsIn(configPkg) {
		if f.Signature.Recv() == nil || f.Name() == "" || f.Parent() != nil {
			continue
		}
		var pkg *ssa.Parameter
		for _, p := range f.Params {
			if strings.HasSuffix(p.Type().String(), "packages.Package") {
				pkg = p
			}
		}
		for _, ci := range eng.Calls(f) {
			g := ci.Common().StaticCallee()
			if g == nil {
				continue
			}
			for i, p := range g.Params {
				if i == 0 || !cf.markedIn(g, p) && !cf.marksFrom(g, p) || p.Type().String() != "string" {
					continue
				}
				if cf.isMarker(g) {
					// in the function loading the file: every name it is given counts
					for _, q := range f.Params {
						if q.Type().String() != "string" {
							continue
						}
						n++
						ok := cf.derivesIn(f, ci.Common().Args[i], func(o ssa.Value) bool { return o == ssa.Value(q) })
						r.Check(ok, short(f)+" named by "+q.Name(), w.At(ci), "the file loaded does not depend on the name given")
					}
					continue
				}
				if pkg == nil {
					continue
				}
				if _, isC := eng.ConstString(ci.Common().Args[i]); isC && i > 0 && cf.marksFrom(g, g.Params[i-1]) {
					continue // a name relative to the directory
				}
				n++
				ok := cf.derivesIn(f, ci.Common().Args[i], func(o ssa.Value) bool { return o == ssa.Value(pkg) })
				r.Check(ok, short(f)+" directory for "+short(g), w.At(ci), "the file loaded is not in the package's directory")
			}
		}
	}
	ls := cf.loaders()
	for f := range ls {
		marks := false
		for _, p := range f.Params {
			marks = marks || cf.marksFrom(f, p)
		}
		if marks {
			continue
		}
		for _, q := range f.Params {
			if q.Type().String() != "string" {
				continue
			}
			for _, ci := range eng.Calls(f) {
				call, t := cf.loaderCall(ci.(ssa.Instruction), ls)
				if call == nil {
					continue
				}
				ok := false
				for _, a := range namingArgs(call) {
					ok = ok || cf.derivesIn(f, a, func(o ssa.Value) bool { return o == ssa.Value(q) })
				}
				r.Check(ok, short(f)+" "+t.Obj().Name()+" named by "+q.Name(), w.At(call), "what is loaded does not depend on the name given")
			}
		}
	}
	r.Check(n >= 4, "names", "-", "the names of the files loaded were not found")
}

func (cf *configs) isMarker(g *ssa.Function) bool {
	set := cf.W.Field(configPkg, "Loader", "loaded")
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && isFieldVal(mu.Map, set) {
				return true
			}
		}
	}
	return false
}

// marksFrom: the name g marks depends on its parameter p.
func (cf *configs) marksFrom(g *ssa.Function, p *ssa.Parameter) bool {
	for _, ci := range eng.Calls(g) {
		h := ci.Common().StaticCallee()
		if h == nil || !cf.isMarker(h) {
			continue
		}
		for _, a := range ci.Common().Args {
			if a.Type().String() == "string" && cf.derivesIn(g, a, func(o ssa.Value) bool { return o == ssa.Value(p) }) {
				return true
			}
		}
	}
	return false
}

// emptyTests: functions telling whether a configuration is empty only say so when it is.
func (cf *configs) emptyTests(r *R) {
	w := cf.W
	n := 0
	for _, t := range cf.impls {
		f := cf.method(t, "empty")
		if f == nil || f.Signature.Results().Len() != 1 {
			continue
		}
		n++
		// as seen by a caller: the result being true
		for _, ci := range w.Callers(f) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			r.Check(cf.hollow([]eng.Lit{{V: call, Pol: true}}, t), t.Obj().Name()+".empty in "+short(call.Parent()), w.At(call), "it may be called empty while it holds something")
		}
	}
	_ = n
	for _, f := range w.FuncsIn(configPkg) {
		res := f.Signature.Results()
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || res.Len() != 2 || eng.ErrIndex(f.Signature) != 1 || res.At(0).Type().String() != "bool" {
			continue
		}
		for _, rt := range eng.Returns(f) {
			if !w.MaySucceed(rt) {
				continue
			}
			var t *types.Named
			for _, ci := range eng.Calls(f) {
				if call, ok := ci.(*ssa.Call); ok && eng.CanReach(call, rt) {
					if _, m := cf.loaderCall(call, cf.loaders()); m != nil {
						t = m
					}
				}
			}
			if b, isC := eng.ConstBool(rt.Results[0]); isC && (b || t == nil) {
				continue
			}
			ok := t != nil && cf.hollow(append(eng.DomLits(rt.Block()), eng.Lit{V: eng.ResolveLocal(rt.Results[0]), Pol: false}), t)
			r.Check(ok, short(f)+" without", w.At(rt), "a package may be said to have no configuration while it has some")
		}
	}
}

// once: a file's contents are only read after marking it.
func (cf *configs) once(r *R) {
	w := cf.W
	set := r.Field(configPkg, "Loader", "loaded")
	if set == nil {
		return
	}
	opens := 0
	for _, f := range w.FuncsIn(configPkg) {
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok || eng.Key(call) != "os.Open" && eng.Key(call) != "os.ReadFile" {
				continue
			}
			opens++
			name := short(f)
			r.Check(w.MustHold(call, func(l eng.Lit) bool {
				return w.Implies(l, func(x eng.Lit) bool { return cf.lookedUp(x) == -1 })
			}), name+" new", w.At(call), "the file may be read although it was loaded before")
			marks := func(in ssa.Instruction) bool {
				mu, ok := in.(*ssa.MapUpdate)
				return ok && isFieldVal(mu.Map, set)
			}
			ok2, _ := w.MustPrecede(call, w.LiftUnder(marks, func(l eng.Lit) bool { return cf.lookedUp(l) == 1 }), nil)
			r.Check(ok2, name+" marked", w.At(call), "the file is read without being marked as loaded: it may be loaded again while being loaded")
			// under its own full name
			for _, mk := range cf.marks(set) {
				r.Check(mk.same, short(mk.in.Parent())+" key", w.At(mk.in), "the name looked up and the one marked differ")
			}
			r.Check(cf.sameName(call.Call.Args[0], f, set), name+" name", w.At(call), "the file read is not the one that was marked")
		}
	}
	r.Check(opens >= 2, "files", "-", "fewer than two kinds of files are read")
	for _, in := range cf.setChanges(set) {
		if call, ok := in.(*ssa.Call); ok {
			if b, isB := call.Call.Value.(*ssa.Builtin); isB {
				r.Check(b.Name() != "delete" && b.Name() != "clear", short(in.Parent())+" forgotten", w.At(in), "files are forgotten to have been loaded")
			}
		}
	}
	for _, st := range fieldStores(w.Funcs, set) {
		al := eng.ResolveLocal(st.Val)
		_, isNew := al.(*ssa.MakeMap)
		fa := st.Addr.(*ssa.FieldAddr)
		_, lit := fa.X.(*ssa.Alloc)
		r.Check(isNew && lit, short(st.Parent())+" set", w.At(st), "the set of loaded files is replaced")
	}
}

func (cf *configs) setChanges(set *types.Var) []ssa.Instruction {
	var res []ssa.Instruction
	instrs(cf.W.FuncsIn(configPkg), func(_ *ssa.Function, in ssa.Instruction) {
		if call, ok := in.(*ssa.Call); ok {
			if _, isB := call.Call.Value.(*ssa.Builtin); isB && len(call.Call.Args) > 0 && isFieldVal(call.Call.Args[0], set) {
				res = append(res, in)
			}
		}
	})
	return res
}

type mark struct {
	in   ssa.Instruction
	same bool
}

// marks: where files are marked; same tells whether the name looked up before is the one marked.
func (cf *configs) marks(set *types.Var) []mark {
	var res []mark
	for _, f := range cf.W.FuncsIn(configPkg) {
		var keys, looks []ssa.Value
		var ins []ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if isFieldVal(x.Map, set) {
						keys, ins = append(keys, eng.ResolveLocal(x.Key)), append(ins, in)
					}
				case *ssa.Lookup:
					if isFieldVal(x.X, set) {
						looks = append(looks, eng.ResolveLocal(x.Index))
					}
				}
			}
		}
		for i, k := range keys {
			same := len(looks) == 0
			for _, l := range looks {
				same = same || l == k
			}
			res = append(res, mark{ins[i], same})
		}
	}
	return res
}

// sameName: the file opened in f is the one marked (here, or by those calling f).
func (cf *configs) sameName(v ssa.Value, f *ssa.Function, set *types.Var) bool {
	v = eng.ResolveLocal(v)
	marked := false
	for _, ci := range eng.Calls(f) {
		g := ci.Common().StaticCallee()
		if g == nil {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isFieldVal(mu.Map, set) {
					continue
				}
				marked = true
				for i, p := range g.Params {
					if eng.ResolveLocal(mu.Key) == ssa.Value(p) && eng.ResolveLocal(ci.Common().Args[i]) == v {
						return true
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok && isFieldVal(mu.Map, set) {
				marked = true
				if eng.ResolveLocal(mu.Key) == v {
					return true
				}
			}
		}
	}
	p, ok := v.(*ssa.Parameter)
	if marked || !ok {
		return false
	}
	n := 0
	for i, q := range f.Params {
		if q != p {
			continue
		}
		for _, ci := range cf.W.Callers(f) {
			n++
			if !cf.sameName(ci.Common().Args[i], ci.Parent(), set) {
				return false
			}
		}
	}
	return n > 0
}

// contents: what was read is what the configuration holds.
func (cf *configs) contents(r *R) {
	w := cf.W
	ls := cf.loaders()
	for f, n := range ls {
		for _, rt := range eng.Returns(f) {
			if !w.MaySucceed(rt) {
				continue
			}
			v := eng.ResolveLocal(rt.Results[0])
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = eng.ResolveLocal(mi.X)
			}
			name := short(f)
			switch x := v.(type) {
			case *ssa.Const:
				ok := w.MustHold(rt, cf.seenBefore)
				for _, m := range cf.impls {
					ok = ok || cf.hollow(eng.DomLits(rt.Block()), m)
				}
				r.Check(ok, name+" nothing", w.At(rt), "nothing is loaded although the file was not loaded before")
			case *ssa.Global:
				// the configuration orchestrion comes with
				r.Check(w.MustHold(rt, func(l eng.Lit) bool { return cf.isBuiltIn(l, x) }), name+" built-in", w.At(rt), "the built-in configuration is used for another package")
			case *ssa.Alloc:
				cf.fields(r, f, n, x, rt)
			default:
				if call := callOf(v); call != nil {
					continue // another loader's
				}
				r.Bad(name+" result", w.At(rt), "cannot tell what configuration is returned")
			}
		}
		// the built-in configuration is used whenever its package is loaded
		if bi := cf.builtIn(); bi != nil && n == eng.Deref(bi.Type()).(*types.Named) {
			for _, in := range cf.stepsIn(f) {
				call, ok := in.(*ssa.Call)
				if !ok || !eng.IsErrorType(lastResult(call)) || call.Call.StaticCallee() == nil || eng.PkgOf(call.Call.StaticCallee()) != eng.PkgOf(f) {
					continue
				}
				r.Check(w.MustHold(call, func(l eng.Lit) bool { return cf.otherPackage(l, bi) }), short(f)+" not built-in: "+call.Call.StaticCallee().Name(), w.At(call), "files may be loaded for the built-in configuration's package")
			}
		}
	}
	r.Min(6)
}

func lastResult(call *ssa.Call) types.Type {
	res := call.Call.Signature().Results()
	if res.Len() == 0 {
		return types.Typ[types.Invalid]
	}
	return res.At(res.Len() - 1).Type()
}

func (cf *configs) stepsIn(f *ssa.Function) []ssa.Instruction {
	var res []ssa.Instruction
	for _, b := range f.Blocks {
		res = append(res, b.Instrs...)
	}
	return res
}

func (cf *configs) builtIn() *ssa.Global {
	for _, m := range cf.W.Globals(configPkg) {
		if n := cf.impl(m.Type()); n != nil {
			return m
		}
	}
	return nil
}

func (cf *configs) comparesBuiltIn(l eng.Lit, g *ssa.Global) int {
	return cmpLit(l, func(v ssa.Value) bool {
		fv := loadedField(v)
		return fv != nil && fv.Name() == "PkgPath"
	}, func(v ssa.Value) bool {
		if s, ok := eng.ConstString(v); ok {
			return s == eng.ModPath
		}
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		return ok && fa.X == ssa.Value(g)
	})
}

func (cf *configs) isBuiltIn(l eng.Lit, g *ssa.Global) bool {
	return cf.W.Implies(l, func(x eng.Lit) bool { return cf.comparesBuiltIn(x, g) == 1 })
}

func (cf *configs) otherPackage(l eng.Lit, g *ssa.Global) bool {
	return cf.W.Implies(l, func(x eng.Lit) bool { return cf.comparesBuiltIn(x, g) == -1 })
}

// fields: every part of the configuration built comes from what was read.
func (cf *configs) fields(r *R, f *ssa.Function, n *types.Named, al *ssa.Alloc, rt *ssa.Return) {
	w := cf.W
	ls := cf.loaders()
	for _, fv := range structFields(n) {
		name := short(f) + " " + fv.Name()
		is, list := cf.nested(fv)
		own := ownAspects(fv)
		if !is && !own {
			continue
		}
		var vals []ssa.Value
		for _, st := range fieldStores([]*ssa.Function{f}, fv) {
			if fa := st.Addr.(*ssa.FieldAddr); fa.X == ssa.Value(al) {
				vals = append(vals, st.Val)
			}
		}
		if len(vals) == 0 {
			r.Bad(name, w.Pos(al.Pos()), "this part of the configuration is never set")
			continue
		}
		set, _ := w.MustPrecede(rt, func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && fa.X == ssa.Value(al) && eng.FieldVar(fa) == fv
		}, nil)
		r.Check(set, name+" always", w.Pos(al.Pos()), "this part of the configuration may not be set")
		for _, v := range vals {
			ok := false
			switch {
			case own:
				// the aspects decoded from the file
				ok = cf.derives(v, func(o ssa.Value) bool {
					x := eng.FieldVarOf(o)
					return x != nil && ownAspects(x) && x != fv && !strings.HasSuffix(eng.TypeKeyOfField(x), "."+n.Obj().Name())
				}) && cf.wholeList(f, v)
			case list:
				ok = cf.derives(v, func(o ssa.Value) bool {
					call := callOf(o)
					if call == nil {
						return false
					}
					_, m := cf.loaderCall(call, ls)
					return m != nil
				})
			default:
				ok = cf.derives(v, func(o ssa.Value) bool {
					call := callOf(o)
					if call == nil {
						return false
					}
					_, m := cf.loaderCall(call, ls)
					return m != nil && m == cf.impl(fv.Type())
				})
			}
			r.Check(ok, name, w.Pos(al.Pos()), "this part of the configuration is not (all of) what was loaded")
		}
	}
}

// wholeList: v is not a part of another list.
func (cf *configs) wholeList(f *ssa.Function, v ssa.Value) bool {
	_, cut := eng.ResolveLocal(v).(*ssa.Slice)
	return !cut
}

// missing: errors telling that a file does not exist are only tolerated for the package's own files.
func (cf *configs) missing(r *R) {
	w := cf.W
	ls := cf.loaders()
	isNotExist := func(v ssa.Value) bool {
		ld, ok := eng.ResolveLocal(v).(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		g, ok := ld.X.(*ssa.Global)
		return ok && g.Name() == "ErrNotExist"
	}
	tests := 0
	tolerates := map[*ssa.Function]bool{} // functions whose ErrNotExist is taken as absence
	for _, f := range w.FuncsIn(configPkg) {
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok || eng.Key(call) != "errors.Is" && eng.Key(call) != "os.IsNotExist" || len(call.Call.Args) == 2 && !isNotExist(call.Call.Args[1]) {
				continue
			}
			// where the failure is tolerated
			src := callOf(eng.ResolveLocal(call.Call.Args[0]))
			if src == nil {
				continue // a helper's, or for information only
			}
			g := src.Call.StaticCallee()
			if g == nil {
				continue
			}
			tests++
			tolerates[g] = true
			// which file
			okName := false
			for _, a := range src.Call.Args {
				if cf.derives(a, func(o ssa.Value) bool {
					s, ok := eng.ConstString(o)
					return ok && (s == "orchestrion.tool.go" || s == "orchestrion.yml")
				}) {
					okName = true
				}
			}
			r.Check(okName, short(f)+" tolerates "+short(g), w.At(call), "the absence of something else than a package's own configuration files is tolerated")
		}
	}
	r.Check(tests >= 2, "tolerated", "-", "the absence of a package's configuration files is not tolerated where expected")
	// a function whose absence is tolerated must not report that something it refers to is absent
	for g := range tolerates {
		for _, rt := range eng.Returns(g) {
			idx := eng.ErrIndex(g.Signature)
			if idx < 0 {
				continue
			}
			cf.reportsAbsence(r, g, rt.Results[idx], rt, ls)
		}
	}
}

func (cf *configs) reportsAbsence(r *R, g *ssa.Function, v ssa.Value, rt *ssa.Return, ls map[*ssa.Function]*types.Named) {
	w := cf.W
	v = eng.ResolveLocal(v)
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if st := eng.LastStore(ld); st != nil {
			v = eng.ResolveLocal(st.Val)
		}
	}
	var direct func(v ssa.Value, d int) *ssa.Call
	direct = func(v ssa.Value, d int) *ssa.Call {
		v = eng.ResolveLocal(v)
		if d > 6 {
			return nil
		}
		call := callOf(v)
		if call == nil {
			return nil
		}
		switch eng.Key(call) {
		case "fmt.Errorf":
			s, ok := eng.ConstString(call.Call.Args[0])
			if !ok || !strings.Contains(s, "%w") {
				return nil
			}
			for _, a := range eng.VarArgs(call.Call.Args[len(call.Call.Args)-1]) {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				if ci, ok := a.(*ssa.ChangeInterface); ok {
					a = ci.X
				}
				if !eng.IsErrorType(a.Type()) {
					continue
				}
				if c := direct(a, d+1); c != nil {
					return c
				}
			}
			return nil
		case "os.Stat", "os.Lstat":
			return call
		}
		if h := call.Call.StaticCallee(); h != nil && ls[h] != nil {
			return call
		}
		return nil
	}
	if call := direct(v, 0); call != nil && eng.ErrIndex(call.Call.Signature()) >= 0 && !w.MustHold(rt, notAbsence) {
		h := call.Call.StaticCallee()
		if h == nil || ls[h] == nil || cf.mayReport(h, direct, ls, map[*ssa.Function]bool{}) {
			r.Check(false, short(g)+" reports "+cf.calleeName(call), w.At(rt), "the absence of a file it refers to may be mistaken for its own")
			return
		}
	}
	r.OK(short(g)+" reports", w.At(rt))
	// masking helpers really mask
	if call := callOf(v); call != nil {
		if h := call.Call.StaticCallee(); h != nil && eng.PkgOf(h) == eng.PkgOf(g) && ls[h] == nil && len(h.Params) == 1 && eng.IsErrorType(h.Params[0].Type()) {
			for _, hr := range eng.Returns(h) {
				if eng.ResolveLocal(hr.Results[0]) != ssa.Value(h.Params[0]) {
					s := ""
					if e := callOf(hr.Results[0]); e != nil && eng.Key(e) == "fmt.Errorf" {
						s, _ = eng.ConstString(e.Call.Args[0])
					}
					r.Check(!strings.Contains(s, "%w"), short(h)+" masks", w.At(hr), "the absence is still reported as such")
					continue
				}
				ok := w.MustHold(hr, notAbsence)
				r.Check(ok, short(h)+" masks", w.At(hr), "an absence may be reported as such")
			}
		}
	}
}

// notAbsence: the literal says that the error is not about a missing file.
func notAbsence(l eng.Lit) bool {
	c, ok := l.V.(*ssa.Call)
	return ok && !l.Pol && (eng.Key(c) == "errors.Is" || eng.Key(c) == "os.IsNotExist")
}

// mayReport: h may fail because a file is missing, saying so.
func (cf *configs) mayReport(h *ssa.Function, direct func(ssa.Value, int) *ssa.Call, ls map[*ssa.Function]*types.Named, seen map[*ssa.Function]bool) bool {
	if seen[h] {
		return false
	}
	seen[h] = true
	idx := eng.ErrIndex(h.Signature)
	for _, rt := range eng.Returns(h) {
		if cf.W.MustHold(rt, notAbsence) {
			continue
		}
		call := direct(rt.Results[idx], 0)
		if call == nil {
			if c := callOf(eng.ResolveLocal(rt.Results[idx])); c != nil && c.Call.StaticCallee() != nil && eng.PkgOf(c.Call.StaticCallee()) == eng.PkgOf(h) && len(c.Call.Args) > 1 {
				return true // a function reading the file
			}
			continue
		}
		g := call.Call.StaticCallee()
		if g == nil || ls[g] == nil || cf.mayReport(g, direct, ls, seen) {
			return true
		}
	}
	return false
}

func (cf *configs) calleeName(call *ssa.Call) string {
	if f := call.Call.StaticCallee(); f != nil {
		return f.Name()
	}
	return "call"
}

// validated: with validation on, success implies that the file's contents were validated.
func (cf *configs) validated(r *R) {
	w := cf.W
	flag := r.Field(configPkg, "Loader", "validate")
	val := r.Fn(configPkg, "ValidateObject")
	if flag == nil || val == nil {
		return
	}
	// ValidateObject only accepts what the schema accepts
	for _, rt := range eng.Returns(val) {
		if !w.MaySucceed(rt) {
			continue
		}
		r.Check(w.MustHold(rt, func(l eng.Lit) bool {
			return w.Implies(l, func(x eng.Lit) bool {
				call, ok := x.V.(*ssa.Call)
				return ok && x.Pol && strings.HasSuffix(eng.Key(call), "gojsonschema.Result.Valid")
			})
		}), "accepted", w.At(rt), "something the schema rejects may be accepted")
	}
	n := 0
	for _, f := range w.FuncsIn(configPkg) {
		uses := false
		for _, ld := range fieldLoads([]*ssa.Function{f}, flag) {
			v, ok := ld.(ssa.Value)
			if !ok {
				continue
			}
			for _, ref := range *v.Referrers() {
				if _, isIf := ref.(*ssa.If); isIf {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		n++
		off := func(l eng.Lit) bool {
			return w.Implies(l, func(x eng.Lit) bool { return !x.Pol && isFieldVal(x.V, flag) })
		}
		ev := func(in ssa.Instruction) bool {
			call, ok := in.(*ssa.Call)
			return ok && call.Call.StaticCallee() == val
		}
		r.Check(w.MustDo(f, w.LiftEvent(ev), w.MaySucceed, off) == nil, short(f)+" validated", w.Pos(f.Pos()), "the file may be accepted without being validated")
		for _, ci := range cf.callsKey(cf.Region(f), configPkg+".ValidateObject") {
			// its contents: decoded from the same file
			obj := ci.Common().Args[0]
			ok := cf.decodedFrom(ci.Parent(), obj)
			r.Check(ok, short(f)+" object", w.At(ci), "what is validated is not what the file holds")
			leak := w.MustFollow(ci, func(ssa.Instruction) bool { return false }, w.MaySucceed, cf.succeeded(ci))
			r.Check(leak == nil, short(f)+" rejected", w.At(ci), "what validation rejects may be accepted")
		}
	}
	r.Check(n > 0, "validation", "-", "validation is never asked for")
	// the option reaches the loader
	for _, st := range fieldStores(w.Funcs, flag) {
		p, ok := eng.ResolveLocal(st.Val).(*ssa.Parameter)
		r.Check(ok && p.Type().String() == "bool", short(st.Parent())+" option", w.At(st), "the option is not passed on")
	}
	r.Min(4)
}

// decodedFrom: obj is filled by a decoder before.
func (cf *configs) decodedFrom(f *ssa.Function, obj ssa.Value) bool {
	ld, ok := obj.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	for _, ci := range eng.Calls(f) {
		if !strings.Contains(calleeShort(ci), "Decode") {
			continue
		}
		for _, a := range ci.Common().Args {
			if mi, ok := a.(*ssa.MakeInterface); ok && mi.X == ld.X && eng.Dominates(ci, ld) {
				return true
			}
		}
	}
	return false
}

func calleeShort(ci ssa.CallInstruction) string {
	if ci.Common().IsInvoke() {
		return ci.Common().Method.Name()
	}
	if f := ci.Common().StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

// used: the weaver takes all aspects of the configuration of the main module.
func (cf *configs) used(r *R) {
	w := cf.W
	oc := r.Fn("internal/toolexec/aspect", "Weaver.OnCompile")
	dir := r.Field(configPkg, "Loader", "dir")
	if oc == nil || dir == nil {
		return
	}
	region := cf.Region(oc)
	n := 0
	for _, ci := range cf.callsKey(region, "internal/injector.Injector.InjectFiles") {
		n++
		a := ci.Common().Args
		asp := a[len(a)-1]
		var cfg *ssa.Call
		if cf.derives(asp, func(o ssa.Value) bool {
			call := callOf(o)
			if call == nil || !strings.HasSuffix(calleeShort(call), "Aspects") {
				return false
			}
			cfg = call
			return true
		}) && cfg != nil {
			recv := callRecv(cfg)
			loaded := cf.derivesCall(recv, configPkg+".Loader.Load")
			r.Check(loaded, "aspects", w.At(ci), "the aspects woven are not those of the configuration loaded")
		} else {
			r.Bad("aspects", w.At(ci), "the aspects woven are not those of the configuration loaded")
		}
	}
	r.Check(n > 0, "weaving", "-", "no weaving found")
	for _, ci := range cf.callsKey(region, configPkg+".NewLoader") {
		d := ci.Common().Args[1]
		r.Check(cf.derivesCall(d, "internal/goenv.GOMOD"), "directory", w.At(ci), "the configuration loaded is not that of the main module")
	}
	// Load takes the package of that directory
	load := r.Fn(configPkg, "Loader.Load")
	if load == nil {
		return
	}
	okDir := false
	for _, g := range cf.Region(load) {
		if g != load && g.Name() != "packages" && cf.loaders()[g] != nil {
			continue
		}
		for _, ci := range eng.Calls(g) {
			if p := packagesCall(ci); p != nil && g == load {
				for _, a := range p.Call.Args {
					if cf.derivesIn(load, a, func(o ssa.Value) bool { return isField(o, dir) || isFieldVal(o, dir) }) {
						okDir = true
					}
				}
			}
		}
	}
	r.Check(okDir, "root package", w.Pos(load.Pos()), "the package loaded is not that of the loader's directory")
	for _, rt := range eng.Returns(load) {
		if !w.MaySucceed(rt) {
			continue
		}
		v := rt.Results[0]
		ok := cf.derives(v, func(o ssa.Value) bool {
			call := callOf(o)
			if call == nil {
				return false
			}
			_, m := cf.loaderCall(call, cf.loaders())
			return m != nil
		})
		r.Check(ok, "result", w.At(rt), "what is returned is not the configuration loaded")
	}
	for _, st := range fieldStores(w.Funcs, dir) {
		_, ok := eng.ResolveLocal(st.Val).(*ssa.Parameter)
		r.Check(ok, short(st.Parent())+" directory", w.At(st), "the directory is not passed on")
	}
}
