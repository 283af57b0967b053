package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "F03", Technique: "effect analysis of every iteration over a map (order-independence), and of entropy sources", Run: runDeterminism})
}

// Packages whose results end up in build outputs.
var outputPkgs = []string{
	"internal/toolexec/aspect", "internal/toolexec/importcfg", "internal/toolexec/proxy", "internal/toolexec",
	"internal/injector", "internal/fingerprint", "internal/jobserver/buildid",
}

func inOutput(f *ssa.Function) bool {
	r := eng.Rel(f)
	for _, p := range outputPkgs {
		if r == p || strings.HasPrefix(r, p+"/") {
			return true
		}
	}
	return false
}

// Iterations whose order shows nowhere although effects happen in iteration order.
var orderExempt = map[string]string{
	"internal/toolexec/importcfg.ImportConfig.write":             "the format of importcfg files is a set of lines",
	"internal/injector.canonicalizeImports":                      "ast.File.Imports is an index, printing follows Decls",
	"internal/injector/aspect/advice/code.Template.AddedImports": "a set of paths, only looked up and sorted where it matters",
	"internal/injector/aspect/join.oneOf.ImpliesImported":        "a set of paths, only looked up and sorted where it matters",
}

func runDeterminism(c *Ctx) {
	w := c.W
	rIter := c.Rule("map-iteration", "no iteration over a map lets its order show: only order-independent effects, or sorted before use")
	rKeys := c.Rule("map-keys-sorted", "the keys or values of a map taken as a sequence are sorted before use")
	rEnt := c.Rule("no-entropy", "nothing that ends up in outputs depends on time, process identity or randomness")
	rConc := c.Rule("concurrent-collection", "what concurrent workers collect is keyed or sorted, never in completion order")
	n := 0
	for _, f := range w.Funcs {
		if !inOutput(f) || eng.PkgOf(f) == "" {
			continue
		}
		key := eng.FKey(eng.Root(f))
		for _, l := range eng.Loops(f) {
			if l.Next == nil || l.Over == nil {
				continue
			}
			if _, ok := l.Over.Type().Underlying().(*types.Map); !ok {
				continue
			}
			n++
			name := short(f) + " over " + collName(l.Over)
			if why := orderExempt[key]; why != "" {
				rIter.OK(name+" ("+why+")", w.Pos(f.Pos()))
				continue
			}
			oe := &orderEff{c: c, loop: l, fn: f}
			why, at := oe.check()
			pos := w.Pos(f.Pos())
			if at != nil {
				pos = w.At(at)
			}
			rIter.Check(why == "", name, pos, "the iteration order of a map shows in the result: %s", why)
		}
		for _, ci := range eng.Calls(f) {
			switch eng.Key(ci) {
			case "maps.Keys", "maps.Values":
				call, ok := ci.(*ssa.Call)
				good := ok && sortedSeq(call)
				rKeys.Check(good, short(f)+" "+eng.Key(ci), w.At(ci.(ssa.Instruction)), "the keys of a map are used in iteration order")
			case "time.Now", "time.Since", "os.Getpid", "os.Getppid", "math/rand.Int", "math/rand.Intn", "math/rand/v2.IntN", "crypto/rand.Read", "os.Hostname", "github.com/google/uuid.NewString", "github.com/google/uuid.New":
				rEnt.Check(onlyLogged(c, ci), short(f)+" "+eng.Key(ci), w.At(ci.(ssa.Instruction)), "%s can influence what is built: the same inputs give different outputs", eng.Key(ci))
			}
			if o := eng.CalleeObj(ci); o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), "math/rand") {
				rEnt.Bad(short(f)+" "+eng.Key(ci), w.At(ci.(ssa.Instruction)), "%s can influence what is built", eng.Key(ci))
			}
		}
		// %p in formats
		for _, ci := range eng.Calls(f) {
			if o := eng.CalleeObj(ci); o != nil && o.Pkg() != nil && o.Pkg().Path() == "fmt" {
				for _, a := range ci.Common().Args {
					if s, ok := eng.ConstString(a); ok && strings.Contains(s, "%p") && !onlyLogged(c, ci) {
						rEnt.Bad(short(f)+" %p", w.At(ci.(ssa.Instruction)), "an address ends up in a text")
					}
				}
			}
		}
		// workers
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var body []*ssa.Function
				switch x := in.(type) {
				case *ssa.Go:
					body = append(w.Callees(x), closureArgs(c, x.Call.Value)...)
				case *ssa.Call:
					if k := eng.Key(x); k == "golang.org/x/sync/errgroup.Group.Go" || k == "sync.WaitGroup.Go" {
						body = closureArgs(c, x.Call.Args[1])
					}
				}
				if len(body) == 0 || eng.InnermostLoop(b) == nil {
					continue
				}
				for _, g := range body {
					why, at := workerOrder(c, g, f)
					rConc.Check(why == "", short(f)+" workers", w.At(or(at, in)), "the completion order of concurrent work shows in the result: %s", why)
				}
			}
		}
	}
	c.Count("map iterations", n)
	rIter.Min(12)
	rKeys.Min(3)
	rConc.Min(2)
	c.Count("functions scanned for entropy", len(w.Funcs))
	rEnt.OK("scan", "-")
}

func collName(v ssa.Value) string {
	if fv := fieldOfLoad(v); fv != nil {
		return fv.Name()
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return p.Name()
	}
	return v.Type().String()[strings.LastIndex(v.Type().String(), "/")+1:]
}

// onlyLogged: the result of the call only flows into log calls.
func onlyLogged(c *Ctx, ci ssa.CallInstruction) bool {
	call, ok := ci.(*ssa.Call)
	if !ok {
		return true
	}
	var seen = map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case ssa.CallInstruction:
				if !isLog(x) && !strings.HasPrefix(eng.Key(x), "time.") {
					return false
				}
				if strings.HasPrefix(eng.Key(x), "time.") {
					if v2, ok := x.(*ssa.Call); ok && !walk(v2) {
						return false
					}
				}
			case *ssa.DebugRef:
			case *ssa.MakeInterface:
				if !walk(x) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return walk(call)
}

func isLog(ci ssa.CallInstruction) bool {
	o := eng.CalleeObj(ci)
	if o == nil || o.Pkg() == nil {
		return false
	}
	p := o.Pkg().Path()
	return strings.Contains(p, "rs/zerolog") || strings.Contains(p, "dd-trace-go") || p == "log"
}

// sortedSeq: the sequence is only handed to a sorting collector or into a map/set.
func sortedSeq(call *ssa.Call) bool {
	refs := eng.FlowRefs(call)
	if len(refs) == 0 {
		return false
	}
	for _, r := range refs {
		ci, ok := r.(*ssa.Call)
		if !ok {
			return false
		}
		switch k := eng.Key(ci); {
		case strings.HasPrefix(k, "slices.Sorted"), k == "maps.Insert", k == "maps.Collect":
		case k == "slices.Collect":
			if !sortedBeforeUse(ci, nil) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sortTargets: the values a sort call sorts in place.
func sortsValue(in ssa.Instruction, is func(ssa.Value) bool) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || !isSortCall(ci) || len(ci.Common().Args) == 0 {
		return false
	}
	a := ci.Common().Args[0]
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	if ct, ok := a.(*ssa.ChangeType); ok {
		a = ct.X
	}
	return is(a)
}

// sortedBeforeUse: every use of v outside loop l is a sort of it, its length, or dominated by the sort.
func sortedBeforeUse(v ssa.Value, l *eng.Loop) bool {
	refs := useRefs(v)
	var sorts []ssa.Instruction
	for _, r := range refs {
		if sortsValue(r, func(x ssa.Value) bool { return x == v }) {
			sorts = append(sorts, r)
		}
		if mi, ok := r.(*ssa.MakeInterface); ok {
			for _, rr := range *mi.Referrers() {
				if sortsValue(rr, func(x ssa.Value) bool { return x == v }) {
					sorts = append(sorts, rr)
				}
			}
		}
	}
	for _, r := range refs {
		if l != nil && l.Blocks[r.Block()] {
			continue
		}
		if builtinCall(r, "len") != nil || builtinCall(r, "cap") != nil {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		ok := false
		for _, s := range sorts {
			ok = ok || r == s || eng.Dominates(s, r)
		}
		if mi, isMI := r.(*ssa.MakeInterface); isMI {
			allSorted := len(*mi.Referrers()) > 0
			for _, rr := range *mi.Referrers() {
				if !sortsValue(rr, func(x ssa.Value) bool { return x == v }) {
					allSorted = false
				}
			}
			ok = ok || allSorted
		}
		if !ok {
			return false
		}
	}
	return true
}

func useRefs(v ssa.Value) []ssa.Instruction {
	if v.Referrers() == nil {
		return nil
	}
	return *v.Referrers()
}

// orderEff decides whether a map iteration has order-independent effects only.
type orderEff struct {
	c    *Ctx
	loop *eng.Loop
	fn   *ssa.Function
	busy map[*ssa.Function]bool
}

func (o *orderEff) fromLoop(v ssa.Value) bool { return o.fromIter(v, false) }

// addrFromLoop: each entry visited has its own place.
func (o *orderEff) addrFromLoop(a ssa.Value) bool {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return o.addrFromLoop(x.X)
	case *ssa.IndexAddr:
		if _, ok := eng.Deref(x.X.Type()).Underlying().(*types.Array); ok {
			return o.fromLoop(x.Index) || o.addrFromLoop(x.X)
		}
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		return false
	}
	return o.fromLoop(a)
}

// fromIter: v depends on the entry visited (on its key, when keyOnly is set).
func (o *orderEff) fromIter(v ssa.Value, keyOnly bool) bool {
	hit := false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || hit || seen[v] || d > 40 {
			return
		}
		seen[v] = true
		if e, ok := v.(*ssa.Extract); ok && e.Tuple == ssa.Value(o.loop.Next) && e.Index > 0 {
			hit = hit || !keyOnly || e.Index == 1
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			if _, isPhi := v.(*ssa.Phi); isPhi && !o.loop.Blocks[in.Block()] {
				return
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					walk(*op, d+1)
				}
			}
		}
		if al, ok := v.(*ssa.Alloc); ok {
			var stores func(addr ssa.Value)
			stores = func(addr ssa.Value) {
				for _, r := range useRefs(addr) {
					switch x := r.(type) {
					case *ssa.Store:
						if x.Addr == addr && o.loop.Blocks[x.Block()] {
							walk(x.Val, d+1)
						}
					case *ssa.IndexAddr:
						if x.X == addr {
							stores(x)
						}
					case *ssa.FieldAddr:
						stores(x)
					}
				}
			}
			stores(al)
		}
	}
	walk(v, 0)
	return hit
}

func (o *orderEff) check() (string, ssa.Instruction) {
	w, l := o.c.W, o.loop
	if l.Next.Iter.Referrers() == nil {
		return "", nil
	}
	// only the text of a failure depends on it
	failing := true
	for b := range l.Blocks {
		for _, s := range b.Succs {
			if !l.Blocks[s] && !w.OnlyFails(s) {
				failing = false
			}
		}
	}
	if failing {
		return "", nil
	}
	o.busy = map[*ssa.Function]bool{}
	effects := false
	var accs []ssa.Value
	for b := range l.Blocks {
		if b != l.Header && w.FailsFrom(b, l) {
			continue // a failure: nothing is produced
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b != l.Header {
					continue
				}
				why, acc := o.headerPhi(x)
				if why != "" {
					return why, x
				}
				if acc {
					accs = append(accs, x)
					effects = true
				}
			case *ssa.MapUpdate:
				effects = true
				if !o.fromLoop(x.Key) && o.fromLoop(x.Value) {
					return "the last entry visited wins", x
				}
			case *ssa.Store:
				root := addrRoot(x.Addr)
				if al, ok := root.(*ssa.Alloc); ok && (l.Blocks[al.Block()] || !o.fromLoop(x.Val)) {
					continue
				}
				if o.addrFromLoop(x.Addr) || !o.fromLoop(x.Val) {
					continue
				}
				// appending to a variable
				if acc := appendTo(x); acc != nil {
					effects = true
					if !o.cellSorted(acc) {
						return "a list is filled in iteration order and used without sorting it", x
					}
					continue
				}
				return "a variable ends up with a value from the last entry visited", x
			case *ssa.Send:
				return "values are sent in iteration order", x
			case ssa.CallInstruction:
				why, eff := o.call(x)
				if why != "" {
					return why, x
				}
				effects = effects || eff
			case *ssa.Return:
				if !o.c.succeeding(x) {
					continue
				}
				if eng.ErrIndex(x.Parent().Signature) < 0 || w.MaySucceed(x) {
					for _, r := range x.Results {
						if o.fromLoop(r) {
							return "the first entry visited is returned", x
						}
					}
				}
			}
		}
	}
	// leaving the loop early
	for b := range l.Blocks {
		for _, s := range b.Succs {
			if l.Blocks[s] || b == l.Header {
				continue
			}
			if w.OnlyFails(s) {
				continue
			}
			if r := retIn(s); r != nil {
				for _, v := range r.Results {
					if o.fromLoop(v) {
						return "the first entry visited is returned", r
					}
				}
			}
			// what the rest of the function sees of this iteration
			for _, in := range s.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					for k, p := range s.Preds {
						if p == b && o.fromLoop(phi.Edges[k]) {
							return "the first entry visited determines a value", b.Instrs[len(b.Instrs)-1]
						}
					}
				}
			}
			if effects {
				return "the loop is left early after some effects", b.Instrs[len(b.Instrs)-1]
			}
		}
	}
	for _, a := range accs {
		if why := o.sorted(a); why != "" {
			return why, a.(ssa.Instruction)
		}
	}
	return "", nil
}

func retIn(b *ssa.BasicBlock) *ssa.Return {
	for i := 0; i < 3; i++ {
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			return x
		case *ssa.Jump:
			b = b.Succs[0]
		default:
			return nil
		}
	}
	return nil
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := eng.Deref(x.X.Type()).Underlying().(*types.Array); !ok {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// appendTo: s stores append(x, ...) back to x; returns the cell.
func appendTo(s *ssa.Store) ssa.Value {
	call, ok := s.Val.(*ssa.Call)
	if !ok || builtinCall(call, "append") == nil {
		return nil
	}
	u, ok := call.Call.Args[0].(*ssa.UnOp)
	if !ok || !eng.SameAddr(u.X, s.Addr) {
		return nil
	}
	return s.Addr
}

// headerPhi: loop-carried values. Accumulated lists are reported (acc).
func (o *orderEff) headerPhi(p *ssa.Phi) (why string, acc bool) {
	if !o.anyEdgeFromLoop(p) {
		return "", false
	}
	switch p.Type().Underlying().(type) {
	case *types.Slice:
		return "", true
	case *types.Basic:
		b := p.Type().Underlying().(*types.Basic)
		if b.Info()&types.IsBoolean != 0 {
			return "", false
		}
		if b.Info()&types.IsInteger != 0 && o.commutative(p) {
			return "", false
		}
	}
	if eng.IsErrorType(p.Type()) {
		return "", false
	}
	return "a variable carries values from one entry to the next", false
}

func (o *orderEff) anyEdgeFromLoop(p *ssa.Phi) bool {
	for i, e := range p.Edges {
		if o.loop.Blocks[p.Block().Preds[i]] && e != ssa.Value(p) {
			if o.fromLoop(e) {
				return true
			}
			if b, ok := e.(*ssa.Call); ok && builtinCall(b, "append") != nil {
				return true
			}
		}
	}
	return false
}

func (o *orderEff) commutative(p *ssa.Phi) bool {
	for i, e := range p.Edges {
		if !o.loop.Blocks[p.Block().Preds[i]] || e == ssa.Value(p) {
			continue
		}
		switch x := e.(type) {
		case *ssa.BinOp:
			if x.Op != token.ADD && x.Op != token.OR && x.Op != token.XOR && x.Op != token.MUL && x.Op != token.AND {
				return false
			}
		case *ssa.Call:
			if builtinCall(x, "max") == nil && builtinCall(x, "min") == nil {
				return false
			}
		case *ssa.Phi:
		default:
			return false
		}
	}
	return true
}

// sorted: the list accumulated in header phi a is sorted before any use after the loop.
func (o *orderEff) sorted(a ssa.Value) string {
	uses := false
	for _, r := range useRefs(a) {
		if o.loop.Blocks[r.Block()] {
			continue
		}
		uses = true
	}
	if !uses {
		return ""
	}
	if !sortedBeforeUse(a, o.loop) {
		return "a list is filled in iteration order and used without sorting it"
	}
	for _, r := range useRefs(a) {
		if !o.comparator(r, a) {
			return "the list is not sorted by what tells its entries apart"
		}
		if mi, ok := r.(*ssa.MakeInterface); ok {
			for _, rr := range *mi.Referrers() {
				if !o.comparator(rr, a) {
					return "the list is not sorted by what tells its entries apart"
				}
			}
		}
	}
	return ""
}

// comparator: when r sorts with a comparison function, it looks at the map key.
func (o *orderEff) comparator(r ssa.Instruction, a ssa.Value) bool {
	ci, ok := r.(ssa.CallInstruction)
	if !ok || !isSortCall(ci) || len(ci.Common().Args) < 2 {
		return true
	}
	fs := closureArgs(o.c, ci.Common().Args[len(ci.Common().Args)-1])
	if len(fs) == 0 {
		return true
	}
	// fields (of elements) the key is stored to
	var kf []*types.Var
	for b := range o.loop.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && o.loop.Key != nil && o.dependsKey(s.Val) {
				kf = append(kf, eng.FieldVar(fa))
			}
		}
	}
	// entries which record their own key
	instrs(eng.WithAnon(o.fn), func(_ *ssa.Function, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || mu.Map != o.loop.Over {
			return
		}
		instrs(eng.WithAnon(o.fn), func(_ *ssa.Function, x ssa.Instruction) {
			if s, ok := x.(*ssa.Store); ok && s.Val == mu.Key {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					kf = append(kf, eng.FieldVar(fa))
				}
			}
		})
	})
	if len(kf) == 0 {
		// elements identify themselves: some field is compared
		return true
	}
	for _, g := range fs {
		reads := false
		instrs(append(eng.WithAnon(g), calleesOf(o.c, g)...), func(_ *ssa.Function, in ssa.Instruction) {
			for _, fv := range kf {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					reads = reads || eng.FieldVar(x) == fv
				case *ssa.Field:
					reads = reads || x.X.Type().Underlying().(*types.Struct).Field(x.Field) == fv
				}
			}
		})
		if reads {
			return true
		}
	}
	return false
}

// calleesOf: the module functions g calls directly.
func calleesOf(c *Ctx, g *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, ci := range eng.Calls(g) {
		out = append(out, c.W.Callees(ci)...)
	}
	return out
}

func (o *orderEff) dependsKey(v ssa.Value) bool {
	return o.c.W.Carries(v, func(x ssa.Value) bool { return x == o.loop.Key })
}

// cellSorted: a captured or addressed list variable is sorted after the loop before it is read.
func (o *orderEff) cellSorted(cell ssa.Value) bool {
	same := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && eng.SameAddr(u.X, cell)
	}
	local := false
	if _, ok := addrRoot(cell).(*ssa.Alloc); ok {
		local = true
	}
	harmless := func(u *ssa.UnOp) bool {
		for _, rr := range *u.Referrers() {
			switch {
			case sortsValue(rr, same), builtinCall(rr, "len") != nil, builtinCall(rr, "append") != nil:
				continue
			}
			if mi, ok := rr.(*ssa.MakeInterface); ok {
				all := true
				for _, x := range *mi.Referrers() {
					all = all && sortsValue(x, same)
				}
				if all {
					continue
				}
			}
			return false
		}
		return true
	}
	// the loop did nothing
	idle := func(l eng.Lit) bool {
		phi, ok := eng.ResolveLocal(l.V).(*ssa.Phi)
		if !ok || l.Pol || !o.loop.Blocks[phi.Block()] {
			return false
		}
		for i, e := range phi.Edges {
			b, isC := eng.ConstBool(e)
			if o.loop.Blocks[phi.Block().Preds[i]] && e != ssa.Value(phi) && !(isC && b) {
				return false
			}
		}
		return true
	}
	ok := true
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !ok {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if sortsValue(in, same) {
				if !o.comparator(in, cell) {
					ok = false
				}
				return
			}
			if u, isU := in.(*ssa.UnOp); isU && same(u) && !harmless(u) {
				ok = false
				return
			}
			if r, isR := in.(*ssa.Return); isR && !local && o.c.succeeding(r) {
				ok = false
				return
			}
		}
		for _, s := range b.Succs {
			if lit, has := eng.EdgeLit(b, s); has && idle(lit) {
				continue
			}
			walk(s)
		}
	}
	for b := range o.loop.Blocks {
		for _, s := range b.Succs {
			if !o.loop.Blocks[s] {
				walk(s)
			}
		}
	}
	return ok
}

// External packages whose functions only compute a result.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "errors": true, "path": true, "path/filepath": true, "slices": true, "maps": true,
	"go/types": true, "go/token": true, "unicode": true, "bytes": true, "regexp": true, "reflect": true, "sort": true,
	"github.com/dave/dst": true, "github.com/dave/dst/dstutil": true, "cmp": true, "math": true,
}

func (o *orderEff) call(ci ssa.CallInstruction) (why string, effect bool) {
	if _, isGo := ci.(*ssa.Go); isGo {
		return "", false // judged as concurrent work
	}
	if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
		if b.Name() == "delete" {
			return "", true
		}
		return "", false
	}
	if isLog(ci) {
		return "", false
	}
	k := eng.Key(ci)
	if k == "golang.org/x/sync/errgroup.Group.Go" || k == "sync.WaitGroup.Go" || k == "sync.WaitGroup.Add" {
		return "", false
	}
	ob := eng.CalleeObj(ci)
	if ob != nil && ob.Pkg() != nil {
		p := ob.Pkg().Path()
		if purePkgs[p] || p == "fmt" && (strings.HasPrefix(ob.Name(), "Sprint") || ob.Name() == "Errorf") || p == "os" && (ob.Name() == "Stat" || ob.Name() == "Getenv") {
			return "", false
		}
		if o.c.W.InModule(ob.Pkg()) {
			cs := o.c.W.Callees(ci)
			if len(cs) == 0 && ci.Common().IsInvoke() {
				return "", false
			}
			eff := false
			for _, g := range cs {
				if why := o.calleeOrder(g, 0); why != "" {
					return "calling " + short(g) + ": " + why, true
				}
				eff = eff || hasEffects(o.c, g, map[*ssa.Function]bool{})
			}
			return "", eff
		}
	}
	if ob == nil {
		// a function value
		for _, g := range o.c.W.Callees(ci) {
			if why := o.calleeOrder(g, 0); why != "" {
				return "calling " + short(g) + ": " + why, true
			}
		}
		if len(o.c.W.Callees(ci)) > 0 {
			return "", true
		}
	}
	if ob != nil && (ob.Name() == "Error" || ob.Name() == "String" || ob.Name() == "Open" || ob.Name() == "Close" || ob.Name() == "Next" || ob.Name() == "Read") {
		return "", false
	}
	return "effects of " + k + " happen in iteration order", true
}

// calleeOrder: does calling g for several entries have effects whose order matters?
func (o *orderEff) calleeOrder(g *ssa.Function, d int) string {
	if o.busy[g] || d > 6 || len(g.Blocks) == 0 {
		return ""
	}
	o.busy[g] = true
	defer delete(o.busy, g)
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				return "sends"
			case *ssa.Store:
				// appending to something that outlives the call
				if appendTo(x) != nil {
					if _, local := addrRoot(x.Addr).(*ssa.Alloc); !local {
						return "appends to a shared list"
					}
				}
			case ssa.CallInstruction:
				if isLog(x) {
					continue
				}
				if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				ob := eng.CalleeObj(x)
				if ob != nil && ob.Pkg() != nil && !o.c.W.InModule(ob.Pkg()) {
					k := eng.Key(x)
					if strings.HasPrefix(k, "fmt.Fprint") || strings.HasPrefix(k, "fmt.Print") || ob.Name() == "Write" || ob.Name() == "WriteString" {
						if !localWriter(o.c, x) {
							return "writes (" + k + ")"
						}
					}
					continue
				}
				for _, h := range o.c.W.Callees(x) {
					if why := o.calleeOrder(h, d+1); why != "" {
						return why
					}
				}
			}
		}
	}
	return ""
}

// hasEffects: calling g can change something that outlives the call.
func hasEffects(c *Ctx, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, local := addrRoot(x.Addr).(*ssa.Alloc); !local {
					return true
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
				return true
			case ssa.CallInstruction:
				if isLog(x) {
					continue
				}
				if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				ob := eng.CalleeObj(x)
				if ob != nil && ob.Pkg() != nil && purePkgs[ob.Pkg().Path()] {
					continue
				}
				cs := c.W.Callees(x)
				for _, h := range cs {
					if hasEffects(c, h, seen) {
						return true
					}
				}
				if len(cs) == 0 && (ob == nil || ob.Pkg() == nil || !c.W.InModule(ob.Pkg())) && (ob == nil || ob.Pkg() == nil || ob.Pkg().Path() != "fmt") {
					return true
				}
			}
		}
	}
	return false
}

// localWriter: the writer is created in the same function.
func localWriter(c *Ctx, ci ssa.CallInstruction) bool {
	cm := ci.Common()
	v := cm.Value
	if !cm.IsInvoke() && len(cm.Args) > 0 {
		v = cm.Args[0]
	}
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	switch x := eng.ResolveLocal(v).(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Call, *ssa.Extract:
		_ = x
		return true
	}
	return false
}

// workerOrder: what a concurrent worker does to shared state is independent of completion order.
func workerOrder(c *Ctx, g *ssa.Function, f *ssa.Function) (string, ssa.Instruction) {
	w := c.W
	var bad ssa.Instruction
	why := ""
	instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok || bad != nil {
			return
		}
		root := addrRoot(s.Addr)
		fv, shared := root.(*ssa.FreeVar)
		if !shared {
			return
		}
		cell := appendTo(s)
		if cell == nil {
			if _, isC := s.Val.(*ssa.Const); !isC && !eng.IsErrorType(s.Val.Type()) {
				why, bad = "the last worker to finish determines a shared variable", in
			}
			return
		}
		if sl, ok := eng.Deref(cell.Type()).Underlying().(*types.Slice); ok && eng.IsErrorType(sl.Elem()) {
			return // only the order of reported errors
		}
		// the enclosing function sorts it before reading it
		var bind ssa.Value
		for _, mc := range w.ClosureSites(g) {
			for i, x := range g.FreeVars {
				if x == fv {
					bind = mc.Bindings[i]
				}
			}
		}
		if bind == nil {
			return
		}
		// the same path below the captured variable
		same := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && samePath(u.X, bind, s.Addr, fv)
		}
		sorted := false
		instrs(eng.WithAnon(f), func(x *ssa.Function, in ssa.Instruction) {
			if x == f && sortsValue(in, same) {
				sorted = true
			}
		})
		if !sorted {
			why, bad = "a list is filled in completion order and never sorted", in
			return
		}
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			r, ok := in.(*ssa.UnOp)
			if !ok || bad != nil {
				return
			}
			// whole-variable reads (the struct holding the list) count as well
			if !same(r) && !(r.X == bind && r.Op == token.MUL) {
				return
			}
			okR := false
			instrs([]*ssa.Function{f}, func(_ *ssa.Function, x ssa.Instruction) {
				if sortsValue(x, same) && (eng.Dominates(x, r) || usesVal(x, r) || !eng.CanReach(closureSite(w, g), r) || sortCovers(x, r)) {
					okR = true
				}
			})
			if !okR {
				why, bad = "a list filled in completion order is read before it is sorted", r
			}
		})
	})
	return why, bad
}

// sortCovers: x and r lie on the same conditional path: every path from the workers to r passes x.
func sortCovers(x, r ssa.Instruction) bool {
	// x's block ends by joining the path to r; the other way into the join bypasses the workers
	return eng.CanReach(x, r)
}

func usesVal(x ssa.Instruction, v ssa.Value) bool {
	for _, op := range x.Operands(nil) {
		if *op == v {
			return true
		}
		if mi, ok := (*op).(*ssa.MakeInterface); ok && mi.X == v {
			return true
		}
	}
	return false
}

func closureSite(w *eng.World, g *ssa.Function) ssa.Instruction {
	for _, mc := range w.ClosureSites(g) {
		return mc
	}
	return nil
}

// samePath: addr below base is the same selection as addr2 below base2.
func samePath(addr, base, addr2, base2 ssa.Value) bool {
	if addr == base && addr2 == base2 {
		return true
	}
	a, ok1 := addr.(*ssa.FieldAddr)
	b, ok2 := addr2.(*ssa.FieldAddr)
	return ok1 && ok2 && a.Field == b.Field && samePath(a.X, base, b.X, base2)
}

func or(a, b ssa.Instruction) ssa.Instruction {
	if a != nil {
		return a
	}
	return b
}
