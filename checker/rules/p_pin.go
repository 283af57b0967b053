package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "P01", Technique: "path analysis of the pin command: what precedes and follows each change under the lock, and abstract interpretation of the edits made in each situation", Run: runPin})
}

const (
	pinPkg     = "internal/pin"
	gomodPkg   = "internal/gomod"
	mainModule = "github.com/DataDog/orchestrion"
)

// runPin decides P01.
func runPin(c *Ctx) {
	rLock := c.Rule("P01.lock", "the tool file and go.mod are read and changed under a lock which depends on the module only, and which is always released")
	rRepl := c.Rule("P01.replace", "the tool file is only ever replaced, by a complete temporary file of the same directory, removed when anything fails")
	rNew := c.Rule("P01.unreadable", "a tool file is only made up when there is none")
	rWrit := c.Rule("P01.written", "every change made to the tool file's syntax is followed by writing it")
	rImp := c.Rule("P01.imports", "the tool file imports orchestrion and the integrations before it is written, and the obsolete imports are removed")
	rMod := c.Rule("P01.requirements", "go.mod requires this version of orchestrion, unless it requires a later one, and a go version new enough; the toolchain directive is restored last")
	rPrune := c.Rule("P01.prune", "only imports without valid configuration are removed, unless pruning is disabled, and never orchestrion's")
	rCmd := c.Rule("P01.commands", "the go commands run for pinning are about the module's go.mod, outside of any workspace and with the local toolchain")
	rAuto := c.Rule("P01.automatic", "pinning is done by itself only where orchestrion is not required yet; requiring another version is an error")

	pin := rLock.Fn(pinPkg, "PinOrchestrion")
	if pin == nil {
		return
	}
	region := c.Region(pin)
	c.Count("functions of pinning", len(region))
	c.pinLock(rLock, pin, region)
	c.pinReplace(rRepl, region)
	c.pinCreated(rNew, region)
	c.pinWritten(rWrit, rImp, pin, region)
	c.pinRequirements(rMod, pin)
	c.pinPrune(rPrune, region)
	c.pinCommands(rCmd)
	c.pinAuto(rAuto, pin)
}

const lockKey = "internal/filelock.Mutex.Lock"

// pinState: the call reads or changes the module's go.mod or tool file.
func pinState(ci ssa.CallInstruction) bool {
	k := eng.MKey(ci)
	switch k {
	case "os.ReadFile", "os.Open", "os.OpenFile", "os.CreateTemp", "os.Rename", "os.Create", "os.WriteFile", "os.Stat":
		return true
	}
	if g := ci.Common().StaticCallee(); g != nil {
		switch eng.Rel(g) {
		case gomodPkg, "internal/ensure":
			return ci.Common().Signature().Results().Len() > 0
		}
	}
	return strings.HasSuffix(k, "go/packages.Load")
}

func (c *Ctx) pinLock(r *R, pin *ssa.Function, region []*ssa.Function) {
	w := c.W
	isLock := func(in ssa.Instruction) bool {
		ci, ok := in.(*ssa.Call)
		return ok && eng.MKey(ci) == lockKey
	}
	isUnlock := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		return eng.MKey(ci) == "internal/filelock.Mutex.Unlock"
	}
	var locks []*ssa.Call
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			if isLock(ci) {
				locks = append(locks, ci.(*ssa.Call))
			}
		}
	}
	r.Check(len(locks) == 1, "one lock", w.Pos(pin.Pos()), "pinning takes the lock at %d places", len(locks))
	if len(locks) != 1 {
		return
	}
	lock := locks[0]
	// what it depends on
	keys := c.inputs(lock.Call.Args[0])
	pure := []string{"internal/goenv.GOMOD", "os.TempDir", "internal/filelock.MutexAt", "path/filepath.", "crypto/", "encoding/", "fmt.Sprint", "strings.", "path.", "hash/"}
	var bad []string
	for k := range keys {
		ok := false
		for _, p := range pure {
			ok = ok || k == p || (strings.HasSuffix(p, ".") || strings.HasSuffix(p, "/") || p == "fmt.Sprint") && strings.HasPrefix(k, p)
		}
		if !ok {
			bad = append(bad, k)
		}
	}
	sort.Strings(bad)
	r.Check(keys["internal/goenv.GOMOD"], "lock of the module", w.At(lock), "the lock does not depend on the module")
	r.Check(len(bad) == 0, "same lock for all", w.At(lock), "which lock is taken depends on %s", strings.Join(bad, ", "))
	// what is done under it
	for _, f := range region {
		if eng.Rel(f) != pinPkg {
			continue
		}
		for _, ci := range eng.Calls(f) {
			if !pinState(ci) {
				continue
			}
			var ok bool
			w.WithinExcept(pin, nil, func() { ok, _ = w.MustPrecede(ci, w.LiftEvent(isLock), nil) })
			r.Check(ok, "locked "+eng.Name(eng.Root(f))+" <- "+eng.MKey(ci), w.At(ci), "this is done without holding the lock")
			for _, u := range eng.Calls(f) {
				if call, isCall := u.(*ssa.Call); isCall && isUnlock(call) && f == lock.Parent() {
					r.Check(!eng.CanReach(call, ci), "still locked "+eng.MKey(ci), w.At(ci), "the lock may be released before this")
				}
			}
		}
	}
	leak := w.MustFollow(lock, w.LiftEvent(isUnlock), nil, w.ErrFailed(lock))
	r.Check(leak == nil, "released", w.At(lock), "the lock is not always released")
	c.checkErrHandled(r, lock)
	r.Min(8)
}

// inputs are the functions the value is computed by.
func (c *Ctx) inputs(v ssa.Value) map[string]bool {
	res := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
			return
		case *ssa.Global:
			if x.Pkg != nil && c.W.InModule(x.Pkg.Pkg) {
				res["variable "+x.Name()] = true
			}
			return
		case *ssa.Parameter:
			if x.Parent().Name() == "PinOrchestrion" {
				res["argument "+x.Name()] = true
				return
			}
			for _, s := range c.W.Callers(x.Parent()) {
				for i, p := range x.Parent().Params {
					if p == x && i < len(s.Common().Args) && !s.Common().IsInvoke() {
						walk(s.Common().Args[i])
					}
				}
			}
			return
		case *ssa.Call:
			k := eng.MKey(x)
			if g := x.Call.StaticCallee(); g != nil && eng.Rel(g) == pinPkg && g.Blocks != nil {
				for _, b := range g.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, o := range rt.Results {
							walk(o)
						}
					}
				}
				return
			}
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				res[k] = true
			}
			if k == "internal/goenv.GOMOD" {
				return
			}
		case *ssa.Alloc:
			for _, rf := range *x.Referrers() {
				switch y := rf.(type) {
				case *ssa.Store:
					if y.Addr == ssa.Value(x) {
						walk(y.Val)
					}
				case *ssa.IndexAddr:
					for _, z := range *y.Referrers() {
						if s, ok := z.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
							walk(s.Val)
						}
					}
				}
			}
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, o := range in.Operands(nil) {
				if o != nil && *o != nil {
					if call, isCall := v.(*ssa.Call); isCall && !call.Call.IsInvoke() && *o == call.Call.Value {
						continue
					}
					walk(*o)
				}
			}
		}
	}
	walk(v)
	return res
}

func (c *Ctx) pinReplace(r *R, region []*ssa.Function) {
	w := c.W
	n := 0
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			switch eng.Key(ci) {
			case "os.WriteFile", "os.Create", "os.Truncate", "os.OpenFile":
				r.Bad(eng.Key(ci)+" in "+eng.Name(eng.Root(f)), w.At(ci), "a file is overwritten in place")
			case "os.Rename":
				n++
				name := "replacement in " + eng.Name(eng.Root(f))
				src, dst := eng.ArgOf(ci, 0), eng.ArgOf(ci, 1)
				var tmp *ssa.Call
				w.Origins(src, func(o ssa.Value) eng.Step {
					if call, ok := o.(*ssa.Call); ok {
						if eng.Key(call) == "os.CreateTemp" {
							tmp = call
							return eng.Stop
						}
						if eng.Key(call) == "os.File.Name" {
							w.Origins(call.Call.Args[0], func(q ssa.Value) eng.Step {
								if ex, ok := q.(*ssa.Extract); ok {
									q = ex.Tuple
								}
								if cc, ok := q.(*ssa.Call); ok && eng.Key(cc) == "os.CreateTemp" {
									tmp = cc
								}
								return eng.Follow
							})
						}
					}
					return eng.Follow
				})
				if tmp == nil {
					r.Bad(name, w.At(ci), "what replaces the file is not a temporary file")
					continue
				}
				same := c.derives(tmp.Call.Args[0], func(o ssa.Value) bool {
					call, ok := o.(*ssa.Call)
					return ok && eng.Key(call) == "path/filepath.Dir" && sameOrigin(c, call.Call.Args[0], dst)
				})
				r.Check(same, name+": same directory", w.At(tmp), "the temporary file is not in the directory of the file it replaces")
				file := func(v ssa.Value) bool {
					hit := false
					w.Origins(v, func(o ssa.Value) eng.Step {
						if ex, ok := o.(*ssa.Extract); ok && ex.Tuple == ssa.Value(tmp) {
							hit = true
						}
						return eng.Follow
					})
					return hit
				}
				wrote := func(in ssa.Instruction) bool {
					x, ok := in.(*ssa.Call)
					if !ok {
						return false
					}
					switch eng.Key(x) {
					case "io.Copy", "github.com/dave/dst/decorator.Fprint", "fmt.Fprint", "bytes.Buffer.WriteTo":
						for _, a := range x.Call.Args {
							if file(eng.Unwrap(a)) {
								return true
							}
						}
					case "os.File.Write", "os.File.WriteString", "os.File.ReadFrom":
						return file(x.Call.Args[0])
					}
					return false
				}
				closed := func(in ssa.Instruction) bool {
					x, ok := in.(*ssa.Call)
					return ok && eng.Key(x) == "os.File.Close" && file(x.Call.Args[0])
				}
				ok1, _ := w.MustPrecede(ci, w.LiftEvent(wrote), nil)
				ok2, _ := w.MustPrecede(ci, w.LiftEvent(closed), nil)
				r.Check(ok1, name+": written", w.At(ci), "the file is replaced before its new content is written")
				r.Check(ok2, name+": closed", w.At(ci), "the file is replaced before the temporary one is closed")
				// removed on failure
				for _, g := range region {
					for _, st := range eng.Calls(g) {
						in := ssa.Instruction(st)
						if _, isCall := st.(*ssa.Call); !isCall || !(wrote(in) || closed(in) || st == ci) {
							continue
						}
						c.checkErrHandled(r, st)
					}
				}
				removes := func(in ssa.Instruction) bool {
					x, ok := in.(ssa.CallInstruction)
					if !ok {
						return false
					}
					return eng.Key(x) == "os.Remove" && c.derives(eng.ArgOf(x, 0), func(o ssa.Value) bool {
						call, ok := o.(*ssa.Call)
						return ok && eng.Key(call) == "os.File.Name"
					})
				}
				r.Check(c.removedOnFailure(tmp, ci, removes), name+": removed", w.At(tmp), "the temporary file is left behind when writing it fails")
			}
		}
	}
	r.Check(n > 0, "replacement", "-", "the tool file is never replaced")
	r.Min(6)
}

func sameOrigin(c *Ctx, a, b ssa.Value) bool {
	return eng.ResolveLocal(a) == eng.ResolveLocal(b) || c.sameOrParam(a, b) || c.sameOrParam(b, a)
}

// removedOnFailure: once the file is created, each failing path removes it, be it in a deferred function.
func (c *Ctx) removedOnFailure(tmp *ssa.Call, ren ssa.CallInstruction, removes func(ssa.Instruction) bool) bool {
	w := c.W
	f := tmp.Parent()
	failing := func(rt *ssa.Return) bool { return !w.MaySucceed(rt) || eng.RetErr(rt) != nil }
	// a deferred function which removes it when there is an error
	deferred := func(in ssa.Instruction) bool {
		d, ok := in.(*ssa.Defer)
		if !ok {
			return false
		}
		for _, g := range w.Callees(d) {
			leak := w.MustDo(g, removes, nil, func(l eng.Lit) bool {
				return nilLit(l, func(v ssa.Value) bool { return eng.IsErrorType(v.Type()) && !isCallValue(v) }) == "nil"
			})
			if leak == nil && c.observesResult(d, g) {
				return true
			}
		}
		return false
	}
	done := func(in ssa.Instruction) bool {
		if removes(in) || deferred(in) {
			return true
		}
		return false
	}
	okRename := w.ErrFailed(ren)
	leak := w.MustFollow(tmp, w.LiftEvent(done), failing, func(l eng.Lit) bool {
		if w.ErrFailed(tmp)(l) {
			return true
		}
		// once renamed there is nothing to remove
		if _, isCall := ren.(*ssa.Call); isCall && ren.Parent() == f && !okRename(l) {
			return nilLit(l, func(v ssa.Value) bool { return eng.ResolveLocal(v) == errOf(ren) }) == "nil"
		}
		return false
	})
	return leak == nil
}

func isCallValue(v ssa.Value) bool {
	_, ok := v.(*ssa.Call)
	return ok
}

// observesResult: the deferred closure looks at a named error result of the function (rather than at a stale copy).
func (c *Ctx) observesResult(d *ssa.Defer, g *ssa.Function) bool {
	mc, ok := d.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return true // unconditional removal
	}
	f := d.Parent()
	for _, b := range mc.Bindings {
		if !eng.IsErrorType(eng.Deref(b.Type())) {
			continue
		}
		// every return loads the variable
		for _, bl := range f.Blocks {
			rt, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return)
			if !ok || len(rt.Results) == 0 || !eng.CanReach(d, rt) {
				continue
			}
			u, ok := rt.Results[len(rt.Results)-1].(*ssa.UnOp)
			if !ok || u.X != b {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) pinCreated(r *R, region []*ssa.Function) {
	w := c.W
	notExist := func(v ssa.Value) bool {
		g := globalOf(eng.Unwrap(v))
		return g == "os.ErrNotExist" || g == "io/fs.ErrNotExist"
	}
	missing := func(l eng.Lit) bool {
		call, ok := l.V.(*ssa.Call)
		if !ok || !l.Pol {
			return false
		}
		switch eng.Key(call) {
		case "os.IsNotExist":
			return true
		case "errors.Is":
			return notExist(call.Call.Args[1])
		}
		return false
	}
	n := 0
	for _, f := range region {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok || !strings.HasSuffix(eng.Deref(al.Type()).String(), "github.com/dave/dst.File") {
				return
			}
			n++
			r.Check(w.MustHold(al, missing), "made up in "+eng.Name(eng.Root(f)), w.At(al), "a new tool file replaces one which could not be read")
		})
		for _, ci := range eng.Calls(f) {
			switch eng.Key(ci) {
			case "go/parser.ParseFile", "github.com/dave/dst/decorator.DecorateFile", "github.com/dave/dst/decorator.ParseFile", "github.com/dave/dst/decorator.Parse", "os.ReadFile":
				fate, _ := w.FateWith(ci, func(e ssa.Value, l eng.Lit) bool { return missing(l) }, nil)
				r.Check(fate == eng.ErrPropagated, "reading: "+eng.Key(ci), w.At(ci), "pinning goes on although the tool file could not be read")
			}
		}
		// the caller recognises nothing but a missing file
		for _, ci := range eng.Calls(f) {
			g := ci.Common().StaticCallee()
			if g == nil || eng.Rel(g) != pinPkg || eng.ErrIndex(g.Signature) < 0 {
				continue
			}
			fate, _ := w.FateWith(ci, func(e ssa.Value, l eng.Lit) bool { return missing(l) }, nil)
			r.Check(fate == eng.ErrPropagated, "step "+eng.Name(g), w.At(ci), "pinning goes on although a step of it failed")
		}
	}
	r.Check(n > 0, "made up", "-", "no tool file is made up")
	r.Min(5)
}

// altersFile: the function changes the syntax of a file.
func altersFile(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Store:
		return dstOwned(x.Addr)
	case ssa.CallInstruction:
		k := eng.Key(x)
		return strings.HasPrefix(k, "github.com/dave/dst.Decorations.") && !strings.HasSuffix(k, ".All") || k == "github.com/dave/dst/dstutil.Cursor.Delete" || k == "github.com/dave/dst/dstutil.Cursor.Replace" || strings.HasPrefix(k, "github.com/dave/dst/dstutil.Cursor.Insert")
	}
	return false
}

// dstOwned: the address is part of a syntax node not made right here.
func dstOwned(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if n, ok := types.Unalias(eng.Deref(x.X.Type())).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/dave/dst" {
				if _, fresh := x.X.(*ssa.Alloc); !fresh {
					if fa, nested := x.X.(*ssa.FieldAddr); nested {
						v = fa
						continue
					}
					return true
				}
				return false
			}
			v = x.X
		case *ssa.IndexAddr:
			u, ok := x.X.(*ssa.UnOp)
			if !ok {
				return false
			}
			v = u.X
		default:
			return false
		}
	}
}

func (c *Ctx) pinWritten(r, rImp *R, pin *ssa.Function, region []*ssa.Function) {
	w := c.W
	writes := func(in ssa.Instruction) bool {
		ci, ok := in.(*ssa.Call)
		return ok && eng.Key(ci) == "os.Rename"
	}
	ev := w.LiftExit(writes, w.MaySucceed, nil)
	n := 0
	seen := map[ssa.Instruction]bool{}
	for _, f := range region {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			if !altersFile(in) {
				return
			}
			// up to the steps of the command
			for _, top := range c.stepsOf(pin, f, in) {
				if seen[top] {
					continue
				}
				seen[top] = true
				n++
				leak := w.MustFollow(top, ev, func(rt *ssa.Return) bool { return w.MaySucceed(rt) }, nil)
				name := "change in " + eng.Name(eng.Root(f))
				if ci, ok := top.(ssa.CallInstruction); ok {
					name = "change by " + eng.MKey(ci)
				}
				r.Check(leak == nil, name, w.At(top), "what this changes is never written to the tool file")
			}
		})
	}
	r.Check(n >= 3, "changes", w.Pos(pin.Pos()), "only %d steps of pinning change the tool file", n)

	// imports
	want := map[string]string{mainModule: "Add", "github.com/DataDog/dd-trace-go/orchestrion/all/v2": "Add", mainModule + "/instrument": "Remove", "gopkg.in/DataDog/dd-trace-go.v1": "Remove"}
	for path, op := range want {
		did := func(in ssa.Instruction) bool {
			ci, ok := in.(*ssa.Call)
			if !ok || eng.MKey(ci) != pinPkg+".importSet."+op {
				return false
			}
			for _, s := range w.ConstStrings(eng.ArgOf(ci, 1)) {
				if s == path {
					return true
				}
			}
			return false
		}
		up := w.LiftEvent(did)
		first := 0
		for _, f := range region {
			for _, ci := range eng.Calls(f) {
				if !writes(ci) {
					continue
				}
				first++
				var ok bool
				w.Within(pin, func() { ok, _ = w.MustPrecede(ci, up, nil) })
				rImp.Check(ok, strings.ToLower(op)+" "+path, w.At(ci), "the tool file may be written before %q is dealt with", path)
			}
		}
	}
	add := w.Func(pinPkg, "importSet.Add")
	rem := w.Func(pinPkg, "importSet.Remove")
	if add == nil || rem == nil {
		rImp.Bad("anchor importSet", "-", "the methods of the set of imports were not found")
		return
	}
	c.importAdded(rImp, add)
	c.importRemoved(rImp, rem)
	rImp.Min(8)
}

// leaks: top may succeed without the event happening after the instruction.
func (c *Ctx) leaks(top *ssa.Function, in ssa.Instruction, ev eng.Event, seen map[*ssa.Function]bool) bool {
	f := in.Parent()
	if c.W.MustFollow(in, ev, c.W.MaySucceed, nil) == nil {
		return false
	}
	if f == top || seen[f] {
		return f == top
	}
	seen[f] = true
	sites := c.W.EntrySites(f)
	for _, s := range sites {
		if c.leaks(top, s, ev, seen) {
			return true
		}
	}
	return len(sites) == 0
}

// stepsOf are the calls of fn (or of what it calls, when they are not in one function) leading to an instruction.
func (c *Ctx) stepsOf(top, f *ssa.Function, in ssa.Instruction) []ssa.Instruction {
	var res []ssa.Instruction
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, in ssa.Instruction)
	walk = func(f *ssa.Function, in ssa.Instruction) {
		if f == top {
			res = append(res, in)
			return
		}
		if seen[f] {
			return
		}
		seen[f] = true
		for _, s := range c.W.Callers(f) {
			if eng.Rel(s.Parent()) == pinPkg {
				walk(s.Parent(), s)
			}
		}
		// passed as a callback
		for _, s := range c.W.PassSites(f) {
			walk(s.Parent(), s)
		}
	}
	walk(f, in)
	return res
}

func (c *Ctx) importAdded(r *R, add *ssa.Function) {
	w := c.W
	pos := w.Pos(add.Pos())
	specs := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		return ok && c.extPkgField(s.Addr, "github.com/dave/dst", "GenDecl", "Specs")
	}
	// returned as new only when it was added to a declaration, with its path
	n := 0
	for _, b := range add.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(rt.Results) != 2 {
			continue
		}
		n++
		isNew, known := eng.ConstBool(rt.Results[1])
		pre := w.PrecededIn(rt, w.LiftEvent(specs))
		switch {
		case known && !isNew:
			found := w.MustHoldLocal(rt, func(l eng.Lit) bool {
				if nilLit(l, func(v ssa.Value) bool { return lookupIn(v, c) }) == "nonnil" {
					return true
				}
				return l.Pol && lookupIn(l.V, c)
			})
			r.Check(found || pre, "kept", w.At(rt), "an import is considered present although it is not")
		default:
			r.Check(pre, "added", w.At(rt), "an import is not added to a declaration of the file")
		}
	}
	r.Check(n > 0, "add", pos, "adding an import never returns")
	named := false
	for _, f := range c.Region(add) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if ok && c.extPkgField(s.Addr, "github.com/dave/dst", "BasicLit", "Value") {
				named = named || c.derives(s.Val, func(o ssa.Value) bool {
					call, ok := o.(*ssa.Call)
					return ok && eng.Key(call) == "strconv.Quote" && c.derives(call.Call.Args[0], func(q ssa.Value) bool { return q == ssa.Value(add.Params[1]) })
				})
			}
		})
	}
	r.Check(named, "path", pos, "the import added is not of the path asked for")
}

func lookupIn(v ssa.Value, c *Ctx) bool {
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	_, ok := v.(*ssa.Lookup)
	return ok
}

func (c *Ctx) importRemoved(r *R, rem *ssa.Function) {
	w := c.W
	n := 0
	for _, f := range c.Region(rem) {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) != "github.com/dave/dst/dstutil.Cursor.Delete" {
				continue
			}
			n++
			same := w.MustHoldLocal(ci, func(l eng.Lit) bool {
				is := func(v ssa.Value) bool {
					return c.derives(v, func(o ssa.Value) bool { return o == ssa.Value(rem.Params[1]) })
				}
				path := func(v ssa.Value) bool {
					return c.derives(v, func(o ssa.Value) bool {
						call, ok := o.(*ssa.Call)
						return ok && eng.Key(call) == "strconv.Unquote"
					})
				}
				return cmpLit(l, is, path) == 1
			})
			r.Check(same, "removed", w.At(ci), "imports other than the one to remove may be removed")
		}
	}
	r.Check(n > 0, "remove", w.Pos(rem.Pos()), "imports are not removed from the file")
}

// pinRequirements: which edits are made to go.mod.
func (c *Ctx) pinRequirements(r *R, pin *ssa.Function) {
	w := c.W
	pos := w.Pos(pin.Pos())
	reaches := map[*ssa.Function]bool{}
	for _, f := range c.Region(pin) {
		for _, ci := range eng.Calls(f) {
			if g := ci.Common().StaticCallee(); g != nil && eng.Rel(g) == gomodPkg && eng.Rel(f) == pinPkg {
				for x := range w.CallersClosure(f) {
					reaches[x] = true
				}
				reaches[f] = true
			}
		}
	}
	for _, required := range []string{"absent", "older", "same", "newer"} {
		for _, oldGo := range []bool{false, true} {
			for _, integ := range []bool{false, true} {
				var edits []string
				ex := &eng.Exploration{W: w, Lists: true, Repeat: true, Defers: false,
					Inline: func(g *ssa.Function) bool { return eng.Rel(g) == pinPkg && reaches[g] }}
				ex.Atom = func(v ssa.Value) (eng.AV, bool) {
					switch x := v.(type) {
					case *ssa.MakeInterface:
						if n, ok := x.X.Type().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), gomodPkg) {
							s := strings.ToLower(n.Obj().Name())
							if s == "version" {
								s += " " + strings.Join(w.ConstStrings(x.X), "|")
							}
							return sym(s), true
						}
					case *ssa.Call:
						switch k := eng.MKey(x); k {
						case "internal/goenv.GOMOD":
							return tuple(sym("go.mod"), eng.ANilV()), true
						case "internal/ensure.RequiredIntegrations":
							l := eng.List{}
							if integ {
								l.Rest = "integrations"
							}
							return tuple(eng.AListOf(l), eng.ANilV()), true
						case gomodPkg + ".File.Requires":
							return tuple(sym("required version"), eng.ABool(required != "absent")), true
						case "go/version.Compare":
							n := 0
							if oldGo {
								n = -1
							}
							if c.firstIsConst(x) {
								n = -n
							}
							return eng.AInt(int64(n)), true
						case "golang.org/x/mod/semver.Compare":
							n := map[string]int{"absent": -1, "older": -1, "same": 0, "newer": 1}[required]
							if call, ok := eng.ResolveLocal(x.Call.Args[0]).(*ssa.Call); ok && strings.HasPrefix(eng.MKey(call), "internal/version.") {
								n = -n
							}
							return eng.AInt(int64(n)), true
						default:
							if i := eng.ErrIndex(x.Call.Signature()); i >= 0 && !(x.Call.StaticCallee() != nil && reaches[x.Call.StaticCallee()] && eng.Rel(x.Call.StaticCallee()) == pinPkg) {
								// everything else succeeds
								res := make([]eng.AV, i+1)
								for j := range res {
									res[j] = eng.AUnk()
								}
								res[i] = eng.ANilV()
								if i == 0 {
									return res[0], true
								}
								return tuple(res...), true
							}
						}
					}
					return eng.AV{}, false
				}
				ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
					if x, ok := in.(*ssa.Call); ok && eng.MKey(x) == gomodPkg+".RunEdit" {
						a := eval(x.Call.Args[2])
						s := a.String()
						if a.K == eng.AList && a.L != nil {
							var l []string
							for _, e := range append(append([]eng.AV{}, a.L.Pre...), a.L.Post...) {
								l = append(l, strings.Trim(e.String(), "<>"))
							}
							if a.L.Rest != "" {
								l = append(l, a.L.Rest)
							}
							sort.Strings(l)
							s = strings.Join(l, ", ")
						}
						edits = append(edits, s)
					}
					return false
				}
				outs := ex.Run(pin)
				var want []string
				if integ {
					want = append(want, "integrations")
				}
				if required == "absent" || required == "older" {
					want = append(want, "require")
				}
				if oldGo {
					want = append(want, "version 1.23.0")
				}
				sort.Strings(want)
				name := fmt.Sprintf("orchestrion %s, old go %v, integrations %v", required, oldGo, integ)
				got := map[string]bool{}
				for _, e := range edits {
					got[e] = true
				}
				delete(got, "toolchain")
				exp := strings.Join(want, ", ")
				ok := len(got) == 1 && got[exp] || len(got) == 0 && exp == ""
				r.Check(len(outs) > 0 && !ex.Exhausted, name+": explored", pos, "the paths of pinning could not be followed")
				r.Check(ok, name, pos, "the edits made to go.mod are [%s] instead of [%s]", strings.Join(keysOf(got), "] ["), exp)
			}
		}
	}
	// what is required is this version
	reqP := c.W.Field(gomodPkg, "Require", "Path")
	reqV := c.W.Field(gomodPkg, "Require", "Version")
	for _, f := range c.Region(pin) {
		for _, s := range fieldStores([]*ssa.Function{f}, reqV) {
			keys := c.inputs(s.Val)
			r.Check(keys["internal/version.Tag"] || keys["internal/version.TagInfo"], "version required", w.At(s), "the version required is not the one running")
		}
		for _, s := range fieldStores([]*ssa.Function{f}, reqP) {
			p, _ := eng.ConstString(s.Val)
			r.Check(p == mainModule, "module required", w.At(s), "the module required is %q", p)
		}
		for _, ci := range eng.Calls(f) {
			if eng.MKey(ci) == gomodPkg+".File.Requires" {
				p, _ := eng.ConstString(eng.ArgOf(ci, 1))
				r.Check(p == mainModule, "module looked up", w.At(ci), "the requirement looked up is of %q", p)
			}
		}
	}
	// the toolchain directive
	restores := func(in ssa.Instruction) bool {
		x, ok := in.(*ssa.Call)
		if !ok || eng.MKey(x) != gomodPkg+".RunEdit" {
			return false
		}
		for _, a := range eng.VarArgs(x.Call.Args[2]) {
			if a == nil {
				continue
			}
			if c.derivesField(eng.Unwrap(a), c.W.Field(gomodPkg, "File", "Toolchain")) {
				return true
			}
		}
		return false
	}
	n := 0
	for _, f := range c.Region(pin) {
		for _, ci := range eng.Calls(f) {
			g := ci.Common().StaticCallee()
			if g == nil || eng.Rel(g) != gomodPkg || eng.Rel(f) != pinPkg || ci.Common().Signature().Results().Len() != 1 || restores(ci) {
				continue
			}
			n++
			leak := c.leaks(pin, ci, w.LiftExit(restores, w.MaySucceed, nil), map[*ssa.Function]bool{})
			r.Check(!leak, "toolchain after "+eng.MKey(ci), w.At(ci), "the toolchain directive is not restored after this may have changed it")
		}
	}
	r.Check(n > 0, "edits", pos, "go.mod is not edited")
	// it is the one found before any change
	for _, f := range c.Region(pin) {
		for _, ci := range eng.Calls(f) {
			if !restores(ci) {
				continue
			}
			r.OK("toolchain restored", w.At(ci))
		}
		for _, ci := range eng.Calls(f) {
			if eng.MKey(ci) != gomodPkg+".Parse" {
				continue
			}
			early := true
			for _, g := range c.Region(pin) {
				for _, x := range eng.Calls(g) {
					k := eng.MKey(x)
					if k != gomodPkg+".RunEdit" && k != gomodPkg+".Run" && k != gomodPkg+".RunGet" && k != "internal/ensure.RequiredIntegrations" || eng.Rel(g) != pinPkg {
						continue
					}
					for _, a := range c.stepsOf(pin, g, x) {
						for _, b := range c.stepsOf(pin, f, ci) {
							early = early && (a == b || !eng.CanReach(a, b))
						}
					}
				}
			}
			r.Check(early, "original read", w.At(ci), "go.mod is read after it may have been changed")
		}
	}
	r.Min(25)
}

func (c *Ctx) firstIsConst(x *ssa.Call) bool {
	_, ok := eng.ConstString(x.Call.Args[0])
	return ok
}

func (c *Ctx) pinPrune(r *R, region []*ssa.Function) {
	w := c.W
	noPrune := r.Field(pinPkg, "Options", "NoPrune")
	disabled := func(v ssa.Value) bool { return isFieldVal(v, noPrune) }
	n := 0
	for _, f := range region {
		for _, ci := range eng.Calls(f) {
			if eng.MKey(ci) != pinPkg+".importSet.Remove" {
				continue
			}
			if len(w.ConstStrings(eng.ArgOf(ci, 1))) > 0 {
				continue // an obsolete import
			}
			n++
			r.Check(w.MustHold(ci, func(l eng.Lit) bool { return !l.Pol && disabled(l.V) }), "enabled", w.At(ci), "imports are removed although pruning is disabled")
			r.Check(w.MustHold(ci, func(l eng.Lit) bool {
				if ex, ok := l.V.(*ssa.Extract); ok && !l.Pol && ex.Index == 0 {
					if call, ok := ex.Tuple.(*ssa.Call); ok && eng.MKey(call) == "internal/injector/config.HasConfig" {
						return true
					}
				}
				return nilLit(l, func(v ssa.Value) bool {
					ex, ok := v.(*ssa.Extract)
					if !ok || ex.Index != 1 {
						return false
					}
					call, ok := ex.Tuple.(*ssa.Call)
					return ok && eng.MKey(call) == "internal/injector/config.HasConfig"
				}) == "nonnil"
			}), "useless", w.At(ci), "imports of packages with valid configuration may be removed")
		}
		for _, ci := range eng.Calls(f) {
			if !strings.HasSuffix(eng.Key(ci), "go/packages.Load") {
				continue
			}
			spared := false
			for _, g := range c.Region(f) {
				for _, cj := range eng.Calls(g) {
					for _, a := range cj.Common().Args {
						for _, e := range append(eng.VarArgs(a), a) {
							if e == nil {
								continue
							}
							if s, ok := eng.ConstString(e); ok && s == mainModule {
								spared = true
							}
						}
					}
				}
				instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
					if b, ok := in.(*ssa.BinOp); ok {
						for _, o := range []ssa.Value{b.X, b.Y} {
							if s, ok := eng.ConstString(o); ok && s == mainModule {
								spared = true
							}
						}
					}
				})
			}
			r.Check(spared, "orchestrion spared", w.At(ci), "orchestrion's own import may be removed")
		}
	}
	r.Check(n > 0, "pruning", "-", "no import is ever removed")
	r.Min(4)
}

func (c *Ctx) pinCommands(r *R) {
	w := c.W
	n := 0
	for _, f := range c.shipped() {
		if eng.Rel(f) != gomodPkg {
			continue
		}
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			if !ok || eng.Key(call) != "os/exec.CommandContext" && eng.Key(call) != "os/exec.Command" {
				continue
			}
			n++
			name := eng.Name(f)
			var lists, envs []string
			ex := &eng.Exploration{W: w, Lists: true, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == gomodPkg }}
			ex.Atom = func(v ssa.Value) (eng.AV, bool) {
				switch x := v.(type) {
				case *ssa.Parameter:
					if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && x.Parent() == f {
						return sym(x.Name()), true
					}
					if _, ok := x.Type().Underlying().(*types.Slice); ok && x.Parent() == f {
						return eng.AListOf(eng.List{Rest: x.Name()}), true
					}
				case *ssa.Call:
					if eng.Key(x) == "os.Environ" {
						return eng.AListOf(eng.List{Rest: "environ"}), true
					}
				}
				return eng.AV{}, false
			}
			ran, sets := 0, 0
			ex.Repeat = true
			ex.Event = func(in ssa.Instruction) string {
				switch x := in.(type) {
				case *ssa.Store:
					if c.extPkgField(x.Addr, "os/exec", "Cmd", "Env") {
						sets++
						return "env"
					}
				case *ssa.Call:
					if isCmdRun(x) {
						ran++
						return "run"
					}
				}
				return ""
			}
			ex.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				switch x := in.(type) {
				case *ssa.Call:
					if x == call {
						lists = append(lists, eval(x.Call.Args[len(x.Call.Args)-1]).String())
					}
				case *ssa.Store:
					if c.extPkgField(x.Addr, "os/exec", "Cmd", "Env") {
						envs = append(envs, eval(x.Val).String())
					}
				}
				return false
			}
			for _, o := range ex.Run(f) {
				r.Check(!o.Has("run") || o.Has("env"), name+": environment set", w.At(ci), "the go command is run with the environment as it is")
			}
			r.Check(ran > 0 && sets > 0, name+": run", w.At(ci), "the go command is not run")
			for _, l := range lists {
				r.Check(strings.Contains(l, `"-modfile" <modfile>`), name+": module", w.At(ci), "the go command is run with %s, without naming the module's go.mod", l)
			}
			for _, e := range envs {
				ok := e == `[environ... "GOTOOLCHAIN=local" "GOWORK=off"]` || e == `[environ... "GOWORK=off" "GOTOOLCHAIN=local"]`
				r.Check(ok, name+": environment", w.At(ci), "the environment of the go command is %s", e)
			}
		}
	}
	r.Check(n > 0, "commands", "-", "no go command was found")
	r.Min(6)
}

func (c *Ctx) pinAuto(r *R, pin *ssa.Function) {
	w := c.W
	auto := r.Fn(pinPkg, "AutoPinOrchestrion")
	if auto == nil {
		return
	}
	pos := w.Pos(auto.Pos())
	type sc struct {
		name           string
		checked, dev   bool
		required, stat string
		pinned, fails  bool
		pinErr         bool
	}
	for _, s := range []sc{
		{"checked already", true, false, "", "", false, false, false},
		{"right version", false, false, "ok", "", false, false, false},
		{"other version", false, false, "incorrect", "", false, true, false},
		{"not required", false, false, "error", "", true, false, false},
		{"not required, pinning fails", false, false, "error", "", true, true, true},
		{"development build, pinned", false, true, "", "ok", false, false, false},
		{"development build, not pinned", false, true, "", "missing", true, false, false},
		{"development build, pinning fails", false, true, "", "missing", true, true, true},
		{"development build, unreadable", false, true, "", "error", false, true, false},
	} {
		ex := &eng.Exploration{W: w, Repeat: true, Inline: func(g *ssa.Function) bool { return eng.Rel(g) == pinPkg && g != pin }}
		ex.Atom = func(v ssa.Value) (eng.AV, bool) {
			x, ok := v.(*ssa.Call)
			if !ok {
				return eng.AV{}, false
			}
			switch k := eng.MKey(x); k {
			case "os.Getenv":
				if s.checked {
					return eng.AStr("true"), true
				}
				return eng.AStr(""), true
			case "os.Setenv":
				return eng.ANilV(), true
			case "internal/version.TagInfo":
				return tuple(sym("tag"), eng.ABool(s.dev)), true
			case "internal/ensure.RequiredVersion":
				if s.required == "ok" {
					return eng.ANilV(), true
				}
				return sym("version error"), true
			case "os.Stat":
				if s.stat == "ok" {
					return tuple(eng.ANonNilV(), eng.ANilV()), true
				}
				return tuple(eng.ANilV(), sym("stat error")), true
			case "errors.As":
				return eng.ABool(s.required == "incorrect"), true
			case "errors.Is", "os.IsNotExist":
				return eng.ABool(s.stat == "missing"), true
			}
			if x.Call.StaticCallee() == pin {
				if s.pinErr {
					return sym("pin error"), true
				}
				return eng.ANilV(), true
			}
			return eng.AV{}, false
		}
		ex.Event = func(in ssa.Instruction) string {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return ""
			}
			if ci.Common().StaticCallee() == pin {
				return "pin"
			}
			switch eng.MKey(ci) {
			case "internal/ensure.RequiredVersion":
				return "version"
			case "os.Setenv":
				return "mark"
			}
			return ""
		}
		outs := ex.Run(auto)
		r.Check(len(outs) > 0 && !ex.Exhausted, s.name+": explored", pos, "the paths of automatic pinning could not be followed")
		for _, o := range outs {
			if o.Panics {
				continue
			}
			res := o.Rets[len(o.Rets)-1]
			r.Check(o.Has("pin") == s.pinned && !o.Has("pin+"), s.name+": pinned", pos, "pinned: %v, expected: %v", o.Has("pin"), s.pinned)
			r.Check((res.K == eng.ANil) == !s.fails, s.name+": outcome", pos, "the outcome is %s", res)
		}
	}
	// child processes do not check again
	for _, f := range c.Region(auto) {
		for _, ci := range eng.Calls(f) {
			k := eng.MKey(ci)
			if f != auto && k != "internal/ensure.RequiredVersion" {
				continue
			}
			if k != "internal/ensure.RequiredVersion" && ci.Common().StaticCallee() != pin {
				continue
			}
			pre, _ := w.MustPrecede(ci, func(in ssa.Instruction) bool {
				x, ok := in.(*ssa.Call)
				return ok && eng.Key(x) == "os.Setenv"
			}, nil)
			r.Check(pre, "marked before "+k, w.At(ci), "the go commands this runs would check and pin again")
		}
	}
	r.Min(20)
}
