package rules

import (
	"go/token"
	"go/types"
	"strings"

	"orchverif/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Prop{ID: "G04", Technique: "ownership analysis: on every path, what is opened, created for a while or locked is closed, removed or unlocked by the function which has acquired it, or handed to an owner who does", Run: resources})
}

// A kind of resource, and what releases it.
type resource struct {
	what    string
	release map[string]int // function -> index of the argument which is the resource (receiver included)
	method  string         // ... or a method
}

var (
	openFile = &resource{"file", nil, "Close"}
	tempDir  = &resource{"temporary directory", map[string]int{"os.RemoveAll": 0}, ""}
	tempFile = &resource{"temporary file", map[string]int{"os.Remove": 0, "os.RemoveAll": 0, "os.Rename": 0}, ""}
	cleanUp  = &resource{"clean-up function", nil, ""}
	acquires = map[string][]*resource{
		"os.Open": {openFile}, "os.OpenFile": {openFile}, "os.Create": {openFile}, "os.OpenInRoot": {openFile},
		"os.CreateTemp": {openFile, tempFile},
		"os.MkdirTemp":  {tempDir},
	}
)

func resources(c *Ctx) {
	r := c.Rule("G04.released", "what is acquired is released on every path, or handed to an owner who does")
	rl := c.Rule("G04.locks", "a file lock taken is released on every path")
	w := c.W
	type site struct {
		call *ssa.Call
		res  *resource
		idx  int
	}
	var todo []site
	seen := map[site]bool{}
	add := func(s site) {
		if !seen[s] {
			seen[s] = true
			todo = append(todo, s)
		}
	}
	skip := func(f *ssa.Function) bool {
		rel := eng.Rel(f)
		return strings.Contains(rel, "generator") || strings.HasPrefix(rel, "test") || strings.HasPrefix(rel, "samples") || strings.HasPrefix(rel, "_")
	}
	for _, f := range w.Funcs {
		if skip(f) {
			continue
		}
		for _, ci := range eng.Calls(f) {
			call, ok := ci.(*ssa.Call)
			for _, res := range acquires[eng.Key(ci)] {
				if r.Check(ok, short(f)+": "+eng.Key(ci), w.At(ci), "what is acquired is out of reach") {
					add(site{call, res, 0})
				}
			}
		}
	}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		f := s.call.Parent()
		key := short(f) + " -> " + eng.Key(s.call) + ": " + s.res.what
		var val ssa.Value = s.call
		if _, multi := s.call.Type().(*types.Tuple); multi {
			val = eng.ResultAt(s.call, s.idx)
		}
		if val == nil {
			r.Bad(key, w.At(s.call), "what is acquired is discarded")
			continue
		}
		from := func(v ssa.Value, want func(ssa.Value) bool) bool {
			found := false
			w.Origins(v, func(o ssa.Value) eng.Step {
				if want(o) {
					found = true
					return eng.Stop
				}
				if call, ok := o.(*ssa.Call); ok && len(w.Callees(call)) == 0 {
					return eng.Stop
				}
				return eng.Follow
			})
			return found
		}
		self := func(o ssa.Value) bool { return o == val }
		is := func(v ssa.Value) bool {
			switch s.res {
			case tempFile: // the name of the file
				return from(v, func(o ssa.Value) bool {
					n, ok := o.(*ssa.Call)
					return ok && eng.Key(n) == "os.File.Name" && from(n.Call.Args[0], self)
				})
			case cleanUp:
				_, isFunc := v.Type().Underlying().(*types.Signature)
				return isFunc && from(v, self)
			case tempDir:
				return types.Identical(v.Type(), val.Type()) && from(v, self)
			}
			return hasMethod(v.Type(), s.res.method) && from(v, self)
		}
		rel := func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if _, isGo := in.(*ssa.Go); isGo {
				return false
			}
			if i, ok := s.res.release[eng.Key(ci)]; ok {
				return is(eng.ArgOf(ci, i))
			}
			if s.res == cleanUp {
				// run, or given to someone
				for _, a := range ci.Common().Args {
					if is(a) {
						return true
					}
				}
				return !ci.Common().IsInvoke() && is(ci.Common().Value)
			}
			if s.res.method == "" {
				return false
			}
			cc := ci.Common()
			if cc.IsInvoke() {
				return cc.Method.Name() == s.res.method && is(cc.Value)
			}
			return strings.HasSuffix(eng.Key(ci), "."+s.res.method) && len(cc.Args) > 0 && is(cc.Args[0])
		}
		// a release under a condition, in a function run at the end, is taken to be made when needed (but when there is
		// an error only, if that is the condition)
		releaser := func(g *ssa.Function) bool {
			return c.someCall(g, rel, map[*ssa.Function]bool{})
		}
		onError := func(g *ssa.Function) bool {
			for _, ci := range eng.Calls(g) {
				if rel(ci) && !underError(ci) {
					return false
				}
			}
			return true
		}
		handed, cleaners := false, map[int]bool{}
		failing := false
		ev := w.LiftUnder(func(in ssa.Instruction) bool {
			if rel(in) {
				return true
			}
			switch in := in.(type) {
			case *ssa.Defer:
				for _, g := range c.funcsOf(in.Call.Value) {
					if releaser(g) && (failing || !onError(g)) {
						return true
					}
				}
			case *ssa.Return:
				for i, v := range in.Results {
					v = eng.ResolveLocal(v)
					if isNil(v) {
						continue
					}
					if s.res.what != "temporary file" && is(v) {
						if in.Parent() == f {
							handed = true
							s.idx = i
						}
						return true
					}
					if _, isFunc := v.Type().Underlying().(*types.Signature); !isFunc {
						continue
					}
					for _, g := range c.funcsOf(v) {
						if releaser(g) {
							if in.Parent() == f {
								cleaners[i] = true
							}
							return true
						}
					}
				}
			case *ssa.Store:
				fv := eng.FieldVarOf(in.Addr)
				if fv == nil {
					v, captured := in.Addr.(*ssa.FreeVar)
					return captured && is(eng.Unwrap(in.Val)) && c.capturedReleased(v, s.res)
				}
				if is(eng.Unwrap(in.Val)) {
					// an owner out of this module, or one which has the method as its own, or releases the field
					return fv.Pkg() != nil && !strings.HasPrefix(fv.Pkg().Path(), mainModule) || fv.Embedded() || c.fieldReleased(fv, s.res)
				}
				if _, isFunc := in.Val.Type().Underlying().(*types.Signature); !isFunc {
					return false
				}
				for _, g := range c.funcsOf(in.Val) {
					if releaser(g) {
						return true
					}
				}
			}
			return false
		}, nil)
		leak := w.MustFollow(s.call, ev, w.MaySucceed, w.ErrFailed(s.call))
		if leak == nil {
			failing = true
			leak = w.MustFollow(s.call, ev, func(ret *ssa.Return) bool { return !w.MaySucceed(ret) }, w.ErrFailed(s.call))
		}
		if leak != nil {
			r.Check(false, key, w.At(s.call), "the %s may not be released when the function returns at %s", s.res.what, w.At(leak.Exit))
		} else {
			r.Check(true, key, w.At(s.call), "")
		}
		// now it is up to the callers
		for _, ci := range w.Callers(f) {
			call, ok := ci.(*ssa.Call)
			if !ok || skip(ci.Parent()) || !types.Identical(ci.Common().Signature().Results(), f.Signature.Results()) {
				continue // (dynamic calls may be to other functions)
			}
			if handed {
				add(site{call, s.res, s.idx})
			}
			for i := range cleaners {
				add(site{call, cleanUp, i})
			}
		}
	}
	r.Min(15)

	for _, f := range w.Funcs {
		if skip(f) {
			continue
		}
		for _, ci := range eng.Calls(f) {
			k := eng.MKey(ci)
			if k != "internal/filelock.Mutex.Lock" && k != "internal/filelock.Mutex.RLock" {
				continue
			}
			recv := ci.Common().Args[0]
			leak := w.MustFollow(ci, w.LiftUnder(func(in ssa.Instruction) bool {
				u, ok := in.(ssa.CallInstruction)
				if !ok || eng.MKey(u) != "internal/filelock.Mutex.Unlock" {
					return false
				}
				return sameObject(w, u.Common().Args[0], recv)
			}, nil), func(ret *ssa.Return) bool {
				// locks end with the process
				n := len(ret.Results)
				return n == 0 || !strings.HasSuffix(ret.Results[n-1].Type().String(), ".ExitCoder") || isNil(ret.Results[n-1])
			}, w.ErrFailed(ci))
			if leak != nil {
				rl.Check(false, short(f)+" -> "+k, w.At(ci), "the lock may not be released when the function returns at %s", w.At(leak.Exit))
			} else {
				rl.Check(true, short(f)+" -> "+k, w.At(ci), "")
			}
		}
	}
	rl.Min(3)
}

// sameObject: both are made of the same value.
func sameObject(w *eng.World, a, b ssa.Value) bool {
	made := map[ssa.Value]bool{}
	w.Origins(b, func(o ssa.Value) eng.Step {
		switch o.(type) {
		case *ssa.Call, *ssa.Alloc:
			made[o] = true
			return eng.Stop
		}
		return eng.Follow
	})
	same := false
	w.Origins(a, func(o ssa.Value) eng.Step {
		same = same || made[o]
		if _, isCall := o.(*ssa.Call); isCall || same {
			return eng.Stop
		}
		return eng.Follow
	})
	return same
}

// underError: the instruction is only reached if some error is not nil.
func underError(in ssa.Instruction) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		p := b.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(isNil(cmp.Y) && eng.IsErrorType(cmp.X.Type()) || isNil(cmp.X) && eng.IsErrorType(cmp.Y.Type())) {
			continue
		}
		i := 0 // the branch taken with an error
		if cmp.Op == token.EQL {
			i = 1
		}
		if s := p.Succs[i]; len(s.Preds) == 1 && s.Dominates(in.Block()) || !p.Succs[1-i].Dominates(in.Block()) && s == in.Block() {
			return true
		}
	}
	return false
}

func hasMethod(t types.Type, name string) bool {
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := obj.(*types.Func)
	return ok
}

// someCall: the function or what it calls or creates makes a call accepted by ev.
func (c *Ctx) someCall(f *ssa.Function, ev func(ssa.Instruction) bool, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, ci := range eng.Calls(f) {
		if ev(ci) {
			return true
		}
		for _, g := range c.W.Callees(ci) {
			if c.someCall(g, ev, seen) {
				return true
			}
		}
	}
	return false
}

// capturedReleased: another closure releases what the captured variable holds.
func (c *Ctx) capturedReleased(v *ssa.FreeVar, res *resource) bool {
	w := c.W
	variable := func(v *ssa.FreeVar) (vars []ssa.Value) {
		for i, fv := range v.Parent().FreeVars {
			for _, mc := range w.ClosureSites(v.Parent()) {
				if fv == v {
					vars = append(vars, mc.Bindings[i])
				}
			}
		}
		return
	}
	mine := variable(v)
	for _, g := range w.Funcs {
		if g == v.Parent() || eng.Root(g) != eng.Root(v.Parent()) {
			continue
		}
		for _, ci := range eng.Calls(g) {
			arg := ssa.Value(nil)
			if i, ok := res.release[eng.Key(ci)]; ok {
				arg = eng.ArgOf(ci, i)
			} else if cc := ci.Common(); res.method != "" && !cc.IsInvoke() && len(cc.Args) > 0 && strings.HasSuffix(eng.Key(ci), "."+res.method) {
				arg = cc.Args[0]
			}
			ld, ok := arg.(*ssa.UnOp)
			if !ok {
				continue
			}
			if fv, ok := ld.X.(*ssa.FreeVar); ok {
				for _, o := range variable(fv) {
					for _, m := range mine {
						if o == m {
							return true
						}
					}
				}
			}
			for _, m := range mine {
				if ld.X == m {
					return true
				}
			}
		}
	}
	return false
}

// fieldReleased: some function releases what the field holds.
func (c *Ctx) fieldReleased(fv *types.Var, res *resource) bool {
	w := c.W
	held := func(o ssa.Value) bool { return eng.FieldVarOf(o) == fv }
	for _, f := range w.Funcs {
		for _, ci := range eng.Calls(f) {
			if i, ok := res.release[eng.Key(ci)]; ok && w.Carries(eng.ArgOf(ci, i), held) {
				return true
			}
			cc := ci.Common()
			if res.method != "" && !cc.IsInvoke() && strings.HasSuffix(eng.Key(ci), "."+res.method) && len(cc.Args) > 0 && w.Carries(cc.Args[0], held) {
				return true
			}
		}
	}
	return false
}
