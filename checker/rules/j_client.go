package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func runClientLocks(c *Ctx) {
	w := c.W
	const L, C = "internal/filelock", "internal/jobserver/client"
	rState := c.Rule("lock-state-matches-system", "the recorded state of a file lock only changes after the system granted or released the lock, and a successful operation leaves the state it asked for")
	rKind := c.Rule("lock-kind", "shared, exclusive and unlock operations ask the system for exactly that, without giving up waiting")
	rIO := c.Rule("lock-file-io", "I/O through a lock file is only done while it is open, and fails otherwise")
	rEnv := c.Rule("server-from-environment", "the job server named in the environment is used when there is one")
	rFile := c.Rule("url-read-under-lock", "a URL is read from the URL file with the file's lock held, is only used when not empty, and the lock is released")
	rWait := c.Rule("wait-terminates", "waiting for the job server ends with an error when the server process failed or the time is up, and never spins")
	rChild := c.Rule("server-process", "the daemonized server is told the URL file clients wait for and the process to find build flags from, and does not inherit the package being compiled")

	fLocked, fFile := rState.Field(L, "Mutex", "locked"), rState.Field(L, "Mutex", "file")
	if fLocked == nil || fFile == nil {
		return
	}
	state := func(name string) (int64, bool) {
		if p := w.Pkg(L); p != nil {
			if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
				return constInt(k)
			}
		}
		return 0, false
	}
	ops := []struct {
		prim, st string
	}{{"rlock", "lockStateRLocked"}, {"lock", "lockStateWLocked"}, {"unlock", "lockStateUnlocked"}}
	byState := map[int64]string{}
	for _, o := range ops {
		n, ok := state(o.st)
		if !ok {
			rState.Bad("anchor "+o.st, "-", "lock state not found")
			return
		}
		byState[n] = o.prim
	}
	rState.Check(len(byState) == 3, "states distinct", "-", "lock states are not distinct")
	uns, _ := state("lockStateUnlocked")
	rState.Check(uns == 0, "initially unlocked", "-", "a new file lock does not start out unlocked")
	fs := w.FuncsIn(L)
	for _, f := range fs {
		for _, s := range fieldStores([]*ssa.Function{f}, fLocked) {
			n, ok := eng.ConstInt(s.Val)
			if !ok {
				// a shared helper: the state is a parameter; judged at its callers below
				if p, isP := eng.ResolveLocal(s.Val).(*ssa.Parameter); isP {
					checkStateParam(c, rState, s, p, byState, L)
					continue
				}
				rState.Bad(short(f)+" sets a state", w.At(s), "the recorded state is not one of the lock states")
				continue
			}
			prim := byState[n]
			okM := false
			for _, ci := range eng.Calls(f) {
				if keyIs(ci, L+"."+prim) && w.MustHold(s, c.succeeded(ci)) {
					okM = true
				}
			}
			rState.Check(okM, short(f)+" records "+prim, w.At(s), "the lock is recorded as %s although the system call for it may have failed or not been made", prim)
		}
	}
	for _, m := range []struct{ fn, prim, st string }{{"Mutex.RLock", "rlock", "lockStateRLocked"}, {"Mutex.Lock", "lock", "lockStateWLocked"}, {"Mutex.Unlock", "unlock", "lockStateUnlocked"}} {
		f := rState.Fn(L, m.fn)
		if f == nil {
			continue
		}
		n, _ := state(m.st)
		set := storeTo(fLocked, func(v ssa.Value) bool {
			k, ok := eng.ConstInt(v)
			if ok {
				return k == n
			}
			_, isP := eng.ResolveLocal(v).(*ssa.Parameter)
			return isP
		})
		skip := func(l eng.Lit) bool {
			if m.prim == "unlock" {
				return errNonNil(l) || w.Implies(l, func(l eng.Lit) bool {
					return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fFile) }) == "nil"
				})
			}
			// pruned: "already in that state" according to the hook
			if errNonNil(l) {
				return true
			}
			e, ok := l.V.(*ssa.Extract)
			if !ok || l.Pol || e.Type().String() != "bool" {
				return false
			}
			call, ok := e.Tuple.(*ssa.Call)
			return ok && keyIs(call, L+".Mutex.beforeLockChange")
		}
		c.mustDo(rState, m.fn+" records its effect", f, set, c.succeeding, skip, "%s can succeed without the lock having been changed or recorded", m.fn)
		for _, g := range c.Region(f) {
			for _, ci := range eng.Calls(g) {
				if keyIs(ci, L+".rlock", L+".lock", L+".unlock") {
					fate, exit := w.Fate(ci)
					rState.Check(fate == eng.ErrPropagated, m.fn+": "+short(g)+" "+eng.MKey(ci)+" error", w.At(ci), "a failed %s counts as success (%s)", eng.MKey(ci), atOr(w, exit))
				}
				if keyIs(ci, L+".Mutex.beforeLockChange") {
					k, ok := eng.ConstInt(ci.Common().Args[len(ci.Common().Args)-1])
					if !ok {
						_, isP := eng.ResolveLocal(ci.Common().Args[len(ci.Common().Args)-1]).(*ssa.Parameter)
						rState.Check(isP, m.fn+" asks for its state", w.At(ci), "unrecognised target state")
					} else {
						rState.Check(k == n, m.fn+" asks for its state", w.At(ci), "%s prepares for another lock state", m.fn)
					}
					fate, exit := w.Fate(ci)
					rState.Check(fate == eng.ErrPropagated, m.fn+" hook error", w.At(ci), "a failed release of the previous lock is ignored (%s)", atOr(w, exit))
				}
			}
		}
	}
	// beforeLockChange: continue unless already in the target state
	if f := rState.Fn(L, "Mutex.beforeLockChange"); f != nil {
		to := f.Params[len(f.Params)-1]
		isTo := func(v ssa.Value) bool { return eng.ResolveLocal(v) == ssa.Value(to) }
		isCur := func(v ssa.Value) bool { return isFieldVal(v, fLocked) }
		same := func(l eng.Lit) bool { return cmpLit(l, isCur, isTo) == 1 }
		unlockedL := func(l eng.Lit) bool {
			return cmpLit(l, isCur, func(v ssa.Value) bool { n, ok := eng.ConstInt(v); return ok && n == uns }) == 1
		}
		ok := true
		for _, r := range eng.Returns(f) {
			if !w.MaySucceed(r) {
				continue
			}
			v := eng.ResolveLocal(r.Results[0])
			if b, isC := eng.ConstBool(v); isC {
				if !b && !w.MustHoldLocal(r, same) {
					ok = false
				}
				if b && !w.MustHoldLocal(r, func(l eng.Lit) bool { return cmpLit(l, isCur, isTo) == -1 || unlockedL(l) }) {
					ok = false
				}
				continue
			}
			bo, isB := v.(*ssa.BinOp)
			if !isB || bo.Op != token.NEQ || !(isCur(bo.X) && isTo(bo.Y) || isCur(bo.Y) && isTo(bo.X)) {
				ok = false
			}
		}
		rState.Check(ok, "beforeLockChange", w.Pos(f.Pos()), "changing the kind of a lock is skipped although it is not held in that kind, or a held lock is acquired again")
	}
	rState.Min(10)

	// primitive operations
	if w.GOOS == "windows" {
		want := map[string]int64{"rlock": 0, "lock": 2}
		for name, v := range want {
			if f := rKind.Fn(L, name); f != nil {
				found := false
				for _, ci := range eng.Calls(f) {
					for _, a := range ci.Common().Args {
						if n, ok := eng.ConstInt(a); ok && a.Type().String() == "uint32" {
							found = true
							rKind.Check(n == v, name+" flags", w.At(ci), "%s requests lock flags %d instead of %d", name, n, v)
						}
					}
				}
				rKind.Check(found, name, w.Pos(f.Pos()), "lock flags not found")
			}
		}
		if f := rKind.Fn(L, "unlock"); f != nil {
			ok := false
			for _, ci := range eng.Calls(f) {
				ok = ok || eng.Key(ci) == "golang.org/x/sys/windows.UnlockFileEx"
			}
			rKind.Check(ok, "unlock", w.Pos(f.Pos()), "unlock does not release the lock")
		}
	} else {
		sh, ex, un := c.extConst("syscall", "LOCK_SH"), c.extConst("syscall", "LOCK_EX"), c.extConst("syscall", "LOCK_UN")
		want := map[string]int64{"rlock": sh, "lock": ex, "unlock": un}
		for _, name := range []string{"rlock", "lock", "unlock"} {
			f := rKind.Fn(L, name)
			if f == nil {
				continue
			}
			n := 0
			for _, ci := range eng.CallsIn(c.Region(f)) {
				if eng.Key(ci) != "syscall.Flock" {
					continue
				}
				n++
				op := ci.Common().Args[1]
				v, ok := eng.ConstInt(op)
				if p, isP := eng.ResolveLocal(op).(*ssa.Parameter); isP {
					// helper shared by the operations: the constant is passed by f
					for _, x := range eng.Calls(f) {
						if x.Common().StaticCallee() == p.Parent() {
							for i, pp := range p.Parent().Params {
								if pp == p {
									v, ok = eng.ConstInt(eng.ArgOf(x, i))
								}
							}
						}
					}
				}
				rKind.Check(ok && v == want[name], name+" operation", w.At(ci), "%s performs flock operation %d instead of %d", name, v, want[name])
				fate, exit := w.Fate(ci)
				rKind.Check(fate == eng.ErrPropagated || returnsCall(ci), name+" error", w.At(ci), "a failed flock is ignored (%s)", atOr(w, exit))
			}
			rKind.Check(n == 1, name, w.Pos(f.Pos()), "%s does not perform exactly one flock", name)
		}
	}
	rKind.Min(3)

	// I/O
	for _, f := range fs {
		for _, ci := range eng.Calls(f) {
			g := eng.CalleeObj(ci)
			if g == nil || g.Pkg() == nil || g.Pkg().Path() != "os" || !strings.HasPrefix(eng.Key(ci), "os.File.") || len(ci.Common().Args) == 0 || !isFieldVal(ci.Common().Args[0], fFile) {
				continue
			}
			ok := w.MustHold(ci, func(l eng.Lit) bool {
				return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fFile) }) == "nonnil"
			})
			rIO.Check(ok, short(f)+" "+g.Name(), w.At(ci), "the lock file is used although it may not be open")
		}
		// methods with the io signatures return an error when closed
		acquires := false
		for _, ci := range eng.CallsIn(c.Region(f)) {
			acquires = acquires || eng.Key(ci) == "os.OpenFile" || eng.Key(ci) == "os.Create" || eng.Key(ci) == "os.Open"
		}
		if f.Parent() == nil && f.Signature.Recv() != nil && eng.ErrIndex(f.Signature) >= 0 && !acquires {
			for _, r := range eng.Returns(f) {
				if w.MustHoldLocal(r, func(l eng.Lit) bool {
					return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fFile) }) == "nil"
				}) && f.Name() != "Unlock" {
					rIO.Check(!w.MaySucceed(r), short(f)+" when closed", w.At(r), "%s on a lock file which is not open reports success", f.Name())
				}
			}
		}
	}
	for _, name := range []string{"Mutex.RLock", "Mutex.Lock"} {
		f := rIO.Fn(L, name)
		if f == nil {
			continue
		}
		c.mustDo(rIO, name+" opens the file", f, storeTo(fFile, func(v ssa.Value) bool { return !isNil(v) }), c.succeeding, func(l eng.Lit) bool {
			return w.Implies(l, func(l eng.Lit) bool {
				return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fFile) }) == "nonnil"
			})
		}, "the lock is acquired without the file being open")
	}
	if f := rIO.Fn(L, "Mutex.Unlock"); f != nil {
		closeEv := func(in ssa.Instruction) bool {
			x, ok := in.(ssa.CallInstruction)
			return ok && eng.Key(x) == "os.File.Close"
		}
		c.mustDo(rIO, "Unlock closes", f, closeEv, c.succeeding, func(l eng.Lit) bool {
			return w.Implies(l, func(l eng.Lit) bool {
				return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fFile) }) == "nil"
			})
		}, "unlocking leaves the lock file open")
		for _, s := range fieldStores(fs, fFile) {
			if isNil(s.Val) {
				ok, _ := w.MustPrecede(s, closeEv, nil)
				rIO.Check(ok, short(s.Parent())+" forgets the file", w.At(s), "the lock file is forgotten without being closed: the lock is never released")
			}
		}
	}
	for _, f := range fs {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) == "os.OpenFile" {
				n, ok := eng.ConstInt(ci.Common().Args[1])
				tr, cr := c.extConst("os", "O_TRUNC"), c.extConst("os", "O_CREATE")
				rw := c.extConst("os", "O_RDWR")
				rIO.Check(ok && n&tr == 0 && n&cr != 0 && n&rw != 0, short(f)+" open mode", w.At(ci), "the lock file must be opened for reading and writing, created when missing, and not truncated before the lock is held")
			} else if eng.Key(ci) == "os.Create" {
				rIO.Bad(short(f)+" open mode", w.At(ci), "opening the lock file truncates it before the lock is held")
			}
		}
	}
	rIO.Min(8)

	// ---- discovery
	from := rEnv.Fn(C, "FromEnvironment")
	if from == nil {
		return
	}
	envName := c.constOf(C, "EnvVarJobserverURL")
	region := c.Region(from)
	isURL := func(v ssa.Value) bool {
		call, ok := eng.ResolveLocal(v).(*ssa.Call)
		if !ok || (eng.Key(call) != "os.Getenv") {
			return false
		}
		s, ok := eng.ConstString(call.Call.Args[0])
		return ok && s == envName
	}
	var envURL []ssa.CallInstruction
	for _, ci := range eng.CallsIn(region) {
		if call, ok := ci.(*ssa.Call); ok && isURL(call) {
			envURL = append(envURL, ci)
		}
	}
	rEnv.Check(len(envURL) > 0, "reads the environment", w.Pos(from.Pos()), "%s is not consulted", envName)
	gClient := (*ssa.Global)(nil)
	for _, m := range w.Prog.AllPackages() {
		if m.Pkg.Path() == eng.ModPath+"/"+C {
			if g, ok := m.Members["client"].(*ssa.Global); ok {
				gClient = g
			}
		}
	}
	isMemo := func(v ssa.Value) bool {
		u, ok := eng.Unwrap(v).(*ssa.UnOp)
		return ok && gClient != nil && u.X == ssa.Value(gClient)
	}
	hasMemo := func(l eng.Lit) bool { return nilLit(l, isMemo) == "nonnil" }
	noURL := func(l eng.Lit) bool { return emptyLit(l, isURL) == "empty" }
	connectURL := func(in ssa.Instruction) bool {
		x := isCall(in, C+".Connect")
		return x != nil && isURL(x.Common().Args[0])
	}
	c.mustDo(rEnv, "connects to the named server", from, connectURL, nil, func(l eng.Lit) bool {
		return w.Implies(l, hasMemo) || w.Implies(l, noURL)
	}, "the job server named by %s is not used", envName)
	for _, ci := range eng.CallsIn(region) {
		if connectURL(ci) {
			rEnv.Check(w.MustHold(ci, func(l eng.Lit) bool { return emptyLit(l, isURL) == "nonempty" }), "named server set", w.At(ci), "a connection to an empty URL is attempted")
			checkFate(c, rEnv, ci)
		}
		if eng.MKey(ci) == "os/exec.Cmd.Start" || eng.MKey(ci) == C+".waitForURLFile" {
			w.Within(from, func() {
				rEnv.Check(w.MustHold(ci, noURL), short(ci.Parent())+" "+eng.MKey(ci)+" only without a named server", w.At(ci), "another server is started although the environment names one")
			})
			checkFate(c, rEnv, ci)
		}
	}
	// without a work tree: the sentinel error
	if len(from.Params) == 2 {
		wd := func(v ssa.Value) bool { return eng.ResolveLocal(v) == ssa.Value(from.Params[1]) }
		n := 0
		for _, r := range eng.Returns(from) {
			if u, ok := eng.RetErr(r).(*ssa.UnOp); ok && u.Op == token.MUL && isGlobal(u.X, "ErrNoServerAvailable") {
				n++
				rEnv.Check(w.MustHoldLocal(r, func(l eng.Lit) bool { return emptyLit(l, wd) == "empty" }), "no server available", w.At(r), "\"no server available\" is reported although a work tree is known")
			}
		}
		rEnv.Check(n > 0, "no server reported", w.Pos(from.Pos()), "the absence of a server is not reported")
		for _, ci := range eng.CallsIn(region) {
			if eng.MKey(ci) == "os/exec.Cmd.Start" {
				rEnv.Check(w.MustHold(ci, func(l eng.Lit) bool { return emptyLit(l, wd) == "nonempty" }), "starts in a work tree", w.At(ci), "a server is started outside of any work tree")
			}
		}
	}
	// memoised only when connected
	if gClient == nil {
		rEnv.Bad("anchor client", "-", "memoised client not found")
	}
	for _, f := range w.FuncsIn(C) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok || gClient == nil || s.Addr != ssa.Value(gClient) {
				return
			}
			okS := false
			for _, ci := range eng.Calls(f) {
				if eng.ErrIndex(ci.Common().Signature()) >= 0 && c.derives(s.Val, func(o ssa.Value) bool { return callOf(o) != nil && ssa.CallInstruction(callOf(o)) == ci }) && w.MustHold(in, c.succeeded(ci)) {
					okS = true
				}
			}
			rEnv.Check(okS, short(f)+" memoises", w.At(in), "a client is memoised although connecting may have failed")
		})
	}
	rEnv.Min(8)

	// URL file
	nRead := 0
	for _, f := range w.FuncsIn(C) {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) != "io.ReadAll" {
				continue
			}
			nRead++
			rl := func(x ssa.CallInstruction) bool { return keyIs(x, L+".Mutex.RLock", L+".Mutex.Lock") }
			ok, _ := w.MustPrecede(ci, w.CallEvent(rl), nil)
			rFile.Check(ok, short(f)+" locks", w.At(ci), "the URL file is read without its lock: a URL that is being written can be read in part")
			for _, x := range eng.Calls(f) {
				if rl(x) {
					checkFate(c, rFile, x)
					leak := w.MustFollow(x, w.LiftEvent(func(in ssa.Instruction) bool {
						d, ok := in.(*ssa.Defer)
						if ok {
							for _, g := range w.Callees(d) {
								if w.MustDo(g, callTo(L+".Mutex.Unlock"), nil, nil) == nil {
									return true
								}
							}
						}
						return isCall(in, L+".Mutex.Unlock") != nil
					}), nil, w.ErrFailed(x))
					rFile.Check(leak == nil, short(f)+" unlocks", w.At(x), "the URL file stays locked: the server can never write or remove it")
				}
			}
			checkFate(c, rFile, ci)
			for _, x := range eng.Calls(f) {
				if keyIs(x, C+".Connect") {
					isRead := func(v ssa.Value) bool {
						return c.derives(v, func(o ssa.Value) bool { return callOf(o) != nil && ssa.CallInstruction(callOf(o)) == ci })
					}
					rFile.Check(isRead(x.Common().Args[0]), short(f)+" connects to the URL read", w.At(x), "the connection is not made to the URL read from the file")
					rFile.Check(w.MustHold(x, func(l eng.Lit) bool { return emptyLit(l, isRead) == "nonempty" }), short(f)+" rejects an empty file", w.At(x), "an empty URL file is treated as a URL")
					checkFate(c, rFile, x)
				}
			}
		}
	}
	rFile.Check(nRead > 0, "reads URL file", "-", "the URL file is never read")
	rFile.Min(7)

	// waiting
	wait := rWait.Fn(C, "waitForURLFile")
	if wait != nil {
		for _, g := range c.Region(wait) {
			instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
				sel, ok := in.(*ssa.Select)
				if !ok {
					return
				}
				rWait.Check(sel.Blocking, short(g)+" blocks", w.At(sel), "the wait loop polls without blocking")
				hasDone, hasExit := false, false
				for i, st := range sel.States {
					done := c.derives(st.Chan, func(o ssa.Value) bool {
						call := callOf(o)
						return call != nil && eng.Key(call) == "context.Context.Done"
					})
					ch, _ := st.Chan.Type().Underlying().(*types.Chan)
					arm := selectArm(sel, i)
					switch {
					case done:
						hasDone = true
						ok := arm != nil && armOnlyFails(w, arm)
						rWait.Check(ok, short(g)+" gives up in time", w.At(sel), "the wait continues (or reports success) after its time is up")
					case ch != nil && eng.IsErrorType(ch.Elem()):
						hasExit = true
						ok := arm != nil && exitArmFails(w, sel, i, arm)
						rWait.Check(ok, short(g)+" notices a failed server", w.At(sel), "the wait continues although the server process failed")
						// no spinning on the closed channel
						rWait.Check(!closedSomewhere(c, st.Chan) || resetsChan(sel, i, arm), short(g)+" does not spin", w.At(sel), "once the server process has exited, the closed channel is always ready: the loop spins")
					}
				}
				rWait.Check(hasDone, short(g)+" bounded", w.At(sel), "the wait is not bounded by the context")
				rWait.Check(hasExit, short(g)+" watches the process", w.At(sel), "the wait does not notice that the server process exited")
			})
		}
		// every retry passes through the select
		for _, ci := range eng.CallsIn(c.Region(wait)) {
			if keyIs(ci, C+".clientFromURLFile") {
				noSel := false
				seen := map[*ssa.BasicBlock]bool{}
				work := append([]*ssa.BasicBlock{}, ci.Block().Succs...)
				for len(work) > 0 && !noSel {
					b := work[len(work)-1]
					work = work[:len(work)-1]
					if seen[b] {
						continue
					}
					seen[b] = true
					blocked := false
					for _, x := range b.Instrs {
						if s, ok := x.(*ssa.Select); ok && s.Blocking {
							blocked = true
						}
						if x == ssa.Instruction(ci.(*ssa.Call)) {
							noSel = !blocked
						}
					}
					if !blocked {
						work = append(work, b.Succs...)
					}
				}
				rWait.Check(!noSel, "waits between attempts", w.At(ci), "attempts follow each other without waiting")
				// success exports the URL for child processes
				failed := w.ErrFailed(ci)
				for _, r := range eng.Returns(ci.Parent()) {
					if w.MaySucceed(r) && !w.MustHoldLocal(r, failed) {
						ok := w.PrecededIn(r, w.LiftEvent(func(in ssa.Instruction) bool {
							x, ok := in.(ssa.CallInstruction)
							if !ok || eng.Key(x) != "os.Setenv" {
								return false
							}
							s, ok := eng.ConstString(x.Common().Args[0])
							return ok && s == envName && resultOf(x.Common().Args[1], ci.(*ssa.Call), 1)
						}))
						rWait.Check(ok, "child processes use the same server", w.At(r), "the URL of the server is not handed to child processes")
						rWait.Check(w.MustHoldLocal(r, c.succeeded(ci)), "success means connected", w.At(r), "success is reported without a connection")
					}
				}
			}
		}
		for _, ci := range eng.CallsIn(region) {
			if !keyIs(ci, C+".waitForURLFile") {
				continue
			}
			ok := c.derives(ci.Common().Args[0], func(o ssa.Value) bool {
				call := callOf(o)
				return call != nil && (eng.Key(call) == "context.WithTimeout" || eng.Key(call) == "context.WithDeadline")
			})
			rWait.Check(ok, "start timeout", w.At(ci), "the wait for the server to start has no timeout")
		}
	}
	rWait.Min(8)

	// server process
	for _, ci := range eng.CallsIn(region) {
		if eng.Key(ci) != "os/exec.Command" && eng.Key(ci) != "os/exec.CommandContext" {
			continue
		}
		args := ci.Common().Args[len(ci.Common().Args)-1]
		for _, want := range []string{"server", "-url-file=", "-parent-pid=", "-inactivity-timeout="} {
			rChild.Check(c.derivesConst(args, func(s string) bool { return s == want || strings.HasPrefix(s, want) && want != "server" }), "argument "+want, w.At(ci), "the server process is not given %s", want)
		}
		rChild.Check(c.derivesExternalCall(args, "os.Getpid"), "parent process", w.At(ci), "the server process is not told which process started it")
		// the URL file is the one waited for
		for _, x := range eng.CallsIn(region) {
			if keyIs(x, C+".waitForURLFile") {
				p := eng.ResolveLocal(x.Common().Args[1])
				rChild.Check(c.derives(args, func(o ssa.Value) bool { return o == p }), "same URL file", w.At(ci), "the server writes another URL file than the one its client waits for")
				rChild.Check(len(from.Params) == 2 && c.derives(p, func(o ssa.Value) bool { return o == ssa.Value(from.Params[1]) }), "URL file in the work tree", w.At(x), "the URL file is not in the work tree")
			}
		}
		envOK := false
		for _, f := range region {
			instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
				s, ok := in.(*ssa.Store)
				if !ok {
					return
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || eng.FieldVar(fa).Name() != "Env" {
					return
				}
				// the blanking assignment comes after the inherited environment
				call, isC := eng.ResolveLocal(s.Val).(*ssa.Call)
				if isC {
					if b, isB := call.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && c.localConst(call.Call.Args[1], "TOOLEXEC_IMPORTPATH") && !c.derivesExternalCall(call.Call.Args[1], "os.Environ") {
						envOK = true
					}
				}
			})
		}
		rChild.Check(envOK, "package not inherited", w.At(ci), "the server process inherits TOOLEXEC_IMPORTPATH, which identifies the package being compiled")
	}
	rChild.Min(7)
}

// checkStateParam: the state recorded is a parameter; each caller must have performed the
// matching system call, which is a function parameter or precedes the call.
func checkStateParam(c *Ctx, r *R, s *ssa.Store, p *ssa.Parameter, byState map[int64]string, L string) {
	w := c.W
	f := p.Parent()
	idx := -1
	for i, x := range f.Params {
		if x == p {
			idx = i
		}
	}
	for _, site := range w.Callers(f) {
		n, ok := eng.ConstInt(eng.ArgOf(site, idx))
		prim := byState[n]
		okM := false
		if ok {
			for _, ci := range eng.Calls(site.Parent()) {
				if keyIs(ci, L+"."+prim) && w.MustHold(site, c.succeeded(ci)) {
					okM = true
				}
			}
			// the primitive is handed over
			for _, a := range site.Common().Args {
				if g, isF := a.(*ssa.Function); isF && g.Name() == prim {
					for _, ci := range eng.Calls(f) {
						if ci.Common().StaticCallee() == nil && w.MustHold(s, c.succeeded(ci)) {
							okM = true
						}
					}
				}
			}
		}
		r.Check(okM, short(site.Parent())+" records "+prim, w.At(site), "the lock is recorded as %s although the system call for it may have failed or not been made", prim)
	}
}

func returnsCall(ci ssa.CallInstruction) bool {
	call, ok := ci.(*ssa.Call)
	if !ok {
		return false
	}
	for _, r := range *call.Referrers() {
		if ret, ok := r.(*ssa.Return); ok {
			for _, v := range ret.Results {
				if v == ssa.Value(call) {
					return true
				}
			}
		}
	}
	return false
}

// selectArm finds the block executed when case i of the select was chosen.
func selectArm(sel *ssa.Select, i int) *ssa.BasicBlock {
	for _, r := range *sel.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok || e.Index != 0 {
			continue
		}
		for _, er := range *e.Referrers() {
			bo, ok := er.(*ssa.BinOp)
			if !ok || bo.Op != token.EQL {
				continue
			}
			n, ok := eng.ConstInt(bo.Y)
			if !ok || int(n) != i {
				continue
			}
			for _, br := range *bo.Referrers() {
				if ifi, ok := br.(*ssa.If); ok {
					return ifi.Block().Succs[0]
				}
			}
		}
	}
	return nil
}

// armOnlyFails: from the block, every path ends in a failing return (no way back, no success).
func armOnlyFails(w *eng.World, b *ssa.BasicBlock) bool {
	ok := true
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, in := range x.Instrs {
			if r, isR := in.(*ssa.Return); isR {
				if !failsOrJoins(w, r) {
					ok = false
				}
				return
			}
			if _, isS := in.(*ssa.Select); isS {
				ok = false
				return
			}
		}
		for _, s := range x.Succs {
			walk(s)
		}
	}
	walk(b)
	return ok
}

// failsOrJoins: the return's error is not nil, or it joins errors (at least one of which was non-nil).
func failsOrJoins(w *eng.World, r *ssa.Return) bool {
	if !w.MaySucceed(r) {
		return true
	}
	e := eng.RetErr(r)
	call, ok := e.(*ssa.Call)
	return ok && eng.Key(call) == "errors.Join"
}

// exitArmFails: when the received error is non-nil, only failing returns follow.
func exitArmFails(w *eng.World, sel *ssa.Select, i int, arm *ssa.BasicBlock) bool {
	// received values start at tuple index 2
	k := 2
	for j := 0; j < i; j++ {
		if sel.States[j].Dir == types.RecvOnly {
			k++
		}
	}
	isErr := func(v ssa.Value) bool {
		e, ok := eng.ResolveLocal(v).(*ssa.Extract)
		return ok && e.Tuple == ssa.Value(sel) && e.Index == k
	}
	bad, fails := false, false
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, in := range x.Instrs {
			if r, isR := in.(*ssa.Return); isR {
				if failsOrJoins(w, r) {
					fails = true
				} else {
					bad = true
				}
				return
			}
			if _, isS := in.(*ssa.Select); isS {
				bad = true
				return
			}
		}
		for _, s := range x.Succs {
			if l, ok := eng.EdgeLit(x, s); ok && nilLit(l, isErr) == "nil" {
				continue
			}
			walk(s)
		}
	}
	walk(arm)
	return fails && !bad
}

func closedSomewhere(c *Ctx, ch ssa.Value) bool {
	hit := false
	c.W.Origins(ch, func(o ssa.Value) eng.Step {
		mc, ok := o.(*ssa.MakeChan)
		if !ok {
			return eng.Follow
		}
		for _, f := range c.W.FuncsIn(eng.Rel(mc.Parent())) {
			for _, ci := range eng.Calls(f) {
				if b, ok := ci.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" && c.derives(ci.Common().Args[0], func(x ssa.Value) bool { return x == ssa.Value(mc) }) {
					hit = true
				}
			}
		}
		return eng.Stop
	})
	return hit
}

// resetsChan: the select's channel operand is nil after the arm was taken.
func resetsChan(sel *ssa.Select, i int, arm *ssa.BasicBlock) bool {
	if arm == nil {
		return false
	}
	ch := sel.States[i].Chan
	if p, ok := ch.(*ssa.Phi); ok {
		for j, e := range p.Edges {
			from := p.Block().Preds[j]
			if (from == arm || reach(arm, from)) && arm.Dominates(from) {
				if !isNil(e) {
					return false
				}
			} else if from == arm || reachNoVia(arm, from, sel.Block()) {
				// merged edge: look through a phi
				q, ok := e.(*ssa.Phi)
				if !ok {
					if e == ch || !isNil(e) {
						return false
					}
					continue
				}
				okQ := false
				for k, qe := range q.Edges {
					if arm.Dominates(q.Block().Preds[k]) && isNil(qe) {
						okQ = true
					}
					if arm.Dominates(q.Block().Preds[k]) && !isNil(qe) {
						return false
					}
				}
				if !okQ {
					return false
				}
			}
		}
		return true
	}
	// a variable in memory: stored nil in the arm
	if u, ok := ch.(*ssa.UnOp); ok {
		for _, b := range sel.Parent().Blocks {
			if !arm.Dominates(b) {
				continue
			}
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == u.X && isNil(s.Val) {
					return true
				}
			}
		}
	}
	return false
}

// reachNoVia: a path from a to b that does not pass through via.
func reachNoVia(a, b, via *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{via: true}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

func isGlobal(v ssa.Value, name string) bool {
	g, ok := v.(*ssa.Global)
	return ok && g.Name() == name
}
