package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "J06", Technique: "must-precede/must-follow and guard analysis of the server's start, idle and stop protocol", Run: runServerLifecycle})
	register(&Prop{ID: "J07", Technique: "typestate of file locks, guard and must-precede analysis of job server discovery", Run: runClientLocks, AllOS: true})
}

// urlChecks are the calls which look for a running server behind the content of the URL file.
func (c *Ctx) urlChecks(region []*ssa.Function) []*ssa.Call {
	var res []*ssa.Call
	for _, ci := range eng.CallsIn(region) {
		call, ok := ci.(*ssa.Call)
		g := ci.Common().StaticCallee()
		if !ok || g == nil || g.Blocks == nil {
			continue
		}
		sig := g.Signature
		if sig.Results().Len() != 2 || sig.Results().At(0).Type().String() != "string" || eng.ErrIndex(sig) != 1 {
			continue
		}
		if len(c.callsKey(c.Region(g), "internal/jobserver/client.Connect")) > 0 {
			res = append(res, call)
		}
	}
	return res
}

func resultOf(v ssa.Value, call *ssa.Call, idx int) bool {
	v = eng.ResolveLocal(eng.Unwrap(v))
	e, ok := v.(*ssa.Extract)
	return ok && e.Tuple == call && e.Index == idx
}

func runServerLifecycle(c *Ctx) {
	w := c.W
	const S = "internal/jobserver"
	rOne := c.Rule("one-server-per-url-file", "with a URL file, a server is only started while its exclusive lock is held and after looking, under that lock, for a server that is already running")
	rURL := c.Rule("url-file-content", "before the lock is released the URL file holds exactly the started server's URL")
	rRem := c.Rule("url-file-removed", "the process which owns the URL file removes it however it ends, and no other process does")
	rIdle := c.Rule("idle-shutdown", "the idle timer only shuts the server down when no client is connected; connecting cancels it, the last departure arms it")
	rReady := c.Rule("ready-when-returned", "a server is only returned once every service is subscribed and the subscriptions are active")
	rRel := c.Rule("server-releases", "a server which fails to start or shuts down releases what it created; every shutdown hook runs")

	// ---- URL file
	root := rOne.Fn("internal/cmd", "startWithURLFile")
	if root != nil {
		region := c.Region(root)
		isLock := func(ci ssa.CallInstruction) bool { return keyIs(ci, "internal/filelock.Mutex.Lock") }
		isUnlock := func(ci ssa.CallInstruction) bool {
			return keyIs(ci, "internal/filelock.Mutex.Unlock", "internal/filelock.Mutex.RLock")
		}
		lock := w.CallEvent(isLock)
		var locks []ssa.CallInstruction
		for _, ci := range eng.CallsIn(region) {
			if isLock(ci) {
				locks = append(locks, ci)
				fate, exit := w.Fate(ci)
				rOne.Check(fate == eng.ErrPropagated, short(ci.Parent())+" lock error", w.At(ci), "the server is started although the lock was not acquired (%s)", atOr(w, exit))
			}
		}
		checks := c.urlChecks(region)
		owned := func(l eng.Lit) bool { // "no server is running", found out under the exclusive lock
			for _, k := range checks {
				if emptyLit(l, func(v ssa.Value) bool { return resultOf(v, k, 0) }) == "empty" {
					ok, _ := w.MustPrecede(k, lock, nil)
					if ok {
						return true
					}
				}
			}
			return false
		}
		news := 0
		w.Within(root, func() {
			for _, ci := range eng.CallsIn(region) {
				if !keyIs(ci, S+".New") {
					continue
				}
				news++
				ok, _ := w.MustPrecede(ci, lock, nil)
				rOne.Check(ok, "start under lock", w.At(ci), "the server is started without the exclusive lock on the URL file")
				rOne.Check(w.MustHold(ci, owned), "start after check", w.At(ci), "the server is started without having checked, with the exclusive lock held, that no server is running: two processes serve the same work tree")
			}
			for _, k := range checks {
				fate, exit := w.Fate(k)
				rOne.Check(fate == eng.ErrPropagated, short(k.Parent())+" check error", w.At(k), "a failed check counts as \"no server\" (%s)", atOr(w, exit))
			}
		})
		rOne.Check(news > 0, "starts a server", w.Pos(root.Pos()), "no server is started")
		// the check reads the whole file, and leaves it positioned at the start
		for _, k := range checks {
			g := k.Call.StaticCallee()
			gr := c.Region(g)
			var reads []ssa.CallInstruction
			for _, ci := range eng.CallsIn(gr) {
				if n := eng.Key(ci); n == "io.ReadAll" {
					reads = append(reads, ci)
				}
			}
			okSeek := len(reads) > 0
			for _, rd := range reads {
				leak := w.MustFollow(rd, w.LiftEvent(func(in ssa.Instruction) bool {
					x, ok := in.(ssa.CallInstruction)
					return ok && strings.HasSuffix(eng.Key(x), ".Seek") && isZero(x, 0) && isZero(x, 1)
				}), func(r *ssa.Return) bool { return w.MaySucceed(r) }, w.ErrFailed(rd))
				if leak != nil {
					okSeek = false
				}
			}
			rURL.Check(okSeek, short(g)+" rewinds", w.Pos(g.Pos()), "after the check the file is not positioned at its start: the URL is written elsewhere in the file")
			// reports the URL when it connected, "" otherwise
			for _, ci := range eng.CallsIn(gr) {
				if !keyIs(ci, "internal/jobserver/client.Connect") {
					continue
				}
				okRes := false
				for _, r := range eng.Returns(ci.Parent()) {
					if len(r.Results) < 1 {
						continue
					}
					s, isC := eng.ConstString(r.Results[0])
					if (!isC || s != "") && w.MaySucceed(r) {
						okRes = w.MustHoldLocal(r, c.succeeded(ci)) && c.derives(r.Results[0], func(o ssa.Value) bool { x := callOf(o); return x != nil && eng.Key(x) == "io.ReadAll" })
						if !okRes {
							break
						}
					}
				}
				rOne.Check(okRes, short(ci.Parent())+" reports running server", w.At(ci), "a running server is not reported, or an unreachable one is")
			}
		}
		// the write
		writes := 0
		for _, ci := range eng.CallsIn(region) {
			if !keyIs(ci, "internal/filelock.Mutex.Write", "internal/filelock.Mutex.WriteAt") {
				continue
			}
			writes++
			fate, exit := w.Fate(ci)
			rURL.Check(fate == eng.ErrPropagated, short(ci.Parent())+" write error", w.At(ci), "a failed write of the URL is ignored (%s)", atOr(w, exit))
			rURL.Check(c.derivesCall(ci.Common().Args[1], S+".Server.ClientURL"), short(ci.Parent())+" writes the URL", w.At(ci), "what is written is not the server's URL")
			w.Within(root, func() {
				ok, _ := w.MustPrecede(ci, w.CallEvent(func(x ssa.CallInstruction) bool {
					return keyIs(x, "internal/filelock.Mutex.Truncate") && isZero(x, 1)
				}), nil)
				rURL.Check(ok, short(ci.Parent())+" truncates", w.At(ci), "the file still holds the remains of a longer, stale URL behind the new one")
				ok, _ = w.MustPrecede(ci, w.CallEvent(func(x ssa.CallInstruction) bool { return keyIs(x, S+".New") }), nil)
				rURL.Check(ok, short(ci.Parent())+" writes after start", w.At(ci), "the URL is advertised before the server is ready")
			})
		}
		rURL.Check(writes > 0, "writes the URL", w.Pos(root.Pos()), "the URL is not written")
		nUnlock := 0
		for _, ci := range eng.CallsIn(region) {
			if !isUnlock(ci) {
				continue
			}
			if keyIs(ci, "internal/filelock.Mutex.RLock") {
				// downgrade: only before the lock
				for _, l := range locks {
					rOne.Check(!(l.Parent() == ci.Parent() && eng.CanReach(l, ci)), "no downgrade", w.At(ci), "the exclusive lock is given up before the server is advertised")
				}
				continue
			}
			if _, isDefer := ci.(*ssa.Defer); isDefer {
				nUnlock++
				continue
			}
			reaches := false
			for _, l := range locks {
				if l.Parent() != ci.Parent() || eng.CanReach(l, ci) {
					reaches = true
				}
			}
			if !reaches {
				continue
			}
			nUnlock++
			w.Within(root, func() {
				// given up without having written only when failing
				ev := w.CallEvent(func(x ssa.CallInstruction) bool {
					return keyIs(x, "internal/filelock.Mutex.Write", "internal/filelock.Mutex.WriteAt")
				})
				ok, _ := w.MustPrecede(ci, ev, nil)
				if !ok {
					leak := w.MustFollow(ci, func(ssa.Instruction) bool { return false }, func(r *ssa.Return) bool { return w.MaySucceed(r) }, nil)
					ok = leak == nil
				}
				rURL.Check(ok, short(ci.Parent())+" unlocks after writing", w.At(ci), "the URL file is unlocked before it holds the server's URL: clients and other servers see no server")
			})
		}
		rURL.Check(nUnlock > 0, "unlocks", w.Pos(root.Pos()), "the URL file stays locked while the server runs: no client can read it")
		// waits for shutdown after unlocking
		waits := w.CallEvent(func(x ssa.CallInstruction) bool { return keyIs(x, S+".Server.WaitForShutdown") })
		c.mustDo(rRel, "server process waits", root, waits, c.succeeding, nil, "the server process ends (and with it the server) without waiting for the server's shutdown")
		// watcher: stop when the file disappears
		if f := rRel.Fn("internal/cmd", "shutdownOnRemove"); f != nil {
			n := 0
			for _, g := range c.Region(f) {
				for _, ci := range eng.Calls(g) {
					if keyIs(ci, S+".Server.Shutdown") {
						n++
						rRel.Check(w.MustHold(ci, func(l eng.Lit) bool {
							call, ok := l.V.(*ssa.Call)
							return ok && l.Pol && strings.HasSuffix(eng.Key(call), ".Op.Has") || hasRemoveBit(l)
						}), "stops when the URL file is removed", w.At(ci), "the server stops on other events than the removal of its URL file")
					}
				}
			}
			rRel.Check(n > 0, "watches the URL file", w.Pos(f.Pos()), "the server does not stop when its URL file is removed")
			watch := callTo("internal/cmd.shutdownOnRemove")
			c.mustDo(rRel, "watches before serving", root, watch, c.succeeding, nil, "the removal of the URL file is not watched")
			for _, ci := range eng.Calls(root) {
				if keyIs(ci, S+".Server.WaitForShutdown") {
					rRel.Check(w.PrecededIn(ci, w.LiftEvent(watch)), "watches before waiting", w.At(ci), "the removal of the URL file is not watched while serving")
				}
			}
		}

		// removal
		isRemove := func(in ssa.Instruction) bool {
			x, ok := in.(ssa.CallInstruction)
			return ok && eng.Key(x) == "os.Remove"
		}
		nRem, nSig := 0, 0
		for _, f := range region {
			for _, ci := range eng.Calls(f) {
				if eng.Key(ci) != "os.Remove" && eng.Key(ci) != "os.RemoveAll" {
					continue
				}
				nRem++
				path := c.derives(ci.Common().Args[0], func(o ssa.Value) bool {
					p, ok := o.(*ssa.Parameter)
					return ok && p.Parent() == root
				})
				rRem.Check(path, short(f)+" removes the URL file", w.At(ci), "something else than the URL file is removed")
				w.Within(root, func() {
					rRem.Check(w.MustHold(ci, owned), short(f)+" removes its own file", w.At(ci), "the URL file may be removed although it belongs to another, running server")
				})
			}
		}
		// every exit after ownership removes
		w.Within(root, func() {
			for _, ci := range eng.CallsIn(region) {
				if !keyIs(ci, S+".New") {
					continue
				}
				// find the call in a function that also registers the removal
				ok := removalCovers(c, ci, isRemove, map[*ssa.Function]bool{})
				rRem.Check(ok, "removed on exit", w.At(ci), "the URL file is left behind when the server process ends")
			}
		})
		// interrupts
		for _, f := range region {
			for _, ci := range eng.Calls(f) {
				if eng.Key(ci) != "os/signal.Notify" {
					continue
				}
				nSig++
				w.Within(root, func() {
					rRem.Check(w.MustHold(ci, owned), short(f)+" handles interrupts", w.At(ci), "interrupts are handled by a process which does not own the URL file")
				})
				// every receive from a signal channel which then removes: only when a value was received
				for _, g := range eng.WithAnon(eng.Root(f)) {
					instrs([]*ssa.Function{g}, func(_ *ssa.Function, in ssa.Instruction) {
						u, ok := in.(*ssa.UnOp)
						if !ok || u.Op != token.ARROW {
							return
						}
						if ch, ok := u.X.Type().Underlying().(*types.Chan); !ok || ch.Elem().String() != "os.Signal" {
							return
						}
						removed := false
						for _, b := range g.Blocks {
							for _, x := range b.Instrs {
								if !isRemove(x) {
									continue
								}
								removed = true
								ok := !u.CommaOk
								for _, l := range eng.DomLits(x.Block()) {
									if e, isE := l.V.(*ssa.Extract); isE && e.Tuple == u && e.Index == 1 {
										ok = l.Pol
									}
								}
								rRem.Check(ok, short(g)+" removes when interrupted", w.At(x), "the file is removed when the handler is uninstalled rather than when a signal arrives")
							}
						}
						if !removed {
							// or in a helper
							lifted := w.LiftEvent(isRemove)
							leak := w.MustFollow(u, lifted, nil, func(l eng.Lit) bool {
								e, isE := l.V.(*ssa.Extract)
								return isE && e.Tuple == u && e.Index == 1 && !l.Pol
							})
							rRem.Check(leak == nil, short(g)+" removes when interrupted", w.At(u), "an interrupt does not remove the URL file")
						} else {
							leak := w.MustFollow(u, w.LiftEvent(isRemove), nil, func(l eng.Lit) bool {
								e, isE := l.V.(*ssa.Extract)
								return isE && e.Tuple == u && e.Index == 1 && !l.Pol
							})
							rRem.Check(leak == nil, short(g)+" interrupt handled", w.At(u), "an interrupt is swallowed without removing the URL file")
						}
					})
				}
				sigOK := false
				for _, a := range ci.Common().Args[1:] {
					if c.derives(a, func(o ssa.Value) bool { g, ok := o.(*ssa.Global); return ok && g.Name() == "Interrupt" }) {
						sigOK = true
					}
				}
				rRem.Check(sigOK, short(f)+" interrupt signal", w.At(ci), "the interrupt signal is not handled")
			}
		}
		rRem.Check(nSig > 0, "interrupt handler", w.Pos(root.Pos()), "the URL file is not removed when the server is interrupted")
		rRem.Check(nRem >= 2, "removals", w.Pos(root.Pos()), "removals of the URL file not found")
		rOne.Min(7)
		rURL.Min(7)
	}
	// channels are closed once
	closeOnce(c, rRem, w.FuncsIn("internal/cmd"))

	// ---- idle timer
	fClients := rIdle.Field(S, "Server", "clients")
	fTimer := rIdle.Field(S, "Server", "shutdownTimer")
	fTimeout := rIdle.Field(S, "Server", "inactivityTimeout")
	con, dis := rIdle.Fn(S, "Server.handleClientConnect"), rIdle.Fn(S, "Server.handleClientDisconnect")
	newFn := rReady.Fn(S, "New")
	if fClients == nil || fTimer == nil || fTimeout == nil || con == nil || dis == nil || newFn == nil {
		return
	}
	isClients := func(v ssa.Value) bool { return isFieldVal(v, fClients) }
	isTimer := func(v ssa.Value) bool { return isFieldVal(v, fTimer) }
	noClients := func(l eng.Lit) bool { return lenCmp(l, isClients) == "empty" }
	// pruned: the event could not be decoded, or is about the server's own connection
	notClient := func(l eng.Lit) bool {
		return errNonNil(l) || cmpLit(l, func(v ssa.Value) bool { return true }, func(v ssa.Value) bool {
			s, ok := eng.ConstString(v)
			return ok && s == c.constOf(S, "serverUsername")
		}) == 1
	}
	timers := 0
	for _, f := range w.FuncsIn(S) {
		for _, ci := range eng.Calls(f) {
			if eng.Key(ci) != "time.AfterFunc" {
				continue
			}
			timers++
			name := short(f) + " idle timer"
			rIdle.Check(isFieldVal(ci.Common().Args[0], fTimeout), name+" period", w.At(ci), "the idle timer does not run for the configured inactivity period")
			cbs := closureArgs(c, ci.Common().Args[1])
			rIdle.Check(len(cbs) == 1, name+" callback", w.At(ci), "timer callback not found")
			for _, cb := range cbs {
				n := 0
				for _, g := range c.Region(cb) {
					for _, x := range eng.Calls(g) {
						if keyIs(x, S+".Server.Shutdown") || strings.HasSuffix(eng.Key(x), "server.Server.Shutdown") && g == cb {
							n++
							w.Within(cb, func() {
								rIdle.Check(w.MustHold(x, noClients), name+" shuts down when idle", w.At(x), "the server is shut down although clients may be connected")
							})
						}
					}
				}
				rIdle.Check(n > 0, name+" shuts down", w.At(ci), "an idle server never stops")
				c.mustDo(rIdle, name+" shuts down whenever idle", cb, callTo(S+".Server.Shutdown"), nil, c.contradicts(noClients), "the idle timer expires without shutting down a server that has no clients")
			}
			stored := false
			if call, ok := ci.(*ssa.Call); ok {
				for _, s := range fieldStores([]*ssa.Function{f}, fTimer) {
					if s.Val == ssa.Value(call) {
						stored = true
					}
				}
			}
			rIdle.Check(stored, name+" recorded", w.At(ci), "the running timer is not recorded: it cannot be cancelled")
		}
	}
	rIdle.Check(timers > 0, "idle timer", w.Pos(newFn.Pos()), "the server never stops by itself")
	// connect
	addC := func(in ssa.Instruction) bool {
		m, ok := in.(*ssa.MapUpdate)
		return ok && isFieldVal(m.Map, fClients)
	}
	c.mustDo(rIdle, "connect registers the client", con, addC, nil, notClient, "a connecting client is not registered: the server may stop while it is connected")
	stop := func(in ssa.Instruction) bool {
		x, ok := in.(ssa.CallInstruction)
		return ok && eng.Key(x) == "time.Timer.Stop" && isTimer(x.Common().Args[0])
	}
	timerNil := func(l eng.Lit) bool { return nilLit(l, isTimer) == "nil" }
	skipC := func(l eng.Lit) bool { return notClient(l) || w.Implies(l, timerNil) }
	c.mustDo(rIdle, "connect stops the timer", con, stop, nil, skipC, "a connecting client does not cancel the pending idle shutdown")
	c.mustDo(rIdle, "connect forgets the timer", con, storeTo(fTimer, isNil), nil, skipC, "after a connection cancelled the timer it is still recorded as running: the next departure does not arm it again, the server never stops")
	// a timer is only forgotten when stopped
	for _, f := range w.FuncsIn(S) {
		for _, s := range fieldStores([]*ssa.Function{f}, fTimer) {
			if isNil(s.Val) {
				leak := w.PrecededIn(s, w.LiftEvent(stop))
				rIdle.Check(leak || w.MustFollow(s, w.LiftEvent(stop), nil, nil) == nil, short(f)+" forgets a stopped timer", w.At(s), "a running timer is forgotten without being stopped")
			}
		}
	}
	// disconnect
	del := func(in ssa.Instruction) bool {
		x, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "delete" && isFieldVal(x.Call.Args[0], fClients)
	}
	c.mustDo(rIdle, "disconnect unregisters the client", dis, del, nil, notClient, "a departed client stays registered: the server never stops")
	arm := func(in ssa.Instruction) bool {
		x, ok := in.(*ssa.Call)
		return ok && eng.Key(x) == "time.AfterFunc"
	}
	someClient := c.contradicts(noClients)
	c.mustDo(rIdle, "last departure arms the timer", dis, arm, nil, func(l eng.Lit) bool {
		return notClient(l) || someClient(l) || w.Implies(l, func(l eng.Lit) bool { return nilLit(l, isTimer) == "nonnil" })
	}, "the departure of the last client does not arm the idle timer: the server never stops")
	for _, f := range c.Region(dis) {
		for _, ci := range eng.Calls(f) {
			if !arm(ci) {
				continue
			}
			w.Within(dis, func() {
				ok, _ := w.MustPrecede(ci, w.LiftEvent(del), nil)
				rIdle.Check(ok, "unregistered before counting", w.At(ci), "the departing client is still counted when deciding whether to arm the timer")
				rIdle.Check(w.MustHold(ci, noClients), "armed by the last departure", w.At(ci), "the idle timer is armed although clients are connected")
				rIdle.Check(w.MustHold(ci, timerNil), "armed once", w.At(ci), "a second timer replaces a running one which can no longer be cancelled")
			})
		}
	}
	// keys agree
	var keyFields []string
	for _, f := range append(c.Region(con), c.Region(dis)...) {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			var k ssa.Value
			if m, ok := in.(*ssa.MapUpdate); ok && isFieldVal(m.Map, fClients) {
				k = m.Key
			} else if del(in) {
				k = in.(*ssa.Call).Call.Args[1]
			}
			if k == nil {
				return
			}
			n := "?"
			if u, ok := eng.ResolveLocal(k).(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					n = eng.FieldVar(fa).Name()
				}
			}
			keyFields = append(keyFields, n)
			rIdle.Check(n == "ID", short(f)+" keyed by client ID", w.At(in), "clients are registered and unregistered under %q instead of the unique connection ID", n)
		})
	}
	// subscriptions
	want := map[string]*ssa.Function{"CONNECT": con, "DISCONNECT": dis}
	nreg := c.Region(newFn)
	for _, ci := range eng.CallsIn(nreg) {
		if eng.Key(ci) != "github.com/nats-io/nats.go.Conn.Subscribe" {
			continue
		}
		for suffix, h := range want {
			if !c.derivesConst(ci.Common().Args[1], func(s string) bool { return strings.HasSuffix(s, "."+suffix) }) {
				continue
			}
			ok := false
			for _, g := range closureArgs(c, ci.Common().Args[2]) {
				if g == h || calls(g, h) {
					ok = true
				}
			}
			rIdle.Check(ok, suffix+" events", w.At(ci), "%s events are not handled by %s", suffix, short(h))
			delete(want, suffix)
			checkFate(c, rIdle, ci)
		}
	}
	for suffix := range want {
		rIdle.Bad(suffix+" events", w.Pos(newFn.Pos()), "%s events are not subscribed to", suffix)
	}
	// New arms the timer when an inactivity timeout is configured, after the subscriptions are active
	optT := w.Field(S, "Options", "InactivityTimeout")
	if optT != nil {
		c.mustDo(rIdle, "armed at start", newFn, arm, c.succeeding, func(l eng.Lit) bool {
			return errNonNil(l) || noTimeout(l, func(v ssa.Value) bool { return isFieldVal(v, optT) })
		}, "a server which no client ever connects to never stops")
		w.WithinExcept(newFn, []*ssa.Function{con, dis}, func() {
			for _, ci := range eng.CallsIn(nreg) {
				if !arm(ci) {
					continue
				}
				ok, _ := w.MustPrecede(ci, storeTo(fTimeout, func(v ssa.Value) bool { return c.derivesField(v, optT) }), nil)
				rIdle.Check(ok, "period set before arming", w.At(ci), "the timer is armed before its period is set")
				ok, _ = w.MustPrecede(ci, func(in ssa.Instruction) bool {
					x, ok := in.(ssa.CallInstruction)
					return ok && eng.Key(x) == "github.com/nats-io/nats.go.Conn.Flush"
				}, nil)
				rIdle.Check(ok, "armed after subscribing", w.At(ci), "the timer is armed before connections are observed")
			}
			mk := storeTo(fClients, func(v ssa.Value) bool { _, ok := v.(*ssa.MakeMap); return ok })
			for _, ci := range eng.CallsIn(nreg) {
				if eng.Key(ci) == "github.com/nats-io/nats.go.Conn.Subscribe" && c.derivesConst(ci.Common().Args[1], func(s string) bool { return strings.HasSuffix(s, "CONNECT") }) {
					ok, _ := w.MustPrecede(ci, mk, nil)
					rIdle.Check(ok, "registry created", w.At(ci), "connections are recorded in a registry that does not exist yet")
				}
			}
		})
	}
	rIdle.Min(20)

	// ---- readiness
	for _, k := range []string{S + "/pkgs.Subscribe", S + "/buildid.Subscribe", S + "/nbt.Subscribe"} {
		c.mustDo(rReady, "subscribes "+k, newFn, callTo(k), c.succeeding, errNonNil, "a server is returned without %s", k)
	}
	for _, ci := range eng.CallsIn(nreg) {
		k := eng.MKey(ci)
		if strings.HasSuffix(k, ".Subscribe") || strings.HasSuffix(k, "Conn.Flush") || k == "github.com/nats-io/nats.go.Connect" || strings.HasSuffix(k, "server.NewServer") {
			checkFate(c, rReady, ci)
		}
		if strings.HasSuffix(k, "/nbt.Subscribe") || strings.HasSuffix(k, "Conn.Subscribe") {
			leak := w.MustFollow(ci, w.LiftEvent(func(in ssa.Instruction) bool {
				x, ok := in.(ssa.CallInstruction)
				return ok && strings.HasSuffix(eng.Key(x), "Conn.Flush")
			}), c.succeeding, w.ErrFailed(ci))
			rReady.Check(leak == nil, short(ci.Parent())+" flushes after "+k, w.At(ci), "the server is returned before its subscriptions are active: early requests get no answer")
		}
	}
	for _, p := range []string{"pkgs", "buildid", "nbt"} {
		for _, f := range w.FuncsIn(S + "/" + p) {
			if f.Name() != "Subscribe" {
				continue
			}
			for _, ci := range eng.CallsIn(c.Region(f)) {
				if strings.HasSuffix(eng.Key(ci), "Conn.Subscribe") {
					checkFate(c, rReady, ci)
				}
			}
		}
	}
	c.mustDo(rReady, "waits until ready", newFn, func(in ssa.Instruction) bool {
		x, ok := in.(ssa.CallInstruction)
		return ok && strings.HasSuffix(eng.Key(x), "server.Server.ReadyForConnections")
	}, c.succeeding, errNonNil, "the server is returned before it accepts connections")
	for _, ci := range eng.CallsIn(nreg) {
		if strings.HasSuffix(eng.Key(ci), "server.Server.ReadyForConnections") {
			leak := w.MustFollow(ci, func(ssa.Instruction) bool { return false }, c.succeeding, func(l eng.Lit) bool { return l.V == ssa.Value(ci.(*ssa.Call)) && l.Pol })
			rReady.Check(leak == nil, "readiness result", w.At(ci), "a server which did not become ready is used")
		}
	}
	rReady.Min(12)

	// ---- release
	var starts []ssa.CallInstruction
	for _, ci := range eng.CallsIn(nreg) {
		if strings.HasSuffix(eng.Key(ci), "nats-server/v2/server.Server.Start") {
			starts = append(starts, ci)
		}
	}
	rRel.Check(len(starts) > 0, "starts", w.Pos(newFn.Pos()), "the NATS server is never started")
	failing := func(r *ssa.Return) bool { return !mustSucceed(w, r) }
	for _, st := range starts {
		sd := func(in ssa.Instruction) bool {
			return c.deferredOnFailure(in, func(x ssa.CallInstruction) bool {
				return strings.HasSuffix(eng.Key(x), "server/v2/server.Server.Shutdown") || strings.HasSuffix(eng.Key(x), "nats-server/v2/server.Server.Shutdown")
			})
		}
		leak := w.MustFollow(st, sd, failing, nil)
		rRel.Check(leak == nil, "failed start shuts down", w.At(st), "the NATS server keeps running when starting the job server fails")
	}
	for _, ci := range eng.CallsIn(nreg) {
		if !keyIs(ci, S+"/nbt.Subscribe") {
			continue
		}
		call := ci.(*ssa.Call)
		cl := func(in ssa.Instruction) bool {
			return c.deferredOnFailure(in, func(x ssa.CallInstruction) bool { return c.callsValue(x, call, 0) })
		}
		leak := w.MustFollow(ci, cl, failing, w.ErrFailed(ci))
		rRel.Check(leak == nil, "failed start removes stored archives", w.At(ci), "the storage directory is left behind when starting the job server fails")
		hook := func(in ssa.Instruction) bool {
			x, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			for _, a := range x.Common().Args {
				if resultOf(a, call, 0) && c.storesHook(x) {
					return true
				}
			}
			return false
		}
		leak = w.MustFollow(ci, func(in ssa.Instruction) bool {
			if hook(in) {
				return true
			}
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			return ok && eng.FieldVar(fa).Name() == "shutdownHooks"
		}, c.succeeding, w.ErrFailed(ci))
		rRel.Check(leak == nil, "storage removed at shutdown", w.At(ci), "the storage directory is not registered for removal at shutdown")
	}
	if f := rRel.Fn(S, "Server.WaitForShutdown"); f != nil {
		fHooks := rRel.Field(S, "Server", "shutdownHooks")
		fr := c.Region(f)
		n := 0
		for _, ci := range eng.CallsIn(fr) {
			if ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
				continue
			}
			if _, isB := ci.Common().Value.(*ssa.Builtin); isB || fHooks == nil || !c.derivesField(ci.Common().Value, fHooks) {
				continue
			}
			n++
			ok, _ := w.MustPrecede(ci, w.CallEvent(func(x ssa.CallInstruction) bool {
				return strings.HasSuffix(eng.Key(x), "nats-server/v2/server.Server.WaitForShutdown")
			}), nil)
			rRel.Check(ok, "hooks after shutdown", w.At(ci), "shutdown hooks run while the server still serves requests")
			// a failing hook does not stop the others: the loop is only left at its header
			rRel.Check(loopOnlyExitsAtRange(ci), "all hooks run", w.At(ci), "a failing shutdown hook prevents the remaining ones from running")
		}
		rRel.Check(n > 0, "hooks run", w.Pos(f.Pos()), "shutdown hooks are never run")
		c.mustDo(rRel, "waits for shutdown", f, func(in ssa.Instruction) bool {
			x, ok := in.(ssa.CallInstruction)
			return ok && strings.HasSuffix(eng.Key(x), "nats-server/v2/server.Server.WaitForShutdown")
		}, nil, nil, "WaitForShutdown returns while the server is running")
	}
	if f := rRel.Fn(S, "Server.Shutdown"); f != nil {
		c.mustDo(rRel, "Shutdown stops the server", f, func(in ssa.Instruction) bool {
			x, ok := in.(ssa.CallInstruction)
			return ok && strings.HasSuffix(eng.Key(x), "nats-server/v2/server.Server.Shutdown")
		}, nil, nil, "Shutdown does not stop the server")
		hooks := func(in ssa.Instruction) bool {
			if g, ok := in.(*ssa.Go); ok {
				return keyIs(g, S+".Server.WaitForShutdown")
			}
			return isCall(in, S+".Server.WaitForShutdown") != nil
		}
		c.mustDo(rRel, "Shutdown runs the hooks", f, hooks, nil, nil, "shutdown hooks are not run when nobody waits for the shutdown")
	}
	// owners of an in-process server shut it down and wait
	for _, f := range w.Funcs {
		if eng.Rel(f) == "internal/cmd" || eng.Rel(f) == S {
			continue
		}
		for _, ci := range eng.Calls(f) {
			if !keyIs(ci, S+".New") {
				continue
			}
			for _, k := range []string{"Shutdown", "WaitForShutdown"} {
				ev := w.LiftEvent(func(in ssa.Instruction) bool { return isCall(in, S+".Server."+k) != nil })
				leak := w.MustFollow(ci, func(in ssa.Instruction) bool { return ev(in) }, nil, w.ErrFailed(ci))
				rRel.Check(leak == nil, short(f)+" "+k, w.At(ci), "the process ends without %s: temporary files of its job server are left behind", k)
			}
		}
	}
	rRel.Min(12)
}

// isZero: argument idx (receiver = 0) of the call is the constant 0.
func isZero(ci ssa.CallInstruction, idx int) bool {
	if ci.Common().IsInvoke() {
		if idx >= len(ci.Common().Args) {
			return false
		}
		n, ok := eng.ConstInt(ci.Common().Args[idx])
		return ok && n == 0
	}
	a := ci.Common().Args
	if ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().Signature.Recv() != nil && keyIs(ci, "internal/filelock.Mutex.Seek") {
		idx++
	}
	if idx >= len(a) {
		return false
	}
	n, ok := eng.ConstInt(a[idx])
	return ok && n == 0
}

func hasRemoveBit(l eng.Lit) bool {
	bo, ok := l.V.(*ssa.BinOp)
	if !ok {
		return false
	}
	and := func(v ssa.Value) bool { b, ok := v.(*ssa.BinOp); return ok && b.Op == token.AND }
	switch bo.Op {
	case token.NEQ:
		return (and(bo.X) || and(bo.Y)) && l.Pol
	case token.EQL:
		if and(bo.X) || and(bo.Y) {
			return true
		}
		return l.Pol
	}
	return false
}

// removalCovers: the removal is registered (deferred) before in, or follows it on every exit,
// in its function or in every caller.
func removalCovers(c *Ctx, in ssa.Instruction, ev eng.Event, seen map[*ssa.Function]bool) bool {
	w := c.W
	if w.MustFollow(in, w.LiftEvent(ev), nil, nil) == nil {
		return true
	}
	fn := in.Parent()
	if seen[fn] {
		return true
	}
	seen[fn] = true
	sites := w.EntrySites(fn)
	if len(sites) == 0 {
		return false
	}
	for _, s := range sites {
		if !removalCovers(c, s, ev, seen) {
			return false
		}
	}
	return true
}

// closeOnce: a channel is not closed twice: every function literal closing a captured channel
// which is referenced more than once is wrapped by sync.Once*.
func closeOnce(c *Ctx, r *R, fs []*ssa.Function) {
	w := c.W
	for _, f := range fs {
		for _, ci := range eng.Calls(f) {
			b, ok := ci.Common().Value.(*ssa.Builtin)
			if !ok || b.Name() != "close" {
				continue
			}
			if _, free := ci.Common().Args[0].(*ssa.UnOp); !free {
				if _, fv := ci.Common().Args[0].(*ssa.FreeVar); !fv {
					r.OK(short(f)+" closes", w.At(ci))
					continue
				}
			}
			// how many uses does the closing function have?
			uses, once := 0, false
			for _, mc := range w.ClosureSites(f) {
				var walk func(v ssa.Value, d int)
				walk = func(v ssa.Value, d int) {
					if d > 6 || v.Referrers() == nil {
						return
					}
					for _, ref := range *v.Referrers() {
						switch x := ref.(type) {
						case ssa.CallInstruction:
							if strings.HasPrefix(eng.Key(x), "sync.Once") {
								once = true
							} else if x.Common().Value == v {
								uses++
							} else {
								uses++
							}
						case *ssa.Store:
							if x.Val == v {
								walk(x.Addr, d+1)
							}
						case *ssa.MakeClosure:
							for i, bnd := range x.Bindings {
								if bnd == v {
									walk(x.Fn.(*ssa.Function).FreeVars[i], d+1)
								}
							}
						case *ssa.UnOp:
							walk(x, d+1)
						case *ssa.Phi:
							walk(x, d+1)
						case *ssa.ChangeType:
							walk(x, d+1)
						case *ssa.Return:
							uses++
						}
					}
				}
				walk(mc, 0)
			}
			r.Check(once || uses <= 1, short(f)+" closes once", w.At(ci), "the channel can be closed %d times, which panics", uses)
		}
	}
}

func (c *Ctx) constOf(rel, name string) string {
	if p := c.W.Pkg(rel); p != nil {
		if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
			return strings.Trim(k.Val().ExactString(), `"`)
		}
	}
	return "\x00"
}

func calls(f, g *ssa.Function) bool {
	for _, ci := range eng.Calls(f) {
		if ci.Common().StaticCallee() == g {
			return true
		}
	}
	return false
}

func checkFate(c *Ctx, r *R, ci ssa.CallInstruction) {
	fate, exit := c.W.Fate(ci)
	r.Check(fate == eng.ErrPropagated, short(ci.Parent())+" "+eng.MKey(ci)+" error", c.W.At(ci), "a failure of %s is not reported (%s)", eng.MKey(ci), atOr(c.W, exit))
}

// noTimeout: a literal saying that the duration is not positive.
func noTimeout(l eng.Lit, is func(ssa.Value) bool) bool {
	bo, ok := l.V.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if is(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	n, isC := eng.ConstInt(y)
	if !is(x) || !isC || n != 0 {
		return false
	}
	switch op {
	case token.GTR, token.NEQ:
		return !l.Pol
	case token.LEQ, token.EQL:
		return l.Pol
	}
	return false
}

// mustSucceed: the return certainly reports success (nil error).
func mustSucceed(w *eng.World, r *ssa.Return) bool {
	e := eng.RetErr(r)
	if e == nil {
		return true
	}
	return w.Nilness(e, r.Block()) == eng.Nil
}

// deferredOnFailure: in is a defer whose function performs a matching call whenever the
// enclosing function fails (or always), or a matching call itself.
func (c *Ctx) deferredOnFailure(in ssa.Instruction, match func(ssa.CallInstruction) bool) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if match(ci) {
		return true
	}
	d, ok := in.(*ssa.Defer)
	if !ok {
		return false
	}
	for _, g := range c.W.Callees(d) {
		leak := c.W.MustDo(g, func(in ssa.Instruction) bool {
			x, ok := in.(ssa.CallInstruction)
			return ok && match(x)
		}, nil, func(l eng.Lit) bool {
			// pruned: no error / a server is returned
			if nilLit(l, func(v ssa.Value) bool { return eng.IsErrorType(v.Type()) }) == "nil" {
				return true
			}
			return nilLit(l, func(v ssa.Value) bool { return !eng.IsErrorType(v.Type()) }) == "nonnil"
		})
		if leak == nil {
			return true
		}
	}
	return false
}

// callsValue: the call invokes (a variable holding) result idx of src.
func (c *Ctx) callsValue(x ssa.CallInstruction, src *ssa.Call, idx int) bool {
	if x.Common().IsInvoke() || x.Common().StaticCallee() != nil {
		return false
	}
	if _, isB := x.Common().Value.(*ssa.Builtin); isB {
		return false
	}
	hit := false
	c.W.Origins(x.Common().Value, func(o ssa.Value) eng.Step {
		if e, ok := o.(*ssa.Extract); ok {
			if e.Tuple == src && e.Index == idx {
				hit = true
			}
			return eng.Stop
		}
		return eng.Follow
	})
	return hit
}

// storesHook: the call appends its argument to the server's shutdown hooks.
func (c *Ctx) storesHook(x ssa.CallInstruction) bool {
	for _, g := range c.W.Callees(x) {
		fv := c.W.Field("internal/jobserver", "Server", "shutdownHooks")
		if fv != nil && len(fieldStores([]*ssa.Function{g}, fv)) > 0 {
			return true
		}
	}
	return false
}

// loopOnlyExitsAtRange: the innermost loop around the call is only left when its range/index is exhausted.
func loopOnlyExitsAtRange(ci ssa.CallInstruction) bool {
	b := ci.Block()
	// blocks of the loop: those on a cycle with b
	inLoop := map[*ssa.BasicBlock]bool{}
	for _, x := range ci.Parent().Blocks {
		if reach(b, x) && reach(x, b) {
			inLoop[x] = true
		}
	}
	if len(inLoop) == 0 {
		return false
	}
	for x := range inLoop {
		for _, s := range x.Succs {
			if inLoop[s] {
				continue
			}
			// exit edge: its condition must not depend on the call's result
			l, ok := eng.EdgeLit(x, s)
			if !ok {
				return false
			}
			if call, isC := ci.(*ssa.Call); isC && dependsOn(l.V, call, 0) {
				return false
			}
		}
	}
	return true
}

func dependsOn(v ssa.Value, src ssa.Value, d int) bool {
	if v == src {
		return true
	}
	if d > 8 {
		return false
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if *op != nil && dependsOn(*op, src, d+1) {
				return true
			}
		}
	}
	return false
}

// reach: a non-empty path leads from a to b.
func reach(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}
