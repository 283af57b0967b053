package rules

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "J01", Technique: "typestate and guarded-effect analysis over SSA (dominating branch literals, must-follow release, field provenance)", Run: runNBT})
}

const nbtPkg = "internal/jobserver/nbt"

func runNBT(c *Ctx) {
	w := c.W
	rKey := c.Rule("nbt-key", "every access to the build-state table uses one and the same key, derived from both the import path and the build ID")
	rReq := c.Rule("nbt-request-validated", "the build-state table is only consulted for requests whose identifying fields are non-empty")
	rRole := c.Rule("nbt-roles", "a finish token is only handed to the request that created the state; stored files are only handed to the others, after waiting, with no error and a non-empty file set")
	rWait := c.Rule("nbt-wait-before-read", "in start, the outcome fields are only read after the completion channel was received from")
	rTok := c.Rule("nbt-token", "outcome fields and the completion callback are only touched after the request's token compared equal to the state's")
	rOnce := c.Rule("nbt-once", "outcome fields and the completion callback are only touched by the request that won CompareAndSwap(false, true)")
	rRel := c.Rule("nbt-release", "once the completion flag is won, the completion callback runs on every exit, after all outcome stores")
	rOut := c.Rule("nbt-outcome", "every exit after winning has recorded an outcome: error exits recorded the error, other exits recorded an error or files")
	rFiles := c.Rule("nbt-files", "a file is only published after it was copied without error, under the copied-to path and the request's label, and a failed copy leaves no published files")
	rInit := c.Rule("nbt-init", "token, completion channel and callback are set before any use, the token is freshly generated, and the channel is the one the callback closes")
	rDir := c.Rule("nbt-storage", "stored files live in a per-(import path, build ID) directory below the service's own directory")

	start, finish := rKey.Fn(nbtPkg, "service.start"), rKey.Fn(nbtPkg, "service.finish")
	fState := rKey.Field(nbtPkg, "service", "state")
	fToken := rKey.Field(nbtPkg, "buildState", "token")
	fOnDone := rKey.Field(nbtPkg, "buildState", "onDone")
	fDone := rKey.Field(nbtPkg, "buildState", "done")
	fIsDone := rKey.Field(nbtPkg, "buildState", "isDone")
	fFiles := rKey.Field(nbtPkg, "buildState", "files")
	fErr := rKey.Field(nbtPkg, "buildState", "error")
	fSDir := rKey.Field(nbtPkg, "service", "dir")
	sPath, sID := rKey.Field(nbtPkg, "StartRequest", "ImportPath"), rKey.Field(nbtPkg, "StartRequest", "BuildID")
	fPath, fID := rKey.Field(nbtPkg, "FinishRequest", "ImportPath"), rKey.Field(nbtPkg, "FinishRequest", "BuildID")
	fTok := rKey.Field(nbtPkg, "FinishRequest", "FinishToken")
	fReqErr := rKey.Field(nbtPkg, "FinishRequest", "Error")
	fReqFiles := rKey.Field(nbtPkg, "FinishRequest", "Files")
	rspTok := rKey.Field(nbtPkg, "StartResponse", "FinishToken")
	rspFiles := rKey.Field(nbtPkg, "StartResponse", "Files")
	if start == nil || finish == nil || fState == nil || fToken == nil || fOnDone == nil || fDone == nil || fIsDone == nil ||
		fFiles == nil || fErr == nil || fSDir == nil || sPath == nil || sID == nil || fPath == nil || fID == nil || fTok == nil || fReqErr == nil || fReqFiles == nil || rspTok == nil || rspFiles == nil {
		return
	}
	sReg, fReg := c.Region(start), c.Region(finish)

	// --- keys
	keyForm := ""
	for _, side := range []struct {
		name string
		reg  []*ssa.Function
		p, b *types.Var
	}{{"start", sReg, sPath, sID}, {"finish", fReg, fPath, fID}} {
		n := 0
		for _, ci := range eng.CallsIn(side.reg) {
			if !keyIs(ci, "sync.Map.LoadOrStore", "sync.Map.Load", "sync.Map.Store", "sync.Map.LoadAndDelete", "sync.Map.Delete", "sync.Map.Swap", "sync.Map.CompareAndSwap") {
				continue
			}
			if fa, ok := eng.ArgOf(ci, 0).(*ssa.FieldAddr); !ok || eng.FieldVar(fa) != fState {
				continue
			}
			n++
			k := eng.ArgOf(ci, 1)
			okP := c.derives(k, func(o ssa.Value) bool {
				fv := eng.FieldVarOf(o)
				return fv != nil && (fv == sPath || fv == fPath)
			})
			okB := c.derives(k, func(o ssa.Value) bool {
				fv := eng.FieldVarOf(o)
				return fv != nil && (fv == sID || fv == fID)
			})
			name := side.name + ":" + eng.MKey(ci)
			form := normKey(w.Expr(k))
			if keyForm == "" {
				keyForm = form
			}
			switch {
			case !okP || !okB:
				rKey.Bad(name, w.At(ci), "state key does not derive from both the import path and the build ID (%s)", form)
			case form != keyForm:
				rKey.Bad(name, w.At(ci), "state key %s differs from the key %s used elsewhere", form, keyForm)
			default:
				rKey.OK(name, w.At(ci))
			}
			for _, f := range []struct {
				fv  *types.Var
				nm  string
				pre func(v ssa.Value) bool
			}{
				{side.p, "ImportPath", func(v ssa.Value) bool { return isFieldVal(v, sPath) || isFieldVal(v, fPath) }},
				{side.b, "BuildID", func(v ssa.Value) bool { return isFieldVal(v, sID) || isFieldVal(v, fID) }},
			} {
				ok := w.MustHold(ci, func(l eng.Lit) bool { return emptyLit(l, f.pre) == "nonempty" })
				rReq.Check(ok, name+" "+f.nm, w.At(ci), "the state table is consulted although %s may be empty", f.nm)
			}
			// An entry must stay until the server stops, or late starters would build again.
			if keyIs(ci, "sync.Map.LoadAndDelete", "sync.Map.Delete") {
				rKey.Bad(name+" delete", w.At(ci), "a build state is removed from the table, so the package would be compiled again")
			}
		}
		if n == 0 {
			rKey.Bad(side.name, w.Pos(start.Pos()), "no access to the build-state table found in %s", side.name)
		}
	}

	// --- start: creation is atomic
	var los *ssa.Call
	for _, ci := range c.callsKey(sReg, "sync.Map.LoadOrStore") {
		los, _ = ci.(*ssa.Call)
	}
	if los == nil {
		rRole.Bad("start creation", w.Pos(start.Pos()), "the state is not created with an atomic LoadOrStore")
		return
	}
	loaded := eng.ResultAt(los, 1)
	isLoaded := func(pol bool) func(eng.Lit) bool {
		return func(l eng.Lit) bool {
			return loaded != nil && l.Pol == pol && c.sameOrParam(l.V, loaded)
		}
	}
	// The response roles.
	ntok, nfiles := 0, 0
	for _, s := range fieldStores(sReg, rspTok) {
		if _, isC := eng.ConstString(s.Val); isC {
			continue
		}
		ntok++
		rRole.Check(w.MustHold(s, isLoaded(false)), "token response", w.At(s), "a finish token can be returned to a request that did not create the build state")
		rRole.Check(c.derivesField(s.Val, fToken), "token value", w.At(s), "the finish token returned is not the state's token")
	}
	for _, s := range fieldStores(sReg, rspFiles) {
		if isNil(s.Val) {
			continue
		}
		nfiles++
		rRole.Check(w.MustHold(s, isLoaded(true)), "files response", w.At(s), "stored files can be returned to the request that created the build state")
		rRole.Check(c.derivesField(s.Val, fFiles), "files value", w.At(s), "the files returned are not the state's files")
		noErr := func(l eng.Lit) bool {
			return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fErr) }) == "nil"
		}
		rRole.Check(w.MustHold(s, noErr), "files response without error", w.At(s), "files are returned although the task may have failed")
		some := func(l eng.Lit) bool {
			return emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, fFiles) }) == "nonempty"
		}
		rRole.Check(w.MustHold(s, some), "files response non-empty", w.At(s), "an empty file set can be returned as a success")
	}
	rRole.Check(ntok >= 1 && nfiles >= 1, "both roles", w.Pos(start.Pos()), "start must answer both with a token and with files (found %d/%d)", ntok, nfiles)
	// Every response object returned on success carries a token or files.
	for _, r := range eng.Returns(start) {
		if len(r.Results) == 2 && isNil(eng.ResolveLocal(r.Results[0])) && w.MaySucceed(r) && w.Nilness(r.Results[1], r.Block()) == eng.Nil {
			rRole.Bad("nil response", w.At(r), "start can return neither a response nor an error")
		}
	}

	// --- start: wait before read
	recvEv := func(in ssa.Instruction) bool {
		u, ok := in.(*ssa.UnOp)
		if ok && u.Op == token.ARROW {
			return isFieldVal(u.X, fDone)
		}
		if sel, ok := in.(*ssa.Select); ok && sel.Blocking {
			// a select only counts if every state waits for completion
			for _, s := range sel.States {
				if !isFieldVal(s.Chan, fDone) {
					return false
				}
			}
			return len(sel.States) > 0
		}
		return false
	}
	wrapRecv := w.LiftEvent(recvEv)
	for _, fv := range []struct {
		v *types.Var
		l []ssa.Instruction
	}{{fFiles, fieldLoads(sReg, fFiles)}, {fErr, fieldLoads(sReg, fErr)}} {
		for _, ld := range fv.l {
			ok, _ := w.MustPrecede(ld, wrapRecv, nil)
			rWait.Check(ok, "start reads "+fv.v.Name(), w.At(ld), "the outcome is read before the original task has completed")
		}
	}
	rWait.Min(2)
	// an error recorded must be returned as an error: the load of the error flows to the error result
	errRet := false
	for _, r := range eng.Returns(start) {
		if len(r.Results) == 2 && c.derivesField(r.Results[1], fErr) {
			errRet = true
		}
	}
	rRole.Check(errRet, "error response", w.Pos(start.Pos()), "the recorded error is not returned to waiting requests")

	// --- init
	for _, fv := range []*eng.FieldInit{{F: fToken, N: "token"}, {F: fDone, N: "done"}, {F: fOnDone, N: "onDone"}} {
		ss := fieldStores(c.W.FuncsIn(nbtPkg), fv.F)
		if len(ss) == 0 {
			rInit.Bad(fv.N, w.Pos(start.Pos()), "%s is never initialised", fv.N)
			continue
		}
		for _, s := range ss {
			switch fv.N {
			case "token":
				fresh := c.derivesExternalCall(s.Val, "github.com/google/uuid.NewString", "github.com/google/uuid.New", "github.com/google/uuid.NewRandom", "crypto/rand.Text")
				rInit.Check(fresh, "token fresh", w.At(s), "the finish token is not freshly generated")
			case "onDone":
				// the cancel func paired with the done channel
				rInit.Check(c.pairedCancel(s.Val, fieldStores(c.W.FuncsIn(nbtPkg), fDone)), "done/onDone pair", w.At(s), "the completion channel is not closed by the completion callback")
			default:
				rInit.OK(fv.N, w.At(s))
			}
			// initialised before first use: every load in start must be preceded by the Once (or the store)
		}
	}
	onceEv := w.LiftEvent(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, d := in.(*ssa.Defer); d {
			return false
		}
		return keyIs(ci, "sync.Once.Do")
	})
	storeBeforePublish := true
	for _, fv := range []*types.Var{fToken, fDone} {
		for _, s := range fieldStores(sReg, fv) {
			if !eng.Dominates(s, los) {
				storeBeforePublish = false
			}
		}
	}
	if !storeBeforePublish {
		for _, ld := range append(fieldLoads(sReg, fToken), fieldLoads(sReg, fDone)...) {
			ok, _ := w.MustPrecede(ld, onceEv, nil)
			rInit.Check(ok, "initialised before use", w.At(ld), "token or completion channel is used before the build state is initialised")
		}
	}

	// --- finish
	touch := map[string][]ssa.Instruction{}
	for _, s := range fieldStores(fReg, fFiles) {
		touch["files"] = append(touch["files"], s)
	}
	for _, s := range fieldStores(fReg, fErr) {
		touch["error"] = append(touch["error"], s)
	}
	var onDoneCalls []ssa.CallInstruction
	var cas []*ssa.Call
	for _, ci := range eng.CallsIn(fReg) {
		cm := ci.Common()
		if !cm.IsInvoke() && cm.StaticCallee() == nil && isFieldVal(cm.Value, fOnDone) {
			onDoneCalls = append(onDoneCalls, ci)
			touch["onDone"] = append(touch["onDone"], ci)
		}
		if keyIs(ci, "sync/atomic.Bool.CompareAndSwap", "sync/atomic.Bool.Swap", "sync/atomic.Bool.Store") {
			if fa, ok := eng.ArgOf(ci, 0).(*ssa.FieldAddr); ok && eng.FieldVar(fa) == fIsDone {
				touch["isDone"] = append(touch["isDone"], ci)
				if call, ok := ci.(*ssa.Call); ok && keyIs(ci, "sync/atomic.Bool.CompareAndSwap") {
					o, _ := eng.ConstBool(eng.ArgOf(ci, 1))
					n, _ := eng.ConstBool(eng.ArgOf(ci, 2))
					if !o && n {
						cas = append(cas, call)
					}
				}
				if keyIs(ci, "sync/atomic.Bool.Store") {
					rOnce.Bad("isDone.Store", w.At(ci), "the completion flag is set without an atomic test")
				}
			}
		}
	}
	tokenOK := func(l eng.Lit) bool {
		return cmpLit(l, func(v ssa.Value) bool { return isFieldVal(v, fToken) }, func(v ssa.Value) bool { return isFieldVal(v, fTok) }) == 1
	}
	won := func(l eng.Lit) bool {
		for _, x := range cas {
			if l.V == x && l.Pol {
				return true
			}
		}
		return false
	}
	for _, k := range keysOf(touch) {
		for _, in := range touch[k] {
			rTok.Check(w.MustHold(in, tokenOK), "finish "+k, w.At(in), "%s is touched although the finish token was not checked to match", k)
			if k != "isDone" {
				rOnce.Check(w.MustHold(in, won), "finish "+k, w.At(in), "%s is touched by a request that has not won the completion flag", k)
			}
		}
	}
	rTok.Min(4)
	rOnce.Min(3)
	if len(cas) == 0 {
		rOnce.Bad("CompareAndSwap", w.Pos(finish.Pos()), "finish does not atomically claim completion with CompareAndSwap(false, true)")
		return
	}
	// Outcome fields are written by nobody else.
	for _, fv := range []struct {
		v  string
		ss []*ssa.Store
	}{{"files", fieldStores(w.Funcs, fFiles)}, {"error", fieldStores(w.Funcs, fErr)}} {
		for _, s := range fv.ss {
			in := false
			for _, f := range fReg {
				if f == s.Parent() {
					in = true
				}
			}
			rOnce.Check(in, "writer of "+fv.v, w.At(s), "%s is written outside of finish", fv.v)
		}
	}

	// release
	rel := w.LiftEvent(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		for _, o := range onDoneCalls {
			if o == ci {
				return true
			}
		}
		// deferred closure calling it
		for _, g := range w.Callees(ci) {
			if g.Parent() != nil && len(g.Blocks) > 0 {
				for _, o := range onDoneCalls {
					if o.Parent() == g && w.AlwaysExecutes(o) {
						return true
					}
				}
			}
		}
		return false
	})
	notWon := func(l eng.Lit) bool {
		for _, x := range cas {
			if l.V == x && !l.Pol {
				return true
			}
		}
		return false
	}
	for _, x := range cas {
		leak := w.MustFollow(x, rel, nil, notWon)
		if leak != nil {
			rRel.Bad("finish", w.At(leak.Exit), "after the completion flag is won, this exit is reached without the completion callback: waiting builds hang forever")
		} else {
			rRel.OK("finish", w.At(x))
		}
	}
	// no outcome store after a direct (non-deferred) callback call
	for _, o := range onDoneCalls {
		if _, d := o.(*ssa.Defer); d {
			continue
		}
		if o.Parent() != finish && o.Parent().Parent() != nil {
			continue // inside a deferred closure
		}
		for _, k := range []string{"files", "error"} {
			for _, s := range touch[k] {
				if s.Parent() == o.Parent() && eng.CanReach(o, s) {
					rRel.Bad("store after release: "+k, w.At(s), "%s is written after waiters were released", k)
				}
			}
		}
	}
	// waiters are only released from finish
	for _, ci := range eng.CallsIn(w.Funcs) {
		cm := ci.Common()
		if !cm.IsInvoke() && cm.StaticCallee() == nil && isFieldVal(cm.Value, fOnDone) {
			in := false
			for _, f := range fReg {
				if f == ci.Parent() {
					in = true
				}
			}
			rRel.Check(in, "releaser", w.At(ci), "the completion callback is called outside of finish")
		}
	}

	// outcome recorded on every exit after winning
	outcome := w.LiftEvent(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		fv := eng.FieldVar(fa)
		return (fv == fErr || fv == fFiles) && !isNil(s.Val)
	})
	errOutcome := w.LiftEvent(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && eng.FieldVar(fa) == fErr && !isNil(s.Val)
	})
	for _, x := range cas {
		if x.Parent() != finish {
			continue
		}
		leak := w.MustFollow(x, outcome, nil, notWon)
		if leak != nil {
			rOut.Bad("some outcome", w.At(leak.Exit), "this exit is reached without an error or files having been recorded")
		} else {
			rOut.OK("some outcome", w.At(x))
		}
		for _, r := range eng.Returns(finish) {
			if !eng.CanReach(x, r) || len(r.Results) != 2 {
				continue
			}
			e := eng.ResolveLocal(r.Results[1])
			if isNil(e) {
				continue
			}
			leak := w.MustFollow(x, errOutcome, func(q *ssa.Return) bool { return q == r }, notWon)
			if leak != nil {
				rOut.Bad("error exit", w.At(r), "finish fails here without recording the error for waiting builds")
			} else {
				rOut.OK("error exit", w.At(r))
			}
		}
	}
	// A reported error is recorded, and never as success.
	hasReqErr := false
	for _, s := range fieldStores(fReg, fErr) {
		if c.derivesField(s.Val, fReqErr) {
			hasReqErr = true
			ok := w.MustHold(s, func(l eng.Lit) bool {
				return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fReqErr) }) == "nonnil"
			})
			rOut.Check(ok, "reported error", w.At(s), "the reported error is recorded although none may have been reported")
		}
	}
	rOut.Check(hasReqErr, "reported error recorded", w.Pos(finish.Pos()), "an error reported by the compiling process is not recorded")
	for _, s := range fieldStores(fReg, fFiles) {
		if isNil(s.Val) {
			continue
		}
		ok := w.MustHold(s, func(l eng.Lit) bool {
			return nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, fReqErr) }) == "nil"
		})
		rOut.Check(ok, "files only without reported error", w.At(s), "files are published although the compilation reported an error")
		ok = w.MustHold(s, func(l eng.Lit) bool {
			return emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, fReqFiles) }) == "nonempty"
		})
		rOut.Check(ok, "files only when some", w.At(s), "an empty file set is recorded as a success")
	}

	// files published after copy
	copies := c.callsKey(fReg, "internal/files.Copy", "os.Link", "os.Rename", "os.WriteFile")
	rFiles.Check(len(copies) > 0, "persisted", w.Pos(finish.Pos()), "artifacts are not persisted to the server's storage")
	for _, cp := range copies {
		c.checkErrHandled(rFiles, cp)
	}
	instrs(fReg, func(fn *ssa.Function, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || eng.NamedOf(mapKeyType(mu.Map.Type())) != w.Type(nbtPkg, "Label") {
			return
		}
		preceded := false
		for _, cp := range copies {
			if w.MustHold(in, c.succeeded(cp)) {
				dst := eng.ArgOf(cp, copyDst(cp))
				if w.Expr(dst) == w.Expr(mu.Value) {
					preceded = true
				}
			}
		}
		rFiles.Check(preceded, "publish", w.At(in), "a file is published without having been copied successfully to exactly that path")
		rFiles.Check(c.derives(mu.Key, func(o ssa.Value) bool { return isField(o, fReqFiles) }), "label", w.At(in), "the published label is not the request's")
	})
	for _, cp := range copies {
		dst, src := eng.ArgOf(cp, copyDst(cp)), eng.ArgOf(cp, copyDst(cp)-1)
		rFiles.Check(c.derivesField(src, fReqFiles), "copy source", w.At(cp), "the persisted file is not the one the request names")
		rDir.Check(c.derivesField(dst, fSDir), "below service dir", w.At(cp), "artifacts are stored outside of the service directory")
		rDir.Check(c.derivesField(dst, fPath) && c.derivesField(dst, fID), "per package and build ID", w.At(cp), "the storage path does not depend on both the import path and the build ID: artifacts of different builds overwrite each other")
		rDir.Check(c.derivesField(dst, fReqFiles), "per label", w.At(cp), "the storage path does not depend on the label: files overwrite each other")
	}
}

func copyDst(ci ssa.CallInstruction) int {
	if keyIs(ci, "internal/files.Copy") {
		return 2
	}
	return 1
}

// normKey abstracts the request type from a rendered key.
func normKey(s string) string {
	r := s
	for _, t := range []string{"<internal/jobserver/nbt.StartRequest>", "<internal/jobserver/nbt.FinishRequest>"} {
		r = replaceAll(r, t, "<req>")
	}
	return r
}
