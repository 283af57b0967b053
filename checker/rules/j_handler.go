package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "J02", Technique: "must-follow/at-most-once path analysis, capture-mutation analysis and request/handler wiring check over SSA", Run: runHandler})
}

func runHandler(c *Ctx) {
	w := c.W
	const pkg = "internal/jobserver/common"
	rWire := c.Rule("wiring", "every request subject is subscribed exactly once, with the handler of exactly that request type")
	rOnce := c.Rule("reply-once", "every path through message handling replies to the message exactly once")
	rPar := c.Rule("handler-parallel", "request handlers run in their own goroutine, so that a waiting request does not block the others")
	rCap := c.Rule("no-shared-mutation", "per-message code does not write variables shared between messages")
	rPol := c.Rule("result-polarity", "a success reply is only sent when the handler returned no error, an error reply carries the error text")
	rResp := c.Rule("reply-sent", "responding always sends something to the requester, also when encoding the result fails")
	rUn := c.Rule("unmarshal-error", "the client turns an error reply into an error, and a decoding failure into an error")
	rReq := c.Rule("request-errors", "the client's request function reports transport and encoding errors, and sends the encoded request")
	rTag := c.Rule("tags", "response field tags agree between server and client")

	hr := rOnce.Fn(pkg, "HandleRequest")
	resp := rResp.Fn(pkg, "respond")
	un := rUn.Fn(pkg, "UnmarshalResponse")
	if hr == nil || resp == nil || un == nil {
		return
	}
	// --- per message closure(s)
	var msgFns []*ssa.Function
	for _, a := range eng.WithAnon(hr) {
		sig := a.Signature
		if a.Parent() == hr && sig.Params().Len() == 1 && strings.HasSuffix(sig.Params().At(0).Type().String(), "nats.go.Msg") {
			msgFns = append(msgFns, a)
		}
	}
	if len(msgFns) == 0 {
		rOnce.Bad("callback", w.Pos(hr.Pos()), "the per-message callback was not found")
		return
	}
	isReply := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, d := in.(*ssa.Defer); d {
			return false
		}
		if _, g := in.(*ssa.Go); g {
			return false
		}
		for _, g := range w.Callees(ci) {
			if g == resp {
				return true
			}
		}
		return eng.Key(ci) == "github.com/nats-io/nats.go.Msg.Respond"
	}
	for _, mf := range msgFns {
		region := c.Region(mf)
		sub := map[*ssa.Function]bool{}
		for _, f := range region {
			sub[f] = true
		}
		lo, hi := w.EventCount(mf, isReply, true)
		rOnce.Check(lo >= 1, "at least once", w.Pos(mf.Pos()), "a path through message handling sends no reply: the client waits forever")
		rOnce.Check(hi <= 1, "at most once", w.Pos(mf.Pos()), "a path through message handling sends more than one reply")
		// the handler call
		nh := 0
		for _, f := range region {
			if f == resp || f == un {
				continue
			}
			for _, ci := range eng.Calls(f) {
				cm := ci.Common()
				if cm.IsInvoke() || cm.StaticCallee() != nil {
					continue
				}
				if _, isB := cm.Value.(*ssa.Builtin); isB {
					continue
				}
				if n := eng.NamedOf(cm.Value.Type()); n == nil || n.Obj().Name() != "RequestHandler" {
					continue
				}
				nh++
				inGo := w.RunsInGoroutine(f, mf)
				rPar.Check(inGo, "handler call", w.At(ci), "the request handler runs on the subscription's own goroutine: one waiting request blocks all others")
				call, ok := ci.(*ssa.Call)
				if !ok {
					continue
				}
				e := eng.ResultAt(call, 1)
				res := eng.ResultAt(call, 0)
				if e == nil || res == nil {
					rPol.Bad("results used", w.At(ci), "the handler's result or error is not used")
					continue
				}
				// success literal -> replies
				for _, rc := range eng.CallsIn(region) {
					isR := false
					for _, g := range w.Callees(rc) {
						if g == resp {
							isR = true
						}
					}
					if !isR {
						continue
					}
					val := eng.ArgOf(rc, 2)
					t := eng.Unwrap(val).Type()
					tn := eng.NamedOf(t)
					if tn == nil {
						continue
					}
					switch tn.Obj().Name() {
					case "successResponse":
						ok := w.MustHold(rc, func(l eng.Lit) bool {
							return nilLit(l, func(v ssa.Value) bool { return c.sameOrParam(v, e) }) == "nil"
						})
						rPol.Check(ok, "success reply", w.At(rc), "a success reply may be sent although the handler failed")
						rPol.Check(c.derives(val, func(o ssa.Value) bool { return o == res }), "success payload", w.At(rc), "the reply does not carry the handler's result")
					case "errorResponse":
						// after the handler: must carry its error
						if rc.Parent() == ci.Parent() && eng.CanReach(ci, rc) {
							rPol.Check(c.derives(val, func(o ssa.Value) bool { return o == e }), "error payload", w.At(rc), "the error reply does not carry the handler's error")
						}
						txt := c.derives(val, func(o ssa.Value) bool {
							x := callOf(o)
							return x != nil && (x.Call.IsInvoke() && x.Call.Method.Name() == "Error" || strings.HasPrefix(eng.Key(x), "fmt.") || strings.HasPrefix(eng.Key(x), "github.com/rs/zerolog"))
						})
						rPol.Check(txt, "error text", w.At(rc), "the error reply's text does not derive from an error")
					}
				}
			}
		}
		rPar.Check(nh >= 1, "handler called", w.Pos(mf.Pos()), "the request handler is never called")
		rPol.Min(3)
		// shared mutation: stores to variables captured from outside the message callback
		for _, f := range region {
			if f == mf || (f.Parent() != nil && enclosedBy(f, mf)) {
				instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
					s, ok := in.(*ssa.Store)
					if !ok {
						return
					}
					fv, ok := s.Addr.(*ssa.FreeVar)
					if !ok {
						return
					}
					outer := true
					w.Origins(fv, func(o ssa.Value) eng.Step {
						if o == fv {
							return eng.Follow
						}
						if _, isFV := o.(*ssa.FreeVar); isFV {
							return eng.Follow
						}
						if al, isA := o.(*ssa.Alloc); isA && enclosedOrSame(al.Parent(), mf) {
							outer = false
						}
						return eng.Stop
					})
					rCap.Check(!outer, short(f)+" writes "+fv.Name(), w.At(in), "captured variable %s is shared by all messages but written here: concurrent requests race and leak state into each other", fv.Name())
				})
				rCap.OK("analysed "+short(f), w.Pos(f.Pos()))
			}
		}
	}

	// --- respond
	sent := w.LiftEvent(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && eng.Key(ci) == "github.com/nats-io/nats.go.Msg.Respond"
	})
	for _, r := range eng.Returns(resp) {
		ok := w.PrecededIn(r, sent)
		rResp.Check(ok, "respond exit", w.At(r), "respond returns here without having sent anything: the requester waits forever")
	}
	for _, ci := range eng.CallsIn(c.Region(resp)) {
		if eng.Key(ci) == "github.com/nats-io/nats.go.Msg.Respond" {
			d := eng.ArgOf(ci, 1)
			ok := c.derives(d, func(o ssa.Value) bool { _, p := o.(*ssa.Parameter); return p && o.Parent() == resp }) ||
				c.derivesExternalCall(d, "encoding/json.Marshal")
			rResp.Check(ok, "payload", w.At(ci), "the payload sent is not an encoded response")
		}
	}

	// --- unmarshal
	parsedErr := w.Field(pkg, "errorResponse", "Error")
	parsedRes := w.Field(pkg, "successResponse", "Result")
	if parsedErr == nil || parsedRes == nil {
		rUn.Bad("fields", w.Pos(un.Pos()), "response fields not found")
		return
	}
	ns := 0
	for _, r := range eng.Returns(un) {
		if !w.MaySucceed(r) {
			continue
		}
		if w.Nilness(r.Results[1], r.Block()) != eng.Nil && !isNil(eng.ResolveLocal(r.Results[1])) {
			continue // returns some error value
		}
		ns++
		ok := w.MustHoldLocal(r, func(l eng.Lit) bool {
			return emptyLit(l, func(v ssa.Value) bool { return isFieldVal(v, parsedErr) }) == "empty"
		})
		rUn.Check(ok, "success", w.At(r), "a reply carrying an error can be reported as a success")
	}
	rUn.Check(ns > 0, "success exit", w.Pos(un.Pos()), "no success exit")
	for _, ci := range c.callsKey(c.Region(un), "encoding/json.Unmarshal") {
		c.checkErrHandled(rUn, ci)
	}
	carries := false
	for _, r := range eng.Returns(un) {
		if c.derives(r.Results[1], func(o ssa.Value) bool { return isField(o, parsedErr) }) {
			carries = true
		}
	}
	rUn.Check(carries, "error text", w.Pos(un.Pos()), "the server's error text is not reported")

	// tags
	for _, tn := range []string{"errorResponse", "successResponse"} {
		n := w.Type(pkg, tn)
		st, _ := n.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			tag := st.Tag(i)
			rTag.Check(strings.Contains(tag, `json:"`) && !strings.Contains(tag, `json:"-`), tn+"."+st.Field(i).Name(), w.Pos(st.Field(i).Pos()), "response field is not transmitted")
		}
	}
	// request types: every exported field transmitted
	// --- client request
	if rq := rReq.Fn("internal/jobserver/client", "Request"); rq != nil {
		for _, ci := range eng.CallsIn(c.Region(rq)) {
			switch eng.Key(ci) {
			case "encoding/json.Marshal", "github.com/nats-io/nats.go.Conn.RequestMsgWithContext":
				c.checkErrHandled(rReq, ci)
			}
		}
		rReq.Check(len(c.callsKey(c.Region(rq), pkg+".UnmarshalResponse")) > 0, "decodes", w.Pos(rq.Pos()), "the reply is not decoded with UnmarshalResponse")
		rReq.Min(2)
	}

	// --- wiring
	type wire struct {
		subject string
		pos     string
	}
	handled := map[string][]wire{} // request type -> subjects
	for _, ci := range eng.CallsIn(w.Funcs) {
		if eng.Key(ci) != "github.com/nats-io/nats.go.Conn.Subscribe" {
			continue
		}
		cb := eng.ArgOf(ci, 2)
		var reqT string
		w.Origins(cb, func(o ssa.Value) eng.Step {
			if call := callOf(o); call != nil && eng.MKey(call) == pkg+".HandleRequest" {
				if f := call.Call.StaticCallee(); f != nil && len(f.TypeArgs()) == 2 {
					reqT = eng.TypeKey(f.TypeArgs()[1])
				}
				return eng.Stop
			}
			return eng.Follow
		})
		if reqT == "" {
			continue
		}
		subj := w.ConstStrings(eng.ArgOf(ci, 1))
		if len(subj) != 1 {
			rWire.Bad("subscribe "+reqT, w.At(ci), "the subject of this subscription is not a single constant")
			continue
		}
		handled[reqT] = append(handled[reqT], wire{subj[0], w.At(ci)})
	}
	bySubject := map[string]string{}
	for _, n := range w.NamedTypes() {
		m := c.method(n, "Subject")
		if m == nil || m.Blocks == nil || m.Signature.Results().Len() != 1 {
			continue
		}
		if c.method(n, "ResponseIs") == nil {
			continue
		}
		var subj []string
		for _, r := range eng.Returns(m) {
			subj = append(subj, w.ConstStrings(r.Results[0])...)
		}
		tk := eng.TypeKey(n)
		if len(subj) != 1 {
			rWire.Bad(tk, w.Pos(m.Pos()), "the request's subject is not a single constant")
			continue
		}
		if o := bySubject[subj[0]]; o != "" {
			rWire.Bad(tk+" subject", w.Pos(m.Pos()), "subject %q is also used by %s", subj[0], o)
		}
		bySubject[subj[0]] = tk
		hs := handled[tk]
		if len(hs) != 1 {
			rWire.Bad(tk, w.Pos(m.Pos()), "%d subscriptions handle this request, expected exactly one", len(hs))
			continue
		}
		rWire.Check(hs[0].subject == subj[0], tk, hs[0].pos, "requests are sent to %q but handled on %q", subj[0], hs[0].subject)
		// fields on the wire
		st, _ := n.Underlying().(*types.Struct)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				continue
			}
			rTag.Check(!strings.Contains(st.Tag(i), `json:"-"`), tk+"."+st.Field(i).Name(), w.Pos(st.Field(i).Pos()), "exported request field is not transmitted")
		}
		uniq := map[string]string{}
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				continue
			}
			nm := jsonName(st, i)
			if p := uniq[nm]; p != "" {
				rTag.Bad(tk+" duplicate "+nm, w.Pos(st.Field(i).Pos()), "fields %s and %s share the wire name %q: neither is transmitted", p, st.Field(i).Name(), nm)
			}
			uniq[nm] = st.Field(i).Name()
		}
	}
	rWire.Min(5)
	// subscriptions: errors are not dropped
	for _, ci := range eng.CallsIn(w.Funcs) {
		if eng.Key(ci) == "github.com/nats-io/nats.go.Conn.Subscribe" && strings.HasPrefix(eng.Rel(ci.Parent()), "internal/jobserver") {
			c.checkErrHandled(rWire, ci)
		}
	}
}

func jsonName(st *types.Struct, i int) string {
	tag := st.Tag(i)
	if j := strings.Index(tag, `json:"`); j >= 0 {
		t := tag[j+6:]
		if k := strings.IndexAny(t, `",`); k > 0 {
			return t[:k]
		}
	}
	return st.Field(i).Name()
}

func enclosedBy(f, outer *ssa.Function) bool {
	for p := f.Parent(); p != nil; p = p.Parent() {
		if p == outer {
			return true
		}
	}
	return false
}

func enclosedOrSame(f, outer *ssa.Function) bool { return f == outer || enclosedBy(f, outer) }
