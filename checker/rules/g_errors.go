package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "G01", Technique: "error-fate dataflow: every path after each failing call of the shipped program ends by reporting it", Run: runErrors, AllOS: true})
}

// bestEffort lists what may fail without consequence: the calls of a package to a function, and why.
var bestEffort = map[[2]string]string{
	{"internal/cmd", "os.Remove"}:                                                      "the URL file is removed on a best-effort basis",
	{"internal/cmd", "internal/jobserver/client.Connect"}:                              "failing to connect is how a dead server is recognised",
	{"internal/cmd", "github.com/fsnotify/fsnotify.Watcher.Close"}:                     "nothing is watched by then",
	{"internal/cmd", "text/template.Template.Execute"}:                                 "a plain help text is printed instead",
	{"internal/goenv", "os.Getwd"}:                                                     "only used to word an error",
	{"internal/goflags", "internal/goflags/quoted.Split"}:                              "the go command itself refuses such GOFLAGS",
	{"internal/goflags", "strconv.ParseBool"}:                                          "the flag is kept as an unknown one",
	{"internal/goflags", "errors.Join"}:                                                "packages which do not load are reported by the build itself",
	{"internal/injector/aspect/advice/code", "internal/injector/typed.NewTypeName"}:    "the name is then resolved as an interface, which reports",
	{"internal/jobserver/client", "os.Create"}:                                         "without a log file the server's output is discarded",
	{"internal/jobserver/client", "os.Process.Release"}:                                "the server runs already",
	{"internal/jobserver/client", "os.Setenv"}:                                         "other processes find the server by its URL file",
	{"internal/jobserver", "github.com/nats-io/nats.go.Msg.Ack"}:                       "acknowledging an event the server itself publishes",
	{"internal/jobserver", "github.com/nats-io/nats.go.Msg.Respond"}:                   "diagnostics only: the list of clients",
	{"internal/jobserver/pkgs", "internal/goflags.Flags"}:                              "the warning is kept, and test variants are refused",
	{"internal/pin", "internal/ensure.RequiredVersion"}:                                "not knowing the version is what pinning answers",
	{"internal/pin", "golang.org/x/term.GetSize"}:                                      "only used to draw a box",
	{"internal/pin", "internal/injector/config.HasConfig"}:                             "the failure is printed as the reason for pruning",
	{"internal/toolexec/proxy", "internal/injector/aspect/context.ParseGoLangVersion"}: "an unknown language version is raised (W09)",
	{"", "os.File.Close"}:                                                              "profiles: logged",
	{"internal/cmd", ""}:                                                               "ceasing to watch the URL file",
	{"", "os.Getwd"}:                                                                   "the path is then used as it is",
}

// runErrors decides G01.
func runErrors(c *Ctx) {
	r := c.Rule("G01.fate", "after a call has failed, every exit of the function reports that error or another one; or the failure is one the code recognises (end of file, missing file, exit status), is retried, or cannot matter")
	fns := c.errorFates(r, func(*ssa.Function) bool { return true })
	c.Count("functions with calls which may fail", fns)
	c.Count("calls which may fail", r.N())
	r.Min(300)
}

// errorFates decides what becomes of the error of each call of the functions chosen which may fail.
func (c *Ctx) errorFates(r *R, chosen func(*ssa.Function) bool) int {
	fns := 0
	for _, fn := range c.shipped() {
		if !chosen(fn) {
			continue
		}
		n := 0
		for _, ci := range eng.Calls(fn) {
			res := ci.Common().Signature().Results()
			if res.Len() == 0 || !eng.IsErrorType(res.At(res.Len()-1).Type()) {
				continue
			}
			n++
			name := eng.Name(eng.Root(fn)) + " <- " + calleeName(ci)
			f, at := c.W.FateWith(ci, c.recognisedAt(ci), answered(ci))
			if f == eng.ErrPropagated {
				r.OK(name, c.W.At(ci))
				continue
			}
			if why := c.harmless(ci, f); why != "" {
				c.Count("failures without consequence: "+why, 1)
				r.OK(name, c.W.At(ci))
				continue
			}
			k := [2]string{strings.TrimPrefix(eng.PkgOf(fn), "github.com/DataDog/orchestrion/"), eng.MKey(ci)}
			if k[0] == "github.com/DataDog/orchestrion" {
				k[0] = ""
			}
			if bestEffort[k] != "" {
				c.Count("best-effort calls", 1)
				r.OK(name, c.W.At(ci))
				continue
			}
			where := "its error is not looked at"
			if f == eng.ErrSwallowed {
				where = "after it failed, the function can still report success (at " + c.W.At(at) + ")"
			}
			r.Bad(name, c.W.At(ci), "%s", where)
		}
		if n > 0 {
			fns++
		}
	}
	return fns
}

func calleeName(ci ssa.CallInstruction) string {
	if k := eng.MKey(ci); k != "" {
		return k
	}
	if ci.Common().IsInvoke() {
		return ci.Common().Method.Name()
	}
	return "dynamic call"
}

// recognisedAt is recognised, and what cannot be after ci: that a collection whose elements a loop
// around ci goes through is empty.
func (c *Ctx) recognisedAt(ci ssa.CallInstruction) func(ssa.Value, eng.Lit) bool {
	var over []string
	for _, l := range eng.Loops(ci.Parent()) {
		if l.Over != nil && l.Blocks[ci.Block()] {
			over = append(over, c.W.Expr(l.Over))
		}
	}
	return func(e ssa.Value, l eng.Lit) bool {
		if recognised(e, l) {
			return true
		}
		return len(over) > 0 && emptyLit(l, func(v ssa.Value) bool { return has(over, c.W.Expr(v)) }) == "empty"
	}
}

// recognised: a particular failure e is recognised: errors.Is(e, …), errors.As(e, …), e == sentinel, e.ExitCode() == n.
func recognised(e ssa.Value, l eng.Lit) bool {
	is := func(v ssa.Value) bool {
		v = eng.Outer(eng.Unwrap(v))
		if v == eng.ResolveLocal(e) {
			return true
		}
		if p, ok := v.(*ssa.Phi); ok {
			for _, x := range p.Edges {
				if x == e {
					return true
				}
			}
		}
		return false
	}
	switch x := l.V.(type) {
	case *ssa.Call:
		if !l.Pol || len(x.Call.Args) == 0 {
			return false
		}
		switch eng.Key(x) {
		case "errors.Is", "errors.As", "os.IsNotExist", "os.IsExist":
			return is(x.Call.Args[0])
		}
	case *ssa.BinOp:
		sentinel := func(v ssa.Value) bool {
			u, ok := eng.Unwrap(v).(*ssa.UnOp)
			if !ok {
				return false
			}
			_, ok = u.X.(*ssa.Global)
			return ok
		}
		// a particular exit status
		status := func(v ssa.Value) bool {
			call, ok := eng.ResolveLocal(v).(*ssa.Call)
			return ok && exitCodeOf(call) != nil && is(exitCodeOf(call))
		}
		constant := func(v ssa.Value) bool { _, ok := eng.ConstInt(v); return ok }
		return cmpLit(l, is, sentinel) == 1 || cmpLit(l, status, constant) == 1
	}
	return false
}

// answered: the error is kept in an object or sent away, or the operation is retried.
func answered(ci ssa.CallInstruction) func(ssa.Instruction) bool {
	again := retries(ci)
	var e ssa.Value
	if call, ok := ci.(*ssa.Call); ok {
		e = eng.ResultAt(call, eng.ErrIndex(call.Call.Signature()))
	}
	return func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.FieldAddr); ok && e != nil && x.Val == e {
				return true
			}
		case *ssa.Send:
			if e != nil && x.X == e {
				return true
			}
		}
		return again(in)
	}
}

// retries recognises the same operation being attempted again.
func retries(ci ssa.CallInstruction) func(ssa.Instruction) bool {
	key := eng.MKey(ci)
	return func(in ssa.Instruction) bool {
		x, ok := in.(*ssa.Call)
		if !ok || key == "" || x == ci || eng.MKey(x) != key || x.Parent() != ci.Parent() {
			return false
		}
		a, b := x.Call.Args, ci.Common().Args
		if len(a) == 0 || len(b) == 0 {
			return false
		}
		// on the same subject
		same := false
		for i := range a {
			if i < len(b) && i < 2 && !isCtx(a[i]) && eng.ResolveLocal(a[i]) == eng.ResolveLocal(b[i]) {
				same = true
			}
		}
		return same
	}
}

func isCtx(v ssa.Value) bool { return v.Type().String() == "context.Context" }

// harmless says why failing has no consequence here ("" when it may).
func (c *Ctx) harmless(ci ssa.CallInstruction, f eng.ErrFate) string {
	key := eng.Key(ci)
	if f == eng.ErrDropped && c.failsAnyway(ci) {
		return "the function reports a failure anyway"
	}
	switch {
	case strings.HasPrefix(key, "strings.Builder.") || strings.HasPrefix(key, "bytes.Buffer."):
		return "writing to memory"
	case strings.HasPrefix(key, "fmt.Fprint"):
		if a := eng.ArgOf(ci, 0); a != nil && !c.opened(a, c.createdFile) {
			return "printing a message"
		}
	case strings.HasPrefix(key, "fmt.Print"):
		return "printing a message"
	case strings.HasPrefix(key, "github.com/DataDog/dd-trace-go/"):
		return "tracing orchestrion itself"
	case key == "os.Remove" || key == "os.RemoveAll":
		if f == eng.ErrDropped && c.temporary(ci) {
			return "removing temporary files"
		}
	case key == "encoding/json.Marshal" || key == "encoding/json.MarshalIndent":
		if v := eng.Unwrap(eng.ArgOf(ci, 0)); v != nil && alwaysEncodes(v.Type(), 0) {
			return "encoding a value which always encodes"
		}
	}
	if isClose(ci) {
		switch recv := closed(ci); {
		case recv == nil:
		case !c.opened(recv, c.createdFile):
			return "closing what was only read"
		case c.closedChecked(recv, ci):
			return "closing again what is closed, with a check, on success"
		}
	}
	// the error is handed to template.Must, which panics
	if call, ok := ci.(*ssa.Call); ok && call.Referrers() != nil {
		for _, u := range *call.Referrers() {
			if x, ok := u.(*ssa.Call); ok && strings.HasSuffix(eng.Key(x), "template.Must") {
				return "panics"
			}
			if ex, ok := u.(*ssa.Extract); ok && ex.Referrers() != nil && eng.IsErrorType(ex.Type()) {
				for _, u := range *ex.Referrers() {
					if x, ok := u.(*ssa.Call); ok && strings.HasSuffix(eng.Key(x), "template.Must") {
						return "panics"
					}
				}
			}
		}
	}
	return ""
}

func isClose(ci ssa.CallInstruction) bool {
	if ci.Common().IsInvoke() {
		return ci.Common().Method.Name() == "Close"
	}
	if strings.HasSuffix(eng.Key(ci), ".Close") {
		return true
	}
	return eng.Key(ci) == "" && closed(ci) != nil
}

// closed is what the call closes: the receiver, of a method value as well.
func closed(ci ssa.CallInstruction) ssa.Value {
	cm := ci.Common()
	if cm.IsInvoke() {
		return cm.Value
	}
	if f := cm.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cm.Args) > 0 {
		return cm.Args[0]
	}
	return nil
}

// createdFile: a file opened so as to be written.
func (c *Ctx) createdFile(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		ex, isEx := v.(*ssa.Extract)
		if !isEx {
			return false
		}
		if call, ok = ex.Tuple.(*ssa.Call); !ok {
			return false
		}
	}
	switch eng.Key(call) {
	case "os.Create", "os.CreateTemp", "os.NewFile", "os.Pipe":
		return true
	case "os.OpenFile":
		n, ok := eng.ConstInt(eng.ArgOf(call, 1))
		return !ok || n&3 != 0
	}
	return false
}

// opened: v, a file, may come from a call satisfying pred (however that call got its name).
func (c *Ctx) opened(v ssa.Value, pred func(ssa.Value) bool) bool {
	hit := false
	c.W.Origins(v, func(o ssa.Value) eng.Step {
		if pred(o) {
			hit = true
		}
		if hit {
			return eng.Stop
		}
		if call, ok := o.(*ssa.Call); ok && len(c.W.Callees(call)) == 0 {
			return eng.Stop
		}
		return eng.Follow
	})
	return hit
}

// failsAnyway: every exit after the call reports a failure.
func (c *Ctx) failsAnyway(ci ssa.CallInstruction) bool {
	if _, ok := ci.(*ssa.Call); !ok || eng.ErrIndex(ci.Parent().Signature) < 0 {
		return false
	}
	n := 0
	for _, r := range eng.Returns(ci.Parent()) {
		if eng.CanReach(ci, r) {
			n++
			if c.W.MaySucceed(r) {
				return false
			}
		}
	}
	return n > 0
}

// closedChecked: the same file is also closed with its error looked at.
func (c *Ctx) closedChecked(recv ssa.Value, ci ssa.CallInstruction) bool {
	if _, ok := ci.(*ssa.Defer); !ok {
		return false
	}
	for _, x := range eng.Calls(ci.Parent()) {
		if x != ci && isClose(x) {
			if f, _ := c.W.FateWith(x, recognised, nil); f == eng.ErrPropagated && eng.ResolveLocal(closed(x)) == eng.ResolveLocal(recv) {
				return true
			}
		}
	}
	// the other end of the pipe is what is read
	if ex, ok := eng.ResolveLocal(recv).(*ssa.Extract); ok && ex.Index == 0 {
		if call, ok := ex.Tuple.(*ssa.Call); ok && eng.Key(call) == "os.Pipe" {
			return true
		}
	}
	return false
}

// temporary: the call removes what the function (or the one around it) created as temporary.
func (c *Ctx) temporary(ci ssa.CallInstruction) bool {
	return c.derives(eng.ArgOf(ci, 0), func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if ex, isEx := v.(*ssa.Extract); isEx {
			call, ok = ex.Tuple.(*ssa.Call)
		}
		return ok && (eng.Key(call) == "os.MkdirTemp" || eng.Key(call) == "os.CreateTemp")
	})
}

// alwaysEncodes: encoding a value of this type to JSON cannot fail.
func alwaysEncodes(t types.Type, d int) bool {
	if d > 6 || types.NewMethodSet(t).Lookup(nil, "MarshalJSON") != nil || types.NewMethodSet(t).Lookup(nil, "MarshalText") != nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0
	case *types.Slice:
		return alwaysEncodes(u.Elem(), d+1)
	case *types.Array:
		return alwaysEncodes(u.Elem(), d+1)
	case *types.Map:
		k, ok := u.Key().Underlying().(*types.Basic)
		return ok && k.Info()&(types.IsInteger|types.IsString) != 0 && alwaysEncodes(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !alwaysEncodes(u.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	}
	return false
}
