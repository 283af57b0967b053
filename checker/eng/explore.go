package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AV is an abstract value: unknown, a known constant, nil, or something that is not nil.
type AV struct {
	K AVKind
	C constant.Value
	T []AV  // tuples
	L *List // the contents of a list (nil: those at obj)

	obj    int // lists: where it is stored
	lo, hi pos // lists: which part of it; lengths: hi
}

// AVKind is the kind of an abstract value.
type AVKind int

// Abstract value kinds.
const (
	AUnknown AVKind = iota
	AConst
	ANil
	ANonNil
	ATuple
	ASymbol // a value known by name
	AList
	ALen // a number more than the length of the run of unknown length
)

// Abstract value constructors.
func ABool(b bool) AV  { return AV{K: AConst, C: constant.MakeBool(b)} }
func AStr(s string) AV { return AV{K: AConst, C: constant.MakeString(s)} }
func AInt(n int64) AV  { return AV{K: AConst, C: constant.MakeInt64(n)} }
func AUnk() AV         { return AV{} }
func ANilV() AV        { return AV{K: ANil} }
func ANonNilV() AV     { return AV{K: ANonNil} }
func (a AV) IsTrue() bool {
	return a.K == AConst && a.C.Kind() == constant.Bool && constant.BoolVal(a.C)
}
func (a AV) IsFalse() bool {
	return a.K == AConst && a.C.Kind() == constant.Bool && !constant.BoolVal(a.C)
}

// Int returns the known integer.
func (a AV) Int() (int64, bool) {
	if a.K != AConst || a.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(a.C)
}

func (a AV) String() string {
	switch a.K {
	case AConst:
		return a.C.ExactString()
	case ANil:
		return "nil"
	case ANonNil:
		return "nonnil"
	case ASymbol:
		return "<" + constant.StringVal(a.C) + ">"
	case AList:
		if a.L != nil {
			return a.L.String()
		}
		return fmt.Sprintf("@%d[%v:%v]", a.obj, a.lo, a.hi)
	case ALen:
		return fmt.Sprintf("len+%d", a.hi.n)
	case ATuple:
		var s []string
		for _, x := range a.T {
			s = append(s, x.String())
		}
		return "(" + strings.Join(s, ",") + ")"
	}
	return "?"
}

// Outcome is one way a function can end.
type Outcome struct {
	Rets   []AV
	Events []string // names of the events that happened, sorted
	Panics bool
	Exit   ssa.Instruction
	mem    map[ssa.Value]AV
	heap   map[int]*List
	objs   map[string]AV
}

// Has tells whether the event happened.
func (o Outcome) Has(ev string) bool {
	for _, e := range o.Events {
		if e == ev {
			return true
		}
	}
	return false
}

// Entries is what a map holds in the end, by the text of the key; ok is false when this is not known.
func (o Outcome) Entries(m AV) (map[string]AV, bool) {
	if m.K != ASymbol {
		return nil, false
	}
	res := map[string]AV{}
	for k, v := range o.objs {
		if rest, ok := strings.CutPrefix(k, constant.StringVal(m.C)+"["); ok {
			if rest == "?" {
				return nil, false
			}
			rest = strings.TrimSuffix(rest, "]")
			if s, err := strconv.Unquote(rest); err == nil {
				rest = s
			}
			res[rest] = v
		}
	}
	return res, true
}

// Objs is what all objects known by name hold in the end.
func (o Outcome) Objs() map[string]AV { return o.objs }

// Obj is what an object known by name holds in the end.
func (o Outcome) Obj(k string) AV { return o.objs[k] }

// Exploration is a path-sensitive abstract interpretation of a function over constants,
// nil-ness and the atoms supplied by the caller; values it knows nothing about take both
// branches, so the outcomes over-approximate what the function can do.
type Exploration struct {
	W *World
	// Atom supplies the abstract value of v (ok=false: evaluate normally).
	Atom func(v ssa.Value) (AV, bool)
	// Deref supplies the value loaded, given those of the values it is reached by.
	Deref func(x *ssa.UnOp, eval func(ssa.Value) AV) (AV, bool)
	// AtomEv supplies the value of a call, knowing the events that happened before it (including its own).
	AtomEv func(c *ssa.Call, happened func(string) bool) (AV, bool)
	// Event names the event an instruction is ("" = none).
	Event func(in ssa.Instruction) string
	// Repeat makes the second and later occurrences of an event the event "name+".
	Repeat bool
	// Inline decides whether to interpret a module callee (default: same package).
	Inline func(f *ssa.Function) bool
	// Prune drops a path when it reaches this instruction.
	Prune func(in ssa.Instruction) bool

	// At sees every instruction reached, with the values known there, and may drop the path.
	At func(in ssa.Instruction, eval func(ssa.Value) AV) bool

	// Mem holds the initial contents of the captured variables of the function run.
	Mem map[ssa.Value]AV
	// SetAfter gives the contents of variables after a call not looked into.
	SetAfter func(in ssa.Instruction) map[ssa.Value]AV

	// Defers interprets deferred calls when the function returns.
	Defers bool

	// Model supplies the value of a call from the values of its arguments.
	Model func(c *ssa.Call, eval func(ssa.Value) AV) (AV, bool)

	// Lists follows the contents of slices.
	Lists bool
	// Ranges follows ranges over maps all of whose entries are known, in any order.
	Ranges bool
	// Small bounds the counters and the length of the lists followed (0: the default).
	Small int64
	// Objs holds the contents of the objects known by name ("name.Field"), which are followed.
	Objs map[string]AV
	// Made supplies a new object known by name and its contents.
	Made func(c *ssa.Call, eval func(ssa.Value) AV) (AV, map[string]AV, bool)
	// Assert supplies the result of a type assertion.
	Assert func(x *ssa.TypeAssert, eval func(ssa.Value) AV) (AV, bool)
	// Escaping follows the structures made here that are kept by others, too.
	Escaping bool
	// Gos interprets goroutines as if called where they are started.
	Gos bool

	steps int
	// Exhausted: the state space was not fully explored (the outcomes are incomplete).
	Exhausted bool
}

type exState struct {
	env  map[ssa.Value]AV
	evs  map[string]bool
	mem  map[ssa.Value]AV // contents of captured variables
	def  []*ssa.Defer     // deferred calls, in order
	heap map[int]*List
	objs map[string]AV // fields of the objects known by name
}

func newState() exState {
	return exState{env: map[ssa.Value]AV{}, evs: map[string]bool{}, mem: map[ssa.Value]AV{}, heap: map[int]*List{}, objs: map[string]AV{}}
}

func (s exState) clone() exState {
	e := make(map[ssa.Value]AV, len(s.env))
	for k, v := range s.env {
		e[k] = v
	}
	m := make(map[string]bool, len(s.evs))
	for k := range s.evs {
		m[k] = true
	}
	mm := make(map[ssa.Value]AV, len(s.mem))
	for k, v := range s.mem {
		mm[k] = v
	}
	h := make(map[int]*List, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	ob := make(map[string]AV, len(s.objs))
	for k, v := range s.objs {
		ob[k] = v
	}
	return exState{e, m, mm, append([]*ssa.Defer(nil), s.def...), h, ob}
}

func (s exState) key() string {
	var l []string
	for k, v := range s.env {
		if v.K != AUnknown {
			l = append(l, fmt.Sprintf("%p=%s", k, v))
		}
	}
	for k, v := range s.mem {
		if v.K != AUnknown {
			l = append(l, fmt.Sprintf("*%p=%s", k, v))
		}
	}
	sort.Strings(l)
	var m []string
	for k := range s.evs {
		m = append(m, k)
	}
	sort.Strings(m)
	for _, d := range s.def {
		m = append(m, fmt.Sprintf("%p", d))
	}
	return strings.Join(l, ";") + "|" + strings.Join(m, ";") + "|" + heapKey(s.heap) + "|" + objKey(s.objs)
}

func objKey(m map[string]AV) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v.String())
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (e *Exploration) upTo(n int64) int64 {
	if e.Small > 0 {
		return e.Small
	}
	return n
}

// ownStruct: the local structure is only accessed directly or by the functions called with it.
func ownStruct(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef, *ssa.Call:
		case *ssa.Store:
			if x.Val == ssa.Value(al) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func ownObject(a AV) bool {
	return a.K == ASymbol && strings.HasPrefix(constant.StringVal(a.C), "obj@")
}

// forgetObject drops what is known about the fields of an object.
func forgetObject(a AV, st exState) {
	for k := range st.objs {
		if strings.HasPrefix(k, constant.StringVal(a.C)+".") {
			delete(st.objs, k)
		}
	}
}

// copied is a copy of a structure.
func (e *Exploration) copied(a AV, id string, st exState) AV {
	from, to := constant.StringVal(a.C), ASym("obj@"+id)
	forgetObject(to, st)
	for k, v := range st.objs {
		if rest, ok := strings.CutPrefix(k, from+"."); ok {
			st.objs[constant.StringVal(to.C)+"."+rest] = v
		}
	}
	return to
}

// ownMap: the map is only written and looked up here.
func ownMap(m *ssa.MakeMap) bool {
	for _, r := range *m.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map != ssa.Value(m) || x.Value == ssa.Value(m) {
				return false
			}
		case *ssa.Lookup, *ssa.DebugRef:
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.FieldAddr); !ok || x.Val != ssa.Value(m) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "delete" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (e *Exploration) mapOf(v ssa.Value, st exState) AV {
	if e.Objs == nil {
		return AV{}
	}
	if _, ok := v.Type().Underlying().(*types.Map); !ok {
		return AV{}
	}
	return e.eval(v, st)
}

// rangeNexts is what the next element of a range over a known map can be.
func (e *Exploration) rangeNexts(id string, st exState) ([]AV, bool) {
	m := st.objs[id]
	if m.K != ASymbol {
		return nil, false
	}
	prefix := constant.StringVal(m.C) + "["
	var res []AV
	for k, v := range st.objs {
		rest, ok := strings.CutPrefix(k, prefix)
		if !ok {
			continue
		}
		text, ok := strings.CutSuffix(rest, "]")
		if !ok {
			return nil, false // not all is known
		}
		if _, visited := st.objs[id+"["+text+"]"]; visited {
			continue
		}
		key := ASym(strings.Trim(text, "<>"))
		if s, err := strconv.Unquote(text); err == nil {
			key = AStr(s)
		} else if n, err := strconv.ParseInt(text, 10, 64); err == nil {
			key = AInt(n)
		}
		res = append(res, AV{K: ATuple, T: []AV{ABool(true), key, v}})
	}
	if len(res) > 8 {
		return nil, false
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	if len(res) == 0 {
		res = append(res, AV{K: ATuple, T: []AV{ABool(false), {}, {}}})
	}
	return res, true
}

func isBuilder(t types.Type) bool {
	n := NamedOf(Deref(t))
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder"
}

// builderCall interprets the methods of a strings.Builder.
func (e *Exploration) builderCall(c *ssa.Call, st exState) (AV, bool) {
	if e.Objs == nil || len(c.Call.Args) == 0 || !strings.HasPrefix(Key(c), "strings.Builder.") {
		return AV{}, false
	}
	o := e.eval(c.Call.Args[0], st)
	if !ownObject(o) {
		return AV{}, false
	}
	k := constant.StringVal(o.C) + ".$text"
	text, known := ConstAV(st.objs[k])
	written := func(s string, ok bool) (AV, bool) {
		if ok && known {
			st.objs[k] = AStr(text + s)
		} else {
			st.objs[k] = AUnk()
		}
		if strings.HasSuffix(Key(c), "Byte") {
			return ANilV(), true
		}
		return AV{K: ATuple, T: []AV{AUnk(), ANilV()}}, true
	}
	switch strings.TrimPrefix(Key(c), "strings.Builder.") {
	case "WriteString":
		s, ok := e.str(c.Call.Args[1], st)
		return written(s, ok)
	case "WriteByte", "WriteRune":
		n, ok := e.eval(c.Call.Args[1], st).Int()
		return written(string(rune(n)), ok && n < 128)
	case "Reset":
		st.objs[k] = AStr("")
		return AV{}, true
	case "Grow":
		return AV{}, true
	case "String":
		return st.objs[k], true
	case "Len":
		if known {
			return AInt(int64(len(text))), true
		}
		return AV{}, true
	}
	return AV{}, false
}

// deleteKey interprets the builtin delete.
func (e *Exploration) deleteKey(c *ssa.Call, st exState) {
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "delete" {
		return
	}
	if m := e.mapOf(c.Call.Args[0], st); m.K == ASymbol {
		id := constant.StringVal(m.C)
		if k := e.eval(c.Call.Args[1], st); k.K == ASymbol || k.K == AConst {
			delete(st.objs, id+"["+k.String()+"]")
		} else {
			st.objs[id+"[?"] = ABool(true)
		}
	}
}

// place names the field of an object known by name that v is the address of.
func (e *Exploration) place(v ssa.Value, st exState) (string, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || e.Objs == nil {
		return "", false
	}
	name := FieldVar(fa).Name()
	switch x := fa.X.(type) {
	case *ssa.Alloc:
		if a := st.env[x]; a.K == ASymbol {
			return constant.StringVal(a.C) + "." + name, true
		}
		return "", false
	case *ssa.FieldAddr:
		if k, ok := e.place(x, st); ok {
			return k + "." + name, true
		}
		return "", false
	case *ssa.IndexAddr:
		// an element which is a structure
		if a, ok := e.evalList(&ssa.UnOp{Op: token.MUL, X: x}, st); ok && a.K == ASymbol {
			return constant.StringVal(a.C) + "." + name, true
		}
		return "", false
	}
	if a := e.eval(fa.X, st); a.K == ASymbol {
		return constant.StringVal(a.C) + "." + name, true
	}
	return "", false
}

// member is what an object known by name holds.
func (e *Exploration) member(k string, t types.Type, st exState) AV {
	if a, ok := st.objs[k]; ok {
		return a
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return ASym(k)
	}
	return AUnk()
}

// Run explores fn with the given parameters (missing ones are unknown).
func (e *Exploration) Run(fn *ssa.Function, params ...AV) []Outcome {
	e.steps = 0
	st := newState()
	for k, v := range e.Mem {
		st.mem[k] = v
	}
	for k, v := range e.Objs {
		st.objs[k] = e.owned(v, st)
	}
	for i, p := range params {
		if i < len(fn.Params) {
			st.env[fn.Params[i]] = e.owned(p, st)
		}
	}
	return e.fn(fn, st, 0)
}

func (e *Exploration) fn(fn *ssa.Function, st exState, depth int) []Outcome {
	var res []Outcome
	seenOut := map[string]bool{}
	emit := func(o Outcome) {
		k := fmt.Sprint(o.Rets, o.Events, o.Panics, memKey(o.mem), heapKey(o.heap), objKey(o.objs))
		if !seenOut[k] {
			seenOut[k] = true
			res = append(res, o)
		}
	}
	type item struct {
		b    *ssa.BasicBlock
		pred *ssa.BasicBlock
		i    int
		st   exState
	}
	if len(fn.Blocks) == 0 {
		return []Outcome{{}}
	}
	seen := map[string]bool{}
	keep := st.clone().heap
	work := []item{{fn.Blocks[0], nil, 0, st}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e.steps++
		if e.steps > 60000 {
			e.Exhausted = true
			return res
		}
		if it.i == 0 {
			// phis first, simultaneously
			vals := map[*ssa.Phi]AV{}
			for _, in := range it.b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				counter := false
				for k, p := range it.b.Preds {
					if p == it.pred {
						vals[phi] = e.eval(phi.Edges[k], it.st)
					}
					if bo, ok := phi.Edges[k].(*ssa.BinOp); ok && it.b.Dominates(p) && (bo.X == ssa.Value(phi) || bo.Y == ssa.Value(phi)) {
						counter = true
					}
				}
				if n, ok := vals[phi].Int(); counter && e.Objs != nil && ok && n >= -1 && n <= e.upTo(16) {
					counter = false // all is known
				}
				if counter && !boundedCounter(phi) && !e.knownBound(phi, vals[phi], it.st) {
					vals[phi] = AV{} // counters are not followed
				}
				if a, ok := e.atom(phi); ok {
					vals[phi] = a
				}
			}
			for p, v := range vals {
				it.st.env[p] = v
			}
			// values computed in a previous visit of this block are stale
			for _, in := range it.b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						if _, isAlloc := in.(*ssa.Alloc); !isAlloc {
							delete(it.st.env, v)
						}
					}
				}
			}
			collect(it.st, keep)
			k := fmt.Sprintf("%d<%v|%s", it.b.Index, it.pred != nil && hasPhi(it.b), it.st.key())
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		forked := false
	instrs:
		for i := it.i; i < len(it.b.Instrs); i++ {
			in := it.b.Instrs[i]
			if e.Prune != nil && e.Prune(in) {
				forked = true
				break
			}
			if e.At != nil && e.At(in, func(v ssa.Value) AV {
				if fv, ok := v.(*ssa.FreeVar); ok {
					if a, ok := it.st.mem[fv]; ok {
						return e.snapshot(a, it.st)
					}
				}
				return e.snapshot(e.eval(v, it.st), it.st)
			}) {
				forked = true
				break
			}
			if e.Event != nil {
				if ev := e.Event(in); ev != "" {
					if e.Repeat && it.st.evs[ev] {
						it.st.evs[ev+"+"] = true
					}
					it.st.evs[ev] = true
				}
			}
			switch x := in.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					it.st.env[al] = e.eval(x.Val, it.st)
				} else if fv, ok := x.Addr.(*ssa.FreeVar); ok {
					it.st.mem[fv] = e.eval(x.Val, it.st)
				} else if ia, ok := x.Addr.(*ssa.IndexAddr); ok && e.Lists {
					e.storeElem(ia, e.eval(x.Val, it.st), it.st)
				} else if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if al, ok := fa.X.(*ssa.Alloc); ok {
						v := e.eval(x.Val, it.st)
						forgetField(it.st, al, fa.Field)
						it.st.env[fa] = v
					}
					if k, ok := e.place(fa, it.st); ok {
						it.st.objs[k] = e.eval(x.Val, it.st)
					}
				}
			case *ssa.UnOp:
				// what is loaded is what is there now
				if x.Op == token.MUL && e.Objs != nil {
					delete(it.st.env, x)
					if a := e.eval(x, it.st); a.K != AUnknown {
						if _, ok := x.Type().Underlying().(*types.Struct); ok && ownObject(a) {
							a = e.copied(a, fmt.Sprintf("%d.%s.%s", depth, fn.Name(), x.Name()), it.st)
						}
						it.st.env[x] = a
					}
				}
			case *ssa.Lookup:
				if e.Objs != nil {
					delete(it.st.env, x)
					if a := e.eval(x, it.st); a.K != AUnknown {
						it.st.env[x] = a
					}
				}
			case *ssa.Range:
				delete(it.st.env, x)
				if m := e.mapOf(x.X, it.st); e.Ranges && m.K == ASymbol && strings.HasPrefix(constant.StringVal(m.C), "map@") {
					id := fmt.Sprintf("range@%d.%s.%s", depth, fn.Name(), x.Name())
					for k := range it.st.objs {
						if strings.HasPrefix(k, id+"[") {
							delete(it.st.objs, k)
						}
					}
					it.st.objs[id] = m
					it.st.env[x] = ASym(id)
				}
			case *ssa.Next:
				delete(it.st.env, x)
				id := e.eval(x.Iter, it.st)
				if !e.Ranges || x.IsString || id.K != ASymbol {
					continue
				}
				nexts, ok := e.rangeNexts(constant.StringVal(id.C), it.st)
				if !ok {
					continue
				}
				for _, n := range nexts {
					s := it.st.clone()
					if n.T[0].IsTrue() {
						s.objs[constant.StringVal(id.C)+"["+n.T[1].String()+"]"] = ABool(true)
					}
					s.env[x] = n
					work = append(work, item{it.b, it.pred, i + 1, s})
				}
				forked = true
				break instrs
			case *ssa.Alloc:
				it.st.env[x] = zeroOf(Deref(x.Type()))
				forgetField(it.st, x, -1)
				if s, ok := Deref(x.Type()).Underlying().(*types.Struct); ok && e.Objs != nil && (e.Escaping || ownStruct(x)) {
					a := ASym(fmt.Sprintf("obj@%d.%s.%s", depth, fn.Name(), x.Name()))
					for n := 2; e.Escaping && it.st.objs[constant.StringVal(a.C)+".$type"].K != AUnknown && n < 20; n++ {
						a = ASym(fmt.Sprintf("obj@%d.%s.%s#%d", depth, fn.Name(), x.Name(), n))
					}
					forgetObject(a, it.st)
					if n := NamedOf(Deref(x.Type())); e.Escaping && n != nil {
						it.st.objs[constant.StringVal(a.C)+".$type"] = AStr(n.Obj().Name())
					}
					for k := 0; k < s.NumFields(); k++ {
						if z := zeroOf(s.Field(k).Type()); z.K != AUnknown {
							it.st.objs[constant.StringVal(a.C)+"."+s.Field(k).Name()] = z
						}
					}
					if isBuilder(x.Type()) {
						it.st.objs[constant.StringVal(a.C)+".$text"] = AStr("")
					}
					it.st.env[x] = a
				}
				if at, ok := Deref(x.Type()).Underlying().(*types.Array); ok && e.Lists && at.Len() <= 64 {
					l := &List{}
					for k := int64(0); k < at.Len(); k++ {
						l.Pre = append(l.Pre, zeroOf(at.Elem()))
					}
					it.st.env[x] = e.newList(l, it.st)
				}
			case *ssa.MakeMap:
				if e.Objs != nil && ownMap(x) {
					id := fmt.Sprintf("map@%d.%s.%s", depth, fn.Name(), x.Name())
					for k := range it.st.objs {
						if strings.HasPrefix(k, id+"[") {
							delete(it.st.objs, k)
						}
					}
					it.st.env[x] = ASym(id)
				}
			case *ssa.MapUpdate:
				if e.Objs == nil {
					continue
				}
				if m := e.eval(x.Map, it.st); m.K == ASymbol {
					id := constant.StringVal(m.C)
					if k := e.eval(x.Key, it.st); k.K == ASymbol || k.K == AConst {
						it.st.objs[id+"["+k.String()+"]"] = e.eval(x.Value, it.st)
					} else {
						it.st.objs[id+"[?"] = ABool(true) // any key
					}
				}
			case *ssa.MakeSlice:
				if !e.Lists {
					continue
				}
				it.st.env[x] = AV{}
				if p, ok := posOf(e.eval(x.Len, it.st)); ok && p.n >= 0 && p.n <= 64 {
					l := &List{}
					for k := int64(0); k < p.n; k++ {
						l.Pre = append(l.Pre, zeroOf(x.Type().Underlying().(*types.Slice).Elem()))
					}
					if p.r {
						l.Rest = "?"
					}
					it.st.env[x] = e.newList(l, it.st)
				}
			case *ssa.Go:
				var started []Outcome
				if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if e.Gos && depth <= 5 {
						s := newState()
						s.heap = it.st.clone().heap
						s.objs = it.st.clone().objs
						for i, p := range g.Params {
							if i < len(x.Call.Args) {
								s.env[p] = e.eval(x.Call.Args[i], it.st)
							}
						}
						e.bindCaptured(mc, g, it.st, s)
						for k := range it.st.evs {
							s.evs[k] = true
						}
						started = e.fn(g, s, depth+1)
					} else {
						for i, bd := range mc.Bindings {
							if !onlyRead(g.FreeVars[i]) {
								delete(it.st.env, bd)
							}
						}
					}
				}
				if len(started) == 0 {
					continue
				}
				for _, o := range started {
					n := it.st.clone()
					for _, ev := range o.Events {
						n.evs[ev] = true
					}
					if o.heap != nil {
						n.heap = o.heap
					}
					if o.objs != nil {
						n.objs = o.objs
					}
					e.copyBack(&x.Call, o, n)
					work = append(work, item{it.b, it.pred, i + 1, n})
				}
				forked = true
				break instrs
			case *ssa.Defer:
				if e.Defers {
					it.st.def = append(it.st.def, x)
				}
			case *ssa.RunDefers:
				if e.Defers {
					if n := len(it.st.def); n > 0 {
						d := it.st.def[n-1]
						it.st.def = it.st.def[:n-1]
						for _, n := range e.deferred(d, it.st, depth, emit) {
							work = append(work, item{it.b, it.pred, i, n})
						}
						forked = true
						break instrs
					}
					continue
				}
				for _, b := range fn.Blocks {
					for _, d := range b.Instrs {
						if df, ok := d.(*ssa.Defer); ok {
							if mc, ok := df.Call.Value.(*ssa.MakeClosure); ok {
								for i, bd := range mc.Bindings {
									if !onlyRead(mc.Fn.(*ssa.Function).FreeVars[i]) {
										delete(it.st.env, bd)
									}
								}
							}
						}
					}
				}
			case *ssa.Call:
				if a, ok := e.atom(x); ok {
					if a.K == AList {
						delete(it.st.env, x)
						it.st.env[x] = e.owned(a, it.st)
					}
					continue
				}
				if e.Made != nil {
					if a, fs, ok := e.Made(x, func(v ssa.Value) AV { return e.snapshot(e.eval(v, it.st), it.st) }); ok {
						it.st.env[x] = a
						for k, v := range fs {
							it.st.objs[k] = e.owned(v, it.st)
						}
						continue
					}
				}
				if e.Model != nil {
					if a, ok := e.Model(x, func(v ssa.Value) AV { return e.snapshot(e.eval(v, it.st), it.st) }); ok {
						it.st.env[x] = e.owned(a, it.st)
						continue
					}
				}
				e.deleteKey(x, it.st)
				if a, ok := e.builderCall(x, it.st); ok {
					it.st.env[x] = a
					continue
				}
				if e.AtomEv != nil {
					if a, ok := e.AtomEv(x, func(ev string) bool { return it.st.evs[ev] }); ok {
						it.st.env[x] = a
						continue
					}
				}
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					e.forgetCaptured(x, it.st)
				}
				if e.Lists {
					if a, ok := e.listCall(x, it.st); ok {
						it.st.env[x] = a
						continue
					}
				}
				outs := e.call(x, it.st, depth)
				if e.Lists {
					if l, ok := e.searchCall(x, it.st, depth); ok {
						outs = l
					}
				}
				if outs == nil {
					if e.Lists {
						e.spoil(x, it.st)
					}
					e.clobber(x, it.st)
					if e.SetAfter != nil {
						for k, v := range e.SetAfter(x) {
							it.st.env[k] = v
						}
					}
					continue
				}
				for _, o := range outs {
					n := it.st.clone()
					for _, ev := range o.Events {
						n.evs[ev] = true
					}
					if o.Panics {
						emit(Outcome{Events: keysSorted(n.evs), Panics: true, Exit: o.Exit})
						continue
					}
					if o.heap != nil {
						n.heap = o.heap
					}
					if o.objs != nil {
						n.objs = o.objs
					}
					e.copyBack(&x.Call, o, n)
					if len(o.Rets) == 1 {
						n.env[x] = o.Rets[0]
					} else {
						n.env[x] = AV{K: ATuple, T: o.Rets}
					}
					work = append(work, item{it.b, it.pred, i + 1, n})
				}
				forked = true
				break instrs
			case *ssa.Return:
				var rs []AV
				for _, r := range x.Results {
					rs = append(rs, e.eval(r, it.st))
				}
				var mem map[ssa.Value]AV
				var heap map[int]*List
				objs := it.st.objs
				if depth > 0 {
					mem, heap = it.st.mem, it.st.heap
				} else {
					for i := range rs {
						rs[i] = e.snapshot(rs[i], it.st)
					}
					objs = map[string]AV{}
					for k, v := range it.st.objs {
						objs[k] = e.snapshot(v, it.st)
					}
				}
				emit(Outcome{Rets: rs, Events: keysSorted(it.st.evs), Exit: x, mem: mem, heap: heap, objs: objs})
				forked = true
			case *ssa.Panic:
				emit(Outcome{Events: keysSorted(it.st.evs), Panics: true, Exit: x})
				forked = true
			case *ssa.If:
				forked = true
				c := e.eval(x.Cond, it.st)
				for k, s := range it.b.Succs {
					if (k == 0 && c.IsFalse()) || (k == 1 && c.IsTrue()) {
						continue
					}
					n := it.st.clone()
					if c.K == AUnknown {
						e.refine(x.Cond, k == 0, n)
					}
					work = append(work, item{s, it.b, 0, n})
				}
			}
		}
		if !forked {
			for _, s := range it.b.Succs {
				work = append(work, item{s, it.b, 0, it.st.clone()})
			}
		}
	}
	return res
}

// onlyRead: a captured variable is only read by the closure.
func onlyRead(fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

// memKey describes known contents of captured variables.
func memKey(m map[ssa.Value]AV) string {
	var l []string
	for k, v := range m {
		if v.K != AUnknown {
			l = append(l, fmt.Sprintf("%p=%s", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

// bindCaptured gives the closure's captured variables their contents.
func (e *Exploration) bindCaptured(mc *ssa.MakeClosure, g *ssa.Function, st, s exState) {
	for i, fv := range g.FreeVars {
		switch b := mc.Bindings[i].(type) {
		case *ssa.Alloc:
			if a, ok := st.env[b]; ok {
				s.mem[fv] = a
			}
		case *ssa.FreeVar:
			if a, ok := st.mem[b]; ok {
				s.mem[fv] = a
			}
		}
	}
}

// literalArray: v is (a slice of) an array of at most 16 elements made here, written only where
// it is made.
func literalArray(v ssa.Value) (*ssa.Alloc, int64) {
	if sl, ok := v.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil && sl.Max == nil {
		v = sl.X
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil, 0
	}
	at, ok := Deref(al.Type()).Underlying().(*types.Array)
	if !ok || at.Len() > 16 {
		return nil, 0
	}
	return al, at.Len()
}

// boundedCounter: the loop the counter controls runs over the elements of a literal.
func boundedCounter(phi *ssa.Phi) bool {
	for _, r := range *phi.Referrers() {
		next, ok := r.(*ssa.BinOp)
		if !ok {
			continue
		}
		cmps := append([]ssa.Instruction{next}, *next.Referrers()...)
		for _, c := range cmps {
			cmp, ok := c.(*ssa.BinOp)
			if !ok || cmp.Op != token.LSS {
				continue
			}
			if k, ok := cmp.Y.(*ssa.Const); ok {
				if n, ok := ConstInt(k); ok && n <= 16 {
					return true
				}
			}
			if ln, ok := cmp.Y.(*ssa.Call); ok {
				if b, ok := ln.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if al, _ := literalArray(ln.Call.Args[0]); al != nil {
						return true
					}
				}
			}
		}
	}
	return false
}

// knownBound: the loop the counter controls runs over a short list all of whose elements are known.
func (e *Exploration) knownBound(phi *ssa.Phi, now AV, st exState) bool {
	if !e.Lists {
		return false
	}
	small := func(a AV) bool {
		n, ok := a.Int()
		return ok && n >= -1 && n <= e.upTo(16)
	}
	for _, r := range *phi.Referrers() {
		next, ok := r.(*ssa.BinOp)
		if !ok || next.Op != token.ADD && next.Op != token.SUB {
			continue
		}
		if k, ok := ConstInt(next.Y); !ok || k != 1 && k != -1 {
			continue
		}
		cmps := append([]ssa.Instruction{}, *next.Referrers()...)
		cmps = append(cmps, *phi.Referrers()...)
		for _, c := range cmps {
			cmp, ok := c.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch cmp.Op {
			case token.LSS, token.LEQ:
				if _, isLen := cmp.Y.(*ssa.Call); (isLen || e.Objs != nil) && small(e.eval(cmp.Y, st)) && next.Op == token.ADD {
					return true
				}
			case token.GEQ, token.GTR:
				if k, ok := ConstInt(cmp.Y); ok && k >= -1 && next.Op == token.SUB && small(now) {
					return true
				}
			}
		}
	}
	return false
}

// elemAt: the value stored in element i of a literal.
func elemAt(al *ssa.Alloc, i int64) ssa.Value {
	var val ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, known := ConstInt(ia.Index)
		for _, rr := range *ia.Referrers() {
			s, ok := rr.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(ia) {
				continue
			}
			if !known {
				return nil
			}
			if n == i {
				if val != nil {
					return nil
				}
				val = s.Val
			}
		}
	}
	return val
}

// resolve follows v to the element of the literal it was read from, when that is known.
func (e *Exploration) resolve(v ssa.Value, st exState) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return v
	}
	al, n := literalArray(ia.X)
	if al == nil {
		return v
	}
	if i, ok := e.eval(ia.Index, st).Int(); ok && i >= 0 && i < n {
		if x := elemAt(al, i); x != nil {
			return x
		}
	}
	return v
}

// copyBack updates captured variables after a closure called directly returned.
func (e *Exploration) copyBack(c *ssa.CallCommon, o Outcome, st exState) {
	mc, ok := e.resolve(c.Value, st).(*ssa.MakeClosure)
	if !ok {
		return
	}
	g, ok := mc.Fn.(*ssa.Function)
	if !ok {
		return
	}
	for i, fv := range g.FreeVars {
		a := o.mem[fv]
		switch b := mc.Bindings[i].(type) {
		case *ssa.Alloc:
			st.env[b] = a
		case *ssa.FreeVar:
			st.mem[b] = a
		}
	}
}

// deferred runs a deferred call and returns the states after it.
func (e *Exploration) deferred(d *ssa.Defer, st exState, depth int, emit func(Outcome)) []exState {
	mc, ok := d.Call.Value.(*ssa.MakeClosure)
	if !ok || depth > 5 {
		return []exState{st.clone()}
	}
	g := mc.Fn.(*ssa.Function)
	s := newState()
	s.heap = st.clone().heap
	s.objs = st.clone().objs
	for i, p := range g.Params {
		if i < len(d.Call.Args) {
			s.env[p] = e.eval(d.Call.Args[i], st)
		}
	}
	e.bindCaptured(mc, g, st, s)
	for k := range st.evs {
		s.evs[k] = true
	}
	var res []exState
	for _, o := range e.fn(g, s, depth+1) {
		n := st.clone()
		for _, ev := range o.Events {
			n.evs[ev] = true
		}
		if o.Panics {
			emit(Outcome{Events: keysSorted(n.evs), Panics: true, Exit: o.Exit})
			continue
		}
		e.copyBack(&d.Call, o, n)
		res = append(res, n)
	}
	return res
}

func hasPhi(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[0].(*ssa.Phi)
	return ok
}

func keysSorted(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// refine records what a branch says about the tested values.
func (e *Exploration) refine(cond ssa.Value, pol bool, st exState) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			e.refine(x.X, !pol, st)
			return
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			eq := (x.Op == token.EQL) == pol
			l, r := x.X, x.Y
			if _, ok := l.(*ssa.Const); ok {
				l, r = r, l
			}
			rv := e.eval(r, st)
			if _, isLoad := l.(*ssa.UnOp); !isLoad {
				if eq && (rv.K == AConst || rv.K == ANil) {
					st.env[l] = rv
				} else if !eq && rv.K == ANil {
					st.env[l] = ANonNilV()
				}
			}
			if rv.K == AConst && rv.C.Kind() == constant.Bool {
				e.refine(l, eq == constant.BoolVal(rv.C), st)
			}
		}
	}
	if b, ok := cond.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool || ok && b.Kind() == types.UntypedBool {
		st.env[cond] = ABool(pol)
	}
}

func (e *Exploration) atom(v ssa.Value) (AV, bool) {
	if e.Atom == nil {
		return AV{}, false
	}
	return e.Atom(v)
}

// forgetField drops what is known about a field (all fields: -1) of a local struct.
func forgetField(st exState, al *ssa.Alloc, field int) {
	for k := range st.env {
		if fa, ok := k.(*ssa.FieldAddr); ok && fa.X == ssa.Value(al) && (field < 0 || fa.Field == field) {
			delete(st.env, k)
		}
	}
}

// forgetCaptured drops what is known about captured variables the call can modify: those whose
// address escapes, or all when it calls a sibling closure.
func (e *Exploration) forgetCaptured(c *ssa.Call, st exState) {
	sibling := false
	for _, g := range e.W.Callees(c) {
		sibling = sibling || g.Parent() != nil && (g.Parent() == c.Parent().Parent() || g.Parent() == c.Parent())
	}
	for k := range st.mem {
		if sibling {
			delete(st.mem, k)
			continue
		}
		for _, r := range *k.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
				continue
			case *ssa.Store:
				if r.Addr == k {
					continue
				}
			}
			delete(st.mem, k)
			break
		}
	}
}

// clobber forgets locals an unknown call can modify.
func (e *Exploration) clobber(c *ssa.Call, st exState) {
	for _, a := range c.Call.Args {
		if e.Objs != nil {
			if o := e.eval(a, st); ownObject(o) {
				forgetObject(o, st)
			}
		}
		if al, ok := a.(*ssa.Alloc); ok {
			delete(st.env, al)
			forgetField(st, al, -1)
		}
		if fa, ok := a.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				forgetField(st, al, fa.Field)
			}
		}
		if mi, ok := a.(*ssa.MakeInterface); ok {
			if al, ok := mi.X.(*ssa.Alloc); ok {
				delete(st.env, al)
			}
		}
		if mc, ok := a.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				delete(st.env, b)
			}
		}
	}
	if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			delete(st.env, b)
		}
	}
}

func (e *Exploration) call(c *ssa.Call, st exState, depth int) []Outcome {
	if _, ok := c.Call.Value.(*ssa.Builtin); ok || depth > 5 {
		return nil
	}
	cs := e.W.Callees(c)
	target := e.resolve(c.Call.Value, st)
	switch t := target.(type) {
	case *ssa.MakeClosure:
		cs = []*ssa.Function{t.Fn.(*ssa.Function)}
	case *ssa.Function:
		cs = []*ssa.Function{t}
	}
	if len(cs) == 0 || len(cs) > 1 && c.Call.IsInvoke() {
		return nil
	}
	var res []Outcome
	for _, g := range cs {
		inl := len(g.Blocks) > 0
		if e.Inline != nil {
			inl = inl && e.Inline(g)
		} else {
			inl = inl && PkgOf(g) == PkgOf(c.Parent())
		}
		if !inl {
			return nil
		}
		s := newState()
		for i, p := range g.Params {
			if a := ArgOf(c, i); a != nil {
				s.env[p] = e.eval(a, st)
			}
		}
		for k := range st.evs {
			s.evs[k] = true // so that repetitions are seen
		}
		s.heap = st.clone().heap
		s.objs = st.clone().objs
		if mc, ok := target.(*ssa.MakeClosure); ok {
			for i, fv := range g.FreeVars {
				s.env[fv] = e.eval(mc.Bindings[i], st)
			}
			e.bindCaptured(mc, g, st, s)
		}
		res = append(res, e.fn(g, s, depth+1)...)
	}
	return res
}

// eval computes the abstract value of v.
// EvalAt evaluates an expression from the atoms alone.
func (e *Exploration) EvalAt(v ssa.Value) AV { return e.eval(v, newState()) }

func (e *Exploration) eval(v ssa.Value, st exState) AV {
	if a, ok := e.atom(v); ok {
		if a.K == AList {
			if b, ok := st.env[v]; ok {
				return b
			}
		}
		return a
	}
	if a, ok := st.env[v]; ok {
		if _, isAlloc := v.(*ssa.Alloc); !isAlloc {
			return a
		}
	}
	if e.Lists {
		if a, ok := e.evalList(v, st); ok {
			return a
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return AUnk()
			}
			return ANilV()
		}
		return AV{K: AConst, C: x.Value}
	case *ssa.Alloc:
		if a := st.env[x]; e.Objs != nil && a.K == ASymbol {
			if _, ok := Deref(x.Type()).Underlying().(*types.Struct); ok {
				return a
			}
		}
		return ANonNilV()
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function, *ssa.MakeChan, *ssa.FieldAddr, *ssa.Global, *ssa.IndexAddr:
		return ANonNilV()
	case *ssa.MakeInterface:
		if in := e.eval(x.X, st); in.K == AConst || in.K == ASymbol {
			return in
		}
		return ANonNilV()
	case *ssa.TypeAssert:
		if e.Assert != nil {
			if a, ok := e.Assert(x, func(v ssa.Value) AV { return e.eval(v, st) }); ok {
				return a
			}
		}
	case *ssa.Field:
		if a := e.eval(x.X, st); e.Objs != nil && a.K == ASymbol {
			f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
			return e.member(constant.StringVal(a.C)+"."+f.Name(), x.Type(), st)
		}
	case *ssa.ChangeType:
		return e.eval(x.X, st)
	case *ssa.ChangeInterface:
		return e.eval(x.X, st)
	case *ssa.Convert:
		if a := e.eval(x.X, st); a.K == AConst {
			if b, ok := x.Type().Underlying().(*types.Basic); ok {
				if b.Info()&types.IsInteger != 0 && a.C.Kind() == constant.Int || b.Info()&types.IsString != 0 && a.C.Kind() == constant.String {
					return a
				}
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			a := e.eval(x.X, st)
			if a.K == AConst {
				return ABool(!constant.BoolVal(a.C))
			}
		case token.MUL:
			if e.Deref != nil {
				if a, ok := e.Deref(x, func(v ssa.Value) AV { return e.eval(v, st) }); ok {
					return a
				}
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if a, ok := st.env[al]; ok {
					return a
				}
				if !written(al) {
					return zeroOf(Deref(al.Type()))
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if a, ok := st.mem[fv]; ok {
					return a
				}
			}
			if k, ok := e.place(x.X, st); ok {
				return e.member(k, x.Type(), st)
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if al, ok := fa.X.(*ssa.Alloc); ok {
					for k, a := range st.env {
						if o, ok := k.(*ssa.FieldAddr); ok && o.X == ssa.Value(al) && o.Field == fa.Field {
							return a
						}
					}
				}
			}
			if g, ok := x.X.(*ssa.Global); ok {
				return e.W.globalConst(g)
			}
			if r := e.resolve(x, st); r != ssa.Value(x) {
				if a, ok := st.env[r]; ok {
					return a
				}
				if _, isC := r.(*ssa.Const); isC {
					return e.eval(r, st)
				}
			}
		}
	case *ssa.Call:
		return e.fold(x, st)
	case *ssa.Slice:
		if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
			s, ok := e.str(x.X, st)
			if !ok {
				return AUnk()
			}
			lo, hi := int64(0), int64(len(s))
			if x.Low != nil {
				if lo, ok = e.eval(x.Low, st).Int(); !ok {
					return AUnk()
				}
			}
			if x.High != nil {
				if hi, ok = e.eval(x.High, st).Int(); !ok {
					return AUnk()
				}
			}
			if lo >= 0 && lo <= hi && hi <= int64(len(s)) {
				return AStr(s[lo:hi])
			}
		}
	case *ssa.Lookup:
		if m := e.mapOf(x.X, st); m.K == ASymbol {
			id := constant.StringVal(m.C)
			k := e.eval(x.Index, st)
			if _, unknown := st.objs[id+"[?"]; !strings.HasPrefix(id, "map@") || unknown || k.K != ASymbol && k.K != AConst {
				return AUnk()
			}
			v, present := st.objs[id+"["+k.String()+"]"]
			if !present {
				v = zeroOf(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				return AV{K: ATuple, T: []AV{v, ABool(present)}}
			}
			return v
		}
		if s, ok := e.str(x.X, st); ok {
			if i, ok := e.eval(x.Index, st).Int(); ok && i >= 0 && i < int64(len(s)) {
				return AInt(int64(s[i]))
			}
		}
	case *ssa.Index:
		if s, ok := e.str(x.X, st); ok {
			if i, ok := e.eval(x.Index, st).Int(); ok && i >= 0 && i < int64(len(s)) {
				return AInt(int64(s[i]))
			}
		}
	case *ssa.Extract:
		t := e.eval(x.Tuple, st)
		if t.K == ATuple && x.Index < len(t.T) {
			return t.T[x.Index]
		}
	case *ssa.BinOp:
		a, b := e.eval(x.X, st), e.eval(x.Y, st)
		if a.K == AConst && b.K == AConst && a.C.Kind() == b.C.Kind() {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return ABool(constant.Compare(a.C, x.Op, b.C))
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.AND_NOT, token.XOR:
				return AV{K: AConst, C: constant.BinaryOp(a.C, x.Op, b.C)}
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(b.C); ok {
					return AV{K: AConst, C: constant.Shift(a.C, x.Op, uint(n))}
				}
			}
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			nilish := func(p, q AV) bool {
				return p.K == ANil && (q.K == ANonNil || q.K == AConst || q.K == ASymbol || q.K == AList && q.L == nil && st.heap[q.obj] != nil && q.hi.n > q.lo.n)
			}
			switch {
			case a.K == ANil && b.K == ANil:
				return ABool(x.Op == token.EQL)
			case nilish(a, b), nilish(b, a):
				return ABool(x.Op == token.NEQ)
			}
		}
	}
	return AUnk()
}

func (e *Exploration) str(v ssa.Value, st exState) (string, bool) {
	a := e.eval(v, st)
	if a.K == AConst && a.C.Kind() == constant.String {
		return constant.StringVal(a.C), true
	}
	return "", false
}

// fold propagates constants through pure functions on strings.
func (e *Exploration) fold(c *ssa.Call, st exState) AV {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" {
			if al, n := literalArray(c.Call.Args[0]); al != nil {
				return AInt(n)
			}
			if _, isStr := c.Call.Args[0].Type().Underlying().(*types.Basic); !isStr {
				return AUnk()
			}
			if s, ok := e.str(c.Call.Args[0], st); ok {
				return AInt(int64(len(s)))
			}
		}
		return AUnk()
	}
	k := Key(c)
	if k == "fmt.Errorf" || k == "errors.New" {
		return ANonNilV()
	}
	if k == "cmp.Compare" && len(c.Call.Args) == 2 {
		a, b := e.eval(c.Call.Args[0], st), e.eval(c.Call.Args[1], st)
		if a.K == AConst && b.K == AConst && a.C.Kind() == b.C.Kind() && a.C.Kind() != constant.Bool {
			switch {
			case constant.Compare(a.C, token.LSS, b.C):
				return AInt(-1)
			case constant.Compare(a.C, token.GTR, b.C):
				return AInt(1)
			}
			return AInt(0)
		}
		return AUnk()
	}
	if k == "cmp.Or" && len(c.Call.Args) == 1 {
		for _, x := range VarArgs(c.Call.Args[0]) {
			if x == nil {
				return AUnk()
			}
			a := e.eval(x, st)
			if a.K != AConst {
				return AUnk()
			}
			if z := zeroOf(x.Type()); z.K != AConst || !constant.Compare(z.C, token.EQL, a.C) {
				return a
			}
		}
		return AInt(0)
	}
	if k == "errors.Join" && len(c.Call.Args) == 1 {
		known := true
		for _, x := range VarArgs(c.Call.Args[0]) {
			if x == nil {
				known = false
				continue
			}
			switch e.eval(x, st).K {
			case ANonNil, AConst:
				return ANonNilV()
			case AUnknown:
				known = false
			}
		}
		if known && len(VarArgs(c.Call.Args[0])) > 0 {
			return ANilV()
		}
		return AUnk()
	}
	if k == "go/build.IsLocalImport" {
		if s, ok := e.str(c.Call.Args[0], st); ok {
			return ABool(s == "." || s == ".." || strings.HasPrefix(s, "./") || strings.HasPrefix(s, "../"))
		}
		return AUnk()
	}
	if !strings.HasPrefix(k, "strings.") && k != "strconv.ParseBool" && !strings.HasPrefix(k, "path/filepath.") && !strings.HasPrefix(k, "path.") {
		return AUnk()
	}
	if len(c.Call.Args) == 2 {
		s, ok := e.str(c.Call.Args[0], st)
		if n, isInt := e.eval(c.Call.Args[1], st).Int(); ok && isInt {
			switch k {
			case "strings.IndexByte":
				return AInt(int64(strings.IndexByte(s, byte(n))))
			case "strings.LastIndexByte":
				return AInt(int64(strings.LastIndexByte(s, byte(n))))
			case "strings.IndexRune":
				return AInt(int64(strings.IndexRune(s, rune(n))))
			case "strings.ContainsRune":
				return ABool(strings.ContainsRune(s, rune(n)))
			}
			return AUnk()
		}
	}
	var a []string
	for _, x := range c.Call.Args {
		s, ok := e.str(x, st)
		if !ok {
			return AUnk()
		}
		a = append(a, s)
	}
	cut := func(s string, ok bool) AV { return AV{K: ATuple, T: []AV{AStr(s), ABool(ok)}} }
	switch {
	case len(a) == 1:
		switch k {
		case "strconv.ParseBool":
			b, err := strconv.ParseBool(a[0])
			if err != nil {
				return AV{K: ATuple, T: []AV{ABool(false), ANonNilV()}}
			}
			return AV{K: ATuple, T: []AV{ABool(b), ANilV()}}
		case "strings.TrimSpace":
			return AStr(strings.TrimSpace(a[0]))
		case "strings.ToLower":
			return AStr(strings.ToLower(a[0]))
		case "strings.ToUpper":
			return AStr(strings.ToUpper(a[0]))
		case "path/filepath.ToSlash", "path/filepath.FromSlash":
			return AStr(a[0])
		case "path/filepath.Base", "path.Base":
			return AStr(path.Base(a[0]))
		case "path/filepath.Ext", "path.Ext":
			return AStr(path.Ext(a[0]))
		case "path/filepath.Dir", "path.Dir":
			return AStr(path.Dir(a[0]))
		case "path/filepath.Clean", "path.Clean":
			return AStr(path.Clean(a[0]))
		case "path/filepath.IsAbs", "path.IsAbs":
			return ABool(path.IsAbs(a[0]))
		}
	case len(a) == 2:
		switch k {
		case "strings.HasPrefix":
			return ABool(strings.HasPrefix(a[0], a[1]))
		case "strings.HasSuffix":
			return ABool(strings.HasSuffix(a[0], a[1]))
		case "strings.Contains":
			return ABool(strings.Contains(a[0], a[1]))
		case "strings.EqualFold":
			return ABool(strings.EqualFold(a[0], a[1]))
		case "strings.TrimPrefix":
			return AStr(strings.TrimPrefix(a[0], a[1]))
		case "strings.TrimSuffix":
			return AStr(strings.TrimSuffix(a[0], a[1]))
		case "strings.Trim":
			return AStr(strings.Trim(a[0], a[1]))
		case "strings.TrimLeft":
			return AStr(strings.TrimLeft(a[0], a[1]))
		case "strings.TrimRight":
			return AStr(strings.TrimRight(a[0], a[1]))
		case "strings.Index":
			return AInt(int64(strings.Index(a[0], a[1])))
		case "strings.IndexAny":
			return AInt(int64(strings.IndexAny(a[0], a[1])))
		case "strings.LastIndexAny":
			return AInt(int64(strings.LastIndexAny(a[0], a[1])))
		case "strings.ContainsAny":
			return ABool(strings.ContainsAny(a[0], a[1]))
		case "strings.LastIndex":
			return AInt(int64(strings.LastIndex(a[0], a[1])))
		case "strings.Compare":
			return AInt(int64(strings.Compare(a[0], a[1])))
		case "strings.Count":
			return AInt(int64(strings.Count(a[0], a[1])))
		case "strings.CutPrefix":
			return cut(strings.CutPrefix(a[0], a[1]))
		case "strings.CutSuffix":
			return cut(strings.CutSuffix(a[0], a[1]))
		case "strings.Cut":
			x, y, ok := strings.Cut(a[0], a[1])
			return AV{K: ATuple, T: []AV{AStr(x), AStr(y), ABool(ok)}}
		}
	case len(a) == 3 && k == "strings.ReplaceAll":
		return AStr(strings.ReplaceAll(a[0], a[1], a[2]))
	}
	return AUnk()
}

func zeroOf(t types.Type) AV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ABool(false)
		case u.Info()&types.IsString != 0:
			return AStr("")
		case u.Info()&types.IsInteger != 0:
			return AInt(0)
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return ANilV()
	}
	return AUnk()
}

// written: the local is assigned, or its address escapes.
func written(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			if r.Val == ssa.Value(al) {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// globalConst: the value of a package-level variable only assigned by its initialiser.
func (w *World) globalConst(g *ssa.Global) AV {
	var val ssa.Value
	n := 0
	for _, f := range w.Funcs {
		if f.Pkg != g.Pkg && f.Pkg != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					n++
					val = s.Val
				}
			}
		}
	}
	if n == 1 {
		if c, ok := val.(*ssa.Const); ok && c.Value != nil {
			return AV{K: AConst, C: c.Value}
		}
		switch val.(type) {
		case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeMap, *ssa.Call:
			return AUnk()
		}
	}
	return AUnk()
}

// ConstAV returns the string an abstract value is.
func ConstAV(a AV) (string, bool) {
	if a.K != AConst || a.C.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(a.C), true
}
