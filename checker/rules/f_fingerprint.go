package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "F01", Technique: "field-coverage and lossless-carry dataflow of every Hash method; uniqueness of the encodings; order-independence of map hashing", Run: runFingerprint})
}

const fpPkg = "internal/fingerprint"

// hashEv is one value entering the hash: the call, its label (Named calls) and the values.
type hashEv struct {
	ci    ssa.CallInstruction
	label string
	vals  []ssa.Value
}

// variadic lists the elements of a variadic argument built at the call (nil, false when it is an existing slice).
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if isNil(v) {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := eng.Deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	res := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := eng.ConstInt(ia.Index)
		if !ok {
			return nil, false
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == ia {
				res[i] = s.Val
			}
		}
	}
	return res, true
}

func isHasher(t types.Type) bool { return eng.TypeKey(eng.Deref(t)) == fpPkg+".Hasher" }

// hashEvents lists what f hashes, in terms of f's own values; helpers are summarised.
func (c *Ctx) hashEvents(f *ssa.Function, depth int) []hashEv {
	var res []hashEv
	for _, ci := range eng.Calls(f) {
		if _, isGo := ci.(*ssa.Go); isGo {
			continue
		}
		if keyIs(ci, fpPkg+".Hasher.Named") {
			args := ci.Common().Args
			l, _ := eng.ConstString(args[1])
			vals, ok := variadic(args[2])
			if !ok {
				vals = []ssa.Value{args[2]}
			}
			res = append(res, hashEv{ci, l, vals})
			continue
		}
		cm := ci.Common()
		// x.Hash(h)
		o := eng.CalleeObj(ci)
		if o != nil && o.Name() == "Hash" {
			if cm.IsInvoke() && len(cm.Args) == 1 && isHasher(cm.Args[0].Type()) {
				res = append(res, hashEv{ci, "", []ssa.Value{cm.Value}})
				continue
			}
			if len(cm.Args) == 2 && isHasher(cm.Args[1].Type()) {
				res = append(res, hashEv{ci, "", []ssa.Value{cm.Args[0]}})
				continue
			}
		}
		if depth > 3 {
			continue
		}
		takesHasher := false
		for _, a := range cm.Args {
			takesHasher = takesHasher || isHasher(a.Type())
		}
		if !takesHasher {
			continue
		}
		for _, g := range c.W.Callees(ci) {
			if eng.PkgOf(g) == eng.ModPath+"/"+fpPkg || strings.HasSuffix(eng.PkgOf(g), fpPkg) {
				continue
			}
			for _, ev := range c.hashEvents(g, depth+1) {
				if !c.alwaysHashed(g, ev.ci) {
					continue
				}
				e := hashEv{ci: ci, label: ev.label}
				if nc := ev.ci.Common(); e.label == "" && keyIs(ev.ci, fpPkg+".Hasher.Named") {
					if p, ok := nc.Args[1].(*ssa.Parameter); ok {
						for i, q := range g.Params {
							if q == p {
								e.label, _ = eng.ConstString(eng.ArgOf(ci, i))
							}
						}
					}
				}
				for i, p := range g.Params {
					for _, v := range ev.vals {
						if c.W.Carries(v, func(x ssa.Value) bool { return x == ssa.Value(p) }) {
							e.vals = append(e.vals, eng.ArgOf(ci, i))
							break
						}
					}
				}
				res = append(res, e)
			}
		}
	}
	return res
}

// alwaysHashed: the call happens on every path on which f reports success.
func (c *Ctx) alwaysHashed(f *ssa.Function, ci ssa.CallInstruction) bool {
	return c.W.MustDo(f, func(in ssa.Instruction) bool { return in == ssa.Instruction(ci.(ssa.Instruction)) }, c.succeeding, nil) == nil
}

// recvRoot: the selection chain of v starts at f's receiver.
func recvRoot(v ssa.Value, f *ssa.Function) bool {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					return s.Val == ssa.Value(f.Params[0])
				}
			}
			return false
		case *ssa.Parameter:
			return x == f.Params[0]
		default:
			return false
		}
	}
	return false
}

// leafFields expands embedded structs that are not hashable themselves.
func leafFields(t types.Type) []*types.Var {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var res []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if sub := leafFields(eng.Deref(f.Type())); len(sub) > 0 {
				res = append(res, sub...)
				continue
			}
		}
		res = append(res, f)
	}
	return res
}

// Fields which are functions of other (hashed) fields.
var hashDerived = map[string]string{
	"internal/injector/aspect/advice/code.Template.template": "parsed from Source",
}

func (c *Ctx) hashMethods() []*ssa.Function {
	var res []*ssa.Function
	for _, f := range c.W.Funcs {
		if f.Name() != "Hash" || f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		ps := f.Signature.Params()
		if ps.Len() == 1 && isHasher(ps.At(0).Type()) {
			res = append(res, f)
		}
	}
	return res
}

func runFingerprint(c *Ctx) {
	w := c.W
	rCover := c.Rule("hash-covers-every-field", "every Hash method feeds each field of its type, whole and on every successful path, into the hash")
	rErr := c.Rule("hash-error-propagated", "a failure to hash any part is reported")
	rKind := c.Rule("hash-kinds-distinct", "values of different kinds have different encodings (label and shape)")
	rEnc := c.Rule("hash-encoding", "the encoding delimits and numbers every value, collections include their length and all their elements, and maps are hashed in sorted order")
	rLife := c.Rule("hasher-lifecycle", "a hasher starts out empty and its whole sum is the fingerprint")

	type enc struct {
		typ, label string
		shape      string
		pos        string
	}
	var encs []enc
	methods := c.hashMethods()
	c.Count("hash methods", len(methods))
	for _, f := range methods {
		rt := eng.Deref(f.Signature.Recv().Type())
		tk := eng.TypeKey(rt)
		inFP := strings.HasPrefix(tk, fpPkg+".")
		evs := c.hashEvents(f, 0)
		if inFP {
			continue
		}
		carried := func(base func(ssa.Value) bool) bool {
			target := func(v ssa.Value) bool { return base(v) || c.mapCarries(v, base) }
			for _, e := range evs {
				if !c.alwaysHashed(f, e.ci) {
					continue
				}
				for _, v := range e.vals {
					if v != nil && w.Carries(v, target) {
						return true
					}
				}
			}
			return false
		}
		fields := leafFields(rt)
		if fields == nil {
			rCover.Check(carried(func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) || isDerefOf(v, f.Params[0]) }), tk, w.Pos(f.Pos()), "the value of %s does not (completely) enter its hash: configurations which differ in it share a fingerprint", tk)
		}
		for _, fv := range fields {
			fv := fv
			name := tk + "." + fv.Name()
			if why := hashDerived[name]; why != "" {
				rCover.OK(name+" ("+why+")", w.Pos(fv.Pos()))
				continue
			}
			ok := carried(func(v ssa.Value) bool {
				return isField(v, fv.Origin()) && recvRoot(v, f)
			})
			rCover.Check(ok, name, w.Pos(f.Pos()), "the field %s does not (completely, on every path) enter the hash of %s: configurations which differ in it share a fingerprint, and stale build results are reused", fv.Name(), tk)
		}
		for _, e := range evs {
			for _, v := range e.vals {
				if v == nil {
					continue
				}
				at := c.joined(v, func(x ssa.Value) []*types.Var {
					var res []*types.Var
					for _, fv := range fields {
						if w.Carries(x, func(y ssa.Value) bool { return isField(y, fv.Origin()) && recvRoot(y, f) }) {
							res = append(res, fv)
						}
					}
					return res
				})
				if at != nil {
					rEnc.Bad(tk+" values told apart", w.At(at), "several values of %s are run together before they are hashed: configurations which split them differently share a fingerprint", tk)
				}
			}
		}
		nSelf := 0
		for _, e := range evs {
			fate, exit := w.Fate(e.ci)
			rErr.Check(fate == eng.ErrPropagated || returnsCall(e.ci), tk+" "+eng.MKey(e.ci), w.At(e.ci.(ssa.Instruction)), "a failure to hash part of %s is ignored (%s)", tk, atOr(w, exit))
			if e.label != "" && c.alwaysHashed(f, e.ci) {
				nSelf++
				var sh []string
				for _, v := range e.vals {
					sh = append(sh, shapeOf(v))
				}
				encs = append(encs, enc{tk, e.label, strings.Join(sh, ","), w.Pos(f.Pos())})
			}
		}
		rCover.Check(nSelf > 0, tk+" labelled", w.Pos(f.Pos()), "%s is hashed without naming its kind", tk)
	}
	for i, a := range encs {
		clash := ""
		for j, b := range encs {
			if i != j && a.typ != b.typ && a.label == b.label && a.shape == b.shape {
				clash = b.typ
			}
		}
		rKind.Check(clash == "", a.typ+" "+a.label, a.pos, "%s and %s are hashed with the same label %q and shape (%s): exchanging one for the other does not change the fingerprint", a.typ, clash, a.label, a.shape)
	}
	// kinds converted to Hashable although their Hash method is promoted from one of several fields
	for _, f := range w.Funcs {
		instrs([]*ssa.Function{f}, func(_ *ssa.Function, in ssa.Instruction) {
			mi, ok := in.(*ssa.MakeInterface)
			if !ok {
				return
			}
			it, _ := mi.Type().Underlying().(*types.Interface)
			if it == nil {
				return
			}
			isH := false
			for i := 0; i < it.NumMethods(); i++ {
				isH = isH || it.Method(i).Name() == "Hash"
			}
			if !isH {
				return
			}
			obj, path, _ := types.LookupFieldOrMethod(mi.X.Type(), true, nil, "Hash")
			if _, isF := obj.(*types.Func); isF && len(path) > 1 {
				n := len(structFieldsOf(mi.X.Type()))
				rCover.Check(n <= 1, short(f)+" uses promoted Hash of "+eng.TypeKey(mi.X.Type()), w.At(in), "%s is hashed by the promoted Hash method of one of its %d fields", eng.TypeKey(mi.X.Type()), n)
			}
		})
	}
	rCover.Min(60)
	rErr.Min(25)
	rKind.Min(28)

	// the hasher
	hf := rEnc.Field(fpPkg, "Hasher", "hash")
	isSum := func(v ssa.Value) bool { return hf != nil && isFieldVal(v, hf) }
	writes := func(ci ssa.CallInstruction) (ssa.Value, bool) {
		switch eng.Key(ci) {
		case "io.WriteString":
			return ci.Common().Args[1], isSum(ci.Common().Args[0])
		case "io.Writer.Write", "hash.Hash.Write", "io.Writer.(interface).Write":
			return ci.Common().Args[0], isSum(ci.Common().Value)
		}
		if o := eng.CalleeObj(ci); o != nil && o.Name() == "Write" && ci.Common().IsInvoke() {
			return ci.Common().Args[0], isSum(ci.Common().Value)
		}
		if eng.Key(ci) == "fmt.Fprintf" || eng.Key(ci) == "fmt.Fprint" {
			return ci.Common().Args[len(ci.Common().Args)-1], isSum(ci.Common().Args[0])
		}
		return nil, false
	}
	writeOf := func(pred func(ssa.Value) bool) eng.Event {
		return func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			v, ok := writes(ci)
			return ok && w.Carries(v, pred)
		}
	}
	constWrite := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		v, ok := writes(ci)
		return ok && c.constBytes(v) != ""
	}
	if f := rEnc.Fn(fpPkg, "Hasher.Named"); f != nil {
		region := c.Region(f)
		isName := func(v ssa.Value) bool { return v == ssa.Value(f.Params[1]) }
		c.mustDo(rEnc, "Named writes the name", f, writeOf(isName), c.succeeding, nil, "the name is not always part of the encoding")
		var loop *eng.Loop
		for _, l := range eng.Loops(f) {
			if l.Over == ssa.Value(f.Params[2]) {
				loop = l
			}
		}
		if !rEnc.Check(loop != nil, "Named visits the values", w.Pos(f.Pos()), "the values are not ranged over") {
			return
		}
		hashElem := w.LiftEvent(func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Hash" && loop.IsElem(ci.Common().Value)
		})
		rEnc.Check(loop.Always(hashElem, nil) && w.EarlyExit(loop, nil) == nil, "Named hashes every value", w.Pos(f.Pos()), "some value is left out of the hash")
		rEnc.Check(loop.Always(w.LiftEvent(constWrite), nil) || loop.Always(w.LiftEvent(writeOf(loop.IsKey)), nil), "Named delimits values", w.Pos(f.Pos()), "consecutive values are not delimited: different splits of the same text share a hash")
		delimAfterName := false
		for _, ci := range eng.CallsIn(region) {
			if v, ok := writes(ci); ok && w.Carries(v, isName) {
				for _, x := range eng.CallsIn(region) {
					if constWrite(x.(ssa.Instruction)) && eng.Dominates(ci.(ssa.Instruction), x.(ssa.Instruction)) && x.Block().Dominates(loop.Header) {
						delimAfterName = true
					}
				}
			}
		}
		rEnc.Check(delimAfterName, "Named delimits the name", w.Pos(f.Pos()), "the name is not delimited from the values")
		for _, ci := range eng.CallsIn(region) {
			if _, ok := writes(ci); ok || (ci.Common().IsInvoke() && ci.Common().Method.Name() == "Hash") {
				fate, exit := w.Fate(ci)
				rErr.Check(fate == eng.ErrPropagated || returnsCall(ci), "Named "+eng.MKey(ci), w.At(ci.(ssa.Instruction)), "a failed write is ignored (%s)", atOr(w, exit))
			}
		}
	}
	for _, name := range []string{"String.Hash", "Bool.Hash", "Int.Hash"} {
		if f := rEnc.Fn(fpPkg, name); f != nil {
			c.mustDo(rEnc, name, f, writeOf(func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) }), nil, nil, "the value does not (completely) enter the hash")
		}
	}
	for _, x := range []struct{ fn, what string }{{"List.Hash", "list"}, {"mapped.Hash", "map"}} {
		f := rEnc.Fn(fpPkg, x.fn)
		if f == nil {
			continue
		}
		evs := c.hashEvents(f, 0)
		all, n := false, false
		for _, e := range evs {
			if !c.alwaysHashed(f, e.ci) {
				continue
			}
			for _, v := range e.vals {
				all = all || w.Carries(v, func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) })
				n = n || c.derives(v, func(o ssa.Value) bool {
					call, ok := o.(*ssa.Call)
					if !ok {
						return false
					}
					b, ok := call.Call.Value.(*ssa.Builtin)
					return ok && b.Name() == "len" && call.Call.Args[0] == ssa.Value(f.Params[0])
				})
			}
		}
		rEnc.Check(all, x.fn+" elements", w.Pos(f.Pos()), "some elements of a %s do not enter the hash", x.what)
		rEnc.Check(n, x.fn+" length", w.Pos(f.Pos()), "the length of a %s does not enter the hash", x.what)
	}
	if f := rEnc.Fn(fpPkg, "mappedItem.Hash"); f != nil {
		kf, vf := rEnc.Field(fpPkg, "mappedItem", "key"), rEnc.Field(fpPkg, "mappedItem", "val")
		okK, okV := false, false
		for _, ci := range eng.Calls(f) {
			if !c.alwaysHashed(f, ci) {
				continue
			}
			for _, a := range ci.Common().Args {
				okK = okK || w.Carries(a, func(v ssa.Value) bool { return isField(v, kf) })
				okV = okV || w.Carries(a, func(v ssa.Value) bool { return isField(v, vf) })
			}
		}
		rEnc.Check(okK, "map keys", w.Pos(f.Pos()), "the key of a map entry does not enter the hash")
		rEnc.Check(okV, "map values", w.Pos(f.Pos()), "the value of a map entry does not enter the hash")
	}
	if f := rEnc.Fn(fpPkg, "Cast"); f != nil {
		ok := len(eng.Returns(f)) > 0
		for _, r := range eng.Returns(f) {
			ok = ok && w.Carries(r.Results[0], func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) })
		}
		rEnc.Check(ok, "Cast keeps all elements", w.Pos(f.Pos()), "converting a list for hashing drops elements")
	}
	if f := rEnc.Fn(fpPkg, "Map"); f != nil {
		kf := rEnc.Field(fpPkg, "mappedItem", "key")
		var loop *eng.Loop
		for _, l := range eng.Loops(f) {
			if l.Over == ssa.Value(f.Params[0]) {
				loop = l
			}
		}
		if rEnc.Check(loop != nil, "Map visits entries", w.Pos(f.Pos()), "the map is not ranged over") {
			app := func(in ssa.Instruction) bool {
				call, ok := in.(*ssa.Call)
				if !ok {
					return false
				}
				b, ok := call.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "append"
			}
			rEnc.Check(loop.Always(w.LiftEvent(app), nil) && w.EarlyExit(loop, nil) == nil, "Map keeps all entries", w.Pos(f.Pos()), "converting a map for hashing drops entries")
		}
		for i, r := range eng.Returns(f) {
			ok, _ := w.MustPrecede(r, w.CallEvent(func(ci ssa.CallInstruction) bool { return isSortCall(ci) }), nil)
			rEnc.Check(ok, "Map sorts entries "+itoa(i), w.At(r), "map entries are hashed in iteration order: equal configurations get different fingerprints")
		}
		for _, ci := range eng.CallsIn(c.Region(f)) {
			if !isSortCall(ci) {
				continue
			}
			okC := false
			for _, g := range closureArgs(c, ci.Common().Args[len(ci.Common().Args)-1]) {
				for _, r := range eng.Returns(g) {
					if c.derivesField(r.Results[0], kf) {
						okC = true
					}
				}
			}
			rEnc.Check(okC, "Map sorts by key", w.At(ci.(ssa.Instruction)), "map entries are not ordered by their key")
		}
	}
	rEnc.Min(15)

	if f := rLife.Fn(fpPkg, "Hasher.Close"); f != nil {
		for _, ci := range eng.CallsIn(c.Region(f)) {
			if eng.Key(ci) == "sync.Pool.Put" {
				ok, _ := w.MustPrecede(ci.(ssa.Instruction), w.CallEvent(func(x ssa.CallInstruction) bool {
					o := eng.CalleeObj(x)
					return o != nil && o.Name() == "Reset"
				}), nil)
				rLife.Check(ok, "reset before reuse", w.At(ci.(ssa.Instruction)), "a hasher is reused with the state of its previous use: fingerprints depend on what was hashed before")
			}
		}
	}
	if f := rLife.Fn(fpPkg, "Hasher.Finish"); f != nil {
		ok := false
		for _, r := range eng.Returns(f) {
			ok = c.derives(r.Results[0], func(o ssa.Value) bool {
				call := callOf(o)
				return call != nil && call.Call.IsInvoke() && call.Call.Method.Name() == "Sum" && isSum(call.Call.Value)
			})
			if c.derives(r.Results[0], func(o ssa.Value) bool {
				sl, isS := o.(*ssa.Slice)
				if !isS || sl.High == nil && sl.Low == nil {
					return false
				}
				// an empty prefix of a buffer to append to is fine
				if n, isC := eng.ConstInt(sl.High); sl.High != nil && isC && n == 0 {
					return false
				}
				return true
			}) {
				ok = false
			}
		}
		rLife.Check(ok, "whole sum", w.Pos(f.Pos()), "the fingerprint is not the whole hash")
	}
	if f := rLife.Fn(fpPkg, "Fingerprint"); f != nil {
		c.mustDo(rLife, "Fingerprint hashes its argument", f, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Hash" && ci.Common().Value == ssa.Value(f.Params[0])
		}, c.succeeding, func(l eng.Lit) bool {
			return nilLit(l, func(v ssa.Value) bool { return v == ssa.Value(f.Params[0]) }) == "nil"
		}, "the value is not always hashed")
		for _, ci := range eng.Calls(f) {
			if ci.Common().IsInvoke() && ci.Common().Method.Name() == "Hash" {
				checkFate(c, rErr, ci)
			}
		}
		// nothing is read from a hasher that was returned to the pool
		for _, x := range w.FuncsIn(fpPkg) {
			for _, ci := range eng.Calls(x) {
				if keyIs(ci, fpPkg+".Hasher.Close") {
					if _, isD := ci.(*ssa.Defer); isD {
						continue
					}
					for _, y := range eng.Calls(x) {
						if keyIs(y, fpPkg+".Hasher.Finish", fpPkg+".Hasher.Named") && eng.CanReach(ci.(ssa.Instruction), y.(ssa.Instruction)) {
							rLife.Bad(short(x)+" uses closed hasher", w.At(y.(ssa.Instruction)), "a hasher is used after it was given back")
						}
					}
				}
			}
		}
	}
	rLife.Min(3)
}

// mapCarries: v is the sorted form (see Map's own obligations) of a whole map accepted by target.
func (c *Ctx) mapCarries(v ssa.Value, target func(ssa.Value) bool) bool {
	call, ok := v.(*ssa.Call)
	if !ok || !keyIs(call, fpPkg+".Map") || !c.W.Carries(call.Call.Args[0], target) {
		return false
	}
	fs := closureArgs(c, call.Call.Args[1])
	for _, g := range fs {
		for _, r := range eng.Returns(g) {
			for i := range r.Results {
				if i < len(g.Params) && !c.W.Carries(r.Results[i], func(x ssa.Value) bool { return x == ssa.Value(g.Params[i]) }) {
					return false
				}
			}
		}
	}
	return len(fs) > 0
}

func isDerefOf(v ssa.Value, p ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	if u.X == p {
		return true
	}
	if al, ok := u.X.(*ssa.Alloc); ok {
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == al {
				return s.Val == p
			}
		}
	}
	return false
}

func structFieldsOf(t types.Type) []*types.Var {
	st, ok := eng.Deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var res []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		res = append(res, st.Field(i))
	}
	return res
}

// shapeOf describes how a hashed value is encoded.
func shapeOf(v ssa.Value) string {
	v = eng.ResolveLocal(v)
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		if v == nil {
			return "?"
		}
		return "any"
	}
	k := eng.TypeKey(eng.Deref(mi.X.Type()))
	switch {
	case k == fpPkg+".String", k == fpPkg+".Int", k == fpPkg+".Bool":
		return "raw"
	case strings.HasPrefix(k, fpPkg+".List"):
		return "list"
	case strings.HasPrefix(k, fpPkg+".mapped"):
		return "map"
	}
	return k
}

func isSortCall(ci ssa.CallInstruction) bool {
	switch eng.Key(ci) {
	case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable", "sort.Strings", "slices.Sort", "sort.Sort", "sort.Stable", "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc":
		return true
	}
	return false
}

func itoa(i int) string { return string(rune('0' + i%10)) }

// constBytes: the constant text of a string or of a []byte literal ("" if it is not constant).
func (c *Ctx) constBytes(v ssa.Value) string {
	if s, ok := eng.ConstString(v); ok {
		return s
	}
	v = eng.ResolveLocal(v)
	if s, ok := eng.ConstString(v); ok {
		return s
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return ""
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return ""
	}
	m := map[int64]byte{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := eng.ConstInt(ia.Index)
		if !ok {
			return ""
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok {
				n, ok := eng.ConstInt(s.Val)
				if !ok {
					return ""
				}
				m[i] = byte(n)
			}
		}
	}
	var ks []int
	for k := range m {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	res := ""
	for _, k := range ks {
		res += string(rune(m[int64(k)]))
	}
	return res
}

// joined finds where different values (as told by has) are concatenated without a delimiter on the way to v.
func (c *Ctx) joined(v ssa.Value, has func(ssa.Value) []*types.Var) ssa.Instruction {
	seen := map[ssa.Value]bool{}
	differ := func(a, b ssa.Value) bool {
		for _, x := range has(a) {
			for _, y := range has(b) {
				if x != y {
					return true
				}
			}
		}
		return false
	}
	var walk func(v ssa.Value) ssa.Instruction
	walk = func(v ssa.Value) ssa.Instruction {
		if v == nil || seen[v] {
			return nil
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok {
			return nil
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			l := concat(x)
			for i := 1; i < len(l); i++ {
				if differ(l[i-1], l[i]) {
					return in
				}
			}
			return nil
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 && differ(x.Call.Args[0], x.Call.Args[1]) {
				if el := eng.VarArgs(x.Call.Args[1]); el == nil {
					return in
				}
			}
			if eng.Key(x) == "slices.Concat" {
				el := eng.VarArgs(x.Call.Args[0])
				for i := 1; i < len(el); i++ {
					if el[i-1] != nil && el[i] != nil && differ(el[i-1], el[i]) {
						return in
					}
				}
			}
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == v {
						if at := walk(r.Val); at != nil {
							return at
						}
					}
				case *ssa.FieldAddr, *ssa.IndexAddr:
					for _, rr := range useRefs(r.(ssa.Value)) {
						if s, ok := rr.(*ssa.Store); ok {
							if at := walk(s.Val); at != nil {
								return at
							}
						}
					}
				}
			}
		}
		for _, op := range in.Operands(nil) {
			if at := walk(*op); at != nil {
				return at
			}
		}
		return nil
	}
	return walk(v)
}

// concat flattens a string concatenation.
func concat(v ssa.Value) []ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return append(concat(b.X), concat(b.Y)...)
	}
	return []ssa.Value{v}
}
