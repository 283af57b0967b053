package rules

import (
	"encoding/json"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "C01", Technique: "correspondence of the configuration schema with the decoders: value provenance from each decoded property to the object built, abstract interpretation of the mode decoders, and language inclusion between the name patterns", Run: runSchema})
}

// runSchema decides C01.
func runSchema(c *Ctx) {
	rKinds := c.Rule("C01.kinds", "every documented kind is understood under its own name, and builds an object of that kind")
	rProps := c.Rule("C01.properties", "every value given for a documented property is part of the object built")
	rModes := c.Rule("C01.modes", "every documented mode is understood and distinguished, any other is an error")
	rDisp := c.Rule("C01.dispatch", "the kind named decides what is built; unknown kinds are errors")
	rAsp := c.Rule("C01.aspect", "an aspect has everything its entry gives it; one without join point or advice is an error")
	rNames := c.Rule("C01.names", "every Go name the schema admits is accepted")

	s := c.loadSchema(rKinds)
	if s == nil {
		return
	}
	for _, k := range []struct{ def, pkg, iface string }{{"JoinPoint", "internal/injector/aspect/join", "Point"}, {"Advice", "internal/injector/aspect/advice", "Advice"}} {
		s.kinds(rKinds, rProps, k.def, k.pkg, k.iface)
		s.dispatch(rDisp, k.pkg, k.iface)
	}
	s.singletons(rDisp)
	s.options(rKinds, rProps)
	s.modes(rModes)
	s.template(rProps)
	s.aspects(rAsp)
	s.names(rNames)
	rNames.Min(3)
}

// schema is the configuration schema, and what the code knows of it.
type schema struct {
	envs map[string]map[*ssa.FreeVar]*ssa.Function // functions captured by the decoders
	env  map[*ssa.FreeVar]*ssa.Function

	*Ctx
	root   map[string]any
	enums  map[*types.Named]enumUse
	parsed []parse // the texts that are parsed with a pattern
	labels map[string]string
}

type enumUse struct {
	label string
	vals  []string
	def   string
}

type parse struct {
	label string
	ref   string // which definition of the schema the text conforms to
	fn    *ssa.Function
}

func (c *Ctx) loadSchema(r *R) *schema {
	b, err := os.ReadFile(filepath.Join(c.W.Repo, "internal/injector/config/schema.json"))
	if err != nil {
		r.Bad("schema", "-", "%v", err)
		return nil
	}
	s := &schema{Ctx: c, enums: map[*types.Named]enumUse{}, labels: map[string]string{}}
	if err := json.Unmarshal(b, &s.root); err != nil {
		r.Bad("schema", "-", "%v", err)
		return nil
	}
	return s
}

// deref follows references.
func (s *schema) deref(v any) (map[string]any, string) {
	m, _ := v.(map[string]any)
	ref := ""
	for m != nil {
		t, ok := m["$ref"].(string)
		if !ok || !strings.HasPrefix(t, "#/") {
			return m, ref
		}
		ref = t
		var cur any = s.root
		for _, p := range strings.Split(t[2:], "/") {
			mm, _ := cur.(map[string]any)
			cur = mm[p]
		}
		m, _ = cur.(map[string]any)
	}
	return nil, ref
}

// alt is one form a value can have.
type alt struct {
	typ   string // string, boolean, integer, array, object, map, join-point, advice, template, any
	ref   string
	props map[string]any
	tmpl  bool // has the properties of a code template besides
	items any
	enum  []string
	def   any
}

// alts lists the forms a schema admits.
func (s *schema) alts(v any) []alt {
	m, ref := s.deref(v)
	if m == nil {
		return nil
	}
	switch {
	case strings.HasSuffix(ref, "/JoinPoint"):
		return []alt{{typ: "join-point", ref: ref}}
	case strings.HasSuffix(ref, "/Advice"):
		return []alt{{typ: "advice", ref: ref}}
	case strings.HasSuffix(ref, "/code-template"):
		return []alt{{typ: "template", ref: ref}}
	}
	if all, ok := m["allOf"].([]any); ok {
		res := alt{typ: "object", props: map[string]any{}}
		for _, a := range all {
			for _, x := range s.alts(a) {
				if x.typ == "template" {
					res.tmpl = true
				}
				for k, p := range x.props {
					res.props[k] = p
				}
			}
		}
		return []alt{res}
	}
	a := alt{ref: ref, def: m["default"]}
	if ps, ok := m["properties"].(map[string]any); ok {
		a.typ, a.props = "object", ps
	}
	if t, ok := m["type"].(string); ok {
		a.typ = t
		if t == "object" && a.props == nil && m["oneOf"] == nil {
			a.typ = "map"
		}
		a.items = m["items"]
		if es, ok := m["enum"].([]any); ok {
			for _, e := range es {
				if t, ok := e.(string); ok {
					a.enum = append(a.enum, t)
				}
			}
		}
		return []alt{a}
	}
	if _, ok := m["const"]; ok {
		return nil
	}
	if one, ok := m["oneOf"].([]any); ok {
		var res []alt
		for _, o := range one {
			res = append(res, s.alts(o)...)
		}
		return merge(res)
	}
	return []alt{a}
}

// merge puts the properties of alternative objects together.
func merge(as []alt) []alt {
	var res []alt
	obj := -1
	for _, a := range as {
		dup := false
		if a.typ == "object" {
			if obj >= 0 {
				for k, p := range a.props {
					res[obj].props[k] = p
				}
				continue
			}
			ps := map[string]any{}
			for k, p := range a.props {
				ps[k] = p
			}
			a.props = ps
			obj = len(res)
		} else {
			for _, b := range res {
				dup = dup || b.typ == a.typ
			}
		}
		if !dup {
			res = append(res, a)
		}
	}
	return res
}

// documented lists the kinds of a definition with the schema of their value.
func (s *schema) documented(def string) map[string]any {
	res := map[string]any{}
	m, _ := s.deref(map[string]any{"$ref": "#/$defs/" + def})
	one, _ := m["oneOf"].([]any)
	for _, o := range one {
		k, _ := s.deref(o)
		ps, _ := k["properties"].(map[string]any)
		for n, p := range ps {
			res[n] = p
		}
	}
	return res
}

const yamlDecode = "internal/yaml.NodeToValueContext"

// decodeCall tells whether a call decodes a node into a variable.
func (s *schema) decodeCall(in ssa.Instruction) (call *ssa.Call, node, dest ssa.Value) {
	call, ok := in.(*ssa.Call)
	if !ok {
		return nil, nil, nil
	}
	if eng.MKey(call) == yamlDecode && len(call.Call.Args) == 3 {
		return call, call.Call.Args[1], eng.Unwrap(call.Call.Args[2])
	}
	// a helper handing its arguments on
	g := call.Call.StaticCallee()
	if g == nil || len(g.Blocks) == 0 || strings.HasPrefix(eng.FKey(g), "internal/yaml.") {
		return nil, nil, nil
	}
	for _, b := range g.Blocks {
		for _, gi := range b.Instrs {
			c2, ok := gi.(*ssa.Call)
			if !ok || eng.MKey(c2) != yamlDecode || len(c2.Call.Args) != 3 {
				continue
			}
			arg := func(v ssa.Value) ssa.Value {
				p, ok := eng.ResolveLocal(eng.Unwrap(v)).(*ssa.Parameter)
				if !ok {
					return nil
				}
				for i, q := range g.Params {
					if q == p {
						return eng.ArgOf(call, i)
					}
				}
				return nil
			}
			n, d := arg(c2.Call.Args[1]), arg(c2.Call.Args[2])
			if n == nil || d == nil {
				continue
			}
			if s.W.MustDo(g, func(in ssa.Instruction) bool { return in == gi }, s.W.MaySucceed, nil) == nil {
				return call, n, eng.Unwrap(d)
			}
		}
	}
	return nil, nil, nil
}

// filled finds the calls decoding into a variable.
func (s *schema) filled(al *ssa.Alloc) (call *ssa.Call, node ssa.Value) {
	for _, b := range al.Parent().Blocks {
		for _, in := range b.Instrs {
			if cl, n, d := s.decodeCall(in); cl != nil && d == ssa.Value(al) {
				return cl, n
			}
		}
	}
	return nil, nil
}

// nodeOf: the nodes built or named by a call (those of a singleton included).
func (s *schema) via(prop string) eng.Via {
	return eng.Via{
		Call: func(c *ssa.Call, idx int) ssa.Value {
			g := c.Call.StaticCallee()
			if g == nil {
				return nil
			}
			sig := g.Signature
			switch {
			case g.Name() == "FromYAML" && idx == 0 && sig.Params().Len() == 2:
				return c.Call.Args[1]
			case eng.FKey(g) == "internal/injector/typed.NewTypeName" && idx == 0:
				return c.Call.Args[0]
			}
			return nil
		},
		Load: func(al *ssa.Alloc, last *ssa.Store) ssa.Value {
			call, n := s.filled(al)
			if call == nil || last != nil && eng.Dominates(call, last) {
				return nil
			}
			return n
		},
		Sel: func(fv *types.Var) bool { return prop != "" && fv != nil && s.decodes(fv, prop) },
	}
}

// decodes: the field of a struct that is decoded receives the property.
func (s *schema) decodes(fv *types.Var, prop string) bool {
	st := s.structOf(fv)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == fv {
			name, inline := yamlName(st, i)
			if inline {
				return s.inlined(fv.Type(), prop)
			}
			return name == prop
		}
	}
	return false
}

// inlined: the inlined type takes the property.
func (s *schema) inlined(t types.Type, prop string) bool {
	n := eng.NamedOf(t)
	if n != nil && n.Obj().Name() == "Template" {
		m, _ := s.deref(map[string]any{"$ref": "#/$defs/code-template"})
		ps, _ := m["properties"].(map[string]any)
		return ps[prop] != nil || prop == "{template}"
	}
	st, ok := eng.Deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		name, inline := yamlName(st, i)
		if !inline && name == prop {
			return true
		}
	}
	return false
}

// structOf finds the struct (of a decoded variable) a field belongs to.
func (s *schema) structOf(fv *types.Var) *types.Struct {
	var res *types.Struct
	var in func(t types.Type, d int)
	in = func(t types.Type, d int) {
		if res != nil || d > 3 {
			return
		}
		switch x := t.Underlying().(type) {
		case *types.Pointer:
			in(x.Elem(), d+1)
		case *types.Slice:
			in(x.Elem(), d+1)
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if x.Field(i) == fv {
					res = x
				}
				if _, inl := yamlName(x, i); inl {
					in(x.Field(i).Type(), d+1)
				}
			}
		}
	}
	for _, f := range s.W.Funcs {
		if !strings.HasPrefix(eng.PkgOf(f), eng.ModPath+"/internal/injector") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if cl, _, d := s.decodeCall(ins); cl != nil && d != nil {
					in(d.Type(), 0)
				}
			}
		}
	}
	return res
}

// yamlName is the name under which the decoder looks for a field.
func yamlName(st *types.Struct, i int) (string, bool) {
	parts := strings.Split(structTag(st.Tag(i), "yaml"), ",")
	for _, p := range parts[1:] {
		if p == "inline" {
			return "", true
		}
	}
	if parts[0] == "-" || !st.Field(i).Exported() {
		return "", false
	}
	if parts[0] != "" {
		return parts[0], false
	}
	return strings.ToLower(st.Field(i).Name()), false
}

// builders finds the decoders registered for each kind.
func (s *schema) builders(r *R, pkg, iface string) map[string][]*ssa.Function {
	res := map[string][]*ssa.Function{}
	var global *ssa.Global
	for _, g := range s.W.Globals(pkg) {
		m, ok := eng.Deref(g.Type()).Underlying().(*types.Map)
		if !ok {
			continue
		}
		sig, ok := m.Elem().Underlying().(*types.Signature)
		if ok && sig.Results().Len() == 2 && eng.NamedOf(sig.Results().At(0).Type()) == s.W.Type(pkg, iface) {
			global = g
		}
	}
	if global == nil {
		r.Bad("anchor registry "+iface, "-", "no table of decoders found")
		return nil
	}
	fns := func(k string, v ssa.Value) []*ssa.Function {
		var res []*ssa.Function
		s.W.Origins(v, func(o ssa.Value) eng.Step {
			switch x := o.(type) {
			case *ssa.Function:
				res = append(res, x)
			case *ssa.MakeClosure:
				res = append(res, x.Fn.(*ssa.Function))
				s.bind(k, x, v)
				return eng.Stop
			}
			return eng.Follow
		})
		return res
	}
	for _, f := range s.W.FuncsIn(pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				if mt, ok := mu.Map.Type().Underlying().(*types.Map); !ok || !types.Identical(mt, eng.Deref(global.Type()).Underlying()) {
					continue
				}
				key, val := mu.Key, mu.Value
				if k, ok := eng.ConstString(key); ok {
					res[k] = append(res[k], fns(k, val)...)
					continue
				}
				p, ok := eng.ResolveLocal(key).(*ssa.Parameter)
				if !ok {
					r.Bad("registered kind", s.W.At(in), "a decoder is registered under a name which is not known")
					continue
				}
				arg := func(v ssa.Value, ci ssa.CallInstruction) ssa.Value {
					q, ok := eng.ResolveLocal(v).(*ssa.Parameter)
					if !ok {
						return v
					}
					for i, x := range f.Params {
						if x == q {
							return eng.ArgOf(ci, i)
						}
					}
					return nil
				}
				for _, ci := range s.W.Callers(f) {
					if k, ok := eng.ConstString(arg(p, ci)); ok {
						res[k] = append(res[k], fns(k, arg(val, ci))...)
					} else {
						r.Bad("registered kind", s.W.At(ci), "a decoder is registered under a name which is not known")
					}
				}
			}
		}
	}
	return res
}

// bind notes the functions captured by the decoder of a kind, as given to the call making it.
func (s *schema) bind(kind string, mc *ssa.MakeClosure, made ssa.Value) {
	env := map[*ssa.FreeVar]*ssa.Function{}
	call := callOf(eng.ResolveLocal(eng.Unwrap(made)))
	for i, b := range mc.Bindings {
		v := eng.ResolveLocal(b)
		if al, ok := v.(*ssa.Alloc); ok {
			if sts := cellStores(s.Ctx, al); len(sts) == 1 {
				v = eng.ResolveLocal(sts[0].Val)
			}
		}
		if p, ok := v.(*ssa.Parameter); ok && call != nil && call.Call.StaticCallee() == p.Parent() {
			for j, q := range p.Parent().Params {
				if q == p {
					v = eng.ResolveLocal(eng.Unwrap(eng.ArgOf(call, j)))
				}
			}
		}
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		fv := mc.Fn.(*ssa.Function).FreeVars[i]
		switch x := v.(type) {
		case *ssa.Function:
			env[fv] = x
		case *ssa.MakeClosure:
			env[fv] = x.Fn.(*ssa.Function)
		}
	}
	if s.envs == nil {
		s.envs = map[string]map[*ssa.FreeVar]*ssa.Function{}
	}
	s.envs[kind] = env
}

// kinds checks the decoder of each documented kind.
func (s *schema) kinds(rK, rP *R, def, pkg, iface string) {
	docs := s.documented(def)
	regs := s.builders(rK, pkg, iface)
	if regs == nil {
		return
	}
	names := keysOf(docs)
	sort.Strings(names)
	for _, k := range names {
		fs := regs[k]
		if !rK.Check(len(fs) == 1, def+" "+k, s.first(fs), "the %s %q is documented, but %d decoders are registered for it", def, k, len(fs)) {
			continue
		}
		s.env = s.envs[k]
		s.labelled(rK, def+" "+k, fs[0], k, docs)
		s.env = nil
		s.value(rP, def+" "+k, fs[0], nodeParam(fs[0]), docs[k])
	}
	rK.Check(len(names) >= 8, def+" kinds", "-", "only %d kinds are documented", len(names))
}

func (s *schema) first(fs []*ssa.Function) string {
	if len(fs) == 0 {
		return "-"
	}
	return s.W.Pos(fs[0].Pos())
}

func nodeParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if n := eng.NamedOf(p.Type()); n != nil && n.Obj().Name() == "Node" {
			return p
		}
	}
	return nil
}

// built lists the types a function can return (or store) as an interface.
func (s *schema) built(v ssa.Value) []types.Type {
	var res []types.Type
	s.W.Origins(v, func(o ssa.Value) eng.Step {
		switch x := o.(type) {
		case *ssa.MakeInterface:
			res = append(res, x.X.Type())
			return eng.Stop
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && g.Name() == "FromYAML" {
				return eng.Stop
			}
			fv, _ := x.Call.Value.(*ssa.FreeVar)
			if ld, ok := x.Call.Value.(*ssa.UnOp); ok && ld.Op == token.MUL {
				fv, _ = ld.X.(*ssa.FreeVar)
			}
			if g := s.env[fv]; fv != nil && g != nil {
				for _, rt := range eng.Returns(g) {
					if s.succeeding(rt) && len(rt.Results) > 0 {
						res = append(res, s.built(rt.Results[0])...)
					}
				}
				return eng.Stop
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if g := cl.Call.StaticCallee(); g != nil && g.Name() == "FromYAML" {
					return eng.Stop
				}
			}
		}
		return eng.Follow
	})
	return res
}

// labelOf is the name under which a type of object is fingerprinted.
func (s *schema) labelOf(t types.Type) string {
	n := eng.NamedOf(t)
	if n == nil {
		return ""
	}
	m := s.method(n, "Hash")
	if m == nil {
		return ""
	}
	label := ""
	for _, f := range s.Region(m) {
		for _, ci := range eng.Calls(f) {
			if strings.HasSuffix(eng.MKey(ci), "fingerprint.Hasher.Named") && f == m {
				if l, ok := eng.ConstString(eng.ArgOf(ci, 1)); ok {
					label = l
				}
			}
		}
	}
	return label
}

// labelled: what is built for a kind is an object of that kind.
func (s *schema) labelled(r *R, name string, f *ssa.Function, kind string, docs map[string]any) {
	n := 0
	for _, rt := range eng.Returns(f) {
		if !s.succeeding(rt) {
			continue
		}
		for _, t := range s.built(rt.Results[0]) {
			n++
			l := s.labelOf(t)
			r.Check(l == kind || docs[l] == nil, name+" builds", s.W.At(rt), "what is built for %q is a %s", kind, l)
			ty := types.TypeString(t, nil)
			if other, ok := s.labels[ty]; ok && other != name {
				r.Bad(name+" distinct", s.W.At(rt), "the same object is built for %s and for %s", other, name)
			}
			s.labels[ty] = name
		}
	}
	r.Check(n > 0, name+" built", s.W.Pos(f.Pos()), "nothing is built for %q", kind)
}

// target is a result to be built: a returned value, or the fields of a receiver.
type sink struct {
	at  *ssa.Return
	has func(via eng.Via, target func(ssa.Value) bool) bool
}

func (s *schema) returned(f *ssa.Function) []sink {
	var res []sink
	for _, rt := range eng.Returns(f) {
		if !s.succeeding(rt) {
			continue
		}
		res = append(res, sink{rt, func(via eng.Via, target func(ssa.Value) bool) bool {
			return s.W.CarriesThrough(rt.Results[0], via, target)
		}})
	}
	return res
}

// received: a method fills its receiver.
func (s *schema) received(f *ssa.Function) []sink {
	var res []sink
	recv := f.Params[0]
	var reach func(addr ssa.Value) bool
	reach = func(addr ssa.Value) bool {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			return reach(x.X)
		case *ssa.UnOp:
			return x.Op == token.MUL && reach(x.X)
		}
		return eng.ResolveLocal(addr) == ssa.Value(recv)
	}
	for _, rt := range eng.Returns(f) {
		if !s.succeeding(rt) {
			continue
		}
		res = append(res, sink{rt, func(via eng.Via, target func(ssa.Value) bool) bool {
			ok, _ := s.W.MustPrecede(rt, func(in ssa.Instruction) bool {
				st, ok := in.(*ssa.Store)
				return ok && st.Parent() == f && reach(st.Addr) && s.W.CarriesThrough(st.Val, via, target)
			}, nil)
			return ok
		}})
	}
	return res
}

// value checks that every form the schema admits for the value of a node becomes part of what f returns.
func (s *schema) value(r *R, name string, f *ssa.Function, node ssa.Value, sch any) {
	if node == nil {
		r.Bad(name+" node", s.W.Pos(f.Pos()), "the node decoded is not known")
		return
	}
	s.into(r, name, f, node, sch, s.returned(f))
}

func (s *schema) into(r *R, name string, f *ssa.Function, node ssa.Value, sch any, sinks []sink) {
	w := s.W
	as := s.alts(sch)
	if len(as) == 0 || len(sinks) == 0 {
		r.Bad(name, w.Pos(f.Pos()), "nothing is documented, or nothing is ever built")
		return
	}
	isNode := func(v ssa.Value) bool { return v == node }
	// the variables the value is decoded into
	type dec struct {
		call *ssa.Call
		t    types.Type
	}
	var decs []dec
	for _, g := range s.Region(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, n, d := s.decodeCall(in)
				if call == nil || d == nil {
					continue
				}
				if s.W.CarriesThrough(n, s.via(""), isNode) || g != f && s.derivesIn(f, n, isNode) {
					decs = append(decs, dec{call, eng.Deref(d.Type())})
				}
			}
		}
	}
	belongs := func(rt *ssa.Return, d dec) bool { return s.succeedsAt(f, rt, d.call, 0) }
	used := map[*ssa.Return]bool{}
	for _, a := range as {
		switch a.typ {
		case "join-point", "advice":
			for _, k := range sinks {
				used[k.at] = true
				r.Check(k.has(s.via(""), isNode), name, w.At(k.at), "the nested %s is not part of what is built", a.typ)
			}
			continue
		}
		n := 0
		for _, d := range decs {
			if !s.fits(a, d.t) {
				continue
			}
			n++
			m := 0
			for _, k := range sinks {
				if !belongs(k.at, d) {
					continue
				}
				m++
				used[k.at] = true
				if a.typ == "object" {
					st, ok := eng.Deref(d.t).Underlying().(*types.Struct)
					if !ok {
						continue
					}
					props := keysOf(a.props)
					if a.tmpl {
						props = append(props, "{template}")
					}
					sort.Strings(props)
					for _, p := range props {
						s.property(r, name+"."+p, f, k, d.call, st, p, a.props[p], isNode)
					}
					continue
				}
				ok := k.has(s.via(""), isNode) || s.piecewise(f, name, a, k, isNode)
				if !ok && a.typ == "array" {
					ok = s.only(k, isNode)
				}
				r.Check(ok, name+" ("+a.typ+")", w.At(k.at), "the value is not, or not completely, part of what is built")
			}
			r.Check(m > 0, name+" use ("+a.typ+")", w.At(d.call), "what is decoded is never built into anything")
			if a.typ == "string" && a.ref != "" {
				s.parsed = append(s.parsed, parse{name, a.ref, f})
			}
		}
		r.Check(n > 0, name+" as "+a.typ, w.Pos(f.Pos()), "a value of this form (%s) is documented but never decoded", a.typ)
	}
	for _, k := range sinks {
		r.Check(used[k.at], name+" from the configuration", w.At(k.at), "something is built without having decoded the configuration")
	}
}

// succeedsAt: when the return of a function of f's region is reached, or when it reports success, the call has succeeded.
func (s *schema) succeedsAt(f *ssa.Function, rt *ssa.Return, call *ssa.Call, d int) bool {
	if call.Parent() == rt.Parent() {
		if s.W.MustHold(rt, s.succeeded(call)) {
			return true
		}
		e := eng.RetErr(rt)
		return e != nil && eng.ResolveLocal(e) == errOf(call)
	}
	if d > 3 {
		return false
	}
	g := call.Parent()
	if eng.ErrIndex(g.Signature) < 0 {
		return false
	}
	for _, r := range eng.Returns(g) {
		if s.W.MaySucceed(r) && !s.succeedsAt(f, r, call, d+1) {
			return false
		}
	}
	for _, h := range s.Region(f) {
		for _, ci := range eng.Calls(h) {
			if c, ok := ci.(*ssa.Call); ok && c.Call.StaticCallee() == g && s.succeedsAt(f, rt, c, d+1) {
				return true
			}
		}
	}
	return false
}

// fixedWhen: a condition fixes the value of a property.
func fixedWhen(isP func(ssa.Value) bool) func(eng.Lit, func(func(ssa.Value) bool) func(ssa.Value) bool) bool {
	return func(l eng.Lit, is func(func(ssa.Value) bool) func(ssa.Value) bool) bool {
		isP := is(isP)
		if emptyLit(l, isP) == "empty" || nilLit(l, isP) == "nil" {
			return true
		}
		if bo, ok := l.V.(*ssa.BinOp); ok {
			_, ca := bo.X.(*ssa.Const)
			_, cb := bo.Y.(*ssa.Const)
			return (ca && isP(bo.Y) || cb && isP(bo.X)) && (bo.Op == token.EQL && l.Pol || bo.Op == token.NEQ && !l.Pol)
		}
		return isP(l.V)
	}
}

// fits: a variable of type t can hold the form.
func (s *schema) fits(a alt, t types.Type) bool {
	n := eng.NamedOf(t)
	u := eng.Deref(t).Underlying()
	if n != nil && n.Obj().Name() == "Node" || types.IsInterface(u) {
		return a.typ != "object"
	}
	if n != nil && a.typ != "template" {
		if m := s.method(n, "UnmarshalYAML"); m != nil {
			return a.typ == "string"
		}
	}
	switch a.typ {
	case "string":
		b, ok := u.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case "boolean":
		b, ok := u.(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	case "integer":
		b, ok := u.(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 && b.Kind() != types.Int8 && b.Kind() != types.Int16
	case "array":
		sl, ok := u.(*types.Slice)
		if !ok {
			return false
		}
		for _, it := range s.alts(a.items) {
			switch it.typ {
			case "object":
				en := eng.NamedOf(sl.Elem())
				return en != nil // checked with its decoder
			default:
				if !s.fits(it, sl.Elem()) {
					return false
				}
			}
		}
		return true
	case "map":
		m, ok := u.(*types.Map)
		return ok && types.Identical(m.Key().Underlying(), types.Typ[types.String])
	case "object":
		_, ok := u.(*types.Struct)
		return ok && n == nil || ok && s.method(n, "UnmarshalYAML") == nil
	case "template":
		return n != nil && n.Obj().Name() == "Template"
	case "join-point", "advice":
		return n != nil && n.Obj().Name() == "Node"
	}
	return false
}

// property: the value of a property reaches what is built, or is known on the way there.
func (s *schema) property(r *R, name string, f *ssa.Function, k sink, call *ssa.Call, st *types.Struct, p string, sch any, isNode func(ssa.Value) bool) {
	w := s.W
	idx := -1
	for i := 0; i < st.NumFields(); i++ {
		n, inline := yamlName(st, i)
		if !inline && n == p || inline && s.inlined(st.Field(i).Type(), p) {
			if !inline || idx < 0 {
				idx = i
			}
		}
	}
	if !r.Check(idx >= 0, name+" decoded", w.At(call), "the documented property %s is never decoded", p) {
		return
	}
	fv := st.Field(idx)
	isP := func(v ssa.Value) bool {
		v = eng.ResolveLocal(eng.Unwrap(v))
		return isFieldVal(v, fv)
	}
	if p != "{template}" {
		ok := false
		for _, a := range s.alts(sch) {
			if s.fits(a, fv.Type()) || a.typ == "array" && types.IsInterface(eng.Deref(fv.Type()).Underlying()) {
				ok = true
			}
			if len(a.enum) > 0 {
				if n := eng.NamedOf(fv.Type()); n != nil {
					def, _ := a.def.(string)
					s.enums[n] = enumUse{name, a.enum, def}
				} else {
					ok = false
				}
			}
			if a.typ == "string" && a.ref != "" {
				s.parsed = append(s.parsed, parse{name, a.ref, f})
			}
		}
		r.Check(ok, name+" type", w.At(call), "the property %s is decoded into a %s", p, fv.Type())
	}
	fixed := fixedWhen(isP)
	via := s.via(p)
	via.Fixed = fixed
	has := k.has(via, isNode)
	if !has {
		// the path fixes the value
		has = w.MustHold(k.at, func(l eng.Lit) bool {
			return fixed(l, func(p func(ssa.Value) bool) func(ssa.Value) bool { return p })
		})
	}
	r.Check(has, name, w.At(k.at), "the value given for %s is not, or not completely, part of what is built", p)

	// nothing replaces a value that was given; defaults
	for _, sto := range fieldStores(s.Region(f), fv) {
		if eng.Dominates(call, sto) || eng.CanReach(call, sto) {
			r.Check(w.MustHold(sto, func(l eng.Lit) bool {
				return emptyLit(l, isP) == "empty" || nilLit(l, isP) == "nil" || cmpLit(l, isP, func(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }) > 0
			}), name+" replaced", w.At(sto), "the value given for %s is replaced", p)
			continue
		}
		for _, a := range s.alts(sch) {
			if n, ok := a.def.(float64); ok {
				v, isC := eng.ConstInt(sto.Val)
				r.Check(isC && float64(v) == n, name+" default", w.At(sto), "the documented default of %s is %v", p, n)
			}
			if b, ok := a.def.(bool); ok {
				v, isC := eng.ConstBool(sto.Val)
				r.Check(isC && v == b, name+" default", w.At(sto), "the documented default of %s is %v", p, b)
			}
		}
	}
}

// piecewise: all pieces a text is taken apart into are part of what is built.
func (s *schema) piecewise(f *ssa.Function, name string, a alt, k sink, isNode func(ssa.Value) bool) bool {
	if a.typ != "string" {
		return false
	}
	w := s.W
	for _, g := range s.Region(f) {
		for _, ci := range eng.Calls(g) {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			if strings.HasSuffix(eng.Key(call), "Regexp.FindStringSubmatch") {
				if !w.CarriesThrough(call.Call.Args[1], s.via(""), isNode) {
					continue
				}
				pat, ok := s.pattern(call.Call.Args[0])
				if !ok {
					return false
				}
				groups := captures(pat)
				if groups == 0 {
					return false
				}
				for i := 1; i <= groups; i++ {
					if !k.has(s.via(""), func(v ssa.Value) bool {
						ld, ok := v.(*ssa.UnOp)
						if !ok || ld.Op != token.MUL {
							return false
						}
						ia, ok := ld.X.(*ssa.IndexAddr)
						if !ok || eng.ResolveLocal(ia.X) != ssa.Value(call) {
							return false
						}
						n, ok := eng.ConstInt(ia.Index)
						return ok && int(n) == i
					}) {
						return false
					}
				}
				return true
			}
		}
	}
	// cut at an index
	var before, after []*ssa.Slice
	for _, g := range s.Region(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if sl, ok := in.(*ssa.Slice); ok && w.CarriesThrough(sl.X, s.via(""), isNode) {
					if sl.High != nil && sl.Low == nil {
						before = append(before, sl)
					}
					if sl.Low != nil && sl.High == nil {
						after = append(after, sl)
					}
				}
			}
		}
	}
	if len(before) != 1 || len(after) != 1 || !oneMore(after[0].Low, before[0].High) {
		return false
	}
	part := func(v ssa.Value, sl *ssa.Slice) bool { return v == ssa.Value(sl) }
	return k.has(s.via(""), func(v ssa.Value) bool { return part(v, before[0]) || emptyText(v) }) &&
		k.has(s.via(""), func(v ssa.Value) bool { return part(v, after[0]) || isNode(v) })
}

func emptyText(v ssa.Value) bool { t, ok := eng.ConstString(v); return ok && t == "" }

// oneMore: a is b + 1.
func oneMore(a, b ssa.Value) bool {
	bo, ok := a.(*ssa.BinOp)
	if !ok || bo.Op != token.ADD {
		return false
	}
	n, ok := eng.ConstInt(bo.Y)
	return ok && n == 1 && eng.ResolveLocal(bo.X) == eng.ResolveLocal(b)
}

// only: a list known to have one element is represented by it.
func (s *schema) only(k sink, isNode func(ssa.Value) bool) bool {
	w := s.W
	isList := func(v ssa.Value) bool { return w.CarriesThrough(v, s.via(""), isNode) }
	if !w.MustHold(k.at, func(l eng.Lit) bool { return lenIsOne(l, isList) }) {
		return false
	}
	return k.has(s.via(""), func(v ssa.Value) bool {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		ia, ok := ld.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		n, ok := eng.ConstInt(ia.Index)
		return ok && n == 0 && isList(ia.X)
	})
}

func lenOfValue(v ssa.Value, pred func(ssa.Value) bool) bool {
	call, ok := eng.ResolveLocal(v).(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && pred(call.Call.Args[0])
}

func lenIsOne(l eng.Lit, pred func(ssa.Value) bool) bool {
	bo, ok := l.V.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, p := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
		if n, ok := eng.ConstInt(p[1]); ok && n == 1 && lenOfValue(p[0], pred) {
			return bo.Op == token.EQL && l.Pol || bo.Op == token.NEQ && !l.Pol
		}
	}
	return false
}

// pattern gives the constant pattern of a compiled regular expression.
func (s *schema) pattern(v ssa.Value) (string, bool) {
	var pats []string
	ok := true
	s.W.Origins(v, func(o ssa.Value) eng.Step {
		if cl := callOf(o); cl != nil {
			k := eng.Key(cl)
			if k == "regexp.MustCompile" || k == "regexp.Compile" {
				ps := s.W.ConstStrings(cl.Call.Args[0])
				if len(ps) == 0 {
					ok = false
				}
				pats = append(pats, ps...)
				return eng.Stop
			}
		}
		return eng.Follow
	})
	pats = uniq(pats)
	if !ok || len(pats) != 1 {
		return "", false
	}
	return pats[0], true
}

func uniq(l []string) []string {
	var res []string
	for _, x := range l {
		if !has(res, x) {
			res = append(res, x)
		}
	}
	return res
}

// captures counts the groups of a pattern.
func captures(pat string) int {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return 0
	}
	return re.MaxCap()
}

// dispatch checks FromYAML.
func (s *schema) dispatch(r *R, pkg, iface string) {
	w := s.W
	f := r.Fn(pkg, "FromYAML")
	if f == nil {
		return
	}
	name := strip(pkg)[strings.LastIndex(pkg, "/")+1:]
	var lookups []*ssa.Lookup
	var single *ssa.Call
	for _, g := range s.Region(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Lookup); ok {
					if m, ok := l.X.Type().Underlying().(*types.Map); ok {
						if sig, ok := m.Elem().Underlying().(*types.Signature); ok && sig.Results().Len() == 2 {
							lookups = append(lookups, l)
						}
					}
				}
				if cl := isCall(in, "internal/injector/singleton.Unmarshal"); cl != nil {
					single, _ = cl.(*ssa.Call)
				}
			}
		}
	}
	if !r.Check(single != nil && len(lookups) == 1, name+" lookup", w.Pos(f.Pos()), "the decoder is not looked up in the table by the name of the entry") {
		return
	}
	lk := lookups[0]
	node := nodeParam(f)
	r.Check(s.derivesIn(f, single.Call.Args[1], func(v ssa.Value) bool { return v == ssa.Value(node) }), name+" entry", w.At(single), "what is looked at is not the node given")
	isRes := func(i int) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			v = eng.ResolveLocal(eng.Unwrap(v))
			ex, ok := v.(*ssa.Extract)
			return ok && ex.Tuple == ssa.Value(single) && ex.Index == i
		}
	}
	r.Check(w.Carries(lk.Index, isRes(0)), name+" key", w.At(lk), "the decoder looked up is not that of the kind named")
	n := 0
	for _, g := range s.Region(f) {
		for _, ci := range eng.Calls(g) {
			cl, ok := ci.(*ssa.Call)
			if !ok || cl.Call.IsInvoke() || cl.Call.StaticCallee() != nil {
				continue
			}
			if _, ok := cl.Call.Value.(*ssa.Builtin); ok {
				continue
			}
			if !s.derivesIn(f, cl.Call.Value, func(o ssa.Value) bool { return o == ssa.Value(lk) }) {
				continue
			}
			n++
			r.Check(len(cl.Call.Args) == 2 && w.Carries(cl.Call.Args[1], isRes(1)), name+" value", w.At(cl), "the decoder is not given the value of the entry")
			r.Check(w.MustHold(cl, func(l eng.Lit) bool { return s.foundIn(l, lk) }), name+" known", w.At(cl), "a kind that does not exist is not noticed")
			for _, rt := range eng.Returns(f) {
				if !s.succeeding(rt) {
					continue
				}
				ex := eng.ResultAt(cl, 0)
				r.Check(ex != nil && w.Carries(rt.Results[0], func(v ssa.Value) bool { return eng.ResolveLocal(v) == ex }), name+" result", w.At(rt), "what the decoder built is not returned")
			}
		}
	}
	r.Check(n == 1, name+" decoder", w.Pos(f.Pos()), "the decoder looked up is called %d times", n)
	// nothing else succeeds
	r.Check(w.MustDo(f, func(in ssa.Instruction) bool {
		cl, ok := in.(*ssa.Call)
		return ok && cl.Call.StaticCallee() == nil && !cl.Call.IsInvoke() && s.derivesIn(f, cl.Call.Value, func(o ssa.Value) bool { return o == ssa.Value(lk) })
	}, w.MaySucceed, nil) == nil, name+" unknown", w.Pos(f.Pos()), "an entry may be accepted without having been decoded")
}

// foundIn: the literal says that the lookup found something.
func (s *schema) foundIn(l eng.Lit, lk *ssa.Lookup) bool {
	if ex, ok := l.V.(*ssa.Extract); ok && ex.Tuple == ssa.Value(lk) && ex.Index == 1 {
		return l.Pol
	}
	return nilLit(l, func(v ssa.Value) bool {
		v = eng.ResolveLocal(v)
		if ex, ok := v.(*ssa.Extract); ok {
			return ex.Tuple == ssa.Value(lk) && ex.Index == 0
		}
		return v == ssa.Value(lk)
	}) == "nonnil"
}

// singletons checks that an entry has exactly one key.
func (s *schema) singletons(r *R) {
	w := s.W
	f := r.Fn("internal/injector/singleton", "Unmarshal")
	if f == nil {
		return
	}
	node := nodeParam(f)
	isNode := func(v ssa.Value) bool { return v == ssa.Value(node) }
	part := func(v ssa.Value, field string) bool {
		return s.derivesIn(f, v, func(o ssa.Value) bool { return isExtField(o, "MappingValueNode", field) }) && s.derivesIn(f, v, isNode)
	}
	n := 0
	for _, rt := range eng.Returns(f) {
		if !s.succeeding(rt) {
			continue
		}
		n++
		num := func(v ssa.Value) bool {
			return lenOfValue(v, func(v ssa.Value) bool { return s.derivesIn(f, v, isNode) })
		}
		r.Check(w.MustHold(rt, func(l eng.Lit) bool { return boundedBy(l, num, 1, true) }) &&
			w.MustHold(rt, func(l eng.Lit) bool { return boundedBy(l, num, 1, false) }), "one key", w.At(rt), "an entry with several keys, or none, is accepted")
		v := rt.Results[1]
		r.Check(part(v, "Value") && !part(v, "Key"), "value of the entry", w.At(rt), "the value returned is not that of the entry")
		key := rt.Results[0]
		ok := w.CarriesThrough(key, eng.Via{Load: s.via("").Load}, func(x ssa.Value) bool { return part(x, "Key") && !part(x, "Value") })
		r.Check(ok, "key of the entry", w.At(rt), "the name returned is not the key of the entry")
	}
	r.Check(n > 0, "singleton", w.Pos(f.Pos()), "no entry is ever accepted")
}

// boundedBy: the literal says that the count is at most (upper) or at least (lower) n.
func boundedBy(l eng.Lit, num func(ssa.Value) bool, n int64, upper bool) bool {
	bo, ok := l.V.(*ssa.BinOp)
	if !ok {
		return false
	}
	op, y := bo.Op, bo.Y
	if num(bo.Y) {
		y = bo.X
		if m, ok := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]; ok {
			op = m
		}
	} else if !num(bo.X) {
		return false
	}
	k, ok := eng.ConstInt(y)
	if !ok {
		return false
	}
	if !l.Pol {
		neg, ok := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		if !ok {
			return false
		}
		op = neg
	}
	switch op {
	case token.EQL:
		return upper && k <= n || !upper && k >= n
	case token.NEQ:
		return !upper && k == 0 && n == 1
	case token.LSS:
		return upper && k-1 <= n
	case token.LEQ:
		return upper && k <= n
	case token.GTR:
		return !upper && k+1 >= n
	case token.GEQ:
		return !upper && k >= n
	}
	return false
}

func isExtField(o ssa.Value, typ, field string) bool {
	var st types.Type
	var i int
	switch x := o.(type) {
	case *ssa.FieldAddr:
		st, i = eng.Deref(x.X.Type()), x.Field
	case *ssa.Field:
		st, i = x.X.Type(), x.Field
	default:
		return false
	}
	n := eng.NamedOf(st)
	u, ok := st.Underlying().(*types.Struct)
	return ok && n != nil && n.Obj().Name() == typ && u.Field(i).Name() == field
}

// options checks the decoder of function options.
func (s *schema) options(rK, rP *R) {
	w := s.W
	m, _ := s.deref(map[string]any{"$ref": "#/$defs/join-point/function/$defs/option"})
	one, _ := m["oneOf"].([]any)
	docs := map[string]any{}
	for _, o := range one {
		om, _ := s.deref(o)
		ps, _ := om["properties"].(map[string]any)
		for k, p := range ps {
			docs[k] = p
		}
	}
	iface := w.Type("internal/injector/aspect/join", "FunctionOption")
	if iface == nil {
		rK.Bad("anchor FunctionOption", "-", "type not found")
		return
	}
	// the type decoded: a struct holding an option with a decoder of its own
	var dec *ssa.Function
	for _, n := range w.NamedTypes() {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || n.Obj().Pkg() != iface.Obj().Pkg() || st.NumFields() != 1 || eng.NamedOf(st.Field(0).Type()) != iface {
			continue
		}
		if u := s.method(n, "UnmarshalYAML"); u != nil {
			dec = u
		}
	}
	if dec == nil {
		rK.Bad("anchor function options", "-", "the decoder of function options was not found")
		return
	}
	node := nodeParam(dec)
	part := func(v ssa.Value, field string) bool {
		return s.derivesIn(dec, v, func(o ssa.Value) bool { return isExtField(o, "MappingValueNode", field) })
	}
	isKey := func(v ssa.Value) bool {
		return w.CarriesThrough(v, eng.Via{Load: s.via("").Load}, func(x ssa.Value) bool { return part(x, "Key") && !part(x, "Value") })
	}
	isVal := func(v ssa.Value) bool { return part(v, "Value") && !part(v, "Key") }
	_ = node

	// where options are stored
	type setting struct {
		st  *ssa.Store
		key string
	}
	var sets []setting
	for _, f := range s.Region(dec) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || eng.NamedOf(eng.Deref(fa.X.Type())) == nil || eng.NamedOf(eng.Deref(fa.X.Type())).Obj() != eng.NamedOf(dec.Params[0].Type()).Obj() {
					continue
				}
				for _, k := range keysOf(docs) {
					if w.MustHold(st, func(l eng.Lit) bool { return cmpLit(l, isKey, isStr(k)) > 0 }) {
						sets = append(sets, setting{st, k})
					}
				}
			}
		}
	}
	names := keysOf(docs)
	sort.Strings(names)
	for _, k := range names {
		name := "function option " + k
		n := 0
		as := s.alts(docs[k])
		covered := map[string]bool{}
		for _, x := range sets {
			if x.key != k {
				continue
			}
			n++
			for _, t := range s.built(x.st.Val) {
				l := s.labelOf(t)
				rK.Check(l == k || docs[l] == nil, name+" builds", w.At(x.st), "what is built for %q is a %s", k, l)
				ty := types.TypeString(t, nil)
				if other, ok := s.labels[ty]; ok && other != name {
					rK.Bad(name+" distinct", w.At(x.st), "the same object is built for %s and for %s", other, name)
				}
				s.labels[ty] = name
			}
			for _, a := range as {
				if a.typ == "object" {
					for _, p := range keysOf(a.props) {
						decoded := false
						for _, f := range s.Region(dec) {
							for _, b := range f.Blocks {
								for _, in := range b.Instrs {
									call, nd, d := s.decodeCall(in)
									if call == nil || d == nil || !isVal(nd) {
										continue
									}
									if st, ok := eng.Deref(d.Type()).Underlying().(*types.Struct); ok {
										for i := 0; i < st.NumFields(); i++ {
											if nm, inl := yamlName(st, i); nm == p && !inl {
												decoded = true
											}
										}
									}
								}
							}
						}
						ok := s.carriesList(x.st.Val, s.via(p), isVal, p)
						rP.Check(decoded && ok, name+"."+p, w.At(x.st), "the value given for %s is not, or not completely, part of the option", p)
					}
					covered[a.typ] = true
					continue
				}
				// the form decoded: by type, or told apart after decoding
				okType := false
				w.Alternatives(x.st.Val, func(v ssa.Value) {
					if w.CarriesHere(v, s.via(""), func(v ssa.Value) bool { return s.formOf(v, a.typ) && s.carriesVal(v, isVal) }) {
						okType = true
					}
				})
				if okType {
					covered[a.typ] = true
				}
				if a.typ == "string" && a.ref != "" && okType && s.derivesCall(x.st.Val, "internal/injector/typed.NewTypeName") {
					s.parsed = append(s.parsed, parse{name, a.ref, dec})
				}
			}
		}
		rK.Check(n > 0, name, w.Pos(dec.Pos()), "the documented function option %q is not understood", k)
		for _, a := range as {
			rP.Check(covered[a.typ], name+" as "+a.typ, w.Pos(dec.Pos()), "a value of this form is documented, but not part of the option built")
		}
	}
	// success means an option was stored
	isSet := func(in ssa.Instruction) bool {
		for _, x := range sets {
			if in == ssa.Instruction(x.st) {
				return true
			}
		}
		return false
	}
	for _, k := range append(names, "\x00other") {
		e := eng.Exploration{W: w}
		e.Atom = func(v ssa.Value) (eng.AV, bool) {
			if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if al, ok := ld.X.(*ssa.Alloc); ok {
					if call, n := s.filled(al); call != nil && part(n, "Key") {
						return eng.AStr(k), true
					}
				}
			}
			return eng.AV{}, false
		}
		e.Event = func(in ssa.Instruction) string {
			if isSet(in) {
				return "set"
			}
			return ""
		}
		outs := e.Run(dec)
		label := "function option " + k
		if k == "\x00other" {
			label = "other function options"
		}
		if !rK.Check(!e.Exhausted && len(outs) > 0, label+" explored", w.Pos(dec.Pos()), "what happens for %q is not known", k) {
			continue
		}
		ok, some := true, false
		for _, o := range outs {
			if o.Panics || len(o.Rets) != 1 || o.Rets[0].K == eng.ANonNil {
				continue
			}
			if rt, isR := o.Exit.(*ssa.Return); isR && o.Rets[0].K != eng.ANil && !w.MaySucceed(rt) {
				continue
			}
			some = true
			if !o.Has("set") || k == "\x00other" {
				ok = false
			}
		}
		rK.Check(ok && (some || k == "\x00other"), label+" set", w.Pos(dec.Pos()), "the option %q may be accepted without being set", k)
	}
}

func (s *schema) carriesVal(v ssa.Value, isVal func(ssa.Value) bool) bool {
	return s.W.CarriesThrough(v, s.via(""), isVal)
}

// formOf: v is a value of a form of the configuration.
func (s *schema) formOf(v ssa.Value, typ string) bool {
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch typ {
	case "string":
		return b.Info()&types.IsString != 0
	case "boolean":
		return b.Info()&types.IsBoolean != 0
	}
	return false
}

// carriesList is CarriesThrough for lists converted element by element when there are any.
func (s *schema) carriesList(v ssa.Value, via eng.Via, target func(ssa.Value) bool, p string) bool {
	via.Fixed = fixedWhen(func(y ssa.Value) bool { return s.isProp(y, p) })
	return s.W.CarriesThrough(v, via, target)
}

// isProp: v is the value decoded for the property.
func (s *schema) isProp(v ssa.Value, p string) bool {
	v = eng.ResolveLocal(eng.Unwrap(v))
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return s.decodes(eng.FieldVar(fa), p)
		}
	case *ssa.Field:
		return s.decodes(eng.FieldVar(x), p)
	}
	return false
}

// modes checks the decoders of modes.
func (s *schema) modes(r *R) {
	w := s.W
	var ns []*types.Named
	for n := range s.enums {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i].Obj().Name() < ns[j].Obj().Name() })
	for _, n := range ns {
		use := s.enums[n]
		f := s.method(n, "UnmarshalYAML")
		if !r.Check(f != nil, use.label+" decoder", "-", "modes of type %s are not decoded by name", n.Obj().Name()) {
			continue
		}
		recv := f.Params[0]
		run := func(text string) (vals []eng.AV, fails, ok bool) {
			e := eng.Exploration{W: w}
			e.Atom = func(v ssa.Value) (eng.AV, bool) {
				ld, isLd := v.(*ssa.UnOp)
				if !isLd || ld.Op != token.MUL {
					return eng.AV{}, false
				}
				if al, isAl := ld.X.(*ssa.Alloc); isAl {
					if call, _ := s.filled(al); call != nil {
						return eng.AStr(text), true
					}
				}
				return eng.AV{}, false
			}
			e.Model = func(c *ssa.Call, eval func(ssa.Value) eng.AV) (eng.AV, bool) {
				if cl, _, _ := s.decodeCall(c); cl != nil {
					return eng.ANilV(), true
				}
				return eng.AV{}, false
			}
			var last eng.AV
			set := false
			e.At = func(in ssa.Instruction, eval func(ssa.Value) eng.AV) bool {
				if st, isSt := in.(*ssa.Store); isSt && eng.ResolveLocal(st.Addr) == ssa.Value(recv) {
					vals = append(vals, eval(st.Val))
					last, set = eval(st.Val), true
				}
				return false
			}
			_ = last
			outs := e.Run(f, eng.ANonNilV(), eng.AUnk(), eng.ANonNilV())
			ok = !e.Exhausted && len(outs) > 0
			for _, o := range outs {
				if o.Panics {
					continue
				}
				if len(o.Rets) == 1 && o.Rets[0].K == eng.ANil {
					continue
				}
				fails = true
			}
			if !set && !fails {
				ok = false
			}
			return
		}
		got := map[string]string{}
		for _, v := range use.vals {
			vals, fails, ok := run(v)
			if !r.Check(ok && !fails && len(vals) == 1, use.label+" "+v, w.Pos(f.Pos()), "the documented mode %q is not, or not always, understood", v) {
				continue
			}
			c, isC := vals[0].String(), vals[0].K == eng.AConst
			if !r.Check(isC, use.label+" "+v+" value", w.Pos(f.Pos()), "what the mode %q stands for is not known", v) {
				continue
			}
			for o, oc := range got {
				r.Check(oc != c, use.label+" "+v+" distinct", w.Pos(f.Pos()), "the modes %q and %q are confused", v, o)
			}
			got[v] = c
			if v == use.def {
				r.Check(c == "0", use.label+" default", w.Pos(f.Pos()), "the default mode is not the one documented (%s)", use.def)
			}
			s.modeName(r, use.label, n, v, vals[0])
		}
		// neither an arbitrary other text, nor any other text the decoder knows of
		others := []string{"\x00other"}
		known := map[string]bool{"": true}
		for _, v := range use.vals {
			known[v] = true
		}
		for _, g := range s.Reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						if t, isC := eng.ConstString(*op); isC && !known[t] {
							known[t] = true
							others = append(others, t)
						}
					}
				}
			}
		}
		accepted := ""
		for _, o := range others {
			if vals, fails, ok := run(o); !ok || !fails || len(vals) != 0 {
				accepted = o
				break
			}
		}
		r.Check(accepted == "", use.label+" other", w.Pos(f.Pos()), "a mode that does not exist (%q) is accepted", accepted)
	}
	r.Check(len(ns) >= 2, "modes", "-", "only %d kinds of modes were found", len(ns))
}

// modeName: the mode calls itself by the same name.
func (s *schema) modeName(r *R, label string, n *types.Named, v string, val eng.AV) {
	f := s.method(n, "String")
	if f == nil {
		return
	}
	e := eng.Exploration{W: s.W}
	for _, o := range e.Run(f, val) {
		if o.Panics || len(o.Rets) != 1 {
			continue
		}
		if t, ok := eng.ConstAV(o.Rets[0]); ok {
			r.Check(t == v, label+" "+v+" named", s.W.Pos(f.Pos()), "the mode %q is that called %q", v, t)
		}
	}
}

// template checks the decoder of code templates.
func (s *schema) template(r *R) {
	f := r.Fn("internal/injector/aspect/advice/code", "Template.UnmarshalYAML")
	if f == nil {
		return
	}
	m, _ := s.deref(map[string]any{"$ref": "#/$defs/code-template"})
	s.into(r, "code template", f, nodeParam(f), map[string]any{"properties": m["properties"], "type": "object"}, s.received(f))
	// the text is what gets parsed
	n := 0
	for _, g := range s.Region(f) {
		for _, ci := range eng.Calls(g) {
			if eng.Key(ci) == "text/template.Template.Parse" && g.Name() != "init" {
				n++
				ok := s.derives(eng.ArgOf(ci, 1), func(o ssa.Value) bool { return s.isProp(o, "template") })
				r.Check(ok, "template text", s.W.At(ci), "what is parsed is not the text of the template")
			}
		}
	}
	r.Check(n > 0, "template parsed", s.W.Pos(f.Pos()), "the text of the template is never parsed")
}

// aspects checks the decoder of aspects.
func (s *schema) aspects(r *R) {
	w := s.W
	f := r.Fn("internal/injector/aspect", "Aspect.UnmarshalYAML")
	if f == nil {
		return
	}
	m, _ := s.deref(map[string]any{"$ref": "#/$defs/Aspect"})
	props, _ := m["properties"].(map[string]any)
	s.into(r, "aspect", f, nodeParam(f), map[string]any{"properties": props, "type": "object"}, s.received(f))
	// each goes where it belongs, and the required ones are there
	req, _ := m["required"].([]any)
	for _, x := range req {
		p, _ := x.(string)
		if p == "id" {
			continue
		}
		for _, rt := range eng.Returns(f) {
			if !s.succeeding(rt) {
				continue
			}
			r.Check(w.MustHold(rt, func(l eng.Lit) bool {
				return nilLit(l, func(v ssa.Value) bool { return s.isProp(v, p) }) == "nonnil"
			}), p+" required", w.At(rt), "an aspect without %s is accepted", p)
		}
	}
	r.Min(8)
}

// names checks the patterns the names of the configuration are taken apart with.
func (s *schema) names(r *R) {
	w := s.W
	ident := s.str("#/$defs/go/identifier", "pattern")
	ident = strings.TrimSuffix(strings.TrimPrefix(ident, "^"), "$")
	elem := `[A-Za-z0-9._~+-]+`
	path := elem + `(?:/` + elem + `)*`
	refs := map[string]string{
		"#/$defs/go/qualified-identifier": `(?:` + path + `\.)?` + ident,
		"#/$defs/go/type-ref":             `\*?(?:` + path + `\.)?` + ident + `|interface\{\}`,
	}
	done := map[string]bool{}
	for _, p := range s.parsed {
		ref, ok := refs[p.ref]
		if !ok {
			continue
		}
		n := 0
		for _, g := range s.Reach(p.fn) {
			for _, ci := range eng.Calls(g) {
				call, ok := ci.(*ssa.Call)
				if !ok || !strings.HasSuffix(eng.Key(call), "Regexp.FindStringSubmatch") {
					continue
				}
				if done[p.label+w.At(call)] {
					continue
				}
				done[p.label+w.At(call)] = true
				n++
				pat, ok := s.pattern(call.Call.Args[0])
				if !r.Check(ok, p.label+" pattern", w.At(call), "the pattern is not a constant") {
					continue
				}
				// names accepted without the pattern
				text := call.Call.Args[1]
				also := []string{}
				texts := []ssa.Value{text}
				if phi, ok := text.(*ssa.Phi); ok {
					texts = nil
					for i, e := range phi.Edges {
						t, isConst := eng.ConstString(e)
						if !isConst {
							texts = append(texts, e)
							continue
						}
						if inc, _, err := included(regexp.QuoteMeta(t), "", pat); !inc || err != nil {
							continue
						}
						pred := phi.Block().Preds[i]
						lits := eng.DomLits(pred)
						if l, ok := eng.EdgeLit(pred, phi.Block()); ok {
							lits = append(lits, l)
						}
						for _, l := range lits {
							if t, ok := equalText(l, func(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }); ok {
								also = append(also, t)
							}
						}
					}
				}
				for _, rt := range eng.Returns(g) {
					if !s.succeeding(rt) {
						continue
					}
					w.MustHold(rt, func(l eng.Lit) bool {
						if t, ok := equalText(l, func(v ssa.Value) bool {
							for _, x := range texts {
								if eng.SameLoad(v, x) {
									return true
								}
							}
							return false
						}); ok {
							also = append(also, t)
						}
						return false
					})
				}
				for _, t := range also {
					pat += "|" + `\A` + regexp.QuoteMeta(t) + `\z`
				}
				inc, ex, err := included(ref, "", pat)
				if err != nil {
					r.Bad(p.label+" names", w.At(call), "%v", err)
					continue
				}
				r.Check(inc, p.label+" names", w.At(call), "%q is a valid name, but refused", ex)
			}
		}
	}
}

func (s *schema) str(ref, key string) string {
	m, _ := s.deref(map[string]any{"$ref": ref})
	t, _ := m[key].(string)
	return t
}

// Reach lists the functions a decoder runs, those of the types package included.
func (s *schema) Reach(f *ssa.Function) []*ssa.Function {
	res := s.Region(f)
	for _, g := range res {
		for _, ci := range eng.Calls(g) {
			for _, h := range s.W.Callees(ci) {
				if eng.PkgOf(h) == eng.ModPath+"/internal/injector/typed" {
					for _, x := range s.Region(h) {
						dup := false
						for _, y := range res {
							dup = dup || x == y
						}
						if !dup {
							res = append(res, x)
						}
					}
				}
			}
		}
	}
	return res
}

// equalText: the literal says that a value equals a constant text.
func equalText(l eng.Lit, pred func(ssa.Value) bool) (string, bool) {
	bo, ok := l.V.(*ssa.BinOp)
	if !ok || !(bo.Op == token.EQL && l.Pol || bo.Op == token.NEQ && !l.Pol) {
		return "", false
	}
	for _, q := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
		if t, ok := eng.ConstString(q[1]); ok && pred(q[0]) {
			return t, true
		}
	}
	return "", false
}
