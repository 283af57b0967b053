package eng

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loc is an abstract file system path: a root (a named value the path is
// built from), how many directories up from it, and what was joined to it.
type Loc struct {
	Root string
	Up   int
	Rest []string
}

func (l Loc) String() string {
	s := l.Root
	for i := 0; i < l.Up; i++ {
		s = "dir(" + s + ")"
	}
	for i, r := range l.Rest {
		if i == 0 && strings.HasPrefix(r, "+") {
			s += r
			continue
		}
		s += "/" + r
	}
	return s
}

func (l Loc) dir() Loc {
	r := Loc{Root: l.Root, Up: l.Up, Rest: append([]string(nil), l.Rest...)}
	if n := len(r.Rest); n > 0 {
		if strings.HasPrefix(r.Rest[n-1], "+") && n == 1 {
			r.Rest = nil
			r.Up++
			return r
		}
		r.Rest = r.Rest[:n-1]
		return r
	}
	r.Up++
	return r
}

func (l Loc) child(e string) Loc {
	return Loc{Root: l.Root, Up: l.Up, Rest: append(append([]string(nil), l.Rest...), e)}
}

func (l Loc) suffix(s string) Loc {
	r := Loc{Root: l.Root, Up: l.Up, Rest: append([]string(nil), l.Rest...)}
	if n := len(r.Rest); n > 0 {
		r.Rest[n-1] += s
		return r
	}
	r.Rest = []string{"+" + s}
	return r
}

// Paths evaluates file system paths symbolically.
type Paths struct {
	W *World
	// Leaf names the values that are not looked through ("" for others).
	Leaf func(v ssa.Value) string
	// SkipEdge tells that an edge of a phi is never taken.
	SkipEdge func(phi *ssa.Phi, i int) bool
}

type pfKey struct {
	v  ssa.Value
	fr *frame
}

// Of lists the locations v may stand for.
func (p *Paths) Of(v ssa.Value) []Loc {
	ls := p.of(v, nil, 0, map[pfKey]bool{})
	seen := map[string]bool{}
	var res []Loc
	for _, l := range ls {
		if !seen[l.String()] {
			seen[l.String()] = true
			res = append(res, l)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	return res
}

func unknownLoc(what string) []Loc { return []Loc{{Root: "?" + what}} }

func (p *Paths) of(v ssa.Value, fr *frame, d int, busy map[pfKey]bool) []Loc {
	if v == nil {
		return unknownLoc("nil")
	}
	k := pfKey{v, fr}
	if busy[k] {
		return nil
	}
	if d > 60 {
		return unknownLoc("deep")
	}
	busy[k] = true
	defer delete(busy, k)
	if n := p.Leaf(v); n != "" {
		return []Loc{{Root: n}}
	}
	rec := func(x ssa.Value) []Loc { return p.of(x, fr, d+1, busy) }
	switch x := v.(type) {
	case *ssa.Const:
		if s, ok := ConstString(x); ok {
			return constLoc(s)
		}
		return unknownLoc("constant")
	case *ssa.Phi:
		var res []Loc
		for i, e := range x.Edges {
			if p.SkipEdge != nil && p.SkipEdge(x, i) {
				continue
			}
			res = append(res, rec(e)...)
		}
		return res
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.Convert:
		return rec(x.X)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return unknownLoc(x.Op.String())
		}
		suf := "*"
		if s, ok := ConstString(x.Y); ok {
			suf = s
		}
		var res []Loc
		for _, l := range rec(x.X) {
			res = append(res, l.suffix(suf))
		}
		return res
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.call(c, x.Index, fr, d, busy)
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return p.elems(lk.X, fr, d, busy)
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok && x.Index == 1 && isMap(rg.X) {
				return p.keys(rg.X, fr, d, busy)
			} else if ok {
				return p.elems(rg.X, fr, d, busy)
			}
		}
		return unknownLoc("extract")
	case *ssa.Call:
		return p.call(x, 0, fr, d, busy)
	case *ssa.Lookup:
		return p.elems(x.X, fr, d, busy)
	case *ssa.Slice:
		return rec(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return unknownLoc(x.Op.String())
		}
		return p.mem(x.X, fr, d, busy)
	case *ssa.Field:
		return p.field(x, fr, d, busy)
	case *ssa.FreeVar, *ssa.Parameter:
		return p.bound(v, fr, d, busy, func(b ssa.Value, f *frame) []Loc { return p.of(b, f, d+1, busy) })
	}
	return unknownLoc(strings.TrimPrefix(typeName(v), "*ssa."))
}

func typeName(v ssa.Value) string {
	switch v.(type) {
	case *ssa.IndexAddr:
		return "element"
	case *ssa.MakeSlice:
		return "slice"
	}
	return v.Name()
}

func constLoc(s string) []Loc {
	return []Loc{{Root: "=" + s}}
}

// bound follows a parameter or captured variable to what it is bound to.
func (p *Paths) bound(v ssa.Value, fr *frame, d int, busy map[pfKey]bool, next func(ssa.Value, *frame) []Loc) []Loc {
	var res []Loc
	switch x := v.(type) {
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x {
				continue
			}
			for _, mc := range p.W.closure[fn] {
				if i < len(mc.Bindings) {
					res = append(res, next(mc.Bindings[i], nil)...)
				}
			}
		}
	case *ssa.Parameter:
		fn := x.Parent()
		idx := -1
		for i, pp := range fn.Params {
			if pp == x {
				idx = i
			}
		}
		if fr != nil {
			for _, c := range append([]*ssa.Function{fr.to}, p.W.callees[fr.call]...) {
				if c == fn {
					if a := ArgOf(fr.call, idx); a != nil {
						return next(a, fr.up)
					}
				}
			}
		}
		n := 0
		for _, c := range p.W.callers[fn] {
			if a := ArgOf(c, idx); a != nil {
				n++
				res = append(res, next(a, nil)...)
			}
		}
		if n == 0 {
			return unknownLoc("parameter " + x.Name() + " of " + Name(fn))
		}
	}
	return res
}

// mem reads the memory at an address.
func (p *Paths) mem(addr ssa.Value, fr *frame, d int, busy map[pfKey]bool) []Loc {
	k := pfKey{addr, fr}
	if n := p.Leaf(addr); n != "" {
		return []Loc{{Root: n}}
	}
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return p.field(a, fr, d, busy)
	case *ssa.Global:
		var res []Loc
		for _, s := range p.W.gstores[a] {
			res = append(res, p.of(s, nil, d+1, busy)...)
		}
		if len(res) == 0 {
			return unknownLoc("variable " + a.Name())
		}
		return res
	case *ssa.Alloc:
		if busy[k] {
			return nil
		}
		busy[k] = true
		defer delete(busy, k)
		var res []Loc
		n := 0
		for _, r := range p.allStores(a) {
			n++
			res = append(res, p.of(r, fr, d+1, busy)...)
		}
		if n == 0 {
			return unknownLoc("local " + a.Comment)
		}
		return res
	case *ssa.FreeVar, *ssa.Parameter:
		return p.bound(addr, fr, d, busy, func(b ssa.Value, f *frame) []Loc { return p.mem(b, f, d+1, busy) })
	case *ssa.IndexAddr:
		return p.elems(a.X, fr, d, busy)
	}
	return unknownLoc("memory")
}

// allStores lists what is stored to a local, also by closures capturing it.
func (p *Paths) allStores(a ssa.Value) []ssa.Value {
	var res []ssa.Value
	refs := a.Referrers()
	if refs == nil {
		return nil
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				res = append(res, r.Val)
			}
		case *ssa.MakeClosure:
			fn, _ := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a && fn != nil && i < len(fn.FreeVars) {
					res = append(res, p.allStores(fn.FreeVars[i])...)
				}
			}
		}
	}
	return res
}

func (p *Paths) field(sel ssa.Value, fr *frame, d int, busy map[pfKey]bool) []Loc {
	fv := FieldVar(sel)
	if fv == nil {
		return unknownLoc("field")
	}
	var base ssa.Value
	switch x := sel.(type) {
	case *ssa.FieldAddr:
		base = x.X
	case *ssa.Field:
		base = x.X
	}
	// A struct made here, or handed in by value or reference: its own stores.
	if al, ok := p.object(base, fr); ok {
		var res []Loc
		n := 0
		for _, r := range *al.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || FieldVar(fa) != fv {
				continue
			}
			for _, rr := range *fa.Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == fa {
					n++
					res = append(res, p.of(s.Val, fr, d+1, busy)...)
				}
			}
		}
		if n > 0 {
			return res
		}
	}
	var res []Loc
	for _, s := range p.W.stores[fv] {
		res = append(res, p.of(s.Val, nil, d+1, busy)...)
	}
	if len(res) == 0 {
		return unknownLoc("field " + TypeKeyOfField(fv) + "." + fv.Name())
	}
	return res
}

func (p *Paths) object(base ssa.Value, fr *frame) (*ssa.Alloc, bool) {
	switch x := base.(type) {
	case *ssa.Alloc:
		// only when the struct is built here rather than copied
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				return nil, false
			}
		}
		return x, true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return p.object(al, fr)
		}
	}
	return nil, false
}

// elems lists what the container v may hold.
func (p *Paths) elems(v ssa.Value, fr *frame, d int, busy map[pfKey]bool) []Loc {
	if n := p.Leaf(v); n != "" {
		return []Loc{{Root: n}}
	}
	k := pfKey{v, fr}
	if busy[k] || d > 60 {
		return nil
	}
	busy[k] = true
	defer delete(busy, k)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				if n := p.Leaf(a); n != "" {
					return []Loc{{Root: n}}
				}
				var res []Loc
				for _, s := range p.W.stores[FieldVar(a)] {
					res = append(res, p.elems(s.Val, nil, d+1, busy)...)
				}
				if len(res) > 0 {
					return res
				}
				return unknownLoc("elements of field " + FieldVar(a).Name())
			case *ssa.Alloc:
				var res []Loc
				for _, s := range p.allStores(a) {
					res = append(res, p.elems(s, fr, d+1, busy)...)
				}
				if len(res) > 0 {
					return res
				}
			case *ssa.FreeVar, *ssa.Parameter:
				return p.bound(a, fr, d, busy, func(b ssa.Value, f *frame) []Loc {
					var res []Loc
					for _, s := range p.allStores(b) {
						res = append(res, p.elems(s, f, d+1, busy)...)
					}
					return res
				})
			}
		}
	case *ssa.Slice:
		if vs := VarArgs(x); vs != nil {
			var res []Loc
			for _, e := range vs {
				res = append(res, p.of(e, fr, d+1, busy)...)
			}
			return res
		}
		return p.elems(x.X, fr, d+1, busy)
	case *ssa.Phi:
		var res []Loc
		for _, e := range x.Edges {
			res = append(res, p.elems(e, fr, d+1, busy)...)
		}
		return res
	case *ssa.MakeMap, *ssa.MakeSlice:
		var res []Loc
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				res = append(res, p.of(r.Value, fr, d+1, busy)...)
			case *ssa.IndexAddr:
				for _, rr := range *r.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == r {
						res = append(res, p.of(s.Val, fr, d+1, busy)...)
					}
				}
			}
		}
		if len(res) > 0 {
			return res
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			res := p.elems(x.Call.Args[0], fr, d+1, busy)
			return append(res, p.elems(x.Call.Args[1], fr, d+1, busy)...)
		}
	case *ssa.Const:
		return nil
	case *ssa.FreeVar, *ssa.Parameter:
		return p.bound(v, fr, d, busy, func(b ssa.Value, f *frame) []Loc { return p.elems(b, f, d+1, busy) })
	}
	return unknownLoc("elements of " + typeName(v))
}

func isMap(v ssa.Value) bool {
	_, ok := v.Type().Underlying().(*types.Map)
	return ok
}

// keys lists the keys a map may have.
func (p *Paths) keys(v ssa.Value, fr *frame, d int, busy map[pfKey]bool) []Loc {
	if d > 60 {
		return nil
	}
	var res []Loc
	all := func(vs []ssa.Value, f *frame) []Loc {
		var res []Loc
		for _, s := range vs {
			res = append(res, p.keys(s, f, d+1, busy)...)
		}
		return res
	}
	switch x := v.(type) {
	case *ssa.MakeMap:
		for _, r := range *x.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok {
				res = append(res, p.of(mu.Key, fr, d+1, busy)...)
			}
		}
		return res
	case *ssa.Const:
		return nil
	case *ssa.Phi:
		return all(x.Edges, fr)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				return p.fieldKeys(FieldVar(a), d, busy)
			case *ssa.Alloc:
				return all(p.allStores(a), fr)
			}
		}
	case *ssa.Field:
		return p.fieldKeys(FieldVar(x), d, busy)
	case *ssa.FreeVar, *ssa.Parameter:
		return p.bound(v, fr, d, busy, func(b ssa.Value, f *frame) []Loc { return p.keys(b, f, d+1, busy) })
	}
	return unknownLoc("keys")
}

func (p *Paths) fieldKeys(fv *types.Var, d int, busy map[pfKey]bool) []Loc {
	var res []Loc
	for _, s := range p.W.stores[fv] {
		res = append(res, p.keys(s.Val, nil, d+1, busy)...)
	}
	if len(res) == 0 {
		return unknownLoc("keys of field " + fv.Name())
	}
	return res
}

// fieldFuncs lists the functions stored in the field a called value is loaded from.
func (p *Paths) fieldFuncs(v ssa.Value) []*ssa.Function {
	v = ResolveLocal(v)
	var fv *types.Var
	switch x := v.(type) {
	case *ssa.UnOp:
		fv = FieldVar(x.X)
	case *ssa.Field:
		fv = FieldVar(x)
	}
	if fv == nil {
		return nil
	}
	var res []*ssa.Function
	for _, s := range p.W.stores[fv] {
		switch f := ResolveLocal(Unwrap(s.Val)).(type) {
		case *ssa.MakeClosure:
			res = append(res, canon(f.Fn.(*ssa.Function)))
		case *ssa.Function:
			res = append(res, canon(f))
		case *ssa.Const:
		default:
			return nil
		}
	}
	return res
}

// part describes an element joined to a path.
func (p *Paths) part(v ssa.Value, fr *frame, d int, busy map[pfKey]bool) []string {
	var res []string
	for _, l := range p.of(v, fr, d, busy) {
		switch {
		case strings.HasPrefix(l.Root, "=") && l.Up == 0:
			s := l.Root[1:]
			for i, r := range l.Rest {
				if i == 0 && strings.HasPrefix(r, "+") {
					s += r[1:]
					continue
				}
				s += "/" + r
			}
			res = append(res, s)
		default:
			res = append(res, "{"+l.String()+"}")
		}
	}
	if len(res) == 0 {
		res = []string{"{?}"}
	}
	sort.Strings(res)
	return res
}

func (p *Paths) call(c *ssa.Call, idx int, fr *frame, d int, busy map[pfKey]bool) []Loc {
	args := c.Call.Args
	rec := func(x ssa.Value) []Loc { return p.of(x, fr, d+1, busy) }
	switch MKey(c) {
	case "path/filepath.Join", "path.Join":
		var elems []ssa.Value
		if len(args) == 1 {
			elems = VarArgs(args[0])
		}
		if len(elems) == 0 {
			return unknownLoc("join")
		}
		cur := rec(elems[0])
		for _, e := range elems[1:] {
			var next []Loc
			for _, s := range p.part(e, fr, d+1, busy) {
				for _, l := range cur {
					n := l
					if strings.HasPrefix(s, "{") {
						n = n.child(s)
					} else {
						for _, comp := range strings.Split(s, "/") {
							switch comp {
							case "", ".":
							case "..":
								n = n.dir()
							default:
								n = n.child(comp)
							}
						}
					}
					next = append(next, n)
				}
			}
			cur = next
		}
		// a constant root is a plain relative path
		return cur
	case "path/filepath.Dir", "path.Dir":
		var res []Loc
		for _, l := range rec(args[0]) {
			res = append(res, l.dir())
		}
		return res
	case "path/filepath.Base", "path.Base":
		var res []Loc
		for _, l := range rec(args[0]) {
			res = append(res, Loc{Root: "base(" + l.String() + ")"})
		}
		return res
	case "path/filepath.Clean", "path/filepath.Abs", "path/filepath.ToSlash", "path/filepath.FromSlash", "path/filepath.EvalSymlinks", "path.Clean", "strings.TrimSpace":
		if idx == 0 {
			return rec(args[0])
		}
	case "path/filepath.Rel":
		return []Loc{{Root: "relative"}}
	case "os.Expand", "os.ExpandEnv":
		return rec(args[0])
	case "os.MkdirTemp":
		return []Loc{{Root: "temp"}}
	case "os.TempDir":
		return []Loc{{Root: "tempdir"}}
	case "os.Getwd":
		return []Loc{{Root: "cwd"}}
	case "os.File.Name":
		return p.file(args[0], fr, d, busy)
	case "os.Getenv", "os.LookupEnv":
		if s, ok := ConstString(args[0]); ok {
			return []Loc{{Root: "env:" + s}}
		}
	case "github.com/urfave/cli/v2.Context.Path", "github.com/urfave/cli/v2.Context.String":
		if s, ok := ConstString(args[1]); ok {
			return []Loc{{Root: "flag:" + s}}
		}
	case "fmt.Sprintf":
		n := len(args)
		if s, ok := ConstString(args[0]); ok {
			if n > 1 {
				if vs := VarArgs(args[n-1]); len(vs) > 0 && strings.HasPrefix(s, "%s") {
					var res []Loc
					for _, l := range rec(vs[0]) {
						res = append(res, l.suffix(strconv.Quote(s[2:])))
					}
					return res
				}
			}
			return []Loc{{Root: "formatted " + strconv.Quote(s)}}
		}
		return []Loc{{Root: "formatted"}}
	}
	callees := p.W.callees[c]
	if fs := p.fieldFuncs(c.Call.Value); len(fs) > 0 {
		callees = fs
	}
	if len(callees) == 0 {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok {
			return unknownLoc(b.Name())
		}
		return unknownLoc("result of " + MKey(c))
	}
	depth := 0
	if fr != nil {
		depth = fr.n
	}
	if depth > 8 {
		return unknownLoc("deep")
	}
	var res []Loc
	for _, fn := range callees {
		nf := &frame{call: c, up: fr, n: depth + 1, to: fn}
		for _, r := range Returns(fn) {
			if idx < len(r.Results) {
				res = append(res, p.of(r.Results[idx], nf, d+1, busy)...)
			}
		}
	}
	return res
}

// file gives the name an open file was opened under.
func (p *Paths) file(v ssa.Value, fr *frame, d int, busy map[pfKey]bool) []Loc {
	v = ResolveLocal(v)
	if ex, ok := v.(*ssa.Extract); ok {
		if c, ok := ex.Tuple.(*ssa.Call); ok {
			switch MKey(c) {
			case "os.CreateTemp":
				if s, ok := ConstString(c.Call.Args[0]); ok && s == "" {
					return []Loc{{Root: "temp"}}
				}
				var res []Loc
				for _, l := range p.of(c.Call.Args[0], fr, d+1, busy) {
					res = append(res, l.child("{temp}"))
				}
				return res
			case "os.Create", "os.Open", "os.OpenFile":
				return p.of(c.Call.Args[0], fr, d+1, busy)
			}
		}
	}
	return unknownLoc("file")
}

// FieldLeaf names a field load ("Owner.Name") or address.
func FieldLeaf(v ssa.Value) (string, *types.Var) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if f := FieldVar(x); f != nil {
			return TypeKeyOfField(f) + "." + f.Name(), f
		}
	case *ssa.Field:
		if f := FieldVar(x); f != nil {
			return TypeKeyOfField(f) + "." + f.Name(), f
		}
	}
	return "", nil
}
