package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// List is what is known of the elements of a slice: those before and after a run of elements
// of unknown number (Rest names it; "" when there is none, "?" when its elements are unknown).
type List struct {
	Pre  []AV
	Rest string
	Post []AV
}

// pos is a position in a list: n, or n past the end of the run of unknown length.
type pos struct {
	n int64
	r bool
}

// ASym is a value known by name only.
func ASym(name string) AV { return AV{K: ASymbol, C: constant.MakeString(name)} }

// AListOf is a list.
func AListOf(l List) AV { return AV{K: AList, L: &l} }

func (l *List) String() string {
	if l == nil {
		return "[?]"
	}
	var s []string
	for _, x := range l.Pre {
		s = append(s, x.String())
	}
	if l.Rest != "" {
		s = append(s, l.Rest+"...")
	}
	for _, x := range l.Post {
		s = append(s, x.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (l *List) end() pos {
	return pos{int64(len(l.Pre) + len(l.Post)), l.Rest != ""}
}

// cut is l[lo:hi].
func (l *List) cut(lo, hi pos) (*List, bool) {
	np := int64(len(l.Pre))
	switch {
	case lo == hi:
		return &List{}, true
	case l.Rest == "":
		if lo.r || hi.r || lo.n < 0 || hi.n > np || lo.n > hi.n {
			return nil, false
		}
		return &List{Pre: l.Pre[lo.n:hi.n]}, true
	case !lo.r && !hi.r:
		if lo.n < 0 || hi.n > np || lo.n > hi.n {
			return nil, false
		}
		return &List{Pre: l.Pre[lo.n:hi.n]}, true
	case !lo.r && hi.r:
		if lo.n < 0 || lo.n > np || hi.n < np || hi.n-np > int64(len(l.Post)) {
			return nil, false
		}
		return &List{Pre: l.Pre[lo.n:], Rest: l.Rest, Post: l.Post[:hi.n-np]}, true
	case lo.r && hi.r:
		if lo.n < np || hi.n-np > int64(len(l.Post)) || lo.n > hi.n {
			return nil, false
		}
		return &List{Pre: l.Post[lo.n-np : hi.n-np]}, true
	}
	return nil, false
}

func (l *List) norm() *List {
	if l.Rest == "" && len(l.Post) > 0 {
		return &List{Pre: append(append([]AV(nil), l.Pre...), l.Post...)}
	}
	return l
}

func concat(a, b *List, limit int64) (*List, bool) {
	if int64(len(a.Pre)+len(a.Post)+len(b.Pre)+len(b.Post)) > limit {
		return &List{Rest: "?"}, true // lists which grow in a loop
	}
	if a.Rest == "?" && len(a.Pre)+len(a.Post) == 0 {
		return a, true
	}
	switch {
	case a.Rest == "":
		return &List{Pre: append(append([]AV(nil), a.Pre...), b.Pre...), Rest: b.Rest, Post: b.Post}, true
	case b.Rest == "":
		return &List{Pre: a.Pre, Rest: a.Rest, Post: append(append([]AV(nil), a.Post...), b.Pre...)}, true
	}
	return nil, false
}

// unknown is a list as long as l, of elements which are not known.
func (l *List) unknown() *List {
	r := &List{Pre: make([]AV, len(l.Pre)), Post: make([]AV, len(l.Post))}
	if l.Rest != "" {
		r.Rest = "?"
	}
	return r
}

// overwrite is l with the elements from at on replaced by src's.
func (l *List) overwrite(at pos, src *List) *List {
	src = src.norm()
	end := l.end()
	n := src.end()
	if n.r && at.r {
		return l.unknown()
	}
	stop := pos{at.n + n.n, at.r || n.r}
	if stop.r == end.r && stop.n > end.n || stop.r && !end.r {
		return l.unknown() // the copy is cut short
	}
	// what precedes and what follows, as far as it is aligned with the elements known
	piece := func(lo, hi pos) *List {
		if x, ok := l.cut(lo, hi); ok {
			return x
		}
		if lo.r == hi.r {
			if hi.n < lo.n || hi.n-lo.n > 64 {
				return nil
			}
			p := &List{}
			for i := lo.n; i < hi.n; i++ {
				p.Pre = append(p.Pre, l.at(pos{i, lo.r}))
			}
			return p
		}
		return nil
	}
	a, b := piece(pos{}, at), piece(stop, end)
	if a == nil || b == nil {
		return l.unknown()
	}
	x, ok := concat(a, src, 32)
	if !ok {
		return l.unknown()
	}
	y, ok := concat(x, b, 32)
	if !ok {
		return l.unknown()
	}
	return y.norm()
}

// at is the element at a position (unknown when inside the run).
func (l *List) at(p pos) AV {
	if x, ok := l.cut(p, pos{p.n + 1, p.r}); ok && len(x.Pre) == 1 {
		return x.Pre[0]
	}
	return AV{}
}

// listOf is the list an abstract value denotes in a state.
func (e *Exploration) listOf(a AV, st exState) *List {
	switch a.K {
	case ANil:
		return &List{}
	case AList:
		if a.L != nil {
			return a.L
		}
		if l := st.heap[a.obj]; l != nil {
			if x, ok := l.cut(a.lo, a.hi); ok {
				return x.norm()
			}
		}
	}
	return nil
}

// newList allocates a list.
func (e *Exploration) newList(l *List, st exState) AV {
	l = l.norm()
	id := 1
	for st.heap[id] != nil {
		id++
	}
	st.heap[id] = l
	return AV{K: AList, obj: id, hi: l.end()}
}

// owned gives a list its own storage.
func (e *Exploration) owned(a AV, st exState) AV {
	if a.K == AList && a.L != nil {
		return e.newList(a.L, st)
	}
	return a
}

// snapshot replaces references to the storage by its contents.
func (e *Exploration) snapshot(a AV, st exState) AV {
	if a.K == AList && a.L == nil {
		if l := e.listOf(a, st); l != nil {
			c := &List{Rest: l.Rest}
			for _, x := range l.Pre {
				c.Pre = append(c.Pre, e.snapshot(x, st))
			}
			for _, x := range l.Post {
				c.Post = append(c.Post, e.snapshot(x, st))
			}
			return AV{K: AList, L: c}
		}
		return AV{}
	}
	return a
}

// size is the length of a list.
func size(a AV) (pos, bool) {
	switch {
	case a.K == ANil:
		return pos{}, true
	case a.K != AList:
		return pos{}, false
	case a.L != nil:
		return a.L.end(), true
	}
	return pos{a.hi.n - a.lo.n, a.hi.r && !a.lo.r}, !a.lo.r || a.hi.r
}

func posOf(a AV) (pos, bool) {
	if a.K == ALen {
		return pos{a.hi.n, true}, true
	}
	n, ok := a.Int()
	return pos{n, false}, ok
}

func lenAV(p pos) AV {
	if p.r {
		return AV{K: ALen, hi: p}
	}
	return AInt(p.n)
}

// lenOp is arithmetic on lengths.
func lenOp(op token.Token, a, b AV) AV {
	if a.K != ALen && b.K != ALen {
		return AV{}
	}
	p, ok1 := posOf(a)
	q, ok2 := posOf(b)
	if !ok1 || !ok2 {
		return AV{}
	}
	switch op {
	case token.ADD:
		if !p.r || !q.r {
			return lenAV(pos{p.n + q.n, true})
		}
	case token.SUB:
		if p.r {
			return lenAV(pos{p.n - q.n, !q.r})
		}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if p.r && q.r {
			return ABool(constant.Compare(constant.MakeInt64(p.n), op, constant.MakeInt64(q.n)))
		}
		// one of them is larger by any number
		if q.r {
			p, q = q, p
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		switch {
		case op == token.GTR && p.n > q.n, op == token.GEQ && p.n >= q.n, op == token.NEQ && p.n > q.n:
			return ABool(true)
		case op == token.LSS && p.n >= q.n, op == token.LEQ && p.n > q.n, op == token.EQL && p.n > q.n:
			return ABool(false)
		}
	}
	return AV{}
}

// base is the list an array or slice operand denotes.
func (e *Exploration) base(v ssa.Value, st exState) AV {
	if al, ok := v.(*ssa.Alloc); ok {
		if a, ok := st.env[al]; ok && a.K == AList {
			return a
		}
		return AV{}
	}
	return e.eval(v, st)
}

// evalList evaluates expressions on lists.
func (e *Exploration) evalList(v ssa.Value, st exState) (AV, bool) {
	switch x := v.(type) {
	case *ssa.Slice:
		a := e.base(x.X, st)
		if a.K == ANil {
			return a, true
		}
		if a.K != AList {
			return AV{}, false
		}
		if a.L != nil {
			a = e.owned(a, st)
		}
		lo, hi := a.lo, a.hi
		add := func(b ssa.Value) (pos, bool) {
			p, ok := posOf(e.eval(b, st))
			if !ok || p.r && a.lo.r {
				return pos{}, false
			}
			return pos{a.lo.n + p.n, a.lo.r || p.r}, true
		}
		if x.Low != nil {
			p, ok := add(x.Low)
			if !ok {
				return AV{}, true
			}
			lo = p
		}
		if x.High != nil {
			p, ok := add(x.High)
			if !ok {
				return AV{}, true
			}
			hi = p
		}
		if lo.r && !hi.r || lo.n < 0 || lo.n > hi.n {
			return AV{}, true
		}
		return AV{K: AList, obj: a.obj, lo: lo, hi: hi}, true
	case *ssa.UnOp:
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok || x.Op != token.MUL {
			return AV{}, false
		}
		l := e.listOf(e.base(ia.X, st), st)
		if l == nil {
			return AV{}, false
		}
		p, ok := posOf(e.eval(ia.Index, st))
		if !ok {
			return AV{}, true
		}
		return l.at(p), true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if ok && (b.Name() == "max" || b.Name() == "min") {
			var best AV
			for i, v := range x.Call.Args {
				a := e.eval(v, st)
				if _, ok := a.Int(); !ok {
					return AV{}, true
				}
				if i == 0 || constant.Compare(a.C, token.GTR, best.C) == (b.Name() == "max") {
					best = a
				}
			}
			return best, true
		}
		if !ok || b.Name() != "len" {
			return AV{}, false
		}
		a := e.base(x.Call.Args[0], st)
		if a.K == ANil || a.K == AList {
			if p, ok := size(a); ok {
				return lenAV(p), true
			}
			return AV{}, true
		}
	case *ssa.BinOp:
		a, b := e.eval(x.X, st), e.eval(x.Y, st)
		if a.K == ALen || b.K == ALen {
			return lenOp(x.Op, a, b), true
		}
	}
	return AV{}, false
}

// store assigns an element.
func (e *Exploration) storeElem(ia *ssa.IndexAddr, val AV, st exState) {
	a := e.base(ia.X, st)
	if a.K != AList || a.L != nil {
		return
	}
	l := st.heap[a.obj]
	if l == nil {
		return
	}
	p, ok := posOf(e.eval(ia.Index, st))
	if !ok || p.r && a.lo.r {
		st.heap[a.obj] = l.unknown()
		return
	}
	st.heap[a.obj] = l.overwrite(pos{a.lo.n + p.n, a.lo.r || p.r}, &List{Pre: []AV{val}})
}

// listCall interprets calls which make or change lists; ok is false for other calls.
func (e *Exploration) listCall(c *ssa.Call, st exState) (AV, bool) {
	args := c.Call.Args
	arg := func(i int) AV { return e.base(args[i], st) }
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if len(args) != 2 {
				return AV{}, true
			}
			return e.concat(st, arg(0), arg(1)), true
		case "copy":
			d := arg(0)
			if d.K != AList || d.L != nil || st.heap[d.obj] == nil {
				return AV{}, true
			}
			s := e.listOf(arg(1), st)
			if s == nil {
				st.heap[d.obj] = st.heap[d.obj].unknown()
				return AV{}, true
			}
			// no more than fits
			if dl, ok := size(d); !ok || s.end().r && !dl.r || s.end().r == dl.r && s.end().n > dl.n {
				st.heap[d.obj] = st.heap[d.obj].unknown()
				return AV{}, true
			}
			st.heap[d.obj] = st.heap[d.obj].overwrite(d.lo, s)
			return lenAV(s.end()), true
		}
		return AV{}, false
	}
	switch Key(c) {
	case "slices.Clone", "slices.Grow", "slices.Clip":
		return e.concat(st, arg(0)), true
	case "slices.Contains", "slices.Index":
		l, v := e.listOf(arg(0), st), e.eval(args[1], st)
		if l == nil || l.Rest != "" || v.K != AConst {
			return AV{}, true
		}
		at := -1
		for i, x := range l.norm().Pre {
			if x.K != AConst || x.C.Kind() != v.C.Kind() {
				return AV{}, true
			}
			if at < 0 && constant.Compare(x.C, token.EQL, v.C) {
				at = i
			}
		}
		if Key(c) == "slices.Index" {
			return AInt(int64(at)), true
		}
		return ABool(at >= 0), true
	case "strings.Join":
		sep, ok := e.str(args[1], st)
		l := e.listOf(arg(0), st)
		if e.Objs == nil || !ok || l == nil || l.Rest != "" {
			return AV{}, false
		}
		var ps []string
		for _, x := range l.norm().Pre {
			s, ok := ConstAV(x)
			if !ok {
				return AV{}, true
			}
			ps = append(ps, s)
		}
		return AStr(strings.Join(ps, sep)), true
	case "strings.Split":
		s, ok1 := e.str(args[0], st)
		sep, ok2 := e.str(args[1], st)
		if e.Objs == nil || !ok1 || !ok2 {
			return AV{}, false
		}
		l := &List{}
		for _, p := range strings.Split(s, sep) {
			l.Pre = append(l.Pre, AStr(p))
		}
		if len(l.Pre) > 16 {
			return AV{}, true
		}
		return e.newList(l, st), true
	case "slices.Concat":
		l := e.listOf(arg(0), st)
		if l == nil || l.Rest != "" {
			return AV{}, true
		}
		return e.concat(st, l.norm().Pre...), true
	case "slices.Insert":
		l, vs := e.listOf(arg(0), st), arg(2)
		p, ok := posOf(e.eval(args[1], st))
		if l == nil || !ok {
			return AV{}, true
		}
		a, ok1 := l.cut(pos{}, p)
		b, ok2 := l.cut(p, l.end())
		if !ok1 || !ok2 {
			return AV{}, true
		}
		return e.concat(st, AListOf(*a), vs, AListOf(*b)), true
	case "slices.Delete":
		l := e.listOf(arg(0), st)
		p, ok1 := posOf(e.eval(args[1], st))
		q, ok2 := posOf(e.eval(args[2], st))
		if l == nil || !ok1 || !ok2 {
			return AV{}, true
		}
		a, ok1 := l.cut(pos{}, p)
		b, ok2 := l.cut(q, l.end())
		if !ok1 || !ok2 {
			return AV{}, true
		}
		return e.concat(st, AListOf(*a), AListOf(*b)), true
	}
	return AV{}, false
}

func (e *Exploration) concat(st exState, ls ...AV) AV {
	res := &List{}
	for _, a := range ls {
		l := e.listOf(a, st)
		if l == nil {
			return AV{}
		}
		var ok bool
		if res, ok = concat(res, l.norm(), e.upTo(32)); !ok {
			return AV{}
		}
	}
	return e.newList(res, st)
}

// spoil forgets the lists a call not looked into may change.
func (e *Exploration) spoil(c *ssa.Call, st exState) {
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return
	}
	k := Key(c)
	cs := e.W.Callees(c)
	for i, a := range c.Call.Args {
		if _, ok := a.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		l := e.eval(a, st)
		if l.K != AList || l.L != nil {
			continue
		}
		bad := strings.HasPrefix(k, "sort.") || strings.HasPrefix(k, "slices.Sort") || strings.HasPrefix(k, "slices.Reverse") || strings.HasPrefix(k, "slices.Compact") || strings.HasPrefix(k, "slices.Replace")
		for _, g := range cs {
			for j, p := range g.Params {
				if ArgOf(c, j) == nil || ArgOf(c, j) != a || i < 0 {
					continue
				}
				for _, r := range *p.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, rr := range *ia.Referrers() {
							if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
								bad = true
							}
						}
					}
				}
			}
		}
		if bad && st.heap[l.obj] != nil {
			st.heap[l.obj] = st.heap[l.obj].unknown()
		}
	}
}

func heapKey(h map[int]*List) string {
	ids := make([]int, 0, len(h))
	for i := range h {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&b, "%d=%s;", i, h[i])
	}
	return b.String()
}

// collect forgets the lists made since the function was entered to which nothing refers any more.
func collect(st exState, keep map[int]*List) {
	if len(st.heap) == len(keep) {
		return
	}
	used := map[int]bool{}
	var mark func(a AV)
	mark = func(a AV) {
		for _, t := range a.T {
			mark(t)
		}
		if a.L != nil {
			for _, x := range a.L.Pre {
				mark(x)
			}
			for _, x := range a.L.Post {
				mark(x)
			}
		}
		if a.obj != 0 && !used[a.obj] {
			used[a.obj] = true
			if l := st.heap[a.obj]; l != nil {
				mark(AV{L: l})
			}
		}
	}
	for _, a := range st.env {
		mark(a)
	}
	for _, a := range st.mem {
		mark(a)
	}
	for _, a := range st.objs {
		mark(a)
	}
	for id, l := range st.heap {
		if keep[id] != nil {
			mark(AV{L: l})
		}
	}
	for id := range st.heap {
		if !used[id] && keep[id] == nil {
			delete(st.heap, id)
		}
	}
}

// searchCall interprets the searches of known lists with a function; ok is false for other calls.
func (e *Exploration) searchCall(c *ssa.Call, st exState, depth int) ([]Outcome, bool) {
	k := Key(c)
	switch k {
	case "slices.ContainsFunc", "slices.IndexFunc", "slices.EqualFunc":
	default:
		return nil, false
	}
	args := c.Call.Args
	ls := []*List{e.listOf(e.base(args[0], st), st)}
	if k == "slices.EqualFunc" {
		ls = append(ls, e.listOf(e.base(args[1], st), st))
	}
	var res []Outcome
	done := func(s exState, a AV) {
		res = append(res, Outcome{Rets: []AV{a}, Events: keysSorted(s.evs), heap: s.heap, objs: s.objs})
	}
	if len(ls) == 2 && ls[0] != nil && (ls[1] == nil || ls[1].Rest != "") {
		// of another length, or of the same with unknown elements
		done(st.clone(), ABool(false))
		ls[1] = &List{Pre: make([]AV, ls[0].end().n)}
	}
	for i, l := range ls {
		if l == nil || l.Rest != "" || l.end().n > 16 {
			return nil, false
		}
		ls[i] = l.norm()
	}
	if len(ls) == 2 && len(ls[0].Pre) != len(ls[1].Pre) {
		return []Outcome{{Rets: []AV{ABool(false)}, heap: st.clone().heap, objs: st.clone().objs}}, true
	}
	var g *ssa.Function
	var mc *ssa.MakeClosure
	switch f := e.resolve(args[len(args)-1], st).(type) {
	case *ssa.Function:
		g = f
	case *ssa.MakeClosure:
		g, mc = f.Fn.(*ssa.Function), f
		for _, fv := range g.FreeVars {
			if _, ok := fv.Type().(*types.Pointer); ok && !onlyRead(fv) {
				return nil, false
			}
		}
	}
	if g == nil || len(g.Blocks) == 0 || depth > 5 {
		return nil, false
	}
	states := []exState{st.clone()}
	for i := range ls[0].Pre {
		var next []exState
		for _, s := range states {
			n := newState()
			n.heap, n.objs = s.clone().heap, s.clone().objs
			for ev := range s.evs {
				n.evs[ev] = true
			}
			for j, p := range g.Params {
				if j < len(ls) {
					n.env[p] = ls[j].Pre[i]
				}
			}
			if mc != nil {
				for j, fv := range g.FreeVars {
					n.env[fv] = e.eval(mc.Bindings[j], st)
				}
				e.bindCaptured(mc, g, st, n)
			}
			for _, o := range e.fn(g, n, depth+1) {
				if o.Panics {
					res = append(res, o)
					continue
				}
				m := s.clone()
				for _, ev := range o.Events {
					m.evs[ev] = true
				}
				if o.heap != nil {
					m.heap = o.heap
				}
				if o.objs != nil {
					m.objs = o.objs
				}
				yes := o.Rets[0]
				if k == "slices.EqualFunc" {
					if !yes.IsTrue() {
						done(m, ABool(false))
					}
					if !yes.IsFalse() {
						next = append(next, m)
					}
					continue
				}
				if !yes.IsFalse() {
					if k == "slices.IndexFunc" {
						done(m, AInt(int64(i)))
					} else {
						done(m, ABool(true))
					}
				}
				if !yes.IsTrue() {
					next = append(next, m)
				}
			}
		}
		states = next
		if len(states) > 64 {
			return nil, false
		}
	}
	for _, s := range states {
		switch k {
		case "slices.IndexFunc":
			done(s, AInt(-1))
		case "slices.EqualFunc":
			done(s, ABool(true))
		default:
			done(s, ABool(false))
		}
	}
	return res, true
}
