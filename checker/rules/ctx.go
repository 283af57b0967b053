// Package rules holds the repository-specific static analyses, one file per area.
package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

// Ob is one proof obligation: a rule applied to a construct.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	OK        bool   `json:"ok"`
	Msg       string `json:"msg,omitempty"`
}

// Key identifies a finding independently of line numbers.
func (o Ob) Key() string { return o.Rule + " :: " + o.Construct }

// Ctx collects the obligations of one property on one program.
type Ctx struct {
	W     *eng.World
	ID    string
	Tier  string
	Obs   []Ob
	Notes map[string]int
	rules map[string]string
	seen  map[string]bool
}

func NewCtx(w *eng.World, id, tier string) *Ctx {
	return &Ctx{W: w, ID: id, Tier: tier, Notes: map[string]int{}, rules: map[string]string{}, seen: map[string]bool{}}
}

// Rules returns the rule descriptions used.
func (c *Ctx) Rules() map[string]string { return c.rules }

// Rule declares a rule and returns a recorder for it.
func (c *Ctx) Rule(id, desc string) *R {
	c.rules[id] = desc
	return &R{c: c, id: id}
}

// Count accumulates a named coverage counter.
func (c *Ctx) Count(name string, n int) { c.Notes[name] += n }

// R records obligations of one rule.
type R struct {
	c  *Ctx
	id string
	n  int
}

func (r *R) add(ok bool, construct, pos, msg string) {
	r.n++
	base := construct
	for i := 2; r.c.seen[r.id+construct]; i++ {
		construct = fmt.Sprintf("%s#%d", base, i)
	}
	r.c.seen[r.id+construct] = true
	r.c.Obs = append(r.c.Obs, Ob{r.id, construct, pos, ok, msg})
}

// OK records a discharged obligation.
func (r *R) OK(construct, pos string) { r.add(true, construct, pos, "") }

// Bad records a violated obligation.
func (r *R) Bad(construct, pos, format string, args ...any) {
	r.add(false, construct, pos, fmt.Sprintf(format, args...))
}

// Check records ok or a violation.
func (r *R) Check(ok bool, construct, pos, format string, args ...any) bool {
	if ok {
		r.OK(construct, pos)
	} else {
		r.Bad(construct, pos, format, args...)
	}
	return ok
}

// Min fails when fewer than n instances of the rule were found: the analysis lost its subject.
func (r *R) Min(n int) {
	if r.n < n {
		r.Bad("instances", "-", "rule %s found %d instance(s), at least %d expected: the construct it guards is gone or unrecognised", r.id, r.n, n)
	}
}

// N is the number of instances so far.
func (r *R) N() int { return r.n }

// Fn resolves an anchor function; a missing anchor is a violation (the obligation cannot be discharged).
func (r *R) Fn(rel, name string) *ssa.Function {
	f := r.c.W.Func(rel, name)
	if f == nil || f.Blocks == nil {
		r.Bad("anchor "+rel+"."+name, "-", "anchor function %s.%s not found", rel, name)
		return nil
	}
	return f
}

// Field resolves an anchor struct field.
func (r *R) Field(rel, typ, field string) *types.Var {
	v := r.c.W.Field(rel, typ, field)
	if v == nil {
		r.Bad("anchor "+rel+"."+typ+"."+field, "-", "anchor field not found")
	}
	return v
}

// Region returns fn plus every function of the same package reachable from it
// through module calls and closures (helpers a refactoring might extract).
func (c *Ctx) Region(fns ...*ssa.Function) []*ssa.Function {
	var roots []*ssa.Function
	pk := map[string]bool{}
	for _, f := range fns {
		if f != nil {
			roots = append(roots, f)
			pk[eng.PkgOf(f)] = true
		}
	}
	seen := map[*ssa.Function]bool{}
	var res []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !pk[eng.PkgOf(f)] {
			return
		}
		seen[f] = true
		res = append(res, f)
		for _, ci := range eng.Calls(f) {
			for _, g := range c.W.Callees(ci) {
				walk(g)
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, f := range roots {
		walk(f)
	}
	return res
}

// Prop is a property's analysis.
type Prop struct {
	ID        string
	Technique string
	Level     string
	Run       func(c *Ctx)
	// AllOS: the thorough tier repeats the analysis for the other supported systems.
	AllOS bool
}

var registry = map[string]*Prop{}

func register(p *Prop) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

// Get returns a property analysis.
func Get(id string) *Prop { return registry[id] }

// IDs lists the registered properties.
func IDs() []string {
	var res []string
	for id := range registry {
		res = append(res, id)
	}
	sort.Strings(res)
	return res
}

func short(f *ssa.Function) string { return eng.Name(f) }

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func join(l []string) string { return strings.Join(l, ", ") }

func keysOf[V any](m map[string]V) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}
