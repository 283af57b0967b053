// Package eng loads the repository under analysis and provides the shared
// static-analysis primitives (call resolution, branch guards, must-precede and
// must-follow dataflow, value provenance) on top of go/ssa.
package eng

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ModPath is the module under analysis.
const ModPath = "github.com/DataDog/orchestrion"

// World is the loaded and type-checked program.
type World struct {
	carryExtra map[string]bool
	carryVia   Via
	carryCalls []*ssa.Call
	Repo       string
	GOOS       string
	Fset       *token.FileSet
	Pkgs       []*packages.Package // module packages only
	byPath     map[string]*packages.Package
	Prog       *ssa.Program
	ssaPkg     map[string]*ssa.Package

	Funcs   []*ssa.Function // every module function with a body (incl. anonymous)
	callers map[*ssa.Function][]ssa.CallInstruction
	callees map[ssa.CallInstruction][]*ssa.Function
	closure map[*ssa.Function][]*ssa.MakeClosure // where an anonymous function is materialised
	fnRefs  map[*ssa.Function][]ssa.Instruction  // non-call references of a function value
	stores  map[*types.Var][]Store               // field -> values stored in it
	gstores map[*ssa.Global][]ssa.Value
	decls   map[*types.Func]*ast.FuncDecl

	scope     map[*ssa.Function]bool // see Within
	scopeRoot *ssa.Function

	namedTypes []*types.Named
}

// Store is a value written to a struct field.
type Store struct {
	Val   ssa.Value
	Instr ssa.Instruction
}

// Load loads ./... of the repository (non-test files) for the given GOOS.
func Load(repo, goos string) (*World, error) {
	env := os.Environ()
	if goos != "" && goos != runtime.GOOS {
		env = append(env, "GOOS="+goos, "CGO_ENABLED=0")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedModule | packages.NeedEmbedFiles | packages.NeedDeps | packages.NeedExportFile,
		Dir:  repo,
		Env:  env,
		Fset: fset,
		// Only the module's own packages are parsed; dependencies come from export data.
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.IllTyped {
			errs = append(errs, p.PkgPath+": ill-typed")
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-checking %s: %s", repo, strings.Join(errs, "; "))
	}
	if len(pkgs) < 30 {
		return nil, fmt.Errorf("only %d packages loaded", len(pkgs))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })

	w := &World{Repo: repo, GOOS: goos, Fset: fset, Pkgs: pkgs,
		byPath:  map[string]*packages.Package{},
		ssaPkg:  map[string]*ssa.Package{},
		callers: map[*ssa.Function][]ssa.CallInstruction{},
		callees: map[ssa.CallInstruction][]*ssa.Function{},
		closure: map[*ssa.Function][]*ssa.MakeClosure{},
		fnRefs:  map[*ssa.Function][]ssa.Instruction{},
		stores:  map[*types.Var][]Store{},
		gstores: map[*ssa.Global][]ssa.Value{},
		decls:   map[*types.Func]*ast.FuncDecl{},
	}
	prog, spkgs := ssautil.Packages(pkgs, 0)
	prog.Build()
	w.Prog = prog
	for i, p := range pkgs {
		w.byPath[p.PkgPath] = p
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		w.ssaPkg[p.PkgPath] = spkgs[i]
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					w.namedTypes = append(w.namedTypes, nt)
					ownFields(nt)
				}
			}
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if fo, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						w.decls[fo] = fd
					}
				}
			}
		}
	}
	w.collect()
	w.index()
	return w, nil
}

// Pkg returns the module package with the given path relative to the module root ("" is the root).
func (w *World) Pkg(rel string) *packages.Package { return w.byPath[full(rel)] }

// Packages lists the module's packages, by path.
func (w *World) Packages() []*packages.Package {
	var res []*packages.Package
	for _, p := range w.byPath {
		if w.InModule(p.Types) {
			res = append(res, p)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].PkgPath < res[j].PkgPath })
	return res
}

func full(rel string) string {
	if rel == "" {
		return ModPath
	}
	return ModPath + "/" + rel
}

// InModule tells whether the package belongs to the module under analysis.
func (w *World) InModule(p *types.Package) bool {
	return p != nil && w.byPath[p.Path()] != nil
}

func (w *World) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range w.Pkgs {
		sp := w.ssaPkg[p.PkgPath]
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok {
				add(f)
			}
		}
		for _, n := range w.namedTypes {
			if n.Obj().Pkg() != p.Types {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(w.Prog.FuncValue(n.Method(i)))
			}
		}
		// Methods of locally declared types & init functions.
		for fo := range w.decls {
			if fo.Pkg() == p.Types {
				add(w.Prog.FuncValue(fo))
			}
		}
	}
	// "init#N" functions are members already; order everything by position.
	sort.SliceStable(w.Funcs, func(i, j int) bool {
		pi, pj := w.Fset.Position(w.Funcs[i].Pos()), w.Fset.Position(w.Funcs[j].Pos())
		if pi.Filename != pj.Filename {
			return pi.Filename < pj.Filename
		}
		if pi.Offset != pj.Offset {
			return pi.Offset < pj.Offset
		}
		return w.Funcs[i].String() < w.Funcs[j].String()
	})
}

func canon(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func (w *World) index() {
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeClosure:
					if fn, ok := in.Fn.(*ssa.Function); ok {
						w.closure[fn] = append(w.closure[fn], in)
					}
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						if v := FieldVar(a); v != nil {
							w.stores[v] = append(w.stores[v], Store{in.Val, in})
						}
					case *ssa.Global:
						w.gstores[a] = append(w.gstores[a], in.Val)
					}
				}
				var static *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					static = canon(c.Common().StaticCallee())
				}
				_ = static
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					fn, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == fn && op == &c.Common().Value {
						continue
					}
					w.fnRefs[canon(fn)] = append(w.fnRefs[canon(fn)], in)
				}
			}
		}
	}
	// Static & interface calls first, then function values (which need stores + callers).
	type pend struct{ c ssa.CallInstruction }
	var pending []ssa.CallInstruction
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := c.Common()
				if cm.IsInvoke() {
					for _, m := range w.implementors(cm) {
						w.link(c, m)
					}
				} else if sc := cm.StaticCallee(); sc != nil {
					w.link(c, canon(sc))
				} else if _, ok := cm.Value.(*ssa.Builtin); !ok {
					pending = append(pending, c)
				}
			}
		}
	}
	for round := 0; round < 2; round++ {
		for _, c := range pending {
			for _, fn := range w.funcValues(c.Common().Value) {
				w.link(c, fn)
			}
		}
	}
}

func (w *World) link(c ssa.CallInstruction, fn *ssa.Function) {
	if fn == nil || fn.Blocks == nil {
		return // external: no body
	}
	for _, f := range w.callees[c] {
		if f == fn {
			return
		}
	}
	w.callees[c] = append(w.callees[c], fn)
	w.callers[fn] = append(w.callers[fn], c)
}

// implementors resolves an interface method call to the module's methods.
func (w *World) implementors(cm *ssa.CallCommon) []*ssa.Function {
	it, ok := cm.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res []*ssa.Function
	for _, n := range w.namedTypes {
		if n.TypeParams().Len() > 0 || types.IsInterface(n) {
			continue
		}
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if !types.Implements(t, it) {
				continue
			}
			ms := types.NewMethodSet(t)
			sel := ms.Lookup(cm.Method.Pkg(), cm.Method.Name())
			if sel == nil {
				continue
			}
			fo, ok := sel.Obj().(*types.Func)
			if !ok {
				continue
			}
			if fn := w.Prog.FuncValue(fo); fn != nil {
				res = append(res, canon(fn))
			}
			break
		}
	}
	return res
}

// funcValues resolves a function-typed value to the module functions it can denote.
func (w *World) funcValues(v ssa.Value) []*ssa.Function {
	var res []*ssa.Function
	w.Origins(v, func(o ssa.Value) Step {
		switch o := o.(type) {
		case *ssa.Function:
			res = append(res, canon(o))
			return Stop
		case *ssa.MakeClosure:
			if fn, ok := o.Fn.(*ssa.Function); ok {
				// Bound method wrappers: resolve to the method itself.
				if fn.Synthetic != "" && fn.Object() != nil {
					if fo, ok := fn.Object().(*types.Func); ok {
						if m := w.Prog.FuncValue(fo); m != nil {
							res = append(res, canon(m))
							return Stop
						}
					}
				}
				res = append(res, canon(fn))
			}
			return Stop
		}
		return Follow
	})
	return res
}

// Callees returns the module functions a call can reach.
func (w *World) Callees(c ssa.CallInstruction) []*ssa.Function { return w.callees[c] }

// Callers returns the call sites (in the module) of a function.
func (w *World) Callers(f *ssa.Function) []ssa.CallInstruction { return w.callers[canon(f)] }

// ClosureSites returns the places where an anonymous function is created.
func (w *World) ClosureSites(f *ssa.Function) []*ssa.MakeClosure { return w.closure[f] }

// FnRefs returns the instructions which use f as a value.
func (w *World) FnRefs(f *ssa.Function) []ssa.Instruction { return w.fnRefs[canon(f)] }

// FieldStores returns every value stored to the given struct field.
func (w *World) FieldStores(v *types.Var) []Store { return w.stores[v] }

// FieldVar returns the field selected by a FieldAddr / Field instruction.
func FieldVar(v ssa.Value) *types.Var {
	var t types.Type
	var i int
	switch v := v.(type) {
	case *ssa.FieldAddr:
		t, i = v.X.Type(), v.Field
	case *ssa.Field:
		t, i = v.X.Type(), v.Field
	default:
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	f := st.Field(i)
	return f.Origin()
}

// Func finds a module function: Func("internal/x", "Name") or Func("internal/x", "Type.Method").
func (w *World) Func(rel, name string) *ssa.Function {
	p := w.Pkg(rel)
	if p == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, ok := p.Types.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			return nil
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			return nil
		}
		for j := 0; j < nt.NumMethods(); j++ {
			if nt.Method(j).Name() == name[i+1:] {
				return w.Prog.FuncValue(nt.Method(j))
			}
		}
		return nil
	}
	fo, ok := p.Types.Scope().Lookup(name).(*types.Func)
	if !ok {
		return nil
	}
	return w.Prog.FuncValue(fo)
}

// Type finds a module named type.
func (w *World) Type(rel, name string) *types.Named {
	p := w.Pkg(rel)
	if p == nil {
		return nil
	}
	tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	nt, _ := tn.Type().(*types.Named)
	return nt
}

// NamedTypes lists all package-level named types of the module.
func (w *World) NamedTypes() []*types.Named { return w.namedTypes }

// Globals lists the package-level variables of a module package, by name.
func (w *World) Globals(rel string) []*ssa.Global {
	var res []*ssa.Global
	for _, p := range w.ssaPkg {
		if p == nil || p.Pkg.Path() != ModPath+"/"+rel {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				res = append(res, g)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Name() < res[j].Name() })
	return res
}

// Field finds a field of a module struct type.
func (w *World) Field(rel, typ, field string) *types.Var {
	nt := w.Type(rel, typ)
	if nt == nil {
		return nil
	}
	st, ok := nt.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i)
		}
	}
	return nil
}

// FuncsIn returns the module functions declared in the given package (relative path).
func (w *World) FuncsIn(rels ...string) []*ssa.Function {
	var res []*ssa.Function
	for _, f := range w.Funcs {
		for _, r := range rels {
			if PkgOf(f) == full(r) {
				res = append(res, f)
				break
			}
		}
	}
	return res
}

// PkgOf returns the package path of a function (looking through closures).
func PkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// Rel is PkgOf relative to the module.
func Rel(f *ssa.Function) string {
	return strings.TrimPrefix(strings.TrimPrefix(PkgOf(f), ModPath), "/")
}

// Name renders a function name without the module prefix.
func Name(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	return strings.ReplaceAll(f.String(), ModPath+"/", "")
}

// Pos renders a repo-relative position.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := w.Fset.Position(p)
	fn := ps.Filename
	if r, err := filepath.Rel(w.Repo, fn); err == nil && !strings.HasPrefix(r, "..") {
		fn = r
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

// At renders the position of an instruction, falling back to its neighbours/function.
func (w *World) At(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return w.Pos(in.Pos())
	}
	if b := in.Block(); b != nil {
		idx := -1
		for i, x := range b.Instrs {
			if x == in {
				idx = i
			}
		}
		for i := idx; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return w.Pos(b.Instrs[i].Pos())
			}
		}
		for i := idx + 1; i < len(b.Instrs); i++ {
			if b.Instrs[i].Pos().IsValid() {
				return w.Pos(b.Instrs[i].Pos())
			}
		}
	}
	if in.Parent() != nil {
		return w.Pos(in.Parent().Pos())
	}
	return "-"
}

// Root returns the outermost enclosing declared function.
func Root(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// WithAnon returns f and all functions nested in it.
func WithAnon(f *ssa.Function) []*ssa.Function {
	if f == nil {
		return nil
	}
	res := []*ssa.Function{f}
	for _, a := range f.AnonFuncs {
		res = append(res, WithAnon(a)...)
	}
	return res
}

// Init is the initialiser of a package of the module.
func (w *World) Init(rel string) []*ssa.Function {
	for _, f := range w.Funcs {
		if PkgOf(f) == full(rel) && f.Pkg != nil {
			if in := f.Pkg.Func("init"); in != nil {
				return []*ssa.Function{in}
			}
		}
	}
	return nil
}
