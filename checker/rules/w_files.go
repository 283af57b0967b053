package rules

import (
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"orchverif/eng"
)

func init() {
	register(&Prop{ID: "W05", Technique: "effect analysis of every file system change with symbolic evaluation of the paths changed; path analysis of backups before overwriting", Run: runFiles})
}

// fsEffects: functions that change files, and which of their arguments are the paths changed.
var fsEffects = map[string][]int{
	"os.Create": {0}, "os.WriteFile": {0}, "os.OpenFile": {0}, "os.Rename": {0, 1}, "os.Remove": {0}, "os.RemoveAll": {0},
	"os.Truncate": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Lchown": {0}, "os.Chtimes": {0},
	"os.Link": {1}, "os.Symlink": {1}, "os.MkdirTemp": {0}, "os.CreateTemp": {0}, "os.CopyFS": {0},
	"io/ioutil.WriteFile": {0}, "io/ioutil.TempDir": {0}, "io/ioutil.TempFile": {0},
	"syscall.Unlink": {0}, "syscall.Rename": {0, 1}, "syscall.Rmdir": {0}, "syscall.Open": {0}, "syscall.Truncate": {0}, "syscall.Link": {1},
}

const (
	outputField = "internal/toolexec/proxy.compileFlagSet.Output"
	asmhdrField = "internal/toolexec/proxy.compileFlagSet.Asmhdr"
)

// importCfgs: the fields holding the name of the import configuration of a command.
var importCfgs = []string{"internal/toolexec/proxy.compileFlagSet.ImportCfg", "internal/toolexec/proxy.linkFlagSet.ImportCfg"}

type fsEffect struct {
	call ssa.CallInstruction
	kind string
	arg  int
	loc  eng.Loc
}

func runFiles(c *Ctx) {
	owned := c.Rule("owned", "every file created, written, renamed or removed is one orchestrion owns: in a temporary directory of its own, below the output directory of the package, the archive being compiled, an import configuration, its bookkeeping in the work tree, or a file the user named")
	woven := c.Rule("woven-files", "a woven file is written to the place the compilation names for it, which is below the output directory and different for each source")
	backup := c.Rule("backup", "an import configuration is only written once the one it replaces has been kept under its name with .original appended, and a backup is never overwritten")
	keep := c.Rule("keeps-content", "an existing file that is opened for writing is not truncated by opening it, and archives are only appended to")

	p := c.filePaths(woven)
	fs := c.shipped()
	var effs []fsEffect
	for _, f := range fs {
		for _, ci := range eng.Calls(f) {
			kind := eng.MKey(ci)
			idx, ok := fsEffects[kind]
			if !ok {
				continue
			}
			if kind == "os.OpenFile" {
				fl, ok := eng.ConstInt(eng.ArgOf(ci, 1))
				if !keep.Check(ok, "OpenFile in "+short(f), c.W.At(ci), "cannot tell how a file is opened") {
					continue
				}
				if fl&int64(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
					continue
				}
				keep.Check(fl&int64(os.O_TRUNC) == 0, "OpenFile in "+short(f)+" truncation", c.W.At(ci), "opening the file discards what it holds")
			}
			for _, i := range idx {
				for _, l := range p.Of(eng.ArgOf(ci, i)) {
					effs = append(effs, fsEffect{ci, kind, i, l})
				}
			}
		}
	}
	sort.Slice(effs, func(i, j int) bool {
		if a, b := c.W.At(effs[i].call), c.W.At(effs[j].call); a != b {
			return a < b
		}
		return effs[i].loc.String() < effs[j].loc.String()
	})
	for _, e := range effs {
		why := c.ownedLoc(e, keep)
		owned.Check(why != "", e.kind+" "+e.loc.String(), c.W.At(e.call), "%s changes %s, which is not orchestrion's to change", short(e.call.Parent()), e.loc)
		c.Count("file system changes: "+why, 1)
	}
	owned.Min(20)
	keep.Min(4)
	c.wovenFiles(woven, p, effs)
	c.importCfgBackups(backup, p, effs)
}

// ownedLoc says why a location is orchestrion's to change ("" when it is not).
func (c *Ctx) ownedLoc(e fsEffect, keep *R) string {
	l := e.loc
	if strings.HasPrefix(l.Root, "flag:") || strings.HasPrefix(l.Root, "env:ORCHESTRION_") {
		return "named by the user"
	}
	if !cleanParts(l) {
		return ""
	}
	switch {
	case l.Root == "temp" && l.Up == 0:
		return "temporary directory"
	case e.kind == "os.MkdirTemp" || e.kind == "os.CreateTemp":
		// A new, unique name: nothing existing is changed, wherever it is...
		if strings.HasPrefix(l.Root, "=") || l.Root == "tempdir" {
			return "temporary directory"
		}
		return c.pinned(l.String())
	case l.Root == "tempdir" && l.Up == 0 && len(l.Rest) == 1 && e.kind == "os.OpenFile":
		return "lock file"
	case l.Root == "published" && l.Up == 0 && len(l.Rest) == 1 && l.Rest[0] == "+.reused":
		return "marker"
	case l.Root == outputField && l.Up == 1 && len(l.Rest) > 1 && l.Rest[0] == "orchestrion":
		if e.kind == "os.Create" || e.kind == "os.WriteFile" {
			return "output directory"
		}
	case (l.Root == outputField || l.Root == asmhdrField) && l.Up == 0 && len(l.Rest) == 0:
		switch e.kind {
		case "os.Create":
			return "output"
		case "os.OpenFile":
			fl, _ := eng.ConstInt(eng.ArgOf(e.call, 1))
			keep.Check(fl&int64(os.O_APPEND) != 0 && fl&int64(os.O_RDWR|os.O_CREATE) == 0, "OpenFile "+l.String(), c.W.At(e.call), "the archive is opened to be overwritten rather than appended to")
			return "output"
		}
	case has(importCfgs, l.Root) && l.Up == 0 && len(l.Rest) == 0:
		if e.kind == "os.Create" || e.kind == "os.Rename" && e.arg == 0 || e.kind == "os.WriteFile" {
			return "import configuration"
		}
	case has(importCfgs, l.Root) && l.Up == 0 && len(l.Rest) == 1 && l.Rest[0] == "+.original":
		if e.kind == "os.Rename" && e.arg == 1 {
			return "import configuration backup"
		}
	case (has(importCfgs, l.Root) && l.Up == 2 || l.Root == "=" && l.Up == 0) && len(l.Rest) == 1 && strings.HasPrefix(l.Rest[0], ".orchestrion-jobserver"):
		return "job server bookkeeping"
	case l.Root == "cwd" && l.Up == 0 && len(l.Rest) == 1 && strings.HasPrefix(l.Rest[0], "{flag:"):
		return "named by the user"
	}
	if n := len(l.Rest); n > 0 && l.Rest[n-1] == "{temp}" && strings.HasPrefix(e.kind, "os.Remove") {
		return "temporary file" // wherever it was created
	}
	if e.kind == "os.Rename" {
		return c.pinned(l.String())
	}
	return ""
}

// pinned: the file the pin command maintains, and the temporary file it is replaced by.
func (c *Ctx) pinned(s string) string {
	for _, root := range []string{"dir(gomod)", "dir(=)"} {
		if s == root || s == root+"/{temp}" || s == root+"/orchestrion.tool.go" {
			return "pinned tool file"
		}
	}
	return ""
}

// cleanParts: the elements joined to the root cannot lead out of it.
func cleanParts(l eng.Loc) bool {
	if strings.HasPrefix(l.Root, "?") {
		return false
	}
	for _, r := range l.Rest {
		if !strings.HasPrefix(r, "{") {
			continue
		}
		r = strings.TrimSuffix(strings.TrimPrefix(r, "{"), "}")
		switch {
		case strings.HasPrefix(r, "base("), strings.HasPrefix(r, "formatted "), r == "temp", strings.HasPrefix(r, "flag:"):
		case r == "internal/toolexec/proxy.compileFlagSet.Package", r == "uuid":
		default:
			return false
		}
	}
	return true
}

// filePaths evaluates paths in terms of the values the toolchain and the user name files by.
func (c *Ctx) filePaths(r *R) *eng.Paths {
	mod := r.Field("internal/injector", "Injector", "ModifiedFile")
	set := mod != nil && c.alwaysSet(mod)
	var p *eng.Paths
	p = &eng.Paths{W: c.W, Leaf: func(v ssa.Value) string {
		n, f := eng.FieldLeaf(v)
		if f != nil {
			switch {
			case n == "internal/jobserver/nbt.StartResponse.Files":
				return "published"
			case f.Pkg() != nil && f.Pkg().Path() == "github.com/dave/dst/decorator" && f.Name() == "Filenames":
				return "source"
			case n == "internal/toolexec/proxy.compileFlagSet.Package", n == outputField, n == asmhdrField, has(importCfgs, n):
				if len(c.W.FieldStores(f)) > 0 {
					return "?overwritten " + n
				}
				return n
			}
			return ""
		}
		switch x := v.(type) {
		case *ssa.Call:
			switch eng.MKey(x) {
			case "github.com/google/uuid.UUID.String":
				return "uuid"
			case "internal/goenv.GOMOD":
				return "gomod"
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok && eng.MKey(call) == "internal/goenv.GOMOD" && x.Index == 0 {
				return "gomod"
			}
		case *ssa.Parameter:
			// the value of a flag, in its action
			f := x.Parent()
			if len(c.W.Callers(f)) == 0 && len(f.Params) == 2 && f.Params[1] == x && eng.TypeKey(f.Params[0].Type()) == "github.com/urfave/cli/v2.Context" {
				return "flag:" + x.Name()
			}
		}
		return ""
	}, SkipEdge: func(phi *ssa.Phi, i int) bool {
		if !set {
			return false
		}
		pred := phi.Block().Preds[i]
		lits := eng.DomLits(pred)
		if l, ok := eng.EdgeLit(pred, phi.Block()); ok {
			lits = append(lits, l)
		}
		for _, l := range lits {
			if nilLit(l, func(v ssa.Value) bool { return isFieldVal(v, mod) }) == "nil" {
				return true
			}
		}
		return false
	}}
	return p
}

// alwaysSet: whoever makes a struct with the field gives it a function.
func (c *Ctx) alwaysSet(fv *types.Var) bool {
	owner := eng.TypeKeyOfField(fv)
	group := map[*ssa.Alloc]*ssa.Alloc{}
	var find func(a *ssa.Alloc) *ssa.Alloc
	find = func(a *ssa.Alloc) *ssa.Alloc {
		for group[a] != a {
			a = group[a]
		}
		return a
	}
	instrs(c.shipped(), func(_ *ssa.Function, in ssa.Instruction) {
		if al, ok := in.(*ssa.Alloc); ok && eng.TypeKey(eng.Deref(al.Type())) == owner {
			group[al] = al
		}
	})
	filled, foreign := map[*ssa.Alloc]bool{}, map[*ssa.Alloc]bool{}
	bad := false
	for al := range group {
		for _, r := range *al.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr != al {
					continue
				}
				if u, ok := x.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					if src, ok := u.X.(*ssa.Alloc); ok && group[src] != nil {
						group[find(al)] = find(src)
						continue
					}
				}
				foreign[al] = true
			case *ssa.FieldAddr:
				if eng.FieldVar(x) != fv {
					continue
				}
				for _, v := range storedIn(x) {
					switch eng.ResolveLocal(eng.Unwrap(v)).(type) {
					case *ssa.MakeClosure, *ssa.Function:
						filled[al] = true
					default:
						bad = true
					}
				}
			}
		}
	}
	ok := map[*ssa.Alloc]bool{}
	for al := range group {
		ok[find(al)] = ok[find(al)] || filled[al] || foreign[al]
	}
	for al := range group {
		bad = bad || !ok[find(al)]
	}
	return !bad && len(filled) > 0
}

// wovenFiles: where woven files go.
func (c *Ctx) wovenFiles(r *R, p *eng.Paths, effs []fsEffect) {
	var dirs []string
	n := 0
	for _, e := range effs {
		f := eng.Root(e.call.Parent())
		if !strings.HasPrefix(eng.PkgOf(f), eng.ModPath+"/internal/injector") && eng.PkgOf(f) != "internal/injector" {
			continue
		}
		n++
		l := e.loc
		last := ""
		if k := len(l.Rest); k > 0 {
			last = l.Rest[k-1]
		}
		r.Check(l.Root == outputField && l.Up == 1 && last == "{base(source)}", "written to "+l.String(), c.W.At(e.call), "a woven file is written to %s: not below the output directory of the package under the name of its source", l)
		if len(l.Rest) > 0 {
			dirs = append(dirs, strings.ReplaceAll(strings.Join(l.Rest[:len(l.Rest)-1], "/"), "{internal/toolexec/proxy.compileFlagSet.Package}", "main"))
		}
	}
	r.Check(n > 0, "writes", "internal/injector", "cannot find where woven files are written")
	for _, e := range effs {
		l := e.loc
		if l.Root != outputField || l.Up != 1 || len(l.Rest) < 1 || l.Rest[len(l.Rest)-1] == "{base(source)}" {
			continue
		}
		dir := strings.ReplaceAll(strings.Join(l.Rest[:len(l.Rest)-1], "/"), "{internal/toolexec/proxy.compileFlagSet.Package}", "main")
		r.Check(!has(dirs, dir), "apart from "+l.String(), c.W.At(e.call), "%s can be the name of a woven file, too", l)
	}
	r.Min(3)
}

// importCfgBackups: an import configuration is kept before it is replaced.
func (c *Ctx) importCfgBackups(r *R, p *eng.Paths, effs []fsEffect) {
	is := func(v ssa.Value, suffix string) bool {
		ls := p.Of(v)
		for _, l := range ls {
			if !has(importCfgs, l.Root) || l.Up != 0 {
				return false
			}
			if suffix == "" && len(l.Rest) != 0 || suffix != "" && (len(l.Rest) != 1 || l.Rest[0] != "+"+suffix) {
				return false
			}
		}
		return len(ls) > 0
	}
	renames := map[ssa.CallInstruction]bool{}
	seen := map[ssa.CallInstruction]bool{}
	missing := func(l eng.Lit) int { // whether the backup is known to be missing (1) or there (-1)
		call := callOf(l.V)
		if call != nil && eng.MKey(call) == "errors.Is" {
			if st := statOf(call.Call.Args[0]); st != nil && is(eng.ArgOf(st, 0), ".original") && globalNamed(call.Call.Args[1], "ErrNotExist") {
				if l.Pol {
					return 1
				}
				return -1
			}
		}
		if call != nil && eng.MKey(call) == "os.IsNotExist" {
			if st := statOf(call.Call.Args[0]); st != nil && is(eng.ArgOf(st, 0), ".original") {
				if l.Pol {
					return 1
				}
				return -1
			}
		}
		return 0
	}
	for _, e := range effs {
		if has(importCfgs, e.loc.Root) && e.loc.Up == 0 && e.kind == "os.Rename" {
			renames[e.call] = true
		}
	}
	for _, e := range effs {
		if !has(importCfgs, e.loc.Root) || e.loc.Up != 0 || seen[e.call] {
			continue
		}
		seen[e.call] = true
		switch e.kind {
		case "os.Rename":
			name := short(eng.Root(e.call.Parent()))
			r.Check(is(eng.ArgOf(e.call, 0), "") && is(eng.ArgOf(e.call, 1), ".original"), "rename in "+name, c.W.At(e.call), "the import configuration is renamed to something else than its name with .original appended")
			r.Check(c.checkedErr(e.call), "rename in "+name+" error", c.W.At(e.call), "failing to keep the import configuration goes unnoticed")
			again := c.mayRunAgain(e.call, renames, func(l eng.Lit) bool { return missing(l) > 0 })
			ok := again == ""
			r.Check(ok, "rename in "+name+" once", c.W.At(e.call), "the backup of an import configuration may be overwritten by a later version of it (%s)", again)
		default:
			for _, site := range c.writersOf(e.call) {
				name := short(eng.Root(site.Parent()))
				ok, why := c.W.MustHoldWhy(site, func(l eng.Lit) bool {
					if missing(l) < 0 {
						return true
					}
					for rn := range renames {
						if c.succeeded(rn)(l) {
							return true
						}
					}
					return false
				})
				r.Check(ok, "write in "+name, c.W.At(site), "an import configuration is overwritten though it has not been kept: %s", join(why))
			}
		}
	}
	r.Min(9)
}

// writersOf: the calls leading to a write where the caller knows which file it writes.
func (c *Ctx) writersOf(ci ssa.CallInstruction) []ssa.CallInstruction {
	var res []ssa.CallInstruction
	seen := map[*ssa.Function]bool{}
	var up func(ci ssa.CallInstruction)
	up = func(ci ssa.CallInstruction) {
		f := ci.Parent()
		if eng.PkgOf(f) != eng.ModPath+"/internal/toolexec/importcfg" && eng.PkgOf(f) != "internal/toolexec/importcfg" {
			res = append(res, ci)
			return
		}
		if seen[f] {
			return
		}
		seen[f] = true
		for _, s := range c.W.Callers(f) {
			up(s)
		}
	}
	up(ci)
	return res
}

// checkedErr: the error of the call is returned.
func (c *Ctx) checkedErr(ci ssa.CallInstruction) bool {
	f, _ := c.W.Fate(ci)
	return f == eng.ErrPropagated
}

func statOf(v ssa.Value) *ssa.Call {
	v = eng.ResolveLocal(eng.Unwrap(v))
	if ex, ok := v.(*ssa.Extract); ok {
		if call, ok := ex.Tuple.(*ssa.Call); ok && (eng.MKey(call) == "os.Stat" || eng.MKey(call) == "os.Lstat") && ex.Index == 1 {
			return call
		}
	}
	return nil
}

func globalNamed(v ssa.Value, name string) bool {
	v = eng.Unwrap(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Name() == name
		}
	}
	return false
}

// mayRunAgain says how a renaming may run after another one of the same command ("" when it cannot).
func (c *Ctx) mayRunAgain(ci ssa.CallInstruction, renames map[ssa.CallInstruction]bool, missing func(eng.Lit) bool) string {
	phases := []string{"OnCompile", "OnCompileMain", "OnLink"}
	up := c.W.CallersClosure(ci.Parent())
	up[ci.Parent()] = true
	n := 0
	for f := range up {
		if f.Signature.Recv() == nil || !has(phases, f.Name()) {
			continue
		}
		n++
		guarded := false
		c.W.Within(f, func() { guarded = c.W.MustHold(ci, missing) })
		if guarded {
			continue
		}
		if f.Name() == "OnCompileMain" {
			return "the import configuration may have been replaced when weaving"
		}
		ev := c.W.LiftEvent(func(in ssa.Instruction) bool {
			x, ok := in.(ssa.CallInstruction)
			return ok && renames[x]
		})
		if _, hi := c.W.EventCount(f, ev, false); hi > 1 {
			return "it is renamed more than once"
		}
	}
	if n == 0 {
		return "unknown phase"
	}
	return ""
}

// shipped lists the functions of the packages the orchestrion command is made of.
func (c *Ctx) shipped() []*ssa.Function {
	in := map[string]bool{}
	var walk func(p *packages.Package)
	walk = func(p *packages.Package) {
		if p == nil || in[p.PkgPath] {
			return
		}
		in[p.PkgPath] = true
		for path := range p.Imports {
			walk(c.W.Pkg(strip(path)))
		}
	}
	root := c.W.Pkg("")
	walk(root)
	var res []*ssa.Function
	for _, f := range c.W.Funcs {
		if root == nil || f.Pkg == nil || in[f.Pkg.Pkg.Path()] {
			res = append(res, f)
		}
	}
	return res
}
