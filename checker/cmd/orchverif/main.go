// Command orchverif decides one property of /repo statically.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"orchverif/eng"
	"orchverif/rules"
)

func main() {
	repo := flag.String("repo", "/repo", "repository under analysis")
	verif := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", "", "quick or thorough")
	list := flag.Bool("list", false, "list obligations")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = rules.IDs()
	}
	if len(ids) == 0 {
		fmt.Fprintln(os.Stderr, "usage: orchverif [flags] PROPERTY...")
		os.Exit(2)
	}
	worlds := map[string]*eng.World{}
	exit := 0
	for _, id := range ids {
		if run(id, *repo, *verif, *tier, *list, worlds) {
			exit = 1
		}
	}
	os.Exit(exit)
}

type known struct{ prop, key, what string }

func readKnown(verif string) ([]known, error) {
	data, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var res []known
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		// finding: property=<id> | <rule> :: <construct> | <what fails>
		rest, ok := strings.CutPrefix(line, "finding: property=")
		if !ok {
			continue
		}
		parts := strings.SplitN(rest, " | ", 3)
		if len(parts) != 3 {
			return nil, fmt.Errorf("malformed known finding: %q", line)
		}
		res = append(res, known{strings.TrimSpace(parts[0]), strings.TrimSpace(parts[1]), strings.TrimSpace(parts[2])})
	}
	return res, nil
}

func run(id, repo, verif, tier string, list bool, worlds map[string]*eng.World) (violated bool) {
	start := time.Now()
	evDir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	p := rules.Get(id)
	if p == nil {
		fmt.Fprintf(os.Stderr, "no such property: %s\n", id)
		os.Exit(2)
	}
	systems := []string{"linux"}
	if tier == "thorough" && p.AllOS {
		systems = append(systems, "darwin", "windows")
	}

	type result struct {
		OS string
		c  *rules.Ctx
	}
	var results []result
	var bad []rules.Ob
	kn, knErr := readKnown(verif)
	if knErr != nil {
		bad = append(bad, rules.Ob{Rule: "known-findings", Construct: "file", Msg: knErr.Error()})
	}
	for _, goos := range systems {
		w := worlds[goos]
		if w == nil {
			var err error
			w, err = eng.Load(repo, goos)
			if err != nil {
				bad = append(bad, rules.Ob{Rule: "load", Construct: "GOOS=" + goos, Pos: "-", Msg: "undecided: the program could not be loaded: " + err.Error()})
				continue
			}
			worlds[goos] = w
		}
		c := rules.NewCtx(w, id, tier)
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", r, debug.Stack())
					c.Obs = append(c.Obs, rules.Ob{Rule: "internal", Construct: "panic", Pos: "-", Msg: fmt.Sprintf("undecided: analysis panicked: %v", r)})
				}
			}()
			p.Run(c)
		}()
		if len(c.Obs) == 0 {
			c.Obs = append(c.Obs, rules.Ob{Rule: "internal", Construct: "no obligations", Pos: "-", Msg: "undecided: no obligation was generated"})
		}
		results = append(results, result{goos, c})
	}

	seenKnown := map[string]bool{}
	total, discharged, knownN := 0, 0, 0
	perRule := map[string]map[string]any{}
	var funcs = map[string]bool{}
	for _, r := range results {
		for _, o := range r.c.Obs {
			total++
			pr := perRule[o.Rule]
			if pr == nil {
				pr = map[string]any{"rule": r.c.Rules()[o.Rule], "obligations": 0, "violated": 0, "constructs": []string{}}
				perRule[o.Rule] = pr
			}
			pr["obligations"] = pr["obligations"].(int) + 1
			cs := pr["constructs"].([]string)
			if r.OS == "linux" && len(cs) < 400 {
				pr["constructs"] = append(cs, o.Construct+" @ "+o.Pos)
			}
			if i := strings.IndexByte(o.Pos, ':'); i > 0 {
				funcs[o.Pos[:i]] = true
			}
			if o.OK {
				discharged++
				continue
			}
			pr["violated"] = pr["violated"].(int) + 1
			matched := false
			for _, k := range kn {
				if k.prop == id && k.key == o.Key() {
					matched = true
					if !seenKnown[k.key] {
						seenKnown[k.key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", id, k.what, o.Key(), o.Pos)
					}
				}
			}
			if matched {
				knownN++
				continue
			}
			bad = append(bad, o)
		}
	}
	if list {
		for _, r := range results {
			for _, o := range r.c.Obs {
				st := "ok  "
				if !o.OK {
					st = "FAIL"
				}
				fmt.Printf("%s %s %s @ %s %s\n", r.OS, st, o.Key(), o.Pos, o.Msg)
			}
		}
	}

	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	npk, nfn := 0, 0
	notes := map[string]int{}
	for _, r := range results {
		npk += len(r.c.W.Pkgs)
		nfn += len(r.c.W.Funcs)
		for k, v := range r.c.Notes {
			notes[k] += v
		}
	}
	var files []string
	for f := range funcs {
		files = append(files, f)
	}
	sort.Strings(files)
	cov := map[string]any{
		"explanation": "Static analysis (" + p.Technique + ") of the type-checked program and its SSA form, loaded from the current working tree; no code of the repository is executed. " +
			"Every listed construct is one obligation of the named rule, decided on all paths of the analysed functions; nothing is sampled.",
		"technique":            p.Technique,
		"systems":              systems,
		"packages_analysed":    npk,
		"functions_analysed":   nfn,
		"files_with_instances": files,
		"obligations_total":    total,
		"obligations_ok":       discharged,
		"known_findings":       knownN,
		"rules":                perRule,
	}
	for k, v := range notes {
		cov["count_"+k] = v
	}
	level := p.Level
	if level == "" {
		level = "other"
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		"assumptions": []string{
			"the Go compiler's and go/types' view of the source is the program that runs; build constraints of the analysed GOOS list apply",
			"reflection, unsafe and code outside the module behave as their documentation says",
		},
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "writing evidence:", err)
	}
	replay := filepath.Join(evDir, id+".violation.txt")
	_ = os.Remove(replay)
	if len(bad) > 0 {
		var b strings.Builder
		seen := map[string]bool{}
		for _, o := range bad {
			line := fmt.Sprintf("%s\n    at %s\n    rule %s\n    %s\n", o.Construct, o.Pos, o.Rule, o.Msg)
			if seen[line] {
				continue
			}
			seen[line] = true
			fmt.Printf("%s: [%s] %s: %s\n", o.Pos, o.Rule, o.Construct, o.Msg)
			b.WriteString(line)
		}
		_ = os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return true
	}
	fmt.Printf("OK property=%s obligations=%d known=%d\n", id, total, knownN)
	return false
}
