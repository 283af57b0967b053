package rules

import (
	"regexp/syntax"
	"sort"
)

// included decides whether every text matched in full by the pattern ref (and, when given, by also) is
// matched somewhere by pat, on the automata of the patterns. When not, it gives one that is not.
func included(ref, also, pat string) (bool, string, error) {
	compile := func(p string, whole bool) (*syntax.Prog, error) {
		if whole {
			p = `\A(?:` + p + `)\z`
		} else {
			p = `(?s:.*)(?:` + p + `)(?s:.*)\z`
		}
		re, err := syntax.Parse(p, syntax.Perl)
		if err != nil {
			return nil, err
		}
		return syntax.Compile(re.Simplify())
	}
	progs := make([]*syntax.Prog, 3)
	var err error
	if progs[0], err = compile(ref, true); err != nil {
		return false, "", err
	}
	if also == "" {
		also = `(?s:.*)`
	}
	if progs[1], err = compile(also, false); err != nil {
		return false, "", err
	}
	if progs[2], err = compile(pat, false); err != nil {
		return false, "", err
	}

	// one representative for each class of characters
	bounds := map[rune]bool{0: true, 'é': true, 'é' + 1: true, 'a': true, '~': true, '0': true, '\n': true, '\n' + 1: true}
	for _, p := range progs {
		for _, in := range p.Inst {
			for i := 0; i+1 < len(in.Rune); i += 2 {
				bounds[in.Rune[i]] = true
				bounds[in.Rune[i+1]+1] = true
			}
			if len(in.Rune) == 1 {
				bounds[in.Rune[0]] = true
				bounds[in.Rune[0]+1] = true
			}
		}
	}
	var reps []rune
	for r := range bounds {
		if r <= 0x10FFFF {
			reps = append(reps, r)
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i] < reps[j] })
	// prefer readable counterexamples
	sort.SliceStable(reps, func(i, j int) bool { return readable(reps[i]) && !readable(reps[j]) })

	type state struct{ sets [3]string }
	closure := func(p *syntax.Prog, pcs []uint32, start, end bool) []uint32 {
		seen := map[uint32]bool{}
		var walk func(pc uint32)
		walk = func(pc uint32) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			in := p.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				walk(in.Out)
				walk(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				walk(in.Out)
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				ok := true
				if op&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && !start {
					ok = false
				}
				if op&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && !end {
					ok = false
				}
				if ok {
					walk(in.Out)
				}
			}
		}
		for _, pc := range pcs {
			walk(pc)
		}
		var res []uint32
		for pc := range seen {
			res = append(res, pc)
		}
		sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
		return res
	}
	accepts := func(p *syntax.Prog, pcs []uint32, start bool) bool {
		for _, pc := range closure(p, pcs, start, true) {
			if p.Inst[pc].Op == syntax.InstMatch {
				return true
			}
		}
		return false
	}
	step := func(p *syntax.Prog, pcs []uint32, start bool, r rune) []uint32 {
		var res []uint32
		for _, pc := range closure(p, pcs, start, false) {
			in := p.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if in.MatchRune(r) {
					res = append(res, in.Out)
				}
			}
		}
		return res
	}
	key := func(sets [3][]uint32, start bool) string {
		b := make([]byte, 0, 64)
		for _, s := range sets {
			for _, pc := range s {
				b = append(b, byte(pc), byte(pc>>8), ',')
			}
			b = append(b, ';')
		}
		if start {
			b = append(b, '^')
		}
		return string(b)
	}
	type node struct {
		sets  [3][]uint32
		start bool
		text  []rune
	}
	norm := func(pcs []uint32) []uint32 {
		m := map[uint32]bool{}
		var res []uint32
		for _, pc := range pcs {
			if !m[pc] {
				m[pc] = true
				res = append(res, pc)
			}
		}
		sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
		return res
	}
	queue := []node{{sets: [3][]uint32{{uint32(progs[0].Start)}, {uint32(progs[1].Start)}, {uint32(progs[2].Start)}}, start: true}}
	seen := map[string]bool{key(queue[0].sets, true): true}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if accepts(progs[0], n.sets[0], n.start) && accepts(progs[1], n.sets[1], n.start) && !accepts(progs[2], n.sets[2], n.start) {
			return false, string(n.text), nil
		}
		done := map[string]bool{}
		for _, r := range reps {
			var nx node
			for i, p := range progs {
				nx.sets[i] = norm(step(p, n.sets[i], n.start, r))
			}
			if len(nx.sets[0]) == 0 {
				continue
			}
			k := key(nx.sets, false)
			if done[k] || seen[k] {
				continue
			}
			done[k], seen[k] = true, true
			nx.text = append(append([]rune{}, n.text...), r)
			queue = append(queue, nx)
		}
	}
	return true, "", nil
}

func readable(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '/' || r == '.' || r >= '0' && r <= '9' || r == '~' || r == 'é'
}
