package main

import "fmt"

// instantiate turns a set of assertions with quantifiers into a quantifier-free
// set it implies: every closed quantified formula becomes a fresh truth value q
// with q => body(t) for chosen ground terms t and !q => !body(skolem). The
// result is weaker than the input, so that its unsatisfiability carries over.
//
// A focused run of so many rounds starts from the terms of the last assertion (the negated goal)
// and those its instances bring in, rather than from all ground terms.
func instantiate(ts []*Term, focused int) []*Term {
	const maxTerms = 6000
	names := map[*Term]*Term{}
	var foralls []*Term
	var abs func(t *Term) *Term
	memo := map[int]*Term{}
	hasQ := map[int]bool{}
	var hq func(t *Term) bool
	hq = func(t *Term) bool {
		if t.op == "forall" {
			return true
		}
		if r, ok := hasQ[t.id]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			if hq(a) {
				r = true
				break
			}
		}
		hasQ[t.id] = r
		return r
	}
	abs = func(t *Term) *Term {
		if r, ok := memo[t.id]; ok {
			return r
		}
		if !hq(t) {
			memo[t.id] = t
			return t
		}
		var r *Term
		if t.op == "forall" {
			if t.bound {
				return t
			}
			q, ok := names[t]
			if !ok {
				q = VarOf(&Sym{Name: fmt.Sprintf("q!%d", t.id), Ret: Bool, AllocEpoch: -1})
				names[t] = q
				foralls = append(foralls, t)
			}
			r = q
		} else {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = abs(a)
				ch = ch || args[i] != a
			}
			r = t
			if ch {
				r = rebuild(t, args)
			}
		}
		memo[t.id] = r
		return r
	}
	var out []*Term
	inOut := map[int]bool{}
	push := func(t *Term) {
		t = abs(t)
		if !inOut[t.id] {
			inOut[t.id] = true
			out = append(out, t)
		}
	}
	// in a focused run: which assertions, and witnesses of which formulas, do
	// not give terms to instantiate with
	from, nf := 0, 0
	var first map[int]bool // the terms of the goal and its witnesses
	apart := map[int]bool{}
	for i, t := range ts {
		if focused > 0 && i == len(ts)-1 {
			from, nf = len(out), len(foralls)
		}
		push(t)
	}
	rounds := 4
	if focused > 0 {
		rounds = focused
	}
	done := map[string]bool{}
	skol := map[*Term]bool{}
	for round := 0; round < rounds; round++ {
		// skolem witnesses of the falsified ones
		for i := 0; i < len(foralls); i++ {
			f := foralls[i]
			if skol[f] {
				continue
			}
			skol[f] = true
			n := len(f.args) - 1
			m := map[*Term]*Term{}
			for k, v := range f.args[:n] {
				m[v] = VarOf(&Sym{Name: fmt.Sprintf("sk!%d.%d", f.id, k), Ret: v.sort, Birth: Age{1 << 30, 0}, AllocEpoch: -1})
			}
			if inOut[names[f].id] {
				continue // holds, no witness
			}
			if i < nf {
				apart[len(out)] = true
			}
			push(Or(names[f], Not(Subst(f.args[n], m))))
		}
		var src []*Term
		for i, t := range out {
			if i >= from && !apart[i] {
				src = append(src, t)
			}
		}
		ground := groundTerms(src)
		if focused > 0 {
			if first == nil {
				first = map[int]bool{}
				for _, l := range ground.bySort {
					for _, t := range l {
						first[t.id] = true
					}
				}
			}
			ground.keep = func(t *Term) bool { return t.sort == Int || first[t.id] || len(t.args) == 0 }
		}
		n0 := len(out)
		for i := 0; i < len(foralls); i++ {
			f := foralls[i]
			n := len(f.args) - 1
			vs, body := f.args[:n], f.args[n]
			cands := make([][]*Term, n)
			total := 1
			for k, v := range vs {
				cands[k] = candidates(v, body, ground)
				total *= len(cands[k])
			}
			if total == 0 || total > 400 {
				continue
			}
			idx := make([]int, n)
			for {
				m := map[*Term]*Term{}
				key := fmt.Sprint(f.id)
				for k, v := range vs {
					m[v] = cands[k][idx[k]]
					key += fmt.Sprintf(",%d", m[v].id)
				}
				if !done[key] {
					done[key] = true
					push(Or(Not(names[f]), Subst(body, m)))
				}
				k := 0
				for k < n {
					idx[k]++
					if idx[k] < len(cands[k]) {
						break
					}
					idx[k] = 0
					k++
				}
				if k == n {
					break
				}
			}
			if len(out) > maxTerms {
				return out
			}
		}
		if len(out) == n0 {
			break
		}
	}
	return out
}

type groundIndex struct {
	at     map[string]map[int]*Term // function position -> terms there
	bySort map[string][]*Term
	keep   func(t *Term) bool
}

func posKey(t *Term, i int) string {
	switch t.op {
	case "app":
		return fmt.Sprintf("app %s %d", t.sym.Name, i)
	case "select":
		if i == 1 {
			return "select " + t.args[0].sort.Name
		}
	case "store":
		if i == 1 {
			return "select " + t.args[0].sort.Name
		}
	}
	return ""
}

func groundTerms(ts []*Term) *groundIndex {
	g := &groundIndex{map[string]map[int]*Term{}, map[string][]*Term{}, nil}
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for i, a := range t.args {
			rec(a)
			if a.bound {
				continue
			}
			if k := posKey(t, i); k != "" {
				if g.at[k] == nil {
					g.at[k] = map[int]*Term{}
				}
				g.at[k][a.id] = a
			}
		}
		if !t.bound && t.op != "forall" {
			g.bySort[t.sort.Name] = append(g.bySort[t.sort.Name], t)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return g
}

// candidates are the ground terms that stand where v stands in the body
func candidates(v, body *Term, g *groundIndex) []*Term {
	got := map[int]*Term{}
	shifted := map[int]*Term{}
	direct := false
	walk(body, func(t *Term) {
		for i, a := range t.args {
			if a != v {
				// v plus something stands there: the ground terms less that something
				if k := posKey(t, i); k != "" && a.bound && v.sort == Int && (a.op == "+" || a.op == "-") {
					if rest, ok := restOf(a, v); ok {
						for _, c := range g.at[k] {
							if c.sort == Int {
								d := Sub(c, rest)
								shifted[d.id] = d
							}
						}
					}
				}
				continue
			}
			if k := posKey(t, i); k != "" {
				direct = true
				for id, c := range g.at[k] {
					got[id] = c
				}
			}
		}
	})
	var out []*Term
	if !direct {
		for _, c := range g.bySort[v.sort.Name] {
			got[c.id] = c
		}
	}
	for _, c := range got {
		if c.sort == v.sort && (g.keep == nil || g.keep(c)) {
			out = append(out, c)
		}
	}
	out = smallest(out, 24)
	var more []*Term
	for id, c := range shifted {
		if got[id] == nil {
			more = append(more, c)
		}
	}
	return append(out, smallest(more, 16)...)
}

// smallest puts small terms first, in a fixed order, and keeps n of them
func smallest(out []*Term, n int) []*Term {
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && (out[j].size < out[j-1].size || out[j].size == out[j-1].size && out[j].id < out[j-1].id); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	if len(out) > n {
		out = out[:n]
	}
	return out
}

// restOf gives a less v, where v stands in a once and nothing else is bound
func restOf(a, v *Term) (*Term, bool) {
	r := Sub(a, v)
	if r.bound {
		return nil, false
	}
	return r, true
}

func anyQuant(ts []*Term) bool {
	q := false
	for _, t := range ts {
		walk(t, func(t *Term) { q = q || t.op == "forall" })
	}
	return q
}
