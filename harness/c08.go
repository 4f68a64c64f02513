package main

import (
	"fmt"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&Check{ID: "C08", Run: runC08,
		Rule:   "every network of chance, decision and utility variables up to the size bound (all DAGs, types, utility parent sets), generic/tied/negative/deterministic tables, total-utility nodes at every position with weights of both signs and zero, in any listing order; unsolved, stepwise and jointly solved; every evidence, query subset and utility selection; compared with enumeration of the joint distribution.",
		Assume: []string{"utility variables have one outcome", "relative tolerance 1e-9"},
	})
	register(&Check{ID: "C09", Run: runC09,
		Rule: "every decision network up to the size bound, solved stepwise and jointly; every evidence assignment (including all decision values) x every query variable and utility x both policy modes; compared with enumeration under the solved policies, without those of forced decisions.",
	})
}

// checkFactor compares a result factor with the reference. The factor may have, in addition to the
// query, unsolved decisions and what those know.
func checkFactor(t *T, n *Net, p *prepared, f *ve.Factor, pols map[int]Pol, ev, query []int, which int, useUtil bool, what string) []int {
	scope := []int{}
	for _, v := range f.Variables() {
		id := v.Id()
		if id < 0 || id >= len(n.Vars) {
			t.Failf("%s: unknown variable id %d", what, id)
		}
		if n.Vars[id].Type == utility {
			continue
		}
		scope = append(scope, id)
	}
	allowed := append([]int{}, query...)
	open := []int{}
	for _, d := range n.decisions() {
		if _, ok := pols[d]; ok {
			continue
		}
		allowed = append(allowed, n.Vars[d].Given...)
		if ev[d] < 0 {
			allowed = append(allowed, d)
			if !has(scope, d) {
				open = append(open, d)
			}
		}
	}
	for _, q := range query {
		if !has(scope, q) {
			t.Failf("%s: query variable %s not in the result", what, n.Vars[q].Name)
		}
	}
	for _, s := range scope {
		if !has(allowed, s) || ev[s] >= 0 {
			t.Failf("%s: unexpected variable %s in the result", what, n.Vars[s].Name)
		}
	}
	got, msg := n.factorTable(f, scope)
	if msg != "" {
		t.Failf("%s: %s", what, msg)
	}
	full := append(append([]int{}, scope...), open...)
	var want []float64
	if len(n.actives()) > 10 {
		want = p.refJoint(ev, pols, full, which, useUtil)
	} else {
		want = p.joint(ev, pols, full, which, useUtil)
	}
	rest := n.scopeSize(open)
	for k := range want {
		if !near(got[k/rest], want[k]) {
			t.Failf("%s: value %d over %v is %v, expected %v", what, k/rest, n.names(scope), got[k/rest], want[k])
		}
	}
	t.c.States++
	return scope
}

func queryOf(t *T, n *Net, real *bbn.Network, ev, q []int, ignore bool) (map[string][]float64, *ve.Factor) {
	t.c.Transitions++
	res, f, err := real.SolveQuery(n.evMap(ev), n.names(q), ignore)
	if err != nil {
		t.Failf("query %v given %v: %v", n.names(q), n.evMap(ev), err)
	}
	return res, f
}

func utilityOf(t *T, n *Net, real *bbn.Network, ev, q []int, which int, ignore bool) *ve.Factor {
	t.c.Transitions++
	name := ""
	if which >= 0 {
		name = n.Vars[which].Name
	}
	f, err := real.SolveUtility(n.evMap(ev), n.names(q), name, ignore)
	if err != nil {
		t.Failf("utility %q for %v given %v: %v", name, n.names(q), n.evMap(ev), err)
	}
	return f
}

func countEv(ev []int) int {
	k := 0
	for _, e := range ev {
		if e >= 0 {
			k++
		}
	}
	return k
}

// someEvidence enumerates all evidence on up to maxEv variables; in networks
// with more than four variables also every larger number of observed
// variables from the front and from the back of the network, and every number
// of observed decisions.
func someEvidence(n *Net, maxEv int, f func(ev []int)) {
	act := n.actives()
	n.evidencesUpTo(act, maxEv, f)
	if len(act) <= 4 {
		return
	}
	ladder := func(vars []int, min int) {
		for k := min; k <= len(vars); k++ {
			front, back := noEv(n), noEv(n)
			for i := 0; i < k; i++ {
				v, w := vars[i], vars[len(vars)-1-i]
				front[v] = (i + k) % n.arity(v)
				back[w] = i / 2 % n.arity(w)
			}
			f(front)
			f(back)
		}
	}
	ladder(act, maxEv+1)
	ladder(n.decisions(), maxEv+1)
}

// someQueries enumerates all queries for up to maxQ variables; in networks
// with more than four variables, without evidence or with one observed
// variable, also larger ones.
func someQueries(n *Net, free []int, maxQ int, ev []int, f func(q []int)) {
	subsetsUpTo(free, maxQ, f)
	if len(n.actives()) <= 4 || countEv(ev) > 1 {
		return
	}
	for _, q := range jointQueries(n, free) {
		if len(q) > maxQ && (countEv(ev) == 0 || len(q) == 3) && n.scopeSize(q) <= 64 {
			f(q)
		}
	}
}

func checkUtilities(t *T, n *Net, modes []int, maxQ, maxEv int) {
	p := n.prepare()
	act := n.actives()
	for _, mode := range modes {
		real := n.mustBuild(t)
		pols := map[int]Pol{}
		if mode > 0 {
			res := solved(t, n, real, mode == 1)
			pols = readPolicies(t, n, res, mode == 2)
		}
		someEvidence(n, maxEv, func(ev []int) {
			free := []int{}
			for _, a := range act {
				if ev[a] < 0 {
					free = append(free, a)
				}
			}
			someQueries(n, free, maxQ, ev, func(q []int) {
				what := func(s string) string {
					return fmt.Sprintf("mode %d, %s for %v given %v", mode, s, n.names(q), n.evMap(ev))
				}
				_, pf := queryOf(t, n, real, ev, q, false)
				ps := checkFactor(t, n, p, pf, pols, ev, q, 0, false, what("probability"))
				for _, u := range append([]int{-1}, n.utils()...) {
					uf := utilityOf(t, n, real, ev, q, u, false)
					nm := "total"
					if u >= 0 {
						nm = n.Vars[u].Name
					}
					us := checkFactor(t, n, p, uf, pols, ev, q, u, true, what("utility "+nm))
					t.Outcome(hashFloats(uint64(len(us)+1), uf.Data()))
					if mode > 0 {
						// conditional expectation by the helper
						nf := real.NormalizeUtility(uf, pf)
						got, msg := n.factorTable(&nf, q)
						if msg != "" {
							t.Failf("%s: normalised: %s", what("utility "+nm), msg)
						}
						ju := p.joint(ev, pols, q, u, true)
						jp := p.joint(ev, pols, q, 0, false)
						for k := range got {
							w := ju[k] / jp[k]
							if jp[k] == 0 {
								if got[k] == got[k] && !(got[k] > 1e300 || got[k] < -1e300) {
									t.Failf("%s: expectation for impossible combination is %v", what("utility "+nm), got[k])
								}
								continue
							}
							if !near(got[k], w) {
								t.Failf("%s: expectation %v, expected %v", what("utility "+nm), got[k], w)
							}
						}
					}
					_ = ps
				}
			})
		})
	}
	t.c.Traces++
}

func runC08(c *Ctx) {
	do := func(name string, modes []int, maxQ, maxEv int, mk func() *Net) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) { checkUtilities(t, mk(), modes, maxQ, maxEv) })
	}
	for n := 1; n <= 2; n++ {
		decisionStructures(n, 0, 2, func(par [][]int, types []int, us [][]int) {
			for variant := 0; variant < 3; variant++ {
				net := func() *Net { return decNet(par, types, []int{2, 3}[:n], us, variant, 60) }
				do("structure", []int{0, 1, 2}, 2, 2, net)
				do("zeros", []int{0, 1, 2}, 2, 2, func() *Net { return detNet(net(), 1) })
				do("utilities first", []int{0, 1}, 2, 2, func() *Net { return net().permuteVars(reversed(n + len(us))) })
				if variant == 0 {
					for at := -1; at < n+len(us); at++ {
						for _, w := range [][]float64{{2, 0.5}, {0, 1}, {1, 0}, {-1, 3}, {1e-3, 1e3}} {
							for _, rev := range []bool{false, true} {
								do("weights", []int{0, 1, 2}, 2, 1, func() *Net { return withTotal(net(), w, rev, at) })
							}
						}
					}
				}
			}
		})
	}
	decisionStructures(3, 0, 1, func(par [][]int, types []int, us [][]int) {
		net := func() *Net { return decNet(par, types, []int{2, 2, 2}, us, 0, 61) }
		do("structure", []int{0, 1, 2}, 3, 3, net)
		do("arities", []int{0, 1}, 1, 1, func() *Net { return decNet(par, types, []int{2, 3, 1}, us, 0, 61) })
		do("utilities first", []int{0, 1}, 1, 1, func() *Net { return net().permuteVars(reversed(3 + len(us))) })
		do("weights", []int{0, 1}, 3, 1, func() *Net { return withTotal(net(), []float64{-2}, false, 1) })
	})
	q2, e2, m2 := 1, 1, []int{0, 1}
	if c.Thorough {
		q2, e2, m2 = 3, 3, []int{0, 1, 2}
	}
	decisionStructures(3, 0, 2, func(par [][]int, types []int, us [][]int) {
		if len(us) != 2 {
			return
		}
		net := func() *Net { return decNet(par, types, []int{2, 2, 2}, us, 0, 62) }
		do("two utilities", m2, q2, e2, net)
		if len(us[0]) == 1 || c.Thorough {
			do("two weighted utilities", m2[1:], 2, 0, func() *Net { return withTotal(net(), []float64{2, -0.5}, true, 1) })
			do("two weighted utilities", m2[1:], 0, 1, func() *Net { return withTotal(net(), []float64{2, -0.5}, true, 1) })
		}
	})
	e4 := 1
	if c.Thorough {
		e4 = 3
	}
	decisionStructures(4, 0, 1, func(par [][]int, types []int, us [][]int) {
		do("four variables", []int{0, 1}, 0, e4, func() *Net { return decNet(par, types, rep(2, 4), us, 0, 63) })
	})
	for _, base := range []*Net{
		decNet([][]int{{}, {0}, {1}}, []int{chance, decision, chance}, []int{2, 2, 2}, [][]int{{0, 1}, {2}}, 0, 64),
		withTotal(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 3}, [][]int{{0, 1}, {1}}, 0, 64), []float64{2, -0.5}, true, 1),
	} {
		worded(base, func(string) bool { return true }, func(what string, m *Net) {
			do(what, []int{0, 1}, 1, 2, func() *Net { return m })
		})
	}
	manyUtils(func(mk func() *Net) { do("many utilities", []int{0, 1, 2}, 1, 1, mk) })
	for _, fam := range decFamilies(c.Thorough) {
		fam := fam
		if fam.net.scopeSize(fam.net.actives()) > 2000 && !c.Thorough {
			continue
		}
		do(fam.name, []int{0, 1, 2}, 1, 1, func() *Net { return fam.net })
	}
	for _, file := range exampleFiles() {
		b, err := bbn.FromFile(file)
		if err != nil {
			continue
		}
		n := netFrom(b)
		if len(n.utils()) == 0 || n.scopeSize(n.actives()) > 5000 {
			continue
		}
		m := []int{1, 2}
		if len(n.decisions()) == 0 {
			m = []int{0}
		}
		do(file, m, 1, 2, func() *Net { return n })
	}
}

// checkModes compares both policy modes for an evidence assignment.
func checkModes(t *T, n *Net, p *prepared, real *bbn.Network, pols map[int]Pol, ev []int, step bool) {
	act := n.actives()
	for _, ignore := range []bool{false, true} {
		use := map[int]Pol{}
		for d, pl := range pols {
			if ignore && ev[d] >= 0 {
				continue
			}
			use[d] = pl
		}
		what := fmt.Sprintf("stepwise %v, ignore policies %v, given %v", step, ignore, n.evMap(ev))
		pe := p.joint(ev, use, nil, 0, false)[0]
		for _, a := range act {
			if ev[a] >= 0 {
				continue
			}
			res, f := queryOf(t, n, real, ev, []int{a}, ignore)
			want := p.joint(ev, use, []int{a}, 0, false)
			got, msg := n.factorTable(f, []int{a})
			if msg != "" {
				t.Failf("%s: %s", what, msg)
			}
			if !nearAll(got, want) {
				t.Failf("%s: joint of %s is %v, expected %v", what, n.Vars[a].Name, got, want)
			}
			r := res[n.Vars[a].Name]
			if pe == 0 {
				if !isNaNs(r) || len(r) != n.arity(a) {
					t.Failf("%s: impossible, but %s = %v", what, n.Vars[a].Name, r)
				}
			} else {
				for k := range want {
					if len(r) != len(want) || !near(r[k], want[k]/pe) {
						t.Failf("%s: %s = %v, expected %v / %v", what, n.Vars[a].Name, r, want, pe)
					}
				}
			}
			t.Outcome(hashFloats(0, r))
			t.c.States++
		}
		for _, u := range append([]int{-1}, n.utils()...) {
			f := utilityOf(t, n, real, ev, nil, u, ignore)
			want := p.joint(ev, use, nil, u, true)
			got, msg := n.factorTable(f, nil)
			if msg != "" {
				t.Failf("%s: utility: %s", what, msg)
			}
			if !nearAll(got, want) {
				t.Failf("%s: utility %d is %v, expected %v", what, u, got, want)
			}
			t.c.States++
		}
	}
}

func runC09(c *Ctx) {
	do := func(name string, maxEv int, mk func() *Net) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) {
			n := mk()
			p := n.prepare()
			for _, step := range []bool{true, false} {
				real := n.mustBuild(t)
				pols := readPolicies(t, n, solved(t, n, real, step), !step)
				someEvidence(n, maxEv, func(ev []int) {
					checkModes(t, n, p, real, pols, ev, step)
				})
			}
			t.c.Traces++
		})
	}
	for n := 1; n <= 3; n++ {
		maxU := 2
		if n == 3 {
			maxU = 1
		}
		decisionStructures(n, 1, maxU, func(par [][]int, types []int, us [][]int) {
			for variant := 0; variant < 2; variant++ {
				net := func() *Net { return decNet(par, types, rep(2, n), us, variant, 70) }
				do("structure", 4, net)
				do("utilities first", 2, func() *Net { return net().permuteVars(reversed(n + len(us))) })
				if n < 3 {
					do("arities", 4, func() *Net { return decNet(par, types, []int{3, 2}[:n], us, variant, 71) })
				}
			}
			do("zeros", 4, func() *Net { return detNet(decNet(par, types, rep(2, n), us, 0, 72), 2) })
			do("weights", 1, func() *Net { return withTotal(decNet(par, types, rep(2, n), us, 0, 73), []float64{-1, 2}, true, 0) })
		})
	}
	e4 := 1
	if c.Thorough {
		e4 = 4
	}
	decisionStructures(4, 1, 1, func(par [][]int, types []int, us [][]int) {
		if !c.Thorough && len(us[0]) != 4 && len(us[0]) != 1 {
			return
		}
		do("four variables", e4, func() *Net { return decNet(par, types, rep(2, 4), us, 0, 74) })
	})
	for _, fam := range decFamilies(c.Thorough) {
		if fam.net.scopeSize(fam.net.actives()) > 2000 {
			continue
		}
		maxEv := 2
		if len(fam.net.actives()) > 7 && !c.Thorough {
			maxEv = 1
		}
		do(fam.name, maxEv, func() *Net { return fam.net })
	}
	for _, file := range exampleFiles() {
		b, err := bbn.FromFile(file)
		if err != nil {
			continue
		}
		n := netFrom(b)
		if len(n.decisions()) == 0 || n.scopeSize(n.actives()) > 5000 {
			continue
		}
		do(file, 2, func() *Net { return n })
	}
}
