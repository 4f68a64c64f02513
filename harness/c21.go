package main

import (
	"fmt"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&Check{ID: "C21", Run: runC21,
		Rule:   "result factors of every network up to the structure bound (all DAGs, pairwise different arities, with decisions and utilities, unsolved and solved) for every query (every listing order) and evidence; on each factor every ordered selection of its variables for re-arranging, every marginal, normalisation, and division of every utility result by every probability result of the same request, with the query listed in the same and in another order; directly, and after another request, a failing request or policy solving in between. Each result is compared cell by cell with the factor it was made from, which must be unchanged.",
		Assume: []string{"helpers are called on results of the same network, with names of their variables"},
	})
}

// ftab is a factor read by variable ids.
type ftab struct {
	ids  []int
	data []float64
}

func readFactor(t *T, n *Net, f *ve.Factor) ftab {
	r := ftab{data: append([]float64{}, f.Data()...)}
	size := 1
	for _, v := range f.Variables() {
		id := v.Id()
		if id < 0 || id >= len(n.Vars) || has(r.ids, id) {
			t.Failf("bad variable %d in factor", id)
		}
		r.ids = append(r.ids, id)
		size *= n.arity(id)
	}
	if size != len(r.data) {
		t.Failf("factor over %v has %d values", n.names(r.ids), len(r.data))
	}
	return r
}

func (f ftab) at(n *Net, x []int) float64 { return f.data[n.scopeIndex(f.ids, x)] }

// eachOf enumerates the assignments of the variables.
func (n *Net) eachOf(ids []int, f func(x []int)) {
	x := make([]int, len(n.Vars))
	n.rfEach(ids, x, func() { f(x) })
}

func sameFtab(a, b ftab) bool {
	return fmt.Sprint(a.ids) == fmt.Sprint(b.ids) && bitsEqual(a.data, b.data)
}

// helpers checks all helpers on one result.
func checkHelpers(t *T, n *Net, real *bbn.Network, f *ve.Factor, what string, all bool) {
	src := readFactor(t, n, f)
	k := len(src.ids)
	done := func(res *ve.Factor, name string) ftab {
		t.c.Transitions++
		if !sameFtab(src, readFactor(t, n, f)) {
			t.Failf("%s: %s changed its operand", what, name)
		}
		r := readFactor(t, n, res)
		d := res.Data()
		for i := range d {
			d[i] += 1000
		}
		if !sameFtab(src, readFactor(t, n, f)) {
			t.Failf("%s: result of %s shares memory with its operand", what, name)
		}
		return r
	}
	sel := func(s []int) {
		names := n.names(s)
		g := real.Rearrange(f, names)
		r := done(&g, fmt.Sprintf("Rearrange(%v)", names))
		if len(r.ids) != k || !sameSet(r.ids, src.ids) {
			t.Failf("%s: rearranged to %v, from %v", what, n.names(r.ids), n.names(src.ids))
		}
		for i := 0; i < len(s)-1; i++ {
			if r.ids[i] != s[i] {
				t.Failf("%s: rearranged by %v to %v", what, names, n.names(r.ids))
			}
		}
		if r.ids[k-1] != s[len(s)-1] {
			t.Failf("%s: rearranged by %v to %v", what, names, n.names(r.ids))
		}
		n.eachOf(src.ids, func(x []int) {
			if a, b := src.at(n, x), r.at(n, x); a != b && !(a != a && b != b) {
				t.Failf("%s: rearranged by %v: value for %v is %v, was %v", what, names, x, b, a)
			}
		})
		for i := range names {
			if names[i] != n.Vars[s[i]].Name {
				t.Failf("%s: argument changed", what)
			}
		}
		t.c.States++
	}
	if k > 0 {
		if k <= 4 || all {
			for _, o := range orderedScopes(k) {
				if len(o) == 0 {
					continue
				}
				s := make([]int, len(o))
				for i := range o {
					s[i] = src.ids[o[i]]
				}
				sel(s)
			}
		} else {
			for i := range src.ids {
				sel(src.ids[i : i+1])
				for j := range src.ids {
					if i != j {
						sel([]int{src.ids[i], src.ids[j]})
					}
				}
			}
			for r := 0; r < k; r++ {
				s := []int{}
				for i := 0; i < k; i++ {
					s = append(s, src.ids[(i*(k-1)+r)%k])
				}
				sel(s)
			}
		}
	}
	for _, v := range src.ids {
		g := real.Marginal(f, n.Vars[v].Name)
		r := done(&g, "Marginal")
		if len(r.ids) != 1 || r.ids[0] != v {
			t.Failf("%s: marginal of %s is over %v", what, n.Vars[v].Name, n.names(r.ids))
		}
		want := make([]float64, n.arity(v))
		n.eachOf(src.ids, func(x []int) { want[x[v]] += src.at(n, x) })
		if !nearAll(r.data, want) {
			t.Failf("%s: marginal of %s is %v, expected %v", what, n.Vars[v].Name, r.data, want)
		}
		t.c.States++
	}
	sum := 0.0
	for _, x := range src.data {
		sum += x
	}
	if sum > 1e-9 || sum < -1e-9 {
		g := real.Normalize(f)
		r := done(&g, "Normalize")
		if !sameSet(r.ids, src.ids) || len(r.ids) != k {
			t.Failf("%s: normalised over %v", what, n.names(r.ids))
		}
		n.eachOf(src.ids, func(x []int) {
			if !near(r.at(n, x), src.at(n, x)/sum) {
				t.Failf("%s: normalised value %v, expected %v", what, r.at(n, x), src.at(n, x)/sum)
			}
		})
		t.c.States++
	}
	t.Outcome(hashFloats(uint64(k+3), src.data))
}

// checkDivision checks NormalizeUtility.
func checkDivision(t *T, n *Net, real *bbn.Network, uf, pf *ve.Factor, what string) {
	u, p := readFactor(t, n, uf), readFactor(t, n, pf)
	g := real.NormalizeUtility(uf, pf)
	t.c.Transitions++
	r := readFactor(t, n, &g)
	if !sameFtab(u, readFactor(t, n, uf)) || !sameFtab(p, readFactor(t, n, pf)) {
		t.Failf("%s: operands changed", what)
	}
	union := append([]int{}, u.ids...)
	for _, v := range p.ids {
		if !has(union, v) {
			union = append(union, v)
		}
	}
	if !sameSet(r.ids, union) || len(r.ids) != len(union) {
		t.Failf("%s: result over %v", what, n.names(r.ids))
	}
	n.eachOf(union, func(x []int) {
		a, b := u.at(n, x), p.at(n, x)
		got := r.at(n, x)
		if b == 0 {
			if got == got && got < 1e300 && got > -1e300 {
				t.Failf("%s: %v divided by zero is %v", what, a, got)
			}
			return
		}
		if !near(got, a/b) {
			t.Failf("%s: %v/%v is %v", what, a, b, got)
		}
	})
	t.c.States++
}

func c21Net(t *T, n *Net, modes []int, maxEv, maxQ int, between, all bool) {
	act := n.actives()
	for _, mode := range modes {
		real := n.mustBuild(t)
		solve := func() {
			if mode > 0 && len(n.decisions()) > 0 {
				if _, err := real.SolvePolicies(mode == 1); err != nil {
					t.Failf("policies: %v", err)
				}
			}
		}
		solve()
		n.evidencesUpTo(act, maxEv, func(ev []int) {
			free := []int{}
			for _, a := range act {
				if ev[a] < 0 {
					free = append(free, a)
				}
			}
			subsetsUpTo(free, maxQ, func(q []int) {
				ps := [][]int{seq(len(q))}
				if len(q) > 1 {
					ps = append(ps, reversed(len(q)))
				}
				if len(q) > 2 {
					ps = append(ps, rotate(len(q), 1))
				}
				facs := []*ve.Factor{}
				for _, p := range ps {
					o := make([]int, len(q))
					for i := range p {
						o[i] = q[p[i]]
					}
					what := fmt.Sprintf("mode %d, %v given %v", mode, n.names(o), n.evMap(ev))
					_, pf := queryOf(t, n, real, ev, o, false)
					facs = append(facs, pf)
					checkHelpers(t, n, real, pf, what, all)
					for _, u := range append([]int{-1}, n.utils()...) {
						if len(n.utils()) == 0 {
							break
						}
						uf := utilityOf(t, n, real, ev, o, u, false)
						checkHelpers(t, n, real, uf, what+" (utility)", all)
						for _, pf := range facs {
							checkDivision(t, n, real, uf, pf, what)
						}
					}
					if !between {
						continue
					}
					for b := 0; b < 3; b++ {
						switch b {
						case 0:
							other := noEv(n)
							other[act[0]] = n.arity(act[0]) - 1
							queryOf(t, n, real, other, act[1:], true)
						case 1:
							if _, _, err := real.SolveQuery(map[string]string{"nobody": "x"}, n.names(o), false); err == nil {
								t.Failf("unknown variable accepted")
							}
						case 2:
							solve()
						}
						checkHelpers(t, n, real, pf, what+fmt.Sprintf(", after %d in between", b), false)
					}
				}
			})
		})
		t.c.Traces++
	}
}

func runC21(c *Ctx) {
	do := func(name string, modes []int, maxEv, maxQ int, between, all bool, mk func() *Net) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) {
			c21Net(t, mk(), modes, maxEv, maxQ, between, all)
		})
	}
	ars := [][]int{{2, 3, 4}, {3, 2, 2}, {4, 1, 2}}
	for nv := 1; nv <= 3; nv++ {
		dags(nv, func(par [][]int) {
			for _, ar := range ars {
				ar := ar[:nv]
				do("chance", []int{0}, 1, nv, true, true, func() *Net { return chanceNet(par, ar, nv) })
			}
		})
		decisionStructures(nv, 0, 1, func(par [][]int, types []int, u [][]int) {
			ar := []int{2, 3, 2}[:nv]
			if c.Thorough {
				ar = []int{2, 3, 4}[:nv]
			}
			do("decisions", []int{0, 1, 2}, 1, nv, c.Thorough, true, func() *Net { return decNet(par, types, ar, u, 0, 3) })
		})
	}
	for i, n := range seqNets(true) {
		n := n
		do(fmt.Sprintf("network %d", i), []int{0, 1, 2}, 2, 3, true, true, func() *Net { return n })
	}
	// deterministic tables: impossible combinations
	for s := 0; s < 4; s++ {
		n := detNet(decNet([][]int{{}, {0}, {1, 0}}, []int{chance, decision, chance}, []int{2, 2, 3}, [][]int{{2, 1}, {0}}, 0, s), s)
		do("deterministic", []int{0, 1}, 2, 3, true, true, func() *Net { return n })
	}
	// more variables
	k5 := [][]int{{}, {0}, {1, 0}, {2}, {3, 0}}
	do("five variables", []int{0}, 1, 5, true, true, func() *Net { return chanceNet(k5, []int{2, 3, 2, 4, 2}, 3) })
	do("five variables, reversed", []int{0}, 1, 5, true, true, func() *Net {
		return chanceNet(k5, []int{3, 2, 2, 2, 3}, 3).permuteVars(reversed(5))
	})
	do("six variables", []int{0}, 0, 6, false, c.Thorough, func() *Net {
		return chanceNet([][]int{{}, {0}, {1}, {2}, {3}, {4}}, []int{2, 3, 2, 2, 3, 2}, 3)
	})
	for _, f := range decFamilies(c.Thorough) {
		n := f.net
		if len(n.actives()) <= 6 {
			do("family "+f.name, []int{0, 1}, 0, 2, false, false, func() *Net { return n })
		}
	}
	for _, f := range sizeFamilies(false) {
		n := f.net
		do("family "+f.name, []int{0}, 0, 1, false, false, func() *Net { return n })
	}
	for _, path := range exampleFiles() {
		do("example "+path, []int{0, 1}, 1, 2, false, false, func() *Net {
			b, err := bbn.FromFile(path)
			if err != nil {
				return chanceNet([][]int{{}}, []int{2}, 1)
			}
			return netFrom(b)
		})
	}
}
