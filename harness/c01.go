package main

import (
	"fmt"
	"math"

	"github.com/mlange-42/bbn"
)

func init() {
	register(&Check{ID: "C01", Run: runC01,
		Rule:   "every labelled DAG of chance variables up to the size bound x every order of parent lists x arities {1,2,3} x generic tables; every assignment of rows from an alphabet with zero, deterministic, unnormalised and tiny entries; size families (chains, naive Bayes, trees, colliders, high arity, complete DAGs); shipped examples. For each network every evidence assignment and every query set. Each state is a (network, evidence, query) configuration, decided on the real solver against the enumerated joint distribution.",
		Assume: []string{"tables hold finite non-negative values with a positive sum in each row", "relative tolerance 1e-11"},
	})
}

func isNaNs(v []float64) bool {
	for _, x := range v {
		if !math.IsNaN(x) {
			return false
		}
	}
	return true
}

// checkPosterior makes one query and compares it with joint (over query, last fastest).
func checkPosterior(t *T, n *Net, real *bbn.Network, ev []int, query []int, joint []float64, ignore bool) {
	t.c.Transitions++
	res, f, err := real.SolveQuery(n.evMap(ev), n.names(query), ignore)
	if err != nil {
		t.Failf("query %v given %v: error %v", n.names(query), n.evMap(ev), err)
	}
	if len(res) != len(query) {
		t.Failf("query %v given %v: %d results", n.names(query), n.evMap(ev), len(res))
	}
	pe := 0.0
	for _, x := range joint {
		pe += x
	}
	ft, msg := n.factorTable(f, query)
	if msg != "" {
		t.Failf("query %v given %v: %s", n.names(query), n.evMap(ev), msg)
	}
	for k := range ft {
		if !nearRel(ft[k], joint[k]) {
			t.Failf("query %v given %v: factor %v, expected %v", n.names(query), n.evMap(ev), ft, joint)
		}
	}
	x := make([]int, len(n.Vars))
	for _, q := range query {
		got, ok := res[n.Vars[q].Name]
		if !ok {
			t.Failf("query %v: no result for %s", n.names(query), n.Vars[q].Name)
		}
		if len(got) != n.arity(q) {
			t.Failf("query %v: %d values for %s", n.names(query), len(got), n.Vars[q].Name)
		}
		if pe == 0 {
			if !isNaNs(got) {
				t.Failf("query %v given impossible %v: %s = %v", n.names(query), n.evMap(ev), n.Vars[q].Name, got)
			}
			continue
		}
		want := make([]float64, n.arity(q))
		k := 0
		n.rfEach(query, x, func() {
			want[x[q]] += joint[k] / pe
			k++
		})
		for o := range want {
			if !nearRel(got[o], want[o]) {
				t.Failf("query %v given %v: P(%s) = %v, expected %v", n.names(query), n.evMap(ev), n.Vars[q].Name, got, want)
			}
		}
		t.Outcome(hashFloats(0, got))
	}
	t.c.States++
}

// checkAllQueries: every evidence assignment and every query set over the remaining variables.
func checkAllQueries(t *T, n *Net, allOrders bool, maxQuery, maxEv int) {
	real := n.mustBuild(t)
	p := n.prepare()
	act := n.actives()
	first := true
	n.evidences(act, func(ev []int) {
		free := []int{}
		for _, a := range act {
			if ev[a] < 0 {
				free = append(free, a)
			}
		}
		if len(act)-len(free) > maxEv {
			return
		}
		subsets(free, func(q []int) {
			if len(q) > maxQuery && len(q) < len(free) {
				return
			}
			j := p.joint(ev, nil, q, 0, false)
			checkPosterior(t, n, real, ev, q, j, false)
			if first {
				// conformance of the reference for large networks
				r := p.refJoint(ev, nil, q, 0, false)
				for k := range r {
					if !nearRel(r[k], j[k]) {
						panic(fmt.Sprintf("reference models disagree: %v %v", r, j))
					}
				}
			}
			if allOrders && len(q) > 1 {
				perms(len(q), func(pm []int) {
					q2 := make([]int, len(q))
					same := true
					for k := range pm {
						q2[k] = q[pm[k]]
						same = same && pm[k] == k
					}
					if !same {
						checkPosterior(t, n, real, ev, q2, p.joint(ev, nil, q2, 0, false), false)
					}
				})
			}
		})
		first = false
	})
	t.c.Traces++
}

func runC01(c *Ctx) {
	// A: all small structures
	maxN := 3
	for n := 1; n <= maxN; n++ {
		dags(n, func(par [][]int) {
			parentOrders(par, func(pp [][]int) {
				product(rep(3, n), func(a []int) {
					ar := make([]int, n)
					for i := range ar {
						ar[i] = a[i] + 1
					}
					net := chanceNet(pp, ar, 1)
					c.Case(func() string { return "structure: " + net.String() }, func(t *T) {
						checkAllQueries(t, net, true, 9, 9)
					})
				})
			})
		})
	}
	arities4 := [][]int{{2, 2, 2, 2}, {3, 2, 1, 2}}
	if c.Thorough {
		product(rep(2, 4), func(a []int) { arities4 = append(arities4, []int{a[0] + 2, a[1] + 2, a[2] + 2, a[3] + 2}) })
	}
	dags(4, func(par [][]int) {
		for _, ar := range arities4 {
			net := chanceNet(par, ar, 2)
			c.Case(func() string { return "structure: " + net.String() }, func(t *T) {
				checkAllQueries(t, net, false, 9, 9)
			})
		}
	})
	dags(5, func(par [][]int) {
		ars := [][]int{{2, 2, 2, 2, 2}}
		if c.Thorough {
			ars = append(ars, []int{2, 3, 2, 1, 3})
		}
		q, maxEv := 1, 2
		if c.Thorough {
			q, maxEv = 9, 9
		}
		for _, ar := range ars {
			net := chanceNet(par, ar, 3)
			c.Case(func() string { return "structure: " + net.String() }, func(t *T) {
				checkAllQueries(t, net, false, q, maxEv)
			})
		}
	})
	// B: all tables over row alphabets
	big := map[int][][]float64{2: {{1, 0}, {0, 1}, {1, 1}, {1, 3}, {0.1, 0.3}, {1e-12, 1}, {1, 1e-100}, {1e-60, 3e-60}, {2e50, 1e50}, {0.4999, 0.5}, {0.75 + 1.0/(1<<30), 0.25}}}
	for n := 1; n <= 2; n++ {
		dags(n, func(par [][]int) {
			rowTables(chanceNet(par, rep(2, n), 1), big, func(net *Net) {
				c.Case(func() string { return "rows: " + net.String() }, func(t *T) { checkAllQueries(t, net, false, 9, 9) })
			})
		})
	}
	tern := map[int][][]float64{2: {{1, 0}, {1, 3}, {0, 2}}, 3: {{1, 0, 0}, {0, 1, 3}, {2, 1, 1}, {1e-90, 0, 1}, {0, 0, 5}}}
	dags(2, func(par [][]int) {
		for _, ar := range [][]int{{3, 3}, {2, 3}, {3, 2}} {
			rowTables(chanceNet(par, ar, 1), tern, func(net *Net) {
				c.Case(func() string { return "rows: " + net.String() }, func(t *T) { checkAllQueries(t, net, false, 9, 9) })
			})
		}
	})
	small := map[int][][]float64{2: {{1, 0}, {0, 1}, {1, 3}}}
	if c.Thorough {
		small = map[int][][]float64{2: {{1, 0}, {0, 1}, {1, 3}, {1e-70, 1}}}
	}
	dags(3, func(par [][]int) {
		rowTables(chanceNet(par, rep(2, 3), 1), small, func(net *Net) {
			c.Case(func() string { return "rows: " + net.String() }, func(t *T) { checkAllQueries(t, net, false, 1, 9) })
		})
	})
	// unusual names
	for _, base := range []*Net{chanceNet([][]int{{}, {0}, {0, 1}}, []int{2, 3, 2}, 7), chanceNet([][]int{{2}, {2}, {}, {1}}, []int{2, 2, 2, 2}, 8)} {
		worded(base, func(string) bool { return true }, func(what string, m *Net) {
			c.Case(func() string { return what + ": " + m.String() }, func(t *T) { checkAllQueries(t, m, true, 9, 9) })
		})
	}
	// C: size families
	for _, fam := range sizeFamilies(c.Thorough) {
		checkFamily(c, fam.name, fam.net)
	}
	// D: shipped examples (chance networks)
	for _, file := range exampleFiles() {
		b, err := bbn.FromFile(file)
		if err != nil {
			c.Case(func() string { return file }, func(t *T) { t.Failf("%v", err) })
			continue
		}
		net := netFrom(b)
		if len(net.decisions()) > 0 || len(net.utils()) > 0 {
			continue
		}
		checkFamily(c, file, net)
	}
}

// checkFamily: one case per evidence variable choice (none, all single values, neighbouring pairs, all leaves).
func checkFamily(c *Ctx, name string, net *Net) {
	act := net.actives()
	evs := [][]int{noEv(net)}
	for i, v := range act {
		if len(evs) > 40 {
			break
		}
		for _, o := range []int{0, net.arity(v) - 1} {
			e := noEv(net)
			e[v] = o
			evs = append(evs, e)
			w := act[(i*7+3)%len(act)]
			if w != v {
				e2 := append([]int{}, e...)
				e2[w] = net.arity(w) - 1
				evs = append(evs, e2)
			}
		}
	}
	half := noEv(net)
	for k, v := range act {
		if k%2 == 1 {
			half[v] = k / 2 % net.arity(v)
		}
	}
	all := noEv(net)
	for k, v := range act {
		if k > 0 {
			all[v] = k % net.arity(v)
		}
	}
	evs = append(evs, half, all)
	// every number of observed variables, from the front and from the back
	for k := 3; k < len(act) && k <= 10; k++ {
		front, back := noEv(net), noEv(net)
		for i := 0; i < k; i++ {
			v, w := act[i], act[len(act)-1-i]
			front[v] = (i + k) % net.arity(v)
			back[w] = (i + 1) % net.arity(w)
		}
		evs = append(evs, front, back)
	}
	for n, ev := range evs {
		n, ev := n, ev
		c.Case(func() string { return fmt.Sprintf("%s given %v: %s", name, net.evMap(ev), net.String()) }, func(t *T) {
			real := net.mustBuild(t)
			p := net.prepare()
			free := []int{}
			for _, a := range act {
				if ev[a] < 0 {
					free = append(free, a)
				}
			}
			checkPosterior(t, net, real, ev, nil, p.refJoint(ev, nil, nil, 0, false), false)
			for k, q := range free {
				if k > 12 && k < len(free)-3 {
					continue
				}
				checkPosterior(t, net, real, ev, []int{q}, p.refJoint(ev, nil, []int{q}, 0, false), false)
				if k > 0 && k < 4 {
					q2 := []int{q, free[0]}
					checkPosterior(t, net, real, ev, q2, p.refJoint(ev, nil, q2, 0, false), false)
				}
			}
			// joint queries about every number of variables, in two orders
			for _, qs := range jointQueries(net, free) {
				if n > 0 && n%4 != 0 && len(qs) != 3+n%3 {
					continue
				}
				checkPosterior(t, net, real, ev, qs, p.refJoint(ev, nil, qs, 0, false), false)
			}
			t.c.MaxOf("variables", int64(len(net.Vars)))
			t.c.Traces++
		})
	}
}

// jointQueries lists queries about 3, 4, ... of the given variables: the
// first ones in order and the last ones backwards, as long as the answer has
// at most 600 entries.
func jointQueries(net *Net, free []int) [][]int {
	out := [][]int{}
	for _, back := range []bool{false, true} {
		size := 1
		qs := []int{}
		for i := range free {
			v := free[i]
			if back {
				v = free[len(free)-1-i]
			}
			size *= net.arity(v)
			if size > 600 {
				break
			}
			qs = append(qs, v)
			if len(qs) > 2 {
				out = append(out, append([]int{}, qs...))
			}
		}
	}
	return out
}
