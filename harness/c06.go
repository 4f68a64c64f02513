package main

import (
	"fmt"
	"math"

	"github.com/mlange-42/bbn"
)

func init() {
	register(&Check{ID: "C06", Run: runC06,
		Rule:   "every network of chance and decision variables up to the size bound (all DAGs, all type assignments, all utility parent sets), generic, tied, negative and deterministic tables, weights; sequential and large families; shipped examples. Stepwise and joint solutions are compared with expectimax over all strategies where each decision is declared to know all earlier information, and with the single-policy optimum otherwise.",
		Assume: []string{"for decisions without links between them any temporal order is admissible", "policy rows for impossible information are free"},
	})
	register(&Check{ID: "C07", Run: runC07,
		Rule:   "the same space as C06; checks form (one policy per decision, information, size, distributions) and the exact sharing of ties.",
		Assume: []string{"for decisions without links between them any temporal order is admissible", "policy rows for impossible information only have to be distributions"},
	})
}

// decSpace enumerates the decision networks of C06, C07.
func decSpace(c *Ctx, f func(name string, mk func() *Net)) {
	for n := 1; n <= 3; n++ {
		decisionStructures(n, 1, 2, func(par [][]int, types []int, us [][]int) {
			decs := 0
			for _, t := range types {
				decs += t
			}
			for variant := 0; variant < 3; variant++ {
				if n == 3 && len(us) == 2 && variant == 2 {
					continue
				}
				net := func() *Net { return decNet(par, types, rep(2, n), us, variant, 20+variant) }
				f("structure", net)
				if n < 3 || len(us) == 1 {
					f("zeros", func() *Net { return detNet(net(), 3) })
					f("utilities first", func() *Net { return net().permuteVars(reversed(n + len(us))) })
					if decs == 1 {
						f("arities", func() *Net { return decNet(par, types, []int{3, 2, 3}[:n], us, variant, 30) })
					}
				}
				if n < 3 {
					for at := -1; at <= n; at++ {
						f("weights", func() *Net { return withTotal(net(), []float64{-2, 0.5}, at%2 == 0, at) })
						f("zero weight", func() *Net { return withTotal(net(), []float64{0, 1}, at%2 == 0, at) })
					}
				} else if variant == 0 && (len(us) == 1 || len(us[0]) == 1) {
					f("weights", func() *Net { return withTotal(net(), []float64{-1, 3}, true, 1) })
				}
			}
		})
	}
	maxU := 1
	if c.Thorough {
		maxU = 2
	}
	decisionStructures(4, 1, maxU, func(par [][]int, types []int, us [][]int) {
		f("structure", func() *Net { return decNet(par, types, rep(2, 4), us, 0, 40) })
		f("structure", func() *Net { return decNet(par, types, rep(2, 4), us, 1, 41) })
	})
	if c.Thorough {
		dags(5, func(par [][]int) {
			product(rep(2, 5), func(types []int) {
				d := 0
				for _, t := range types {
					d += t
				}
				if d < 1 || d > 3 {
					return
				}
				f("structure", func() *Net { return decNet(par, types, rep(2, 5), [][]int{seq(5)}, 0, 50) })
				f("structure", func() *Net { return decNet(par, types, rep(2, 5), [][]int{{0, 4}, {2}}, 1, 51) })
			})
		})
	}
	for _, fam := range decFamilies(c.Thorough) {
		f(fam.name, func() *Net { return fam.net })
	}
	manyUtils(func(mk func() *Net) { f("many utilities", mk) })
	// all orders and ties of utilities
	for _, q := range []struct{ par, ar, vals int }{{0, 1, 3}, {0, 2, 3}, {0, 3, 3}, {0, 4, 4}, {0, 5, 3}, {0, 6, 2}, {1, 2, 4}, {1, 3, 3}, {1, 4, 2}} {
		rows := 1 + q.par
		product(rep(q.vals, rows*q.ar), func(x []int) {
			x = append([]int{}, x...)
			f("ranking", func() *Net {
				n := decNet([][]int{{}, seq(q.par)}, []int{chance, decision}, []int{2, q.ar}, [][]int{append(seq(q.par), 1)}, 0, 44)
				if q.par == 0 {
					n = decNet([][]int{{}}, []int{decision}, []int{q.ar}, [][]int{{0}}, 0, 44)
				}
				u := len(n.Vars) - 1
				for k := range x {
					n.Vars[u].Table[k] = float64(x[k])*3 - 4
				}
				return n
			})
		})
	}
	// differences that are small compared with the values, and very small and large values
	for _, m := range [][2]float64{{1, 1 << 30}, {1, 1e7}, {1, -1e6}, {1.0 / (1 << 10), 1}, {1.0 / (1 << 10), 0}, {1.0 / (1 << 20), -1000}, {1.0 / (1 << 20), 0}, {1.0 / (1 << 30), 1}, {1.0 / (1 << 35), 0}, {1 << 40, 0}, {-1 << 40, 1 << 20}, {1.0 / (1 << 34), 64},
		{8, -1 << 15}, {math.Ldexp(1, 130), -math.Ldexp(1, 133)}, {math.Ldexp(1, 600), -math.Ldexp(1, 603)}, {math.Ldexp(1, -300), 0}, {math.Ldexp(1, -300), -math.Ldexp(1, -297)}} {
		for _, q := range []struct{ par, ar, vals int }{{0, 2, 3}, {0, 3, 3}, {1, 2, 3}, {0, 4, 2}} {
			rows := 1 + q.par
			product(rep(q.vals, rows*q.ar), func(x []int) {
				for hidden := 0; hidden < 2; hidden++ {
					f("small differences", func() *Net {
						// a decision, with an observation, and (hidden) a chance variable that averages utilities
						n := decNet([][]int{{}, seq(q.par), {0}}, []int{chance, decision, chance}, []int{2, q.ar, 2}, [][]int{append(append(seq(q.par), 1), seq(hidden * 3)[2*hidden:]...)}, 0, 44)
						u := len(n.Vars) - 1
						for k := range n.Vars[u].Table {
							z := k
							if hidden == 1 {
								z = k / 2
							}
							n.Vars[u].Table[k] = float64(x[z])*m[0] + m[1]
							if hidden == 1 && k%2 == 1 {
								n.Vars[u].Table[k] = float64(x[(z+1)%len(x)])*m[0] + m[1]
							}
						}
						return n
					})
				}
			})
		}
	}
	for _, file := range exampleFiles() {
		b, err := bbn.FromFile(file)
		if err != nil {
			continue
		}
		n := netFrom(b)
		if len(n.decisions()) > 0 && len(n.utils()) > 0 && len(n.actives()) <= 14 {
			f(file, func() *Net { return n })
		}
	}
}

func solved(t *T, n *Net, real *bbn.Network, stepwise bool) map[string]bbn.Factor {
	t.c.Transitions++
	res, err := real.SolvePolicies(stepwise)
	if err != nil {
		t.Failf("solving policies: %v", err)
	}
	return res
}

func runC06(c *Ctx) {
	decSpace(c, func(name string, mk func() *Net) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) {
			n := mk()
			order, nested := n.nestedOrder()
			want := 0.0
			if nested && len(n.actives()) <= 8 {
				want = n.meu(order)
			} else {
				nested = false
			}
			p := n.prepare()
			for _, stepwise := range []bool{true, false} {
				real := n.mustBuild(t)
				res := solved(t, n, real, stepwise)
				pols := map[int]Pol{}
				for _, d := range n.decisions() {
					f, ok := res[n.Vars[d].Name]
					if !ok {
						t.Failf("no policy for %s", n.Vars[d].Name)
					}
					pols[d] = n.polFrom(f)
					if len(pols[d].Table) != n.scopeSize(pols[d].Scope)*n.arity(d) {
						t.Failf("policy of %s has %d values", n.Vars[d].Name, len(pols[d].Table))
					}
				}
				if nested {
					eu := p.refJoint(nil, pols, nil, -1, true)[0]
					if !near(eu, want) {
						t.Failf("stepwise=%v: expected utility of the policies is %v, the maximum is %v; policies %v", stepwise, eu, want, res)
					}
					f, err := real.SolveUtility(nil, nil, "", false)
					if err != nil {
						t.Failf("utility: %v", err)
					}
					if len(f.Data()) != 1 || !near(f.Data()[0], want) {
						t.Failf("stepwise=%v: reported utility is %v, the maximum is %v", stepwise, f.Data(), want)
					}
					t.Outcome(hashFloats(0, []float64{want}))
					t.c.Count("compared_with_expectimax", 1)
				}
				checkOptimal(t, n, pols, !stepwise, false)
				t.c.States++
			}
			t.c.Traces++
		})
	})
}

func runC07(c *Ctx) {
	decSpace(c, func(name string, mk func() *Net) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) {
			n := mk()
			for _, stepwise := range []bool{true, false} {
				real := n.mustBuild(t)
				res := solved(t, n, real, stepwise)
				pols := readPolicies(t, n, res, !stepwise)
				checkOptimal(t, n, pols, !stepwise, true)
				// solving again gives the same
				again := solved(t, n, real, stepwise)
				for k, f := range res {
					if fmt.Sprint(again[k].Given, again[k].Table) != fmt.Sprint(f.Given, f.Table) {
						t.Failf("policy of %s differs when solved again: %v, %v", k, again[k], f)
					}
				}
				for _, d := range n.decisions() {
					t.Outcome(hashFloats(uint64(len(pols[d].Scope)+1), pols[d].Table))
				}
				t.c.States++
			}
			t.c.Traces++
		})
	})
}
