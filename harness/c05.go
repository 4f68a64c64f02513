package main

import (
	"fmt"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifrt"
)

func init() {
	register(&Check{ID: "C05", Run: runC05,
		Rule:   "stateless exploration of the real code under a controlled map iteration order (every range over a map is a choice point): for each network and request the canonical run is recorded, then every run that deviates from it at one choice point by every permutation (up to 4 elements; beyond: all transpositions, rotations and the reversal), every pair of deviations by reversal/rotation (small networks), and global orders (all reversed, all rotated, alternating). Each run is compared with the canonical one.",
		Assume: []string{"elements inserted during an iteration are not visited by it"},
	})
}

var permCache = map[int][][]int{}

// orderings of n elements used for deviations (without the identity).
func orderings(n int) [][]int {
	if r, ok := permCache[n]; ok {
		return r
	}
	r := [][]int{}
	if n <= 4 {
		r = allPerms(n)[1:]
	} else {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				p := seq(n)
				p[i], p[j] = p[j], p[i]
				r = append(r, p)
			}
		}
		for k := 1; k < n; k++ {
			p := make([]int, n)
			for i := range p {
				p[i] = (i + k) % n
			}
			r = append(r, p)
		}
		r = append(r, reversed(n))
	}
	permCache[n] = r
	return r
}

func rotate(n, k int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = (i + k) % n
	}
	return p
}

// exploreOrders runs f under all orders within the bounds and compares the results.
func exploreOrders(t *T, what string, pairs bool, exact bool, f func() []float64) {
	defer func() { verifrt.Choose = nil }()
	run := func(ch func(k, n int) []int) ([]float64, []int) {
		sizes := []int{}
		verifrt.Choose = func(n int) []int {
			k := len(sizes)
			sizes = append(sizes, n)
			if ch == nil {
				return nil
			}
			return ch(k, n)
		}
		r := f()
		verifrt.Choose = nil
		t.c.Transitions++
		return r, sizes
	}
	base, sizes := run(nil)
	t.Outcome(hashFloats(1, base))
	cmp := func(how string, got []float64) {
		if len(got) != len(base) {
			t.Failf("%s: %d values with %s, %d in canonical order", what, len(got), how, len(base))
		}
		for i := range got {
			if exact && got[i] != base[i] && !(got[i] != got[i] && base[i] != base[i]) || !near(got[i], base[i]) {
				t.Failf("%s: value %d is %v with %s, %v in canonical order", what, i, got[i], how, base[i])
			}
		}
		t.c.States++
	}
	if !verifrt.Instrumented {
		for i := 0; i < 24; i++ {
			r, _ := run(nil)
			cmp("the runtime's order", r)
		}
		return
	}
	t.c.MaxOf("choice_points", int64(len(sizes)))
	for k, n := range sizes {
		for _, p := range orderings(n) {
			r, _ := run(func(i, m int) []int {
				if i == k && m == n {
					return p
				}
				return nil
			})
			cmp(fmt.Sprintf("order %v at choice %d", p, k), r)
		}
	}
	for g := 0; g < 6; g++ {
		r, _ := run(func(i, m int) []int {
			switch g {
			case 0:
				return reversed(m)
			case 1:
				return rotate(m, 1)
			case 2:
				return rotate(m, m-1)
			case 3:
				if i%2 == 0 {
					return reversed(m)
				}
			case 4:
				if i%2 == 1 {
					return reversed(m)
				}
			case 5:
				return rotate(m, i)
			}
			return nil
		})
		cmp(fmt.Sprintf("global order %d", g), r)
	}
	if pairs {
		for a := range sizes {
			for b := a + 1; b < len(sizes); b++ {
				for _, rot := range []bool{false, true} {
					r, _ := run(func(i, m int) []int {
						if i != a && i != b {
							return nil
						}
						if rot {
							return rotate(m, 1)
						}
						return reversed(m)
					})
					cmp(fmt.Sprintf("two deviations at %d and %d", a, b), r)
				}
			}
		}
	}
}

// factorVec reads a factor as function over all active variables.
func factorVec(t *T, n *Net, vars []int, get func(x []int) float64) []float64 {
	vec := []float64{}
	x := make([]int, len(n.Vars))
	n.rfEach(vars, x, func() { vec = append(vec, get(x)) })
	return vec
}

func polVec(t *T, n *Net, res map[string]bbn.Factor) []float64 {
	vec := []float64{}
	for _, d := range n.decisions() {
		f, ok := res[n.Vars[d].Name]
		if !ok {
			t.Failf("no policy for %s", n.Vars[d].Name)
		}
		p := n.polFrom(f)
		sc := append(append([]int{}, p.Scope...), d)
		vec = append(vec, factorVec(t, n, n.actives(), func(x []int) float64 { return p.Table[n.scopeIndex(sc, x)] })...)
	}
	return vec
}

func c05Net(t *T, n *Net, maxEv int, pairs, exact bool) {
	ds := n.decisions()
	modes := []int{0}
	if len(ds) > 0 && len(n.utils()) > 0 {
		modes = []int{0, 1, 2}
	}
	for _, mode := range modes {
		var real *bbn.Network
		if mode > 0 {
			exploreOrders(t, fmt.Sprintf("policies mode %d", mode), pairs, exact, func() []float64 {
				r := n.mustBuild(t)
				return polVec(t, n, solved(t, n, r, mode == 1))
			})
		}
		if maxEv < 0 {
			continue // policies only
		}
		real = n.mustBuild(t)
		if mode > 0 {
			solved(t, n, real, mode == 1)
		} else if len(ds) > 0 {
			continue
		}
		n.evidences(n.actives(), func(ev []int) {
			if countEv(ev) > maxEv {
				return
			}
			for _, ignore := range []bool{false, true} {
				if ignore && (mode == 0 || countEv(ev) == 0) {
					continue
				}
				q := []int{}
				for _, a := range n.actives() {
					if ev[a] < 0 && len(q) < 2 {
						q = append(q, a)
					}
				}
				exploreOrders(t, fmt.Sprintf("query %v given %v, mode %d", n.names(q), n.evMap(ev), mode), false, false, func() []float64 {
					res, f := queryOf(t, n, real, ev, q, ignore)
					vec := []float64{}
					for _, v := range q {
						vec = append(vec, res[n.Vars[v].Name]...)
					}
					ft, msg := n.factorTable(f, q)
					if msg != "" {
						t.Failf("%s", msg)
					}
					return append(vec, ft...)
				})
				if mode > 0 {
					for _, u := range append([]int{-1}, n.utils()...) {
						exploreOrders(t, fmt.Sprintf("utility %d given %v, mode %d", u, n.evMap(ev), mode), false, false, func() []float64 {
							return append([]float64{}, utilityOf(t, n, real, ev, nil, u, ignore).Data()...)
						})
					}
				}
			}
		})
	}
	if maxEv < 0 {
		t.c.Traces++
		return
	}
	// saved output
	var first string
	exploreOrders(t, "YAML", false, true, func() []float64 {
		b, err := bbn.ToYAML(n.mustBuild(t))
		if err != nil {
			t.Failf("%v", err)
		}
		if first == "" {
			first = string(b)
		} else if first != string(b) {
			t.Failf("saved output differs: %q and %q", first, b)
		}
		return nil
	})
	// loading and training
	netVec := func(b *bbn.Network, err error) []float64 {
		if err != nil {
			t.Failf("%v", err)
		}
		m := netFrom(b)
		vec := []float64{float64(b.TotalUtilityIndex())}
		for i, v := range m.Vars {
			if v.Name != n.Vars[i].Name || fmt.Sprint(v.Out) != fmt.Sprint(n.Vars[i].Out) || v.Type != n.Vars[i].Type {
				t.Failf("variable %d is %+v instead of %+v", i, v, n.Vars[i])
			}
			for _, g := range v.Given {
				vec = append(vec, float64(g))
			}
			vec = append(vec, v.Table...)
		}
		return vec
	}
	if len(n.Vars) <= 8 {
		y, x := writeYAML(n), writeXML(n, xmlStyle{sep: " ", num: 0})
		exploreOrders(t, "loading YAML", pairs, true, func() []float64 { return netVec(bbn.FromYAML([]byte(y))) })
		exploreOrders(t, "loading XML", pairs, true, func() []float64 { return netVec(bbn.FromBIFXML([]byte(x))) })
		if n.scopeSize(n.actives()) <= 24 {
			rows := covering(n, 3)
			exploreOrders(t, "training", pairs, true, func() []float64 {
				tr := bbn.NewTrainer(n.mustBuild(t))
				for _, r := range rows {
					tr.AddSample(append([]int{}, r.x...), append([]float64{}, r.u...))
				}
				return netVec(tr.UpdateNetwork())
			})
		}
	}
	t.c.Traces++
}

func runC05(c *Ctx) {
	do := func(name string, maxEv int, pairs, exact bool, mk func() *Net) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) { c05Net(t, mk(), maxEv, pairs, exact) })
	}
	for n := 2; n <= 3; n++ {
		dags(n, func(par [][]int) {
			do("chance", 3, true, false, func() *Net { return chanceNet(par, []int{2, 3, 2}[:n], 8) })
		})
	}
	dags(4, func(par [][]int) {
		do("chance", 1, false, false, func() *Net { return chanceNet(par, []int{2, 2, 2, 2}, 8) })
	})
	for n := 1; n <= 3; n++ {
		decisionStructures(n, 1, 2, func(par [][]int, types []int, us [][]int) {
			if n == 3 && len(us) == 2 && (len(us[0])+len(us[1]) > 2) && !c.Thorough {
				return
			}
			for variant := 0; variant < 2; variant++ {
				ev := 1
				if n == 3 {
					ev = 0
				}
				do("decisions", ev, n < 3, true, func() *Net { return decNet(par, types, rep(2, n), us, variant, 11) })
				if n < 3 && len(us) == 2 {
					do("weights", ev, n < 3, true, func() *Net {
						return withTotal(decNet(par, types, rep(2, n), us, variant, 11), []float64{2, -1}, true, 0)
					})
				}
			}
		})
	}
	dags(4, func(par [][]int) {
		product(rep(2, 4), func(types []int) {
			ds := []int{}
			for i, tp := range types {
				if tp == decision {
					ds = append(ds, i)
				}
			}
			if len(ds) == 0 || len(ds) > 2 || (len(ds) == 2 && !c.Thorough && len(par[0]) > 0) {
				return
			}
			do("policies", -1, false, true, func() *Net { return decNet(par, types, rep(2, 4), [][]int{ds}, 1, 13) })
			do("policies", -1, false, true, func() *Net { return decNet(par, types, rep(2, 4), [][]int{seq(4)}, 0, 14) })
		})
	})
	if c.Thorough {
		decisionStructures(4, 2, 1, func(par [][]int, types []int, us [][]int) {
			do("decisions", 0, false, true, func() *Net { return decNet(par, types, rep(2, 4), us, 1, 12) })
		})
	}
	k := 0
	manyUtils(func(mk func() *Net) {
		if k++; c.Thorough || k%5 == 0 {
			do("many utilities", 0, false, true, mk)
		}
	})
	for _, fam := range decFamilies(false) {
		if fam.net.scopeSize(fam.net.actives()) > 300 {
			continue
		}
		do(fam.name, 0, false, true, func() *Net { return fam.net })
	}
	limit := 40
	if c.Thorough {
		limit = 600
	}
	for _, file := range exampleFiles() {
		b, err := bbn.FromFile(file)
		if err != nil {
			continue
		}
		n := netFrom(b)
		if n.scopeSize(n.actives()) > limit {
			continue
		}
		do(file, 1, false, false, func() *Net { return n })
	}
}
