package main

import (
	"fmt"

	"github.com/mlange-42/bbn"
)

func init() {
	register(&Check{ID: "C02", Run: runC02,
		Rule:   "every small network (all DAGs of chance and decision variables with utilities, weights) x every rewriting: all variable orders, all factor orders, all parent orders, all outcome orders (tables re-indexed), row scaling by each constant, and compositions; all answers (posteriors, utilities, policies for every evidence up to the bound) of the rewritten network are compared with those of the original, on the real code.",
		Assume: []string{"decision networks: pairwise ordered decisions, binary decisions and dyadic probabilities, so that ties are exact"},
	})
}

// answers collects all answers of a real network m, in the order of names of base.
func answers(t *T, base, m *Net, real *bbn.Network, maxEv int) []float64 {
	vec := []float64{}
	oi := func(v int, k int) int { // outcome k of variable v of base, in m
		mv := m.index(base.Vars[v].Name)
		for i, o := range m.Vars[mv].Out {
			if o == base.Vars[v].Out[k] {
				return i
			}
		}
		panic("outcome lost")
	}
	act := base.actives()
	decs := base.decisions()
	modes := []int{0}
	if len(decs) > 0 {
		modes = []int{1, 2}
	}
	utils := base.utils()
	for _, mode := range modes {
		if mode > 0 {
			t.c.Transitions++
			pol, err := real.SolvePolicies(mode == 1)
			if err != nil {
				t.Failf("solving policies: %v", err)
			}
			for _, d := range decs {
				f, ok := pol[base.Vars[d].Name]
				if !ok {
					t.Failf("no policy for %s", base.Vars[d].Name)
				}
				p := m.polFrom(f)
				md := m.index(base.Vars[d].Name)
				base.prepare().each(noEv(base), func(x []int) {
					y := make([]int, len(m.Vars))
					for _, a := range act {
						y[m.index(base.Vars[a].Name)] = oi(a, x[a])
					}
					vec = append(vec, p.Table[m.scopeIndex(append(append([]int{}, p.Scope...), md), y)])
				})
			}
		}
		base.evidences(act, func(ev []int) {
			k := 0
			for _, e := range ev {
				if e >= 0 {
					k++
				}
			}
			if k > maxEv {
				return
			}
			for _, a := range act {
				if ev[a] >= 0 {
					continue
				}
				t.c.Transitions++
				res, _, err := real.SolveQuery(base.evMap(ev), []string{base.Vars[a].Name}, false)
				if err != nil {
					t.Failf("query: %v", err)
				}
				r := res[base.Vars[a].Name]
				for o := range base.Vars[a].Out {
					vec = append(vec, r[oi(a, o)])
				}
			}
			if len(utils) > 0 {
				_, pe, err := real.SolveQuery(base.evMap(ev), nil, false)
				if err != nil {
					t.Failf("query: %v", err)
				}
				vec = append(vec, pe.Data()...)
				names := []string{""}
				for _, u := range utils {
					names = append(names, base.Vars[u].Name)
				}
				for _, u := range names {
					t.c.Transitions++
					f, err := real.SolveUtility(base.evMap(ev), nil, u, false)
					if err != nil {
						t.Failf("utility: %v", err)
					}
					if len(f.Data()) != 1 {
						t.Failf("utility %q has %d values", u, len(f.Data()))
					}
					vec = append(vec, f.Data()[0])
				}
			}
		})
	}
	return vec
}

// scaleRows multiplies the rows of all chance tables.
func (n *Net) scaleRows(f func(v, row int) float64) *Net {
	m := n.clone()
	for i := range m.Vars {
		if m.Vars[i].Type != chance || m.Vars[i].Table == nil {
			continue
		}
		c := m.arity(i)
		for k := range m.Vars[i].Table {
			m.Vars[i].Table[k] *= f(i, k/c)
		}
	}
	return m
}

// nearOne are sums of rows (scaling dyadic values by them is exact).
var nearOne = []float64{1, 1 - 1.0/(1<<7), 1 + 1.0/(1<<7), 1 - 1.0/(1<<10), 1 + 1.0/(1<<10), 1 - 1.0/(1<<14), 1 + 1.0/(1<<14), 1 - 1.0/(1<<20), 1 + 1.0/(1<<20), 1 - 1.0/(1<<27), 1 + 1.0/(1<<27), 1 - 1.0/(1<<33), 1 + 1.0/(1<<33)}

// rowSums scales all rows of chance tables to the given sums.
func (n *Net) rowSums(f func(v, row int) float64) *Net {
	return n.scaleRows(func(v, row int) float64 {
		c := n.arity(v)
		s := 0.0
		for _, x := range n.Vars[v].Table[row*c : row*c+c] {
			s += x
		}
		return f(v, row) / s
	})
}

// reorderParents applies a permutation to the parent list of variable v.
func (n *Net) reorderParents(v int, p []int) *Net {
	m := n.clone()
	if v == n.total() {
		for k := range p {
			m.Vars[v].Given[k] = n.Vars[v].Given[p[k]]
			m.Vars[v].Table[k] = n.Vars[v].Table[p[k]]
			m.Vars[v].Out[k] = n.Vars[v].Out[p[k]]
		}
		return m
	}
	for k := range p {
		m.Vars[v].Given[k] = n.Vars[v].Given[p[k]]
	}
	if n.Vars[v].Table != nil {
		os := append(append([]int{}, n.Vars[v].Given...), v)
		ns := append(append([]int{}, m.Vars[v].Given...), v)
		x := make([]int, len(n.Vars))
		k := 0
		n.rfEach(ns, x, func() {
			m.Vars[v].Table[k] = n.Vars[v].Table[n.scopeIndex(os, x)]
			k++
		})
	}
	return m
}

// reorderOutcomes applies a permutation to the outcomes of variable v: new outcome k is old p[k].
func (n *Net) reorderOutcomes(v int, p []int) *Net {
	m := n.clone()
	for k := range p {
		m.Vars[v].Out[k] = n.Vars[v].Out[p[k]]
	}
	for i := range n.Vars {
		if i == n.total() || n.Vars[i].Table == nil {
			continue
		}
		sc := append(append([]int{}, n.Vars[i].Given...), i)
		if !has(sc, v) {
			continue
		}
		x := make([]int, len(n.Vars))
		k := 0
		m.rfEach(sc, x, func() {
			o := x[v]
			x[v] = p[o]
			m.Vars[i].Table[k] = n.Vars[i].Table[n.scopeIndex(sc, x)]
			x[v] = o
			k++
		})
	}
	return m
}

func reversed(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = n - 1 - i
	}
	return r
}

func sameVec(a, b []float64) (int, bool) {
	if len(a) != len(b) {
		return -1, false
	}
	for i := range a {
		if !near(a[i], b[i]) {
			return i, false
		}
	}
	return 0, true
}

func sameVecRel(a, b []float64) (int, bool) {
	if len(a) != len(b) {
		return -1, false
	}
	for i := range a {
		if !nearRel(a[i], b[i]) {
			return i, false
		}
	}
	return 0, true
}

// somePerms enumerates all permutations of up to four items, and the
// transpositions, rotations and the reversal of more.
func somePerms(n int, f func(p []int)) {
	if n <= 4 {
		perms(n, f)
		return
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			p := seq(n)
			p[i], p[j] = p[j], p[i]
			f(p)
		}
		f(rotate(n, i))
	}
	f(reversed(n))
}

// rewritings enumerates rewritten descriptions of a network.
func rewritings(n *Net, scales []float64, full bool, f func(what string, m *Net)) {
	nv := len(n.Vars)
	// variable orders
	if nv <= 4 || full {
		perms(nv, func(p []int) {
			m := n.permuteVars(p)
			f(fmt.Sprint("variable order ", p), m)
		})
	} else {
		for i := 0; i < nv; i++ { // all transpositions and rotations
			for j := i + 1; j < nv; j++ {
				p := seq(nv)
				p[i], p[j] = p[j], p[i]
				f(fmt.Sprint("variable order ", p), n.permuteVars(p))
			}
			p := make([]int, nv)
			for k := range p {
				p[k] = (k + i) % nv
			}
			f(fmt.Sprint("variable order ", p), n.permuteVars(p))
		}
		f("variables reversed", n.permuteVars(reversed(nv)))
	}
	// factor orders
	if nv <= 4 {
		perms(nv, func(p []int) {
			m := n.clone()
			m.Order = p
			f(fmt.Sprint("factor order ", p), m)
		})
	} else {
		m := n.clone()
		m.Order = reversed(nv)
		f("factors reversed", m)
		for i := 1; i < nv; i++ {
			p := make([]int, nv)
			for k := range p {
				p[k] = (k + i) % nv
			}
			m := n.clone()
			m.Order = p
			f(fmt.Sprint("factor order ", p), m)
		}
	}
	// parent orders
	for v := range n.Vars {
		somePerms(len(n.Vars[v].Given), func(p []int) {
			f(fmt.Sprintf("parents of %s in order %v", n.Vars[v].Name, p), n.reorderParents(v, p))
		})
	}
	// outcome orders
	for _, v := range n.actives() {
		perms(n.arity(v), func(p []int) {
			f(fmt.Sprintf("outcomes of %s in order %v", n.Vars[v].Name, p), n.reorderOutcomes(v, p))
		})
	}
	// scaling
	for _, s := range scales {
		f(fmt.Sprintf("all rows times %g", s), n.scaleRows(func(v, r int) float64 { return s }))
	}
	if len(scales) > 0 {
		for i := range n.Vars {
			if n.Vars[i].Type != chance || n.Vars[i].Table == nil {
				continue
			}
			for r := 0; r < n.size(i)/n.arity(i); r++ {
				for _, s := range scales {
					f(fmt.Sprintf("row %d of %s times %g", r, n.Vars[i].Name, s), n.scaleRows(func(v, row int) float64 {
						if v == i && row == r {
							return s
						}
						return 1
					}))
				}
			}
		}
	}
	// rows with sums close to one
	if len(scales) > 0 {
		for _, s := range nearOne {
			f(fmt.Sprintf("all rows sum up to %g", s), n.rowSums(func(v, r int) float64 { return s }))
		}
		f("row sums close to one", n.rowSums(func(v, r int) float64 { return nearOne[(v+r)%len(nearOne)] }))
		for i := range n.Vars {
			if n.Vars[i].Type != chance || n.Vars[i].Table == nil {
				continue
			}
			for k, s := range nearOne {
				if k%2 == 0 {
					f(fmt.Sprintf("first row of %s sums up to %g", n.Vars[i].Name, s), n.rowSums(func(v, r int) float64 {
						if v == i && r == 0 {
							return s
						}
						return 1
					}))
				}
			}
		}
	}
	// compositions
	all := n
	for v := range n.Vars {
		all = all.reorderParents(v, reversed(len(n.Vars[v].Given)))
	}
	for _, v := range n.actives() {
		all = all.reorderOutcomes(v, reversed(n.arity(v)))
	}
	f("all parents and outcomes reversed", all)
	am := all.permuteVars(reversed(nv))
	f("everything reversed", am)
	am.Order = nil
	am2 := am.clone()
	am2.Order = reversed(nv)
	for i := range am2.Order {
		am2.Order[i] = (i + 1) % nv
	}
	if len(scales) > 0 {
		am2 = am2.scaleRows(func(v, r int) float64 { return scales[(v+r)%len(scales)] })
	}
	f("everything reversed, rows scaled", am2)
}

func orderedDecisions(n *Net) bool {
	ds := n.decisions()
	for i, a := range ds {
		for _, b := range ds[i+1:] {
			if !has(n.ancestors(a), b) && !has(n.ancestors(b), a) {
				return false
			}
		}
	}
	return true
}

func runC02(c *Ctx) {
	do := func(net *Net, scales []float64, full bool, maxEv int) {
		c.Case(func() string { return net.String() }, func(t *T) {
			want := answers(t, net, net, net.mustBuild(t), maxEv)
			nv := len(net.Vars)
			t.Outcome(hashFloats(0, want))
			rewritings(net, scales, full, func(what string, m *Net) {
				got := answers(t, net, m, m.mustBuild(t), maxEv)
				same := sameVec
				if len(net.actives()) == nv && len(net.decisions()) == 0 {
					same = sameVecRel
				}
				if k, ok := same(want, got); !ok {
					if k < 0 {
						t.Failf("%s: different number of answers", what)
					}
					t.Failf("%s: answer %d is %v, originally %v; rewritten: %s", what, k, got[k], want[k], m)
				}
				t.c.States++
			})
			t.c.Traces++
		})
	}
	chScales := []float64{3, 0.1, 1e6, 1e-9, 1e-30, 1e30, 1e-150}
	exScales := []float64{3, 1024, 1000000, 1.0 / 4096, 1.0 / (1 << 40), 1 << 60}
	for n := 1; n <= 3; n++ {
		dags(n, func(par [][]int) {
			for _, ar := range [][]int{{2, 2, 2}, {3, 2, 3}, {2, 3, 1}, {1, 2, 3}} {
				do(chanceNet(par, ar[:n], 5), chScales, true, 3)
			}
		})
	}
	dags(4, func(par [][]int) {
		do(chanceNet(par, []int{2, 2, 3, 2}, 6), []float64{0.1, 1e-30, 7}, c.Thorough, 1)
	})
	// decision networks
	for n := 1; n <= 3; n++ {
		maxU := 2
		if n == 3 && !c.Thorough {
			maxU = 1
		}
		decisionStructures(n, 1, maxU, func(par [][]int, types []int, us [][]int) {
			for variant := 0; variant < 2; variant++ {
				net := decNet(par, types, rep(2, n), us, variant, 9)
				if !orderedDecisions(net) {
					continue
				}
				do(net, exScales[:3], n < 3, 1)
				if n < 3 {
					for at := -1; at <= n; at++ {
						do(withTotal(net, []float64{2, 0.5}, at%2 == 0, at), exScales[3:4], n < 2, 1)
					}
				}
			}
		})
	}
	if !c.Thorough {
		// two utilities with one parent each over three variables
		decisionStructures(3, 1, 2, func(par [][]int, types []int, us [][]int) {
			if len(us) != 2 || len(us[0]) > 1 || len(us[1]) > 1 {
				return
			}
			for variant := 0; variant < 2; variant++ {
				net := decNet(par, types, []int{2, 2, 2}, us, variant, 10)
				if orderedDecisions(net) {
					do(net, nil, false, 0)
				}
			}
		})
	}
	for _, fam := range append(shortMemory(false), farLinks(false)...) {
		if len(fam.net.actives()) > 7 || !orderedDecisions(fam.net) {
			continue
		}
		do(fam.net, exScales[1:2], false, 0)
	}
	for _, file := range exampleFiles() {
		b, err := bbn.FromFile(file)
		if err != nil {
			c.Case(func() string { return file }, func(t *T) { t.Failf("%v", err) })
			continue
		}
		net := netFrom(b)
		if !orderedDecisions(net) || net.scopeSize(net.actives()) > 64 {
			continue
		}
		do(net, []float64{1024}, false, 0)
	}
}
