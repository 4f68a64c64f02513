package main

import (
	"fmt"
	"math"

	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&Check{ID: "C24", Run: runC24,
		Rule:   "every set of factor scopes over a universe of variables (all subsets of the possible scopes that cover every variable, repeated scopes and constant factors), arbitrary integer values, x sets of ids (positions, permuted, scattered, large, negative) x order of factors and of variables within factors; every evidence and every query subset; with utility variables at every position, with and without weights; with decisions and every set of known variables. Each result is compared with the enumeration of all assignments; policies with the optimum. All sequences of variable ids up to the bound, which must be refused exactly at the first repetition.",
		Assume: []string{"every variable that is summed out occurs in a factor without utilities", "every utility variable has one factor", "factors of decision problems are positive, those with decisions are distributions of a variable (times a constant), and decisions do not know their effects"},
	})
}

// problem is the model of a low-level elimination problem.
type problem struct {
	ar      []int
	types   []ve.NodeType
	ids     []int
	factors []fspec
	deps    map[int][]int
	weights []float64
	reverse bool // create factors in reversed order
}

func (p *problem) String() string {
	s := fmt.Sprintf("arities %v types %v ids %v deps %v weights %v reversed %v", p.ar, p.types, p.ids, p.deps, p.weights, p.reverse)
	for _, f := range p.factors {
		s += fmt.Sprintf("; %v = %v", f.scope, f.data)
	}
	return s
}

// make creates the real problem.
func (p *problem) make(t *T) (*universe, *ve.VE, []ve.Factor) {
	u := newUniverse(p.ar, p.ids, p.types)
	fs := make([]ve.Factor, len(p.factors))
	for k := range p.factors {
		if p.reverse {
			k = len(p.factors) - 1 - k
		}
		fs[k] = u.create(t, p.factors[k])
	}
	var deps map[ve.Variable][]ve.Variable
	if p.deps != nil {
		deps = map[ve.Variable][]ve.Variable{}
		for d, l := range p.deps {
			vs := []ve.Variable{}
			for _, v := range l {
				vs = append(vs, u.vars[v])
			}
			deps[u.vars[d]] = vs
		}
	}
	list := fs
	if p.reverse {
		list = []ve.Factor{}
		for k := range fs {
			list = append(list, fs[len(fs)-1-k])
		}
	}
	return u, ve.New(u.vs, list, deps, p.weights), fs
}

// split evaluates the product of the probability factors and the utilities at an assignment.
func (p *problem) eval(x []int, which int) (prob, util float64) {
	prob = 1
	w := map[int]float64{}
	k := 0
	for i, tp := range p.types {
		if tp == ve.UtilityNode {
			w[i] = 1
			if p.weights != nil && which < 0 {
				w[i] = p.weights[k]
			}
			k++
		}
	}
	for _, f := range p.factors {
		uv := -1
		for _, v := range f.scope {
			if p.types[v] == ve.UtilityNode {
				uv = v
			}
		}
		idx := func() int {
			k := 0
			for _, v := range f.scope {
				k = k*p.ar[v] + x[v]
			}
			return k
		}
		if uv < 0 {
			prob *= f.data[idx()]
			continue
		}
		if which >= 0 && which != uv {
			continue
		}
		util += w[uv] * f.data[idx()] // utility variables have one outcome
	}
	return
}

// each enumerates all assignments compatible with ev.
func (p *problem) each(ev []int, f func(x []int)) {
	dims := make([]int, len(p.ar))
	for i, a := range p.ar {
		dims[i] = a
		if ev[i] >= 0 {
			dims[i] = 1
		}
	}
	product(dims, func(x []int) {
		for i := range x {
			if ev[i] >= 0 {
				x[i] = ev[i]
			}
		}
		f(x)
	})
}

// padded inserts k chance variables with one outcome in front of variable at.
func (p *problem) padded(at, k int) *problem {
	move := func(v int) int {
		if v >= at {
			return v + k
		}
		return v
	}
	q := &problem{weights: p.weights, reverse: p.reverse}
	for i := 0; i < len(p.ar)+k; i++ {
		switch {
		case i >= at && i < at+k:
			q.ar, q.types, q.ids = append(q.ar, 1), append(q.types, ve.ChanceNode), append(q.ids, 1000000+i)
			q.factors = append(q.factors, fspec{[]int{i}, []float64{float64(i%3 + 1)}})
			if i%50 != 0 {
				q.factors[len(q.factors)-1].data[0] = 1
			}
		default:
			o := i
			if i >= at+k {
				o = i - k
			}
			q.ar, q.types, q.ids = append(q.ar, p.ar[o]), append(q.types, p.types[o]), append(q.ids, p.ids[o])
		}
	}
	for _, f := range p.factors {
		g := fspec{data: f.data}
		for _, v := range f.scope {
			g.scope = append(g.scope, move(v))
		}
		q.factors = append(q.factors, g)
	}
	if p.deps != nil {
		q.deps = map[int][]int{}
		for d, l := range p.deps {
			m := []int{}
			for _, v := range l {
				m = append(m, move(v))
			}
			q.deps[move(d)] = m
		}
	}
	return q
}

func (p *problem) index(scope, x []int) int {
	k := 0
	for _, v := range scope {
		k = k*p.ar[v] + x[v]
	}
	return k
}

func (p *problem) size(scope []int) int {
	s := 1
	for _, v := range scope {
		s *= p.ar[v]
	}
	return s
}

// ask makes one request and compares it. which: -2 probabilities, -1 total utility, else a utility variable.
func (p *problem) ask(t *T, ev []int, query []int, which int) {
	u, el, fs := p.make(t)
	evs := []ve.Evidence{}
	for i, o := range ev {
		if o >= 0 {
			evs = append(evs, ve.Evidence{Variable: u.vars[i], Value: o})
		}
	}
	if p.reverse {
		for a, b := 0, len(evs)-1; a < b; a, b = a+1, b-1 {
			evs[a], evs[b] = evs[b], evs[a]
		}
	}
	qs := []ve.Variable{}
	for _, q := range query {
		qs = append(qs, u.vars[q])
	}
	var res *ve.Factor
	switch {
	case which == -2:
		res = el.SolveQuery(evs, qs)
	case which == -1:
		res = el.SolveUtility(evs, qs, nil)
	default:
		v := u.vars[which]
		res = el.SolveUtility(evs, qs, &v)
	}
	t.c.Transitions++
	for i := range fs {
		if !bitsEqual(fs[i].Data(), p.factors[i].data) {
			t.Failf("factor %d changed by solving", i)
		}
	}
	got := u.read(t, res)
	allowed := append([]int{}, query...)
	for i, tp := range p.types {
		if tp == ve.DecisionNode {
			allowed = append(allowed, i)
		}
		allowed = append(allowed, p.deps[i]...)
		if i == which {
			allowed = append(allowed, i)
		}
	}
	what := fmt.Sprintf("query %v given %v (utility %d)", query, ev, which)
	for _, q := range query {
		if !has(got.scope, q) {
			t.Failf("%s: variable %d not in the result over %v", what, q, got.scope)
		}
	}
	for _, v := range got.scope {
		if !has(allowed, v) || ev[v] >= 0 {
			t.Failf("%s: variable %d in the result", what, v)
		}
	}
	open := []int{}
	for i, tp := range p.types {
		if tp == ve.DecisionNode && !has(got.scope, i) && ev[i] < 0 {
			open = append(open, i)
		}
	}
	full := append(append([]int{}, got.scope...), open...)
	want := make([]float64, p.size(full))
	scale := 0.0 // sum of all absolute contributions
	p.each(ev, func(x []int) {
		pr, ut := p.eval(x, which)
		if which > -2 {
			pr *= ut
		}
		want[p.index(full, x)] += pr
		scale += math.Abs(pr)
	})
	rest := p.size(open)
	for k := range want {
		if !near(got.data[k/rest], want[k]) || math.Abs(got.data[k/rest]-want[k]) > 1e-8*scale {
			t.Failf("%s: value %d over %v is %v, expected %v", what, k/rest, got.scope, got.data[k/rest], want[k])
		}
	}
	t.c.States++
	t.Outcome(hashFloats(uint64(len(got.scope)+1), got.data))
}

func (p *problem) free(ev []int) []int {
	r := []int{}
	for i := range p.ar {
		if ev[i] < 0 && p.types[i] != ve.UtilityNode {
			r = append(r, i)
		}
	}
	return r
}

// askAll makes all requests within the bounds.
func (p *problem) askAll(t *T, maxEv, maxQ int) {
	act := p.free(rep(-1, len(p.ar)))
	us := []int{}
	for i, tp := range p.types {
		if tp == ve.UtilityNode {
			us = append(us, i)
		}
	}
	subsetsUpTo(act, maxEv, func(e []int) {
		dims := []int{}
		for _, v := range e {
			dims = append(dims, p.ar[v])
		}
		product(dims, func(o []int) {
			ev := rep(-1, len(p.ar))
			for i, v := range e {
				ev[v] = o[i]
			}
			subsetsUpTo(p.free(ev), maxQ, func(q []int) {
				if p.reverse {
					q = rev(q)
				}
				p.ask(t, ev, q, -2)
				if len(us) > 0 {
					p.ask(t, ev, q, -1)
					for _, u := range us {
						p.ask(t, ev, q, u)
					}
				}
			})
		})
	})
	t.c.Traces++
}

func rev(l []int) []int {
	r := make([]int, len(l))
	for i := range l {
		r[len(l)-1-i] = l[i]
	}
	return r
}

// policies solves the decisions and compares them with the optimum.
func (p *problem) policies(t *T, single bool, order []int) {
	u, el, fs := p.make(t)
	res := el.SolvePolicies(single)
	t.c.Transitions++
	for i := range fs {
		if !bitsEqual(fs[i].Data(), p.factors[i].data) {
			t.Failf("factor %d changed by solving", i)
		}
	}
	pols := map[int]fspec{}
	for v, f := range res {
		i := u.pos[v.Id()]
		s := u.read(t, f[1])
		if !has(s.scope, i) {
			t.Failf("policy of %d over %v", i, s.scope)
		}
		pols[i] = s
	}
	want := order
	if single {
		want = order[len(order)-1:]
	}
	if len(pols) != len(want) {
		t.Failf("%d policies, expected %d", len(pols), len(want))
	}
	for k := len(order) - 1; k >= 0; k-- {
		d := order[k]
		pol, ok := pols[d]
		if !ok {
			if !single || k == len(order)-1 {
				t.Failf("no policy for %d", d)
			}
			continue
		}
		info := append([]int{}, p.deps[d]...)
		for _, e := range order[:k] {
			if !has(info, e) {
				info = append(info, e)
			}
		}
		for _, v := range pol.scope {
			if v != d && !has(info, v) {
				t.Failf("policy of %d depends on %d", d, v)
			}
		}
		sc := append(append([]int{}, info...), d)
		eu := make([]float64, p.size(sc))
		scale := 0.0
		p.each(rep(-1, len(p.ar)), func(x []int) {
			pr, ut := p.eval(x, -1)
			for _, e := range order[k+1:] {
				pr *= pols[e].data[p.index(pols[e].scope, x)]
			}
			eu[p.index(sc, x)] += pr * ut
			scale = math.Max(scale, math.Abs(pr*ut))
		})
		c := p.ar[d]
		seen := rep(-1, len(p.ar))
		p.each(seen, func(x []int) {
			x = append([]int{}, x...)
			o := x[d]
			x[d] = 0
			row := eu[p.index(sc, x) : p.index(sc, x)+c]
			x[d] = o
			best := math.Inf(-1)
			for _, v := range row {
				best = math.Max(best, v)
			}
			ties := 0
			for _, v := range row {
				if best-v <= 1e-9*scale {
					ties++
				}
			}
			got := pol.data[p.index(pol.scope, x)]
			for _, v := range row {
				if v != best && best-v <= 1e-9*scale { // a tie up to rounding
					if got > 1e-9 && best-row[o] > 1e-9*scale {
						t.Failf("policy of %d at %v is %v for expected utilities %v", d, x, got, row)
					}
					return
				}
			}
			w := 0.0
			if row[o] == best {
				w = 1 / float64(ties)
			}
			if math.Abs(got-w) > 1e-9 {
				t.Failf("policy of %d at %v is %v, expected %v for expected utilities %v", d, x, got, w, row)
			}
		})
		t.c.States++
		t.Outcome(hashFloats(uint64(d+1), pol.data))
	}
	t.c.Traces++
}

func positive(size, seed int) []float64 {
	t := make([]float64, size)
	for i := range t {
		t[i] = float64(mix(i, seed, 9)%8 + 1)
	}
	return t
}

// covers tells whether every variable in vars is in one of the scopes.
func covers(scopes [][]int, vars []int) bool {
	for _, v := range vars {
		ok := false
		for _, s := range scopes {
			ok = ok || has(s, v)
		}
		if !ok {
			return false
		}
	}
	return true
}

func nonEmpty(n, max int) [][]int {
	r := [][]int{}
	subsets(seq(n), func(s []int) {
		if len(s) > 0 && len(s) <= max {
			r = append(r, s)
		}
	})
	return r
}

func runC24(c *Ctx) {
	chances := func(n int) []ve.NodeType { return make([]ve.NodeType, n) }
	do := func(what string, mk func() *problem, f func(t *T, p *problem)) {
		c.Case(func() string { return what + ": " + mk().String() }, func(t *T) { f(t, mk()) })
	}
	idSets := [][]int{{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {7, 3, 100, 0, 12}, {-5, 40000, 2, 70000, 1}, {1, 2, 3, 4, 5},
		{3 + 1<<16, 3, 3 - 1<<16, 3 + 1<<8, 3 + 1<<40}, {1<<62 + 1, -1 << 62, 1 << 32, 0, -1}} // ids that agree in their lower bits
	// duplicate ids
	for d := 2; d <= 4; d++ {
		product(rep(7, d), func(x []int) {
			vals := []int{0, 5, -1, 70000, 5 + 1<<16, 5 + 1<<8, 5 - 1<<32}
			c.Case(func() string { return fmt.Sprintf("ids %v", x) }, func(t *T) {
				vs := ve.NewVariables()
				seen := map[int]bool{}
				made := []ve.Variable{}
				for _, k := range x {
					id := vals[k]
					var v ve.Variable
					_, panicked := caught(func() { v = vs.AddVariable(id, ve.ChanceNode, 2) })
					t.c.Transitions++
					if panicked != seen[id] {
						t.Failf("id %d in %v: refused %v, expected %v", id, x, panicked, seen[id])
					}
					if !panicked && v.Id() != id {
						t.Failf("variable has id %d instead of %d", v.Id(), id)
					}
					if !panicked {
						made = append(made, v)
					}
					seen[id] = true
				}
				for i, a := range made {
					for j, b := range made {
						if a.Is(b) != (i == j) {
							t.Failf("variables with ids %d and %d: the same: %v", a.Id(), b.Id(), a.Is(b))
						}
					}
				}
				// a separate set of variables is independent
				if _, p := caught(func() { ve.NewVariables().AddVariable(vals[x[0]], ve.ChanceNode, 2) }); p {
					t.Failf("id refused in another set of variables")
				}
				t.c.States++
				t.c.Traces++
			})
		})
	}
	// factor sets over chance variables
	factorSets := func(ar []int, scopes [][]int, maxEv, maxQ int, doubles bool) {
		n := len(ar)
		subsets(seq(len(scopes)), func(s []int) {
			chosen := [][]int{}
			for _, k := range s {
				chosen = append(chosen, scopes[k])
			}
			if !covers(chosen, seq(n)) {
				return
			}
			lists := [][][]int{chosen}
			if doubles {
				for k := range chosen {
					lists = append(lists, append(append([][]int{}, chosen...), chosen[k]))
				}
				lists = append(lists, append(append([][]int{}, chosen...), []int{}))
			}
			for li, l := range lists {
				for ii, ids := range idSets {
					if li > 0 && ii != 2 && ii != 4 {
						continue
					}
					do("factors", func() *problem {
						p := &problem{ar: ar, types: chances(n), ids: ids[:n], reverse: (ii+li)%2 == 1}
						for k, sc := range l {
							if li > 0 && ii == 4 && k == len(l)-1 && len(sc) > 0 { // the very same factor again
								p.factors = append(p.factors, p.factors[li-1])
								continue
							}
							if (k+ii)%2 == 1 {
								sc = rev(sc)
							}
							f := fspec{scope: sc}
							f.data = factorValues(p.size(sc), mix(k, ii, len(l)))
							p.factors = append(p.factors, f)
						}
						return p
					}, func(t *T, p *problem) { p.askAll(t, maxEv, maxQ) })
				}
			}
		})
	}
	factorSets([]int{2}, nonEmpty(1, 1), 1, 1, true)
	factorSets([]int{2, 3}, nonEmpty(2, 2), 2, 2, true)
	factorSets([]int{2, 3, 2}, nonEmpty(3, 3), 3, 3, true)
	factorSets([]int{1, 2, 4}, nonEmpty(3, 3), 3, 3, false)
	if c.Thorough {
		factorSets([]int{2, 2, 2, 2}, nonEmpty(4, 2), 4, 4, false)
		factorSets([]int{2, 3, 2, 2}, nonEmpty(4, 2), 2, 2, true)
	} else {
		factorSets([]int{2, 3, 2, 2}, nonEmpty(4, 2), 1, 1, false)
	}
	// several factors over the same variables, in all orders
	for size := 2; size <= 4; size++ {
		perms(size, func(a []int) {
			a = append([]int{}, a...)
			perms(size, func(b []int) {
				b = append([]int{}, b...)
				for _, ar := range [][]int{{2, 3, 2, 2}, {2, 2, 2, 2}} {
					if size == 4 && !c.Thorough && (ar[1] == 3 || a[0] != 0 && a[3] != 0) {
						continue
					}
					for third := 0; third < 2; third++ {
						do("same variables", func() *problem {
							p := &problem{ar: ar[:size], types: chances(size), ids: []int{7, 3, 100, 0}[:size], reverse: third == 1}
							p.factors = []fspec{{a, positive(p.size(a), 1)}, {b, positive(p.size(b), 2)}}
							if third == 1 {
								p.factors = append(p.factors, fspec{rev(a), positive(p.size(a), 3)})
							}
							return p
						}, func(t *T, p *problem) { p.askAll(t, 1, size) })
					}
				}
			})
		})
	}
	// very small and very large values
	for _, x := range []float64{1 << 40, 1 << 62, 1.0 / (1 << 62), 1.0 / (1 << 40)} {
		for e := 1; e <= 3; e++ {
			for k := 3; k <= 6; k++ {
				do(fmt.Sprintf("values by %g", math.Pow(x, float64(e))), func() *problem {
					p := &problem{ar: rep(2, k), types: chances(k), reverse: e == 2}
					p.ar[k/2] = 3
					for i := 0; i < k; i++ {
						p.ids = append(p.ids, (i*7+3)%k*100)
					}
					for i := 1; i < k; i++ {
						sc := []int{i, i - 1}
						d := positive(p.size(sc), i)
						if i%2 == e%2 || k == 3 {
							for j := range d {
								d[j] *= math.Pow(x, float64(e))
							}
						}
						p.factors = append(p.factors, fspec{sc, d})
					}
					return p
				}, func(t *T, p *problem) { p.askAll(t, 1, 2) })
			}
		}
	}
	// longer chains and stars with scattered ids
	for k := 5; k <= 11; k++ {
		for shape := 0; shape < 3; shape++ {
			do("shape", func() *problem {
				p := &problem{ar: rep(2, k), types: chances(k), reverse: shape == 1}
				p.ar[k/2] = 3
				for i := 0; i < k; i++ {
					p.ids = append(p.ids, (i*13+3)%k*1000-2000)
				}
				for i := 1; i < k; i++ {
					sc := []int{i - 1, i}
					if shape == 1 {
						sc = []int{i, 0}
					}
					p.factors = append(p.factors, fspec{sc, positive(p.size(sc), i)})
				}
				if shape == 2 { // a ring
					sc := []int{0, k - 1}
					p.factors = append(p.factors, fspec{sc, positive(p.size(sc), 77)})
				}
				return p
			}, func(t *T, p *problem) {
				if k > 9 {
					p.askAll(t, 1, 1)
					return
				}
				p.askAll(t, 2, 2)
			})
		}
	}
	// large arities, with all evidence and queries
	for _, a := range []int{9, 16, 17, 127, 128, 129, 255, 256, 257, 300} {
		for pos := 0; pos < 3; pos++ {
			do("arity", func() *problem {
				p := &problem{ar: []int{2, 2, 2, 1}, types: []ve.NodeType{0, 0, 0, ve.UtilityNode}, ids: []int{9, 4, 5, 1}, reverse: pos == 1}
				p.ar[pos] = a
				for k, sc := range [][]int{{0, 1}, {2, 1}, {2}} {
					p.factors = append(p.factors, fspec{sc, positive(p.size(sc), k)})
				}
				p.factors = append(p.factors, fspec{[]int{1, 3, 2}, factorValues(p.size([]int{1, 3, 2}), 5)})
				return p
			}, func(t *T, p *problem) { p.askAll(t, 1, 2) })
		}
	}
	// many factors over the same variables, and many utilities
	for _, k := range []int{3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 33} {
		for variant := 0; variant < 2; variant++ {
			do("many", func() *problem {
				p := &problem{ar: []int{2, 3, 2}, types: make([]ve.NodeType, 3), ids: []int{5, 3, 8}, reverse: k%2 == 1}
				for i := 0; i < k; i++ {
					sc := [][]int{{0, 1}, {2}, {1, 2}, {1, 0}, {0}}[i%5]
					d := positive(p.size(sc), i)
					for j := range d {
						d[j] /= 4
					}
					p.factors = append(p.factors, fspec{sc, d})
				}
				if variant == 0 {
					return p
				}
				p.factors = p.factors[:3]
				for i := 0; i < k; i++ {
					p.ar = append(p.ar, 1)
					p.types = append(p.types, ve.UtilityNode)
					p.ids = append(p.ids, 100-i*3)
					sc := append([]int{3 + i}, [][]int{{0, 1}, {2}, {1, 2}, {1, 0}, {0}}[i%5]...)
					p.factors = append(p.factors, fspec{sc, factorValues(p.size(sc), i)})
					if k%2 == 0 {
						p.weights = append(p.weights, float64(i%7)-2.5)
					}
				}
				return p
			}, func(t *T, p *problem) { p.askAll(t, 1, 1) })
		}
	}
	// utilities at every position
	un := [][]int{{0}, {1}, {0, 1}}
	probSets := [][][]int{{{0}, {1}}, {{0, 1}}, {{0}, {0, 1}}, {{1, 0}, {1}, {0}}}
	for nu := 1; nu <= 2; nu++ {
		product(rep(len(un), nu), func(us []int) {
			perms(2+nu, func(perm []int) { // perm[k]: what is at position k
				for pi, ps := range probSets {
					for wi, w := range [][]float64{nil, {2, -0.5}, {0, 3}} {
						for ii, ids := range idSets {
							if !c.Thorough && (wi+pi+ii)%2 == 1 && ii > 1 {
								continue
							}
							do("utilities", func() *problem {
								where := make([]int, len(perm))
								for k, o := range perm {
									where[o] = k
								}
								p := &problem{ar: make([]int, len(perm)), types: make([]ve.NodeType, len(perm)), ids: ids[:len(perm)], reverse: ii%2 == 1}
								for i := range perm {
									p.ar[where[i]] = 2 + i%2
									if i >= 2 {
										p.ar[where[i]] = 1
										p.types[where[i]] = ve.UtilityNode
									}
								}
								if w != nil {
									p.weights = w[:nu]
								}
								for k, sc := range ps {
									f := fspec{}
									for _, v := range sc {
										f.scope = append(f.scope, where[v])
									}
									f.data = positive(p.size(f.scope), mix(k, ii))
									p.factors = append(p.factors, f)
								}
								for k, uu := range us {
									f := fspec{}
									for _, v := range un[uu] {
										f.scope = append(f.scope, where[v])
									}
									at := (k + wi) % (len(f.scope) + 1) // the utility variable anywhere in its factor
									f.scope = append(f.scope[:at:at], append([]int{where[2+k]}, f.scope[at:]...)...)
									f.data = factorValues(p.size(f.scope), mix(k, pi, 3))
									p.factors = append(p.factors, f)
								}
								return p
							}, func(t *T, p *problem) { p.askAll(t, 2, 2) })
						}
					}
				}
			})
		})
	}
	// decisions: universe of two chance variables, decisions and a utility at every position
	decs := func(nd int, perm []int, know [][]int, ps [][]int, us [][]int, w []float64, ids []int, seed int, reverse bool) *problem {
		where := make([]int, len(perm))
		for k, o := range perm {
			where[o] = k
		}
		nu := len(us)
		n := 2 + nd + nu
		p := &problem{ar: make([]int, n), types: make([]ve.NodeType, n), ids: ids[:n], reverse: reverse, deps: map[int][]int{}, weights: w}
		for i := 0; i < n; i++ {
			p.ar[where[i]] = 2 + (i+seed)%2
			switch {
			case i >= 2+nd:
				p.ar[where[i]] = 1
				p.types[where[i]] = ve.UtilityNode
			case i >= 2:
				p.types[where[i]] = ve.DecisionNode
			}
		}
		for d := 0; d < nd; d++ {
			l := []int{}
			for _, v := range know[d] {
				l = append(l, where[v])
			}
			p.deps[where[2+d]] = l
		}
		for k, sc := range ps {
			f := fspec{}
			for _, v := range sc {
				f.scope = append(f.scope, where[v])
			}
			f.data = positive(p.size(f.scope), mix(k, seed))
			for _, v := range sc {
				if v >= 2 { // depends on a decision: a distribution (times a constant) of the last variable
					a := p.ar[f.scope[len(f.scope)-1]]
					f.data = dyadicTable(len(f.data)/a, a, mix(k, seed))
					for i := range f.data {
						f.data[i] *= float64(k+1) * 4
					}
				}
			}
			p.factors = append(p.factors, f)
		}
		for k, sc := range us {
			f := fspec{}
			for _, v := range sc {
				f.scope = append(f.scope, where[v])
			}
			f.scope = append(f.scope, where[2+nd+k])
			f.data = factorValues(p.size(f.scope), mix(k, seed, 3))
			if seed%3 == 1 {
				for i := range f.data {
					f.data[i] = float64(int(math.Abs(f.data[i])) % 2)
				}
			}
			p.factors = append(p.factors, f)
		}
		return p
	}
	one := [][]int{{2}, {0, 2}, {1, 2}, {0, 1, 2}, {0}}
	dprobs := [][][]int{{{0}, {1}}, {{0}, {0, 1}}, {{0, 1}}, {{0}, {0, 2, 1}}, {{2, 0}, {0, 1}}, {{2, 0}, {2, 1}}}
	subsets([]int{0, 1}, func(know []int) {
		for ui := range one {
			for pi, ps := range dprobs {
				if knowsEffect(know, ps, 2) {
					continue
				}
				perms(4, func(perm []int) {
					for ii, ids := range idSets {
						if !c.Thorough && ii > 3 {
							continue
						}
						for seed := 0; seed < 2; seed++ {
							do("one decision", func() *problem {
								var w []float64
								if ii%2 == 0 {
									w = []float64{[]float64{-2, 0.5}[seed]}
								}
								return decs(1, perm, [][]int{know}, ps, [][]int{one[ui]}, w, ids, mix(pi, ui, ii)*2+seed, ii%2 == 1)
							}, func(t *T, p *problem) {
								d := 0
								for i, tp := range p.types {
									if tp == ve.DecisionNode {
										d = i
									}
								}
								for _, single := range []bool{true, false} {
									p.policies(t, single, []int{d})
								}
								p.askAll(t, 1, 1)
							})
						}
					}
				})
			}
		}
	})
	// many variables
	for _, k := range []int{64, 253, 256, 258} {
		for at := 0; at <= 4; at++ {
			for pi, ps := range dprobs[:3] {
				for ri, perm := range [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}} {
					if !c.Thorough && (pi+ri+at)%3 != 0 {
						continue
					}
					do(fmt.Sprintf("%d more variables", k), func() *problem {
						return decs(1, perm, [][]int{{0}}, ps, [][]int{{0, 1, 2}}, nil, idSets[2], pi*2+ri, ri == 1).padded(at, k)
					}, func(t *T, p *problem) {
						few := []int{}
						d := 0
						for i, a := range p.ar {
							if p.types[i] == ve.DecisionNode {
								d = i
							}
							if a > 1 || (p.types[i] == ve.ChanceNode && (i%97 == 0 || i+1 == len(p.ar))) {
								few = append(few, i)
							}
						}
						for _, single := range []bool{true, false} {
							p.policies(t, single, []int{d})
						}
						for _, e := range append([]int{-1}, few...) {
							ev := rep(-1, len(p.ar))
							if e >= 0 {
								ev[e] = p.ar[e] - 1
							}
							for _, q := range few {
								if q != e {
									p.ask(t, ev, []int{q}, -2)
									p.ask(t, ev, []int{q}, -1)
								}
							}
							p.ask(t, ev, nil, -2)
							p.ask(t, ev, nil, -1)
						}
						t.c.Traces++
					})
				}
			}
		}
	}
	two := [][][]int{{{0, 2, 3}}, {{0, 3}, {2}}, {{1, 2, 3}}, {{1, 3}, {0, 2}}, {{3}, {2, 1}}}
	for ki, know := range [][][]int{{{}, {2}}, {{0}, {0, 2}}, {{}, {2, 0}}, {{1}, {2, 1, 0}}} {
		for ui, us := range two {
			for pi, ps := range [][][]int{{{0}, {0, 1}}, {{0}, {2, 0, 1}}, {{0}, {1}}} {
				if knowsEffect(know[0], ps, 2) || knowsEffect(know[1], ps, 3) {
					continue
				}
				n := 4 + len(us)
				pm := allPerms(n)
				if n == 6 && !c.Thorough { // all rotations, and their reversals
					pm = [][]int{}
					for k := 0; k < n; k++ {
						pm = append(pm, rotate(n, k), rev(rotate(n, k)))
					}
				}
				for _, perm := range pm {
					for ii, ids := range [][]int{{0, 1, 2, 3, 4, 5}, {11, 5, 900, 2, -1, 7}, {5, 4, 3, 2, 1, 0}} {
						do("two decisions", func() *problem {
							var w []float64
							if ii > 0 {
								w = []float64{2, -0.5}[:len(us)]
							}
							return decs(2, perm, know, ps, us, w, ids, mix(pi, ui, ii, ki), ii == 1)
						}, func(t *T, p *problem) {
							where := make([]int, len(perm))
							for k, o := range perm {
								where[o] = k
							}
							order := []int{where[2], where[3]}
							p.policies(t, true, order)
							p.policies(t, false, order)
						})
					}
				}
			}
		}
	}
	three := [][][]int{{{0, 2, 3, 4}}, {{0, 4}, {2, 3}}, {{2}, {1, 3, 4}}, {{2, 4}, {3, 0}}, {{1, 4}, {3}}}
	for ki, know := range [][][]int{{{}, {2}, {2, 3}}, {{0}, {0, 2}, {0, 2, 3}}, {{}, {2, 0}, {2, 0, 3}}, {{1}, {2, 1}, {3, 2, 1, 0}}} {
		for ui, us := range three {
			for pi, ps := range [][][]int{{{0}, {0, 1}}, {{0}, {2, 0, 1}}, {{0}, {3, 0, 1}}} {
				if knowsEffect(know[0], ps, 2) || knowsEffect(know[1], ps, 3) || knowsEffect(know[2], ps, 4) {
					continue
				}
				n := 5 + len(us)
				for k := 0; k < 2*n; k++ {
					perm := rotate(n, k/2)
					if k%2 == 1 {
						perm = rev(perm)
					}
					for ii, ids := range [][]int{{0, 1, 2, 3, 4, 5, 6}, {11, 5, 900, 2, -1, 7, 1 << 20}, {6, 5, 4, 3, 2, 1, 0}} {
						do("three decisions", func() *problem {
							var w []float64
							if ii > 0 {
								w = []float64{2, -0.5}[:len(us)]
							}
							return decs(3, perm, know, ps, us, w, ids, mix(pi, ui, ii, ki), ii == 1)
						}, func(t *T, p *problem) {
							where := make([]int, len(perm))
							for k, o := range perm {
								where[o] = k
							}
							order := []int{where[2], where[3], where[4]}
							p.policies(t, true, order)
							p.policies(t, false, order)
						})
					}
				}
			}
		}
	}
	// longer sequences of decisions: chance 0, decisions 1..k, utilities of neighbours
	for k := 3; k <= 8; k++ {
		orders := append([][]int{seq(2*k + 1), reversed(2*k + 1)}, mixedOrders(2*k+1, seq(k + 1)[1:])...)
		for oi, perm := range orders {
			for all := 0; all < 2; all++ {
				where := make([]int, len(perm))
				for i, o := range perm {
					where[o] = i
				}
				order := []int{}
				for d := 1; d <= k; d++ {
					order = append(order, where[d])
				}
				do("decisions in a row", func() *problem {
					p := &problem{ar: make([]int, len(perm)), types: make([]ve.NodeType, len(perm)), reverse: oi%2 == 1, deps: map[int][]int{}}
					for i := range perm {
						p.ids = append(p.ids, (i*19+3)%(2*k+1)*5-k)
						p.ar[where[i]] = 2
						if i > k {
							p.ar[where[i]] = 1
							p.types[where[i]] = ve.UtilityNode
						} else if i > 0 {
							p.types[where[i]] = ve.DecisionNode
							l := []int{}
							for j := 1; j < i; j++ {
								if all == 1 || j == i-1 {
									l = append(l, where[j])
								}
							}
							p.deps[where[i]] = l
						}
					}
					p.factors = append(p.factors, fspec{[]int{where[0]}, []float64{0.25, 0.75}})
					for i := 1; i <= k; i++ {
						sc := []int{where[i], where[i-1], where[k+i]}
						p.factors = append(p.factors, fspec{sc, factorValues(p.size(sc), mix(i, k, oi))})
					}
					return p
				}, func(t *T, p *problem) {
					p.policies(t, true, order)
					p.policies(t, false, order)
				})
			}
		}
	}
}

// knowsEffect tells whether a decision knows a variable that depends on it.
func knowsEffect(know []int, ps [][]int, d int) bool {
	below := []int{d}
	for i := 0; i < 3; i++ {
		for _, s := range ps {
			own := s[len(s)-1]
			for _, v := range s[:len(s)-1] {
				if has(below, v) && !has(below, own) {
					below = append(below, own)
				}
			}
		}
	}
	for _, v := range know {
		if has(below, v) {
			return true
		}
	}
	return false
}
