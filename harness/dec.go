package main

import (
	"fmt"
	"math"

	"github.com/mlange-42/bbn"
)

// ---------------------------------------------------------------------------
// Reference for decisions.

// decisionOrders enumerates all temporal orders of the decisions that respect the links of the network.
func (n *Net) decisionOrders() [][]int {
	ds := n.decisions()
	before := map[[2]int]bool{}
	for _, d := range ds {
		for _, a := range n.ancestors(d) {
			if n.Vars[a].Type == decision {
				before[[2]int{a, d}] = true
			}
		}
	}
	res := [][]int{}
	perms(len(ds), func(p []int) {
		o := make([]int, len(ds))
		for i := range p {
			o[i] = ds[p[i]]
		}
		for i := range o {
			for j := i + 1; j < len(o); j++ {
				if before[[2]int{o[j], o[i]}] {
					return
				}
			}
		}
		res = append(res, o)
	})
	return res
}

// readPolicies converts and checks the form of the policies.
func readPolicies(t *T, n *Net, res map[string]bbn.Factor, joint bool) map[int]Pol {
	ds := n.decisions()
	if len(res) != len(ds) {
		t.Failf("%d policies for %d decisions", len(res), len(ds))
	}
	pols := map[int]Pol{}
	for _, d := range ds {
		f, ok := res[n.Vars[d].Name]
		if !ok {
			t.Failf("no policy for %s", n.Vars[d].Name)
		}
		if f.For != n.Vars[d].Name {
			t.Failf("policy of %s is for %q", n.Vars[d].Name, f.For)
		}
		// information available
		avail := append([]int{}, n.Vars[d].Given...)
		for _, e := range ds {
			if e == d || has(n.ancestors(e), d) {
				continue
			}
			avail = append(avail, e)
			if joint {
				avail = append(avail, n.Vars[e].Given...)
			}
		}
		p := Pol{Table: f.Table}
		for _, g := range f.Given {
			k := n.index(g)
			if k < 0 || k == d || has(p.Scope, k) {
				t.Failf("policy of %s is given %v", n.Vars[d].Name, f.Given)
			}
			if !has(avail, k) {
				t.Failf("policy of %s depends on %s, which is not known (%v)", n.Vars[d].Name, g, f.Given)
			}
			p.Scope = append(p.Scope, k)
		}
		c := n.arity(d)
		if len(p.Table) != n.scopeSize(p.Scope)*c {
			t.Failf("policy of %s given %v has %d values", n.Vars[d].Name, f.Given, len(p.Table))
		}
		for r := 0; r < len(p.Table); r += c {
			s := 0.0
			for k := 0; k < c; k++ {
				if !(p.Table[r+k] >= 0 && p.Table[r+k] <= 1+1e-12) {
					t.Failf("policy of %s: row %v", n.Vars[d].Name, p.Table[r:r+c])
				}
				s += p.Table[r+k]
			}
			if math.Abs(s-1) > 1e-9 {
				t.Failf("policy of %s: row %v sums to %v", n.Vars[d].Name, p.Table[r:r+c], s)
			}
		}
		pols[d] = p
	}
	return pols
}

// checkOptimal checks that every policy is a best choice given what is known, for some admissible
// temporal order. ties: equal maxima share the probability equally.
func checkOptimal(t *T, n *Net, pols map[int]Pol, joint, ties bool) {
	p := n.prepare()
	msg := ""
	for _, order := range n.decisionOrders() {
		m := ""
		for i := len(order) - 1; i >= 0 && m == ""; i-- {
			m = checkOneDecision(t, n, p, pols, order, i, joint, ties)
		}
		if m == "" {
			return
		}
		if msg == "" {
			msg = m
		}
	}
	t.Failf("%s", msg)
}

func checkOneDecision(t *T, n *Net, p *prepared, pols map[int]Pol, order []int, i int, joint, ties bool) string {
	d := order[i]
	info := []int{}
	add := func(l []int) {
		for _, v := range l {
			if !has(info, v) && v != d {
				info = append(info, v)
			}
		}
	}
	add(n.Vars[d].Given)
	for _, e := range order[:i] {
		add([]int{e})
		if joint {
			add(n.Vars[e].Given)
		}
	}
	later := map[int]Pol{}
	for _, e := range order[i+1:] {
		later[e] = pols[e]
	}
	c := n.arity(d)
	eu := make([]float64, n.scopeSize(info)*c)
	pr := make([]float64, n.scopeSize(info)*c)
	sc := append(append([]int{}, info...), d)
	scale := 0.0
	p.each(nil, func(x []int) {
		w := p.prob(x, later)
		if w == 0 {
			return
		}
		k := n.scopeIndex(sc, x)
		u := p.util(x, -1)
		eu[k] += w * u
		pr[k] += w
		scale = math.Max(scale, math.Abs(u))
	})
	fail := ""
	x := make([]int, len(n.Vars))
	r := 0
	n.rfEach(info, x, func() {
		row := eu[r*c : r*c+c]
		prow := pr[r*c : r*c+c]
		r++
		if fail != "" {
			return
		}
		total := 0.0
		for _, v := range prow {
			total += v
		}
		if total == 0 {
			return // impossible
		}
		best := math.Inf(-1)
		for _, v := range row {
			best = math.Max(best, v)
		}
		exact, amb := 0, false
		for _, v := range row {
			if v == best {
				exact++
			} else if best-v <= 1e-12*scale*total {
				amb = true
			}
		}
		for o := 0; o < c; o++ {
			x[d] = o
			got := p.polValue(pols[d], d, x)
			if got > 1e-12 && best-row[o] > 1e-12*scale*total {
				fail = fmt.Sprintf("policy of %s chooses %s with %v at %v of %v (order %v), where the (unnormalised) expected utilities are %v", n.Vars[d].Name, n.Vars[d].Out[o], got, x, n.names(info), n.names(order), row)
				break
			}
			if ties && !amb {
				want := 0.0
				if row[o] == best {
					want = 1 / float64(exact)
				}
				if math.Abs(got-want) > 1e-12 {
					fail = fmt.Sprintf("policy of %s chooses %s with %v at %v of %v (order %v), expected %v, expected utilities %v", n.Vars[d].Name, n.Vars[d].Out[o], got, x, n.names(info), n.names(order), want, row)
					break
				}
			}
		}
		x[d] = 0
	})
	return fail
}

// nestedOrder returns the order of decisions if each is declared to know all earlier decisions and
// everything known to them.
func (n *Net) nestedOrder() ([]int, bool) {
	for _, o := range n.decisionOrders() {
		ok := true
		for i := 1; i < len(o) && ok; i++ {
			prev := o[i-1]
			ok = has(n.Vars[o[i]].Given, prev)
			for _, g := range n.Vars[prev].Given {
				ok = ok && has(n.Vars[o[i]].Given, g)
			}
		}
		if ok {
			return o, true
		}
	}
	return nil, false
}

// meu is the maximum expected utility over all strategies, by expectimax.
func (n *Net) meu(order []int) float64 {
	p := n.prepare()
	var rec func(i int, x []int, fixed []bool) float64
	act := n.actives()
	// value of a node: sum over new information of decision i, max over its outcomes, ...
	rec = func(i int, x []int, fixed []bool) float64 {
		if i == len(order) {
			ev := make([]int, len(n.Vars))
			for k := range ev {
				ev[k] = -1
			}
			for _, a := range act {
				if fixed[a] {
					ev[a] = x[a]
				}
			}
			s := 0.0
			p.each(ev, func(y []int) {
				w := p.prob(y, nil)
				if w != 0 {
					s += w * p.util(y, -1)
				}
			})
			return s
		}
		d := order[i]
		obs := []int{}
		for _, g := range n.Vars[d].Given {
			if !fixed[g] {
				obs = append(obs, g)
			}
		}
		f2 := append([]bool{}, fixed...)
		for _, g := range obs {
			f2[g] = true
		}
		f2[d] = true
		x2 := append([]int{}, x...)
		total := 0.0
		n.rfEach(obs, x2, func() {
			best := math.Inf(-1)
			for o := 0; o < n.arity(d); o++ {
				x2[d] = o
				if v := rec(i+1, append([]int{}, x2...), f2); v > best {
					best = v
				}
			}
			total += best
		})
		return total
	}
	return rec(0, make([]int, len(n.Vars)), make([]bool, len(n.Vars)))
}

// detNet replaces chance tables by rows with zeros.
func detNet(n *Net, seed int) *Net {
	m := n.clone()
	for i := range m.Vars {
		if m.Vars[i].Type != chance {
			continue
		}
		c := m.arity(i)
		for r := 0; r < m.size(i)/c; r++ {
			for k := 0; k < c; k++ {
				m.Vars[i].Table[r*c+k] = 0
			}
			h := mix(seed, i, r)
			m.Vars[i].Table[r*c+h%c] = 1
			if h/16%3 == 0 && c > 1 {
				m.Vars[i].Table[r*c+h%c] = 0.5
				m.Vars[i].Table[r*c+(h+1)%c] = 0.5
			}
		}
	}
	return m
}

// sequential makes a chain of k decisions with observations in between, all earlier information declared.
func sequential(k, ar, seed int, variant int) *Net {
	par := [][]int{}
	types := []int{}
	know := []int{}
	last := -1
	for i := 0; i < k; i++ {
		// observation, depends on previous observation and decision
		g := []int{}
		if last >= 0 {
			g = append(g, last, last-1)
		}
		par = append(par, g)
		types = append(types, chance)
		know = append(know, len(par)-1)
		par = append(par, append([]int{}, know...))
		types = append(types, decision)
		last = len(par) - 1
		know = append(know, last)
	}
	arity := rep(ar, len(par))
	for i := range types {
		if types[i] == decision {
			arity[i] = 2
		}
	}
	us := [][]int{}
	for i := 0; i < k; i++ {
		us = append(us, []int{2*i + 1, 2 * i})
	}
	return decNet(par, types, arity, us, variant, seed)
}

// decFamilies: larger decision problems.
func decFamilies(thorough bool) []family {
	r := []family{}
	for k := 1; k <= 3; k++ {
		for variant := 0; variant < 3; variant++ {
			r = append(r, family{fmt.Sprintf("sequential %d", k), sequential(k, 2, k*7+variant, variant)})
			n := sequential(k, 2, k*7+variant, variant)
			r = append(r, family{fmt.Sprintf("sequential %d, reversed declaration", k), n.permuteVars(reversed(len(n.Vars)))})
			w := []float64{2, -1, 0.5}
			r = append(r, family{fmt.Sprintf("sequential %d weighted", k), withTotal(n, w, true, 1)})
		}
	}
	for variant := 0; variant < 2; variant++ {
		n := sequential(4, 2, 3+variant, variant)
		r = append(r, family{"sequential 4", n}, family{"sequential 4, reversed declaration", n.permuteVars(reversed(len(n.Vars)))})
	}
	r = append(r, shortMemory(thorough)...)
	r = append(r, farLinks(thorough)...)
	for _, a := range []int{3, 5, 8, 9, 10, 12, 17, 33, 64, 129, 256, 257} {
		for variant := 0; variant < 3; variant++ {
			// one decision with many outcomes
			n := decNet([][]int{{}, {0}, {1, 0}}, []int{chance, decision, chance}, []int{2, a, 2}, [][]int{{1, 2}, {0}}, variant, a)
			r = append(r, family{fmt.Sprintf("decision with %d outcomes", a), n})
		}
		flat := decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, a}, [][]int{{0, 1}}, 0, a)
		for i := range flat.Vars[2].Table {
			flat.Vars[2].Table[i] = 7
		}
		r = append(r, family{fmt.Sprintf("decision with %d equal outcomes", a), flat})
		// observation with many outcomes
		n := decNet([][]int{{}, {0}, {1}}, []int{chance, chance, decision}, []int{2, a, 2}, [][]int{{0, 2}}, 0, a)
		for i := range n.Vars {
			if i == 1 {
				t := []float64{}
				for r := 0; r < 2; r++ {
					for k := 0; k < a; k++ {
						t = append(t, float64(mix(r, k, a)%7+1))
					}
				}
				n.Vars[1].Table = t
			}
		}
		r = append(r, family{fmt.Sprintf("observation with %d outcomes", a), n})
	}
	// many utilities
	for _, k := range []int{3, 4, 5, 6, 7, 8, 9, 12, 17, 20, 33} {
		us := [][]int{}
		for i := 0; i < k; i++ {
			us = append(us, [][]int{{0}, {1}, {0, 1}, {2}, {2, 1}}[i%5])
		}
		n := decNet([][]int{{}, {0}, {1, 0}}, []int{chance, decision, chance}, []int{2, 3, 2}, us, 0, k)
		r = append(r, family{fmt.Sprintf("%d utilities", k), n})
		w := []float64{}
		for i := 0; i < k; i++ {
			w = append(w, float64(i)-1.5)
		}
		r = append(r, family{fmt.Sprintf("%d weighted utilities", k), withTotal(n, w, true, 0)})
		r = append(r, family{fmt.Sprintf("%d weighted utilities, total in between", k), withTotal(n, w, false, 4)})
	}
	// many observations
	for k := 3; k <= 7; k++ {
		par := [][]int{{}}
		types := []int{chance}
		for i := 0; i < k; i++ {
			par = append(par, []int{0})
			types = append(types, chance)
		}
		obs := []int{}
		for i := k; i >= 1; i-- {
			obs = append(obs, i)
		}
		par = append(par, obs)
		types = append(types, decision)
		n := decNet(par, types, rep(2, k+2), [][]int{{k + 1, 0}}, 0, k)
		r = append(r, family{fmt.Sprintf("%d observations", k), n})
	}
	return r
}

// shortMemory: k decisions that each know only their own observation and how
// the previous decision was made, directly or through that observation.
func shortMemory(thorough bool) []family {
	r := []family{}
	maxK := 5
	if thorough {
		maxK = 6
	}
	for k := 2; k <= maxK; k++ {
		for variant := 0; variant < 4; variant++ {
			par, types := [][]int{{}}, []int{chance}
			us := [][]int{}
			last := -1
			for i := 0; i < k; i++ {
				obs, know := []int{0}, []int{}
				if last >= 0 {
					if variant%2 == 0 {
						know = append(know, last)
					} else {
						obs = append(obs, last)
					}
				}
				par = append(par, obs)
				types = append(types, chance)
				know = append(know, len(par)-1)
				par = append(par, know)
				types = append(types, decision)
				prev := last
				last = len(par) - 1
				u := []int{last, 0}
				if prev >= 0 && variant > 1 {
					u = append(u, prev, last-3)
				}
				us = append(us, u)
			}
			n := decNet(par, types, rep(2, len(par)), us, variant%3, 61+k+variant)
			r = append(r, family{fmt.Sprintf("%d decisions with short memory", k), n},
				family{fmt.Sprintf("%d decisions with short memory, reversed declaration", k), n.permuteVars(reversed(len(n.Vars)))})
		}
	}
	// longer sequences of decisions only, about one chance variable
	maxD := 9
	for k := 3; k <= maxD; k++ {
		for variant := 0; variant < 2; variant++ {
			par, types, us := [][]int{{}}, []int{chance}, [][]int{}
			for i := 1; i <= k; i++ {
				know := []int{}
				if i > 1 && variant == 0 {
					know = append(know, i-1)
				}
				for j := 1; j < i && variant == 1; j++ {
					know = append(know, j)
				}
				par = append(par, know)
				types = append(types, decision)
				us = append(us, []int{i, i - 1})
			}
			n := decNet(par, types, rep(2, len(par)), us, 0, 65+k+variant)
			r = append(r, family{fmt.Sprintf("%d decisions in a row", k), n},
				family{fmt.Sprintf("%d decisions in a row, reversed declaration", k), n.permuteVars(reversed(len(n.Vars)))})
			for what, p := range mixedOrders(len(n.Vars), seq(k + 1)[1:]) {
				r = append(r, family{fmt.Sprintf("%d decisions in a row, declaration %d", k, what), n.permuteVars(p)})
			}
		}
	}
	return r
}

// mixedOrders lists declaration orders of n variables in which only the given
// ones are permuted: the last two swapped, every second first, the second
// half first, and each half reversed.
func mixedOrders(n int, items []int) [][]int {
	k := len(items)
	perms := [][]int{}
	swap := seq(k)
	swap[k-1], swap[k-2] = swap[k-2], swap[k-1]
	odd, halves, revs := []int{}, []int{}, []int{}
	for i := 0; i < k; i += 2 {
		odd = append(odd, i)
	}
	for i := 1; i < k; i += 2 {
		odd = append(odd, i)
	}
	for i := 0; i < k; i++ {
		halves = append(halves, (i+k/2)%k)
	}
	for i := k/2 - 1; i >= 0; i-- {
		revs = append(revs, i)
	}
	for i := k - 1; i >= k/2; i-- {
		revs = append(revs, i)
	}
	perms = append(perms, swap, odd, halves, revs)
	r := [][]int{}
	for _, q := range perms {
		p := seq(n)
		for i, o := range q {
			p[items[i]] = items[o]
		}
		r = append(r, p)
	}
	return r
}

// farLinks: a decision that affects a later one only through one of several
// observations, or only through a chain of chance variables.
func farLinks(thorough bool) []family {
	r := []family{}
	add := func(name string, n *Net) {
		r = append(r, family{name, n}, family{name + ", reversed declaration", n.permuteVars(reversed(len(n.Vars)))})
		// the later decision first
		for i, v := range n.Vars {
			if v.Name == "later" {
				p := []int{i}
				for j := range n.Vars {
					if j != i {
						p = append(p, j)
					}
				}
				r = append(r, family{name + ", later decision first", n.permuteVars(p)})
			}
		}
	}
	maxObs, maxChain := 6, 8
	if thorough {
		maxChain = 10
	}
	for k := 2; k <= maxObs; k++ {
		for j := 0; j < k; j++ {
			// decision 0; observations 1..k of which one depends on it; decision k+1
			par, types := [][]int{{}}, []int{decision}
			for i := 0; i < k; i++ {
				g := []int{}
				if i == j {
					g = append(g, 0)
				}
				par = append(par, g)
				types = append(types, chance)
			}
			know := []int{}
			for i := 1; i <= k; i++ {
				know = append(know, i)
			}
			par = append(par, know)
			types = append(types, decision)
			n := decNet(par, types, rep(2, k+2), [][]int{{k + 1, j + 1, 0}, {k + 1, 1 + (j+1)%k}}, 0, 71+k*7+j)
			n.Vars[k+1].Name = "later"
			add(fmt.Sprintf("link through observation %d of %d", j, k), n)
		}
	}
	for k := 1; k <= maxChain; k++ {
		for variant := 0; variant < 2; variant++ {
			// decision 0, chain 1..k, decision k+1 that knows the end of the chain
			par, types := [][]int{{}}, []int{decision}
			for i := 0; i < k; i++ {
				par = append(par, []int{i})
				types = append(types, chance)
			}
			par = append(par, []int{k})
			types = append(types, decision)
			n := decNet(par, types, rep(2, k+2), [][]int{{k + 1, k}, {0, k + 1, 1 + k/2}}, variant, 81+k+variant)
			n.Vars[k+1].Name = "later"
			add(fmt.Sprintf("link through a chain of %d", k), n)
		}
	}
	return r
}
