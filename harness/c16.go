package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/mlange-42/bbn"
)

func init() {
	register(&Check{ID: "C16", Run: runC16,
		Rule:   "all sequences of samples up to the depth bound over the complete sample alphabet (every outcome or missing for every variable, several values or missing for every utility) on small networks, with an update of the network after any of them, several trainers for one network and queries in between; for all networks of the structure bound, a covering set of samples plus every further sample, every left-out sample and every single prefix. After each update all tables are compared with counts made by the reference, after each failing update with the tables before, and the answers of the trained network with those of a network built from the counted tables.",
		Assume: []string{"samples are as long as the number of variables and hold valid outcome indices or -1", "utility values are finite or missing (NaN)"},
	})
}

// tsample is a training sample: outcome indices and utilities by variable.
type tsample struct {
	x []int
	u []float64
}

func (s tsample) String() string { return fmt.Sprintf("%v/%v", s.x, s.u) }

// counts is the reference for a trainer.
type counts struct {
	n     *Net
	sum   [][]float64
	count [][]int
}

func newCounts(n *Net) *counts {
	c := &counts{n: n}
	for i := range n.Vars {
		rows := n.size(i) / n.arity(i)
		c.sum = append(c.sum, make([]float64, n.size(i)))
		c.count = append(c.count, make([]int, rows))
	}
	return c
}

func (n *Net) trained(i int) bool { return n.Vars[i].Type != decision && i != n.total() }

func (c *counts) add(s tsample) {
	for i, v := range c.n.Vars {
		if !c.n.trained(i) {
			continue
		}
		ok, row := true, 0
		for _, g := range v.Given {
			if s.x[g] < 0 {
				ok = false
				break
			}
			row = row*c.n.arity(g) + s.x[g]
		}
		if !ok {
			continue
		}
		if v.Type == utility {
			if math.IsNaN(s.u[i]) {
				continue
			}
			c.sum[i][row] += s.u[i]
		} else {
			if s.x[i] < 0 {
				continue
			}
			c.sum[i][row*c.n.arity(i)+s.x[i]]++
		}
		c.count[i][row]++
	}
}

// tables returns the trained network, or nil if rows are missing.
func (c *counts) tables(now *Net) *Net {
	m := now.clone()
	for i := range m.Vars {
		if !m.trained(i) {
			continue
		}
		a := m.arity(i)
		t := make([]float64, m.size(i))
		for r, k := range c.count[i] {
			if k == 0 {
				return nil
			}
			for j := 0; j < a; j++ {
				t[r*a+j] = c.sum[i][r*a+j] / float64(k)
			}
		}
		m.Vars[i].Table = t
	}
	return m
}

// sameTables compares the definition of a real network with the model, tables with a tolerance for trained ones.
func sameTables(t *T, n *Net, real *bbn.Network, when string) {
	vs := real.Variables()
	if len(vs) != len(n.Vars) || real.Name() != n.Name || real.Info() != n.Info || real.TotalUtilityIndex() != n.total() {
		t.Failf("%s: network changed", when)
	}
	for i, v := range vs {
		w := n.Vars[i]
		if v.Name != w.Name || int(v.NodeType) != w.Type || !reflect.DeepEqual(append([]string{}, v.Outcomes...), append([]string{}, w.Out...)) || v.Position != w.Pos || v.Color != w.Color {
			t.Failf("%s: variable %s changed: %+v", when, w.Name, v)
		}
		if v.Factor == nil || v.Factor.For != w.Name || !reflect.DeepEqual(append([]string{}, v.Factor.Given...), n.names(w.Given)) {
			t.Failf("%s: parents of %s changed: %+v", when, w.Name, v.Factor)
		}
		if len(v.Factor.Table) == 0 && len(w.Table) == 0 {
			continue
		}
		if len(v.Factor.Table) == 0 || len(w.Table) == 0 || len(w.Table) != len(v.Factor.Table) {
			t.Failf("%s: table of %s is %v, expected %v", when, w.Name, v.Factor.Table, w.Table)
		}
		if !nearAll(v.Factor.Table, w.Table) {
			t.Failf("%s: table of %s is %v, expected %v", when, w.Name, v.Factor.Table, w.Table)
		}
	}
}

// session is a history of training operations on one real network and its model.
type session struct {
	t    *T
	n    *Net // current definition
	real *bbn.Network
	tr   []*bbn.Trainer
	cnt  []*counts
	xbuf []int
	ubuf []float64
}

func newSession(t *T, n *Net) *session {
	return &session{t: t, n: n.clone(), real: n.mustBuild(t), xbuf: make([]int, len(n.Vars)), ubuf: make([]float64, len(n.Vars))}
}

func (s *session) trainer() {
	tr := bbn.NewTrainer(s.real)
	s.tr = append(s.tr, &tr)
	s.cnt = append(s.cnt, newCounts(s.n))
	s.t.c.Transitions++
}

func (s *session) add(k int, x tsample) {
	copy(s.xbuf, x.x)
	copy(s.ubuf, x.u)
	s.tr[k].AddSample(s.xbuf, s.ubuf)
	for i := range s.xbuf { // the caller's slices are its own
		if s.xbuf[i] != x.x[i] || math.Float64bits(s.ubuf[i]) != math.Float64bits(x.u[i]) {
			s.t.Failf("AddSample changed its arguments: %v %v, were %v", s.xbuf, s.ubuf, x)
		}
		s.xbuf[i] = 0
		s.ubuf[i] = 1e9
	}
	s.cnt[k].add(x)
	s.t.c.Transitions++
}

func (s *session) update(k int) bool {
	want := s.cnt[k].tables(s.n)
	net, err := s.tr[k].UpdateNetwork()
	s.t.c.Transitions++
	s.t.c.Traces++
	if want == nil {
		if err == nil {
			s.t.Failf("no error although rows have no samples; counts %v", s.cnt[k].count)
		}
		if net != nil {
			s.t.Failf("network returned along with the error %v", err)
		}
		unchangedTables(s.t, s.n, s.real, "after a failing update")
		return false
	}
	if err != nil {
		s.t.Failf("error %v although all rows have samples; counts %v", err, s.cnt[k].count)
	}
	if net != s.real {
		s.t.Failf("another network returned")
	}
	s.n = want
	sameTables(s.t, s.n, s.real, "after the update")
	s.t.c.States++
	h := uint64(0)
	for _, v := range want.Vars {
		h = hashFloats(h, v.Table)
	}
	s.t.Outcome(h)
	return true
}

func unchangedTables(t *T, n *Net, real *bbn.Network, when string) { sameTables(t, n, real, when) }

// answer compares the answers of the network with those of one built from the model.
func (s *session) answer() {
	for i := range s.n.Vars {
		if s.n.Vars[i].Table == nil && s.n.Vars[i].Type == utility {
			return
		}
	}
	eq := s.n.clone()
	if len(eq.Order) < len(eq.Vars) {
		eq.Order = nil // trained variables have factors
	}
	other := eq.mustBuild(s.t)
	if len(s.n.decisions()) > 0 && len(s.n.utils()) > 0 {
		a, err1 := s.real.SolvePolicies(false)
		b, err2 := other.SolvePolicies(false)
		if (err1 == nil) != (err2 == nil) {
			s.t.Failf("policies of the trained network: %v, of an equal one: %v", err1, err2)
		}
		if len(a) != len(b) {
			s.t.Failf("policies of the trained network: %v, of an equal one: %v", a, b)
		}
		for k, f := range a {
			if !reflect.DeepEqual(f.Table, b[k].Table) {
				s.t.Failf("policy of %s in the trained network: %v, in an equal one: %v", k, f, b[k])
			}
		}
	}
	x, y := probe(s.t, s.n, s.real, 1), probe(s.t, s.n, other, 1)
	if i, ok := sameVec(x, y); !ok {
		s.t.Failf("answers of the trained network differ from those of an equal one: %v, %v", at(x, i), at(y, i))
	}
}

// alphabet is every sample of a network: every outcome or missing, every utility value.
func sampleAlphabet(n *Net, missing bool, utils []float64, f func(s tsample)) {
	dims := []int{}
	tot := n.total()
	for i, v := range n.Vars {
		switch {
		case i == tot:
			dims = append(dims, 1)
		case v.Type == utility:
			dims = append(dims, len(utils))
		case missing:
			dims = append(dims, n.arity(i)+1)
		default:
			dims = append(dims, n.arity(i))
		}
	}
	product(dims, func(y []int) {
		s := tsample{make([]int, len(y)), make([]float64, len(y))}
		for i, v := range n.Vars {
			if v.Type == utility {
				s.x[i] = []int{-1, 0}[(i+y[0])%2] // not used
				s.u[i] = 17.5
				if i != tot {
					s.u[i] = utils[y[i]]
				}
			} else {
				s.x[i] = y[i]
				s.u[i] = []float64{math.NaN(), 0, -3}[(i+y[i])%3] // not used
				if y[i] == n.arity(i) {
					s.x[i] = -1
				}
			}
		}
		f(s)
	})
}

func samplesOf(n *Net, missing bool, utils []float64) []tsample {
	r := []tsample{}
	sampleAlphabet(n, missing, utils, func(s tsample) { r = append(r, s) })
	return r
}

// covering is a set of samples in which every row has samples, with different frequencies.
func covering(n *Net, seed int) []tsample {
	r := []tsample{}
	for k, s := range samplesOf(n, false, []float64{0}) {
		for m := 0; m <= mix(k, seed)%3; m++ {
			c := tsample{append([]int{}, s.x...), append([]float64{}, s.u...)}
			for i, v := range n.Vars {
				if v.Type == utility && i != n.total() {
					c.u[i] = float64(mix(k, m, i, seed)%37) - 12.5
					if seed%2 == 1 { // values that need all digits
						c.u[i] = c.u[i]*0.1 + []float64{0, 123456.789, 1e7 + 0.25}[mix(k, i, m)%3]
					}
				}
			}
			r = append(r, c)
		}
	}
	return r
}

func noTables(n *Net) *Net {
	m := n.clone()
	for i := range m.Vars {
		if i != m.total() {
			m.Vars[i].Table = nil
		}
	}
	return m
}

func runC16(c *Ctx) {
	nan := math.NaN()
	// sequences over the complete alphabet, updates after every prefix
	type small struct {
		n     *Net
		depth int
		utils []float64
	}
	pair := func(types []int, par [][]int, ar []int, utils [][]int) *Net {
		return decNet(par, types, ar, utils, 0, 4)
	}
	smalls := []small{
		{pair([]int{0}, [][]int{{}}, []int{2}, nil), 6, nil},
		{pair([]int{0}, [][]int{{}}, []int{3}, nil), 5, nil},
		{pair([]int{0}, [][]int{{}}, []int{1}, nil), 3, nil},
		{pair([]int{0, 0}, [][]int{{}, {}}, []int{2, 2}, nil), 4, nil},
		{pair([]int{0, 0}, [][]int{{}, {0}}, []int{2, 2}, nil), 4, nil},
		{pair([]int{0, 0}, [][]int{{1}, {}}, []int{2, 2}, nil), 4, nil},
		{pair([]int{1, 0}, [][]int{{}, {0}}, []int{2, 2}, nil), 4, nil},
		{pair([]int{0, 1}, [][]int{{1}, {}}, []int{2, 2}, nil), 4, nil},
		{pair([]int{0}, [][]int{{}}, []int{2}, [][]int{{0}}), 4, []float64{1, -2, nan}},
		{pair([]int{1}, [][]int{{}}, []int{2}, [][]int{{0}}), 4, []float64{3, 0, nan}},
		{pair([]int{1}, [][]int{{}}, []int{1}, [][]int{{0}}), 6, []float64{3, 0, nan}},
		{pair([]int{0}, [][]int{{}}, []int{1}, [][]int{{0}, {0}}), 4, []float64{1.5, nan}},
		{withTotal(pair([]int{0}, [][]int{{}}, []int{1}, [][]int{{0}, {0}}), []float64{2, -3}, true, 0), 4, []float64{1.5, nan}},
	}
	smalls = append(smalls, small{pair([]int{1}, [][]int{{}}, []int{1}, [][]int{{0}}), 4, []float64{math.Inf(1), -1.5, nan}})
	for si := range smalls {
		s := smalls[si]
		if c.Thorough {
			s.depth++
		}
		alpha := samplesOf(s.n, true, s.utils)
		variants := []*Net{s.n, noTables(s.n)}
		fewer := s.n.clone() // no factor for the first variable if it has no parents
		if len(fewer.Vars[0].Given) == 0 && fewer.Vars[0].Type != utility {
			fewer.Vars[0].Table = nil
			fewer.Order = seq(len(fewer.Vars))[1:]
			variants = append(variants, fewer)
		}
		for vi, n := range variants {
			depth := s.depth
			if vi > 0 {
				depth--
			}
			// one case per first sample(s)
			product(rep(len(alpha), min(2, depth)), func(first []int) {
				pre := append([]int{}, first...)
				c.Case(func() string {
					return fmt.Sprintf("training of %s (variant %d): all sequences starting with %v %v", n, vi, alpha[pre[0]], alpha[pre[len(pre)-1]])
				}, func(t *T) {
					for d := len(pre); d <= depth; d++ {
						product(rep(len(alpha), d-len(pre)), func(y []int) {
							ss := newSession(t, n)
							ss.trainer()
							for _, k := range append(append([]int{}, pre...), y...) {
								ss.add(0, alpha[k])
							}
							if ss.update(0) && d <= 3 {
								ss.answer()
							}
						})
					}
				})
			})
		}
	}
	// histories: updates in between, several trainers, queries in between
	hist := []*Net{
		pair([]int{0, 0}, [][]int{{}, {0}}, []int{2, 2}, [][]int{{1}}),
		pair([]int{0, 1, 0}, [][]int{{}, {0}, {1}}, []int{2, 2, 2}, [][]int{{2, 1}}),
		withTotal(pair([]int{0, 1}, [][]int{{}, {0}}, []int{2, 3}, [][]int{{1}, {0, 1}}), []float64{2, -3}, true, -1),
	}
	for hi := range hist {
		n := hist[hi]
		cov := covering(n, hi)
		ops := 7
		depth := 4
		if c.Thorough {
			depth = 6
		}
		for d := 1; d <= depth; d++ {
			product(rep(ops, d), func(y []int) {
				y = append([]int{}, y...)
				c.Case(func() string { return fmt.Sprintf("history %v on %s", y, n) }, func(t *T) {
					s := newSession(t, n)
					s.trainer()
					for _, o := range y {
						switch o {
						case 0: // covering samples
							for _, x := range cov {
								s.add(0, x)
							}
						case 1: // one sample
							s.add(len(s.tr)-1, cov[len(cov)/2])
						case 2: // a sample with a missing value
							x := tsample{append([]int{}, cov[0].x...), append([]float64{}, cov[0].u...)}
							x.x[0] = -1
							s.add(len(s.tr)-1, x)
						case 3:
							s.update(0)
						case 4:
							s.trainer()
							for k := range cov {
								s.add(len(s.tr)-1, cov[len(cov)-1-k])
								if k%2 == 0 {
									s.add(len(s.tr)-1, cov[k])
								}
							}
						case 5:
							s.update(len(s.tr) - 1)
						case 6:
							s.answer()
						}
					}
					s.update(0)
					s.answer()
				})
			})
		}
	}
	// all structures: covering samples plus every further sample; without each sample; in other orders
	one := func(name string, mk func() *Net) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) {
			n := mk()
			cov := covering(n, len(name))
			s := newSession(t, n)
			s.trainer()
			for _, x := range cov {
				s.add(0, x)
			}
			if !s.update(0) {
				t.Failf("harness: samples do not cover")
			}
			s.answer()
			trainedNet := s.n
			// every further sample, one after the other
			alphabet := 1.0
			for i, v := range n.Vars {
				if v.Type != utility {
					alphabet *= float64(n.arity(i) + 1)
				} else if i != n.total() {
					alphabet *= 2
				}
			}
			if alphabet <= 300 {
				sampleAlphabet(n, true, []float64{4, nan}, func(x tsample) {
					s.add(0, x)
					s.update(0)
				})
			} else { // every single value missing, and all from one on
				for i := range n.Vars {
					for from := 0; from < 2; from++ {
						y := cov[(3*i+from)%len(cov)]
						x := tsample{append([]int{}, y.x...), append([]float64{}, y.u...)}
						for j := i; j < len(n.Vars) && (j == i || from == 1); j++ {
							x.x[j], x.u[j] = -1, nan
						}
						s.add(0, x)
						s.update(0)
					}
				}
			}
			// every order of a kind: reversed, rotated
			for k := 0; k < len(cov); k += 1 + len(cov)/4 {
				r := newSession(t, noTables(n))
				r.trainer()
				for i := range cov {
					r.add(0, cov[(i+k)%len(cov)])
				}
				r.update(0)
			}
			r := newSession(t, n)
			r.trainer()
			for i := range cov {
				r.add(0, cov[len(cov)-1-i])
				if i%(1+len(cov)/200) == 0 || i+3 >= len(cov) {
					r.update(0) // fails until all rows have samples
				}
			}
			sameTables(t, trainedNet, r.real, "with samples in reversed order")
			// without the samples of one assignment
			all := samplesOf(n, false, []float64{0})
			for ai, a := range all {
				if ai%(1+len(all)/200) != 0 && ai+1 < len(all) {
					continue
				}
				r := newSession(t, n)
				r.trainer()
				for _, x := range cov {
					same := true
					for i, v := range n.Vars {
						same = same && (v.Type == utility || x.x[i] == a.x[i])
					}
					if !same {
						r.add(0, x)
					}
				}
				r.update(0)
			}
		})
	}
	for nv := 1; nv <= 3; nv++ {
		dags(nv, func(par [][]int) {
			product(rep(2, nv), func(types []int) {
				arities := [][]int{rep(2, nv), []int{3, 2, 2}[:nv:nv], []int{2, 1, 3}[:nv:nv]}
				if c.Thorough {
					arities = append(arities, []int{2, 3, 1}[:nv:nv], []int{1, 2, 2}[:nv:nv], []int{3, 3, 3}[:nv:nv])
				}
				for _, ar := range arities {
					one("structure", func() *Net { return decNet(par, types, ar, nil, 0, nv) })
					utilSets(nv, 1, func(u [][]int) {
						one("structure with utility", func() *Net { return decNet(par, types, ar, u, 0, nv) })
					})
				}
				utilSets(nv, 2, func(u [][]int) {
					if len(u) == 2 {
						one("structure with total", func() *Net {
							n := decNet(par, types, rep(2, nv), u, 0, nv)
							return withTotal(n, []float64{0.5, -2}, len(u[0]) == 1, len(u[1])-1)
						})
					}
				})
			})
		})
	}
	// orders of declaration and of factors, parents in other orders
	dags(3, func(par [][]int) {
		parentOrders(par, func(p [][]int) {
			for _, perm := range allPerms(4) {
				one("declaration order", func() *Net {
					n := decNet(p, []int{0, 1, 0}, []int{2, 3, 2}, [][]int{{2, 0}}, 0, 3)
					n = n.permuteVars(perm)
					n.Order = reversed(4)
					return n
				})
			}
		})
	})
	// many samples: counts around the limits of small integers
	for _, k := range []int{100, 127, 128, 129, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 100000} {
		for _, n := range []*Net{
			pair([]int{0, 0}, [][]int{{}, {0}}, []int{2, 2}, [][]int{{1}}),
			pair([]int{0, 1}, [][]int{{}, {0}}, []int{3, 2}, [][]int{{1, 0}, {0}}),
		} {
			for which := 0; which < 3; which++ {
				c.Case(func() string { return fmt.Sprintf("%d samples (%d) of %s", k, which, n) }, func(t *T) {
					s := newSession(t, n)
					s.trainer()
					cov := covering(n, 5)
					for _, x := range cov {
						s.add(0, x)
					}
					for i := 0; i < k; i++ {
						x := cov[0]
						switch which {
						case 1:
							x = cov[(i/7)%len(cov)]
						case 2: // hardly anything is missing
							x = tsample{append([]int{}, cov[len(cov)-1].x...), append([]float64{}, cov[len(cov)-1].u...)}
							if i%3 != 0 {
								x.x[i%2] = -1
							}
							for u := range x.u {
								x.u[u] = float64(i%13)*1000 - 4500
							}
						}
						s.add(0, x)
					}
					if !s.update(0) {
						t.Failf("harness: samples do not cover")
					}
					s.answer()
					t.c.MaxOf("samples", int64(k))
				})
			}
		}
	}
	for _, f := range decFamilies(false) {
		n := f.net
		if size := n.scopeSize(n.actives()); size <= 2000 {
			one("family "+f.name, func() *Net { return n })
		}
	}
	for _, f := range sizeFamilies(false) {
		n := f.net
		if len(n.Vars) < 12 && n.scopeSize(n.actives()) <= 2000 {
			one("family "+f.name, func() *Net { return n })
		}
	}
}
