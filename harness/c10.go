package main

import (
	"fmt"
	"math"
	"reflect"
	"slices"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&Check{ID: "C10", Run: runC10,
		Rule: "all sequences up to the depth bound over an alphabet of calls (policy solving in both modes, valid and failing queries, utilities, evidence conversions, result helpers, saving, collecting training samples, and writes to everything handed out or passed in) on real networks; after each sequence all answers are compared with those of a fresh network on which only the most recent policy solution was made, tables with their definition, and every result handed out before with a copy taken at that time.",
	})
	register(&Check{ID: "C22", Run: runC22,
		Rule: "every network of the set x policy mode x every kind of invalid request in every position (evidence, query, utility variable, evidence conversion), alone and mixed with valid parts, and every pair of requests; each must return an error and no result, and all valid answers afterwards must equal those before. Every query variable that is also evidence is checked for certainty.",
	})
}

// handed is a result handed out, with a copy.
type handed struct {
	what string
	data []float64
	copy []float64
	vars []ve.Variable
	vcp  []int
}

func (h *handed) check(t *T) {
	if !bitsEqual(h.data, h.copy) {
		t.Failf("%s handed out earlier changed from %v to %v", h.what, h.copy, h.data)
	}
	for i := range h.vars {
		if h.vars[i].Id() != h.vcp[i] {
			t.Failf("%s handed out earlier changed its variables", h.what)
		}
	}
}

// probe collects the answers to a fixed set of requests.
func probe(t *T, n *Net, real *bbn.Network, maxEv int) []float64 {
	return probeWith(t, n, func() *bbn.Network { return real }, maxEv)
}

// probeWith makes every request on the network it is given for it.
func probeWith(t *T, n *Net, get func() *bbn.Network, maxEv int) []float64 {
	vec := []float64{}
	act := n.actives()
	n.evidences(act, func(ev []int) {
		if countEv(ev) > maxEv {
			return
		}
		for _, ignore := range []bool{false, true} {
			for _, a := range act {
				if ev[a] >= 0 {
					continue
				}
				res, f := queryOf(t, n, get(), ev, []int{a}, ignore)
				vec = append(vec, res[n.Vars[a].Name]...)
				vec = append(vec, sortedSum(f.Data())...)
			}
			if len(n.utils()) > 0 {
				for _, u := range append([]int{-1}, n.utils()...) {
					f := utilityOf(t, n, get(), ev, nil, u, ignore)
					vec = append(vec, sortedSum(f.Data())...)
				}
			}
		}
	})
	for _, a := range act {
		for _, o := range n.Vars[a].Out {
			r, err := get().ToEvidence(n.Vars[a].Name, o)
			if err != nil {
				t.Failf("evidence %s=%s: %v", n.Vars[a].Name, o, err)
			}
			vec = append(vec, r...)
		}
	}
	return vec
}

// sortedSum makes a value independent of the order of variables: size, sum, sum of squares.
func sortedSum(v []float64) []float64 {
	s, q := 0.0, 0.0
	for _, x := range v {
		s += x
		q += x * x
	}
	return []float64{float64(len(v)), s, q}
}

// unchanged checks that the definition of a network is as in the model.
func unchanged(t *T, n *Net, real *bbn.Network, when string) {
	vs := real.Variables()
	if len(vs) != len(n.Vars) || real.Name() != n.Name || real.Info() != n.Info || real.TotalUtilityIndex() != n.total() {
		t.Failf("%s: network changed", when)
	}
	for i, v := range vs {
		w := n.Vars[i]
		if v.Name != w.Name || int(v.NodeType) != w.Type || !reflect.DeepEqual(append([]string{}, v.Outcomes...), append([]string{}, w.Out...)) || v.Position != w.Pos || v.Color != w.Color {
			t.Failf("%s: variable %s changed: %+v", when, w.Name, v)
		}
		g := n.names(w.Given)
		if v.Factor == nil || v.Factor.For != w.Name || !reflect.DeepEqual(append([]string{}, v.Factor.Given...), g) {
			t.Failf("%s: parents of %s changed: %+v", when, w.Name, v.Factor)
		}
		if !bitsEqual(v.Factor.Table, w.Table) {
			t.Failf("%s: table of %s changed: %v", when, w.Name, v.Factor.Table)
		}
	}
}

type opState struct {
	t      *T
	n      *Net
	real   *bbn.Network
	last   int // policy mode: 0 none, 1 stepwise, 2 joint
	ver    int // training data the tables come from, 0 for those of the definition
	polVer int // ver of the last policy solution
	handed []*handed
	fac    *ve.Factor
	facQ   []int
}

func (s *opState) hand(what string, data []float64, vars []ve.Variable) {
	h := &handed{what: what, data: data, copy: append([]float64{}, data...), vars: vars}
	for i := range vars {
		h.vcp = append(h.vcp, vars[i].Id())
	}
	s.handed = append(s.handed, h)
}

func (s *opState) query(ev, q []int, ignore bool) {
	em, qn := s.n.evMap(ev), s.n.names(q)
	res, f, err := s.real.SolveQuery(em, qn, ignore)
	if err != nil {
		s.t.Failf("query %v given %v: %v", qn, em, err)
	}
	if !reflect.DeepEqual(em, s.n.evMap(ev)) || !reflect.DeepEqual(qn, s.n.names(q)) {
		s.t.Failf("query changed its arguments: %v %v", em, qn)
	}
	for k, r := range res {
		s.hand("posterior of "+k, r, nil)
	}
	s.hand("factor", f.Data(), f.Variables())
	s.fac, s.facQ = f, q
}

// trainedAs is the network after training with data number ver.
func trainedAs(n *Net, ver int) *Net {
	if ver == 0 {
		return n
	}
	c := newCounts(n)
	for _, r := range covering(n, 20+ver) {
		c.add(r)
	}
	return c.tables(n)
}

func trainWith(t *T, n *Net, real *bbn.Network, ver int) {
	tr := bbn.NewTrainer(real)
	for _, r := range covering(n, 20+ver) {
		tr.AddSample(append([]int{}, r.x...), append([]float64{}, r.u...))
	}
	if _, err := tr.UpdateNetwork(); err != nil {
		t.Failf("training: %v", err)
	}
}

func (s *opState) train(ver int) {
	trainWith(s.t, s.n, s.real, ver)
	s.ver = ver
}

func turned(l []int) []int {
	r := append([]int{}, l...)
	slices.Reverse(r)
	return r
}

type op struct {
	name string
	f    func(s *opState)
}

// callOps is the alphabet of calls for a network.
func callOps(n *Net) []op {
	act := n.actives()
	a, b := act[0], act[len(act)-1]
	none := noEv(n)
	evA := noEv(n)
	evA[a] = n.arity(a) - 1
	evB := noEv(n)
	evB[b] = 0
	ops := []op{}
	if len(n.decisions()) > 0 {
		for _, m := range []int{1, 2} {
			ops = append(ops, op{fmt.Sprintf("policies %d", m), func(s *opState) {
				res, err := s.real.SolvePolicies(m == 1)
				if err != nil {
					s.t.Failf("policies: %v", err)
				}
				s.last, s.polVer = m, s.ver
				for k, f := range res {
					s.hand("policy of "+k, f.Table, nil)
				}
			}})
		}
	}
	ops = append(ops,
		op{"query", func(s *opState) { s.query(none, []int{a}, false) }},
		op{"query pair ignoring policies", func(s *opState) { s.query(evB, rest(act, b), true) }},
		op{"query with evidence", func(s *opState) { s.query(evA, rest(act, a), false) }},
		op{"query evidence", func(s *opState) { s.query(evA, []int{a}, true) }},
		op{"query backwards", func(s *opState) { s.query(none, turned(act), false) }},
		op{"train 1", func(s *opState) { s.train(1) }},
		op{"train 2", func(s *opState) { s.train(2) }},
		op{"empty query", func(s *opState) { s.query(none, nil, false) }},
		op{"unknown evidence", func(s *opState) {
			_, _, err := s.real.SolveQuery(map[string]string{"nope": "a", n.Vars[b].Name: n.Vars[b].Out[0]}, n.names([]int{a}), true)
			if err == nil {
				s.t.Failf("unknown evidence accepted")
			}
		}},
		op{"unknown query", func(s *opState) {
			_, _, err := s.real.SolveQuery(n.evMap(evB), []string{n.Vars[a].Name, "nope"}, false)
			if err == nil {
				s.t.Failf("unknown query accepted")
			}
		}},
		op{"evidence", func(s *opState) {
			r, err := s.real.ToEvidence(n.Vars[a].Name, n.Vars[a].Out[0])
			if err != nil {
				s.t.Failf("evidence: %v", err)
			}
			s.hand("evidence", r, nil)
		}},
		op{"save", func(s *opState) {
			if _, err := bbn.ToYAML(s.real); err != nil {
				s.t.Failf("save: %v", err)
			}
		}},
		op{"collect samples", func(s *opState) {
			tr := bbn.NewTrainer(s.real)
			sm := make([]int, len(n.Vars))
			ut := make([]float64, len(n.Vars))
			tr.AddSample(sm, ut)
			for i := range sm {
				sm[i] = -1
			}
			tr.AddSample(sm, ut)
		}},
		op{"helpers", func(s *opState) {
			if s.fac == nil || len(s.facQ) == 0 || len(s.fac.Variables()) == 0 {
				return
			}
			q := s.facQ[0]
			in := false
			for _, v := range s.fac.Variables() {
				in = in || v.Id() == q
			}
			if !in {
				return
			}
			m := s.real.Marginal(s.fac, n.Vars[q].Name)
			s.hand("marginal", m.Data(), m.Variables())
			nf := s.real.Normalize(&m)
			s.hand("normalised", nf.Data(), nf.Variables())
			r := s.real.Rearrange(s.fac, []string{n.Vars[q].Name})
			s.hand("rearranged", r.Data(), r.Variables())
			nu := s.real.NormalizeUtility(s.fac, s.fac)
			s.hand("quotient", nu.Data(), nu.Variables())
		}},
		op{"write to results", func(s *opState) {
			for _, h := range s.handed {
				for i := range h.data {
					h.data[i] = -77 - float64(i)
					h.copy[i] = h.data[i]
				}
				for i := range h.vars {
					h.vars[i] = h.vars[0].WithNodeType(ve.UtilityNode)
					h.vcp[i] = h.vars[0].Id()
				}
			}
			s.fac = nil
		}},
	)
	if len(n.utils()) > 0 {
		u := n.utils()[len(n.utils())-1]
		ops = append(ops,
			op{"utility", func(s *opState) {
				f := utilityOf(s.t, n, s.real, evA, nil, -1, false)
				s.hand("utility", f.Data(), f.Variables())
			}},
			op{"single utility", func(s *opState) {
				f := utilityOf(s.t, n, s.real, none, []int{b}, u, true)
				s.hand("utility", f.Data(), f.Variables())
			}},
			op{"wrong utility", func(s *opState) {
				if _, err := s.real.SolveUtility(nil, nil, n.Vars[a].Name, false); err == nil {
					s.t.Failf("utility of %s accepted", n.Vars[a].Name)
				}
			}},
			op{"utility as evidence", func(s *opState) {
				if _, err := s.real.SolveUtility(map[string]string{n.Vars[u].Name: n.Vars[u].Out[0]}, nil, "", false); err == nil {
					s.t.Failf("evidence on %s accepted", n.Vars[u].Name)
				}
			}},
		)
	}
	return ops
}

func rest(l []int, x int) []int {
	r := []int{}
	for _, v := range l {
		if v != x {
			r = append(r, v)
		}
	}
	return r
}

func seqNets(thorough bool) []*Net {
	r := []*Net{
		chanceNet([][]int{{}, {0}, {0, 1}}, []int{2, 3, 2}, 4),
		chanceNet([][]int{{1}, {}, {}}, []int{2, 2, 1}, 4),
		decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 5),
		decNet([][]int{{}, {}, {1}}, []int{chance, chance, decision}, []int{2, 2, 3}, [][]int{{0, 2}, {2}}, 0, 6),
		decNet([][]int{{}, {0}, {0, 1}}, []int{decision, chance, decision}, []int{2, 2, 2}, [][]int{{1, 2}, {0}}, 0, 7),
		withTotal(decNet([][]int{{}, {0}, {}}, []int{decision, chance, decision}, []int{2, 2, 2}, [][]int{{1, 2}, {0}}, 1, 8), []float64{2, -1}, true, 1),
	}
	if thorough {
		r = append(r,
			decNet([][]int{{1}, {}, {0}}, []int{decision, chance, chance}, []int{2, 2, 2}, [][]int{{2}, {1}}, 2, 9),
			sequential(2, 2, 3, 0),
			decNet([][]int{{1, 2}, {2}, {}}, []int{decision, decision, decision}, []int{2, 2, 2}, [][]int{{0, 1, 2}}, 1, 10),
		)
	}
	for _, n := range r {
		n.Info = "some info"
	}
	return r
}

// freshAnswers are the answers of networks on which nothing else was done.
func freshAnswers(t *T, n *Net, mode, maxEv int) []float64 {
	return freshTrained(t, n, mode, 0, 0, maxEv)
}

// freshTrained: policies solved with the tables of data polVer, then trained with data ver.
func freshTrained(t *T, n *Net, mode, polVer, ver, maxEv int) []float64 {
	if mode == 0 {
		polVer = ver
	}
	return probeWith(t, n, func() *bbn.Network {
		r := trainedAs(n, polVer).mustBuild(t)
		if mode > 0 {
			if _, err := r.SolvePolicies(mode == 1); err != nil {
				t.Failf("policies: %v", err)
			}
		}
		if ver != polVer {
			trainWith(t, n, r, ver)
		}
		return r
	}, maxEv)
}

func runC10(c *Ctx) {
	runRequests(c)
	depth := 3
	for ni, n := range seqNets(c.Thorough) {
		ops := callOps(n)
		want := map[[3]int][]float64{}
		run := func(t *T, s []int) {
			st := &opState{t: t, n: n, real: n.mustBuild(t)}
			for _, k := range s {
				ops[k].f(st)
				t.c.Transitions++
				for _, h := range st.handed {
					h.check(t)
				}
			}
			key := [3]int{st.last, st.polVer, st.ver}
			if want[key] == nil {
				want[key] = freshTrained(t, n, st.last, st.polVer, st.ver, 1)
			}
			got := probe(t, n, st.real, 1)
			if k, ok := sameVec(got, want[key]); !ok {
				t.Failf("answer %d differs from a fresh network (last policy solution %d): %v, expected %v", k, st.last, at(got, k), at(want[key], k))
			}
			unchanged(t, trainedAs(n, st.ver), st.real, "after the calls")
			for _, h := range st.handed {
				h.check(t)
			}
			t.Outcome(hashFloats(uint64(st.last+1), got))
			t.c.States++
			t.c.Traces++
		}
		name := func(s []int) string {
			r := []string{}
			for _, k := range s {
				r = append(r, ops[k].name)
			}
			return fmt.Sprintf("%s: calls %v", n, r)
		}
		for d := 0; d <= depth; d++ {
			product(rep(len(ops), d), func(s []int) {
				c.Case(func() string { return name(s) }, func(t *T) { run(t, s) })
			})
		}
		if c.Thorough || ni == 2 || ni == 4 {
			product(rep(len(ops), 4), func(s []int) {
				c.Case(func() string { return name(s) }, func(t *T) { run(t, s) })
			})
		}
	}
}

// a request, with its answer as numbers.
type request struct {
	name string
	ask  func(t *T, real *bbn.Network) []float64
}

// canon is a factor as a function: the ids of its variables in ascending order, and its values for that order.
func canon(n *Net, f *ve.Factor) []float64 {
	vs := f.Variables()
	ord := seq(len(vs))
	slices.SortFunc(ord, func(a, b int) int { return vs[a].Id() - vs[b].Id() })
	r := []float64{}
	dims := []int{}
	for _, k := range ord {
		r = append(r, float64(vs[k].Id()))
		dims = append(dims, n.arity(vs[k].Id()))
	}
	x := make([]int, len(vs))
	product(dims, func(y []int) {
		for i, k := range ord {
			x[k] = y[i]
		}
		i := 0
		for k := range vs {
			i = i*n.arity(vs[k].Id()) + x[k]
		}
		r = append(r, f.Data()[i])
	})
	return r
}

// requests with up to maxEv variables observed and up to maxQ queried.
func requests(n *Net, maxEv, maxQ int) []request {
	r := []request{}
	someEvidence(n, maxEv, func(e []int) {
		ev := append([]int{}, e...)
		free := []int{}
		for _, a := range n.actives() {
			if ev[a] < 0 {
				free = append(free, a)
			}
		}
		for _, ignore := range []bool{false, true} {
			subsetsUpTo(free, maxQ, func(qq []int) {
				for _, q := range [][]int{append([]int{}, qq...), turned(qq)} {
					r = append(r, request{fmt.Sprintf("query %q given %q (ignoring policies: %v)", n.names(q), n.evMap(ev), ignore), func(t *T, real *bbn.Network) []float64 {
						res, f := queryOf(t, n, real, ev, q, ignore)
						v := canon(n, f)
						for _, k := range q {
							v = append(v, res[n.Vars[k].Name]...)
						}
						return v
					}})
					if len(n.utils()) > 0 {
						for _, u := range append([]int{-1}, n.utils()...) {
							r = append(r, request{fmt.Sprintf("utility %d for %q given %q (ignoring policies: %v)", u, n.names(q), n.evMap(ev), ignore), func(t *T, real *bbn.Network) []float64 {
								return canon(n, utilityOf(t, n, real, ev, q, u, ignore))
							}})
						}
					}
					if len(q) < 2 {
						break
					}
				}
			})
		}
	})
	return r
}

// orders of k requests, in which each comes before and after each other one.
func requestOrders(k int) [][]int {
	r := [][]int{seq(k), reversed(k)}
	a, b := []int{}, []int{}
	for i := 0; i < k; i++ {
		a = append(a, i, i)
		b = append(b, i, k-1-i, 0)
	}
	return append(r, a, b)
}

func runRequests(c *Ctx) {
	one := func(what string, n *Net, maxEv, maxQ int, pairs bool) {
		modes := []int{0}
		if len(n.decisions()) > 0 {
			modes = []int{0, 1, 2}
		}
		for _, mode := range modes {
			mk := func(t *T) *bbn.Network {
				r := n.mustBuild(t)
				if mode > 0 {
					if _, err := r.SolvePolicies(mode == 1); err != nil {
						t.Failf("policies: %v", err)
					}
				}
				return r
			}
			c.Case(func() string { return fmt.Sprintf("requests, %s, policies %d: %s", what, mode, n) }, func(t *T) {
				reqs := requests(n, maxEv, maxQ)
				want := make([][]float64, len(reqs))
				for i := range reqs {
					want[i] = reqs[i].ask(t, mk(t))
				}
				run := func(real *bbn.Network, order []int) {
					for k, i := range order {
						got := reqs[i].ask(t, real)
						if j, ok := sameVec(got, want[i]); !ok {
							before := "nothing"
							if k > 0 {
								before = reqs[order[k-1]].name
							}
							t.Failf("%s (number %d, after %s): number %d is %v, on a fresh network %v", reqs[i].name, k, before, j, at(got, j), at(want[i], j))
						}
						t.c.States++
					}
					t.c.Traces++
				}
				for _, o := range requestOrders(len(reqs)) {
					run(mk(t), o)
				}
				if pairs {
					for i := range reqs {
						for j := range reqs {
							run(mk(t), []int{i, j, i})
						}
					}
				}
				// between policy solutions
				if mode > 0 {
					real := mk(t)
					for _, m := range []bool{mode != 1, mode == 1, mode == 1} {
						for i := range reqs {
							reqs[i].ask(t, real)
						}
						if _, err := real.SolvePolicies(m); err != nil {
							t.Failf("policies: %v", err)
						}
					}
					run(real, seq(len(reqs)))
				}
			})
		}
	}
	for i, n := range seqNets(true) {
		one("structure", n, 3, 2, c.Thorough || i%3 == 2 && len(n.Vars) < 4)
	}
	for _, f := range append(decFamilies(false), sizeFamilies(false)...) {
		most, size := 7, 100
		if c.Thorough {
			most, size = 10, 1000
		}
		k := 0
		for _, v := range f.net.Vars {
			k += len(v.Out)
		}
		if len(f.net.Vars) <= most && k < size {
			one(f.name, f.net, 1, 1, false)
		}
	}
	// names and outcomes that look like lists of others
	for _, s := range [][2]string{{",", "="}, {", ", "="}, {" ", ":"}, {";", "="}, {"|", "="}, {"|", ":"}, {"", ""}, {"", "="}, {"", ":"}, {":", ":"}, {",", ":"}, {";", ":"}, {"&", "="}, {"/", "/"}, {"/", "="}, {"_", "_"}, {"-", "-"}, {".", "."}, {" ", " "}, {" ", "="}, {",", ","}, {"=", ";"}, {"=", ","}, {"\n", "="}, {"\t", "="}, {"\x00", "\x00"}, {"\x00", "="}, {"\x1f", "="}, {"#", "="}, {"+", "="}, {"=", "="}, {"|", "|"}, {"\" \"", "\":\""}, {" ", "\":\""}} {
		for k := 0; k < 3; k++ {
			n := chanceNet([][]int{{}, {0}, {0, 1}, {2}}, []int{2, 2, 2, 2}, 5+k)
			if k == 1 {
				n = decNet([][]int{{}, {0}, {1}}, []int{chance, chance, decision}, []int{2, 2, 2}, [][]int{{0, 2}}, 0, 7)
			}
			if k == 2 {
				n = decNet([][]int{{}, {0}, {1}}, []int{decision, chance, chance}, []int{2, 2, 2}, [][]int{{0, 2}, {1}}, 0, 8)
			}
			n.Vars[0].Name, n.Vars[0].Out = "x", []string{"1", "1" + s[0] + "y" + s[1] + "2"}
			n.Vars[1].Name, n.Vars[1].Out = "y", []string{"2", "3"}
			n.Vars[2].Name, n.Vars[2].Out = "x"+s[0]+"y", []string{"2", "1"}
			one("names", n, 2, 2, false)
			m := n.clone() // the other way round
			m.Vars[0].Out = []string{"2", "1"}
			m.Vars[1].Out = []string{"1", "2" + s[0] + "x" + s[1] + "1"}
			m.Vars[2].Name = "y" + s[0] + "x"
			one("names", m, 2, 2, false)
			if m := n.clone(); s[1] != "" { // a name with a value in it
				m.Vars[2].Name = "x" + s[1] + "1" + s[0] + "y"
				m.Vars[0].Out = []string{"1", "1" + s[0] + "y" + s[1] + "2"}
				one("names", m, 2, 2, false)
			}
		}
	}
}

func at(v []float64, k int) float64 {
	if k < 0 || k >= len(v) {
		return math.NaN()
	}
	return v[k]
}

// ---------------------------------------------------------------------------

type badReq struct {
	name string
	f    func(real *bbn.Network) (error, bool) // error, and whether a result came with it
}

func badRequests(n *Net) []badReq {
	act := n.actives()
	a, b := act[0], act[len(act)-1]
	an, bn := n.Vars[a].Name, n.Vars[b].Name
	valid := map[string]string{bn: n.Vars[b].Out[0]}
	r := []badReq{}
	badEv := []map[string]string{
		{"nope": "a"}, {"": ""}, {an: "nope"}, {an: ""}, {an + " ": n.Vars[a].Out[0]}, {an: n.Vars[a].Out[0] + " "}, {"V0": n.Vars[a].Out[0]},
		{an: "0"}, {an: "A"}, {"nope": n.Vars[a].Out[0]},
	}
	for _, u := range append(n.utils(), func() []int {
		if n.total() >= 0 {
			return []int{n.total()}
		}
		return nil
	}()...) {
		badEv = append(badEv, map[string]string{n.Vars[u].Name: n.Vars[u].Out[0]}, map[string]string{n.Vars[u].Name: "nope"})
	}
	badQ := []string{"nope", "", an + " ", "V0"}
	for i, v := range n.Vars {
		if v.Type == utility {
			badQ = append(badQ, n.Vars[i].Name)
		}
	}
	hasU := len(n.utils()) > 0
	for _, ev := range badEv {
		for _, withValid := range []bool{false, true} {
			e := map[string]string{}
			for k, v := range ev {
				e[k] = v
			}
			if withValid {
				if _, ok := e[bn]; ok {
					continue
				}
				e[bn] = valid[bn]
			}
			for _, ignore := range []bool{false, true} {
				r = append(r, badReq{fmt.Sprintf("query given %v ignore %v", e, ignore), func(real *bbn.Network) (error, bool) {
					m, f, err := real.SolveQuery(e, []string{an}, ignore)
					return err, m != nil || f != nil
				}})
				r = append(r, badReq{fmt.Sprintf("empty query given %v ignore %v", e, ignore), func(real *bbn.Network) (error, bool) {
					m, f, err := real.SolveQuery(e, nil, ignore)
					return err, m != nil || f != nil
				}})
				if hasU {
					r = append(r, badReq{fmt.Sprintf("utility given %v ignore %v", e, ignore), func(real *bbn.Network) (error, bool) {
						f, err := real.SolveUtility(e, nil, "", ignore)
						return err, f != nil
					}})
				}
			}
			if !withValid {
				for k, v := range e {
					r = append(r, badReq{fmt.Sprintf("to evidence %s=%s", k, v), func(real *bbn.Network) (error, bool) {
						p, err := real.ToEvidence(k, v)
						return err, p != nil
					}})
				}
			}
		}
	}
	for _, q := range badQ {
		for _, qs := range [][]string{{q}, {an, q}, {q, an}} {
			r = append(r, badReq{fmt.Sprintf("query %q", qs), func(real *bbn.Network) (error, bool) {
				m, f, err := real.SolveQuery(valid, qs, false)
				return err, m != nil || f != nil
			}})
			if hasU {
				r = append(r, badReq{fmt.Sprintf("utility query %q", qs), func(real *bbn.Network) (error, bool) {
					f, err := real.SolveUtility(nil, qs, "", true)
					return err, f != nil
				}})
			}
		}
	}
	if hasU {
		for _, u := range []string{"nope", an, bn, "U0", " "} {
			r = append(r, badReq{fmt.Sprintf("utility of %q", u), func(real *bbn.Network) (error, bool) {
				f, err := real.SolveUtility(nil, nil, u, false)
				return err, f != nil
			}})
		}
	}
	return r
}

// factorOps makes queries, and returns a function that works with the factors.
func factorOps(t *T, n *Net, real *bbn.Network) func() []float64 {
	act := n.actives()
	a, b := act[0], act[len(act)-1]
	qs := n.names([]int{a})
	if a != b {
		qs = n.names([]int{b, a})
	}
	_, f, err := real.SolveQuery(nil, qs, false)
	if err != nil || f == nil {
		t.Failf("query %v: %v", qs, err)
	}
	var u *ve.Factor
	if len(n.utils()) > 0 {
		if u, err = real.SolveUtility(nil, qs, "", false); err != nil {
			t.Failf("utility %v: %v", qs, err)
		}
	}
	return func() []float64 {
		r := []float64{}
		for _, q := range qs {
			m := real.Marginal(f, q)
			x := real.Normalize(&m)
			y := real.Rearrange(f, []string{q})
			r = append(append(append(r, m.Data()...), x.Data()...), y.Data()...)
		}
		if u != nil {
			x := real.NormalizeUtility(u, f)
			y := real.Rearrange(&x, qs)
			r = append(r, y.Data()...)
		}
		return r
	}
}

func runC22(c *Ctx) {
	for _, n := range append(seqNets(true), bigC22()...) {
		reqs := badRequests(n)
		modes := []int{0}
		if len(n.decisions()) > 0 {
			modes = []int{0, 1, 2}
		}
		for _, mode := range modes {
			var want []float64
			make := func(t *T) *bbn.Network {
				r := n.mustBuild(t)
				if mode > 0 {
					if _, err := r.SolvePolicies(mode == 1); err != nil {
						t.Failf("policies: %v", err)
					}
				}
				return r
			}
			bad := func(t *T, real *bbn.Network, r badReq) {
				err, res := r.f(real)
				t.c.Transitions++
				if err == nil {
					t.Failf("%s: accepted", r.name)
				}
				if res {
					t.Failf("%s: result in addition to the error", r.name)
				}
			}
			after := func(t *T, real *bbn.Network, ev int) {
				if want == nil {
					want = freshAnswers(t, n, mode, 1)
				}
				got := probe(t, n, real, 1)
				if k, ok := sameVec(got, want); !ok {
					t.Failf("answer %d differs after the failed requests: %v, expected %v", k, at(got, k), at(want, k))
				}
				unchanged(t, n, real, "after failed requests")
				t.c.States++
				t.c.Traces++
			}
			for _, r := range reqs {
				c.Case(func() string { return fmt.Sprintf("%s; mode %d; %s", n, mode, r.name) }, func(t *T) {
					// on a network never used before, and after use
					f := n.mustBuild(t)
					bad(t, f, r)
					if len(n.decisions()) == 0 {
						after(t, f, 1)
					}
					real := make(t)
					earlier := factorOps(t, n, real)
					first := earlier()
					bad(t, real, r)
					if again := earlier(); !slices.EqualFunc(first, again, func(a, b float64) bool { return a == b || (a != a && b != b) }) {
						t.Failf("working with an earlier factor after the failed request: %v, expected %v", again, first)
					}
					after(t, real, 1)
					if mode > 0 {
						// solving policies after a failed request
						f := n.mustBuild(t)
						bad(t, f, r)
						solved(t, n, f, mode == 1)
						after(t, f, 1)
					}
				})
			}
			for _, r1 := range reqs {
				c.Case(func() string { return fmt.Sprintf("%s; mode %d; %s, then each", n, mode, r1.name) }, func(t *T) {
					real := make(t)
					for _, r2 := range reqs {
						bad(t, real, r1)
						bad(t, real, r2)
					}
					after(t, real, 0)
				})
			}
			// query variables that are also evidence
			c.Case(func() string { return fmt.Sprintf("%s; mode %d; query of evidence", n, mode) }, func(t *T) {
				real := make(t)
				act := n.actives()
				n.evidences(act, func(ev []int) {
					if countEv(ev) == 0 || countEv(ev) > 2 {
						return
					}
					for _, ignore := range []bool{false, true} {
						subsets(act, func(q []int) {
							if len(q) == 0 || len(q) > 3 {
								return
							}
							evidenceQuery(t, n, real, ev, q, ignore)
							t.c.States++
						})
					}
				})
				t.c.Traces++
			})
		}
	}
	// many query variables and many observed ones
	fams := shortMemory(false)
	for _, n := range []*Net{
		chanceNet([][]int{{}, {0}, {0}, {1, 2}, {3}, {3, 0}, {5}, {6, 4}}, []int{2, 2, 3, 2, 2, 2, 2, 2}, 4),
		fams[0].net, fams[9].net, fams[10].net,
	} {
		c.Case(func() string { return fmt.Sprintf("%s; large queries of evidence", n) }, func(t *T) {
			real := n.mustBuild(t)
			if len(n.decisions()) > 0 {
				solved(t, n, real, true)
			}
			act := n.actives()
			someEvidence(n, 1, func(ev []int) {
				if countEv(ev) == 0 {
					return
				}
				subsets(act, func(q []int) {
					if len(q) < 4 {
						return
					}
					evidenceQuery(t, n, real, ev, q, false)
					evidenceQuery(t, n, real, ev, reverseInts(q), true)
					t.c.States += 2
				})
			})
			t.c.Traces++
		})
	}
}

// evidenceQuery checks a query for variables of which some are evidence.
func evidenceQuery(t *T, n *Net, real *bbn.Network, ev, q []int, ignore bool) {
	res, _ := queryOf(t, n, real, ev, q, ignore)
	if len(res) != len(q) {
		t.Failf("query %v given %v: %d results", n.names(q), n.evMap(ev), len(res))
	}
	free := []int{}
	for _, v := range q {
		if ev[v] < 0 {
			free = append(free, v)
		}
	}
	t.Outcome(hashFloats(1, res[n.Vars[q[0]].Name]))
	exp, _ := queryOf(t, n, real, ev, free, ignore)
	for _, v := range q {
		w := exp[n.Vars[v].Name]
		if ev[v] >= 0 {
			w = append([]float64{}, zeros(n.arity(v))...)
			w[ev[v]] = 1
		}
		if !nearAll(w, res[n.Vars[v].Name]) {
			t.Failf("query %v given %v: %s = %v, expected %v", n.names(q), n.evMap(ev), n.Vars[v].Name, res[n.Vars[v].Name], w)
		}
	}
}

func zeros(n int) []float64 { return make([]float64, n) }

func bigC22() []*Net {
	return []*Net{
		chanceNet([][]int{{}, {0}, {0}, {1, 2}, {3}}, []int{2, 2, 3, 2, 2}, 4),
		withTotal(decNet([][]int{{}, {0}, {1}}, []int{chance, decision, chance}, []int{2, 2, 2}, [][]int{{1}, {2}, {0, 1}}, 0, 5), []float64{1, 2, 3}, false, -1),
	}
}
