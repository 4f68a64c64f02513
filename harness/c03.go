package main

import (
	"fmt"
	"math"

	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&Check{ID: "C03", Run: runC03,
		Rule: "all factor scopes (every ordered subset of a universe of variables, all arities up to the bound, scattered ids) as operands: every pair and triple for product and sum, every variable, outcome, permutation for the unary operations, every tie pattern for policies; each result is compared cell by cell with the definition, operands are compared with copies, and writes to results and operands are checked for aliasing.",
	})
	register(&Check{ID: "C04", Run: runC04,
		Rule: "all shapes up to the bound (and shapes with large arities): every index tuple, every flat position, every row, every set cell, every pattern of missing values; for network variables every parent combination",
	})
}

// fspec is the model of a factor: ordered scope (positions in the universe) and values.
type fspec struct {
	scope []int
	data  []float64
}

type universe struct {
	vs   *ve.Variables
	vars []ve.Variable
	ar   []int
	ids  map[int]int // factor ids seen
	pos  map[int]int // variable id -> position
	made int
}

func newUniverse(ar []int, ids []int, types []ve.NodeType) *universe {
	u := &universe{vs: ve.NewVariables(), ar: ar, ids: map[int]int{}, pos: map[int]int{}}
	for i, a := range ar {
		id := i
		if ids != nil {
			id = ids[i]
		}
		tp := ve.ChanceNode
		if types != nil {
			tp = types[i]
		}
		u.vars = append(u.vars, u.vs.AddVariable(id, tp, uint16(a)))
		u.pos[id] = i
	}
	return u
}

func (u *universe) size(scope []int) int {
	s := 1
	for _, v := range scope {
		s *= u.ar[v]
	}
	return s
}

func (u *universe) index(scope, x []int) int {
	k := 0
	for _, v := range scope {
		k = k*u.ar[v] + x[v]
	}
	return k
}

func (u *universe) each(scope []int, x []int, f func()) {
	var rec func(k int)
	rec = func(k int) {
		if k == len(scope) {
			f()
			return
		}
		for o := 0; o < u.ar[scope[k]]; o++ {
			x[scope[k]] = o
			rec(k + 1)
		}
		x[scope[k]] = 0
	}
	rec(0)
}

func (u *universe) create(t *T, s fspec) ve.Factor {
	vars := []ve.Variable{}
	for _, v := range s.scope {
		vars = append(vars, u.vars[v])
	}
	f := u.vs.CreateFactor(vars, append([]float64{}, s.data...))
	u.newID(t, &f)
	return f
}

func (u *universe) newID(t *T, f *ve.Factor) {
	if _, ok := u.ids[f.Id()]; ok {
		t.Failf("factor id %d used twice", f.Id())
	}
	u.ids[f.Id()] = u.made
	u.made++
}

// read converts a result to the model.
func (u *universe) read(t *T, f *ve.Factor) fspec {
	s := fspec{data: append([]float64{}, f.Data()...)}
	for _, v := range f.Variables() {
		p, ok := u.pos[v.Id()]
		if !ok {
			t.Failf("result has unknown variable %d", v.Id())
		}
		if has(s.scope, p) {
			t.Failf("result has variable %d twice", v.Id())
		}
		s.scope = append(s.scope, p)
	}
	if len(s.data) != u.size(s.scope) {
		t.Failf("result over %v has %d values", s.scope, len(s.data))
	}
	return s
}

func (s fspec) at(u *universe, x []int) float64 { return s.data[u.index(s.scope, x)] }

func sameSet(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		if !has(b, x) {
			return false
		}
	}
	return true
}

func bitsEqual(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// verify compares a result with the expected function and checks operands and aliasing.
func (u *universe) verify(t *T, what string, res *ve.Factor, scope []int, want func(x []int) float64, ops []*ve.Factor, specs []fspec) {
	t.c.Transitions++
	u.newID(t, res)
	got := u.read(t, res)
	if !sameSet(got.scope, scope) {
		t.Failf("%s: scope %v, expected %v", what, got.scope, scope)
	}
	x := make([]int, len(u.ar))
	u.each(scope, x, func() {
		g, w := got.at(u, x), want(x)
		if !(g == w || nearRel(g, w)) {
			t.Failf("%s: at %v (universe order) got %v, expected %v", what, x, g, w)
		}
	})
	check := func(when string) {
		for i, o := range ops {
			s := u.read(t, o)
			if fmt.Sprint(s.scope) != fmt.Sprint(specs[i].scope) || !bitsEqual(s.data, specs[i].data) {
				t.Failf("%s: operand %d changed %s: %v, was %v", what, i, when, s, specs[i])
			}
		}
	}
	check("by the operation")
	// writes to the result
	d := res.Data()
	for i := range d {
		d[i] = -12345.5 - float64(i)
	}
	rv := res.Variables()
	old := append([]ve.Variable{}, rv...)
	for i := range rv {
		rv[i] = u.vars[(u.pos[old[i].Id()]+1)%len(u.vars)]
	}
	check("by writing to the result")
	copy(rv, old)
	// writes to operands
	keep := append([]float64{}, res.Data()...)
	for _, o := range ops {
		od := o.Data()
		for i := range od {
			od[i] = 99999.25
		}
	}
	if !bitsEqual(keep, res.Data()) {
		t.Failf("%s: result changed by writing to an operand", what)
	}
	for i, o := range ops {
		copy(o.Data(), specs[i].data)
	}
	t.c.States++
}

// orderedScopes enumerates all ordered subsets of 0..n-1.
func orderedScopes(n int) [][]int {
	r := [][]int{}
	subsets(seq(n), func(s []int) {
		perms(len(s), func(p []int) {
			o := make([]int, len(s))
			for i := range p {
				o[i] = s[p[i]]
			}
			r = append(r, o)
		})
	})
	return r
}

// rewrite sets all values of a factor, and of its model.
func (u *universe) rewrite(t *T, f *ve.Factor, s fspec, values []float64) {
	x := make([]int, len(s.scope))
	for k, v := range values {
		r := k
		for i := len(x) - 1; i >= 0; i-- {
			x[i] = r % u.ar[s.scope[i]]
			r /= u.ar[s.scope[i]]
		}
		f.Set(x, v)
		s.data[k] = v
	}
}

func factorValues(size, seed int) []float64 {
	t := make([]float64, size)
	for i := range t {
		h := mix(i, seed, 5)
		t[i] = float64(h%41 - 12)
		if t[i] == 0 {
			t[i] = 31
		}
	}
	return t
}

func runC03(c *Ctx) {
	idSets := [][]int{nil, {7, 3, 100, 0}, {-5, 40000, 2, 70000}}
	scale := 1.0
	spec := func(u *universe, scope []int, seed int) fspec {
		v := factorValues(u.size(scope), seed)
		for i := range v {
			v[i] *= scale
		}
		return fspec{scope, v}
	}
	again := false // repeat operations after giving the operands other values
	nary := func(t *T, u *universe, scopes [][]int) {
		specs := []fspec{}
		ops := []*ve.Factor{}
		union := []int{}
		for i, s := range scopes {
			sp := spec(u, s, i+1)
			f := u.create(t, sp)
			specs = append(specs, sp)
			ops = append(ops, &f)
			for _, v := range s {
				if !has(union, v) {
					union = append(union, v)
				}
			}
		}
		compute := func() {
			p := u.vs.Product(ops...)
			u.verify(t, fmt.Sprintf("product of %v", scopes), &p, union, func(x []int) float64 {
				w := 1.0
				for _, s := range specs {
					w *= s.at(u, x)
				}
				return w
			}, ops, specs)
			s := u.vs.Sum(ops...)
			u.verify(t, fmt.Sprintf("sum of %v", scopes), &s, union, func(x []int) float64 {
				w := 0.0
				for _, s := range specs {
					w += s.at(u, x)
				}
				return w
			}, ops, specs)
		}
		compute()
		if again {
			for i := range ops {
				u.rewrite(t, ops[i], specs[i], factorValues(len(specs[i].data), 50+i))
				compute()
			}
		}
	}
	unary := func(t *T, u *universe, scope []int, data []float64) {
		sp := fspec{scope, data}
		if data == nil {
			sp = spec(u, scope, 3)
		}
		f := u.create(t, sp)
		ops := []*ve.Factor{&f}
		specs := []fspec{sp}
		compute := func() {
			for _, v := range scope {
				v := v
				rest := []int{}
				for _, s := range scope {
					if s != v {
						rest = append(rest, s)
					}
				}
				r := u.vs.SumOut(&f, u.vars[v])
				u.verify(t, fmt.Sprintf("sum out %d of %v", v, scope), &r, rest, func(x []int) float64 {
					s := 0.0
					for o := 0; o < u.ar[v]; o++ {
						x[v] = o
						s += sp.at(u, x)
					}
					x[v] = 0
					return s
				}, ops, specs)
				for o := 0; o < u.ar[v]; o++ {
					r := u.vs.Restrict(&f, u.vars[v], o)
					u.verify(t, fmt.Sprintf("restrict %d of %v to %d", v, scope, o), &r, rest, func(x []int) float64 {
						x[v] = o
						w := sp.at(u, x)
						x[v] = 0
						return w
					}, ops, specs)
				}
				m := u.vs.Marginal(&f, u.vars[v])
				u.verify(t, fmt.Sprintf("marginal %d of %v", v, scope), &m, []int{v}, func(x []int) float64 {
					s := 0.0
					y := append([]int{}, x...)
					u.each(rest, y, func() { s += sp.at(u, y) })
					return s
				}, ops, specs)
				rowSum := func(x []int) float64 {
					s := 0.0
					keep := x[v]
					for o := 0; o < u.ar[v]; o++ {
						x[v] = o
						s += sp.at(u, x)
					}
					x[v] = keep
					return s
				}
				nf := u.vs.NormalizeFor(&f, u.vars[v])
				vs := nf.Variables()
				if u.pos[vs[len(vs)-1].Id()] != v {
					t.Failf("normalize %v for %d: variable not last", scope, v)
				}
				free := u.read(t, &nf)
				u.verify(t, fmt.Sprintf("normalize %v for %d", scope, v), &nf, scope, func(x []int) float64 {
					s := rowSum(x)
					if s == 0 {
						return free.at(u, x) // rows that can't be normalised are free, the others are not
					}
					return sp.at(u, x) / s
				}, ops, specs)
				pol := u.vs.Policy(&f, u.vars[v])
				u.verify(t, fmt.Sprintf("policy of %v for %d", scope, v), &pol, scope, func(x []int) float64 {
					best, n := math.Inf(-1), 0
					keep := x[v]
					for o := 0; o < u.ar[v]; o++ {
						x[v] = o
						w := sp.at(u, x)
						if w > best {
							best, n = w, 1
						} else if w == best {
							n++
						}
					}
					x[v] = keep
					if sp.at(u, x) == best {
						return 1 / float64(n)
					}
					return 0
				}, ops, specs)
			}
			total := 0.0
			for _, d := range sp.data {
				total += d
			}
			if total != 0 {
				nf := u.vs.Normalize(&f)
				u.verify(t, fmt.Sprintf("normalize %v", scope), &nf, scope, func(x []int) float64 { return sp.at(u, x) / total }, ops, specs)
			}
			zero := false
			for _, d := range sp.data {
				zero = zero || d == 0
			}
			if !zero {
				inv := u.vs.Invert(&f)
				u.verify(t, fmt.Sprintf("invert %v", scope), &inv, scope, func(x []int) float64 { return 1 / sp.at(u, x) }, ops, specs)
			}
			if len(scope) <= 5 {
				perms(len(scope), func(p []int) {
					order := make([]int, len(p))
					vars := make([]ve.Variable, len(p))
					for i := range p {
						order[i] = scope[p[i]]
						vars[i] = u.vars[order[i]]
					}
					r := u.vs.Rearrange(&f, vars)
					for i, v := range r.Variables() {
						if u.pos[v.Id()] != order[i] {
							t.Failf("rearrange %v to %v: position %d", scope, order, i)
						}
					}
					for i := range vars { // the list of variables passed in stays the caller's
						if vars[i].Id() != u.vars[order[i]].Id() {
							t.Failf("rearrange changed its argument")
						}
					}
					u.verify(t, fmt.Sprintf("rearrange %v to %v", scope, order), &r, scope, func(x []int) float64 { return sp.at(u, x) }, ops, specs)
				})
			}
		}
		compute()
		if again {
			u.rewrite(t, &f, sp, factorValues(len(sp.data), 60))
			compute()
		}
		t.Outcome(hashFloats(0, sp.data))
	}

	for nv := 1; nv <= 3; nv++ {
		scopes := orderedScopes(nv)
		for ii, ids := range idSets {
			product(rep(3, nv), func(a []int) {
				ar := make([]int, nv)
				for i := range ar {
					ar[i] = a[i] + 1
				}
				for _, s1 := range scopes {
					s1 := s1
					c.Case(func() string { return fmt.Sprintf("arities %v ids %v, operands starting with %v", ar, ids, s1) }, func(t *T) {
						u := newUniverse(ar, ids, nil)
						again = nv < 3
						unary(t, u, s1, nil)
						nary(t, u, [][]int{s1})
						for _, s2 := range scopes {
							again = nv < 3 || len(s1)+len(s2) < 4
							nary(t, u, [][]int{s1, s2})
							again = false
							if ii == 0 || c.Thorough {
								for _, s3 := range scopes {
									nary(t, u, [][]int{s1, s2, s3})
								}
							}
						}
						t.c.Traces++
					})
				}
			})
		}
	}
	// four variables, pairs
	scopes4 := orderedScopes(4)
	for _, ar := range [][]int{{2, 3, 2, 4}, {3, 1, 2, 2}, {5, 2, 3, 2}} {
		for _, s1 := range scopes4 {
			c.Case(func() string { return fmt.Sprintf("arities %v, operands starting with %v", ar, s1) }, func(t *T) {
				u := newUniverse(ar, idSets[1], nil)
				unary(t, u, s1, nil)
				for _, s2 := range scopes4 {
					nary(t, u, [][]int{s1, s2})
				}
				t.c.Traces++
			})
		}
	}
	// many operands and variables, large arities
	for k := 0; k <= 40; k++ {
		c.Case(func() string { return fmt.Sprintf("%d operands in a chain", k) }, func(t *T) {
			n := 5
			u := newUniverse([]int{2, 2, 3, 2, 2}, nil, nil)
			ss := [][]int{}
			for i := 0; i < k; i++ {
				ss = append(ss, []int{i % n, (i + 1 + i/n) % n})
				if ss[i][0] == ss[i][1] {
					ss[i] = ss[i][:1]
				}
			}
			nary(t, u, ss)
			u.verifyScalars(t, k)
		})
	}
	for n := 5; n <= 13; n++ {
		for _, first := range []int{2, 3} {
			if n > 11 && first == 3 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%d variables", n) }, func(t *T) {
				ar := rep(2, n)
				ar[n/2] = first
				u := newUniverse(ar, nil, nil)
				unary(t, u, reversed(n), nil)
				unary(t, u, seq(n), nil)
				nary(t, u, [][]int{reversed(n), seq(n - 1), {n - 1, 0}})
			})
		}
	}
	for _, a := range []int{7, 8, 9, 10, 16, 17, 100, 127, 128, 129, 255, 256, 257, 300, 1000} {
		c.Case(func() string { return fmt.Sprintf("arity %d", a) }, func(t *T) {
			u := newUniverse([]int{2, a, 2}, nil, nil)
			unary(t, u, []int{0, 1}, nil)
			unary(t, u, []int{1, 2}, nil)
			unary(t, u, []int{2, 1, 0}, nil)
			nary(t, u, [][]int{{1, 0}, {2, 1}})
			// every number of ties
			for k := 1; k <= a && k < 40; k++ {
				d := make([]float64, 2*a)
				for i := 0; i < k; i++ {
					d[i*(a/k)] = 5
					d[a+a-1-i] = 3
				}
				unary(t, u, []int{0, 1}, d)
			}
		})
	}
	// all tie patterns and signs
	for _, ar := range [][]int{{1, 2}, {1, 3}, {2, 2}, {2, 3}, {3, 2}, {1, 4}} {
		size := ar[0] * ar[1]
		vals := []float64{-1, 0, 2}
		product(rep(3, size), func(x []int) {
			d := make([]float64, size)
			for i := range d {
				d[i] = vals[x[i]]
			}
			c.Case(func() string { return fmt.Sprintf("arities %v values %v", ar, d) }, func(t *T) {
				u := newUniverse(ar, nil, nil)
				unary(t, u, []int{0, 1}, d)
				if !c.Thorough && size > 4 {
					return
				}
				unary(t, u, []int{1, 0}, d)
			})
		})
	}
	// other magnitudes (scaling by powers of two is exact)
	for _, e := range []int{-900, -400, -200, -120, -60, -40, -30, -20, -10, 10, 20, 30, 40, 60, 120, 200, 400, 900} {
		for _, s1 := range orderedScopes(3) {
			c.Case(func() string { return fmt.Sprintf("values times 2^%d, operands starting with %v", e, s1) }, func(t *T) {
				defer func() { scale = 1 }()
				scale = math.Ldexp(1, e)
				u := newUniverse([]int{2, 3, 2}, nil, nil)
				unary(t, u, s1, nil)
				nary(t, u, [][]int{s1})
				if e > 400 || e < -400 {
					return // products are out of range
				}
				for _, s2 := range orderedScopes(3) {
					nary(t, u, [][]int{s1, s2})
				}
				t.c.Traces++
			})
		}
	}
	// extreme magnitudes
	ext := []float64{1e-300, 1e300, -1e300, 1, 5e-324, -2, -1.5e300}
	product(rep(len(ext), 4), func(x []int) {
		d := make([]float64, 4)
		sum := 0.0
		for i := range d {
			d[i] = ext[x[i]]
			sum += d[i]
		}
		c.Case(func() string { return fmt.Sprintf("values %v", d) }, func(t *T) {
			u := newUniverse([]int{2, 2}, nil, nil)
			f := u.create(t, fspec{[]int{0, 1}, d})
			pol := u.vs.Policy(&f, u.vars[1])
			for r := 0; r < 2; r++ {
				a, b := d[2*r], d[2*r+1]
				w0, w1 := 0.5, 0.5
				if a > b {
					w0, w1 = 1, 0
				} else if b > a {
					w0, w1 = 0, 1
				}
				if g := u.read(t, &pol); g.at(u, []int{r, 0}) != w0 || g.at(u, []int{r, 1}) != w1 {
					t.Failf("policy %v of %v", g, d)
				}
			}
			t.c.States++
		})
	})
	// policies for unbounded and undefined utilities: the largest of the
	// defined values win, and where none is defined all outcomes tie
	odd := []float64{math.NaN(), math.Inf(-1), math.Inf(1), 1, 2}
	product(rep(len(odd), 4), func(x []int) {
		c.Case(func() string { return fmt.Sprintf("policy for special values %v", x) }, func(t *T) {
			for _, a := range odd {
				for _, b := range odd {
					d := []float64{odd[x[0]], odd[x[1]], odd[x[2]], odd[x[3]], a, b}
					u := newUniverse([]int{2, 3}, nil, nil)
					f := u.create(t, fspec{[]int{0, 1}, d})
					pol := u.vs.Policy(&f, u.vars[1])
					g := u.read(t, &pol)
					for r := 0; r < 2; r++ {
						best, n := math.NaN(), 0
						for _, w := range d[3*r : 3*r+3] {
							if w > best || math.IsNaN(best) && !math.IsNaN(w) {
								best, n = w, 1
							} else if w == best {
								n++
							}
						}
						for o, w := range d[3*r : 3*r+3] {
							want := 0.0
							if n == 0 {
								want = 1 / 3.0
							} else if w == best {
								want = 1 / float64(n)
							}
							if have := g.at(u, []int{r, o}); have != want {
								t.Failf("policy of %v: row %d outcome %d is %v, want %v", d, r, o, have, want)
							}
						}
					}
					t.c.States++
				}
			}
		})
	})
}

// verifyScalars: factors without variables as operands.
func (u *universe) verifyScalars(t *T, k int) {
	sp := fspec{nil, []float64{float64(k + 2)}}
	f := u.create(t, sp)
	g := u.create(t, fspec{[]int{0}, []float64{3, 5}})
	p := u.vs.Product(&g, &f)
	u.verify(t, "product with constant", &p, []int{0}, func(x []int) float64 { return []float64{3, 5}[x[0]] * float64(k+2) },
		[]*ve.Factor{&g, &f}, []fspec{{[]int{0}, []float64{3, 5}}, sp})
}

func runC04(c *Ctx) {
	do := func(ar []int) {
		c.Case(func() string { return fmt.Sprintf("shape %v", ar) }, func(t *T) { c04Factor(t, ar) })
		if len(ar) > 0 {
			c.Case(func() string { return fmt.Sprintf("network variable with shape %v", ar) }, func(t *T) { c04Network(t, ar) })
		}
	}
	maxD, maxA := 4, 4
	if c.Thorough {
		maxD = 5
	}
	for d := 0; d <= maxD; d++ {
		product(rep(maxA, d), func(a []int) {
			ar := make([]int, d)
			for i := range ar {
				ar[i] = a[i] + 1
			}
			do(ar)
		})
	}
	for _, ar := range [][]int{{300}, {2, 300}, {300, 2}, {3, 257, 2}, {2, 3, 128}, {256, 3}, {17, 19}, {2, 2, 2, 2, 2, 2, 2, 2}, {3, 2, 3, 2, 3, 2, 3}, {5, 7, 11}, {11, 7, 5}, {1000}, {40, 40}} {
		do(ar)
	}
}

func c04Factor(t *T, ar []int) {
	t.Outcome(uint64(mix(ar...)))
	u := newUniverse(ar, nil, nil)
	n := len(ar)
	size := u.size(seq(n))
	data := make([]float64, size)
	for i := range data {
		data[i] = float64(i) + 0.5
	}
	f := u.vs.CreateFactor(u.vars, append([]float64{}, data...))
	k := 0
	product(ar, func(x []int) {
		t.c.States++
		if g := f.Index(x); g != k {
			t.Failf("index of %v is %d, expected %d", x, g, k)
		}
		g, ok := f.IndexWithNoData(x)
		if !ok || g != k {
			t.Failf("IndexWithNoData of %v is %d %v, expected %d", x, g, ok, k)
		}
		y := rep(-7, n)
		f.Outcomes(k, y)
		if fmt.Sprint(y) != fmt.Sprint(x) {
			t.Failf("outcomes of %d are %v, expected %v", k, y, x)
		}
		if f.Get(x) != data[k] {
			t.Failf("get %v: %v, expected %v", x, f.Get(x), data[k])
		}
		if n > 0 {
			row := f.Row(x[:n-1])
			st, ln := f.RowIndex(x[:n-1])
			if ln != ar[n-1] || st != k-x[n-1] || len(row) != ln {
				t.Failf("row of %v: start %d length %d, expected %d %d", x[:n-1], st, ln, k-x[n-1], ar[n-1])
			}
			for i := range row {
				if row[i] != data[st+i] {
					t.Failf("row of %v: %v", x[:n-1], row)
				}
			}
		}
		if size <= 4000 {
			f.Set(x, -1)
			for i, d := range f.Data() {
				if i == k && d != -1 || i != k && d != data[i] {
					t.Failf("set %v: position %d is %v", x, i, d)
				}
			}
			if f.Get(x) != -1 {
				t.Failf("value set at %v not read back", x)
			}
			f.Set(x, data[k])
		}
		t.c.Transitions += 5
		k++
	})
	if k != size || len(f.Data()) != size {
		t.Failf("size %d, expected %d", len(f.Data()), k)
	}
	// missing values: all patterns
	if n > 0 && size <= 700 {
		product(ar, func(x []int) {
			for m := 1; m < 1<<n; m++ {
				y := append([]int{}, x...)
				for i := range y {
					if m&(1<<i) != 0 {
						y[i] = -1
					}
				}
				if _, ok := f.IndexWithNoData(y); ok {
					t.Failf("missing data in %v not reported", y)
				}
				t.c.States++
			}
		})
	}
	t.c.Traces++
}

func c04Network(t *T, ar []int) {
	n := len(ar)
	net := &Net{Name: "x"}
	par := []int{}
	for i := 0; i < n; i++ {
		net.Vars = append(net.Vars, NV{Name: fmt.Sprintf("v%d", i), Out: outs(ar[i])})
		if i < n-1 {
			par = append(par, i)
			net.Vars[i].Table = genericTable(ar[i], i)
		}
	}
	net.Vars[n-1].Given = par
	size := net.size(n - 1)
	data := make([]float64, size)
	for i := range data {
		data[i] = float64(i) + 0.25
	}
	net.Vars[n-1].Table = data
	for _, front := range []bool{false, true} {
		m := net
		v := n - 1
		if front {
			p := []int{n - 1}
			for i := 0; i < n-1; i++ {
				p = append(p, i)
			}
			m = net.permuteVars(p)
			v = 0
		}
		real := m.mustBuild(t)
		f := real.Variables()[v].Factor
		k := 0
		cols := ar[n-1]
		product(ar[:n-1], func(x []int) {
			row, ok := f.Row(x)
			if !ok || len(row) != cols {
				t.Failf("row %v: %v %v", x, row, ok)
			}
			for i := range row {
				if row[i] != data[k*cols+i] {
					t.Failf("row %v is %v, expected %v", x, row, data[k*cols:k*cols+cols])
				}
			}
			// a row refers to the table
			row[0] = -1
			for i, d := range f.Table {
				if i == k*cols && d != -1 || i != k*cols && d != data[i] {
					t.Failf("write to row %v changed position %d", x, i)
				}
			}
			row[0] = data[k*cols]
			k++
			t.c.States++
			if n > 1 && size <= 700 {
				for mm := 1; mm < 1<<(n-1); mm++ {
					y := append([]int{}, x...)
					for i := range y {
						if mm&(1<<i) != 0 {
							y[i] = -1
						}
					}
					if r, ok := f.Row(y); ok {
						t.Failf("missing data in row %v not reported: %v", y, r)
					}
				}
			}
		})
		// and for parents of smaller variables
		for i := range m.Vars {
			if len(m.Vars[i].Given) == 0 {
				row, ok := real.Variables()[i].Factor.Row(nil)
				if !ok || !bitsEqual(row, m.Vars[i].Table) {
					t.Failf("row of root %s: %v", m.Vars[i].Name, row)
				}
			}
		}
	}
	t.c.Traces++
}
