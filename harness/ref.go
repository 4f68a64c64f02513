package main

// An independent elimination, as reference for networks too large for enumeration of the joint
// distribution. It shares no code with the implementation, and is itself compared with the
// enumeration on every small network of C01.

type rf struct {
	scope []int
	tab   []float64
}

func (n *Net) rfIndex(scope []int, x []int) int { return n.scopeIndex(scope, x) }

// rfEach enumerates assignments of the scope.
func (n *Net) rfEach(scope []int, x []int, f func()) {
	var rec func(k int)
	rec = func(k int) {
		if k == len(scope) {
			f()
			return
		}
		for o := range n.Vars[scope[k]].Out {
			x[scope[k]] = o
			rec(k + 1)
		}
	}
	rec(0)
}

func has(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func (n *Net) rfCombine(fs []rf, drop int) rf {
	scope := []int{}
	for _, f := range fs {
		for _, v := range f.scope {
			if v != drop && !has(scope, v) {
				scope = append(scope, v)
			}
		}
	}
	res := rf{scope: scope, tab: make([]float64, n.scopeSize(scope))}
	x := make([]int, len(n.Vars))
	k := 0
	no := 1
	if drop >= 0 {
		no = len(n.Vars[drop].Out)
	}
	n.rfEach(scope, x, func() {
		s := 0.0
		for o := 0; o < no; o++ {
			if drop >= 0 {
				x[drop] = o
			}
			w := 1.0
			for i := range fs {
				w *= fs[i].tab[n.scopeIndex(fs[i].scope, x)]
			}
			s += w
		}
		res.tab[k] = s
		k++
	})
	return res
}

func (n *Net) rfRestrict(f rf, v, o int) rf {
	if !has(f.scope, v) {
		return f
	}
	scope := []int{}
	for _, s := range f.scope {
		if s != v {
			scope = append(scope, s)
		}
	}
	res := rf{scope: scope, tab: make([]float64, n.scopeSize(scope))}
	x := make([]int, len(n.Vars))
	x[v] = o
	k := 0
	n.rfEach(scope, x, func() {
		res.tab[k] = f.tab[n.scopeIndex(f.scope, x)]
		k++
	})
	return res
}

// refJoint is the joint of scope and evidence, by elimination of the smallest intermediate result first.
// util: nil for probabilities, else the utility factors to be summed.
func (p *prepared) refJoint(ev []int, pols map[int]Pol, scope []int, which int, useUtil bool) []float64 {
	n := p.net
	if useUtil {
		// sum over utility variables of the joint with that utility
		tot := n.total()
		var res []float64
		for i, v := range n.Vars {
			if v.Type != utility || i == tot || (which >= 0 && i != which) {
				continue
			}
			w := 1.0
			if tot >= 0 && which < 0 {
				for k, g := range n.Vars[tot].Given {
					if g == i {
						w = n.Vars[tot].Table[k]
					}
				}
			}
			u := rf{scope: v.Given, tab: make([]float64, n.scopeSize(v.Given))}
			c := len(v.Out)
			for k := range u.tab {
				for j := 0; j < c; j++ {
					u.tab[k] += v.Table[k*c+j]
				}
				u.tab[k] *= w
			}
			r := p.refElim(ev, pols, scope, []rf{u})
			if res == nil {
				res = r
			} else {
				for k := range r {
					res[k] += r[k]
				}
			}
		}
		return res
	}
	return p.refElim(ev, pols, scope, nil)
}

func (p *prepared) refElim(ev []int, pols map[int]Pol, scope []int, more []rf) []float64 {
	n := p.net
	fs := append([]rf{}, more...)
	for _, i := range p.active {
		v := n.Vars[i]
		if v.Type == chance {
			fs = append(fs, rf{scope: append(append([]int{}, v.Given...), i), tab: p.norm[i]})
		} else if pol, ok := pols[i]; ok {
			fs = append(fs, rf{scope: append(append([]int{}, pol.Scope...), i), tab: pol.Table})
		}
	}
	if ev != nil {
		for i, o := range ev {
			if o >= 0 {
				for k := range fs {
					fs[k] = n.rfRestrict(fs[k], i, o)
				}
			}
		}
	}
	todo := []int{}
	for _, i := range p.active {
		if (ev == nil || ev[i] < 0) && !has(scope, i) {
			todo = append(todo, i)
		}
	}
	for len(todo) > 0 {
		best, bestSize := 0, -1.0
		for k, v := range todo {
			sc := []int{}
			for _, f := range fs {
				if has(f.scope, v) {
					for _, s := range f.scope {
						if !has(sc, s) {
							sc = append(sc, s)
						}
					}
				}
			}
			s := 1.0
			for _, q := range sc {
				s *= float64(len(n.Vars[q].Out))
			}
			if bestSize < 0 || s < bestSize {
				best, bestSize = k, s
			}
		}
		v := todo[best]
		todo = append(todo[:best:best], todo[best+1:]...)
		in, out := []rf{}, []rf{}
		for _, f := range fs {
			if has(f.scope, v) {
				in = append(in, f)
			} else {
				out = append(out, f)
			}
		}
		if len(in) == 0 {
			continue
		}
		fs = append(out, n.rfCombine(in, v))
	}
	r := n.rfCombine(fs, -1)
	res := make([]float64, n.scopeSize(scope))
	x := make([]int, len(n.Vars))
	if ev != nil {
		for i, o := range ev {
			if o >= 0 {
				x[i] = o
			}
		}
	}
	k := 0
	free := []int{}
	for _, s := range scope {
		free = append(free, s)
	}
	n.rfEach(free, x, func() {
		res[k] = r.tab[n.scopeIndex(r.scope, x)]
		k++
	})
	return res
}
