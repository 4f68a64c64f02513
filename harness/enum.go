package main

// ---------------------------------------------------------------------------
// Enumerators.

// dags enumerates all labelled DAGs over n nodes as parent lists (ascending).
func dags(n int, f func(par [][]int)) {
	pairs := [][2]int{}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			pairs = append(pairs, [2]int{i, j})
		}
	}
	par := make([][]int, n)
	dir := make([]int, len(pairs))
	var rec func(k int)
	rec = func(k int) {
		if k == len(pairs) {
			for i := range par {
				par[i] = par[i][:0]
			}
			for p, d := range dir {
				i, j := pairs[p][0], pairs[p][1]
				if d == 1 {
					par[j] = append(par[j], i)
				} else if d == 2 {
					par[i] = append(par[i], j)
				}
			}
			if acyclic(par) {
				c := make([][]int, n)
				for i := range par {
					c[i] = append([]int{}, par[i]...)
				}
				f(c)
			}
			return
		}
		for d := 0; d < 3; d++ {
			dir[k] = d
			rec(k + 1)
		}
	}
	rec(0)
}

func acyclic(par [][]int) bool {
	state := make([]int, len(par))
	var visit func(i int) bool
	visit = func(i int) bool {
		if state[i] == 2 {
			return true
		}
		if state[i] == 1 {
			return false
		}
		state[i] = 1
		for _, p := range par[i] {
			if !visit(p) {
				return false
			}
		}
		state[i] = 2
		return true
	}
	for i := range par {
		if !visit(i) {
			return false
		}
	}
	return true
}

// perms enumerates all permutations of 0..n-1, identity first.
func perms(n int, f func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			used[i] = true
			p[k] = i
			rec(k + 1)
			used[i] = false
		}
	}
	rec(0)
}

func allPerms(n int) [][]int {
	r := [][]int{}
	perms(n, func(p []int) { r = append(r, p) })
	return r
}

// product enumerates all tuples with 0 <= x[i] < dims[i].
func product(dims []int, f func(x []int)) {
	x := make([]int, len(dims))
	for _, d := range dims {
		if d == 0 {
			return
		}
	}
	for {
		f(append([]int{}, x...))
		i := len(dims) - 1
		for i >= 0 {
			x[i]++
			if x[i] < dims[i] {
				break
			}
			x[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// subsets enumerates all subsets of the given items, in order of size.
func subsets(items []int, f func(s []int)) {
	n := len(items)
	for size := 0; size <= n; size++ {
		for m := 0; m < 1<<n; m++ {
			s := []int{}
			for i := 0; i < n; i++ {
				if m&(1<<i) != 0 {
					s = append(s, items[i])
				}
			}
			if len(s) == size {
				f(s)
			}
		}
	}
}

// evidences enumerates all partial assignments of the given variables (ascending number of set values not guaranteed).
func (n *Net) evidences(vars []int, f func(ev []int)) {
	dims := make([]int, len(vars))
	for i, v := range vars {
		dims[i] = len(n.Vars[v].Out) + 1
	}
	product(dims, func(x []int) {
		ev := make([]int, len(n.Vars))
		for i := range ev {
			ev[i] = -1
		}
		for i, v := range vars {
			ev[v] = x[i] - 1
		}
		f(ev)
	})
}

func rep(v, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = v
	}
	return r
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// mix is a deterministic hash for generic (all different) table values.
func mix(a ...int) int {
	h := uint64(1469598103934665603)
	for _, x := range a {
		h ^= uint64(x + 1)
		h *= 1099511628211
		h ^= h >> 29
	}
	return int(h>>20) & 0x7fffffff
}

// genericTable fills a table with positive integers that differ between cells in a way that
// makes every mix-up of cells visible.
func genericTable(size, seed int) []float64 {
	t := make([]float64, size)
	for i := range t {
		t[i] = float64(mix(i, seed)%97 + 1)
	}
	return t
}

// dyadicRows gives rows over c outcomes that sum to one exactly.
func dyadicRow(c int, seed int) []float64 {
	r := make([]float64, c)
	total := 64
	for total < 4*c {
		total *= 2
	}
	left := total
	for k := 0; k < c-1; k++ {
		v := 1 + mix(seed, k)%(left-(c-1-k))
		if v >= left {
			v = left - 1
		}
		r[k] = float64(v) / float64(total)
		left -= v
	}
	r[c-1] = float64(left) / float64(total)
	return r
}

func dyadicTable(rows, c, seed int) []float64 {
	t := []float64{}
	for i := 0; i < rows; i++ {
		t = append(t, dyadicRow(c, mix(seed, i))...)
	}
	return t
}

// subsetsUpTo enumerates the subsets of at most k items.
func subsetsUpTo(items []int, k int, f func(s []int)) {
	var rec func(i int, s []int)
	rec = func(i int, s []int) {
		if i == len(items) {
			f(append([]int{}, s...))
			return
		}
		if len(s) == k {
			f(append([]int{}, s...))
			return
		}
		rec(i+1, s)
		rec(i+1, append(s, items[i]))
	}
	rec(0, nil)
}

// evidencesUpTo enumerates evidence on at most k variables.
func (n *Net) evidencesUpTo(vars []int, k int, f func(ev []int)) {
	subsetsUpTo(vars, k, func(s []int) {
		dims := make([]int, len(s))
		for i, v := range s {
			dims[i] = n.arity(v)
		}
		product(dims, func(x []int) {
			ev := noEv(n)
			for i, v := range s {
				ev[v] = x[i]
			}
			f(ev)
		})
	})
}

func reverseInts(l []int) []int {
	r := make([]int, len(l))
	for i, v := range l {
		r[len(l)-1-i] = v
	}
	return r
}
