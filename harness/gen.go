package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/mlange-42/bbn"
)

// chanceNet makes a network of chance variables from parent lists and arities.
func chanceNet(par [][]int, arity []int, seed int) *Net {
	n := &Net{Name: "net"}
	for i := range par {
		n.Vars = append(n.Vars, NV{Name: fmt.Sprintf("v%d", i), Out: outs(arity[i]), Given: par[i]})
	}
	for i := range par {
		n.Vars[i].Table = genericTable(n.size(i), mix(seed, i))
	}
	return n
}

// parentOrders enumerates all orders of the parent lists.
func parentOrders(par [][]int, f func(p [][]int)) {
	lists := make([][][]int, len(par))
	dims := make([]int, len(par))
	for i, ps := range par {
		perms(len(ps), func(p []int) {
			l := make([]int, len(ps))
			for k := range p {
				l[k] = ps[p[k]]
			}
			lists[i] = append(lists[i], l)
		})
		dims[i] = len(lists[i])
	}
	product(dims, func(x []int) {
		r := make([][]int, len(par))
		for i := range r {
			r[i] = lists[i][x[i]]
		}
		f(r)
	})
}

// rowTables enumerates all tables of a network whose rows come from the alphabet.
func rowTables(n *Net, alphabet map[int][][]float64, f func(n *Net)) {
	dims := []int{}
	type pos struct{ v, r int }
	at := []pos{}
	for i := range n.Vars {
		c := n.arity(i)
		for r := 0; r < n.size(i)/c; r++ {
			at = append(at, pos{i, r})
			dims = append(dims, len(alphabet[c]))
		}
	}
	product(dims, func(x []int) {
		m := n.clone()
		for k, p := range at {
			c := m.arity(p.v)
			copy(m.Vars[p.v].Table[p.r*c:], alphabet[c][x[k]])
		}
		f(m)
	})
}

// Families of larger networks.
type family struct {
	name string
	net  *Net
}

func sizeFamilies(thorough bool) []family {
	r := []family{}
	add := func(name string, par [][]int, ar []int, seed int) {
		n := chanceNet(par, ar, seed)
		r = append(r, family{name, n})
	}
	lens := []int{5, 6, 8, 9, 11, 13, 16, 17, 21, 26, 33}
	if thorough {
		lens = append(lens, 48, 64, 65, 70, 100)
	}
	for _, l := range lens {
		par := make([][]int, l)
		ar := make([]int, l)
		rev := make([][]int, l)
		for i := range par {
			ar[i] = 2 + mix(i, l)%2
			if i > 0 {
				par[i] = []int{i - 1}
			}
			if i < l-1 {
				rev[i] = []int{i + 1}
			}
		}
		add(fmt.Sprintf("chain %d", l), par, ar, l)
		add(fmt.Sprintf("reverse chain %d", l), rev, ar, l+1)
		nb := make([][]int, l)
		for i := 1; i < l; i++ {
			nb[i] = []int{0}
		}
		add(fmt.Sprintf("naive bayes %d", l), nb, ar, l+2)
		nbLast := make([][]int, l)
		for i := 0; i < l-1; i++ {
			nbLast[i] = []int{l - 1}
		}
		add(fmt.Sprintf("naive bayes, cause last %d", l), nbLast, ar, l+3)
		tree := make([][]int, l)
		for i := 1; i < l; i++ {
			tree[i] = []int{(i - 1) / 2}
		}
		add(fmt.Sprintf("tree %d", l), tree, ar, l+4)
		tan := make([][]int, l)
		for i := 1; i < l; i++ {
			tan[i] = []int{0}
			if i > 1 {
				tan[i] = []int{i - 1, 0}
			}
		}
		add(fmt.Sprintf("augmented naive bayes %d", l), tan, ar, l+5)
		lad := make([][]int, l)
		for i := range lad {
			for d := 1; d <= 2; d++ {
				if i-d >= 0 {
					lad[i] = append(lad[i], i-d)
				}
			}
		}
		add(fmt.Sprintf("second-order chain %d", l), lad, ar, l+6)
	}
	for _, p := range []int{3, 4, 5, 6, 7, 8, 9, 10} {
		par := make([][]int, p+1)
		ar := rep(2, p+1)
		for i := 0; i < p; i++ {
			par[p] = append(par[p], i)
		}
		add(fmt.Sprintf("collider %d", p), par, ar, p)
		par2 := make([][]int, p+1)
		for i := p; i > 0; i-- {
			par2[0] = append(par2[0], i)
		}
		ar2 := rep(2, p+1)
		ar2[p/2] = 3
		add(fmt.Sprintf("collider first %d", p), par2, ar2, p+50)
	}
	for _, a := range []int{5, 8, 9, 10, 11, 16, 17, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300} {
		add(fmt.Sprintf("arity %d", a), [][]int{{}, {0}, {1}}, []int{2, a, 2}, a)
		add(fmt.Sprintf("root arity %d", a), [][]int{{}, {0}, {0, 1}}, []int{a, 2, 3}, a)
	}
	// more variables than fit into a word or a byte
	for _, l := range []int{64, 65, 129, 257} {
		par := make([][]int, l)
		rev := make([][]int, l)
		for i := range par {
			if i > 0 {
				par[i] = []int{i - 1}
			}
			if i < l-1 {
				rev[i] = []int{i + 1}
			}
		}
		add(fmt.Sprintf("long %d", l), par, rep(2, l), l)
		add(fmt.Sprintf("long reversed %d", l), rev, rep(2, l), l)
	}
	// complete DAGs
	for _, k := range []int{4, 5, 6} {
		par := make([][]int, k)
		for i := range par {
			for j := 0; j < i; j++ {
				par[i] = append(par[i], j)
			}
		}
		add(fmt.Sprintf("complete %d", k), par, rep(2, k), k)
	}
	return r
}

// exampleFiles are the networks shipped with the repository.
func exampleFiles() []string {
	r := []string{}
	_ = filepath.WalkDir("/repo/_examples", func(path string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		switch filepath.Ext(path) {
		case ".yml", ".xml", ".bifxml":
			r = append(r, path)
		}
		return nil
	})
	sort.Strings(r)
	return r
}

// netFrom reads a network back into the model.
func netFrom(b *bbn.Network) *Net {
	n := &Net{Name: b.Name(), Info: b.Info()}
	idx := map[string]int{}
	for i, v := range b.Variables() {
		idx[v.Name] = i
	}
	for _, v := range b.Variables() {
		nv := NV{Name: v.Name, Type: int(v.NodeType), Out: append([]string{}, v.Outcomes...), Pos: v.Position, Color: v.Color}
		if v.Factor != nil {
			for _, g := range v.Factor.Given {
				nv.Given = append(nv.Given, idx[g])
			}
			if v.Factor.Table != nil {
				nv.Table = append([]float64{}, v.Factor.Table...)
			}
		}
		n.Vars = append(n.Vars, nv)
	}
	return n
}

// ---------------------------------------------------------------------------
// Decision networks

// utilTable fills a utility table with integers. variant 0: generic values of both signs,
// 1: few small values (many ties), 2: negative only.
func utilTable(size, variant, seed int) []float64 {
	t := make([]float64, size)
	for i := range t {
		h := mix(i, seed, 77)
		switch variant {
		case 0:
			t[i] = float64(h%61 - 30)
		case 1:
			t[i] = float64(h % 2)
		default:
			t[i] = -float64(h%41 + 1)
		}
	}
	return t
}

// decNet makes a network with typed active variables and utilities over the given parents.
func decNet(par [][]int, types, arity []int, utils [][]int, variant, seed int) *Net {
	n := &Net{Name: "net"}
	for i := range par {
		n.Vars = append(n.Vars, NV{Name: fmt.Sprintf("v%d", i), Type: types[i], Out: outs(arity[i]), Given: par[i]})
	}
	for i := range par {
		if types[i] == chance {
			c := arity[i]
			n.Vars[i].Table = dyadicTable(n.size(i)/c, c, mix(seed, i))
		}
	}
	for k, u := range utils {
		n.Vars = append(n.Vars, NV{Name: fmt.Sprintf("u%d", k), Type: utility, Out: []string{"u"}, Given: u})
		i := len(n.Vars) - 1
		n.Vars[i].Table = utilTable(n.size(i), variant, mix(seed, i, k))
	}
	return n
}

// withTotal adds a total utility node at position at, weighting the utilities in reverse order of declaration.
func withTotal(n *Net, weights []float64, reverse bool, at int) *Net {
	m := n.clone()
	us := []int{}
	for i, v := range m.Vars {
		if v.Type == utility {
			us = append(us, i)
		}
	}
	if reverse {
		for a, b := 0, len(us)-1; a < b; a, b = a+1, b-1 {
			us[a], us[b] = us[b], us[a]
		}
	}
	o := []string{}
	for _, u := range us {
		o = append(o, m.Vars[u].Name)
	}
	m.Vars = append(m.Vars, NV{Name: "total", Type: utility, Out: o, Given: us, Table: append([]float64{}, weights[:len(us)]...)})
	if at >= 0 && at < len(m.Vars)-1 {
		p := []int{}
		for i := 0; i < len(m.Vars)-1; i++ {
			if i == at {
				p = append(p, len(m.Vars)-1)
			}
			p = append(p, i)
		}
		m = m.permuteVars(p)
	}
	return m
}

// withTotalOrder adds a total utility node that lists the utilities in the given order.
func withTotalOrder(n *Net, weights []float64, order []int, at int) *Net {
	m := withTotal(n, weights, false, at)
	t := &m.Vars[m.total()]
	g, o := append([]int{}, t.Given...), append([]string{}, t.Out...)
	for k, q := range order {
		t.Given[k], t.Out[k] = g[q], o[q]
	}
	return m
}

// manyUtils are networks with three and four utilities, weighted in all orders.
func manyUtils(f func(mk func() *Net)) {
	for _, st := range []struct {
		par   [][]int
		types []int
		us    [][]int
	}{
		{[][]int{{}, {0}}, []int{chance, decision}, [][]int{{0}, {1}, {0, 1}}},
		{[][]int{{}, {0}}, []int{decision, chance}, [][]int{{1}, {0}, {1, 0}, {0}}},
		{[][]int{{}, {}}, []int{decision, chance}, [][]int{{1, 0}, {0}, {0, 1}, {1}}},
	} {
		perms(len(st.us), func(p []int) {
			p = append([]int{}, p...)
			for at := -1; at < 2+len(st.us); at += 2 {
				f(func() *Net {
					return withTotalOrder(decNet(st.par, st.types, []int{2, 2}, st.us, 0, 70), []float64{3, -0.5, 10, 0.25}, p, at)
				})
			}
		})
	}
}

// permuteVars lists the variables in another order: new variable k is old variable p[k].
func (n *Net) permuteVars(p []int) *Net {
	inv := make([]int, len(p))
	for k, o := range p {
		inv[o] = k
	}
	m := n.clone()
	c := n.clone()
	for k, o := range p {
		v := c.Vars[o]
		for g := range v.Given {
			v.Given[g] = inv[v.Given[g]]
		}
		m.Vars[k] = v
	}
	if n.Order != nil {
		for k := range n.Order {
			m.Order[k] = inv[n.Order[k]]
		}
	}
	return m
}

// utilSets enumerates lists of at most max utilities by their (non-empty) parent sets.
func utilSets(n, max int, f func(u [][]int)) {
	subs := [][]int{}
	subsets(seq(n), func(s []int) {
		if len(s) > 0 {
			subs = append(subs, s)
		}
	})
	for k := 1; k <= max; k++ {
		dims := rep(len(subs), k)
		product(dims, func(x []int) {
			u := make([][]int, k)
			for i := range u {
				u[i] = subs[x[i]]
			}
			f(u)
		})
	}
}

// decisionStructures enumerates all networks of n active variables (all DAGs, all types with at
// least minDec decisions) and at most maxUtil utilities.
func decisionStructures(n, minDec, maxUtil int, f func(par [][]int, types []int, utils [][]int)) {
	dags(n, func(par [][]int) {
		product(rep(2, n), func(types []int) {
			d := 0
			for _, t := range types {
				d += t
			}
			if d < minDec {
				return
			}
			utilSets(n, maxUtil, func(u [][]int) { f(par, types, u) })
		})
	})
}

func (n *Net) decisions() []int {
	r := []int{}
	for i, v := range n.Vars {
		if v.Type == decision {
			r = append(r, i)
		}
	}
	return r
}

func (n *Net) actives() []int {
	r := []int{}
	for i, v := range n.Vars {
		if v.Type != utility {
			r = append(r, i)
		}
	}
	return r
}

func (n *Net) utils() []int {
	tot := n.total()
	r := []int{}
	for i, v := range n.Vars {
		if v.Type == utility && i != tot {
			r = append(r, i)
		}
	}
	return r
}

// ancestors of variable i.
func (n *Net) ancestors(i int) []int {
	seen := make([]bool, len(n.Vars))
	var visit func(k int)
	visit = func(k int) {
		for _, g := range n.Vars[k].Given {
			if !seen[g] {
				seen[g] = true
				visit(g)
			}
		}
	}
	visit(i)
	r := []int{}
	for k, s := range seen {
		if s {
			r = append(r, k)
		}
	}
	return r
}

func noEv(n *Net) []int { return rep(-1, len(n.Vars)) }
