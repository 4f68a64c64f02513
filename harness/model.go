package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

// ---------------------------------------------------------------------------
// Reference model: a network as a list of variables with parent indices and
// flat tables, and answers by enumeration of all joint assignments.

const (
	chance = iota
	decision
	utility
)

// NV is a variable of the model.
type NV struct {
	Name  string
	Type  int
	Out   []string
	Given []int
	Table []float64
	Pos   [2]int
	Color string
}

// Net is a network of the model.
type Net struct {
	Name, Info string
	Vars       []NV
	Order      []int // order of factors (nil: order of variables)
}

var outNames = []string{"a", "b", "c", "d", "e", "f", "g", "h"}

func outs(n int) []string {
	if n <= len(outNames) {
		return outNames[:n:n]
	}
	r := make([]string, n)
	for i := range r {
		r[i] = fmt.Sprintf("o%d", i)
	}
	return r
}

func (n *Net) total() int {
	for i, v := range n.Vars {
		if v.Type == utility && len(v.Given) > 0 && n.Vars[v.Given[0]].Type == utility {
			return i
		}
	}
	return -1
}

func (n *Net) arity(i int) int { return len(n.Vars[i].Out) }

func (n *Net) size(i int) int {
	s := len(n.Vars[i].Out)
	for _, g := range n.Vars[i].Given {
		s *= len(n.Vars[g].Out)
	}
	return s
}

// clone makes a deep copy.
func (n *Net) clone() *Net {
	c := *n
	c.Vars = make([]NV, len(n.Vars))
	for i, v := range n.Vars {
		v.Out = append([]string{}, v.Out...)
		v.Given = append([]int{}, v.Given...)
		if v.Table != nil {
			v.Table = append([]float64{}, v.Table...)
		}
		c.Vars[i] = v
	}
	c.Order = append([]int{}, n.Order...)
	if n.Order == nil {
		c.Order = nil
	}
	return &c
}

func (n *Net) String() string {
	b := strings.Builder{}
	for i, v := range n.Vars {
		g := []string{}
		for _, p := range v.Given {
			g = append(g, n.Vars[p].Name)
		}
		t := fmt.Sprint(v.Table)
		if len(t) > 300 {
			t = t[:300] + "..."
		}
		o := fmt.Sprint(v.Out)
		if len(o) > 100 {
			o = fmt.Sprintf("%d outcomes", len(v.Out))
		}
		if i > 0 {
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, "%s %s %s | %s = %s", []string{"chance", "decision", "utility"}[v.Type], v.Name, o, strings.Join(g, ","), t)
		if i > 14 {
			fmt.Fprintf(&b, "; ... %d variables", len(n.Vars))
			break
		}
	}
	if n.Order != nil {
		fmt.Fprintf(&b, "; factor order %v", n.Order)
	}
	return b.String()
}

// definition returns the arguments for bbn.New.
func (n *Net) definition() ([]bbn.Variable, []bbn.Factor) {
	vars := make([]bbn.Variable, len(n.Vars))
	facs := make([]bbn.Factor, 0, len(n.Vars))
	for i, v := range n.Vars {
		vars[i] = bbn.Variable{Name: v.Name, NodeType: ve.NodeType(v.Type), Outcomes: append([]string{}, v.Out...), Position: v.Pos, Color: v.Color}
	}
	order := n.Order
	if order == nil {
		order = make([]int, len(n.Vars))
		for i := range order {
			order[i] = i
		}
	}
	for _, i := range order {
		v := n.Vars[i]
		var given []string
		for _, g := range v.Given {
			given = append(given, n.Vars[g].Name)
		}
		var table []float64
		if v.Table != nil {
			table = append([]float64{}, v.Table...)
		}
		facs = append(facs, bbn.Factor{For: v.Name, Given: given, Table: table})
	}
	return vars, facs
}

// build creates the real network.
func (n *Net) build() (*bbn.Network, error) {
	vars, facs := n.definition()
	return bbn.New(n.Name, n.Info, vars, facs)
}

func (n *Net) mustBuild(t *T) *bbn.Network {
	net, err := n.build()
	if err != nil {
		t.Failf("valid network refused: %v", err)
	}
	return net
}

func (n *Net) index(name string) int {
	for i, v := range n.Vars {
		if v.Name == name {
			return i
		}
	}
	return -1
}

// Pol is a decision policy: a table over Scope (variable indices) and the decision (last).
type Pol struct {
	Scope []int
	Table []float64
}

func (n *Net) polFrom(f bbn.Factor) Pol {
	p := Pol{Table: f.Table}
	for _, g := range f.Given {
		p.Scope = append(p.Scope, n.index(g))
	}
	return p
}

// prepared holds normalised tables.
type prepared struct {
	net    *Net
	norm   [][]float64 // chance: normalised rows
	active []int       // chance and decision variables
	strid  [][]int     // stride of each given in the table of variable i
}

func (n *Net) prepare() *prepared {
	p := &prepared{net: n, norm: make([][]float64, len(n.Vars)), strid: make([][]int, len(n.Vars))}
	tot := n.total()
	for i, v := range n.Vars {
		if v.Type != utility {
			p.active = append(p.active, i)
		}
		if i == tot {
			continue
		}
		st := len(v.Out)
		p.strid[i] = make([]int, len(v.Given))
		for k := len(v.Given) - 1; k >= 0; k-- {
			p.strid[i][k] = st
			st *= len(n.Vars[v.Given[k]].Out)
		}
		switch v.Type {
		case chance:
			c := len(v.Out)
			t := make([]float64, st)
			if v.Table != nil {
				copy(t, v.Table)
				for r := 0; r < len(t); r += c {
					s := 0.0
					for k := 0; k < c; k++ {
						s += t[r+k]
					}
					if s != 0 {
						for k := 0; k < c; k++ {
							t[r+k] /= s
						}
					}
				}
			}
			p.norm[i] = t
		case utility:
			t := make([]float64, st)
			copy(t, v.Table)
			p.norm[i] = t
		}
	}
	return p
}

func (p *prepared) cell(i int, x []int, own int) float64 {
	v := &p.net.Vars[i]
	k := own
	for g, par := range v.Given {
		k += x[par] * p.strid[i][g]
	}
	return p.norm[i][k]
}

// prob is the product of all chance tables and the given policies for an assignment.
func (p *prepared) prob(x []int, pols map[int]Pol) float64 {
	w := 1.0
	for _, i := range p.active {
		if p.net.Vars[i].Type == chance {
			w *= p.cell(i, x, x[i])
			if w == 0 {
				return 0
			}
		} else if pol, ok := pols[i]; ok {
			w *= p.polValue(pol, i, x)
			if w == 0 {
				return 0
			}
		}
	}
	return w
}

func (p *prepared) polValue(pol Pol, dec int, x []int) float64 {
	k := 0
	for _, s := range pol.Scope {
		k = k*len(p.net.Vars[s].Out) + x[s]
	}
	return pol.Table[k*len(p.net.Vars[dec].Out)+x[dec]]
}

// util returns the selected utility of an assignment; which = -1 for the (weighted) total.
func (p *prepared) util(x []int, which int) float64 {
	if which >= 0 {
		return p.utilOne(x, which)
	}
	tot := p.net.total()
	s := 0.0
	for i, v := range p.net.Vars {
		if v.Type != utility || i == tot {
			continue
		}
		w := 1.0
		if tot >= 0 {
			for k, g := range p.net.Vars[tot].Given {
				if g == i {
					w = p.net.Vars[tot].Table[k]
				}
			}
		}
		s += w * p.utilOne(x, i)
	}
	return s
}

func (p *prepared) utilOne(x []int, i int) float64 {
	s := 0.0
	for k := range p.net.Vars[i].Out {
		s += p.cell(i, x, k)
	}
	return s
}

// each enumerates all assignments of the active variables compatible with ev (-1: free).
func (p *prepared) each(ev []int, f func(x []int)) {
	x := make([]int, len(p.net.Vars))
	var rec func(k int)
	rec = func(k int) {
		if k == len(p.active) {
			f(x)
			return
		}
		i := p.active[k]
		if ev != nil && ev[i] >= 0 {
			x[i] = ev[i]
			rec(k + 1)
			return
		}
		for o := range p.net.Vars[i].Out {
			x[i] = o
			rec(k + 1)
		}
		x[i] = 0
	}
	rec(0)
}

// scopeIndex is the flat index of an assignment in a table over scope (last fastest).
func (n *Net) scopeIndex(scope []int, x []int) int {
	k := 0
	for _, s := range scope {
		k = k*len(n.Vars[s].Out) + x[s]
	}
	return k
}

func (n *Net) scopeSize(scope []int) int {
	s := 1
	for _, v := range scope {
		s *= len(n.Vars[v].Out)
	}
	return s
}

// joint sums prob*value over all assignments compatible with ev, as table over scope.
func (p *prepared) joint(ev []int, pols map[int]Pol, scope []int, which int, useUtil bool) []float64 {
	res := make([]float64, p.net.scopeSize(scope))
	p.each(ev, func(x []int) {
		w := p.prob(x, pols)
		if w == 0 {
			return
		}
		if useUtil {
			w *= p.util(x, which)
		}
		res[p.net.scopeIndex(scope, x)] += w
	})
	return res
}

func near(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(1e-3, math.Max(math.Abs(a), math.Abs(b)))
}

// nearRel is for sums of products of non-negative numbers.
func nearRel(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-11*math.Max(math.Abs(a), math.Abs(b))
}

func nearAll(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i], b[i]) {
			return false
		}
	}
	return true
}

// evMap converts evidence indices to names.
func (n *Net) evMap(ev []int) map[string]string {
	m := map[string]string{}
	for i, o := range ev {
		if o >= 0 {
			m[n.Vars[i].Name] = n.Vars[i].Out[o]
		}
	}
	return m
}

func (n *Net) names(idx []int) []string {
	r := make([]string, len(idx))
	for i, k := range idx {
		r[i] = n.Vars[k].Name
	}
	return r
}

// factorTable reads a result factor as a table over the given scope, by the ids of its
// variables (the network uses positions as ids). Utility variables in the scope of the
// factor (with a single outcome) are skipped. ok is false if the scopes differ.
func (n *Net) factorTable(f *ve.Factor, scope []int) ([]float64, string) {
	vars := f.Variables()
	pos := []int{}
	ids := []int{}
	seen := map[int]bool{}
	for _, v := range vars {
		id := v.Id()
		if id < 0 || id >= len(n.Vars) {
			return nil, fmt.Sprintf("unknown variable id %d in factor", id)
		}
		if n.Vars[id].Type == utility {
			if len(n.Vars[id].Out) != 1 {
				return nil, "utility variable in factor"
			}
			ids = append(ids, id)
			continue
		}
		if seen[id] {
			return nil, fmt.Sprintf("variable %s twice in factor", n.Vars[id].Name)
		}
		seen[id] = true
		ids = append(ids, id)
		pos = append(pos, id)
	}
	if len(pos) != len(scope) {
		return nil, fmt.Sprintf("factor over %v, expected %v", n.names(pos), n.names(scope))
	}
	for _, s := range scope {
		if !seen[s] {
			return nil, fmt.Sprintf("factor over %v, expected %v", n.names(pos), n.names(scope))
		}
	}
	data := f.Data()
	if len(data) != n.scopeSize(pos) {
		return nil, fmt.Sprintf("factor over %v has %d values", n.names(pos), len(data))
	}
	res := make([]float64, len(data))
	x := make([]int, len(n.Vars))
	for k := range data {
		r := k
		for i := len(ids) - 1; i >= 0; i-- {
			a := len(n.Vars[ids[i]].Out)
			x[ids[i]] = r % a
			r /= a
		}
		res[n.scopeIndex(scope, x)] = data[k]
	}
	return res, ""
}

func hashFloats(h uint64, v []float64) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for _, x := range v {
		h ^= math.Float64bits(math.Round(x*1e6) / 1e6)
		h *= 1099511628211
	}
	return h
}
