package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&Check{ID: "C13", Run: runC13,
		Rule:   "from valid base networks, every single and every pair of mutations from an alphabet of faults (names, parents, types, outcomes, tables, values, logic operators and arguments, fields, XML definitions, factor lists) at every site, as constructor arguments, YAML and BIF-XML, judged by an independent validator (must be refused / must be accepted / either); and every truncation, line removal, line duplication and character replacement of small network files. Whatever is accepted is queried, solved, trained and saved.",
		Assume: []string{"tables fit into memory", "rows of unequal length whose total size fits are unspecified"},
	})
}

// vdoc is a variable as written down, valid or not.
type vdoc struct {
	name, typ string
	given     []string
	outs      []string
	table     []float64
	noTable   bool
	logic     string
	extra     string // additional field
	pos       string
	noDef     bool     // XML: no definition, constructor: no factor
	defs      []string // XML: additional definitions, constructor: additional factors, for these variables
	badNum    bool
}

type doc struct {
	vars  []vdoc
	extra string
	what  []string
}

func docOf(n *Net) *doc {
	d := &doc{}
	for _, v := range n.Vars {
		d.vars = append(d.vars, vdoc{name: v.Name, typ: []string{"", "decision", "utility"}[v.Type], given: n.names(v.Given), outs: append([]string{}, v.Out...), table: append([]float64{}, v.Table...), noTable: v.Table == nil})
	}
	return d
}

func (d *doc) clone() *doc {
	c := *d
	c.vars = append([]vdoc{}, d.vars...)
	for i := range c.vars {
		v := &c.vars[i]
		v.given = append([]string{}, v.given...)
		v.outs = append([]string{}, v.outs...)
		v.table = append([]float64{}, v.table...)
		v.defs = append([]string{}, v.defs...)
	}
	c.what = append([]string{}, d.what...)
	return &c
}

const (
	viaNew = iota
	viaYAML
	viaXML
)

// verdict of the independent validator: 1 must be accepted, 0 must be refused, -1 either.
func (d *doc) verdict(via int) (int, string) {
	either := ""
	names := map[string]int{}
	for i, v := range d.vars {
		if _, ok := names[v.name]; ok {
			return 0, "duplicate variable"
		}
		names[v.name] = i
	}
	types := make([]int, len(d.vars))
	for i, v := range d.vars {
		switch v.typ {
		case "", "nature":
		case "decision":
			types[i] = decision
		case "utility":
			types[i] = utility
		default:
			return 0, "unknown type"
		}
		if v.extra != "" && via == viaYAML {
			return 0, "unknown field"
		}
		if via == viaXML && v.noDef {
			found := false
			for _, w := range d.vars {
				for _, x := range w.defs {
					found = found || x == v.name
				}
			}
			if !found {
				return 0, "missing definition"
			}
		}
		if v.pos != "" && via != viaNew {
			either = "position"
		}
		if len(v.outs) == 0 {
			either = "no outcomes"
		}
		for a := range v.outs {
			for b := 0; b < a; b++ {
				if v.outs[a] == v.outs[b] {
					either = "equal outcomes"
				}
			}
		}
	}
	if d.extra != "" && via == viaYAML {
		return 0, "unknown field"
	}
	for _, v := range d.vars {
		if len(v.defs) > 0 && via != viaYAML {
			return -1, "additional definitions" // it is open which one counts
		}
	}
	for _, v := range d.vars {
		if v.badNum && via == viaXML && !v.noTable {
			return 0, "bad number"
		}
	}
	dropped := func(i int) bool { return via == viaNew && d.vars[i].noDef }
	par := make([][]int, len(d.vars))
	for i, v := range d.vars {
		if dropped(i) {
			either = "no factor"
			continue
		}
		for k, g := range v.given {
			p, ok := names[g]
			if !ok {
				return 0, "unknown parent"
			}
			for _, h := range v.given[:k] {
				if h == g {
					return 0, "repeated parent"
				}
			}
			par[i] = append(par[i], p)
		}
	}
	if !acyclic(par) {
		return 0, "cycle"
	}
	total := -1
	for i, v := range d.vars {
		if types[i] != utility {
			for _, p := range par[i] {
				if types[p] == utility {
					return 0, "utility as parent"
				}
			}
			continue
		}
		nu := 0
		for _, p := range par[i] {
			if types[p] == utility {
				nu++
			}
		}
		if len(par[i]) == 0 {
			return 0, "utility without parents"
		}
		if nu > 0 && nu < len(par[i]) {
			return 0, "utility with mixed parents"
		}
		if nu > 0 {
			if total >= 0 {
				return 0, "two total utilities"
			}
			if len(v.outs) != len(par[i]) {
				return 0, "weights do not match"
			}
			total = i
		} else if len(v.outs) != 1 {
			either = "utility with several outcomes"
		}
	}
	if total >= 0 {
		for i := range d.vars {
			if types[i] == utility && i != total && !has(par[total], i) {
				return 0, "utility without weight"
			}
		}
	}
	for i, v := range d.vars {
		if dropped(i) {
			continue
		}
		size := len(v.outs)
		for _, p := range par[i] {
			if i != total {
				size *= len(d.vars[p].outs)
			}
		}
		if v.logic != "" && via == viaYAML {
			parts := strings.Split(v.logic, " ")
			op := findOp(strings.ToLower(parts[0]))
			if op == nil {
				return 0, "unknown operator"
			}
			args := []int{}
			for _, p := range parts[1:] {
				a, err := strconv.Atoi(p)
				if err != nil {
					if strings.TrimSpace(p) == "" {
						either = "white space in logic"
						continue
					}
					return 0, "bad argument"
				}
				args = append(args, a)
			}
			if !v.noTable && len(v.table) > 0 {
				return 0, "table and logic"
			}
			if either != "" {
				continue
			}
			switch op.valid(len(v.given), args) {
			case 0:
				return 0, "arguments do not fit"
			case -1:
				either = "logic"
				continue
			}
			want := op.cols(len(v.given))
			pa := op.parentArity(args)
			for _, p := range par[i] {
				want *= pa
				if len(d.vars[p].outs) != pa {
					either = "parents not of the expected size"
				}
			}
			if op.cols(len(v.given)) != len(v.outs) {
				either = "outcomes not of the expected number"
			}
			if want != size {
				return 0, "logic table does not fit"
			}
			continue
		}
		if v.noTable {
			if i == total {
				return 0, "no weights"
			}
			if types[i] == utility || types[i] == chance {
				either = "no table"
			}
			continue
		}
		if len(v.table) == 0 && i != total {
			either = "empty table"
			continue
		}
		if len(v.table) != size {
			return 0, "wrong table size"
		}
		if len(v.outs) == 0 || (via == viaYAML && len(v.table)%len(v.outs) != 0) {
			either = "ragged"
		}
		for r := 0; r < len(v.table); r++ {
			if math.IsNaN(v.table[r]) || math.IsInf(v.table[r], 0) || (types[i] != utility && v.table[r] < 0) {
				either = "strange values"
			}
		}
		if types[i] == chance {
			for r := 0; r < len(v.table); r += len(v.outs) {
				s := 0.0
				for _, x := range v.table[r : r+len(v.outs)] {
					s += x
				}
				if !(s > 0) {
					either = "strange values"
				}
			}
		}
	}
	if len(d.vars) == 0 {
		either = "empty"
	}
	if either != "" {
		return -1, either
	}
	return 1, ""
}

func yamlFloat(v float64) string {
	switch {
	case math.IsNaN(v):
		return ".nan"
	case math.IsInf(v, 1):
		return ".inf"
	case math.IsInf(v, -1):
		return "-.inf"
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

func (d *doc) yaml() string {
	b := strings.Builder{}
	b.WriteString("name: n\n" + d.extra)
	q := func(l []string) string {
		r := []string{}
		for _, s := range l {
			r = append(r, strconv.Quote(s))
		}
		return "[" + strings.Join(r, ", ") + "]"
	}
	b.WriteString("variables:\n")
	if len(d.vars) == 0 {
		b.WriteString("  []\n")
	}
	for _, v := range d.vars {
		fmt.Fprintf(&b, "- variable: %q\n  outcomes: %s\n", v.name, q(v.outs))
		if v.typ != "" {
			fmt.Fprintf(&b, "  type: %q\n", v.typ)
		}
		if len(v.given) > 0 {
			fmt.Fprintf(&b, "  given: %s\n", q(v.given))
		}
		if v.logic != "" {
			fmt.Fprintf(&b, "  logic: %q\n", v.logic)
		}
		if v.pos != "" {
			fmt.Fprintf(&b, "  position: %s\n", v.pos)
		}
		if v.extra != "" {
			fmt.Fprintf(&b, "  %s\n", v.extra)
		}
		if !v.noTable {
			b.WriteString("  table: [")
			c := len(v.outs)
			if c == 0 {
				c = 1
			}
			for r := 0; r < len(v.table); r += c {
				if r > 0 {
					b.WriteString(", ")
				}
				row := []string{}
				for k := r; k < r+c && k < len(v.table); k++ {
					row = append(row, yamlFloat(v.table[k]))
				}
				b.WriteString("[" + strings.Join(row, ", ") + "]")
			}
			b.WriteString("]\n")
		}
	}
	return b.String()
}

func (d *doc) xml() string {
	b := strings.Builder{}
	b.WriteString("<BIF><NETWORK><NAME>n</NAME>\n")
	for _, v := range d.vars {
		tp := ""
		if v.typ != "" {
			tp = fmt.Sprintf(" TYPE=%q", v.typ)
		}
		fmt.Fprintf(&b, "<VARIABLE%s><NAME>%s</NAME>", tp, xmlEsc(v.name))
		for _, o := range v.outs {
			fmt.Fprintf(&b, "<OUTCOME>%s</OUTCOME>", xmlEsc(o))
		}
		if v.pos != "" {
			fmt.Fprintf(&b, "<PROPERTY>position = %s</PROPERTY>", v.pos)
		}
		b.WriteString("</VARIABLE>\n")
	}
	def := func(v vdoc, name string) {
		fmt.Fprintf(&b, "<DEFINITION><FOR>%s</FOR>", xmlEsc(name))
		for _, g := range v.given {
			fmt.Fprintf(&b, "<GIVEN>%s</GIVEN>", xmlEsc(g))
		}
		if !v.noTable {
			b.WriteString("<TABLE>")
			for i, x := range v.table {
				if i == 0 && v.badNum {
					b.WriteString("zero,5 ")
					continue
				}
				fmt.Fprintf(&b, "%g ", x)
			}
			if v.badNum && len(v.table) == 0 {
				b.WriteString("x")
			}
			b.WriteString("</TABLE>")
		}
		b.WriteString("</DEFINITION>\n")
	}
	for _, v := range d.vars {
		if !v.noDef {
			def(v, v.name)
		}
		for _, x := range v.defs {
			def(v, x)
		}
	}
	b.WriteString("</NETWORK></BIF>\n")
	return b.String()
}

func (d *doc) create() (*bbn.Network, error) {
	vars := []bbn.Variable{}
	facs := []bbn.Factor{}
	for _, v := range d.vars {
		tp := ve.ChanceNode
		switch v.typ {
		case "decision":
			tp = ve.DecisionNode
		case "utility":
			tp = ve.UtilityNode
		}
		vars = append(vars, bbn.Variable{Name: v.name, NodeType: tp, Outcomes: append([]string{}, v.outs...)})
		mk := func(name string) {
			f := bbn.Factor{For: name, Given: append([]string{}, v.given...)}
			if !v.noTable {
				f.Table = append([]float64{}, v.table...)
			}
			facs = append(facs, f)
		}
		if !v.noDef {
			mk(v.name)
		}
		for _, x := range v.defs {
			mk(x)
		}
	}
	return bbn.New("n", "", vars, facs)
}

// exercise uses an accepted network; it must not crash.
func exercise(t *T, real *bbn.Network) {
	vars := real.Variables()
	us := []string{}
	act := []bbn.Variable{}
	size := 1.0
	for _, v := range vars {
		if v.NodeType == ve.UtilityNode {
			us = append(us, v.Name)
		} else {
			act = append(act, v)
			size *= float64(len(v.Outcomes))
		}
	}
	var err error
	must := func(err error) {
		if err != nil {
			t.Failf("accepted network can't be queried: %v", err)
		}
	}
	use := func() {
		for _, ignore := range []bool{false, true} {
			_, _, err = real.SolveQuery(nil, nil, ignore)
			must(err)
			for _, v := range act {
				_, _, err = real.SolveQuery(nil, []string{v.Name}, ignore)
				must(err)
				for _, w := range act {
					_, _, err = real.SolveQuery(map[string]string{w.Name: w.Outcomes[len(w.Outcomes)-1]}, []string{v.Name}, ignore)
					must(err)
				}
				t.c.Transitions++
			}
			if len(us) > 0 {
				_, err = real.SolveUtility(nil, nil, "", ignore)
				must(err)
				for _, w := range act {
					_, err = real.SolveUtility(map[string]string{w.Name: w.Outcomes[0]}, nil, "", ignore)
					must(err)
				}
				for _, u := range us {
					if i := real.TotalUtilityIndex(); i >= 0 && u == vars[i].Name {
						continue // the total is not asked for by name
					}
					_, err = real.SolveUtility(nil, nil, u, ignore)
					must(err)
				}
				if len(act) > 0 {
					_, err = real.SolveUtility(nil, []string{act[0].Name}, "", ignore)
					must(err)
				}
				t.c.Transitions++
			}
		}
	}
	use()
	if _, err := real.SolvePolicies(true); err == nil {
		use()
	}
	if _, err := real.SolvePolicies(false); err == nil {
		use()
	}
	for _, v := range vars {
		for _, o := range append([]string{"nope"}, v.Outcomes...) {
			_, _ = real.ToEvidence(v.Name, o)
		}
	}
	y, err := bbn.ToYAML(real)
	if err == nil {
		if _, err := bbn.FromYAML(y); err != nil && !strings.Contains(string(y), "outcomes: []") {
			// an accepted network can be saved and loaded again
			t.Failf("accepted network can't be loaded after saving: %v\n%s", err, trunc(string(y), 1500))
		}
	}
	for full := 0; full < 2; full++ {
		tr := bbn.NewTrainer(real)
		sample := make([]int, len(vars))
		ut := make([]float64, len(vars))
		if full == 1 && size <= 256 {
			dims := []int{}
			for _, v := range vars {
				if v.NodeType == ve.UtilityNode {
					dims = append(dims, 1)
				} else {
					dims = append(dims, len(v.Outcomes))
				}
			}
			product(dims, func(x []int) { tr.AddSample(x, ut) })
		} else {
			tr.AddSample(sample, ut)
			if len(sample) > 0 {
				sample[0] = -1
				tr.AddSample(sample, ut)
			}
		}
		_, _ = tr.UpdateNetwork()
	}
	use()
	_, _ = real.SolvePolicies(true)
	_, _ = bbn.ToYAML(real)
	t.c.Traces++
}

type mutation struct {
	what string
	f    func(d *doc) bool // false: not applicable
}

// core mutations are combined in pairs in the quick tier.
func (m *mutation) core() bool {
	for _, s := range []string{": logic", ": value", ": all values", ": field", ": position", "field ", ": type x", ": type 0", ": type 2", ": type N", ": type U", ": type decision ", ": bad number", ": insert parent", ": rename to nope", ": equal outcomes"} {
		if strings.Contains(m.what, s) || strings.HasPrefix(m.what, s) {
			return false
		}
	}
	return true
}

func mutations(base *doc) []mutation {
	r := []mutation{}
	names := []string{}
	for _, v := range base.vars {
		names = append(names, v.name)
	}
	add := func(what string, f func(d *doc) bool) { r = append(r, mutation{what, f}) }
	for i := range base.vars {
		onv := func(what string, f func(v *vdoc) bool) {
			add(fmt.Sprintf("%s: %s", names[i], what), func(d *doc) bool {
				if i >= len(d.vars) {
					return false
				}
				return f(&d.vars[i])
			})
		}
		for _, nn := range append([]string{"", "nope"}, names...) {
			if nn != names[i] {
				onv("rename to "+nn, func(v *vdoc) bool { v.name = nn; return true })
			}
			onv("add parent "+nn, func(v *vdoc) bool { v.given = append(v.given, nn); return true })
			onv("insert parent "+nn+" and its rows", func(v *vdoc) bool {
				v.given = append([]string{nn}, v.given...)
				v.table = append(v.table, v.table...)
				return true
			})
			onv("replace parents by "+nn, func(v *vdoc) bool { v.given = []string{nn}; return true })
		}
		add("remove "+names[i], func(d *doc) bool {
			if i >= len(d.vars) {
				return false
			}
			d.vars = append(append([]vdoc{}, d.vars[:i]...), d.vars[i+1:]...)
			return true
		})
		add("repeat "+names[i], func(d *doc) bool {
			if i >= len(d.vars) {
				return false
			}
			d.vars = append(d.vars, d.clone().vars[i])
			return true
		})
		onv("remove first parent", func(v *vdoc) bool {
			if len(v.given) == 0 {
				return false
			}
			v.given = v.given[1:]
			return true
		})
		onv("no parents", func(v *vdoc) bool { v.given = nil; return true })
		onv("parents reversed", func(v *vdoc) bool {
			if len(v.given) < 2 {
				return false
			}
			v.given[0], v.given[len(v.given)-1] = v.given[len(v.given)-1], v.given[0]
			return true
		})
		for _, tp := range []string{"", "nature", "decision", "utility", "chance", "Utility", "Nature", "decision ", "x", "0", "2"} {
			onv("type "+tp, func(v *vdoc) bool { v.typ = tp; return true })
		}
		onv("no outcomes", func(v *vdoc) bool { v.outs = nil; return true })
		onv("one outcome less", func(v *vdoc) bool {
			if len(v.outs) == 0 {
				return false
			}
			v.outs = v.outs[1:]
			return true
		})
		onv("one outcome more", func(v *vdoc) bool { v.outs = append(v.outs, "more"); return true })
		onv("equal outcomes", func(v *vdoc) bool {
			if len(v.outs) < 2 {
				return false
			}
			v.outs[1] = v.outs[0]
			return true
		})
		onv("no table", func(v *vdoc) bool { v.noTable = true; return true })
		onv("a table", func(v *vdoc) bool { v.noTable = false; v.table = []float64{1, 2, 3, 4}; return true })
		onv("empty table", func(v *vdoc) bool { v.noTable = false; v.table = nil; return true })
		onv("one value less", func(v *vdoc) bool {
			if len(v.table) == 0 {
				return false
			}
			v.table = v.table[1:]
			return true
		})
		onv("one value more", func(v *vdoc) bool { v.table = append(v.table, 1); return true })
		onv("one row less", func(v *vdoc) bool {
			if len(v.table) < len(v.outs) {
				return false
			}
			v.table = v.table[len(v.outs):]
			return true
		})
		onv("one row more", func(v *vdoc) bool {
			for range v.outs {
				v.table = append(v.table, 1)
			}
			return true
		})
		onv("table twice as long", func(v *vdoc) bool { v.table = append(v.table, v.table...); return true })
		for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), -1, 0, 1e308, 5e-324} {
			onv(fmt.Sprintf("value %g", x), func(v *vdoc) bool {
				if len(v.table) == 0 {
					return false
				}
				v.table[0] = x
				return true
			})
			onv(fmt.Sprintf("all values %g", x), func(v *vdoc) bool {
				for k := range v.table {
					v.table[k] = x
				}
				return true
			})
		}
		for _, l := range []string{"and", "not", "AND", "Not", "nope", " and", "and ", "and 1", "and x", "count-is", "count-is 1", "count-is x", "count-is 1 2", "count-is 1.5", "count-is 99999999999999999999", "given 0", "given 1", "given 5", "given -1", "given", "given-not 1", "given-excl 7", "given-excl -3", "outcome-is 0 2", "outcome-is 3 2", "outcome-is 2 2", "outcome-is -1 2", "outcome-is 0 0", "outcome-is 0 -2", "outcome-is 0", "outcome-is-not 2 2", "outcome-is-not 4 3", "outcome-either 0 1 2", "outcome-either 2 2", "outcome-either 5 -1 2", "outcome-either 2", "outcome-either", "outcome-less 3 2", "outcome-less 1 2", "outcome-less -1 2", "outcome-greater 3 2", "outcome-greater -1 2", "outcome-greater 1 2", "bits", "bits 1", "count-true", "count-false", "count-true 2", "if-then", "if-then 1", "xor"} {
			onv("logic '"+l+"'", func(v *vdoc) bool { v.logic = l; v.noTable = true; return true })
		}
		onv("logic and table", func(v *vdoc) bool { v.logic = "not"; return true })
		for _, l := range []string{"not", "and", "bits", "count-is 1", "outcome-is 0 2"} {
			onv("logic "+l+" and a table of one row", func(v *vdoc) bool {
				v.logic = l
				v.table = make([]float64, len(v.outs))
				for k := range v.table {
					v.table[k] = float64(k + 1)
				}
				return true
			})
			onv("logic "+l+" and the table", func(v *vdoc) bool { v.logic = l; return true })
		}
		for _, x := range []string{"nope: 1", "Table: [[1]]", "tables: []", "states: [a]", "name: x", "parents: [a]", "outcome: [a, b]"} {
			onv("field "+x, func(v *vdoc) bool { v.extra = x; return true })
		}
		for _, p := range []string{"[1]", "[1, 2, 3]", "[a, b]", "(1, 2)", "1", "[-5, -6]", "(1,2,3)", "(a, b)", "()", "[]", "[1.5, 2]"} {
			onv("position "+p, func(v *vdoc) bool { v.pos = p; return true })
		}
		onv("no definition", func(v *vdoc) bool { v.noDef = true; return true })
		onv("bad number", func(v *vdoc) bool { v.badNum = true; return true })
		for _, nn := range append([]string{"nope", ""}, names...) {
			onv("another definition for "+nn, func(v *vdoc) bool { v.defs = append(v.defs, nn); return true })
		}
		for j := range base.vars {
			if j != i {
				add(fmt.Sprintf("exchange %s and %s", names[i], names[j]), func(d *doc) bool {
					if i >= len(d.vars) || j >= len(d.vars) {
						return false
					}
					d.vars[i], d.vars[j] = d.vars[j], d.vars[i]
					return true
				})
			}
		}
	}
	for _, x := range []string{"nope: 1\n", "Info: x\n", "version: 2\n", "variable: x\n"} {
		add("field "+strings.TrimSpace(x), func(d *doc) bool { d.extra = x; return true })
	}
	add("no variables", func(d *doc) bool { d.vars = nil; return true })
	return r
}

func malformedBases() []*Net {
	return []*Net{
		withTotal(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{1, 0}, {0}}, 0, 7), []float64{2, 0.5}, true, -1),
		chanceNet([][]int{{}, {0}, {0, 1}}, []int{2, 2, 2}, 5),
		decNet([][]int{{}, {0}, {1}}, []int{decision, chance, decision}, []int{2, 2, 2}, [][]int{{2, 1}}, 0, 6),
		chanceNet([][]int{{}, {0}}, []int{2, 3}, 5),
		chanceNet([][]int{{}}, []int{2}, 5),
		decNet([][]int{{}, {0}}, []int{chance, decision}, []int{3, 2}, [][]int{{0, 1}}, 0, 6),
	}
}

func runC13(c *Ctx) {
	judge := func(t *T, d *doc, via int, real *bbn.Network, err error, text string) {
		t.c.Transitions++
		t.c.States++
		v, why := d.verdict(via)
		if err != nil {
			if real != nil {
				t.Failf("network in addition to the error %v", err)
			}
			if v == 1 {
				t.Failf("valid network refused: %v\n%s", err, text)
			}
			t.Outcome(uint64(len(err.Error())))
			return
		}
		if v == 0 {
			t.Failf("accepted, although %s\n%s", why, text)
		}
		exercise(t, real)
	}
	try := func(t *T, d *doc) {
		real, err := d.create()
		// types can't be unknown here
		ok := true
		for _, v := range d.vars {
			if v.typ != "" && v.typ != "nature" && v.typ != "decision" && v.typ != "utility" {
				ok = false
			}
		}
		if ok {
			judge(t, d, viaNew, real, err, "constructor arguments")
		} else if err == nil {
			exercise(t, real)
		}
		y := d.yaml()
		real, err = bbn.FromYAML([]byte(y))
		judge(t, d, viaYAML, real, err, y)
		x := d.xml()
		real, err = bbn.FromBIFXML([]byte(x))
		judge(t, d, viaXML, real, err, x)
	}
	// files are judged like their content
	files := func(t *T, d *doc) {
		dir := scratch()
		defer os.RemoveAll(dir)
		for _, text := range []struct {
			name, s string
			via     int
		}{{"n.yml", d.yaml(), viaYAML}, {"n.xml", d.xml(), viaXML}, {"n.BIFXML", d.xml(), viaXML}} {
			path := filepath.Join(dir, text.name)
			if err := os.WriteFile(path, []byte(text.s), 0o644); err != nil {
				panic(err)
			}
			real, err := bbn.FromFile(path)
			if err == nil && real == nil {
				t.Failf("%s: neither a network nor an error\n%s", text.name, text.s)
			}
			judge(t, d, text.via, real, err, text.name+":\n"+text.s)
		}
	}
	for bi, n := range malformedBases() {
		base := docOf(n)
		ms := mutations(base)
		c.Case(func() string { return "base " + n.String() }, func(t *T) { try(t, base.clone()) })
		for i, m := range ms {
			c.Case(func() string { return n.String() + "\n" + m.what }, func(t *T) {
				d := base.clone()
				if m.f(d) {
					try(t, d)
					files(t, d)
				}
			})
			if !c.Thorough && (bi > 2 || !m.core()) {
				continue
			}
			c.Case(func() string { return n.String() + "\n" + m.what + ", and each other" }, func(t *T) {
				for j, m2 := range ms {
					if !c.Thorough && (!m2.core() || j < i) {
						continue
					}
					d := base.clone()
					if m.f(d) && m2.f(d) {
						func() {
							defer func() {
								if r := recover(); r != nil {
									if f, ok := r.(failPanic); ok {
										panic(failPanic{"and " + m2.what + ": " + f.msg, f.key})
									}
									if _, ok := r.(stopPanic); ok {
										panic(r)
									}
									t.Failf("and %s: panic: %v\n%s\n%s", m2.what, r, shortStack(), d.yaml())
								}
							}()
							try(t, d)
						}()
					}
				}
			})
		}
	}
	// sizes
	for _, k := range []int{65535, 65536, 65537, 131072} {
		c.Case(func() string { return fmt.Sprintf("%d outcomes", k) }, func(t *T) {
			n := &Net{Name: "n", Vars: []NV{{Name: "v", Out: outs(k)}, {Name: "w", Out: outs(2)}}}
			n.Vars[0].Table = genericTable(k, 1)
			n.Vars[1].Table = genericTable(2, 1)
			real, err := n.build()
			t.c.States++
			if err != nil {
				if real != nil {
					t.Failf("network in addition to the error %v", err)
				}
				return
			}
			for _, v := range n.Vars {
				if _, _, err := real.SolveQuery(nil, []string{v.Name}, false); err != nil {
					t.Failf("%v", err)
				}
			}
			_, _, _ = real.SolveQuery(map[string]string{"v": n.Vars[0].Out[k-1]}, []string{"w"}, false)
			_, _ = real.SolvePolicies(true)
		})
	}
	// texts
	texts := []string{}
	kinds := []bool{}
	small := []*Net{malformedBases()[0], malformedBases()[3]}
	for _, n := range small {
		n.Info = "info text"
		n.Vars[0].Color = "red"
		n.Vars[0].Pos = [2]int{3, 4}
		texts = append(texts, writeYAML(n))
		kinds = append(kinds, false)
		st := xmlStyle{sep: " ", pos: "position = (%d, %d)", px: rep(4, len(n.Vars)), py: rep(24, len(n.Vars)), head: "<?xml version=\"1.0\"?>\n"}
		texts = append(texts, writeXML(n, st))
		kinds = append(kinds, true)
	}
	texts = append(texts, logicFile(findOp("outcome-is"), "outcome-is", 1, []int{1, 3}), logicFile(findOp("given-excl"), "given-excl", 3, []int{1}))
	kinds = append(kinds, false, false)
	limit := 0
	if c.Thorough {
		limit = 6000
	}
	for _, f := range exampleFiles() {
		b, err := os.ReadFile(f)
		if err == nil && len(b) <= limit {
			texts = append(texts, string(b))
			kinds = append(kinds, strings.HasSuffix(f, "xml"))
		}
	}
	chars := []string{"", "\x00", "\n", " ", "\t", ":", "-", "[", "]", ",", "{", "}", "\"", "'", "#", "&", "*", "!", "|", ">", "<", "/", "0", "9", ".", "e", "a", "\xff", "=", "%", ";"}
	for k, text := range texts {
		load := func(t *T, s string) {
			t.c.States++
			t.c.Transitions++
			var real *bbn.Network
			var err error
			if kinds[k] {
				real, err = bbn.FromBIFXML([]byte(s))
			} else {
				real, err = bbn.FromYAML([]byte(s))
			}
			if err != nil {
				t.Outcome(uint64(len(err.Error())))
				return
			}
			total := 0
			size := 1.0
			for _, v := range real.Variables() {
				total += len(v.Factor.Table)
				if v.NodeType != ve.UtilityNode {
					size *= float64(len(v.Outcomes))
				}
			}
			if size > 5000 && !c.Thorough {
				return
			}
			exercise(t, real)
		}
		guard := func(t *T, what string, s string) {
			defer func() {
				if r := recover(); r != nil {
					if f, ok := r.(failPanic); ok {
						panic(failPanic{what + ": " + f.msg, f.key})
					}
					if _, ok := r.(stopPanic); ok {
						panic(r)
					}
					t.Failf("%s: panic: %v\n%s\n%s", what, r, shortStack(), trunc(s, 2000))
				}
			}()
			load(t, s)
		}
		for i := 0; i <= len(text); i++ {
			c.Case(func() string { return fmt.Sprintf("text %d, changes at character %d\n%s", k, i, trunc(text, 2000)) }, func(t *T) {
				guard(t, "truncated", text[:i])
				if i == len(text) {
					return
				}
				guard(t, "beginning removed", text[i:])
				for _, ch := range chars {
					guard(t, fmt.Sprintf("replaced by %q", ch), text[:i]+ch+text[i+1:])
					if ch != "" {
						guard(t, fmt.Sprintf("inserted %q", ch), text[:i]+ch+text[i:])
					}
				}
				if i+1 < len(text) {
					guard(t, "exchanged", text[:i]+text[i+1:i+2]+text[i:i+1]+text[i+2:])
				}
			})
		}
		lines := strings.SplitAfter(text, "\n")
		for i := range lines {
			c.Case(func() string { return fmt.Sprintf("text %d, changes of line %d\n%s", k, i, trunc(text, 2000)) }, func(t *T) {
				for j := range lines {
					l := append([]string{}, lines...)
					l[i], l[j] = l[j], l[i]
					guard(t, fmt.Sprintf("exchanged with line %d", j), strings.Join(l, ""))
					l = append([]string{}, lines...)
					l[i] = ""
					if i != j {
						l[j] = ""
						guard(t, fmt.Sprintf("removed with line %d", j), strings.Join(l, ""))
						l[j] = lines[i] + lines[j]
						guard(t, fmt.Sprintf("moved to line %d", j), strings.Join(l, ""))
						l[i] = lines[i]
						guard(t, fmt.Sprintf("copied to line %d", j), strings.Join(l, ""))
					}
				}
			})
		}
	}
}
