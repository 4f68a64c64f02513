package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/mlange-42/bbn"
)

func init() {
	register(&Check{ID: "C11", Run: runC11,
		Rule:   "every string up to the length bound over an alphabet of YAML-relevant characters and every pair of YAML-sensitive words, in every string position (network name, info, variable name, parent reference, outcome, colour); every pair of table values from an alphabet of extreme floats in every table shape; every structure (DAG, parent order, node types, tables present or not, total utility) up to 3 variables; positions, long lists, logic operators, shipped examples. Each network is written, read, compared field by field with the definition, and written again.",
		Assume: []string{"table values are not NaN, and negative zero may come back as zero (numerically equal)"},
	})
	register(&Check{ID: "C12", Run: runC12,
		Rule:   "every network structure up to 3 variables (types, parents, parent orders, tables present or not), written as YAML and as BIF-XML by independent writers; all orders of variables and definitions and their interleaving, all layouts of table text (white space, comments, line breaks), number formats, position formats and values, XML-sensitive names, all file extensions in all cases. The loaded networks are compared field by field, and by their answers.",
		Assume: []string{"names carry no leading or trailing white space"},
	})
}

// roundTrip writes and reads a network, and compares.
func roundTrip(t *T, n *Net, real *bbn.Network) *bbn.Network {
	y, err := bbn.ToYAML(real)
	if err != nil {
		t.Failf("saving: %v", err)
	}
	back, err := bbn.FromYAML(y)
	if err != nil {
		t.Failf("loading the saved network: %v\n%s", err, trunc(string(y), 1500))
	}
	unchanged(t, n, back, "reloaded")
	unchanged(t, n, real, "after saving")
	y2, err := bbn.ToYAML(back)
	if err != nil {
		t.Failf("saving again: %v", err)
	}
	if !bytes.Equal(y, y2) {
		t.Failf("saving again gives another text:\n%s\n---\n%s", trunc(string(y), 1000), trunc(string(y2), 1000))
	}
	t.c.Transitions += 3
	t.c.Traces++
	t.c.States++
	return back
}

var yamlAtoms = []string{"a", " ", "\n", "\t", ":", "#", "-", "'", "\"", "\\", "[", ",", "{", "&", "!", "|", ">", "%", "@", "`", "\r", "\x00", "\x7f", "\u0085", "\u00a0", "\u2028", "\ufeff", "é", "\U0001F600", "\xff", "~", "1", ".", "?", "*", "=", "<", "e", "x", "0", "_", "]", "}", "\x1b", "N", "y"}

var yamlWords = []string{"", " ", "a", "yes", "no", "Yes", "NO", "on", "off", "y", "n", "true", "false", "True", "null", "Null", "NULL", "~", "nil",
	"0", "1", "-1", "+1", "007", "0o7", "0x1F", "0b1", "1_000", "1e3", "1.5", ".5", "5.", "-.inf", ".inf", ".nan", ".NaN", "1:30", "190:20:30", "2001-01-01", "2001-12-14t21:59:43.10-05:00", "<<", "=", "-", "--", "---", "- a", "...", "?", ":", "a:", "a: b", ":a", "#", "# a", "a #b", "a#b", "[a]", "{a: b}", "a, b", "a]", "!!str", "!a", "&a", "*a", "|", ">", "|-", "%a", "@a", "`a", "'", "''", "'a'", "\"", "\"a\"", "\\", "\\n", "a\nb", "a\n", "\na", "\n", "a\n\nb\n\n", " a", "a ", "\ta", "a\t", "a  b", "  a\n b", "a \nb", "\ta\nb", "\u2028\n", "é", "日本", "\U0001F600", "\u200b", "\ufeffa", "\x00", "\x01a", "\xff\xfe", "a\xff", "total", "utility", "Variable", "name: x\nvariables: []", "a very long text " + strings.Repeat("with many words ", 30), strings.Repeat("x", 1100), "https://example.org/?a=b&c=[d]#e", "100%", "1 000", "\r", "a\r\nb", "\r\n"}

func textNet(name, info, v0, o, col, v1 string) *Net {
	return &Net{Name: name, Info: info, Vars: []NV{
		{Name: v0, Out: []string{o, "z" + o}, Table: []float64{1, 2}, Color: col},
		{Name: v1, Out: []string{"p", "q"}, Given: []int{0}, Table: []float64{1, 2, 3, 4}},
	}}
}

var extremeFloats = []float64{0, 1, -1, 0.1, 1.0 / 3, 5e-324, math.SmallestNonzeroFloat64 * 3, 2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), 1e20, 1e21, 1e22, 123456789, 1 << 53, 1<<53 + 2, 1 << 63, 1 << 64, -(1 << 63), 1e-7, 1e-5, 0.0001, 100000, 1e6, 1e15, 1e16, 1e17, 12345678901234567, 0.30000000000000004, 2.5, 99.99999999999999, 1e100, 1e-100, math.Pi, 4503599627370497.5, 7e-10, 255, 0777, 1e5 + 0.5, 16777217}

func runC11(c *Ctx) {
	do := func(mk func() *Net) {
		c.Case(func() string {
			n := mk()
			return fmt.Sprintf("name %q info %q: %q", n.Name, n.Info, n.String())
		}, func(t *T) {
			n := mk()
			real := n.mustBuild(t)
			roundTrip(t, n, real)
			t.Outcome(uint64(mix(len(n.Vars), len(n.Name))))
		})
	}
	// strings in every position
	place := func(pos int, s string) *Net {
		a := []string{"n", "", "v", "o", "", "w"}
		a[pos] = s
		return textNet(a[0], a[1], a[2], a[3], a[4], a[5])
	}
	depth := 2
	if c.Thorough {
		depth = 3
	}
	strs := []string{""}
	for d := 0; d <= depth; d++ {
		if d > 0 {
			nx := make([]string, 0, len(strs)*len(yamlAtoms))
			for _, s := range strs {
				for _, a := range yamlAtoms {
					nx = append(nx, s+a)
				}
			}
			strs = nx
		}
		for _, s := range strs {
			if s == "w" || s == "v" {
				continue
			}
			for pos := 0; pos < 6; pos++ {
				do(func() *Net { return place(pos, s) })
			}
		}
	}
	// white space and line breaks, deeper
	ws := []string{"a", " ", "\n", "\t", "\r", "#", ":", "-"}
	wd := 4
	if c.Thorough {
		wd = 6
	}
	for d := 3; d <= wd; d++ {
		product(rep(len(ws), d), func(x []int) {
			b := strings.Builder{}
			for _, k := range x {
				b.WriteString(ws[k])
			}
			s := b.String()
			for _, pos := range []int{1, 2, 3} {
				do(func() *Net { return place(pos, s) })
			}
		})
	}
	// pairs of words
	for i, a := range yamlWords {
		for pos := 0; pos < 6; pos++ {
			if (pos == 2 && a == "w") || (pos == 5 && a == "v") {
				continue
			}
			do(func() *Net { return place(pos, a) })
		}
		for j, b := range yamlWords {
			if i == j {
				continue
			}
			do(func() *Net {
				return &Net{Name: a, Info: b, Vars: []NV{
					{Name: a, Out: []string{b, a}, Table: []float64{1, 2}, Color: b},
					{Name: b, Out: []string{a, b, "x"}, Type: decision, Given: []int{0}},
					{Name: "u" + a + b, Out: []string{b}, Type: utility, Given: []int{1, 0}, Table: []float64{1, 2, 3, 4, 5, 6}},
				}}
			})
		}
	}
	// values
	for _, a := range extremeFloats {
		for _, b := range extremeFloats {
			do(func() *Net {
				return &Net{Name: "n", Vars: []NV{
					{Name: "v", Out: []string{"a", "b"}, Table: []float64{a, b}},
					{Name: "w", Out: []string{"a"}, Given: []int{0}, Table: []float64{b, a}},
					{Name: "u", Out: []string{"u"}, Type: utility, Given: []int{0, 1}, Table: []float64{a, b}},
				}}
			})
		}
	}
	for _, p := range []int{0, 1, -1, 7, -12, 1000, 1 << 31, -(1 << 31), 1 << 40, math.MaxInt64, math.MinInt64, 0777} {
		for _, q := range []int{0, 3, -5, math.MaxInt64, 8} {
			do(func() *Net {
				n := place(0, "n")
				n.Vars[0].Pos = [2]int{p, q}
				n.Vars[1].Pos = [2]int{q, p}
				return n
			})
		}
	}
	// structures
	for nv := 1; nv <= 3; nv++ {
		dags(nv, func(par0 [][]int) {
			parentOrders(par0, func(par [][]int) {
				product(rep(2, nv), func(types []int) {
					for _, ar := range [][]int{{2, 2, 2}, {3, 1, 2}, {1, 2, 4}} {
						utilSets(nv, 1, func(us [][]int) {
							for tabs := 0; tabs < 1<<nv; tabs++ {
								do(func() *Net {
									n := decNet(par, types, ar[:nv], us, 0, 3)
									for i := 0; i < nv; i++ {
										if tabs&(1<<i) != 0 {
											n.Vars[i].Table = nil
										} else if n.Vars[i].Table == nil {
											n.Vars[i].Table = genericTable(n.size(i), i)
										}
										n.Vars[i].Pos = [2]int{i * 3, 5 - i}
									}
									return n
								})
							}
						})
					}
				})
			})
		})
	}
	for nu := 1; nu <= 4; nu++ {
		us := [][]int{{0}, {1, 0}, {1}, {0, 1}}[:nu]
		for at := -1; at <= nu+2; at++ {
			for _, rev := range []bool{false, true} {
				do(func() *Net {
					return withTotal(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 3}, us, 0, nu), []float64{1.5, -2, 0, 1e-9}, rev, at)
				})
			}
		}
	}
	for _, n := range []int{50, 100, 257, 1000} {
		do(func() *Net { return chanceNet([][]int{{}, {0}}, []int{n, 3}, n) })
		do(func() *Net {
			par := make([][]int, n)
			for i := 1; i < n; i++ {
				par[i] = []int{i / 2}
			}
			return chanceNet(par, rep(2, n), n)
		})
	}
	for _, f := range sizeFamilies(false) {
		do(func() *Net { return f.net })
	}
	for _, f := range decFamilies(false) {
		do(func() *Net { return f.net })
	}
	// texts as loaded from files, and files
	texts := map[string]string{}
	names := []string{}
	for _, f := range exampleFiles() {
		b, _ := os.ReadFile(f)
		texts[f] = string(b)
		names = append(names, f)
	}
	for _, l := range []struct {
		op   string
		k, o int
	}{{"and", 2, 2}, {"xor", 2, 2}, {"if-then", 1, 2}, {"count-is 1", 3, 2}, {"given-excl 1", 3, 2}, {"count-true", 3, 4}, {"bits", 2, 4}, {"outcome-is 1 2", 1, 2}, {"outcome-either 0 1 2", 1, 2}} {
		b := strings.Builder{}
		b.WriteString("name: logic\ninfo: |\n  some text\n\n  more text\nvariables:\n")
		g := []string{}
		for i := 0; i < l.k; i++ {
			fmt.Fprintf(&b, "- variable: p%d\n  outcomes: [yes, no]\n  color: red\n  position: [%d, 1]\n  table: [[%d, 1]]\n", i, i, i+1)
			g = append(g, fmt.Sprintf("p%d", i))
		}
		fmt.Fprintf(&b, "- variable: x\n  outcomes: [%s]\n  given: [%s]\n  logic: %s\n", strings.Join(outs(l.o), ", "), strings.Join(g, ", "), l.op)
		texts["logic "+l.op+".yml"] = b.String()
		names = append(names, "logic "+l.op+".yml")
	}
	for _, name := range names {
		c.Case(func() string { return name }, func(t *T) {
			var real *bbn.Network
			var err error
			if strings.HasSuffix(name, "ml") && !strings.HasSuffix(name, ".yml") {
				real, err = bbn.FromBIFXML([]byte(texts[name]))
			} else {
				real, err = bbn.FromYAML([]byte(texts[name]))
			}
			if err != nil {
				t.Failf("%v", err)
			}
			n := netFrom(real)
			roundTrip(t, n, real)
			// through a file, after use
			if len(n.Vars) < 12 && len(n.decisions()) > 0 {
				if _, err := real.SolvePolicies(true); err != nil {
					t.Failf("%v", err)
				}
			}
			y, err := bbn.ToYAML(real)
			if err != nil {
				t.Failf("%v", err)
			}
			dir, _ := os.MkdirTemp("", "c11")
			defer os.RemoveAll(dir)
			p := filepath.Join(dir, "n.yml")
			_ = os.WriteFile(p, y, 0644)
			back, err := bbn.FromFile(p)
			if err != nil {
				t.Failf("%v", err)
			}
			unchanged(t, n, back, "from file")
			t.Outcome(uint64(len(y)))
		})
	}
}

// ---------------------------------------------------------------------------

func xmlEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "'", "&apos;").Replace(s)
}

type xmlStyle struct {
	sep, lead, tail string // in tables
	num             int    // number format
	pos             string // format of the position, "" for none
	px, py          []int  // positions
	extra           bool   // other properties and elements
	nature          bool   // write the type of chance nodes
	emptyTable      bool   // write empty tables
	varOrder        []int
	defOrder        []int
	mixed           int // 0 variables first, 1 definitions first, 2 alternating
	head            string
}

func xmlNum(v float64, f int) string {
	switch f {
	case 1:
		return strconv.FormatFloat(v, 'e', -1, 64)
	case 5:
		return strconv.FormatFloat(v, 'E', -1, 64)
	case 6: // without a leading zero and sign in the exponent
		s := strconv.FormatFloat(v, 'E', -1, 64)
		return strings.NewReplacer("E+0", "E", "E-0", "E-", "E+", "E").Replace(s)
	case 2:
		return strconv.FormatFloat(v, 'f', -1, 64)
	case 3:
		s := strconv.FormatFloat(v, 'f', -1, 64)
		if !strings.HasPrefix(s, "-") {
			s = "+" + s
		}
		return s
	case 4:
		s := strconv.FormatFloat(v, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		} else {
			s += "000"
		}
		if strings.HasPrefix(s, "0.") {
			s = s[1:]
		}
		return s
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

// writeXML writes the network (variables in model order, unless style says otherwise).
func writeXML(n *Net, st xmlStyle) string {
	vs, ds := []string{}, []string{}
	for i, v := range n.Vars {
		b := strings.Builder{}
		tp := ""
		switch {
		case v.Type == decision:
			tp = ` TYPE="decision"`
		case v.Type == utility:
			tp = ` TYPE="utility"`
		case st.nature:
			tp = ` TYPE="nature"`
		}
		fmt.Fprintf(&b, "<VARIABLE%s>\n\t<NAME>%s</NAME>\n", tp, xmlEsc(v.Name))
		if st.extra {
			b.WriteString("\t<PROPERTY>weight = 3</PROPERTY><PROPERTY>just a text</PROPERTY>\n")
		}
		for _, o := range v.Out {
			fmt.Fprintf(&b, "\t<OUTCOME>%s</OUTCOME>\n", xmlEsc(o))
		}
		if st.pos != "" {
			fmt.Fprintf(&b, "\t<PROPERTY>"+st.pos+"</PROPERTY>\n", st.px[i], st.py[i])
		}
		if st.extra {
			b.WriteString("\t<PROPERTY>positions = (7, 7)</PROPERTY><!-- comment --><PROPERTY>a=b=c</PROPERTY>\n")
		}
		b.WriteString("</VARIABLE>\n")
		vs = append(vs, b.String())

		b.Reset()
		fmt.Fprintf(&b, "<DEFINITION>\n\t<FOR>%s</FOR>\n", xmlEsc(v.Name))
		for _, g := range v.Given {
			fmt.Fprintf(&b, "\t<GIVEN>%s</GIVEN>\n", xmlEsc(n.Vars[g].Name))
		}
		if v.Table != nil {
			nums := []string{}
			for _, x := range v.Table {
				nums = append(nums, xmlNum(x, st.num))
			}
			fmt.Fprintf(&b, "\t<TABLE>%s%s%s</TABLE>\n", st.lead, strings.Join(nums, st.sep), st.tail)
		} else if st.emptyTable {
			fmt.Fprintf(&b, "\t<TABLE>%s%s</TABLE>\n", st.lead, st.tail)
		}
		b.WriteString("</DEFINITION>\n")
		ds = append(ds, b.String())
	}
	pick := func(l []string, o []int) []string {
		if o == nil {
			return l
		}
		r := []string{}
		for _, k := range o {
			r = append(r, l[k])
		}
		return r
	}
	vs, ds = pick(vs, st.varOrder), pick(ds, st.defOrder)
	b := strings.Builder{}
	b.WriteString(st.head)
	b.WriteString("<BIF VERSION=\"0.3\">\n<NETWORK>\n")
	if st.mixed != 1 {
		fmt.Fprintf(&b, "<NAME>%s</NAME>\n", xmlEsc(n.Name))
	}
	switch st.mixed {
	case 0:
		b.WriteString(strings.Join(vs, "") + strings.Join(ds, ""))
	case 1:
		b.WriteString(strings.Join(ds, "") + strings.Join(vs, ""))
		fmt.Fprintf(&b, "<NAME>%s</NAME>\n", xmlEsc(n.Name))
	default:
		for i := range vs {
			b.WriteString(ds[i] + "<!-- next -->" + vs[i])
		}
	}
	b.WriteString("</NETWORK>\n</BIF>\n")
	return b.String()
}

// writeYAML writes the network, independent of the implementation.
func writeYAML(n *Net) string {
	b := strings.Builder{}
	fmt.Fprintf(&b, "name: %q\n", n.Name)
	if n.Info != "" {
		fmt.Fprintf(&b, "info: %q\n", n.Info)
	}
	b.WriteString("variables:\n")
	q := func(l []string) string {
		r := []string{}
		for _, s := range l {
			r = append(r, strconv.Quote(s))
		}
		return "[" + strings.Join(r, ", ") + "]"
	}
	for _, v := range n.Vars {
		fmt.Fprintf(&b, "- variable: %q\n  outcomes: %s\n", v.Name, q(v.Out))
		if len(v.Given) > 0 {
			fmt.Fprintf(&b, "  given: %s\n", q(n.names(v.Given)))
		}
		if v.Type != chance {
			fmt.Fprintf(&b, "  type: %s\n", []string{"nature", "decision", "utility"}[v.Type])
		}
		if v.Pos != [2]int{} {
			fmt.Fprintf(&b, "  position: [%d, %d]\n", v.Pos[0], v.Pos[1])
		}
		if v.Color != "" {
			fmt.Fprintf(&b, "  color: %q\n", v.Color)
		}
		if v.Table != nil {
			b.WriteString("  table:\n")
			for r := 0; r < len(v.Table); r += len(v.Out) {
				row := []string{}
				for _, x := range v.Table[r : r+len(v.Out)] {
					row = append(row, strconv.FormatFloat(x, 'g', -1, 64))
				}
				fmt.Fprintf(&b, "  - [%s]\n", strings.Join(row, ", "))
			}
		}
	}
	return b.String()
}

func runC12(c *Ctx) {
	check := func(t *T, n *Net, text string, st xmlStyle, ans bool) {
		got, err := bbn.FromBIFXML([]byte(text))
		if err != nil {
			t.Failf("%v\n%s", err, trunc(text, 2500))
		}
		twin, err := bbn.FromYAML([]byte(writeYAML(n)))
		if err != nil {
			t.Failf("yaml: %v\n%s", err, trunc(writeYAML(n), 2000))
		}
		want := n.clone()
		if st.pos != "" {
			for i := range want.Vars {
				want.Vars[i].Pos = [2]int{st.px[i] / 2, st.py[i] / 12}
			}
		}
		unchanged(t, want, got, "loaded from XML:\n"+trunc(text, 2500))
		unchanged(t, n, twin, "loaded from YAML")
		t.c.States++
		t.c.Traces++
		t.c.Transitions += 2
		if ans {
			if len(n.decisions()) > 0 {
				for _, sw := range []bool{true, false} {
					p1, e1 := got.SolvePolicies(sw)
					p2, e2 := twin.SolvePolicies(sw)
					if e1 != nil || e2 != nil {
						t.Failf("policies: %v, %v", e1, e2)
					}
					if len(p1) != len(p2) {
						t.Failf("different policies")
					}
					for k, a := range p1 {
						if fmt.Sprint(a.Given) != fmt.Sprint(p2[k].Given) || !nearAll(a.Table, p2[k].Table) {
							t.Failf("policy of %s from XML: %v %v, from YAML: %v %v", k, a.Given, a.Table, p2[k].Given, p2[k].Table)
						}
					}
				}
			}
			a, b := probe(t, n, got, 1), probe(t, n, twin, 1)
			if k, ok := sameVec(a, b); !ok {
				t.Failf("answer %d from XML %v, from YAML %v\n%s", k, at(a, k), at(b, k), trunc(text, 2000))
			}
			t.Outcome(hashFloats(0, a))
		}
	}
	do := func(mk func() *Net, st xmlStyle, ans bool) {
		c.Case(func() string { n := mk(); return n.String() + "\n" + trunc(writeXML(n, st), 3000) }, func(t *T) {
			n := mk()
			text := writeXML(n, st)
			if st.varOrder != nil {
				n = n.permuteVars(st.varOrder)
			}
			check(t, n, text, st, ans)
		})
	}
	base := xmlStyle{sep: " "}
	// structures
	for nv := 1; nv <= 3; nv++ {
		dags(nv, func(par0 [][]int) {
			parentOrders(par0, func(par [][]int) {
				product(rep(2, nv), func(types []int) {
					for _, ar := range [][]int{{2, 2, 2}, {3, 1, 2}} {
						utilSets(nv, 1, func(us [][]int) {
							for tabs := 0; tabs < 4; tabs++ {
								mk := func() *Net {
									n := decNet(par, types, ar[:nv], us, 0, 3)
									for i := 0; i < nv; i++ {
										if tabs == 1 && n.Vars[i].Type == decision {
											n.Vars[i].Table = genericTable(n.size(i), i)
										}
										if tabs == 2 && i == 0 {
											n.Vars[i].Table = nil
										}
										if tabs == 3 && i == nv-1 {
											n.Vars[i].Table = nil
										}
									}
									return n
								}
								st := base
								st.emptyTable = tabs%2 == 1
								st.nature = tabs < 2
								do(mk, st, tabs == 0)
							}
						})
					}
				})
			})
		})
	}
	for nu := 1; nu <= 3; nu++ {
		us := [][]int{{0}, {1, 0}, {1}}[:nu]
		for at := -1; at <= nu+2; at++ {
			for _, rev := range []bool{false, true} {
				do(func() *Net {
					return withTotal(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 3}, us, 0, nu), []float64{1.5, -2, 0}, rev, at)
				}, base, true)
			}
		}
	}
	// orders
	nets := []func() *Net{
		func() *Net { return chanceNet([][]int{{}, {0}, {1, 0}}, []int{2, 3, 2}, 5) },
		func() *Net { return chanceNet([][]int{{1, 2}, {}, {1}}, []int{2, 2, 3}, 6) },
		func() *Net {
			return decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 3}, [][]int{{1, 0}}, 0, 7)
		},
		func() *Net {
			return withTotal(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{1, 0}, {0}}, 0, 7), []float64{2, 0.5}, true, 1)
		},
	}
	for _, mk := range nets {
		nv := len(mk().Vars)
		perms(nv, func(vo []int) {
			perms(nv, func(do2 []int) {
				for mixed := 0; mixed < 3; mixed++ {
					if nv > 3 && (mixed > 0 && vo[0] != 0) {
						continue
					}
					st := base
					st.varOrder, st.defOrder, st.mixed = vo, do2, mixed
					do(mk, st, vo[0] == 0)
				}
			})
		})
	}
	// layouts
	seps := []string{" ", "  ", "\n", "\r\n", "\t", " \n\t ", "\n<!-- row -->\n", " <!-- 0.5 0.5 --> ", " <!--1-->\n", "\n\n\n", "<!-- a --> <!-- b -->", "&#10;", "&#9;", " <![CDATA[ ]]> "}
	ends := []string{"", " ", "\n", "\t\t", "<!-- 1 2 3 -->", "\n<!-- (true, false) -->\n", " <!-- a --> <!-- b --> "}
	heads := []string{"", "<?xml version=\"1.0\"?>\n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- comment -->\n", "<!DOCTYPE BIF [\n<!ELEMENT BIF ( NETWORK )*>\n]>\n", "\n"}
	poss := []string{"", "position = (%d, %d)", "position=(%d,%d)", " position  =  ( %d , %d ) ", "position = (%d,%d)", "position\t=\n(%d, %d)"}
	for ni, mk := range nets {
		for _, s := range seps {
			for _, l := range ends {
				for _, tl := range ends {
					for num := 0; num < 7; num++ {
						st := base
						st.sep, st.lead, st.tail, st.num = s, l, tl, num
						st.extra = num%2 == 0
						do(mk, st, ni == 0 && num == 0)
					}
				}
			}
		}
		for _, h := range heads {
			for _, p := range poss {
				for _, ex := range []bool{false, true} {
					for _, nat := range []bool{false, true} {
						st := base
						st.head, st.pos, st.extra, st.nature = h, p, ex, nat
						for i := range mk().Vars {
							st.px = append(st.px, 73*i+12)
							st.py = append(st.py, 165-25*i)
						}
						do(mk, st, false)
					}
				}
			}
		}
	}
	coords := []int{0, 1, 2, 3, 11, 12, 13, 23, 24, 25, 100, 119, 120, 4711, -2, -24, -240, 1 << 33}
	for _, x := range coords {
		for _, y := range coords {
			st := base
			st.pos = poss[1]
			st.px, st.py = []int{x, y, 5}, []int{y, x, 7}
			if y < 0 && y%24 != 0 || x < 0 && x%24 != 0 {
				st.px, st.py = []int{x, 2, 5}, []int{24, 0, 7}
				if y < 0 && y%24 != 0 {
					continue
				}
			}
			do(nets[0], st, false)
		}
	}
	// values
	for _, a := range extremeFloats {
		if math.IsInf(a, 0) {
			continue
		}
		for _, b := range extremeFloats {
			if math.IsInf(b, 0) {
				continue
			}
			for _, num := range []int{0, 1, 2, 5, 6} {
				st := base
				st.num = num
				do(func() *Net {
					return &Net{Name: "n", Vars: []NV{
						{Name: "v", Out: []string{"a", "b"}, Table: []float64{a, b}},
						{Name: "w", Out: []string{"a"}, Given: []int{0}, Table: []float64{b, a}},
					}}
				}, st, false)
			}
		}
	}
	// names
	words := []string{"a b", "a&b", "a<b", "a>b", "'a'", "\"a\"", "a=b", "é", "日本", "light-on", "1", "true", "null", "[a]", "a;b", "&amp;", "]]>", "<!-- x -->", "a,b", "~", "p(x|y)", "0.5"}
	for _, a := range words {
		for _, b := range words {
			if a == b {
				continue
			}
			do(func() *Net {
				return &Net{Name: a, Vars: []NV{
					{Name: a, Out: []string{b, a}, Table: []float64{1, 2}},
					{Name: b, Out: []string{a, b, "x"}, Type: decision, Given: []int{0}},
					{Name: "u" + a + b, Out: []string{b}, Type: utility, Given: []int{1, 0}, Table: []float64{1, 2, 3, 4, 5, 6}},
				}}
			}, base, true)
		}
	}
	for _, w := range []string{"\ufeffx", "&", "&lt;", "&#65;", "&#x41;", "<![CDATA[x]]>", "%s", "a  b", "a/b", "é", "e\u0301", "😀", "X", "x", "<NAME>", "</NAME>", "<?x?>", "nature", "DECISION", "utility", "P(x)", "a.b", "(x)", "true", "FALSE", "-", "--", "# x", "*", "\\n", "a\\"} {
		for _, mk := range nets {
			n := mk()
			for v := range n.Vars {
				do(func() *Net { return mk().renamed(v, w) }, base, false)
				for k := range n.Vars[v].Out {
					if v != n.total() {
						do(func() *Net { return mk().withOutcome(v, k, w) }, base, false)
					}
				}
			}
		}
	}
	for _, p := range wordPairs {
		if strings.TrimSpace(p[0]) != p[0] || strings.TrimSpace(p[1]) != p[1] {
			continue
		}
		for _, mk := range nets {
			n := mk()
			for v := 1; v < len(n.Vars); v++ {
				do(func() *Net { return mk().renamed(v-1, p[0]).renamed(v, p[1]) }, base, true)
				do(func() *Net { return mk().renamed(v-1, p[1]).renamed(v, p[0]) }, base, true)
			}
			for _, v := range n.actives() {
				do(func() *Net { return mk().withOutcome(v, 0, p[0]).withOutcome(v, n.arity(v)-1, p[1]) }, base, true)
			}
		}
	}
	for _, f := range append(sizeFamilies(false), decFamilies(false)...) {
		do(func() *Net { return f.net }, base, false)
	}
	// files
	exts := []struct {
		ext  string
		kind int
	}{{".yml", 0}, {".xml", 1}, {".bifxml", 1}}
	cases := func(s string, f func(string)) {
		for m := 0; m < 1<<(len(s)-1); m++ {
			b := []byte(s)
			for i := 1; i < len(b); i++ {
				if m&(1<<(i-1)) != 0 {
					b[i] -= 32
				}
			}
			f(string(b))
		}
	}
	n := nets[0]()
	dir := os.Getenv("VERIF_TMP")
	if dir == "" {
		dir = os.TempDir()
	}
	for _, e := range exts {
		cases(e.ext, func(ext string) {
			for _, stem := range []string{"net", "a.b", "net.xml", "net.yml", "net.bifxml", "", "with space", "xml", "yml"} {
				for content := 0; content < 2; content++ {
					c.Case(func() string { return fmt.Sprintf("file %q with content %d", stem+ext, content) }, func(t *T) {
						p := filepath.Join(dir, fmt.Sprintf("d%d", t.idx), stem+ext)
						_ = os.MkdirAll(filepath.Dir(p), 0755)
						defer os.RemoveAll(filepath.Dir(p))
						text := writeYAML(n)
						if content == 1 {
							text = writeXML(n, base)
						}
						if err := os.WriteFile(p, []byte(text), 0644); err != nil {
							panic(err)
						}
						got, err := bbn.FromFile(p)
						t.c.States++
						t.c.Transitions++
						if content != e.kind {
							if err == nil {
								t.Failf("file of the other format accepted")
							}
							return
						}
						if err != nil {
							t.Failf("%v", err)
						}
						unchanged(t, n, got, "from file")
						t.c.Traces++
					})
				}
			}
		})
	}
	// files that change between loads
	for _, ext := range []string{".yml", ".xml", ".bifxml"} {
		for a := range nets {
			for b := range nets {
				for _, keep := range []bool{false, true} {
					c.Case(func() string { return fmt.Sprintf("file net%s with network %d, replaced by %d", ext, a, b) }, func(t *T) {
						d := filepath.Join(dir, fmt.Sprintf("d%d", t.idx))
						_ = os.MkdirAll(d, 0755)
						defer os.RemoveAll(d)
						p := filepath.Join(d, "net"+ext)
						at := time.Now().Add(-time.Hour)
						for _, i := range []int{a, b, a} {
							n := nets[i]()
							text := writeYAML(n)
							if ext != ".yml" {
								text = writeXML(n, base)
							}
							if err := os.WriteFile(p, []byte(text), 0644); err != nil {
								panic(err)
							}
							if keep {
								_ = os.Chtimes(p, at, at)
							}
							for k := 0; k < 2; k++ {
								got, err := bbn.FromFile(p)
								if err != nil {
									t.Failf("%v", err)
								}
								unchanged(t, n, got, "from file")
								x := got.Variables()[0] // the loaded network is the caller's own
								if x.Factor != nil && len(x.Factor.Table) > 0 {
									x.Factor.Table[0] += 1
								}
								t.c.States++
								t.c.Transitions++
							}
						}
						if err := os.Remove(p); err != nil {
							panic(err)
						}
						if _, err := bbn.FromFile(p); err == nil {
							t.Failf("missing file accepted")
						}
						t.c.Traces++
					})
				}
			}
		}
	}
	for _, bad := range []string{"net", "net.yaml", "net.txt", "net.json", "net.xmlx", "net.ym", "yml", ".xml.bak", "net.", "net.bif", "xml"} {
		c.Case(func() string { return "file " + bad }, func(t *T) {
			p := filepath.Join(dir, fmt.Sprintf("d%d", t.idx), bad)
			_ = os.MkdirAll(filepath.Dir(p), 0755)
			defer os.RemoveAll(filepath.Dir(p))
			for _, text := range []string{writeYAML(n), writeXML(n, base)} {
				_ = os.WriteFile(p, []byte(text), 0644)
				if _, err := bbn.FromFile(p); err == nil && bad != "net.yaml" {
					t.Failf("unsupported extension accepted")
				}
			}
			if _, err := bbn.FromFile(filepath.Join(dir, "does-not-exist.yml")); err == nil {
				t.Failf("missing file accepted")
			}
			t.c.States++
			t.c.Transitions += 2
		})
	}
}
