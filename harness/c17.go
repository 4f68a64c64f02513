package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn"
)

func init() {
	register(&Check{ID: "C17", Run: runC17,
		Rule:   "the real command line tool (bbn train) and app (bbni -t). All data files of up to the depth bound rows over the complete row alphabet (every outcome or missing for every variable) of small networks; all column orders with additional columns in every place; all delimiters with all missing-value markers, quoting styles and line ends; every single missing cell; every single fault (column left out, unknown outcome or unparsable utility in any column and line, short and long lines). The printed network is read back and compared with the counts of the reference; faulty files must give an error, exit status 1 and no network.",
		Assume: []string{"the missing-value marker is not an outcome", "header names are unique"},
	})
	register(&Check{ID: "C18", Run: runC18,
		Rule:   "the real command line tool (bbn inference): all evidence assignments of all networks up to the structure bound, of size families and (up to the number of evidence variables) of the shipped examples, in different spellings of the arguments; all single faults in the evidence, alone and next to valid entries in all orders. Printed values are compared with the reference enumeration under the solved policies.",
		Assume: []string{"names and outcomes in evidence do not contain '=' (a syntax error, as the unit tests want it) or ','", "evidence that has probability zero is only required not to crash the program"},
	})
}

// csvStyle is how a data file is written.
type csvStyle struct {
	delim   string
	missing string
	quote   bool
	crlf    bool
	noEnd   bool
	blank   bool // empty lines between
	bare    bool // as it is, without quotes
}

func (s csvStyle) cell(x string) string {
	need := strings.Contains(x, s.delim) || strings.ContainsAny(x, "\"\r\n") || strings.HasPrefix(x, " ") || strings.HasPrefix(x, "\t") || x == ""
	if s.bare || (!s.quote && (!need || (x == "" && s.delim != ""))) {
		return x
	}
	return `"` + strings.ReplaceAll(x, `"`, `""`) + `"`
}

func (s csvStyle) table(rows [][]string) []byte {
	nl := "\n"
	if s.crlf {
		nl = "\r\n"
	}
	b := strings.Builder{}
	for i, r := range rows {
		if i > 0 {
			b.WriteString(nl)
			if s.blank {
				b.WriteString(nl)
			}
		}
		c := make([]string, len(r))
		for k := range r {
			c[k] = s.cell(r[k])
		}
		b.WriteString(strings.Join(c, s.delim))
	}
	if !s.noEnd {
		b.WriteString(nl)
	}
	return []byte(b.String())
}

// csvRows are header and cells of a data file. A column -1 is an additional one.
func csvRows(n *Net, samples []tsample, cols []int, missing string) [][]string {
	head := []string{}
	for k, i := range cols {
		if i < 0 {
			head = append(head, fmt.Sprint("extra", k))
		} else {
			head = append(head, n.Vars[i].Name)
		}
	}
	rows := [][]string{head}
	for q, s := range samples {
		r := []string{}
		for _, i := range cols {
			switch {
			case i < 0:
				r = append(r, []string{"something", missing, "1", n.Vars[0].Out[0]}[q%4])
			case n.Vars[i].Type == utility:
				if math.IsNaN(s.u[i]) {
					r = append(r, missing)
				} else {
					r = append(r, strconv.FormatFloat(s.u[i], 'g', -1, 64))
				}
			case s.x[i] < 0:
				r = append(r, missing)
			default:
				r = append(r, n.Vars[i].Out[s.x[i]])
			}
		}
		rows = append(rows, r)
	}
	return rows
}

func csvText(n *Net, samples []tsample, cols []int, st csvStyle) []byte {
	return st.table(csvRows(n, samples, cols, st.missing))
}

// styleArgs are the flags for a style.
func styleArgs(st csvStyle, long bool) []string {
	r := []string{}
	if st.delim != "," {
		if long {
			r = append(r, "--delim="+st.delim)
		} else {
			r = append(r, "-d", st.delim)
		}
	}
	if st.missing != "" {
		if long {
			r = append(r, "--no-data="+st.missing)
		} else {
			r = append(r, "-n", st.missing)
		}
	}
	return r
}

// train runs bbn train on a network and data file.
func trainCLI(n *Net, data []byte, args ...string) procResult {
	dir := scratch()
	defer os.RemoveAll(dir)
	for name, c := range map[string][]byte{"net.yml": []byte(writeYAML(n)), "data.csv": data} {
		if c == nil {
			continue
		}
		if err := os.WriteFile(filepath.Join(dir, name), c, 0644); err != nil {
			panic(err)
		}
	}
	return process(dir, nil, "bbn", append(append([]string{"train"}, args...), "net.yml", "data.csv")...)
}

// checkTrained compares the outcome of a training with the expected network: nil for an error.
func checkTrained(t *T, r procResult, want *Net, what func() string) {
	t.c.Traces++
	t.c.States++
	if c := r.crash(); c != "" {
		t.Failf("%s: %s", what(), c)
	}
	if want == nil {
		if r.code != 1 || strings.Contains(r.out, "variables:") || !strings.Contains(r.out+r.err, "ERROR") {
			t.Failf("%s: expected an error with exit status 1 and no network, got status %d and\n%s", what(), r.code, trunc(r.out+r.err, 1500))
		}
		t.c.Count("errors expected and reported", 1)
		t.Outcome(hashString(r.out))
		return
	}
	if r.code != 0 {
		t.Failf("%s: exit status %d: %s", what(), r.code, trunc(r.out+r.err, 1500))
	}
	b, err := bbn.FromYAML([]byte(r.out))
	if err != nil {
		t.Failf("%s: can't read the printed network: %v\n%s", what(), err, trunc(r.out, 1500))
	}
	sameTables(t, want, b, what())
	t.c.Count("trained networks compared", 1)
	t.Outcome(hashString(r.out))
}

func trainNets() []family {
	chain := chanceNet([][]int{{}, {0}}, []int{2, 3}, 4)
	dec := decNet([][]int{{}, {0}, {1}}, []int{chance, decision, chance}, []int{2, 2, 2}, [][]int{{2, 1}}, 0, 4)
	total := withTotal(decNet([][]int{{}}, []int{decision}, []int{2}, [][]int{{0}, {0}}, 0, 5), []float64{2, -1}, true, 1)
	odd := chanceNet([][]int{{}, {0}}, []int{4, 3}, 6)
	odd.Vars[0].Name, odd.Vars[1].Name = "größe, \"x\"", "a b;c"
	odd.Vars[0].Out, odd.Vars[1].Out = []string{"1", "01", "x,y", "1.0"}, []string{"true", "say \"hi\"", "two\nlines"}
	odd.Name, odd.Info = "odd: names", "info\ntext"
	odd.Vars[1].Pos, odd.Vars[0].Color = [2]int{4, 5}, "red"
	swapped := chanceNet([][]int{{1}, {}}, []int{2, 2}, 3)
	// outcomes of one variable are outcomes of the other, in a different order
	swapped.Vars[0].Out, swapped.Vars[1].Out = []string{"yes", "no"}, []string{"no", "yes"}
	return []family{{"chain", chain}, {"decision", dec}, {"total", total}, {"odd names", odd}, {"same outcomes", swapped}}
}

// withGaps adds samples with every single value missing.
func withGaps(n *Net, s []tsample, every int) []tsample {
	r := append([]tsample{}, s...)
	k := 0
	for _, q := range s {
		for i, v := range n.Vars {
			if k++; k%every != 0 {
				continue
			}
			c := tsample{append([]int{}, q.x...), append([]float64{}, q.u...)}
			if v.Type == utility {
				c.u[i] = math.NaN()
			} else {
				c.x[i] = -1
			}
			r = append(r, c)
		}
	}
	return r
}

func counted(n *Net, s []tsample) *Net {
	c := newCounts(n)
	for _, x := range s {
		c.add(x)
	}
	return c.tables(n)
}

func runC17(c *Ctx) {
	nets := trainNets()
	styleOf := func(st csvStyle) string { return fmt.Sprintf("%+v", st) }
	basic := csvStyle{delim: ","}
	// all small data files
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for _, sm := range []struct {
		n     *Net
		utils []float64
		base  bool
	}{
		{chanceNet([][]int{{}, {0}}, []int{2, 2}, 3), nil, false},
		{chanceNet([][]int{{}, {0}}, []int{2, 2}, 3), nil, true},
		{decNet([][]int{{}}, []int{decision}, []int{2}, [][]int{{0}}, 0, 3), []float64{1, -2.5, math.NaN()}, false},
		{decNet([][]int{{}}, []int{chance}, []int{2}, [][]int{{0}}, 0, 3), []float64{4, math.NaN()}, false},
		{chanceNet([][]int{{}}, []int{3}, 3), nil, false},
		{decNet([][]int{{}, {0}}, []int{decision, chance}, []int{2, 2}, nil, 0, 3), nil, true},
	} {
		alpha := samplesOf(sm.n, true, sm.utils)
		base := []tsample{}
		if sm.base {
			base = covering(sm.n, 2)
		}
		d := depth
		if sm.base {
			d--
		}
		for k := 0; k <= d; k++ {
			product(rep(len(alpha), k), func(x []int) {
				x = append([]int{}, x...)
				c.Case(func() string { return fmt.Sprintf("rows %v of %v (%d rows before) for %s", x, alpha, len(base), sm.n) }, func(t *T) {
					rows := append([]tsample{}, base...)
					for _, q := range x {
						rows = append(rows, alpha[q])
					}
					data := csvText(sm.n, rows, seq(len(sm.n.Vars)), basic)
					checkTrained(t, trainCLI(sm.n, data), counted(sm.n, rows), func() string { return "data\n" + string(data) })
				})
			})
		}
	}
	// column orders with additional columns
	for _, fam := range nets {
		n := fam.net
		rows := withGaps(n, covering(n, 3), 7)
		want := counted(n, rows)
		for extra := 0; extra <= 2; extra++ {
			cols := seq(len(n.Vars))
			for k := 0; k < extra; k++ {
				cols = append(cols, -1)
			}
			if len(cols) > 5 {
				continue
			}
			seen := map[string]bool{}
			perms(len(cols), func(p []int) {
				o := []int{}
				for _, k := range p {
					o = append(o, cols[k])
				}
				if key := fmt.Sprint(o); seen[key] {
					return
				} else {
					seen[key] = true
				}
				for _, st := range []csvStyle{basic, {delim: ";", missing: "NA", crlf: true}} {
					c.Case(func() string { return fmt.Sprintf("columns %v, %s: %s", o, styleOf(st), n) }, func(t *T) {
						data := csvText(n, rows, o, st)
						checkTrained(t, trainCLI(n, data, styleArgs(st, true)...), want, func() string { return "data\n" + string(data) })
					})
				}
			})
		}
	}
	// delimiters, markers, styles
	delims := []string{",", ";", "\t", "|", " ", ":", "§", "#", "/", "x"}
	markers := []string{"", "-", "NA", "-9999", "?", "0", "none, really", "missing data", "nan", "NaN", "ß"}
	styles := []csvStyle{{}, {quote: true}, {crlf: true}, {noEnd: true}, {blank: true}, {quote: true, crlf: true, noEnd: true}}
	for fi, fam := range nets {
		n := fam.net
		rows := withGaps(n, covering(n, 4), 3)
		want := counted(n, rows)
		for _, d := range delims {
			for _, m := range markers {
				for si, st := range styles {
					st.delim, st.missing = d, m
					if m == "0" && fam.name == "total" {
						continue // also a value
					}
					if !c.Thorough && si > 0 && d != "," && m != "" && m != "NA" {
						continue
					}
					if st.blank && m == "" && len(n.Vars) == 1 {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("%s: %s", styleOf(st), n) }, func(t *T) {
						data := csvText(n, rows, reversed(len(n.Vars)), st)
						if d == "x" && strings.Contains(string(data), "xx") {
							_ = data
						}
						checkTrained(t, trainCLI(n, data, styleArgs(st, (fi+si)%2 == 0)...), want, func() string { return "data\n" + string(data) })
					})
				}
			}
		}
	}
	// every single cell missing
	for _, fam := range nets {
		n := fam.net
		rows := covering(n, 5)
		for _, m := range []string{"", "-9999", "NA"} {
			st := csvStyle{delim: ",", missing: m}
			for r := range rows {
				for i, v := range n.Vars {
					c.Case(func() string { return fmt.Sprintf("value of %s missing (%q) in line %d: %s", v.Name, m, r, n) }, func(t *T) {
						all := append([]tsample{}, rows...)
						s := tsample{append([]int{}, rows[r].x...), append([]float64{}, rows[r].u...)}
						if v.Type == utility {
							s.u[i] = math.NaN()
						} else {
							s.x[i] = -1
						}
						all[r] = s
						data := csvText(n, all, seq(len(n.Vars)), st)
						checkTrained(t, trainCLI(n, data, styleArgs(st, false)...), counted(n, all), func() string { return "data\n" + string(data) })
					})
				}
			}
		}
	}
	// numbers
	for _, s := range []string{"1", "-1", "+1", "0.5", ".5", "5.", "1e3", "-2.5E-3", "1234567.125", "0", "-0", "1_0", "0x10", "1,5", " 1", "1 ", "abc", "1.5x", "", "--1", "1e", "١"} {
		n := decNet([][]int{{}}, []int{chance}, []int{2}, [][]int{{0}}, 0, 3)
		c.Case(func() string { return fmt.Sprintf("utility %q", s) }, func(t *T) {
			rows := [][]string{{"V0", "U0"}, {"a", "2"}, {"b", s}}
			rows[0] = n.names([]int{0, 1})
			rows[1][0], rows[2][0] = n.Vars[0].Out[0], n.Vars[0].Out[1]
			data := csvStyle{delim: ",", missing: "NA"}.table(rows)
			var want *Net
			if v, err := strconv.ParseFloat(s, 64); err == nil {
				want = n.clone()
				want.Vars[0].Table = []float64{0.5, 0.5}
				want.Vars[1].Table = []float64{2, v}
			}
			checkTrained(t, trainCLI(n, data, "-n", "NA"), want, func() string { return "data\n" + string(data) })
		})
	}
	// faults
	for _, fam := range nets {
		n := fam.net
		rows := covering(n, 6)
		for _, st := range []csvStyle{basic, {delim: ";", missing: "NA"}} {
			good := csvRows(n, rows, seq(len(n.Vars)), st.missing)
			fault := func(what string, tab [][]string) {
				c.Case(func() string { return fmt.Sprintf("%s, %s: %s", what, styleOf(st), n) }, func(t *T) {
					data := st.table(tab)
					checkTrained(t, trainCLI(n, data, styleArgs(st, true)...), nil, func() string { return what + ", data\n" + string(data) })
				})
			}
			edit := func(f func(t [][]string)) [][]string {
				g := make([][]string, len(good))
				for i := range good {
					g[i] = append([]string{}, good[i]...)
				}
				f(g)
				return g
			}
			for i, v := range n.Vars {
				fault("without the column of "+v.Name, edit(func(g [][]string) {
					for r := range g {
						g[r] = append(g[r][:i:i], g[r][i+1:]...)
					}
				}))
				for _, h := range []string{v.Name + " ", strings.ToUpper(v.Name) + "_", ""} {
					fault(fmt.Sprintf("column of %s named %q", v.Name, h), edit(func(g [][]string) { g[0][i] = h }))
				}
				bad := []string{"zzz", v.Out[0] + " ", v.Out[0] + "x", "nope"}
				if st.missing != "" {
					bad = append(bad, " "+st.missing, st.missing+" ", strings.ToLower(st.missing), st.missing+"N", st.missing[:1])
				} else {
					bad = append(bad, " ", "\t")
				}
				if st.missing != "" {
					bad = append(bad, "")
				}
				if st.missing != "NA" {
					bad = append(bad, "NA")
				}
				if v.Type == utility {
					bad = []string{"zzz", "1.5x", "1;5,5", v.Out[0]}
					if st.missing != "" {
						bad = append(bad, "")
					}
				}
				if v.Type != utility {
					for _, o := range v.Out {
						for _, x := range []string{strings.ToUpper(o), strings.ToLower(o), strings.ToUpper(o[:1]) + o[1:], o[:len(o)-1], o[1:], "\"" + o + "\"", "'" + o + "'", " " + o, o + o, v.Name, strconv.Itoa(0)} {
							if !slices.Contains(v.Out, x) && !slices.Contains(bad, x) && x != st.missing {
								bad = append(bad, x)
							}
						}
					}
				}
				for _, x := range bad {
					for _, r := range []int{1, len(good) / 2, len(good) - 1} {
						fault(fmt.Sprintf("%q for %s in line %d", x, v.Name, r), edit(func(g [][]string) { g[r][i] = x }))
					}
				}
			}
			for _, r := range []int{1, len(good) - 1} {
				fault("short line", edit(func(g [][]string) { g[r] = g[r][:len(g[r])-1] }))
				fault("long line", edit(func(g [][]string) { g[r] = append(g[r], "x") }))
			}
			fault("no header", good[1:])
			fault("empty file", nil)
			if len(n.Vars) > 1 {
				c.Case(func() string { return fmt.Sprintf("wrong delimiter, %s: %s", styleOf(st), n) }, func(t *T) {
					data := st.table(good)
					checkTrained(t, trainCLI(n, data, "-d", ":", "--no-data="+st.missing), nil, func() string { return "wrong delimiter, data\n" + string(data) })
				})
			}
		}
		c.Case(func() string { return "header only: " + n.String() }, func(t *T) {
			data := csvText(n, nil, seq(len(n.Vars)), basic)
			checkTrained(t, trainCLI(n, data), counted(n, nil), func() string { return "header only" })
		})
		for _, args := range [][]string{{"-d", "ab"}, {"--delim="}, {"-d", ",,"}, {"-d", "\n"}, {"-d", "\""}, {"--nonsense"}, {"one more file"}} {
			c.Case(func() string { return fmt.Sprintf("arguments %q: %s", args, n) }, func(t *T) {
				data := csvText(n, rows, seq(len(n.Vars)), basic)
				checkTrained(t, trainCLI(n, data, args...), nil, func() string { return fmt.Sprintf("arguments %q", args) })
			})
		}
	}
	c.Case(func() string { return "no data file" }, func(t *T) {
		checkTrained(t, trainCLI(nets[0].net, nil), nil, func() string { return "no data file" })
	})
	// unusual names and outcomes
	wordNet := decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 4)
	for k, base := range []*Net{wordNet, withTotal(wordNet, []float64{2}, false, 0), chanceNet([][]int{{}, {0}}, []int{3, 2}, 4)} {
		if k > 0 && !c.Thorough {
			break
		}
		worded(base, func(w string) bool { return true }, func(what string, m *Net) {
			rows := withGaps(m, covering(m, 7), 4)
			for q, st := range []csvStyle{{delim: ","}, {delim: ";", missing: "NA", quote: true}} {
				if q == 1 && !c.Thorough && len(what)%2 == 0 {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s, %s: %s", what, styleOf(st), m) }, func(t *T) {
					cols := seq(len(m.Vars))
					data := csvText(m, rows, cols, st)
					checkTrained(t, trainCLI(m, data, styleArgs(st, true)...), counted(m, rows), func() string { return "data\n" + string(data) })
				})
			}
		})
	}
	// large files
	for _, k := range []int{100, 255, 256, 257, 1000, 4097, 20000, 110000} {
		for _, fam := range nets[:3] {
			n := fam.net
			c.Case(func() string { return fmt.Sprintf("%d rows for %s", k, n) }, func(t *T) {
				rows := withGaps(n, covering(n, 3), 3)
				m := len(rows)
				for i := m; i < k; i++ {
					rows = append(rows, rows[(i*i/3)%m])
				}
				data := csvText(n, rows, reversed(len(n.Vars)), basic)
				checkTrained(t, trainCLI(n, data), counted(n, rows), func() string { return fmt.Sprint(k, " rows") })
			})
		}
	}
	for _, k := range []int{10, 63, 64, 65, 130, 257, 1000} {
		n := nets[1].net
		c.Case(func() string { return fmt.Sprintf("%d further columns for %s", k, n) }, func(t *T) {
			rows := withGaps(n, covering(n, 3), 3)
			cols := []int{}
			for i := range n.Vars {
				for q := 0; q < k/len(n.Vars); q++ {
					cols = append(cols, -1)
				}
				cols = append(cols, i)
			}
			data := csvText(n, rows, cols, basic)
			checkTrained(t, trainCLI(n, data), counted(n, rows), func() string { return fmt.Sprint(k, " further columns") })
		})
	}
	for _, k := range []int{1000, 4095, 4096, 4097, 65535, 65536, 65537, 200000} {
		n := nets[0].net
		c.Case(func() string { return fmt.Sprintf("cells of %d bytes for %s", k, n) }, func(t *T) {
			rows := withGaps(n, covering(n, 3), 3)
			tab := csvRows(n, rows, []int{1, -1, 0}, "")
			for i := range tab {
				if i%2 == 1 {
					tab[i][1] = strings.Repeat("y", k)
				}
			}
			checkTrained(t, trainCLI(n, basic.table(tab)), counted(n, rows), func() string { return fmt.Sprint("cells of ", k) })
		})
	}
	// other networks: every structure
	for nv := 1; nv <= 3; nv++ {
		dags(nv, func(par [][]int) {
			product(rep(2, nv), func(types []int) {
				if nv == 3 && !c.Thorough && (types[0]+types[1]+types[2] != 1) {
					return
				}
				for k, us := range [][][]int{nil, {seq(nv)}, {{0}, {nv - 1}}} {
					n := decNet(par, types, []int{2, 3, 2}[:nv], us, k, 11)
					if k == 2 {
						n = withTotal(n, []float64{0.5, -2}, true, 0)
					}
					for _, m := range []*Net{n, noTables(n)} {
						c.Case(func() string { return "covering data for " + m.String() }, func(t *T) {
							rows := withGaps(m, covering(m, 7), 5)
							st := csvStyle{delim: "\t", missing: "-"}
							data := csvText(m, rows, reversed(len(m.Vars)), st)
							checkTrained(t, trainCLI(m, data, styleArgs(st, true)...), counted(m, rows), func() string { return "data\n" + string(data) })
						})
					}
				}
			})
		})
	}
	// the app
	for _, fam := range []family{nets[0], {"decision", decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 4)}, nets[4], nets[2]} {
		n := layout(fam.net, 2, 0, 0)
		rows := withGaps(n, covering(n, 8), 2)
		want := counted(n, rows)
		app := func(st csvStyle, cols []int) {
			c.Case(func() string { return fmt.Sprintf("the app with columns %v, %s: %s", cols, styleOf(st), n) }, func(t *T) {
				dir := scratch()
				defer os.RemoveAll(dir)
				data := filepath.Join(dir, "data.csv")
				if err := os.WriteFile(data, csvText(n, rows, cols, st), 0644); err != nil {
					panic(err)
				}
				un := newUINet(t, want)
				m := newUI(un)
				args := append([]string{"-t", data}, styleArgs(st, len(st.missing)%2 == 0)...)
				playUI(t, m, spec(n, 90, 40, args...), evidenceWalk(m), lookGraph)
			})
		}
		for _, d := range delims[:8] {
			for _, m := range markers {
				if m == "0" && fam.name == "total" {
					continue
				}
				app(csvStyle{delim: d, missing: m}, reversed(len(n.Vars)))
			}
		}
		cols := append(seq(len(n.Vars)), -1)
		if len(cols) <= 4 {
			perms(len(cols), func(p []int) {
				o := []int{}
				for _, k := range p {
					o = append(o, cols[k])
				}
				app(csvStyle{delim: ";", missing: "NA"}, o)
			})
		}
		good := csvRows(n, covering(n, 6), seq(len(n.Vars)), "")
		for i := range n.Vars {
			for _, what := range []string{"column", "outcome", "uncovered"} {
				c.Case(func() string { return fmt.Sprintf("the app with a faulty %s %s: %s", what, n.Vars[i].Name, n) }, func(t *T) {
					dir := scratch()
					defer os.RemoveAll(dir)
					g := [][]string{}
					for r := range good {
						if what == "uncovered" && r > 1 {
							break
						}
						row := append([]string{}, good[r]...)
						if what == "column" && r == 0 || what == "outcome" && r == len(good)-1 {
							row[i] = "zzz"
						}
						if what == "uncovered" && r == 1 {
							for k := range row {
								row[k] = ""
							}
						}
						g = append(g, row)
					}
					for name, c := range map[string][]byte{"net.yml": []byte(writeYAML(n)), "data.csv": basic.table(g)} {
						if err := os.WriteFile(filepath.Join(dir, name), c, 0644); err != nil {
							panic(err)
						}
					}
					run := appSession(dir, []string{"net.yml", "-t", "data.csv"}, []string{"Tab"}, 60, 16, "")
					if cr := run.res.crash(); cr != "" || run.res.code != 1 || len(run.frames) > 0 || !strings.Contains(run.res.out+run.res.err, "ERROR") {
						t.Failf("expected an error, got status %d, %d frames: %s", run.res.code, len(run.frames), trunc(run.res.out+run.res.err, 1500))
					}
					t.c.Traces++
				})
			}
		}
	}
}

// ---------------------------------------------------------------------------

func infer(n *Net, content []byte, file string, args ...string) procResult {
	dir := scratch()
	defer os.RemoveAll(dir)
	if content == nil {
		content = []byte(writeYAML(n))
	}
	if err := os.WriteFile(filepath.Join(dir, file), content, 0644); err != nil {
		panic(err)
	}
	return process(dir, nil, "bbn", append([]string{"inference"}, args...)...)
}

// checkInference compares the output of the inference command.
func checkInference(t *T, un *uiNet, ev []int, r procResult, what string) {
	n := un.n
	t.c.Traces++
	t.c.States++
	if c := r.crash(); c != "" {
		t.Failf("%s: %s", what, c)
	}
	vals := un.values(ev, false)
	impossible := false
	for i, v := range n.Vars {
		if v.Type != utility && ev[i] < 0 && len(vals[i]) > 0 && math.IsNaN(vals[i][0]) {
			impossible = true
		}
		if v.Type == utility && math.IsNaN(vals[i][0]) {
			impossible = true
		}
	}
	if impossible {
		t.c.Count("impossible evidence", 1)
		if r.code != 0 {
			return
		}
		lines := strings.Split(strings.TrimRight(r.out, "\n"), "\n")
		for i, v := range n.Vars {
			if len(lines) != 2*len(n.Vars) {
				break
			}
			rest, _ := strings.CutPrefix(strings.TrimSpace(lines[2*i+1]), strings.TrimSpace(v.Name))
			f := strings.Fields(rest)
			for k, x := range vals[i] {
				if !math.IsNaN(x) || k >= len(f) {
					continue
				}
				if y, err := strconv.ParseFloat(strings.TrimSuffix(f[k], "%"), 64); err == nil && !math.IsNaN(y) && !math.IsInf(y, 0) {
					t.Failf("%s: impossible evidence, but %s for %s:\n%s", what, f[k], v.Name, r.out)
				}
			}
		}
		return
	}
	if r.code != 0 {
		t.Failf("%s: exit status %d: %s", what, r.code, trunc(r.out+r.err, 1500))
	}
	lines := strings.Split(strings.TrimRight(r.out, "\n"), "\n")
	if len(lines) != 2*len(n.Vars) {
		t.Failf("%s: %d lines for %d variables:\n%s", what, len(lines), len(n.Vars), r.out)
	}
	for i, v := range n.Vars {
		if strings.Join(strings.Fields(lines[2*i]), " ") != strings.Join(strings.Fields(strings.Join(v.Out, " ")), " ") {
			t.Failf("%s: outcomes %q in place of those of %s:\n%s", what, lines[2*i], v.Name, r.out)
		}
		rest, ok := strings.CutPrefix(strings.TrimSpace(lines[2*i+1]), strings.TrimSpace(v.Name))
		if !ok {
			t.Failf("%s: line %q in place of that of %s:\n%s", what, lines[2*i+1], v.Name, r.out)
		}
		f := strings.Fields(rest)
		marked := len(f) > 0 && f[len(f)-1] == "+"
		if marked {
			f = f[:len(f)-1]
		}
		if marked != (ev[i] >= 0) {
			t.Failf("%s: evidence mark of %s is wrong:\n%s", what, v.Name, r.out)
		}
		if len(f) != len(vals[i]) {
			t.Failf("%s: %d values for %s, expected %v:\n%s", what, len(f), v.Name, vals[i], r.out)
		}
		for k, s := range f {
			p, pct := strings.CutSuffix(s, "%")
			m := sameNumber(p, vals[i][k], v.Type != utility)
			if m != "" || pct == (v.Type == utility) {
				t.Failf("%s: %s, value %d: %s %s\n%s", what, v.Name, k, s, m, r.out)
			}
		}
	}
	t.c.Count("printed results compared", 1)
	t.Outcome(hashString(r.out))
}

// evidence arguments in different forms
func evArgs(n *Net, ev []int, form int) []string {
	l := []string{}
	for i, o := range ev {
		if o >= 0 {
			l = append(l, n.Vars[i].Name+"="+n.Vars[i].Out[o])
		}
	}
	if form%2 == 1 {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	switch {
	case len(l) == 0:
		return nil
	case form < 2:
		return []string{"-e", strings.Join(l, ",")}
	case form < 4:
		return []string{"--evidence=" + strings.Join(l, ",")}
	}
	r := []string{}
	for _, e := range l {
		r = append(r, "-e", e)
	}
	return r
}

var rareScales = []float64{1.0 / 1024, 1e-4, 1e-6, 1e-9, 1e-13, 1e-20, 1e-60, 1e-95}

// rareNet has outcomes with very small probabilities.
func rareNet(e, k int) *Net {
	n := decNet([][]int{{}, {0}, {1}}, []int{chance, chance, decision}, []int{2, 3, 2}, [][]int{{0, 2}, {1}}, 0, 30+k)
	switch k {
	case 1:
		n = chanceNet([][]int{{}, {0}, {0, 1}}, []int{2, 2, 3}, 31)
	case 2:
		n = withTotal(decNet([][]int{{}, {0}, {1}}, []int{decision, chance, chance}, []int{2, 2, 2}, [][]int{{1}, {2, 0}}, 0, 32), []float64{0.5, 3}, true, 0)
	}
	x := rareScales[e]
	for i := range n.Vars {
		v := &n.Vars[i]
		if v.Type == chance {
			a := n.arity(i)
			for r := 0; r < len(v.Table); r += a {
				for j := 0; j < a; j++ {
					v.Table[r+j] = x * float64(1+(r+2*j)%5)
				}
				v.Table[r+(r/a)%a] = 1
			}
		}
	}
	return n
}

func runC18(c *Ctx) {
	all := func(name string, mk func() *Net, forms int) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) {
			n := mk()
			un := newUINet(t, n)
			k := 0
			n.evidences(n.actives(), func(ev []int) {
				k++
				for f := 0; f < forms; f++ {
					form := f
					if forms == 1 {
						form = k % 6
					}
					args := append([]string{"net.yml"}, evArgs(n, ev, form)...)
					if k%2 == 0 {
						args = append(evArgs(n, ev, form), "net.yml")
					}
					checkInference(t, un, ev, infer(n, nil, "net.yml", args...), fmt.Sprintf("arguments %q", args))
				}
			})
		})
	}
	for nv := 1; nv <= 2; nv++ {
		dags(nv, func(par [][]int) {
			product(rep(2, nv), func(types []int) {
				ar := []int{2, 3}[:nv]
				forms := 1
				if nv == 1 {
					forms = 6
				}
				all("no utility", func() *Net { return decNet(par, types, ar, nil, 0, 20) }, forms)
				utilSets(nv, 2, func(us [][]int) {
					all("structure", func() *Net { return decNet(par, types, ar, us, 0, 21) }, 1)
					if len(us) == 2 {
						all("weights", func() *Net {
							return withTotal(decNet(par, types, ar, us, 0, 22), []float64{-3, 0.25}, true, len(us[0])%2)
						}, 1)
					} else {
						all("zeros", func() *Net { return detNet(decNet(par, types, ar, us, 0, 23), 2) }, 1)
					}
				})
			})
		})
	}
	k3 := 0
	decisionStructures(3, 1, 1, func(par [][]int, types []int, us [][]int) {
		if k3++; c.Thorough || (len(us[0]) == 3 && k3%2 == 0) {
			all("three variables", func() *Net { return decNet(par, types, []int{2, 2, 2}, us, 0, 24) }, 1)
		}
	})
	dags(3, func(par [][]int) {
		all("three chance variables", func() *Net { return chanceNet(par, []int{2, 3, 1}, 25) }, 1)
	})
	odd := func() *Net {
		n := decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 3}, [][]int{{0, 1}}, 0, 26)
		n.Vars[0].Name, n.Vars[1].Name, n.Vars[2].Name = "größe in Metern", "a-very-long-variable-name-of-more-than-thirty-characters", "U"
		n.Vars[0].Out = []string{"more than ten characters", "-1"}
		n.Vars[1].Out = []string{"1", "2%", "x.y"}
		n.Vars[2].Table = []float64{1e6, -1e6, 0.0004, 0, 12345.6789, -0.5}
		return n
	}
	all("names", odd, 6)
	for e := range rareScales {
		for k := 0; k < 3; k++ {
			all("rare evidence", func() *Net { return rareNet(e, k) }, 1)
		}
	}
	for _, tab := range [][]float64{{1e6, 1234567.125, -98765432.5, 3e8, 99999.9996, -1e9}, {1e12, 1e12 + 1, 0, 0, 0, 0}, {999999.9994, 999999.9996, 10000000, 9999999, -9999999.5, -10000000}, {1e-4, 4e-4, 6e-4, -1e-4, -6e-4, 0}} {
		for k := range tab {
			all("utility values", func() *Net {
				n := decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 3}, [][]int{{0, 1}}, 0, 26)
				n.Vars[2].Table = append(append([]float64{}, tab[k:]...), tab[:k]...)
				return n
			}, 1)
		}
	}
	for k, base := range []*Net{
		decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 26),
		withTotal(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}, {1}}, 0, 26), []float64{2, -1}, false, 0),
	} {
		if k > 0 && !c.Thorough {
			break
		}
		worded(base, func(w string) bool { return !strings.ContainsAny(w, "=,\"\n\r") }, func(what string, m *Net) {
			c.Case(func() string { return what + ": " + m.String() }, func(t *T) {
				un := newUINet(t, m)
				q := 0
				m.evidencesUpTo(m.actives(), 2, func(ev []int) {
					if q++; countEv(ev) == 1 || q == 1 || countEv(ev) == 2 && q%2 == 0 {
						args := append([]string{"net.yml"}, evArgs(m, ev, 2+q%4)...)
						checkInference(t, un, ev, infer(m, nil, "net.yml", args...), fmt.Sprintf("arguments %q", args))
					}
				})
			})
		})
	}
	// faulty evidence
	for _, fam := range []family{
		{"decision", decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 27)},
		{"chain", chanceNet([][]int{{}, {0}}, []int{2, 3}, 28)},
		{"total", withTotal(decNet([][]int{{}, {}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}, {1}}, 0, 29), []float64{2, -0.5}, true, 0)},
		{"names", odd()},
	} {
		n := fam.net
		faults := []string{"Zzz=x", "=", "x", "==", n.Vars[0].Name, n.Vars[0].Name + "=" + n.Vars[0].Out[0] + "=" + n.Vars[0].Out[1], "=" + n.Vars[0].Out[0], "Zzz=" + n.Vars[0].Out[0]}
		for _, v := range n.Vars {
			faults = append(faults, v.Name+"=", v.Name+"=zzz", v.Name+"="+v.Out[0]+" ", v.Name+" ="+v.Out[0], " "+v.Name+"="+v.Out[0], v.Name+":"+v.Out[0], v.Name+"=-2")
			if v.Type != utility {
				faults = append(faults, v.Name+"x="+v.Out[0], v.Name+"="+v.Out[0]+"x")
			} else {
				faults = append(faults, v.Name+"="+v.Out[0], v.Name+"=0", v.Name+"=1.5")
			}
		}
		for _, f := range faults {
			valid := []string{""}
			for i, v := range n.Vars {
				if v.Type != utility && !strings.HasPrefix(f, v.Name+"=") {
					valid = append(valid, n.Vars[i].Name+"="+v.Out[len(v.Out)-1])
				}
			}
			for _, g := range valid {
				for order := 0; order < 2; order++ {
					for form := 0; form < 2; form++ {
						l := []string{f}
						if g != "" {
							l = []string{g, f}
							if order == 1 {
								l = []string{f, g}
							}
						} else if order == 1 {
							continue
						}
						args := []string{"net.yml", "-e", strings.Join(l, ",")}
						if form == 1 {
							args = []string{"net.yml"}
							for _, x := range l {
								args = append(args, "--evidence="+x)
							}
						}
						c.Case(func() string { return fmt.Sprintf("faulty evidence %q: %s", args, n) }, func(t *T) {
							mustFail(t, infer(n, nil, "net.yml", args...), fmt.Sprintf("arguments %q", args))
						})
					}
				}
			}
		}
		e0 := n.Vars[0].Name + "=" + n.Vars[0].Out[0]
		for _, list := range []string{e0 + ",", "," + e0, ",", ",,", e0 + ",," + e0} { // empty entries
			args := []string{"net.yml", "-e", list}
			c.Case(func() string { return fmt.Sprintf("arguments %q: %s", args, n) }, func(t *T) {
				mustFail(t, infer(n, nil, "net.yml", args...), fmt.Sprintf("arguments %q", args))
			})
		}
		for _, args := range [][]string{{}, {"net.yml", "net.yml"}, {"other.yml"}, {"-e", n.Vars[0].Name + "=" + n.Vars[0].Out[0]}, {"net.yml", "--nonsense"}, {"net.yml", "-e"}, {"data.csv"}, {"."}} {
			c.Case(func() string { return fmt.Sprintf("arguments %q: %s", args, n) }, func(t *T) {
				mustFail(t, infer(n, nil, "net.yml", args...), fmt.Sprintf("arguments %q", args))
			})
		}
	}
	// faulty files
	good := decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 27)
	for _, f := range []struct {
		name string
		edit func(n *Net)
	}{
		{"cycle", func(n *Net) {
			n.Vars[0].Given = []int{1}
			n.Vars[0].Table = append(n.Vars[0].Table, n.Vars[0].Table...)
		}},
		{"long table", func(n *Net) { n.Vars[0].Table = append(n.Vars[0].Table, 1, 1) }},
		{"short table", func(n *Net) { n.Vars[2].Table = n.Vars[2].Table[:3] }},
		{"duplicate name", func(n *Net) { n.Vars[1].Name = n.Vars[0].Name }},
		{"unknown colour", func(n *Net) { n.Vars[1].Color = "nocolour" }},
		{"unknown colour of the first variable", func(n *Net) { n.Vars[0].Color = "nocolour" }},
		{"unknown colour of the last variable", func(n *Net) { n.Vars[2].Color = "nocolour" }},
		{"unknown colour among others", func(n *Net) { n.Vars[0].Color, n.Vars[1].Color, n.Vars[2].Color = "red", "nocolour", "blue" }},
	} {
		c.Case(func() string { return "file with a " + f.name }, func(t *T) {
			m := good.clone()
			f.edit(m)
			mustFail(t, infer(m, nil, "net.yml", "net.yml"), f.name)
		})
	}
	for _, text := range []string{"", "x", "name: x\n", "variables: 3\n", "{", "name: x\nvariables:\n- variable: A\n  outcomes: [a, b]\n  given: [B]\n", "name: x\nvariables:\n- variable: A\n  outcomes: [a, b]\n  type: nonsense\n  table:\n  - [1, 2]\n"} {
		for _, file := range []string{"net.yml", "net.xml", "net.bifxml", "net.txt", "net"} {
			c.Case(func() string { return fmt.Sprintf("%s with %q", file, text) }, func(t *T) {
				r := infer(nil, []byte(text), file, file)
				t.c.Traces++
				if cr := r.crash(); cr != "" || (r.code != 0 && r.code != 1) || (r.code == 1 && !strings.Contains(r.out+r.err, "ERROR")) {
					t.Failf("%s: %s", cr, trunc(r.out+r.err, 1000))
				}
			})
		}
	}
	// larger networks
	for _, f := range append(decFamilies(false), sizeFamilies(false)...) {
		n := f.net
		most := 13
		if c.Thorough {
			most = 30
		}
		if len(n.Vars) > most {
			continue
		}
		c.Case(func() string { return "family " + f.name + ": " + n.String() }, func(t *T) {
			un := newUINet(t, n)
			k := 0
			someEvidence(n, 0, func(ev []int) {
				k++
				args := append([]string{"net.yml"}, evArgs(n, ev, k%6)...)
				checkInference(t, un, ev, infer(n, nil, "net.yml", args...), fmt.Sprintf("arguments %q", args))
			})
		})
	}
	// examples
	for _, file := range exampleFiles() {
		b, err := bbn.FromFile(file)
		if err != nil {
			continue
		}
		n := netFrom(b)
		bad := false
		for _, v := range n.Vars {
			bad = bad || (v.Type == chance && v.Table == nil)
		}
		if bad {
			continue
		}
		k := 1
		if c.Thorough {
			k = 2
		}
		var un *uiNet
		someEvidence(n, k, func(ev []int) {
			if hasEq(n, ev) {
				return
			}
			ev = append([]int{}, ev...)
			c.Case(func() string { return fmt.Sprintf("%s with evidence %v", file, n.evMap(ev)) }, func(t *T) {
				if un == nil {
					b, _ := bbn.FromFile(file)
					un = newUINetFrom(t, b)
				}
				content, _ := os.ReadFile(file)
				args := append([]string{filepath.Base(file)}, evArgs(n, ev, countEv(ev))...)
				checkInference(t, un, ev, infer(nil, content, filepath.Base(file), args...), fmt.Sprintf("arguments %q", args))
			})
		})
	}
}

func mustFail(t *T, r procResult, what string) {
	t.c.Traces++
	t.c.States++
	if c := r.crash(); c != "" {
		t.Failf("%s: %s", what, c)
	}
	if r.code != 1 || !strings.Contains(r.out+r.err, "ERROR") || strings.Contains(r.out, "%") {
		t.Failf("%s: expected an error with exit status 1 and no result, got status %d and\n%s", what, r.code, trunc(r.out+r.err, 1500))
	}
	t.c.Count("errors expected and reported", 1)
	t.Outcome(hashString(r.out))
}
