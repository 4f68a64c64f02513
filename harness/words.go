package main

import "fmt"

// words are names and outcomes that look like something else: numbers, constants, comments, markup,
// or each other.
var words = []string{
	" x", "x ", "  x  ", "X", "x", "#1", "# x", "#", "//x", "/* x", "--x", "-", "--", "1", "01", "1.0", "1e3", "+1", "-1", "0x10", "1_000", "0", "-0",
	"true", "True", "yes", "no", "n", "y", "on", "off", "null", "nil", "~", "NaN", "nan", "Inf", "-inf", "?", "???", "*", "+", "%s", "%d%%", "%", "a:b", "a: b", "- a", "[a", "a]", "{a", "'", "''",
	"\"", "\"\"", "\\", "\\n", "a\tb", "\tx", "é", "e\u0301", "ß", "SS", "İ", "ı", "Σ", "ς", "日本", "😀", "\u00a0x", "\ufeffx", "x\u200b", "a/b", "a|b", "a;b", "a.b", "a b", "a  b", "map[a:b]", "a:b c:d", "total", "utility", "chance", "decision", "bbn",
	"name", "given", "table", "a_very_long_name_that_does_not_fit_into_any_column_of_a_screen_or_a_table_of_results", "<x>", "&amp;", "&", "$x", "`x`", "!x", "@x", "x!", "(x)", "a&b", "2024-01-01", "12:30", "1:2", ".5", "5.", "1e", "=x",
}

// wordPairs are different words that are easily taken for each other.
var wordPairs = [][2]string{
	{"x", "X"}, {"x", " x"}, {"x", "x "}, {"1", "01"}, {"1", "1.0"}, {"1", "+1"}, {"1e3", "1000"}, {"true", "True"}, {"yes", "true"}, {"é", "e\u0301"}, {"ß", "ss"}, {"Σ", "ς"}, {"σ", "ς"}, {"a b", "a  b"}, {"a\tb", "a b"}, {"x", "x\u200b"}, {"x", "\u00a0x"},
	{"x", "\"x\""}, {"x", "'x'"}, {"a", "aa"}, {"ab", "a"}, {"ab", "b"}, {"null", "~"}, {"NaN", "nan"}, {"0", "-0"}, {"no", "No"}, {"a:b", "a"}, {"a", "a\n"}, {"İ", "i"}, {"K", "\u212a"}, {"x#y", "x"}, {"x;y", "x"}, {"a.b", "a_b"}, {"a-b", "a_b"}, {"10", "1"},
	{"abcdefghijklmnopqrstuvwxyz_abcdefghijklmnopqrstuvwxyz_abcdefghijklmnopqrstuvwxyz_1", "abcdefghijklmnopqrstuvwxyz_abcdefghijklmnopqrstuvwxyz_abcdefghijklmnopqrstuvwxyz_2"},
}

// renamed gives a variable another name.
func (n *Net) renamed(v int, name string) *Net {
	m := n.clone()
	if t := m.total(); t >= 0 {
		for k, g := range m.Vars[t].Given {
			if g == v {
				m.Vars[t].Out[k] = name
			}
		}
	}
	m.Vars[v].Name = name
	return m
}

// outcome gives an outcome another name.
func (n *Net) withOutcome(v, k int, name string) *Net {
	m := n.clone()
	m.Vars[v].Out[k] = name
	return m
}

// worded enumerates networks with unusual names and outcomes: each word as the name of each variable
// and as the first and last outcome of each chance and decision variable; each pair of similar words as
// names of two variables, and as the outcomes of one.
func worded(n *Net, ok func(w string) bool, use func(what string, m *Net)) {
	f := func(what string, m *Net) {
		if m.distinct() {
			use(what, m)
		}
	}
	act := n.actives()
	for _, w := range words {
		if !ok(w) {
			continue
		}
		for v := range n.Vars {
			f(fmt.Sprintf("variable %d named %q", v, w), n.renamed(v, w))
		}
		for _, v := range act {
			for _, k := range []int{0, n.arity(v) - 1} {
				f(fmt.Sprintf("outcome %d of variable %d named %q", k, v, w), n.withOutcome(v, k, w))
			}
		}
	}
	for _, p := range wordPairs {
		for order := 0; order < 2; order++ {
			x, y := p[order], p[1-order]
			if !ok(x) || !ok(y) {
				continue
			}
			for v := 1; v < len(n.Vars); v++ {
				f(fmt.Sprintf("variables named %q and %q", x, y), n.renamed(v-1, x).renamed(v, y))
			}
			for _, v := range act {
				if n.arity(v) > 1 {
					f(fmt.Sprintf("outcomes of variable %d named %q and %q", v, x, y), n.withOutcome(v, 0, x).withOutcome(v, n.arity(v)-1, y))
				}
			}
		}
	}
	// the same word for everything that may have the same name
	for _, w := range []string{"x", "1", "true"} {
		m := n.renamed(0, w)
		for _, v := range act {
			m = m.withOutcome(v, 0, w)
		}
		f(fmt.Sprintf("variable and outcomes named %q", w), m)
	}
	// names and outcomes that give the same text when they are put together
	if len(n.Vars) > 2 {
		m := n.renamed(0, "a").renamed(1, "b").renamed(2, "a b")
		f("names that are lists of names", m)
		m = n.renamed(0, "a,b").renamed(1, "a").renamed(2, "b,a")
		if ok("a,b") {
			f("names that are lists of names", m)
		}
		m = n.renamed(0, "a").renamed(1, "aa").renamed(2, "aaa")
		f("names that are prefixes", m)
		m = n.renamed(0, "ab").renamed(1, "c").renamed(2, "a")
		f("names that are prefixes", m)
		m = n.renamed(0, "v2").renamed(1, "v0").renamed(2, "v1")
		f("permuted names", m)
	}
}

// distinct tells whether names, and outcomes of each variable, are all different.
func (n *Net) distinct() bool {
	names := map[string]bool{}
	for _, v := range n.Vars {
		if names[v.Name] {
			return false
		}
		names[v.Name] = true
		out := map[string]bool{}
		for _, o := range v.Out {
			if out[o] {
				return false
			}
			out[o] = true
		}
	}
	return true
}
