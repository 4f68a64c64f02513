package main

import (
	"fmt"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/logic"
)

func init() {
	register(&Check{ID: "C14", Run: runC14,
		Rule:   "every operator by name and by constructor x every number of parents up to the bound x every argument tuple in and around the valid range, the complete table compared with the documented predicate evaluated on every combination of parent outcomes; the same operators in network files, in upper, lower and mixed case, by their tables and by queries for every combination of parent outcomes; wrong numbers of parents and arguments must be errors.",
		Assume: []string{"operators on outcomes accept an index one past the last outcome (or refuse it)"},
	})
}

// logicOp describes an operator: the documented outcome for a combination of parents.
type logicOp struct {
	name    string
	parents int // required number; -1: any
	args    int // number of arguments; -1: one or more indices and the number of outcomes
	cols    func(k int) int
	// outcome returns the row for the parents (0 is the first outcome, true), and whether the arguments fit
	row func(x []int, args []int) []float64
	fit func(k int, args []int) int // 1 valid, 0 invalid, -1 either
	// build makes it by its constructor
	build func(args []int) logic.Factor
}

func tf(b bool) []float64 {
	if b {
		return []float64{1, 0}
	}
	return []float64{0, 1}
}

func oneHot(n, k int) []float64 {
	r := make([]float64, n)
	r[k] = 1
	return r
}

var half = []float64{0.5, 0.5}

func logicOps() []logicOp {
	ops := []logicOp{}
	two := func(k int) int { return 2 }
	yes := func(k int, args []int) int { return 1 }
	un := func(name string, f func(a bool) []float64, b func() logic.Factor) {
		ops = append(ops, logicOp{name, 1, 0, two, func(x, _ []int) []float64 { return f(x[0] == 0) }, yes, func([]int) logic.Factor { return b() }})
	}
	bin := func(name string, f func(a, b bool) bool, b func() logic.Factor) {
		ops = append(ops, logicOp{name, 2, 0, two, func(x, _ []int) []float64 { return tf(f(x[0] == 0, x[1] == 0)) }, yes, func([]int) logic.Factor { return b() }})
	}
	un("not", func(a bool) []float64 { return tf(!a) }, logic.Not)
	bin("and", func(a, b bool) bool { return a && b }, logic.And)
	bin("not-and", func(a, b bool) bool { return !a && b }, logic.NotAnd)
	bin("and-not", func(a, b bool) bool { return a && !b }, logic.AndNot)
	bin("not-and-not", func(a, b bool) bool { return !a && !b }, logic.NotAndNot)
	bin("or", func(a, b bool) bool { return a || b }, logic.Or)
	bin("not-or", func(a, b bool) bool { return !a || b }, logic.NotOr)
	bin("or-not", func(a, b bool) bool { return a || !b }, logic.OrNot)
	bin("not-or-not", func(a, b bool) bool { return !a || !b }, logic.NotOrNot)
	bin("xor", func(a, b bool) bool { return a != b }, logic.XOr)
	bin("cond", func(a, b bool) bool { return !a || b }, logic.Cond)
	bin("not-cond", func(a, b bool) bool { return a || b }, logic.NotCond)
	bin("cond-not", func(a, b bool) bool { return !a || !b }, logic.CondNot)
	bin("not-cond-not", func(a, b bool) bool { return a || !b }, logic.NotCondNot)
	bin("bicond", func(a, b bool) bool { return a == b }, logic.BiCond)
	cnd := func(when, then bool) func(a bool) []float64 {
		return func(a bool) []float64 {
			if a == when {
				return tf(then)
			}
			return half
		}
	}
	un("if-then", cnd(true, true), logic.IfThen)
	un("if-not-then", cnd(false, true), logic.IfNotThen)
	un("if-then-not", cnd(true, false), logic.IfThenNot)
	un("if-not-then-not", cnd(false, false), logic.IfNotThenNot)
	un("equals", tf, logic.Equals)
	un("equals-not", func(a bool) []float64 { return tf(!a) }, logic.EqualsNot)

	count := func(x []int) int {
		c := 0
		for _, v := range x {
			if v == 0 {
				c++
			}
		}
		return c
	}
	more := func(k int) int { return k + 1 }
	ops = append(ops,
		logicOp{"count-true", -1, 0, more, func(x, _ []int) []float64 { return oneHot(len(x)+1, count(x)) }, yes, func([]int) logic.Factor { return logic.CountTrue() }},
		logicOp{"count-false", -1, 0, more, func(x, _ []int) []float64 { return oneHot(len(x)+1, len(x)-count(x)) }, yes, func([]int) logic.Factor { return logic.CountFalse() }},
		logicOp{"count-is", -1, 1, two, func(x, a []int) []float64 { return tf(count(x) == a[0]) }, yes, func(a []int) logic.Factor { return logic.CountIs(a[0]) }},
		logicOp{"count-less", -1, 1, two, func(x, a []int) []float64 { return tf(count(x) < a[0]) }, yes, func(a []int) logic.Factor { return logic.CountLess(a[0]) }},
		logicOp{"count-greater", -1, 1, two, func(x, a []int) []float64 { return tf(count(x) > a[0]) }, yes, func(a []int) logic.Factor { return logic.CountGreater(a[0]) }},
	)
	inRange := func(k int, a []int) int {
		if a[0] >= 0 && a[0] < k {
			return 1
		}
		return 0
	}
	ops = append(ops,
		logicOp{"given", -1, 1, two, func(x, a []int) []float64 { return tf(x[a[0]] == 0) }, inRange, func(a []int) logic.Factor { return logic.Given(a[0]) }},
		logicOp{"given-not", -1, 1, two, func(x, a []int) []float64 { return tf(x[a[0]] != 0) }, inRange, func(a []int) logic.Factor { return logic.GivenNot(a[0]) }},
		logicOp{"given-excl", -1, 1, two, func(x, a []int) []float64 { return tf(x[a[0]] == 0 && count(x) == 1) }, inRange, func(a []int) logic.Factor { return logic.GivenExcl(a[0]) }},
		logicOp{"bits", -1, 0, func(k int) int { return 1 << k }, func(x, _ []int) []float64 {
			v := 0
			for _, b := range x { // the first parent is the highest bit
				v = v*2 + 1 - b
			}
			return oneHot(1<<len(x), v)
		}, yes, func([]int) logic.Factor { return logic.Bits() }},
	)
	idx := func(k int, a []int) int {
		n := a[len(a)-1]
		if n < 1 {
			return 0
		}
		for _, i := range a[:len(a)-1] {
			if i < 0 || i >= n {
				return 0
			}
		}
		return 1
	}
	idxMax := func(k int, a []int) int {
		if a[1] >= 1 && a[0] == a[1] {
			return -1
		}
		return idx(k, a)
	}
	ops = append(ops,
		logicOp{"outcome-is", 1, 2, two, func(x, a []int) []float64 { return tf(x[0] == a[0]) }, idx, func(a []int) logic.Factor { return logic.OutcomeIs(a[0], a[1]) }},
		logicOp{"outcome-is-not", 1, 2, two, func(x, a []int) []float64 { return tf(x[0] != a[0]) }, idx, func(a []int) logic.Factor { return logic.OutcomeIsNot(a[0], a[1]) }},
		logicOp{"outcome-either", 1, -1, two, func(x, a []int) []float64 { return tf(has(a[:len(a)-1], x[0])) }, idx, func(a []int) logic.Factor {
			return logic.OutcomeEither(append([]int{}, a[:len(a)-1]...), a[len(a)-1])
		}},
		logicOp{"outcome-less", 1, 2, two, func(x, a []int) []float64 { return tf(x[0] < a[0]) }, idxMax, func(a []int) logic.Factor { return logic.OutcomeLess(a[0], a[1]) }},
		logicOp{"outcome-greater", 1, 2, two, func(x, a []int) []float64 { return tf(x[0] > a[0]) }, idxMax, func(a []int) logic.Factor { return logic.OutcomeGreater(a[0], a[1]) }},
	)
	return ops
}

func findOp(name string) *logicOp {
	for _, o := range logicOps() {
		if o.name == name {
			return &o
		}
	}
	return nil
}

// parentArity of the parents of an operator.
func (o *logicOp) parentArity(args []int) int {
	if strings.HasPrefix(o.name, "outcome-") {
		return args[len(args)-1]
	}
	return 2
}

// rows evaluates the predicate on every combination, first parent slowest.
func (o *logicOp) rows(k int, args []int, f func(x []int, row []float64)) {
	product(rep(o.parentArity(args), k), func(x []int) { f(x, o.row(x, args)) })
}

// valid: 1 the operator must give a table, 0 must give an error, -1 either.
func (o *logicOp) valid(k int, args []int) int {
	if o.parents >= 0 && k != o.parents {
		return 0
	}
	if (o.args >= 0 && len(args) != o.args) || (o.args < 0 && len(args) < 2) {
		return 0
	}
	return o.fit(k, args)
}

// argTuples enumerates arguments in and around the valid range.
func (o *logicOp) argTuples(k, maxLen int, f func(a []int)) {
	switch {
	case o.args == 0:
		f(nil)
	case o.args == 1:
		for v := -3; v <= k+3; v++ {
			f([]int{v})
		}
		for _, v := range []int{100, 1 << 40, -1 << 40} {
			f([]int{v})
		}
	case o.args == 2:
		for n := -1; n <= maxLen; n++ {
			for i := -2; i <= n+2; i++ {
				f([]int{i, n})
			}
		}
	default:
		for n := -1; n <= maxLen && n <= 6; n++ {
			for cnt := 1; cnt <= 3; cnt++ {
				lo, hi := -1, n
				if hi < lo {
					hi = lo
				}
				product(rep(hi-lo+1, cnt), func(x []int) {
					a := []int{}
					for _, v := range x {
						a = append(a, v+lo)
					}
					f(append(a, n))
				})
			}
		}
		for n := 1; n <= maxLen; n++ { // many indices
			a := []int{}
			for i := n - 1; i >= 0; i -= 2 {
				a = append(a, i)
			}
			f(append(a, n))
			f(append(seq(n), n))
		}
	}
}

// compare checks a table against the predicate.
func (o *logicOp) compare(t *T, what string, k int, args []int, table []float64) {
	cols := o.cols(k)
	want := 1
	for i := 0; i < k; i++ {
		want *= o.parentArity(args)
	}
	if len(table) != want*cols {
		t.Failf("%s: table with %d values, expected %d", what, len(table), want*cols)
	}
	r := 0
	o.rows(k, args, func(x []int, row []float64) {
		got := table[r*cols : (r+1)*cols]
		r++
		if !bitsEqual(got, row) {
			key := ""
			if o.name == "outcome-greater" && x[0] == args[0] && bitsEqual(got, []float64{1, 0}) {
				key = "outcome-greater includes the outcome itself"
			}
			if key != "" {
				t.FailKey(key, "%s: row for parents %v is %v, expected %v", what, x, got, row)
				return
			}
			t.Failf("%s: row for parents %v is %v, expected %v", what, x, got, row)
		}
		t.c.States++
	})
	t.Outcome(hashFloats(uint64(k+1), table))
}

func mixedCase(s string) string {
	b := []byte(s)
	for i := range b {
		if i%2 == 0 && b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func runC14(c *Ctx) {
	maxK, maxLen, maxBits, maxFile := 12, 40, 10, 6
	if c.Thorough {
		maxK, maxLen, maxBits, maxFile = 15, 70, 11, 8
	}
	for _, op := range logicOps() {
		for k := 0; k <= maxK; k++ {
			if op.name == "bits" && k > maxBits {
				continue
			}
			if op.parents >= 0 && k > 4 {
				continue
			}
			op.argTuples(k, maxLen, func(args []int) {
				what := fmt.Sprintf("%s %v with %d parents", op.name, args, k)
				c.Case(func() string { return what }, func(t *T) {
					v := op.valid(k, args)
					one := func(how string, f logic.Factor, serr error) []float64 {
						t.c.Transitions++
						if serr != nil {
							if v == 1 {
								t.Failf("%s, %s: arguments refused: %v", what, how, serr)
							}
							return nil
						}
						tab, err := f.Table(k)
						if err != nil {
							if v == 1 {
								t.Failf("%s, %s: %v", what, how, err)
							}
							if tab != nil {
								t.Failf("%s, %s: table in addition to the error", what, how)
							}
							return nil
						}
						if v == 0 {
							t.Failf("%s, %s: accepted, gives %v", what, how, tab)
						}
						op.compare(t, what+", "+how, k, args, tab)
						again, err := f.Table(k)
						if err != nil || !bitsEqual(again, tab) {
							t.Failf("%s, %s: second table differs: %v, %v", what, how, again, tab)
						}
						return tab
					}
					f, ok := logic.Get(op.name)
					if !ok {
						t.Failf("operator %s not found", op.name)
					}
					a := one("by name", f, f.SetArgs(args...))
					b := one("by constructor", op.build(args), nil)
					if !bitsEqual(a, b) {
						t.Failf("%s: by name %v, by constructor %v", what, a, b)
					}
					t.c.Traces++
				})
			})
			// wrong number of arguments
			for _, args := range [][]int{{}, {0}, {1}, {0, 1}, {0, 2}, {0, 1, 2}, {1, 1, 1, 1}} {
				if (op.args >= 0 && len(args) == op.args) || (op.args < 0 && len(args) >= 2) {
					continue
				}
				c.Case(func() string { return fmt.Sprintf("%s with arguments %v", op.name, args) }, func(t *T) {
					f, _ := logic.Get(op.name)
					if f == nil {
						t.Failf("operator %s not found", op.name)
					}
					if err := f.SetArgs(args...); err == nil {
						t.Failf("%d arguments accepted", len(args))
					}
					t.c.States++
					t.c.Transitions++
				})
			}
		}
		// in network files
		for k := 0; k <= maxFile; k++ {
			if op.name == "bits" && k > maxFile-2 || op.parents >= 0 && k > 4 {
				continue
			}
			op.argTuples(k, 4, func(args []int) {
				for _, name := range []string{op.name, strings.ToUpper(op.name), mixedCase(op.name)} {
					text := logicFile(&op, name, k, args)
					c.Case(func() string { return text }, func(t *T) {
						real, err := bbn.FromYAML([]byte(text))
						v := op.valid(k, args)
						t.c.Transitions++
						if err != nil {
							if v == 1 {
								t.Failf("%v", err)
							}
							return
						}
						if v == 0 {
							t.Failf("accepted: %v", real.Variables()[k].Factor.Table)
						}
						op.compare(t, "table", k, args, real.Variables()[k].Factor.Table)
						cols := op.cols(k)
						op.rows(k, args, func(x []int, row []float64) {
							ev := map[string]string{}
							for i, o := range x {
								ev[fmt.Sprintf("p%d", i)] = fmt.Sprintf("o%d", o)
							}
							res, _, err := real.SolveQuery(ev, []string{"x"}, false)
							if err != nil {
								t.Failf("query given %v: %v", ev, err)
							}
							if op.name == "outcome-greater" && x[0] == args[0] {
								return // see compare
							}
							if len(res["x"]) != cols || !nearAll(res["x"], row) {
								t.Failf("query given %v: %v, expected %v", ev, res["x"], row)
							}
							t.c.States++
						})
						t.c.Traces++
					})
				}
			})
		}
	}
	names := map[string]bool{}
	for _, op := range logicOps() {
		names[op.name] = true
	}
	for _, bad := range []string{"", "nand", "nor", "implies", "iff", "and_not", "andnot", "count", "outcome", "given-", "-and", "and-", "if", "bit", "true", "not-not", "and-and", "equal"} {
		c.Case(func() string { return "unknown operator " + bad }, func(t *T) {
			if f, ok := logic.Get(bad); ok {
				t.Failf("operator %q found: %v", bad, f)
			}
			text := fmt.Sprintf("name: n\nvariables:\n- variable: a\n  outcomes: [y, n]\n  table: [[1, 1]]\n- variable: x\n  outcomes: [y, n]\n  given: [a]\n  logic: \"%s 1\"\n", bad)
			if _, err := bbn.FromYAML([]byte(text)); err == nil {
				t.Failf("operator %q accepted in a file", bad)
			}
			t.c.States++
			t.c.Transitions += 2
		})
	}
}

// logicFile writes a network with one logic node.
func logicFile(op *logicOp, name string, k int, args []int) string {
	b := strings.Builder{}
	b.WriteString("name: logic\nvariables:\n")
	g := []string{}
	pa := 2
	if strings.HasPrefix(op.name, "outcome-") {
		pa = args[len(args)-1]
		if pa < 1 {
			pa = 2
		}
	}
	list := func(n int) string {
		o := []string{}
		for i := 0; i < n; i++ {
			o = append(o, fmt.Sprintf("o%d", i))
		}
		return strings.Join(o, ", ")
	}
	for i := 0; i < k; i++ {
		row := []string{}
		for j := 0; j < pa; j++ {
			row = append(row, fmt.Sprint(1+(i*3+j*5)%7))
		}
		fmt.Fprintf(&b, "- variable: p%d\n  outcomes: [%s]\n  table: [[%s]]\n", i, list(pa), strings.Join(row, ", "))
		g = append(g, fmt.Sprintf("p%d", i))
	}
	l := name
	for _, a := range args {
		l += fmt.Sprintf(" %d", a)
	}
	fmt.Fprintf(&b, "- variable: x\n  outcomes: [%s]\n  given: [%s]\n  logic: %s\n", list(op.cols(k)), strings.Join(g, ", "), l)
	return b.String()
}
