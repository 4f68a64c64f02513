package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/verifrt"
	"github.com/mlange-42/bbn/logic"
	"github.com/mlange-42/bbn/ve"
)

func init() {
	register(&Check{ID: "C15", Run: runC15,
		Rule:   "schedules: two goroutines that each load, solve, query, train or save a network of their own, for all ordered pairs of programs; the library is compiled with a scheduling point before every statement and a scheduler that lets one goroutine run at a time explores all schedules with one preemption (at every point), and with two preemptions (every pair of points) for the loading of networks with logic operators. Histories: all interleavings of the operations of two networks; all sequences of look-ups, arguments, tables and changes of returned tables on two operator handles up to the depth bound, for all pairs of operators with arguments and every operator with itself. Every result is compared with what the program gives alone in a process of its own, or with the table of an operator made by its constructor. Accesses without synchronisation between scheduling points are covered by a run of all pairs under the race detector.",
		Assume: []string{"preemption happens between statements of the library, anything finer is left to the race detector"},
	})
	subcommands["c15alone"] = func(args []string) {
		for _, p := range c15Programs() {
			if p.name == args[0] {
				b, _ := json.Marshal(p.do())
				fmt.Println(string(b))
				return
			}
		}
		os.Exit(4)
	}
	subcommands["c15race"] = c15Race
}

// pres is the result of a program.
type pres struct {
	L []string
	V []string // numbers, exact
	v []float64
}

func (r *pres) label(format string, a ...any) { r.L = append(r.L, fmt.Sprintf(format, a...)) }
func (r *pres) nums(l string, v []float64) {
	r.label("%s %d", l, len(v))
	for _, x := range v {
		r.V = append(r.V, fmt.Sprintf("%x", math.Float64bits(x)))
		r.v = append(r.v, x)
	}
}

func (r *pres) parse() {
	r.v = nil
	for _, s := range r.V {
		var b uint64
		fmt.Sscanf(s, "%x", &b)
		r.v = append(r.v, math.Float64frombits(b))
	}
}

// differs compares with the result alone.
func (r *pres) differs(alone *pres) string {
	if fmt.Sprint(r.L) != fmt.Sprint(alone.L) || len(r.v) != len(alone.v) {
		return fmt.Sprintf("%v %v, alone %v %v", r.L, r.v, alone.L, alone.v)
	}
	for i := range r.v {
		if !near(r.v[i], alone.v[i]) && !(math.IsNaN(r.v[i]) && math.IsNaN(alone.v[i])) {
			return fmt.Sprintf("%v %v, alone %v", r.L, r.v, alone.v)
		}
	}
	return ""
}

type program struct {
	name string
	// steps are the operations, on a state of their own
	steps func() []func(r *pres)
	small bool // few points: two preemptions
}

func (p *program) do() (r *pres) {
	r = &pres{}
	defer func() {
		if e := recover(); e != nil {
			r.label("panic: %v", e)
		}
	}()
	for _, s := range p.steps() {
		s(r)
	}
	return r
}

func c15Programs() []program {
	ps := []program{}
	tables := func(r *pres, b *bbn.Network) {
		for _, v := range b.Variables() {
			r.label("%s %d %v", v.Name, v.NodeType, v.Outcomes)
			if v.Factor != nil {
				r.label("%v", v.Factor.Given)
				r.nums("table", v.Factor.Table)
			}
		}
	}
	query := func(r *pres, b *bbn.Network, ev map[string]string, q ...string) {
		res, f, err := b.SolveQuery(ev, q, false)
		if err != nil {
			r.label("error %v", err)
			return
		}
		for _, n := range q {
			r.nums(n, res[n])
		}
		_ = f
	}
	loaded := func(name, text string, small bool, more func(b **bbn.Network) []func(r *pres)) {
		ps = append(ps, program{name, func() []func(r *pres) {
			var b *bbn.Network
			s := []func(r *pres){func(r *pres) {
				var err error
				if b, err = bbn.FromYAML([]byte(text)); err != nil {
					r.label("error %v", err)
					b = nil
					return
				}
			}}
			if more != nil {
				for _, f := range more(&b) {
					s = append(s, func(r *pres) {
						if b != nil {
							f(r)
						}
					})
				}
			}
			return append(s, func(r *pres) {
				if b != nil {
					tables(r, b)
				}
			})
		}, small})
	}
	for _, l := range []struct {
		op   string
		k    int
		args []int
	}{
		{"count-is", 2, []int{1}}, {"count-is", 2, []int{2}}, {"count-less", 3, []int{2}}, {"given", 2, []int{0}}, {"given", 2, []int{1}},
		{"given-excl", 2, []int{1}}, {"given-not", 2, []int{0}}, {"outcome-is", 1, []int{1, 3}}, {"outcome-is", 1, []int{0, 2}}, {"outcome-either", 1, []int{0, 2, 4}},
		{"outcome-either", 1, []int{1, 3}}, {"outcome-less", 1, []int{2, 3}}, {"if-then", 1, nil}, {"and", 2, nil}, {"bits", 2, nil}, {"count-true", 2, nil},
	} {
		loaded(fmt.Sprintf("%s %v", l.op, l.args), logicFile(findOp(l.op), l.op, l.k, l.args), true, nil)
	}
	// networks with logic operators, trained: tables before and after
	for _, l := range []struct {
		op   string
		k    int
		args []int
		seed int
	}{{"not", 1, nil, 0}, {"not", 1, nil, 1}, {"count-is", 2, []int{1}, 0}, {"if-then", 1, nil, 1}, {"outcome-is", 1, []int{1, 3}, 0}, {"bits", 2, nil, 1}} {
		loaded(fmt.Sprintf("training %s %v %d", l.op, l.args, l.seed), logicFile(findOp(l.op), l.op, l.k, l.args), false, func(b **bbn.Network) []func(r *pres) {
			return []func(r *pres){
				func(r *pres) { tables(r, *b) },
				func(r *pres) {
					tr := bbn.NewTrainer(*b)
					dims := []int{}
					for _, v := range (*b).Variables() {
						dims = append(dims, len(v.Outcomes))
					}
					product(dims, func(x []int) {
						for m := 0; m <= mix(l.seed, x[0], x[len(x)-1])%4; m++ {
							tr.AddSample(append([]int{}, x...), make([]float64, len(x)))
						}
					})
					_, err := tr.UpdateNetwork()
					r.label("%v", err)
				},
				func(r *pres) { query(r, *b, map[string]string{"x": "o0"}, "p0") },
				func(r *pres) {
					// the owner changes the tables
					for _, v := range (*b).Variables() {
						for i := range v.Factor.Table {
							v.Factor.Table[i] = float64(i + l.seed + 2)
						}
					}
				},
			}
		})
	}
	chain := writeYAML(chanceNet([][]int{{}, {0}, {0, 1}}, []int{2, 3, 2}, 31))
	loaded("chance network", chain, false, func(b **bbn.Network) []func(r *pres) {
		return []func(r *pres){
			func(r *pres) { query(r, *b, nil, "v0") },
			func(r *pres) { query(r, *b, map[string]string{"v2": "a"}, "v1") },
		}
	})
	loaded("chance network with other tables", writeYAML(chanceNet([][]int{{}, {0}, {0, 1}}, []int{2, 3, 2}, 39)), false, func(b **bbn.Network) []func(r *pres) {
		return []func(r *pres){
			func(r *pres) { query(r, *b, nil, "v0") },
			func(r *pres) { query(r, *b, map[string]string{"v2": "a"}, "v1") },
		}
	})
	// files of the same name and size
	for k := 1; k <= 2; k++ {
		text := writeYAML(chanceNet([][]int{{}, {0}}, []int{2, 2}, 60+k))
		text += "# " + strings.Repeat("x", 2000-len(text)) + "\n"
		ps = append(ps, program{fmt.Sprintf("file %d", k), func() []func(r *pres) {
			var b *bbn.Network
			return []func(r *pres){
				func(r *pres) {
					dir, err := os.MkdirTemp("", "verif-c15-")
					if err != nil {
						panic(err)
					}
					defer os.RemoveAll(dir)
					if err := os.WriteFile(filepath.Join(dir, "net.yml"), []byte(text), 0o644); err != nil {
						panic(err)
					}
					if b, err = bbn.FromFile(filepath.Join(dir, "net.yml")); err != nil {
						panic(err)
					}
				},
				func(r *pres) { query(r, b, nil, "v1") },
				func(r *pres) { tables(r, b) },
			}
		}, false})
	}
	other := writeYAML(chanceNet([][]int{{2}, {0}, {}}, []int{3, 2, 2}, 32))
	loaded("another chance network", other, false, func(b **bbn.Network) []func(r *pres) {
		return []func(r *pres){func(r *pres) { query(r, *b, map[string]string{"v1": "b"}, "v2", "v0") }}
	})
	dec := func(seed int, step bool, n *Net) {
		loaded(fmt.Sprintf("decision network %d", seed), writeYAML(n), false, func(b **bbn.Network) []func(r *pres) {
			return []func(r *pres){
				func(r *pres) {
					pol, err := (*b).SolvePolicies(step)
					if err != nil {
						r.label("error %v", err)
						return
					}
					for _, d := range n.decisions() {
						pl := n.polFrom(pol[n.Vars[d].Name])
						sorted := append([]int{}, pl.Scope...)
						sort.Ints(sorted)
						r.label("%v", sorted)
						tab := []float64{}
						x := make([]int, len(n.Vars))
						n.rfEach(append(sorted, d), x, func() { tab = append(tab, pl.Table[n.scopeIndex(append(pl.Scope, d), x)]) })
						r.nums("policy", tab)
					}
				},
				func(r *pres) {
					f, err := (*b).SolveUtility(map[string]string{n.Vars[0].Name: n.Vars[0].Out[0]}, nil, "", false)
					if err != nil {
						r.label("error %v", err)
						return
					}
					r.nums("utility", f.Data())
				},
				func(r *pres) { query(r, *b, nil, n.Vars[1].Name) },
			}
		})
	}
	dec(1, true, decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 33))
	dec(2, false, decNet([][]int{{}, {0}}, []int{decision, chance}, []int{2, 3}, [][]int{{0, 1}}, 0, 34))
	dec(3, true, withTotal(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}, {1}}, 0, 35), []float64{2, -1}, true, 1))
	dec(4, true, decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 46))
	// training
	tn := decNet([][]int{{}, {0}}, []int{chance, chance}, []int{2, 2}, [][]int{{1}}, 0, 36)
	loaded("training", writeYAML(tn), false, func(b **bbn.Network) []func(r *pres) {
		var tr bbn.Trainer
		return []func(r *pres){
			func(r *pres) { tr = bbn.NewTrainer(*b) },
			func(r *pres) {
				for _, s := range covering(tn, 3) {
					tr.AddSample(s.x, s.u)
				}
			},
			func(r *pres) {
				_, err := tr.UpdateNetwork()
				r.label("%v", err)
			},
			func(r *pres) { query(r, *b, map[string]string{"v1": "a"}, "v0") },
		}
	})
	// XML and saving
	xn := chanceNet([][]int{{}, {0}}, []int{2, 2}, 37)
	xml := writeXML(xn, xmlStyle{sep: " "})
	ps = append(ps, program{"xml", func() []func(r *pres) {
		var b *bbn.Network
		return []func(r *pres){
			func(r *pres) {
				var err error
				if b, err = bbn.FromBIFXML([]byte(xml)); err != nil {
					panic(err)
				}
			},
			func(r *pres) { query(r, b, nil, "v1") },
			func(r *pres) {
				y, err := bbn.ToYAML(b)
				r.label("%s %v", y, err)
			},
		}
	}, false})
	// built in memory
	bn := decNet([][]int{{}, {0}}, []int{chance, chance}, []int{3, 2}, [][]int{{0}}, 0, 38)
	ps = append(ps, program{"built", func() []func(r *pres) {
		var b *bbn.Network
		return []func(r *pres){
			func(r *pres) {
				var err error
				if b, err = bn.build(); err != nil {
					panic(err)
				}
			},
			func(r *pres) { query(r, b, map[string]string{"v1": "a"}, "v0") },
			func(r *pres) {
				f, err := b.SolveUtility(nil, []string{"v1"}, "u0", false)
				if err != nil {
					r.label("error %v", err)
					return
				}
				m := b.Marginal(f, "v1")
				r.nums("utility", m.Data())
			},
			func(r *pres) { tables(r, b) },
		}
	}, false})
	// faulty
	loaded("faulty", "name: x\nvariables:\n- variable: A\n  outcomes: [a, b]\n  logic: count-is 1 2\n", true, nil)
	loaded("unknown operator", "name: x\nvariables:\n- variable: A\n  outcomes: [a, b]\n  logic: nonsense\n", true, nil)
	loaded("unknown parent", "name: x\nvariables:\n- variable: A\n  outcomes: [a, b]\n  given: [v1]\n  table: [[1, 2], [2, 1]]\n", true, nil)
	loaded("unknown parent of an operator", "name: x\nvariables:\n- variable: A\n  outcomes: [a, b]\n  given: [p0]\n  logic: not\n", true, nil)
	loaded("unknown utility", "name: n\nvariables:\n- variable: v0\n  outcomes: [a, b]\n- variable: T\n  type: utility\n  outcomes: [u0]\n  given: [u0]\n  table: [[1]]\n", true, nil)
	// variable elimination directly
	for k := 1; k <= 2; k++ {
		ps = append(ps, program{fmt.Sprintf("elimination %d", k), func() []func(r *pres) {
			return []func(r *pres){func(r *pres) {
				vars := ve.NewVariables()
				a := vars.AddVariable(0, ve.ChanceNode, 2)
				b := vars.AddVariable(1, ve.ChanceNode, uint16(2+k))
				fa := vars.CreateFactor([]ve.Variable{a}, []float64{0.25, 0.75})
				tab := []float64{}
				for i := 0; i < 2*(2+k); i++ {
					tab = append(tab, float64(i*k+1))
				}
				fb := vars.CreateFactor([]ve.Variable{a, b}, tab)
				e := ve.New(vars, []ve.Factor{fa, fb}, nil, nil)
				res := e.SolveQuery([]ve.Evidence{{Variable: b, Value: 1}}, []ve.Variable{a})
				n := vars.Normalize(res)
				r.nums("res", n.Data())
			}}
		}, true})
	}
	return ps
}

// ---------------------------------------------------------------------------
// The scheduler: one of two goroutines runs at a time.

type schedule struct {
	count  atomic.Int64 // points of the running goroutine in this turn
	target int64        // where to stop, 0: nowhere
	free   atomic.Bool
	yield  chan struct{}
	resume chan struct{}
}

func (s *schedule) hook() {
	if s.free.Load() {
		return
	}
	if s.count.Add(1) == s.target {
		r := s.resume
		s.yield <- struct{}{}
		<-r
	}
}

// runPreempted runs p and q: p until its i-th point, q until its j-th (0: to the end), the rest of p, the rest of q.
// It returns the results and whether each was stopped.
func runPreempted(p, q func() *pres, i, j int64) (rp, rq *pres, stopped [2]bool, points [2]int64, blocked bool) {
	s := &schedule{yield: make(chan struct{})}
	verifrt.PointHook = s.hook
	defer func() { verifrt.PointHook = nil }()
	done := [2]chan *pres{make(chan *pres, 1), make(chan *pres, 1)}
	resume := [2]chan struct{}{make(chan struct{}), make(chan struct{})}
	res := [2]*pres{}
	turn := func(k int, f func() *pres, target int64) bool { // false: blocked
		s.count.Store(0)
		s.target = target
		s.resume = resume[k]
		if f != nil {
			go func() { done[k] <- f() }()
		} else {
			resume[k] <- struct{}{}
		}
		seen, idle := int64(-1), 0
		timer := time.NewTimer(5 * time.Millisecond)
		defer timer.Stop()
		for {
			select {
			case res[k] = <-done[k]:
				points[k] += s.count.Load()
				return true
			case <-s.yield:
				stopped[k] = true
				points[k] += s.count.Load()
				return true
			case <-timer.C:
				if c := s.count.Load(); c != seen {
					seen, idle = c, 0
				} else if idle++; idle > 2 {
					return false // waits for the other one
				}
				timer.Reset(5 * time.Millisecond)
			}
		}
	}
	release := func() { // let everything run
		blocked = true
		s.free.Store(true)
		close(resume[0])
		close(resume[1])
		end := make(chan struct{})
		go func() {
			for {
				select {
				case <-s.yield:
				case <-end:
					return
				}
			}
		}()
		for k := range done {
			if res[k] == nil {
				res[k] = <-done[k]
			}
		}
		close(end)
	}
	if !turn(0, p, i) { // slow, there is nobody to wait for
		select {
		case res[0] = <-done[0]:
		case <-s.yield:
			stopped[0] = true
		}
	}
	if !turn(1, q, j) {
		release()
		return res[0], res[1], stopped, points, true
	}
	if stopped[0] && res[0] == nil {
		if !turn(0, nil, 0) {
			release()
			return res[0], res[1], stopped, points, true
		}
	}
	if stopped[1] && res[1] == nil {
		if !turn(1, nil, 0) {
			release()
		}
	}
	return res[0], res[1], stopped, points, false
}

var aloneCache = map[string]*pres{}

func alone(name string) *pres {
	if r, ok := aloneCache[name]; ok {
		return r
	}
	self, _ := os.Executable()
	out, err := exec.Command(self, "c15alone", name).CombinedOutput()
	r := &pres{}
	if err != nil || json.Unmarshal(bytes.TrimSpace(out), r) != nil {
		panic(fmt.Sprintf("%s alone: %v %s", name, err, out))
	}
	r.parse()
	aloneCache[name] = r
	return r
}

func runC15(c *Ctx) {
	ps := c15Programs()
	total, inCase := 0, 0
	var last *T
	tooMany := func(t *T) bool { // schedules in which a goroutine has to wait take long, and are like others
		return inCase > 100 || (total > 1000 && inCase > 4)
	}
	both := func(t *T, p, q *program, i, j int64) (stopped [2]bool) {
		if t != last {
			last, inCase = t, 0
		}
		rp, rq, st, pts, blocked := runPreempted(p.do, q.do, i, j)
		t.c.Traces++
		t.c.States++
		t.c.Transitions += pts[0] + pts[1]
		if blocked {
			t.c.Count("schedules with a blocked goroutine", 1)
			total++
			inCase++
		}
		for k, r := range []*pres{rp, rq} {
			pr := []*program{p, q}[k]
			if m := r.differs(alone(pr.name)); m != "" {
				t.Failf("%s stopped at point %d, %s stopped at point %d: %s gives %s", p.name, i, q.name, j, pr.name, m)
			}
			t.Outcome(hashFloats(uint64(len(r.L)), r.v))
		}
		return st
	}
	for a := range ps {
		for b := range ps {
			p, q := &ps[a], &ps[b]
			lt := func(n string) bool { return strings.HasPrefix(n, "training ") } // training of a logic table
			use := a == b || p.small == q.small || (a+b)%3 == 0
			if lt(p.name) || lt(q.name) {
				use = a == b || (lt(p.name) && lt(q.name) && (a+b)%2 == 0) || (a+b)%6 == 0
			}
			if c.Thorough || use {
				c.Case(func() string { return fmt.Sprintf("%s, with one preemption by %s", p.name, q.name) }, func(t *T) {
					both(t, p, q, 0, 0)
					for i := int64(1); ; i++ {
						if st := both(t, p, q, i, 0); !st[0] || tooMany(t) {
							t.c.MaxOf("most scheduling points in a program", i-1)
							break
						}
					}
				})
			}
		}
	}
	// two preemptions
	for a := range ps {
		for b := range ps {
			p, q := &ps[a], &ps[b]
			if !p.small || !q.small {
				continue
			}
			// same operator with different arguments, and in thorough all
			if !c.Thorough && !(a != b && firstWord(p.name) == firstWord(q.name)) {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("%s and %s, with two preemptions", p.name, q.name) }, func(t *T) {
				for i := int64(1); ; i++ {
					more := false
					for j := int64(1); ; j++ {
						st := both(t, p, q, i, j)
						more = more || st[0]
						if !st[1] || !st[0] || tooMany(t) {
							break
						}
					}
					if !more || tooMany(t) {
						break
					}
				}
			})
		}
	}
	// histories: all interleavings of the operations
	for a := range ps {
		for b := range ps {
			if a > b {
				continue
			}
			p, q := &ps[a], &ps[b]
			c.Case(func() string { return fmt.Sprintf("all interleavings of the operations of %s and %s", p.name, q.name) }, func(t *T) {
				na, nb := len(p.steps()), len(q.steps())
				var rec func(order []int, x, y int)
				rec = func(order []int, x, y int) {
					if x == na && y == nb {
						r := []*pres{{}, {}}
						st := [][]func(r *pres){p.steps(), q.steps()}
						at := []int{0, 0}
						for _, k := range order {
							func() {
								defer func() {
									if e := recover(); e != nil {
										r[k].label("panic: %v", e)
									}
								}()
								st[k][at[k]](r[k])
							}()
							at[k]++
							t.c.Transitions++
						}
						for k, pr := range []*program{p, q} {
							if m := r[k].differs(alone(pr.name)); m != "" {
								t.Failf("operations in the order %v: %s gives %s", order, pr.name, m)
							}
						}
						t.c.Traces++
						t.c.States++
						return
					}
					if x < na {
						rec(append(order[:len(order):len(order)], 0), x+1, y)
					}
					if y < nb {
						rec(append(order[:len(order):len(order)], 1), x, y+1)
					}
				}
				rec(nil, 0, 0)
			})
		}
	}
	// handles
	depth := 5
	if c.Thorough {
		depth = 6
	}
	ops := logicOps()
	for a := range ops {
		for b := range ops {
			oa, ob := &ops[a], &ops[b]
			if a != b && (oa.args == 0 || ob.args == 0) {
				continue
			}
			d := depth
			if a != b {
				d--
			}
			c.Case(func() string { return fmt.Sprintf("handles of %s and %s", oa.name, ob.name) }, func(t *T) { handleHistories(t, oa, ob, d) })
		}
	}
	race := func(t *T, args ...string) []byte {
		cmd := exec.Command(filepath.Join(binDir(), "harness-race"), append([]string{"c15race"}, args...)...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=4")
		var errs bytes.Buffer
		cmd.Stderr = &errs
		out, err := cmd.Output()
		if err != nil {
			if bytes.Contains(errs.Bytes(), []byte("DATA RACE")) || bytes.Contains(errs.Bytes(), []byte("concurrent map")) {
				t.Failf("race: %v\n%s", err, trunc(errs.String(), 4000))
			}
			panic(fmt.Sprintf("harness: race pass: %v\n%s", err, trunc(errs.String(), 4000)))
		}
		t.c.Traces++
		return out
	}
	c.Case(func() string { return "handles under the race detector" }, func(t *T) { race(t) })
	for a := range ps {
		for b := 0; b <= a; b++ {
			c.Case(func() string { return fmt.Sprintf("%s and %s under the race detector", ps[a].name, ps[b].name) }, func(t *T) {
				t.c.Count("pairs under the race detector", 1)
				for _, l := range bytes.Split(bytes.TrimSpace(race(t, fmt.Sprint(a), fmt.Sprint(b))), []byte("\n")) {
					res := []*pres{}
					if json.Unmarshal(l, &res) != nil || len(res) != 2 {
						panic(fmt.Sprintf("harness: race pass gives %s", l))
					}
					for k, i := range []int{a, b} {
						res[k].parse()
						if m := res[k].differs(alone(ps[i].name)); m != "" {
							t.Failf("in parallel: %s gives %s", ps[i].name, m)
						}
					}
				}
			})
		}
	}
}

func firstWord(s string) string {
	for i := range s {
		if s[i] == ' ' {
			return s[:i]
		}
	}
	return s
}

// validArgs are two different valid arguments of an operator.
func (o *logicOp) validArgs(k int) [][]int {
	r := [][]int{}
	o.argTuples(k, 4, func(a []int) {
		if o.valid(k, a) == 1 && (len(r) == 0 || fmt.Sprint(r[len(r)-1]) != fmt.Sprint(a)) {
			r = append(r, append([]int{}, a...))
		}
	})
	if len(r) > 2 {
		r = [][]int{r[len(r)-1], r[len(r)/2]}
	}
	return r
}

// handleHistories runs all sequences of operations on two handles.
func handleHistories(t *T, oa, ob *logicOp, depth int) {
	type op struct{ h, what int }
	ops := [2]*logicOp{oa, ob}
	var k [2]int
	var args [2][][]int
	alpha := []op{}
	for h, o := range ops {
		k[h] = o.parents
		if k[h] < 0 {
			k[h] = 2
		}
		args[h] = o.validArgs(k[h])
		if o.args != 0 {
			for a := range args[h] {
				alpha = append(alpha, op{h, a})
			}
		}
		alpha = append(alpha, op{h, 10}, op{h, 11})
		if h == 0 {
			alpha = append(alpha, op{h, 12})
		}
	}
	// tables of operators made by their constructors
	want := map[string][]float64{}
	for h, o := range ops {
		for _, a := range append(args[h], []int{}) {
			if o.args == 0 || len(a) > 0 {
				tab, err := o.build(a).Table(k[h])
				if err != nil {
					t.Failf("%s %v: %v", o.name, a, err)
				}
				want[fmt.Sprint(h, a)] = append([]float64{}, tab...)
			}
		}
	}
	product(rep(len(alpha), depth), func(x []int) {
		var hs [2]logic.Factor
		var cur [2][]int
		get := func(h int) {
			f, ok := logic.Get(ops[h].name)
			if !ok {
				t.Failf("%s not found", ops[h].name)
			}
			hs[h] = f
			cur[h] = nil
			if ops[h].args == 0 {
				cur[h] = []int{}
			}
		}
		get(0)
		get(1)
		desc := func(n int) string {
			s := ""
			for _, q := range x[:n+1] {
				e := alpha[q]
				s += fmt.Sprintf(" %d:%s", e.h, map[int]string{0: "SetArgs A", 1: "SetArgs B", 10: "Table", 11: "Table, changed by the caller", 12: "Get"}[e.what])
			}
			return s
		}
		for n, q := range x {
			e := alpha[q]
			h := e.h
			t.c.Transitions++
			switch {
			case e.what < 10:
				a := append([]int{}, args[h][e.what]...)
				if err := hs[h].SetArgs(a...); err != nil {
					t.Failf("%s: %v", desc(n), err)
				}
				cur[h] = append([]int{}, a...)
				for i := range a {
					a[i] = -7 // the caller's slice is used for something else
				}
			case e.what == 12:
				get(h)
			default:
				tab, err := hs[h].Table(k[h])
				if cur[h] != nil {
					if err != nil {
						t.Failf("%s %v and %s:%s: %v", oa.name, args[0], ob.name, desc(n), err)
					}
					if !bitsEqual(tab, want[fmt.Sprint(h, cur[h])]) {
						t.Failf("%s %v and %s %v:%s: table %v, expected %v", oa.name, args[0], ob.name, args[1], desc(n), tab, want[fmt.Sprint(h, cur[h])])
					}
				}
				if e.what == 11 {
					for i := range tab {
						tab[i] = 99
					}
				}
			}
		}
		t.c.Traces++
	})
}

// c15Race runs one pair of programs (or the handles of one operator) in parallel, without control, in a
// process that has done nothing before.
func c15Race(args []string) {
	ps := c15Programs()
	par := func(fs ...func()) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range fs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f()
			}()
		}
		close(start)
		wg.Wait()
	}
	if len(args) == 2 {
		a, _ := strconv.Atoi(args[0])
		b, _ := strconv.Atoi(args[1])
		res := make([]*pres, 2)
		for r := 0; r < 2; r++ {
			par(func() { res[0] = ps[a].do() }, func() { res[1] = ps[b].do() })
			js, _ := json.Marshal(res)
			fmt.Println(string(js))
		}
		return
	}
	for _, o := range logicOps() {
		k := max(o.parents, 1)
		va := o.validArgs(k)
		use := func(a []int) func() {
			return func() {
				for r := 0; r < 3; r++ {
					f, _ := logic.Get(o.name)
					_ = f.SetArgs(a...)
					tab, _ := f.Table(k)
					for i := range tab {
						tab[i] = 3
					}
				}
			}
		}
		par(use(va[0]), use(va[len(va)-1]))
	}
}
