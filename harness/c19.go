package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/mlange-42/bbn"
)

func init() {
	register(&Check{ID: "C19", Run: runC19,
		Rule:   "the real app (bbni) on a scripted screen. A reference model of its state (selected node and outcome, evidence, policy mode, open dialog, node positions) is explored completely for small networks, and tours that together take every transition (state, event) are replayed against the app; all event sequences up to the depth bound from the start; all evidence assignments of all small networks in both policy modes; the same on screens smaller than the network, with scrolling. After every event the complete screen is compared with the model: borders and markers, names, labels, numbers and bars, with posteriors and utilities from the reference enumeration under the solved policies.",
		Assume: []string{"nodes do not overlap where they are clicked", "names are of single-width characters and do not contain '['", "utilities are below 1e8 in magnitude (width of the number field)"},
	})
	register(&Check{ID: "C20", Run: runC20,
		Rule:   "sessions of the real app with saves at every point: tours of the model with moves (in a window of positions, including the edges of the canvas), evidence, policy mode and dialogs in which every state is saved; all event sequences up to the depth bound followed by a save. Every time the save file is written its contents are captured and compared with the loaded network and the positions of the model; the save file is then replaced by a longer one so that the next save has to replace it. The original file and the rest of the directory are compared at the end.",
		Assume: []string{"the directory is writable"},
	})
	register(&Check{ID: "C23", Run: runC23,
		Rule:   "sessions of the real app that open the table dialog by key and by click for every node of every network up to the structure bound, of size families and of the examples, with every kind of node (chance, decision with solved policy, utility, total), unnormalised tables, different numbers of outcomes; after every event sequence of the depth bound before. Header, labels and values of every line are compared with the model, and the graph after closing.",
		Assume: []string{"columns fit into the dialog", "rows of chance tables have a positive sum"},
	})
}

// layout places the nodes side by side.
func layout(n *Net, perRow, x0, y0 int) *Net {
	m := n.clone()
	u := &ui{un: &uiNet{n: m}}
	u.pos = make([][2]int, len(m.Vars))
	x, y, rowH := x0, y0, 0
	for i := range m.Vars {
		if i > 0 && i%perRow == 0 {
			x, y, rowH = x0, y+rowH+2, 0
		}
		u.pos[i] = [2]int{x, y}
		m.Vars[i].Pos = u.pos[i]
		b := u.box(i)
		x += b.w + 3
		rowH = max(rowH, b.h)
	}
	return m
}

func clickAt(x, y int) string { return fmt.Sprintf("L:%d,%d", x, y) }

// screen position of a cell of a node
func (u *ui) onScreen(i, dx, dy int) (int, int) {
	return u.pos[i][0] + dx + 1, u.pos[i][1] + dy + 2
}

func (u *ui) clickRow(i, row int) string {
	x, y := u.onScreen(i, 5, row+2)
	return clickAt(x, y)
}

// clicks on every row of every node, and on titles
func (u *ui) clicks(titles bool) []string {
	r := []string{}
	for i := range u.un.n.Vars {
		for k := range u.un.n.Vars[i].Out {
			r = append(r, u.clickRow(i, k))
		}
		if titles {
			x, y := u.onScreen(i, 3, 1)
			r = append(r, clickAt(x, y))
			b := u.box(i)
			x, y = u.onScreen(i, b.w-1, b.h-1)
			r = append(r, clickAt(x, y))
			for _, d := range [][2]int{{-1, 2}, {b.w, 2}, {4, -1}, {4, b.h}, {0, 0}} { // just outside, and the first corner
				if x, y := u.onScreen(i, d[0], d[1]); x > 0 && y > 1 && u.pos[i][0]+d[0] >= 0 && u.pos[i][1]+d[1] >= 0 {
					r = append(r, clickAt(x, y))
				}
			}
			if u.un.n.Vars[i].Type == utility {
				r = append(r, u.clickRow(i, len(u.un.n.Vars[i].Out)))
			}
			r = append(r, "R"+clickAt(u.onScreen(i, 4, 2))[1:])
		}
	}
	return r
}

func spec(n *Net, w, h int, args ...string) uiSpec {
	return uiSpec{file: "net.yml", content: []byte(writeYAML(n)), args: args, w: w, h: h}
}

// appNets are small networks with every kind of node.
func appNets() []family {
	zero := detNet(chanceNet([][]int{{}, {0}}, []int{2, 3}, 3), 1)
	d := decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 5)
	w := withTotal(decNet([][]int{{}, {}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}, {1}}, 0, 6), []float64{2, -0.5}, true, 1)
	info := chanceNet([][]int{{}}, []int{3}, 3)
	info.Info = "Some text.\nAnother line."
	info.Name = "with info"
	two := decNet([][]int{{}, {0}, {1}}, []int{decision, chance, decision}, []int{2, 2, 2}, [][]int{{0, 2}}, 1, 7)
	r := []family{
		{"zeros", layout(zero, 2, 0, 0)},
		{"decision", layout(d, 2, 2, 1)},
		{"weighted", layout(w, 3, 0, 0)},
		{"info", layout(info, 1, 1, 1)},
		{"two decisions", layout(two, 2, 0, 3)},
	}
	r[1].net.Vars[0].Color = "red"
	return r
}

const scrW, scrH = 92, 32

func graphEvents(u *ui, clicks bool) []string {
	if u.page != "" {
		return []string{"Esc", "Enter", clickAt(2, scrH-4), clickAt(scrW/2, scrH/2), "R" + clickAt(scrW/2, scrH/2)[1:], "Tab", "r:_", "r:p", "r:2", "r:t", "r:d"}
	}
	e := []string{"Tab", "Backtab", "r:_", "r:1", "r:2", "r:3", "r:0", "r:9", "Enter", "r:h", "r:t", "r:p", "r:i", "F12", "r:x", "r:٣", "CtrlS", clickAt(scrW-3, scrH-4), "R" + clickAt(scrW-3, scrH-4)[1:]}
	if clicks {
		e = append(e, u.clicks(true)...)
	}
	return e
}

func runC19(c *Ctx) {
	// tours through the complete state space
	nets := appNets()
	for ni := range nets {
		fam := nets[ni]
		var un *uiNet
		get := func(t *T) *ui {
			if un == nil {
				un = newUINet(t, fam.net)
			}
			return newUI(un)
		}
		ev := func(u *ui) []string { return graphEvents(u, true) }
		if fam.name == "weighted" || fam.name == "two decisions" {
			ev = func(u *ui) []string {
				if u.page != "" {
					return []string{"Esc", clickAt(2, scrH-4), "r:_"}
				}
				e := append([]string{"Tab", "r:_", "r:2", "Enter", "r:t", "r:p", "CtrlS"}, u.clicks(c.Thorough)...)
				return e
			}
		}
		m := &ui{}
		scripts, states, trans := tours(func() *ui { m = newUI(&uiNet{n: fam.net}); return m }, ev, 250)
		if c.shard == 0 {
			c.Count("model states of "+fam.name, int64(states))
			c.Count("model transitions of "+fam.name, int64(trans))
		}
		for si := range scripts {
			s := scripts[si]
			c.Case(func() string { return fmt.Sprintf("tour %d of %s: %s", si, fam.name, fam.net) }, func(t *T) {
				playUI(t, get(t), spec(fam.net, scrW, scrH), s, lookGraph)
			})
		}
	}
	// number keys with many outcomes
	{
		wide := layout(chanceNet([][]int{{}, {0}}, []int{11, 2}, 3), 2, 0, 0)
		var un *uiNet
		keys := []string{"Tab", "r:_", "Enter"}
		for k := '0'; k <= '9'; k++ {
			keys = append(keys, "r:"+string(k))
		}
		ev := func(u *ui) []string {
			if u.ev[1] > 0 { // one value is enough
				return []string{"Enter", "Tab"}
			}
			return keys
		}
		scripts, states, trans := tours(func() *ui { return newUI(&uiNet{n: wide}) }, ev, 250)
		if c.shard == 0 {
			c.Count("model states of many outcomes", int64(states))
			c.Count("model transitions of many outcomes", int64(trans))
		}
		for si := range scripts {
			s := scripts[si]
			c.Case(func() string { return fmt.Sprintf("tour %d of %s", si, wide) }, func(t *T) {
				if un == nil {
					un = newUINet(t, wide)
				}
				playUI(t, newUI(un), spec(wide, scrW, scrH), s, lookGraph)
			})
		}
	}
	// all event sequences
	for _, ni := range []int{1, 0, 2} {
		fam := nets[ni]
		var un *uiNet
		m := newUI(&uiNet{n: fam.net})
		alpha := []string{"Tab", "Backtab", "r:_", "r:2", "Enter", "r:t", "Esc", "r:p", "r:d", "r:s", m.clickRow(0, 1), m.clickRow(1, 0), "R" + m.clickRow(1, 0)[1:]}
		depth := 3
		if c.Thorough {
			depth = 4
		}
		if ni == 2 {
			depth--
		}
		product(rep(len(alpha), depth), func(x []int) {
			s := []string{}
			for _, k := range x {
				s = append(s, alpha[k])
			}
			c.Case(func() string { return fmt.Sprintf("events %v on %s", s, fam.net) }, func(t *T) {
				if un == nil {
					un = newUINet(t, fam.net)
				}
				playUI(t, newUI(un), spec(fam.net, scrW, 20), s, lookGraph)
			})
		})
	}
	// moves
	for _, ni := range []int{1, 2} {
		fam := nets[ni]
		var un *uiNet
		win := 2
		ev := func(u *ui) []string {
			e := []string{"Enter"}
			for _, k := range []string{"r:w", "r:a", "r:s", "r:d", "Tab", "Backtab"} {
				v := u.clone()
				v.apply(k, [2]int{})
				if v.overlapping() || v.pos[u.sel][0] > fam.net.Vars[u.sel].Pos[0]+win || v.pos[u.sel][1] > fam.net.Vars[u.sel].Pos[1]+win {
					continue
				}
				// one node is moved at a time
				moved := 0
				for i := range v.pos {
					if v.pos[i] != fam.net.Vars[i].Pos {
						moved++
					}
				}
				if moved > 1 {
					continue
				}
				e = append(e, k)
			}
			if countEv(u.ev) > 0 || u.ignore {
				return append(e, u.clickRow(0, 0))
			}
			return append(e, u.clickRow(u.sel, 0))
		}
		lim := func(u *ui) []string {
			if countEv(u.ev) > 1 {
				return []string{u.clickRow(0, max(u.ev[0], 0)), "Enter"}
			}
			return ev(u)
		}
		scripts, states, trans := tours(func() *ui { return newUI(&uiNet{n: fam.net}) }, lim, 250)
		if c.shard == 0 {
			c.Count("model states with moves of "+fam.name, int64(states))
			c.Count("model transitions with moves of "+fam.name, int64(trans))
		}
		for si := range scripts {
			s := scripts[si]
			c.Case(func() string { return fmt.Sprintf("tour %d with moves of %s: %s", si, fam.name, fam.net) }, func(t *T) {
				if un == nil {
					un = newUINet(t, fam.net)
				}
				playUI(t, newUI(un), spec(fam.net, scrW, scrH), s, lookGraph)
			})
		}
	}
	// small screens with scrolling
	for _, size := range [][2]int{{40, 12}, {64, 10}, {30, 16}} {
		for _, ni := range []int{1, 2} {
			fam := nets[ni]
			var un *uiNet
			alpha := []string{"Down", "Right", "W:5,5,d", clickAt(8, 5), clickAt(size[0]-8, size[1]-5), "Tab", "Enter", "r:d", "r:s", "End"}
			depth := 2
			if size[0] == 40 && ni == 1 {
				depth = 3
			}
			if c.Thorough {
				depth++
			}
			product(rep(len(alpha), depth), func(x []int) {
				s := []string{}
				for _, k := range x {
					s = append(s, alpha[k])
					if k < 2 {
						s = append(s, alpha[k], alpha[k]) // further
					}
				}
				c.Case(func() string { return fmt.Sprintf("events %v on a screen %v with %s", s, size, fam.net) }, func(t *T) {
					if un == nil {
						un = newUINet(t, fam.net)
					}
					playUI(t, newUI(un), spec(fam.net, size[0], size[1]), s, lookGraph)
				})
			})
		}
	}
	// all evidence of all small networks, in both modes
	one := func(name string, mk func() *Net) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) {
			n := mk()
			un := newUINet(t, n)
			m := newUI(un)
			for i := range n.Vars { // every row of a node must be visible
				if b := m.box(i); b.x+b.w > 150 || b.y+b.h > 60 {
					t.Failf("harness: %s is not visible", n.Vars[i].Name)
				}
			}
			s := evidenceWalk(m)
			playUI(t, m, spec(n, 160, 66), s, lookGraph)
		})
	}
	for nv := 1; nv <= 2; nv++ {
		for maxU := 0; maxU <= 1; maxU++ {
			dags(nv, func(par [][]int) {
				product(rep(2, nv), func(types []int) {
					if maxU == 0 {
						one("structure", func() *Net { return layout(decNet(par, types, []int{2, 3}[:nv], nil, 0, 80), 3, 0, 0) })
						return
					}
					utilSets(nv, 1, func(us [][]int) {
						one("structure", func() *Net { return layout(decNet(par, types, []int{3, 2}[:nv], us, 0, 81), 3, 1, 0) })
						one("zeros", func() *Net { return layout(detNet(decNet(par, types, []int{2, 3}[:nv], us, 0, 82), 3), 3, 0, 1) })
					})
				})
			})
		}
	}
	if c.Thorough {
		decisionStructures(3, 1, 1, func(par [][]int, types []int, us [][]int) {
			one("three variables", func() *Net { return layout(decNet(par, types, []int{2, 2, 2}, us, 0, 83), 3, 0, 0) })
		})
		decisionStructures(2, 1, 2, func(par [][]int, types []int, us [][]int) {
			one("weights", func() *Net {
				return layout(withTotal(decNet(par, types, []int{2, 2}, us, 0, 84), []float64{-3, 0.25}, true, 1), 3, 0, 0)
			})
		})
	} else {
		decisionStructures(2, 1, 2, func(par [][]int, types []int, us [][]int) {
			if len(us) == 2 && len(us[0]) == 1 {
				one("weights", func() *Net {
					return layout(withTotal(decNet(par, types, []int{2, 2}, us, 0, 84), []float64{-3, 0.25}, true, 1), 3, 0, 0)
				})
			}
		})
	}
	// odd names, many outcomes
	odd := func() *Net {
		n := chanceNet([][]int{{}, {0}, {0}}, []int{12, 2, 1}, 5)
		n.Vars[0].Name = "größe und mehr als achtundvierzig Zeichen in einem Namen, der zu lang ist"
		n.Vars[1].Out = []string{"an outcome longer than sixteen characters", "z"}
		n.Vars[1].Name = "x"
		n.Vars[2].Out = []string{"é"}
		return layout(n, 2, 0, 0)
	}
	one("odd names", odd)
	c.Case(func() string { return "keys with many outcomes: " + odd().String() }, func(t *T) {
		s := []string{}
		for _, r := range "1234567890" {
			s = append(s, "r:"+string(r), "Enter", "r:_", "Enter")
		}
		for i := 0; i < 14; i++ {
			s = append(s, "r:_", "Enter")
		}
		n := odd()
		playUI(t, newUI(newUINet(t, n)), spec(n, 120, 60), s, lookGraph)
	})
	// utilities of different magnitude, alternating (fields must be cleared)
	one("magnitudes", func() *Net {
		n := decNet([][]int{{}}, []int{chance}, []int{5}, [][]int{{0}}, 0, 1)
		n.Vars[1].Table = []float64{0, -99999.125, 1e7, 0.0004, -3}
		return layout(n, 2, 0, 0)
	})
	// rare evidence
	for e := range rareScales {
		for k := 0; k < 3; k++ {
			one("rare evidence", func() *Net { return layout(rareNet(e, k), 3, 0, 0) })
		}
	}
	// larger networks: evidence grows to all nodes and shrinks again, by mouse and keys
	for fi, f := range append(decFamilies(false), sizeFamilies(false)...) {
		if len(f.net.Vars) > 17 || (len(f.net.Vars) < 10 && fi%3 != 0) || (!c.Thorough && len(f.net.Vars) < 17 && fi%2 != 0) {
			continue
		}
		n := layout(f.net, 4, 0, 0)
		c.Case(func() string { return "larger network " + f.name + ": " + n.String() }, func(t *T) {
			m := newUI(newUINet(t, n))
			w, h := 0, 0
			for i := range n.Vars {
				b := m.box(i)
				w, h = max(w, b.x+b.w), max(h, b.y+b.h)
			}
			act := n.actives()
			s := []string{}
			for i := 0; i <= len(n.Vars); i++ {
				s = append(s, "Tab")
			}
			for i := 0; i <= len(n.Vars); i++ {
				s = append(s, "Backtab")
			}
			every := max(1, len(act)/4)
			for k, a := range act {
				s = append(s, m.clickRow(a, k%n.arity(a)))
				if k%every == 0 || k == len(act)-1 {
					s = append(s, "r:p", "r:p")
				}
			}
			for k, a := range act { // other outcomes, then none
				s = append(s, m.clickRow(a, (k+1)%n.arity(a)))
				if k%2 == 0 {
					s = append(s, m.clickRow(a, (k+1)%n.arity(a)))
				}
			}
			s = append(s, "r:p")
			for range n.Vars { // by keys
				s = append(s, "Backtab", "r:_", "Enter")
			}
			playUI(t, m, spec(n, w+8, h+8), s, lookGraph)
		})
	}
	// evidence on the command line, examples
	for _, file := range exampleFiles() {
		content, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		b, err := bbn.FromFile(file)
		if err != nil {
			continue
		}
		n := netFrom(b)
		if len(n.Vars) > 16 {
			continue
		}
		for i, v := range n.Vars {
			if v.Type == chance && v.Table == nil {
				n = nil
				break
			}
			_ = i
		}
		if n == nil {
			continue
		}
		try := func(ev []int) {
			if hasEq(n, ev) {
				return
			}
			ev = append([]int{}, ev...)
			c.Case(func() string { return fmt.Sprintf("%s with evidence %v", file, n.evMap(ev)) }, func(t *T) {
				b, _ := bbn.FromFile(file)
				un := newUINetFrom(t, b)
				m := newUI(un)
				copy(m.ev, ev)
				args := []string{}
				for k, v := range n.evMap(ev) {
					args = append(args, "-e", k+"="+v)
				}
				s := []string{"r:p", "Tab", "Enter", "r:p"}
				if n.Info != "" {
					s = append([]string{"Esc"}, s...)
				}
				playUI(t, m, uiSpec{filepath.Base(file), content, args, 160, 70}, s, lookGraph)
			})
		}
		k := 1
		if c.Thorough {
			k = 2
		}
		n.evidencesUpTo(n.actives(), k, try)
	}
	// leaving the app
	for _, s := range [][]string{{"Esc", "Tab"}, {"Tab", "Enter", "Esc", "Tab"}, {"r:h", "Esc", "Esc", "Tab"}, {"r:t", "Enter", "Esc"}, {"CtrlC", "Tab"}, {"r:i", "Esc", "r:p", "Esc", "Enter"}} {
		c.Case(func() string { return "leaving with " + strings.Join(s, " ") }, func(t *T) {
			playUI(t, newUI(newUINet(t, nets[1].net)), spec(nets[1].net, scrW, 24), s, lookGraph)
		})
	}
	_ = math.NaN
}

// hasEq tells whether evidence can't be given on the command line.
func hasEq(n *Net, ev []int) bool {
	for i, o := range ev {
		if o >= 0 && strings.ContainsAny(n.Vars[i].Name+n.Vars[i].Out[o], "=,\"\n") {
			return true
		}
	}
	return false
}

// evidenceWalk goes through all evidence assignments by clicks, in both policy modes.
func evidenceWalk(m *ui) []string {
	n := m.un.n
	s := []string{}
	cur := noEv(n)
	acts := n.actives()
	n.evidences(acts, func(ev []int) {
		for _, a := range acts {
			if cur[a] == ev[a] {
				continue
			}
			if ev[a] < 0 {
				s = append(s, m.clickRow(a, cur[a]))
			} else {
				s = append(s, m.clickRow(a, ev[a]))
			}
			cur[a] = ev[a]
		}
		s = append(s, "r:p", "r:p")
	})
	return s
}

func runC20(c *Ctx) {
	nets := appNets()
	play := func(t *T, n *Net, sp uiSpec, s []string) { playUI(t, newUI(newUINet(t, n)), sp, s, lookSave) }
	// tours with a save in every state, moves in a window
	for _, ni := range []int{1, 2, 4} {
		fam := nets[ni]
		win := 1
		if c.Thorough {
			win = 3
		}
		ev := func(u *ui) []string {
			if u.page != "" {
				return []string{"Esc"}
			}
			e := []string{"CtrlS"}
			for _, k := range []string{"r:w", "r:a", "r:s", "r:d", "Tab", "Enter", "r:p", "r:t", "r:h"} {
				v := u.clone()
				v.apply(k, [2]int{})
				if v.pos[u.sel][0] > fam.net.Vars[u.sel].Pos[0]+win || v.pos[u.sel][1] > fam.net.Vars[u.sel].Pos[1]+win || countEv(v.ev) > 1 {
					continue
				}
				moved := 0
				for i := range v.pos {
					if v.pos[i] != fam.net.Vars[i].Pos {
						moved++
					}
				}
				if moved > 1 || (moved > 0 && v.ignore && (countEv(v.ev) > 0 || !c.Thorough)) {
					continue
				}
				if !c.Thorough && ni != 1 && moved > 0 && (countEv(v.ev) > 0 || k == "r:t") {
					continue
				}
				e = append(e, k)
			}
			return e
		}
		scripts, states, trans := tours(func() *ui { return newUI(&uiNet{n: fam.net}) }, ev, 300)
		if c.shard == 0 {
			c.Count("model states of "+fam.name, int64(states))
			c.Count("model transitions of "+fam.name, int64(trans))
		}
		for si := range scripts {
			s := append(scripts[si], "CtrlS")
			c.Case(func() string { return fmt.Sprintf("tour %d of %s: %s", si, fam.name, fam.net) }, func(t *T) {
				if s[len(s)-2] == "r:t" || s[len(s)-2] == "r:h" {
					s = s[:len(s)-1]
				}
				play(t, fam.net, spec(fam.net, 60, 16), s)
			})
		}
	}
	// all sequences, then save
	for _, ni := range []int{1, 2} {
		fam := nets[ni]
		m := newUI(&uiNet{n: fam.net})
		alpha := []string{"Tab", "Backtab", "r:w", "r:a", "r:s", "r:d", "Enter", "r:p", "r:t", "Esc", "CtrlS", m.clickRow(1, 0), "R" + m.clickRow(0, 0)[1:]}
		depth := 3
		if c.Thorough {
			depth = 4
		}
		product(rep(len(alpha), depth), func(x []int) {
			s := []string{}
			v := newUI(&uiNet{n: fam.net})
			for _, k := range x {
				v.apply(alpha[k], [2]int{})
				if v.exited {
					return
				}
				s = append(s, alpha[k])
			}
			if v.page != "" {
				s = append(s, "Esc")
			}
			s = append(s, "CtrlS")
			c.Case(func() string { return fmt.Sprintf("events %v on %s", s, fam.net) }, func(t *T) { play(t, fam.net, spec(fam.net, 60, 16), s) })
		})
	}
	// far moves, in all directions
	for _, fam := range nets {
		fam := fam
		for _, dir := range []string{"r:w", "r:a", "r:s", "r:d"} {
			c.Case(func() string { return fmt.Sprintf("moves %s of every node of %s", dir, fam.net) }, func(t *T) {
				s := []string{}
				if fam.net.Info != "" {
					s = append(s, "Esc")
				}
				for range fam.net.Vars {
					for k := 0; k < 14; k++ {
						s = append(s, dir)
					}
					s = append(s, "CtrlS", "Tab", "Enter")
				}
				play(t, fam.net, spec(fam.net, 60, 16), append(s, "CtrlS"))
			})
		}
	}
	// nodes far away, and moves of one of them
	for _, at := range []int{0, 1, 7, 31, 63, 79, 99, 127, 199, 255, 511, 999} {
		for _, vert := range []bool{false, true} {
			n := layout(chanceNet([][]int{{}, {0}}, []int{2, 2}, 13), 2, 0, 0)
			n.Vars[0].Pos, n.Vars[1].Pos = [2]int{at, 0}, [2]int{0, 8}
			if vert {
				n.Vars[0].Pos, n.Vars[1].Pos = [2]int{30, at}, [2]int{0, 8}
			}
			for _, dir := range []string{"r:w", "r:a", "r:s", "r:d"} {
				c.Case(func() string { return fmt.Sprintf("moves %s of %s", dir, n) }, func(t *T) {
					s := []string{}
					for k := 0; k < 4; k++ {
						s = append(s, dir, "CtrlS")
					}
					s = append(s, "Tab", dir, "CtrlS", "Tab", "r:d", "CtrlS", "r:s", "CtrlS", "r:a", "CtrlS", "r:w", "CtrlS")
					play(t, n, spec(n, 60, 16), s)
				})
			}
		}
	}
	// files: names, formats, contents
	contents := []family{}
	for nv := 1; nv <= 2; nv++ {
		decisionStructures(nv, 0, 1, func(par [][]int, types []int, us [][]int) {
			n := decNet(par, types, []int{2, 3}[:nv], us, 0, 90)
			contents = append(contents, family{"structure", layout(n, 2, 3, 4)})
		})
	}
	texts := layout(chanceNet([][]int{{}, {0}}, []int{3, 2}, 12), 2, 7, 9)
	texts.Name, texts.Info = "a name: with 'quotes' and \"more\"", "first line\n\n  indented line\nlast: line\n"
	texts.Vars[0].Name, texts.Vars[1].Out = "yes", []string{"1", "true"}
	texts.Vars[0].Color = "teal"
	texts.Vars[0].Table = []float64{1.0 / 3, 1e-17, 12345678.9}
	contents = append(contents, family{"texts", texts})
	noTab := layout(noTables(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, nil, 0, 2)), 2, 0, 0)
	noTab.Vars[0].Table = []float64{1, 3}
	contents = append(contents, family{"no table", noTab})
	dtab := layout(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{1}}, 0, 3), 2, 0, 0)
	dtab.Vars[1].Table = []float64{0.25, 0.75, 1, 0}
	contents = append(contents, family{"decision with table", dtab})
	neg := layout(chanceNet([][]int{{}, {0}}, []int{2, 2}, 13), 2, 0, 0)
	neg.Vars[0].Pos = [2]int{-3, -1}
	contents = append(contents, family{"negative position", neg})
	for _, fam := range contents {
		fam := fam
		for _, s := range [][]string{{"CtrlS"}, {"r:d", "CtrlS"}, {"Tab", "r:s", "r:p", "Enter", "CtrlS", "CtrlS"}, {"r:t", "Esc", "r:h", "Enter", "r:i", "Esc", "r:w", "Tab", "r:a", "CtrlS"}} {
			if fam.net.Info != "" {
				s = append([]string{"Esc"}, s...)
			}
			c.Case(func() string { return fmt.Sprintf("%s, events %v: %s", fam.name, s, fam.net) }, func(t *T) {
				play(t, fam.net, spec(fam.net, 60, 16), s)
			})
		}
	}
	for _, name := range []string{"net.yml", "net.YML", "a.b.yml", "net-save.yml", "sub/net.yml", "sub.dir/x.yml", ".yml", "with space.yml", "n.xml", "n.bifxml", "n.XML", "yml.yml", "x.yml.yml"} {
		c.Case(func() string { return "file " + name }, func(t *T) {
			n := nets[0].net
			content := []byte(writeYAML(n))
			if strings.HasSuffix(strings.ToLower(name), "xml") {
				content = []byte(writeXML(n, xmlStyle{sep: " "}))
				b, err := bbn.FromBIFXML(content)
				if err != nil {
					t.Failf("harness: %v", err)
				}
				n = netFrom(b)
			}
			play(t, n, uiSpec{name, content, nil, 60, 16}, []string{"r:d", "CtrlS", "Tab", "r:s", "CtrlS", "Enter", "CtrlS"})
		})
	}
	for _, file := range exampleFiles() {
		content, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		c.Case(func() string { return "saving " + file }, func(t *T) {
			b, err := bbn.FromFile(file)
			if err != nil {
				return
			}
			n := netFrom(b)
			s := []string{}
			if n.Info != "" {
				s = append(s, "Esc")
			}
			s = append(s, "CtrlS")
			for range n.Vars {
				s = append(s, "r:s", "Enter", "CtrlS", "Tab", "r:d", "r:p", "CtrlS")
			}
			m := newUI(&uiNet{n: n})
			playUI(t, m, uiSpec{filepath.Base(file), content, nil, 60, 16}, s, lookSave)
		})
	}
	// saving a trained network
	for _, fam := range []family{{"chain", layout(chanceNet([][]int{{}, {0}}, []int{2, 3}, 4), 2, 0, 0)}, {"decision", layout(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{2, 2}, [][]int{{0, 1}}, 0, 4), 2, 0, 0)}} {
		fam := fam
		c.Case(func() string { return "saving the trained network " + fam.net.String() }, func(t *T) {
			cov := covering(fam.net, 3)
			cnt := newCounts(fam.net)
			for _, x := range cov {
				cnt.add(x)
			}
			dir := scratch()
			defer os.RemoveAll(dir)
			data := filepath.Join(dir, "data.csv")
			if err := os.WriteFile(data, csvText(fam.net, cov, seq(len(fam.net.Vars)), csvStyle{delim: ","}), 0644); err != nil {
				panic(err)
			}
			n := cnt.tables(fam.net)
			playUI(t, newUI(newUINet(t, n)), uiSpec{"net.yml", []byte(writeYAML(fam.net)), []string{"-t", data}, 60, 16}, []string{"CtrlS", "r:d", "Enter", "CtrlS"}, lookSave)
		})
	}
}

func runC23(c *Ctx) {
	const w, h = 92, 40
	// every node of every network, by key and by click
	one := func(name string, mk func() *Net, hh int) {
		c.Case(func() string { return name + ": " + mk().String() }, func(t *T) {
			n := mk()
			un := newUINet(t, n)
			m := newUI(un)
			s := []string{}
			for i := range n.Vars {
				s = append(s, "r:t", "Esc")
				if b := m.box(i); b.x+b.w < w-2 && b.y+b.h < hh-3 {
					s = append(s, "R"+clickAt(m.onScreen(i, 3, 1))[1:], clickAt(2, hh-4), "R"+clickAt(m.onScreen(i, 0, b.h-1))[1:], "Enter", "R"+clickAt(m.onScreen(i, 4, 2))[1:], "Tab", clickAt(w/2, hh/2))
				}
				s = append(s, "Tab")
			}
			playUI(t, m, spec(n, w, hh), s, lookTable)
		})
	}
	for nv := 1; nv <= 3; nv++ {
		dags(nv, func(par [][]int) {
			ar := []int{2, 3, 2}[:nv:nv]
			one("chance variables", func() *Net { return layout(chanceNet(par, ar, 3), 2, 0, 0) }, h)
			if nv < 3 {
				product(rep(2, nv), func(types []int) {
					utilSets(nv, 1, func(us [][]int) {
						one("decisions", func() *Net { return layout(decNet(par, types, ar, us, 1, 4), 2, 0, 0) }, h)
					})
				})
			}
		})
	}
	decisionStructures(3, 1, 1, func(par [][]int, types []int, us [][]int) {
		if len(us[0]) == 3 || c.Thorough {
			one("decisions", func() *Net { return layout(decNet(par, types, []int{2, 2, 3}, us, 0, 5), 2, 0, 0) }, h)
		}
	})
	parentOrders([][]int{{}, {}, {}, {0, 1, 2}}, func(p [][]int) {
		one("parent order", func() *Net { return layout(chanceNet(p, []int{2, 3, 2, 2}, 6), 2, 0, 0) }, h)
		one("decision, parent order", func() *Net {
			return layout(decNet(p, []int{0, 0, 0, 1}, []int{2, 3, 2, 2}, [][]int{{3, 0, 1, 2}}, 0, 6), 2, 0, 0)
		}, 48)
	})
	decisionStructures(2, 1, 2, func(par [][]int, types []int, us [][]int) {
		if len(us) == 2 {
			one("total", func() *Net {
				return layout(withTotal(decNet(par, types, []int{2, 2}, us, 0, 7), []float64{0.125, -3000}, true, 1), 2, 0, 0)
			}, h)
		}
	})
	for _, fam := range []struct {
		name string
		par  [][]int
		ar   []int
	}{
		{"many rows", [][]int{{}, {}, {}, {}, {0, 1, 2, 3}}, []int{2, 2, 3, 2, 2}},
		{"one outcome", [][]int{{}, {0}, {0, 1}}, []int{1, 2, 1}},
		{"six outcomes", [][]int{{}, {0}}, []int{6, 5}},
	} {
		fam := fam
		one(fam.name, func() *Net { return layout(chanceNet(fam.par, fam.ar, 8), 3, 0, 0) }, 60)
	}
	// tables that fit, but are large
	for k := 5; k <= 7; k++ {
		for variant := 0; variant < 2; variant++ {
			one(fmt.Sprintf("%d parents", k), func() *Net {
				par := make([][]int, k+1)
				ar := rep(2, k+1)
				for i := 0; i < k; i++ {
					par[k] = append(par[k], i)
				}
				if variant == 1 {
					ar[k-1], ar[0], ar[1] = 3, 1, 1
					par[k] = reversed(k)
				}
				return layout(chanceNet(par, ar, k), 3, 0, 0)
			}, 170)
		}
	}
	for i, vals := range [][]float64{{12345.678, -12345.678, 99999.5}, {100000, -10000, 123456.789}, {-99999.999, 1e6, -1e6}, {1234567.125, -1234567.125, 1e7}, {-0.0004, 9999.9996, 99999.9996}} {
		one(fmt.Sprintf("wide utilities %d", i), func() *Net {
			n := decNet([][]int{{}, {}}, []int{chance, decision}, []int{3, 2}, [][]int{{0}, {1, 0}}, 0, 9)
			n.Vars[2].Table = vals
			n.Vars[3].Table = append(append([]float64{}, vals...), vals[2], vals[0], vals[1])
			return layout(n, 2, 0, 0)
		}, h)
	}
	// tables larger than the dialog: scrolling shows every value
	scroll := func(name string, mk func() *Net, hh int) {
		c.Case(func() string { return name + ", scrolling: " + mk().String() }, func(t *T) {
			n := mk()
			un := newUINet(t, n)
			m := newUI(un)
			m.seen = map[[3]int]bool{}
			s := []string{}
			cells := [][2]int{}
			for i, v := range n.Vars {
				given, rows := len(v.Given), n.scopeSize(v.Given)
				if v.Type == decision {
					given, rows = len(un.pols[i].Scope), n.scopeSize(un.pols[i].Scope)
				}
				cells = append(cells, [2]int{rows, given + len(v.Out)})
				s = append(s, "r:t")
				for c := 0; c < given+len(v.Out); c++ {
					s = append(s, "Home")
					for r := 0; r < rows; r++ {
						s = append(s, "Down")
					}
					for k := 0; k < c+1; k++ {
						s = append(s, "Right")
					}
				}
				s = append(s, "End", "Up", "Left", "Esc", "r:t", "Enter", "Tab")
			}
			playUI(t, m, spec(n, w, hh), s, lookTable)
			for i, x := range cells {
				for r := 0; r < x[0]; r++ {
					for c := 0; c < x[1]; c++ {
						if !m.seen[[3]int{i, r, c}] {
							t.Failf("row %d, column %d of the table of %s can't be scrolled to", r, c, n.Vars[i].Name)
						}
					}
				}
			}
		})
	}
	for _, k := range []int{8, 9, 10, 12, 17} {
		scroll(fmt.Sprintf("%d outcomes", k), func() *Net { return layout(chanceNet([][]int{{}, {0}}, []int{2, k}, 8), 2, 0, 0) }, 60)
		scroll(fmt.Sprintf("parent with %d outcomes", k), func() *Net {
			return layout(decNet([][]int{{}, {0}}, []int{chance, decision}, []int{k, 2}, [][]int{{0, 1}}, 0, 8), 2, 0, 0)
		}, 20)
	}
	for k := 3; k <= 5; k++ {
		scroll(fmt.Sprintf("%d parents", k), func() *Net {
			par := make([][]int, k+1)
			ar := rep(2, k+1)
			for i := 0; i < k; i++ {
				par[k] = append(par[k], i)
			}
			return layout(chanceNet(par, ar, k), 3, 0, 0)
		}, 18)
	}
	// all event sequences before
	for _, ni := range []int{1, 2} {
		fam := appNets()[ni]
		var un *uiNet
		m := newUI(&uiNet{n: fam.net})
		alpha := []string{"Tab", "r:_", "Enter", "r:t", "Esc", "r:p", "r:d", m.clickRow(0, 1), m.clickRow(1, 1), "R" + m.clickRow(1, 0)[1:], "R" + m.clickRow(2, 0)[1:]}
		depth := 3
		if c.Thorough {
			depth = 4
		}
		if ni == 2 {
			depth--
		}
		product(rep(len(alpha), depth), func(x []int) {
			s := []string{}
			v := newUI(&uiNet{n: fam.net})
			for _, k := range x {
				v.apply(alpha[k], [2]int{})
				s = append(s, alpha[k])
				if v.exited {
					return
				}
			}
			s = append(s, "r:t", "Enter", "r:t")
			c.Case(func() string { return fmt.Sprintf("events %v on %s", s, fam.net) }, func(t *T) {
				if un == nil {
					un = newUINet(t, fam.net)
				}
				playUI(t, newUI(un), spec(fam.net, 76, 26), s, lookTable)
			})
		})
	}
	for _, file := range exampleFiles() {
		content, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		c.Case(func() string { return "tables of " + file }, func(t *T) {
			b, err := bbn.FromFile(file)
			if err != nil {
				return
			}
			n := netFrom(b)
			for i, v := range n.Vars {
				wide := 0
				for _, g := range v.Given {
					wide += max(labelWidth(&n.Vars[g]), len([]rune(n.Vars[g].Name))) + 3
				}
				for _, o := range v.Out {
					wide += max(9, len([]rune(o))) + 3
				}
				if wide > 66 || (v.Table == nil && v.Type == chance) || n.size(i)/n.arity(i) > 60 {
					return
				}
			}
			if len(n.decisions()) > 2 {
				return
			}
			s := []string{}
			if n.Info != "" {
				s = append(s, "Esc")
			}
			for range n.Vars {
				s = append(s, "r:t", "Esc", "Tab", "Enter")
			}
			playUI(t, newUI(newUINetFrom(t, b)), uiSpec{filepath.Base(file), content, nil, 160, 80}, s, lookTable)
		})
	}
}
