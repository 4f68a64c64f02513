package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/mlange-42/bbn"
)

// ---------------------------------------------------------------------------
// The command line tool and the interactive app, as processes.

func binDir() string {
	e, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return filepath.Dir(e)
}

// scratch makes a directory of its own for a case.
func scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "case")
	if err != nil {
		panic(err)
	}
	return d
}

type procResult struct {
	code     int
	out, err string
}

// process runs a program to its end.
func process(dir string, env []string, name string, args ...string) procResult {
	cmd := exec.Command(filepath.Join(binDir(), name), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TCELL_MINIMIZE=1", "GOMAXPROCS=2", "GOGC=400", "HOME="+dir)
	cmd.Env = append(cmd.Env, env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limitedWriter{w: &so, n: 8 << 20}, &limitedWriter{w: &se, n: 64 << 10}
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprint("can't start ", name, ": ", err))
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(200 * time.Millisecond)
		_ = cmd.Process.Kill()
		<-done
		return procResult{-2, so.String(), "no end after 60 s\n" + se.String()}
	}
	return procResult{cmd.ProcessState.ExitCode(), so.String(), se.String()}
}

// crash describes a crash of a process, if it did.
func (r procResult) crash() string {
	if r.code == -2 || r.code == -1 || strings.Contains(r.err, "goroutine ") || strings.Contains(r.out, "goroutine ") {
		return fmt.Sprintf("exit status %d: %s", r.code, trunc(r.err+r.out, 1500))
	}
	return ""
}

// frame is what is on the screen.
type frame struct {
	w, h  int
	cells [][]rune
	saved *string // contents of the save file, if it was written since the last frame
}

func (f *frame) at(x, y int) rune {
	if x < 0 || y < 0 || y >= f.h || x >= f.w {
		return 0
	}
	return f.cells[y][x]
}

func (f *frame) String() string {
	b := strings.Builder{}
	for _, l := range f.cells {
		b.WriteString(strings.TrimRight(string(l), " "))
		b.WriteByte('\n')
	}
	return b.String()
}

type sessionRun struct {
	frames []*frame // frames[k]: after k events
	ended  bool     // all events were handled
	exited bool     // the app ended by itself
	res    procResult
}

// appSession runs the app with a script of events.
func appSession(dir string, args []string, script []string, w, h int, watch string) *sessionRun {
	dump := filepath.Join(dir, "dump.txt")
	env := []string{"VERIF_SCRIPT=" + strings.Join(script, " "), "VERIF_SCREEN=" + fmt.Sprintf("%dx%d", w, h), "VERIF_DUMP=" + dump}
	if watch != "" {
		env = append(env, "VERIF_WATCH="+watch)
	}
	r := &sessionRun{}
	r.res = process(dir, env, "bbni", args...)
	data, err := os.ReadFile(dump)
	if err != nil {
		return r
	}
	_ = os.Remove(dump)
	var saved *string
	for len(data) > 0 {
		nl := bytes.IndexByte(data, '\n')
		if nl < 0 {
			break
		}
		head := strings.Fields(string(data[:nl]))
		data = data[nl+1:]
		switch head[0] {
		case "FILE":
			k, _ := strconv.Atoi(head[1])
			s := string(data[:k])
			saved = &s
			data = data[k+1:]
		case "FRAME", "FINI":
			f := &frame{}
			f.w, _ = strconv.Atoi(head[2])
			f.h, _ = strconv.Atoi(head[3])
			for y := 0; y < f.h; y++ {
				e := bytes.IndexByte(data, '\n')
				if e < 0 {
					return r
				}
				f.cells = append(f.cells, []rune(string(data[:e])))
				if len(f.cells[y]) != f.w {
					return r
				}
				data = data[e+1:]
			}
			f.saved, saved = saved, nil
			if head[0] == "FRAME" {
				r.frames = append(r.frames, f)
			}
		case "END":
			r.ended = true
		case "EXIT":
			r.exited = true
		}
	}
	return r
}

// ---------------------------------------------------------------------------
// Reference model of the app.

type rect struct{ x, y, w, h int }

func (r rect) has(x, y int) bool { return x >= r.x && x < r.x+r.w && y >= r.y && y < r.y+r.h }

// uiNet is a network with what the app should show for it.
type uiNet struct {
	n     *Net
	p     *prepared
	pols  map[int]Pol
	cache map[string][][]float64
}

func newUINet(t *T, n *Net) *uiNet {
	u := &uiNet{n: n, p: n.prepare(), pols: map[int]Pol{}, cache: map[string][][]float64{}}
	if len(n.decisions()) > 0 {
		u.pols = readPolicies(t, n, solved(t, n, n.mustBuild(t), true), false)
	}
	return u
}

// newUINetFrom is for a network read from a file.
func newUINetFrom(t *T, b *bbn.Network) *uiNet {
	n := netFrom(b)
	u := &uiNet{n: n, p: n.prepare(), pols: map[int]Pol{}, cache: map[string][][]float64{}}
	if len(n.decisions()) > 0 {
		u.pols = readPolicies(t, n, solved(t, n, b, true), false)
	}
	return u
}

// values are the numbers shown in each node: probabilities, or utilities and the total.
func (u *uiNet) values(ev []int, ignore bool) [][]float64 {
	key := fmt.Sprint(ev, ignore)
	if v, ok := u.cache[key]; ok {
		return v
	}
	n := u.n
	use := map[int]Pol{}
	for d, pl := range u.pols {
		if !(ignore && ev[d] >= 0) {
			use[d] = pl
		}
	}
	get := func(scope []int, which int, util bool) []float64 {
		if n.scopeSize(n.actives()) > 20000 {
			return u.p.refJoint(ev, use, scope, which, util)
		}
		return u.p.joint(ev, use, scope, which, util)
	}
	pe := get(nil, 0, false)[0]
	res := make([][]float64, len(n.Vars))
	for i, v := range n.Vars {
		if v.Type == utility {
			continue
		}
		if ev[i] >= 0 {
			res[i] = make([]float64, n.arity(i))
			res[i][ev[i]] = 1
			continue
		}
		r := append([]float64{}, get([]int{i}, 0, false)...)
		for k := range r {
			r[k] /= pe
		}
		res[i] = r
	}
	if us := n.utils(); len(us) > 0 {
		tot := get(nil, -1, true)[0] / pe
		for _, i := range us {
			res[i] = []float64{get(nil, i, true)[0] / pe, tot}
		}
		if ti := n.total(); ti >= 0 {
			r := []float64{}
			for k, g := range n.Vars[ti].Given {
				r = append(r, res[g][0]*n.Vars[ti].Table[k])
			}
			res[ti] = append(r, tot)
		}
	}
	u.cache[key] = res
	return res
}

// ui is the state of the app.
type ui struct {
	un         *uiNet
	sel, state int
	ev         []int
	ignore     bool
	page       string // "": graph
	pos        [][2]int
	exited     bool
	mustSave   bool            // the last event saved
	seen       map[[3]int]bool // if not nil, tables may be scrolled, and cells seen (node, row, column) are noted
}

func newUI(un *uiNet) *ui {
	u := &ui{un: un, ev: noEv(un.n)}
	for _, v := range un.n.Vars {
		u.pos = append(u.pos, [2]int{max(v.Pos[0], 0), max(v.Pos[1], 0)})
	}
	if un.n.Info != "" {
		u.page = "info"
	}
	return u
}

func (u *ui) clone() *ui {
	c := *u
	c.ev = append([]int{}, u.ev...)
	c.pos = append([][2]int{}, u.pos...)
	return &c
}

// key identifies the state, for exploration.
func (u *ui) key() string {
	return fmt.Sprint(u.sel, u.state, u.ev, u.ignore, u.page, u.pos, u.exited)
}

func labelWidth(v *NV) int {
	w := 0
	for _, o := range v.Out {
		w = max(w, utf8.RuneCountInString(o))
	}
	return min(w, 16)
}

// box of a node on the canvas.
func (u *ui) box(i int) rect {
	v := &u.un.n.Vars[i]
	bars, h := 10, len(v.Out)+3
	if v.Type == utility {
		bars = 5
		h++
	}
	w := max(labelWidth(v)+bars+9, min(utf8.RuneCountInString(v.Name), 48)) + 4
	return rect{u.pos[i][0], u.pos[i][1], w, h}
}

func (u *ui) overlapping() bool {
	for i := range u.pos {
		a := u.box(i)
		for j := range u.pos[:i] {
			b := u.box(j)
			if a.x < b.x+b.w && b.x < a.x+a.w && a.y < b.y+b.h && b.y < a.y+a.h {
				return true
			}
		}
	}
	return false
}

// nodeAt is the node at a position of the canvas: -1 for none.
func (u *ui) nodeAt(x, y int) int {
	for i := range u.pos {
		if u.box(i).has(x, y) {
			return i
		}
	}
	return -1
}

func (u *ui) toggle() {
	if u.un.n.Vars[u.sel].Type == utility {
		return
	}
	if u.ev[u.sel] == u.state {
		u.ev[u.sel] = -1
	} else {
		u.ev[u.sel] = u.state
	}
}

func (u *ui) selectNode(i int) {
	u.sel, u.state = i, 0
}

// apply an event. off is the scroll offset of the graph.
func (u *ui) apply(ev string, off [2]int) {
	n := u.un.n
	u.mustSave = false
	if ev[0] == 'W' && ev[1] == ':' {
		return
	}
	if u.page != "" {
		if ev == "Esc" || ev == "Enter" || (len(ev) > 1 && ev[1] == ':' && (ev[0] == 'L' || ev[0] == 'R')) {
			u.page = ""
		}
		return
	}
	switch {
	case ev == "Esc" || ev == "CtrlC":
		u.exited = true
	case ev == "Tab":
		u.selectNode((u.sel + 1) % len(n.Vars))
	case ev == "Backtab":
		u.selectNode((u.sel + len(n.Vars) - 1) % len(n.Vars))
	case ev == "Enter":
		u.toggle()
	case ev == "CtrlS":
		u.mustSave = true
	case strings.HasPrefix(ev, "r:"):
		r, _ := utf8.DecodeRuneInString(ev[2:])
		switch r {
		case '_':
			u.state = (u.state + 1) % n.arity(u.sel)
		case 'h':
			u.page = "help"
		case 'i':
			u.page = "info"
		case 't':
			u.page = "table"
		case 'p':
			u.ignore = !u.ignore
		case 'w':
			u.pos[u.sel][1] = max(u.pos[u.sel][1]-1, 0)
		case 'a':
			u.pos[u.sel][0] = max(u.pos[u.sel][0]-1, 0)
		case 's':
			u.pos[u.sel][1]++
		case 'd':
			u.pos[u.sel][0]++
		}
		if r >= '1' && r <= '9' && int(r-'1') < n.arity(u.sel) {
			u.state = int(r - '1')
		}
	case len(ev) > 1 && ev[1] == ':' && (ev[0] == 'L' || ev[0] == 'R'):
		parts := strings.Split(ev[2:], ",")
		x, _ := strconv.Atoi(parts[0])
		y, _ := strconv.Atoi(parts[1])
		cx, cy := x-1+off[0], y-2+off[1]
		i := u.nodeAt(cx, cy)
		if i < 0 {
			return
		}
		if i != u.sel {
			u.selectNode(i)
		}
		if ev[0] == 'R' {
			u.page = "table"
			return
		}
		if row := cy - u.pos[i][1] - 2; row >= 0 && row < n.arity(i) {
			u.state = row
			u.toggle()
		}
	}
}

// ---------------------------------------------------------------------------
// Comparison of frames with the model.

var partial = []rune("▏▎▍▌▋▊▉")

// covered tells whether a cell of node i is hidden by a node drawn later.
func (u *ui) covered(i, x, y int) bool {
	for j := i + 1; j < len(u.pos); j++ {
		if u.box(j).has(x, y) {
			return true
		}
	}
	return false
}

func dialogTitle(f *frame) string {
	// a dialog has a border with a title inside the frame of the graph
	for y := 2; y < f.h; y++ {
		l := string(f.cells[y])
		for _, name := range []string{"Help", "Info"} {
			if strings.Contains(l, "─ "+name+" ─") || strings.Contains(l, "═ "+name+" ═") {
				return strings.ToLower(name)
			}
		}
		if strings.Contains(l, "Close table") {
			return "table"
		}
	}
	return ""
}

// compareAt compares the graph with the model, at a scroll offset. Empty if equal.
func (u *ui) compareAt(f *frame, off [2]int) (string, int) {
	n := u.un.n
	vals := u.un.values(u.ev, u.ignore)
	seen := 0
	// visible part of the canvas: inside the border
	x0, y0, x1, y1 := 1, 2, f.w-2, f.h-3
	for i := range n.Vars {
		v := &n.Vars[i]
		b := u.box(i)
		cell := func(dx, dy int) (rune, bool) {
			cx, cy := b.x+dx, b.y+dy
			sx, sy := cx-off[0]+x0, cy-off[1]+y0
			if sx < x0 || sx > x1 || sy < y0 || sy > y1 || u.covered(i, cx, cy) {
				return 0, false
			}
			seen++
			return f.cells[sy][sx], true
		}
		expect := func(dx, dy int, r rune, what string) string {
			if c, ok := cell(dx, dy); ok && c != r {
				return fmt.Sprintf("node %s: %s: %q at (%d, %d) of the node, expected %q", v.Name, what, c, dx, dy, r)
			}
			return ""
		}
		border := []rune("┌┐└┘─│")
		if i == u.sel {
			border = []rune("╔╗╚╝═║")
		}
		for dx := 0; dx < b.w; dx++ {
			top, bottom := border[4], border[4]
			if dx == 0 {
				top, bottom = border[0], border[2]
			}
			if dx == b.w-1 {
				top, bottom = border[1], border[3]
			}
			if m := expect(dx, 0, top, "border"); m != "" {
				return m, seen
			}
			if m := expect(dx, b.h-1, bottom, "border"); m != "" {
				return m, seen
			}
		}
		for dy := 1; dy < b.h-1; dy++ {
			for _, dx := range []int{0, b.w - 1} {
				if m := expect(dx, dy, border[5], "border"); m != "" {
					return m, seen
				}
			}
		}
		name := []rune(v.Name)
		room := b.w - 4
		if v.Type != chance {
			room--
		}
		for k := 0; k < min(len(name), room); k++ {
			if m := expect(2+k, 1, name[k], "name"); m != "" {
				return m, seen
			}
		}
		if v.Type == decision {
			if m := expect(b.w-3, 1, '!', "type"); m != "" {
				return m, seen
			}
		}
		if v.Type == utility {
			if m := expect(b.w-3, 1, '$', "type"); m != "" {
				return m, seen
			}
		}
		lw := labelWidth(v)
		for k, val := range vals[i] {
			label := []rune("total")
			if k < len(v.Out) {
				label = []rune(v.Out[k])
			}
			for q := 0; q < lw; q++ {
				r := ' '
				if q < len(label) {
					r = label[q]
				}
				if m := expect(2+q, 2+k, r, "label"); m != "" {
					return m, seen
				}
			}
			// the number: everything right of the bars, without the markers
			from := lw + 3
			if v.Type != utility {
				from += 10
			}
			text, ok := []rune{}, true
			for dx := from; dx < b.w-2; dx++ {
				c, vis := cell(dx, 2+k)
				ok = ok && vis
				text = append(text, c)
			}
			if ok {
				s := strings.TrimSpace(string(text))
				if m := sameNumber(s, val, v.Type != utility); m != "" {
					return fmt.Sprintf("node %s, %s: %s (evidence %v, policies ignored: %v)", v.Name, string(label), m, n.evMap(u.ev), u.ignore), seen
				}
			}
			if v.Type == utility {
				continue
			}
			l, r := ' ', ' '
			if i == u.sel && k == u.state {
				l, r = '[', ']'
			} else if u.ev[i] >= 0 {
				l, r = '+', '+'
			}
			if m := expect(1, 2+k, l, "marker of "+string(label)); m != "" {
				return m, seen
			}
			if m := expect(b.w-2, 2+k, r, "marker of "+string(label)); m != "" {
				return m, seen
			}
			// the bar
			length, ended, all := 0.0, false, true
			for q := 0; q < 10; q++ {
				c, vis := cell(lw+3+q, 2+k)
				if !vis {
					all = false
					break
				}
				switch {
				case c == '█' && !ended:
					length++
				case c == '░':
					ended = true
				default:
					ended = true
					found := false
					for pi, pr := range partial {
						if pr == c {
							length += float64(pi+1) / 8
							found = true
						}
					}
					if !found {
						return fmt.Sprintf("node %s, %s: %q in the bar", v.Name, string(label), c), seen
					}
				}
			}
			want := val * 10
			if math.IsNaN(want) {
				want = 0
			}
			if all && math.Abs(length-want) > 0.5 {
				return fmt.Sprintf("node %s, %s: bar of length %.2f for probability %.3f", v.Name, string(label), length, val), seen
			}
		}
	}
	return "", seen
}

func sameNumber(s string, want float64, percent bool) string {
	if math.IsNaN(want) {
		if s != "???" {
			return fmt.Sprintf("%q is shown for an undefined value", s)
		}
		return ""
	}
	if percent {
		want *= 100
	}
	got, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(got) {
		return fmt.Sprintf("%q is shown for %.6f", s, want)
	}
	if math.Abs(got-want) > 0.000501+1e-9*math.Abs(want) {
		return fmt.Sprintf("%q is shown for %.6f", s, want)
	}
	return ""
}

// scrolls tells whether an event may change the scroll offset.
func scrolls(ev string) bool {
	switch ev {
	case "Down", "Up", "Left", "Right", "Home", "End", "PgUp", "PgDn":
		return true
	case "r:w", "r:a", "r:s", "r:d": // the view follows the end of the canvas
		return true
	}
	return strings.HasPrefix(ev, "W:")
}

// compare finds a scroll offset at which the graph is as the model says: the last one, or after
// scrolling any other, preferably the one that shows most.
func (u *ui) compare(f *frame, last [2]int, scrolled bool) ([2]int, string) {
	m, seen := u.compareAt(f, last)
	if !scrolled {
		return last, m
	}
	if m == "" && seen > 12 {
		return last, ""
	}
	mx, my := 0, 0
	for i := range u.pos {
		b := u.box(i)
		mx, my = max(mx, b.x+b.w), max(my, b.y+b.h)
	}
	if mx <= f.w-2 && my <= f.h-4 && m != "" {
		mx, my = 0, 0 // nothing to scroll to
	}
	best, bestSeen, found := last, seen, m == ""
	for y := 0; y <= my; y++ {
		for x := 0; x <= mx; x++ {
			if mm, s := u.compareAt(f, [2]int{x, y}); mm == "" && (!found || s > bestSeen) {
				best, bestSeen, found = [2]int{x, y}, s, true
			}
		}
	}
	if found && bestSeen == 0 {
		for y := 2; y < f.h-3; y++ {
			if strings.ContainsAny(string(f.cells[y][1:f.w-1]), "║╔╗╚╝%") {
				return last, "there are nodes on the screen that should be scrolled away, or: " + m
			}
		}
	}
	if found {
		return best, ""
	}
	return last, m
}

// ---------------------------------------------------------------------------
// Sessions

type uiSpec struct {
	file    string // name of the network file in the scratch directory
	content []byte
	args    []string
	w, h    int
}

// what to check in a session
const (
	lookGraph = 1 << iota
	lookTable
	lookSave
)

// playUI runs a session and compares it with the model. It returns the number of events.
func playUI(t *T, u *ui, sp uiSpec, script []string, look int) {
	dir := scratch()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, sp.file)
	if err := os.MkdirAll(filepath.Dir(file), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(file, sp.content, 0644); err != nil {
		panic(err)
	}
	ext := filepath.Ext(sp.file)
	save := strings.TrimSuffix(file, ext) + "-save.yml"
	watch := ""
	if look&lookSave != 0 {
		watch = save
	}
	run := appSession(dir, append([]string{sp.file}, sp.args...), script, sp.w, sp.h, watch)
	t.c.Traces++
	when := func(k int) string {
		from := max(0, k-12)
		return fmt.Sprintf("after %d events (... %s)", k, strings.Join(script[from:k], " "))
	}
	if c := run.res.crash(); c != "" || (!run.ended && !run.exited) {
		t.Failf("the app crashed %s\nscript: %s\n%s", when(min(len(script), len(run.frames))), trunc(strings.Join(script, " "), 3000), c+trunc(run.res.out+run.res.err, 800))
	}
	if run.res.code != 0 {
		t.Failf("exit status %d: %s", run.res.code, trunc(run.res.out+run.res.err, 800))
	}
	off := [2]int{}
	var last *ui
	for k := 0; k <= len(script); k++ {
		if k > 0 {
			u.apply(script[k-1], off)
			t.c.Transitions++
			if u.exited {
				if !run.exited || len(run.frames) > k {
					t.Failf("the app did not end %s\nscript: %s", when(k), trunc(strings.Join(script, " "), 3000))
				}
				return
			}
		}
		if k >= len(run.frames) {
			t.Failf("the app ended %s\nscript: %s", when(k), trunc(strings.Join(script, " "), 3000))
		}
		f := run.frames[k]
		t.c.States++
		fail := func(m string) {
			t.Failf("%s: %s\nscript: %s\nscreen:\n%s", when(k), m, trunc(strings.Join(script, " "), 3000), trunc(f.String(), 6000))
		}
		if u.page != "" {
			if look&(lookGraph|lookTable) != 0 {
				if d := dialogTitle(f); d != u.page {
					fail(fmt.Sprintf("dialog %q is shown, expected %q", d, u.page))
				}
			}
			if u.page == "table" && look&lookTable != 0 {
				if m := u.checkTable(t, f); m != "" {
					fail(m)
				}
			}
		} else if look&lookGraph != 0 || (look&lookTable != 0 && last != nil && last.page == "table") {
			if d := dialogTitle(f); d != "" {
				fail(fmt.Sprintf("dialog %q is shown", d))
			}
			var m string
			off, m = u.compare(f, off, k > 0 && scrolls(script[k-1]))
			if m != "" {
				fail(m)
			}
			t.Outcome(hashText(f))
			t.c.MaxOf("scrolled columns", int64(off[0]))
			t.c.MaxOf("scrolled lines", int64(off[1]))
		}
		if look&lookSave != 0 {
			if u.mustSave && f.saved == nil {
				fail("the network was not saved")
			}
			if f.saved != nil {
				if !u.mustSave && u.page == "" {
					fail("the network was saved without being asked for")
				}
				u.checkSaved(t, *f.saved, fail)
				t.Outcome(hashString(*f.saved))
			}
		}
		last = u.clone()
	}
	if look&lookSave != 0 {
		// the original file, and nothing else
		now, err := os.ReadFile(file)
		if err != nil || !bytes.Equal(now, sp.content) {
			t.Failf("the original file changed: %v\nscript: %s", err, trunc(strings.Join(script, " "), 2000))
		}
		_ = filepath.WalkDir(dir, func(path string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() && path != file && path != save {
				for _, a := range sp.args {
					if filepath.Join(dir, a) == path {
						return nil
					}
				}
				t.Failf("unexpected file %s\nscript: %s", path, trunc(strings.Join(script, " "), 2000))
			}
			return nil
		})
	}
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func hashText(f *frame) uint64 {
	h := uint64(14695981039346656037)
	for y := 1; y < f.h; y++ {
		for _, r := range f.cells[y] {
			h ^= uint64(r)
			h *= 1099511628211
		}
	}
	return h
}

// checkSaved compares a saved file with the model.
func (u *ui) checkSaved(t *T, text string, fail func(string)) {
	b, err := bbn.FromYAML([]byte(text))
	if err != nil {
		fail(fmt.Sprintf("the saved file can't be read: %v\n%s", err, trunc(text, 1500)))
		return
	}
	n := u.un.n
	got := netFrom(b)
	if got.Name != n.Name || got.Info != n.Info || len(got.Vars) != len(n.Vars) {
		fail(fmt.Sprintf("the saved network differs: %q, %q, %d variables", got.Name, got.Info, len(got.Vars)))
	}
	for i, v := range got.Vars {
		w := n.Vars[i]
		want := w.Pos
		if u.pos[i] != [2]int{max(w.Pos[0], 0), max(w.Pos[1], 0)} || v.Pos != want {
			want = u.pos[i]
		}
		if v.Pos != want {
			fail(fmt.Sprintf("saved position of %s is %v, expected %v", w.Name, v.Pos, want))
		}
		if v.Name != w.Name || v.Type != w.Type || v.Color != w.Color || fmt.Sprint(v.Out) != fmt.Sprint(w.Out) || len(v.Out) != len(w.Out) || fmt.Sprint(v.Given) != fmt.Sprint(w.Given) {
			fail(fmt.Sprintf("saved variable %v, expected %v", v, w))
		}
		if len(v.Table) != len(w.Table) {
			fail(fmt.Sprintf("saved table of %s has %d values, expected %d", w.Name, len(v.Table), len(w.Table)))
		}
		for k := range v.Table {
			if v.Table[k] != w.Table[k] {
				fail(fmt.Sprintf("saved table of %s is %v, expected %v", w.Name, v.Table, w.Table))
			}
		}
	}
	t.c.Count("saves", 1)
}

// checkTable compares the table dialog with the model.
func (u *ui) checkTable(t *T, f *frame) string {
	n := u.un.n
	v := &n.Vars[u.sel]
	// find the border of the table: the innermost box with the name as title
	top, left, right := -1, -1, -1
	for y := 0; y < f.h; y++ {
		l := string(f.cells[y])
		for _, br := range []string{"═", "─"} {
			s := br + " " + v.Name + " " + br
			if i := strings.Index(l, s); i >= 0 && y > 0 {
				c := utf8.RuneCountInString(l[:i])
				a, b := c, c+utf8.RuneCountInString(s)-1
				for a > 0 && f.cells[y][a] == []rune(br)[0] {
					a--
				}
				for b < f.w-1 && f.cells[y][b] == []rune(br)[0] {
					b++
				}
				if strings.ContainsRune("╔┌", f.cells[y][a]) && strings.ContainsRune("╗┐", f.cells[y][b]) {
					top, left, right = y, a, b
				}
			}
		}
	}
	if top < 0 {
		return fmt.Sprintf("no table titled %q", v.Name)
	}
	side := '║'
	if f.cells[top][left] == '┌' {
		side = '│'
	}
	lines := [][]string{}
	for y := top + 1; y < f.h && f.cells[y][left] == side && f.cells[y][right] == side; y++ {
		parts := strings.Split(string(f.cells[y][left+1:right]), "│")
		for i := range parts {
			parts[i] = strings.TrimSpace(parts[i])
		}
		lines = append(lines, parts)
	}
	for len(lines) > 0 && len(lines[len(lines)-1]) == 1 && lines[len(lines)-1][0] == "" {
		lines = lines[:len(lines)-1]
	}
	if len(lines) == 0 {
		return "empty table"
	}
	given, table := v.Given, v.Table
	if v.Type == decision {
		p := u.un.pols[u.sel]
		given, table = p.Scope, p.Table
	}
	if u.seen != nil {
		return u.checkScrolled(t, lines, given, table)
	}
	cols := len(given) + len(v.Out)
	// all columns are visible
	if len(lines[0]) != cols {
		return fmt.Sprintf("table with %d columns, expected %d: %v", len(lines[0]), cols, lines[0])
	}
	head := lines[0]
	order := append([]int{}, given...)
	for k := range given {
		if head[k] == strings.TrimSpace(n.Vars[given[k]].Name) {
			continue
		}
		i := n.index(head[k])
		if v.Type != decision || i < 0 || !has(given, i) {
			return fmt.Sprintf("column %d of the table is %q, expected %q", k, head[k], n.Vars[given[k]].Name)
		}
		order[k] = i
	}
	for k, g := range order {
		if has(order[:k], g) {
			return fmt.Sprintf("columns %v", head)
		}
	}
	for k, o := range v.Out {
		if head[len(given)+k] != strings.TrimSpace(o) {
			return fmt.Sprintf("column %d of the table is %q, expected %q", len(given)+k, head[len(given)+k], o)
		}
	}
	rows := n.scopeSize(order)
	if v.Type == utility && u.sel == n.total() {
		rows = 1
	}
	if table == nil {
		rows = 0
	}
	body := lines[1:]
	visible := f.h - 3 - top
	if len(body) != rows && len(body) < visible-6 {
		return fmt.Sprintf("table with %d rows, expected %d", len(body), rows)
	}
	x := make([]int, len(n.Vars))
	r := 0
	msg := ""
	n.rfEach(order, x, func() {
		if r >= len(body) || r >= rows || msg != "" {
			r++
			return
		}
		l := body[r]
		r++
		if len(l) != cols {
			msg = fmt.Sprintf("row %d of the table: %v", r, l)
			return
		}
		for k, g := range order {
			if l[k] != strings.TrimSpace(n.Vars[g].Out[x[g]]) {
				msg = fmt.Sprintf("row %d of the table is for %q of %s, expected %q", r, l[k], n.Vars[g].Name, n.Vars[g].Out[x[g]])
				return
			}
		}
		at := n.scopeIndex(given, x) * len(v.Out)
		if u.sel == n.total() && v.Type == utility {
			at = 0
		}
		row := table[at : at+len(v.Out)]
		sum := 0.0
		for _, q := range row {
			sum += q
		}
		for k, q := range row {
			s := l[len(order)+k]
			if v.Type == utility {
				if m := sameNumber(s, q, false); m != "" {
					msg = fmt.Sprintf("row %d of the table, %s: %s", r, v.Out[k], m)
				}
				continue
			}
			if !strings.HasSuffix(s, "%") {
				msg = fmt.Sprintf("row %d of the table, %s: %q", r, v.Out[k], s)
				return
			}
			if m := sameNumber(strings.TrimSpace(strings.TrimSuffix(s, "%")), q/sum, true); m != "" {
				msg = fmt.Sprintf("row %d of the table, %s: %s", r, v.Out[k], m)
			}
		}
	})
	t.c.Count("tables", 1)
	t.c.Count("table rows", int64(min(len(body), rows)))
	return msg
}

// checkScrolled compares what is visible of a table that does not fit into its dialog: it must be some rows
// and columns in a row. The first and the last column may be cut off.
func (u *ui) checkScrolled(t *T, lines [][]string, given []int, table []float64) string {
	n := u.un.n
	v := &n.Vars[u.sel]
	cols := len(given) + len(v.Out)
	name := func(k int) string {
		if k < len(given) {
			return strings.TrimSpace(n.Vars[given[k]].Name)
		}
		return strings.TrimSpace(v.Out[k-len(given)])
	}
	head := lines[0]
	at := -1
	for c0 := 0; c0+len(head) <= cols && at < 0; c0++ {
		ok := true
		for k := range head {
			ok = ok && (head[k] == name(c0+k) || (len(head) > 2 && (k == 0 || k == len(head)-1)))
		}
		if ok {
			at = c0
		}
	}
	if at < 0 {
		return fmt.Sprintf("columns %v of the table", head)
	}
	// rows as shown
	rows := [][]string{}
	x := make([]int, len(n.Vars))
	n.rfEach(given, x, func() {
		l := []string{}
		for _, g := range given {
			l = append(l, strings.TrimSpace(n.Vars[g].Out[x[g]]))
		}
		i := n.scopeIndex(given, x) * len(v.Out)
		row := table[i : i+len(v.Out)]
		sum := 0.0
		for _, q := range row {
			sum += q
		}
		for _, q := range row {
			if v.Type == utility {
				l = append(l, fmt.Sprintf("%.3f", q))
			} else {
				l = append(l, fmt.Sprintf("%.3f%%", 100*q/sum))
			}
		}
		rows = append(rows, l)
	})
	body := lines[1:]
	same := func(got, want string) bool {
		if got == want {
			return true
		}
		a, err1 := strconv.ParseFloat(strings.TrimSuffix(got, "%"), 64)
		b, err2 := strconv.ParseFloat(strings.TrimSuffix(want, "%"), 64)
		return err1 == nil && err2 == nil && strings.HasSuffix(got, "%") == strings.HasSuffix(want, "%") && math.Abs(a-b) < 0.0011
	}
	if len(body) == 0 || len(body) > len(rows) {
		return fmt.Sprintf("table with %d rows visible of %d", len(body), len(rows))
	}
	for r0 := 0; r0+len(body) <= len(rows); r0++ {
		ok := true
		cut := map[int]bool{} // first or last column, if it is not completely visible
		for k := range head {
			cut[k] = head[k] != name(at+k)
		}
		for r, l := range body {
			ok = ok && len(l) == len(head)
			for k := 0; k < len(l) && ok; k++ {
				if !same(l[k], rows[r0+r][at+k]) {
					cut[k] = true
					ok = len(head) > 2 && (k == 0 || k == len(head)-1) && (l[k] == "" || strings.Contains(l[k], "…"))
				}
			}
		}
		if !ok {
			continue
		}
		for r := range body {
			for k := range head {
				if !cut[k] {
					u.seen[[3]int{u.sel, r0 + r, at + k}] = true
				}
			}
		}
		t.c.Count("scrolled tables", 1)
		return ""
	}
	return fmt.Sprintf("the rows shown are no rows of the table: %v", body)
}

// ---------------------------------------------------------------------------
// Exploration of the model: tours that take every transition of its state space.

// tours returns scripts that together take every transition (state, event) of the model, where
// events gives the enabled events of a state. Each is of about the given length.
func tours(start func() *ui, events func(u *ui) []string, length int) (scripts [][]string, states, transitions int) {
	type edge struct {
		ev string
		to int
	}
	index := map[string]int{}
	nodes := []*ui{}
	out := [][]edge{}
	add := func(u *ui) int {
		k := u.key()
		if i, ok := index[k]; ok {
			return i
		}
		index[k] = len(nodes)
		nodes = append(nodes, u)
		out = append(out, nil)
		return len(nodes) - 1
	}
	add(start())
	for i := 0; i < len(nodes); i++ {
		if nodes[i].exited {
			continue
		}
		for _, e := range events(nodes[i]) {
			v := nodes[i].clone()
			v.apply(e, [2]int{})
			v.mustSave = false
			out[i] = append(out[i], edge{e, add(v)})
			transitions++
		}
	}
	states = len(nodes)
	done := make([]int, len(nodes)) // number of edges taken, in order
	left := transitions
	// path to the nearest state with an edge not yet taken
	nearest := func(from int) ([]string, int) {
		prev := make([]int, len(nodes))
		via := make([]string, len(nodes))
		for i := range prev {
			prev[i] = -2
		}
		prev[from] = -1
		queue := []int{from}
		for len(queue) > 0 {
			i := queue[0]
			queue = queue[1:]
			if done[i] < len(out[i]) {
				path := []string{}
				for k := i; prev[k] >= 0; k = prev[k] {
					path = append([]string{via[k]}, path...)
				}
				return path, i
			}
			for _, e := range out[i] {
				if prev[e.to] == -2 {
					prev[e.to], via[e.to] = i, e.ev
					queue = append(queue, e.to)
				}
			}
		}
		return nil, -1
	}
	for left > 0 {
		script := []string{}
		at := 0
		for len(script) < length && left > 0 && !nodes[at].exited {
			if done[at] < len(out[at]) {
				e := out[at][done[at]]
				done[at]++
				left--
				script = append(script, e.ev)
				at = e.to
				continue
			}
			path, to := nearest(at)
			if to < 0 {
				break
			}
			script = append(script, path...)
			at = to
		}
		if len(script) == 0 {
			break
		}
		scripts = append(scripts, script)
	}
	return
}
