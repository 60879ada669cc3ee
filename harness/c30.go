package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	gl "github.com/hymkor/gmnlisp"
)

// ---- the tools for looking at programs: load, trace, expand-defun, gmn:dump-session, clocks ------

var c30err *os.File

// c30Stderr runs f and returns what was written to the standard error of the process meanwhile.
func c30Stderr(f func()) string {
	if c30err == nil {
		t, err := os.CreateTemp("", "vmon-c30-")
		if err != nil {
			bug("c30: %v", err)
		}
		os.Remove(t.Name())
		c30err = t
	}
	c30err.Truncate(0)
	c30err.Seek(0, 0)
	save := os.Stderr
	os.Stderr = c30err
	func() {
		defer func() { os.Stderr = save }()
		f()
	}()
	n, _ := c30err.Seek(0, 2)
	b := make([]byte, n)
	c30err.ReadAt(b, 0)
	return string(b)
}

var (
	rxEnter = regexp.MustCompile(`\[(\d+): \(([^\s()]+)([^\n]*)\)\]\n`)
	rxLeave = regexp.MustCompile(`\[(\d+): (\S+) returned ([^\n]*)\]\n`)
	rxCall  = regexp.MustCompile(`\[\d+: \(([^\s()\[\]]+)`)
)

// defuns gives the names of the functions which the forms define.
func defuns(forms []V) (names []string, at []int) {
	for i, f := range forms {
		if p, ok := f.(*Pair); ok && p.a == V(S("defun")) {
			names = append(names, src(slice(f)[1]))
			at = append(at, i)
		}
	}
	return
}

// c30Watched: a random program in which functions are traced, shown and untraced, variables dumped
// and clocks read between and inside its forms does what it does without.
func c30Watched(c *Case) {
	r := c.R
	f := featAll
	f.Calls = 6
	forms, _ := c.genProg(f, r.In(1, 3), r.In(2, 5), r.In(40, 120), c01Idioms)
	in := newRef()
	in.Limit = 60000
	m := newMon()
	names, _ := defuns(forms)
	names = append(names, pick(r, []string{"f1", "f2", "loop", "nobody"}))
	log := []string{}
	traced := map[string]bool{}
	ever := map[string]bool{}
	look := func() string {
		switch r.N(6) {
		case 0, 1:
			traced = map[string]bool{}
			s := "(trace"
			for _, n := range names {
				if r.P(60) {
					s += " " + n
					traced[n], ever[n] = true, true
				}
			}
			c.Count("trace", 1)
			return s + ")"
		case 2:
			traced = map[string]bool{}
			return "(trace)"
		case 3:
			c.Count("dump", 1)
			return "(gmn:dump-session)"
		case 4:
			return "(ignore-errors (expand-defun " + pick(r, names) + "))"
		}
		return pick(r, []string{"(get-universal-time)", "(get-internal-real-time)", "(get-internal-run-time)", "(internal-time-units-per-second)", "(ignore-errors (macroexpand '(when 1 2)))"})
	}
	for _, form := range forms {
		ro := in.Run([]V{form})
		if ro.Kind == "limit" {
			c.Count("discarded", 1)
			return
		}
		want := trace(in.Events, Outcome{Kind: "value", Val: ro.String()})
		var o Outcome
		var text string
		before := map[string]bool{}
		for n := range traced {
			before[n] = true
		}
		errout := c30Stderr(func() {
			if r.P(60) {
				l := look()
				for n := range traced {
					before[n] = true
				}
				log = append(log, l)
				if lo := m.Run(l); lo.Kind != "value" {
					o = lo
					return
				}
			}
			text = src(form)
			log = append(log, text)
			o = m.Run(text)
		})
		c.Eval()
		if !agrees(o, ro) || strings.Join(m.Events, "\x00") != strings.Join(in.Events, "\x00") {
			c.Fail("watched", strings.Join(log, "\n"), want, trace(m.Events, o)+"\n"+o.Full())
			return
		}
		for _, call := range rxCall.FindAllStringSubmatch(errout, -1) {
			if !before[call[1]] {
				c.Fail("traced", strings.Join(log, "\n"), "calls of traced functions only", clip(errout, 500))
				return
			}
			c.Count("traced call", 1)
		}
		c.Count("events", len(in.Events))
		in.Events, m.Events = nil, nil
		in.Limit = in.steps + 60000
	}
	c.Distinct(strings.Join(log, "\n"))
}

// c30Call is a call in the model of the traced functions.
type c30Call struct {
	enter bool
	depth int
	name  string
	text  string
}

func (e c30Call) String() string {
	if e.enter {
		return fmt.Sprintf("%d:(%s%s)", e.depth, e.name, e.text)
	}
	return fmt.Sprintf("%d:%s=>%s", e.depth, e.name, e.text)
}

// c30Trace: the report of the calls of traced functions is the history of these calls.
func c30Trace(c *Case) {
	r := c.R
	sfx := c.suffix
	type fn struct {
		name, def string
		run       func(call func(string, ...int) (int, bool), a []int) (int, bool)
		args      int
		top       int // largest argument used
		tail      string
		chars     bool
	}
	id := func(n string) string { return n + sfx }
	fns := []fn{
		{name: id("fact"), args: 1, top: 12, run: func(call func(string, ...int) (int, bool), a []int) (int, bool) {
			if a[0] <= 1 {
				return 1, true
			}
			v, ok := call(id("fact"), a[0]-1)
			return a[0] * v, ok
		}, def: "(defun F (n) (if (<= n 1) 1 (* n (F (- n 1)))))"},
		{name: id("fib"), args: 1, top: 7, run: func(call func(string, ...int) (int, bool), a []int) (int, bool) {
			if a[0] < 2 {
				return a[0], true
			}
			x, ok := call(id("fib"), a[0]-1)
			if !ok {
				return 0, false
			}
			y, ok := call(id("fib"), a[0]-2)
			return x + y, ok
		}, def: "(defun F (n) (if (< n 2) n (let ((x (F (- n 1))) (y (F (- n 2)))) (+ x y))))"},
		{name: id("add"), args: 2, top: 90, run: func(call func(string, ...int) (int, bool), a []int) (int, bool) { return a[0] + a[1], true },
			def: "(defun F (a b) (+ a b))"},
		{name: id("via"), args: 2, top: 9, run: func(call func(string, ...int) (int, bool), a []int) (int, bool) {
			v, ok := call(id("add"), a[0], a[1])
			if !ok {
				return 0, false
			}
			w, ok := call(id("fact"), a[0])
			return v - w, ok
		}, def: "(defun F (a b) (let ((v (" + pick(r, []string{"ADD a b", "funcall #'ADD a b", "apply #'ADD a (list b)", "car (mapcar #'ADD (list a) (list b))", "funcall (lambda (x) (let ((y (ADD x b))) y)) a"}) + ")) (w (FACT a))) (- v w)))"},
		{name: id("bad"), args: 1, top: 9, run: func(call func(string, ...int) (int, bool), a []int) (int, bool) {
			if a[0] == 0 {
				return 0, false
			}
			return call(id("bad"), a[0]-1)
		}, def: "(defun F (n) (let ((v (if (= n 0) " + pick(r, []string{"(car n)", "(throw 'out 'left)", "(undefined-f n)", "(error \"x\")"}) + " (F (- n 1))))) v))"},
		{name: id("ping"), args: 1, top: 9, run: func(call func(string, ...int) (int, bool), a []int) (int, bool) {
			if a[0] <= 0 {
				return 0, true
			}
			v, ok := call(id("pong"), a[0]-1)
			return v + 1, ok
		}, def: "(defun F (n) (if (<= n 0) 0 (+ (PONG (- n 1)) 1)))"},
		{name: id("pong"), args: 1, top: 9, run: func(call func(string, ...int) (int, bool), a []int) (int, bool) {
			if a[0] <= 0 {
				return 100, true
			}
			v, ok := call(id("ping"), a[0]-1)
			return v + 10, ok
		}, def: "(defun F (n) (if (<= n 0) 100 (+ (PING (- n 1)) 10)))"},
		{name: id("down"), args: 2, top: 15, tail: "yes", run: nil, def: "(defun F (n acc) (if (<= n 0) acc (F (- n 1) (+ acc n))))"},
	}
	// swap calls trace itself: what is traced changes while it runs
	traced := map[string]bool{}
	swapTo, swapText := map[string]bool{}, "(trace"
	for _, n := range []string{id("swap"), id("add"), id("fact"), id("down")} {
		if r.P(50) {
			swapTo[n] = true
			swapText += " " + n
		}
	}
	fns = append(fns, fn{name: id("swap"), args: 2, top: 9, run: func(call func(string, ...int) (int, bool), a []int) (int, bool) {
		traced = swapTo
		return call(id("add"), a[0], a[1])
	}, def: "(defun F (a b) " + swapText + ") (let ((v (ADD a b))) v))"})
	byName := map[string]*fn{}
	m := newMon()
	log := []string{}
	rep := strings.NewReplacer("ADD", id("add"), "FACT", id("fact"), "PONG", id("pong"), "PING", id("ping"))
	for i := range fns {
		f := &fns[i]
		byName[f.name] = f
		def := rep.Replace(strings.ReplaceAll(f.def, "(F ", "("+f.name+" "))
		def = strings.Replace(def, "(defun F ", "(defun "+f.name+" ", 1)
		log = append(log, def)
		if o := m.Run(def); o.Kind != "value" {
			c.Fail("definition", def, "a definition", o.Full())
			return
		}
	}
	for i := r.In(3, 10); i > 0; i-- {
		if r.P(35) {
			traced = map[string]bool{}
			s := "(trace"
			for _, f := range fns {
				if r.P(40) {
					traced[f.name] = true
					s += " " + f.name
				}
			}
			s += ")"
			log = append(log, s)
			if o := m.Run(s); o.Kind != "value" {
				c.Fail("trace", strings.Join(log, "\n"), "done", o.Full())
				return
			}
			continue
		}
		f := &fns[r.N(len(fns))]
		args := []int{r.N(f.top + 1), r.In(-9, 9)}[:f.args]
		var want []string
		depth := map[string]int{}
		var call func(name string, a ...int) (int, bool)
		call = func(name string, a ...int) (int, bool) {
			f := byName[name]
			t := ""
			for _, x := range a {
				t += " " + strconv.Itoa(x)
			}
			d := depth[name]
			depth[name]++
			defer func() { depth[name]-- }()
			if f.tail != "" {
				// the calls in tail position replace each other; the last one returns
				n, acc := a[0], a[1]
				for ; ; n-- {
					if traced[name] {
						want = append(want, c30Call{true, d, name, fmt.Sprintf(" %d %d", n, acc)}.String())
					}
					if n <= 0 {
						break
					}
					acc += n
				}
				if traced[name] {
					want = append(want, c30Call{false, d, name, strconv.Itoa(acc)}.String())
				}
				return acc, true
			}
			was := traced[name] // what counts is the moment of the call
			if was {
				want = append(want, c30Call{true, d, name, t}.String())
			}
			v, ok := f.run(call, a)
			if ok && was {
				want = append(want, c30Call{false, d, name, strconv.Itoa(v)}.String())
			}
			return v, ok
		}
		v, ok := call(f.name, args...)
		t := "(" + f.name
		for _, x := range args {
			t += " " + strconv.Itoa(x)
		}
		t += ")"
		result := strconv.Itoa(v)
		if !ok {
			t, result = "(catch 'out (ignore-errors "+t+"))", ""
		}
		log = append(log, t)
		var o Outcome
		text := c30Stderr(func() { o = m.Run(t) })
		c.Eval()
		if o.Kind != "value" || result != "" && o.Val != result {
			c.Fail("result", strings.Join(log, "\n"), result, o.Full())
			return
		}
		var got []string
		for _, l := range strings.SplitAfter(text, "\n") {
			if e := rxEnter.FindStringSubmatch(l); e != nil {
				d, _ := strconv.Atoi(e[1])
				got = append(got, c30Call{true, d, e[2], e[3]}.String())
			} else if e := rxLeave.FindStringSubmatch(l); e != nil {
				d, _ := strconv.Atoi(e[1])
				got = append(got, c30Call{false, d, e[2], e[3]}.String())
			} else if l != "" {
				got = append(got, "?"+l)
			}
		}
		c.Count("traced call", len(want))
		if !ok {
			c.Count("traced call left by an error or throw", 1)
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("trace report", strings.Join(log, "\n"), strings.Join(want, "\n"), strings.Join(got, "\n"))
			return
		}
	}
	c.Distinct(strings.Join(log, "\n"))
}

// c30Definition: what expand-defun prints defines a function which does the same.
func c30Definition(c *Case) {
	r := c.R
	f := featAll
	f.Calls, f.Macros = 8, 0
	forms, _ := c.genProg(f, r.In(1, 3), r.In(2, 5), r.In(40, 120), append(append([]idiom{}, idiomsScope...), idiomsTail...))
	names, at := defuns(forms)
	if len(names) == 0 || strings.Contains(srcs(forms), "macro") {
		c.Count("discarded", 1)
		return
	}
	m0, m := newMon(), newMon()
	in := newRef()
	in.Limit = 60000
	k := r.N(len(names))
	for i, form := range forms {
		text := src(form)
		if i == at[k] {
			if o := m0.Run(text); o.Kind != "value" {
				c.Fail("definition", text, "a definition", o.Full())
				return
			}
			m0.Out.Reset()
			o := m0.Run("(expand-defun " + names[k] + ")")
			c.Eval()
			printed := m0.Out.String()
			if o.Kind != "value" || strings.TrimSpace(printed) == "" {
				c.Fail("expand-defun", text+"\n(expand-defun "+names[k]+")", "the definition", o.Full())
				return
			}
			text = printed
			c.Count("definition shown", 1)
			if strings.Contains(src(slice(form)[2]), ":rest") {
				c.Count("definition with :rest shown", 1)
			}
		}
		ro := in.Run([]V{form})
		if ro.Kind == "limit" {
			c.Count("discarded", 1)
			return
		}
		o := m.Run(text)
		c.Eval()
		if !agrees(o, ro) || strings.Join(m.Events, "\x00") != strings.Join(in.Events, "\x00") {
			shown := ""
			if i == at[k] {
				shown = text
			}
			c.Fail("definition shown", srcs(forms[:i+1])+"\n;; with "+names[k]+" defined by what (expand-defun "+names[k]+") printed "+shown,
				trace(in.Events, Outcome{Kind: "value", Val: ro.String()}), trace(m.Events, o)+"\n"+o.Full())
			return
		}
		c.Count("events", len(in.Events))
		in.Events, m.Events = nil, nil
		in.Limit = in.steps + 60000
	}
	c.Distinct(srcs(forms))
}

// c30Dump: gmn:dump-session shows each visible variable once, with its innermost value.
func c30Dump(c *Case) {
	r := c.R
	m := newMon()
	pool := []string{}
	for i := 0; i < 6; i++ {
		pool = append(pool, fmt.Sprintf("v%d-%d%s", i, c.Idx, c.suffix))
	}
	vals := []string{"1", "-20", "2.5", "nil", "t", "\"text\"", "#\\a", "(1 2)", "sym", "((a) \"b\" (1.5 nil))", "#(1 2 3)", ":key"}
	type fr map[string]string
	scopes := []fr{{}}
	set := func(n string) string { v := pick(r, vals); scopes[len(scopes)-1][n] = v; return v }
	text, closing := "", ""
	pre := ""
	for i := r.N(3); i > 0; i-- {
		n := pick(r, pool)
		pre += "(defglobal " + n + " '" + set(n) + ")"
	}
	for i := r.In(1, 6); i > 0; i-- {
		scopes = append(scopes, fr{})
		switch r.N(6) {
		case 0, 1:
			text += "(let ("
			used := map[string]bool{}
			for j := r.In(0, 3); j > 0; j-- {
				n := pick(r, pool)
				if !used[n] {
					used[n] = true
					text += "(" + n + " '" + set(n) + ")"
				}
			}
			text += ") "
			closing = ")" + closing
		case 2:
			text += "(let* ("
			for j := r.In(0, 3); j > 0; j-- {
				n := pick(r, pool)
				text += "(" + n + " '" + set(n) + ")"
			}
			text += ") "
			closing = ")" + closing
		case 3:
			text += "(flet ((fun" + c.suffix + " (" + pick(r, pool) + ") 'never)) "
			closing = ")" + closing
		case 4:
			n := pick(r, pool)
			text += "((lambda (" + n + ") "
			v := pick(r, vals)
			scopes[len(scopes)-1][n] = v
			closing = ") '" + v + ")" + closing
		case 5:
			text += "(let ((" + pick(r, pool) + " 'gone)) nil) (block b (tagbody) "
			closing = ")" + closing
		}
		// an assignment changes the innermost binding
		if r.P(40) {
			n := pick(r, pool)
			for j := len(scopes) - 1; j >= 0; j-- {
				if _, ok := scopes[j][n]; ok {
					v := pick(r, vals)
					scopes[j][n] = v
					text += "(setq " + n + " '" + v + ") "
					break
				}
			}
		}
	}
	full := pre + "(progn " + text + "(gmn:dump-session)" + closing + ")"
	o := m.Run(full)
	c.Eval()
	if o.Kind != "value" {
		c.Fail("dump", full, "done", o.Full())
		return
	}
	want := map[string]string{}
	for _, s := range scopes {
		for n, v := range s {
			want[n] = v
		}
	}
	for _, n := range pool {
		lines := []string{}
		for _, l := range strings.Split(m.Out.String(), "\n") {
			if strings.HasPrefix(l, "("+n+" ") || l == "("+n+")" {
				lines = append(lines, l)
			}
		}
		got := strings.Join(lines, " | ")
		w := ""
		if v, ok := want[n]; ok {
			w = "(" + n + " " + v + ")"
			c.Count("variable dumped", 1)
		}
		if got != w {
			c.Fail("dump", full, "for "+n+": "+w, got)
			return
		}
	}
	c.Count("dump", 1)
	c.Distinct(full)
}

// c30Clock: the clocks agree with the host's.
func c30Clock(c *Case) {
	// the time zone of the process does not matter
	defer func(l *time.Location) { time.Local = l }(time.Local)
	if zone := c.R.In(-12, 14); c.R.P(80) {
		time.Local = time.FixedZone("VT", zone*3600+c.R.In(0, 3)*900)
	}
	w := gl.New()
	get := func(s string) int64 {
		o := interp(w, s)
		c.Eval()
		n, err := strconv.ParseInt(o.Val, 10, 64)
		if o.Kind != "value" || err != nil {
			c.Fail("clock", s, "an integer", o.Full())
		}
		return n
	}
	units := get("(internal-time-units-per-second)")
	if units <= 0 {
		c.Fail("clock", "(internal-time-units-per-second)", "a positive integer", fmt.Sprint(units))
		return
	}
	now := func() time.Time { return time.Now().Round(0) }
	a0 := now()
	u := get("(get-universal-time)")
	r1 := get("(get-internal-real-time)")
	p1 := get("(get-internal-run-time)")
	a1 := now()
	const epoch = 2208988800 // from 1900 to 1970
	if u < a0.Unix()+epoch || u > a1.Unix()+epoch {
		c.Fail("universal time", "(get-universal-time)", fmt.Sprintf("%d to %d", a0.Unix()+epoch, a1.Unix()+epoch), fmt.Sprint(u))
	}
	time.Sleep(time.Duration(c.R.In(1, 20)) * time.Millisecond)
	b0 := now()
	p2 := get("(get-internal-run-time)")
	r2 := get("(get-internal-real-time)")
	b1 := now()
	if b0.Before(a1) || a1.Before(a0) || b1.Before(b0) {
		c.Count("discarded", 1) // the host's clock was set
		return
	}
	low := b0.Sub(a1).Seconds()*float64(units) - 1
	high := b1.Sub(a0).Seconds()*float64(units) + 1
	if d := float64(r2 - r1); d < low-1e-6*float64(units) || d > high+1e-6*float64(units) {
		c.Fail("real time", "(get-internal-real-time) twice", fmt.Sprintf("%v to %v units of 1/%d s", low, high, units), fmt.Sprint(d))
	}
	if p2 < p1 {
		c.Fail("run time", "(get-internal-run-time) twice", "not less than before", fmt.Sprintf("%d then %d", p1, p2))
	}
	c.Count("clock", 1)
}

// c30Load: a file is evaluated like its text.
func c30Load(c *Case) {
	r := c.R
	f := featAll
	forms, _ := c.genProg(f, r.In(1, 3), r.In(2, 5), r.In(40, 120), c01Idioms)
	file := filepath.Join(c.Dir, "load-"+strconv.Itoa(c.Idx)+".lsp")
	defer os.Remove(file)
	write := func(s string) {
		if err := os.WriteFile(file, []byte(s), 0600); err != nil {
			bug("c30: %v", err)
		}
	}
	cut := r.N(len(forms) + 1)
	in := newRef()
	in.Limit = 60000
	m := newMon()
	run := func(forms []V, text string, what string) bool {
		ro := in.Run(forms)
		if ro.Kind == "limit" {
			c.Count("discarded", 1)
			return false
		}
		o := m.Run(text)
		c.Eval()
		if !agrees(o, ro) || strings.Join(m.Events, "\x00") != strings.Join(in.Events, "\x00") {
			c.Fail(what, srcs(forms)+"\n;; as "+text, trace(in.Events, Outcome{Kind: "value", Val: ro.String()}), trace(m.Events, o)+"\n"+o.Full())
			return false
		}
		c.Count("events", len(in.Events))
		in.Events, m.Events = nil, nil
		in.Limit = in.steps + 60000
		return true
	}
	sep := "\n"
	if r.P(30) {
		sep = pick(r, []string{"\r\n", "\n\n", "\n; a note\n", " #| note |# "})
	}
	text := ""
	for _, f := range forms[:cut] {
		text += src(f) + sep
	}
	if r.P(50) {
		text += pick(r, []string{"\n", "\r\n", "  ", "\n; end", "\n#| end |#\n"})
	}
	if cut > 0 && r.P(6) { // a long file: a form stands at, or behind, the place where a buffer may end
		at := pick(r, []int{512, 4096, 8192, 32768, 65536, 131072, 1 << 20})
		first := src(forms[0])
		pad := at - len(text) + r.In(-3, 3)
		if r.P(50) {
			pad = at - len(first) - 3 + r.In(-4, 4)
		}
		if pad > 0 {
			text = pick(r, []string{"#|" + strings.Repeat("x", pad) + "|#\n", ";" + strings.Repeat("日", pad/3) + "\n", strings.Repeat(" ", pad), strings.Repeat("(+ 1 2) ", pad/8)}) + text
			c.Count("long file", 1)
		}
	}
	write(text)
	load := fmt.Sprintf("(load %s)", srcString(file))
	if !run(forms[:cut], load, "load") {
		return
	}
	c.Count("load", 1)
	if !run(forms[cut:], srcs(forms[cut:]), "after load") {
		return
	}
	// a file which cannot be read is not evaluated at all, one which does not exist is an error
	write("(ev 1)\n(ev 2)\n" + pick(r, []string{"(", "(list 1", "\"abc", "'", "#| never", "|x"}))
	ok := m.Run(load)
	c.Eval()
	if ok.Kind != "error" || len(m.Events) > 0 {
		b, _ := os.ReadFile(file)
		c.Fail("unreadable file", string(b), "an error and nothing evaluated", trace(m.Events, ok)+"\n"+ok.Full())
		return
	}
	c.Count("unreadable file", 1)
	m.Events = nil
	os.Remove(file)
	if o := m.Run(load); o.Kind != "error" {
		c.Fail("missing file", load, "an error", o.Full())
	}
	c.Distinct(text)
}

func c30Run(c *Case) {
	switch n := c.R.N(20); {
	case n < 6:
		c30Watched(c)
	case n < 10:
		c30Trace(c)
	case n < 14:
		c30Definition(c)
	case n < 16:
		c30Dump(c)
	case n < 17:
		c30Clock(c)
	default:
		c30Load(c)
	}
}

func init() {
	register(&Prop{
		ID: "C30", Quick: 60000, Thorough: 1500000, Run: c30Run,
		Rule:   "random programs in which functions are traced, definitions and variables shown and clocks read, against the reference evaluator running the program without; known functions whose traced calls are compared with their real history; definitions printed and evaluated elsewhere; nested scopes dumped; files loaded; distinct by text",
		Need:   []string{"trace", "dump", "traced call", "traced call left by an error or throw", "definition shown", "definition with :rest shown", "variable dumped", "clock", "load", "long file", "unreadable file", "events"},
		Assume: []string{"the reference evaluator (harness/ref.go) states the intended meaning of the forms it knows", "the host's wall clock is not set during a case (discarded if it is)"},
	})
}
