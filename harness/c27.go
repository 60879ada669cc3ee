package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/command"
)

// ---- regular expressions ---------------------------------------------------------------------

var rxAtoms = []string{"a", "b", "c", "x", ".", "[ab]", "[^a]", `\d`, `\w`, `\s`, "é", "日", "[a-c]", "(a)", "(b|c)", "(a(b)c)", "(?:ab)", "(?i:A)", "(?P<n>x)", `\.`, "()", "(a|)", "ab", "", "[[:alpha:]]", `\pL`, "\U0001F600", "(a*)(b*)", `\x41`, " ", `"`, `\\`, "~"}

func rxPattern(r *Rng, depth int) string {
	if depth == 0 || r.P(30) {
		return pick(r, rxAtoms)
	}
	switch r.N(8) {
	case 0, 1:
		return rxPattern(r, depth-1) + rxPattern(r, depth-1)
	case 2:
		return rxPattern(r, depth-1) + "|" + rxPattern(r, depth-1)
	case 3:
		return "(" + rxPattern(r, depth-1) + ")" + pick(r, []string{"*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{0,}", ""})
	case 4:
		return pick(r, []string{"^", `\A`, `\b`, "(?m)^", "(?s).", "(?i)", "(?U)"}) + rxPattern(r, depth-1)
	case 5:
		return rxPattern(r, depth-1) + pick(r, []string{"$", `\z`, `\B`, "(?m:$)"})
	case 6:
		return rxPattern(r, depth-1) + pick(r, []string{"*", "+", "?", "{2}", "**", "{", "+?", "{2,1}", "{1001}"})
	}
	return rxPattern(r, depth-1) + pick(r, []string{"(", ")", "[", "]", `\`, "(?P<", `\8`, "[b-a]", "(?=a)", "x"})
}

func rxText(r *Rng) string {
	var b strings.Builder
	for i := r.N(14); i > 0; i-- {
		b.WriteString(pick(r, []string{"a", "b", "c", "x", "ab", "abc", "aab", " ", "\n", "A", "B", "é", "日", ".", "1", "23", `"`, `\`, "~", "\U0001F600", "z", "aaaa", "\t"}))
	}
	return b.String()
}

func lispStr(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func (c *Case) c27Regexp() {
	h := newHist(c)
	r := c.R
	h.log = append(h.log, ";; =~")
	type kept struct{ v, want string }
	var keep []kept
	pats := []string{}
	for i := r.In(1, 4); i > 0; i-- {
		pats = append(pats, rxPattern(r, r.N(4)))
	}
	for step := r.In(3, 14); step > 0 && !h.dead; step-- {
		pat := pick(r, pats)
		switch r.N(12) {
		case 0:
			pat = rxPattern(r, r.N(4))
		case 1:
			pat = regexp.QuoteMeta(rxText(r))
		}
		text := rxText(r)
		if r.P(6) {
			text = strings.Repeat(text+pick(r, []string{"", " ", "a"}), r.In(20, 150))
		}
		idx := r.P(45)
		fn := "=~"
		if idx {
			fn = "=~i"
		}
		rx, err := regexp.Compile(pat)
		want := "ERROR"
		kind := "invalid pattern"
		if err == nil {
			kind = "no match"
			want = "nil"
			rows := []string{}
			if idx {
				for _, m := range rx.FindAllStringSubmatchIndex(text, -1) {
					s := []string{}
					for _, k := range m {
						s = append(s, strconv.Itoa(k))
					}
					rows = append(rows, "("+strings.Join(s, " ")+")")
				}
			} else {
				for _, m := range rx.FindAllStringSubmatch(text, -1) {
					s := []string{}
					for _, k := range m {
						s = append(s, strconv.QuoteToASCII(k))
					}
					rows = append(rows, "("+strings.Join(s, " ")+")")
				}
			}
			if len(rows) > 0 {
				kind = "match"
				want = "(" + strings.Join(rows, " ") + ")"
				h.Count("matches", len(rows))
			}
		}
		args := lispStr(pat) + " " + lispStr(text)
		form := "(" + fn + " " + args + ")"
		switch r.N(8) {
		case 0:
			form = "(funcall #'" + fn + " " + args + ")"
		case 1:
			form = "(apply #'" + fn + " (list " + args + "))"
		case 2:
			form = "(let ((p " + lispStr(pat) + ") (s " + lispStr(text) + ")) (" + fn + " p s))"
		case 3: // computed
			i := r.N(len([]rune(pat)) + 1)
			form = "(" + fn + " (string-append " + lispStr(string([]rune(pat)[:i])) + " " + lispStr(string([]rune(pat)[i:])) + ") " + lispStr(text) + ")"
		case 4:
			if err == nil {
				n := len(keep)
				form = fmt.Sprintf("(progn (defglobal rx%d-%d %s) rx%d-%d)", c.Idx, n, form, c.Idx, n)
				keep = append(keep, kept{fmt.Sprintf("rx%d-%d", c.Idx, n), want})
			}
		case 5:
			if kind == "match" {
				// what is returned belongs to the caller
				h.is("result changed", "(let ((m "+form+")) (setf (car (car m)) 'changed) (setf (cdr m) 'end) (car (car m)))", "'\"changed\"")
			}
		}
		h.is(kind, form, want)
		switch r.N(10) {
		case 0:
			h.is("invalid argument", "("+fn+" "+pick(r, []string{"5 ", "nil ", "'a ", "#\\a ", "'(\"a\") "})+lispStr(text)+")", "ERROR <domain-error>")
		case 1:
			h.is("invalid argument", "("+fn+" "+lispStr("a")+pick(r, []string{" 5", " nil", " 'a", " #\\a"})+")", "ERROR <domain-error>")
		case 2:
			h.is("wrong count", "("+fn+pick(r, []string{"", " \"a\"", " \"a\" \"b\" \"c\""})+")", "ERROR")
		case 3:
			if err != nil {
				h.is("invalid pattern handled", "(catch 'k (with-handler (lambda (c) (throw 'k (if (instancep c (class <error>)) 'handled 'other))) "+form+"))", "'\"handled\"")
			}
		}
	}
	for _, k := range keep {
		h.is("kept", k.v, k.want)
	}
	h.done()
}

// ---- subst -----------------------------------------------------------------------------------

// substModel compares as eql: a list is itself only.
func substModel(n, o gl.Node, oc string, t gl.Node) gl.Node {
	p, ok := t.(*gl.Cons)
	if _, isCons := o.(*gl.Cons); isCons && t == o || !isCons && !ok && (canon(t) == oc || isZero(t) && isZero(o)) {
		return n
	}
	if ok {
		return &gl.Cons{Car: substModel(n, o, oc, p.Car), Cdr: substModel(n, o, oc, p.Cdr)}
	}
	return t
}

func isZero(n gl.Node) bool { f, ok := n.(gl.Float); return ok && f == 0 }

// sameShape: the same tree, with the very object n where the model has it.
func sameShape(want, got, n gl.Node) bool {
	if p, ok := n.(*gl.Cons); ok && want == gl.Node(p) {
		return got == want
	}
	w, ok := want.(*gl.Cons)
	if !ok {
		return canon(want) == canon(got)
	}
	g, ok := got.(*gl.Cons)
	return ok && sameShape(w.Car, g.Car, n) && sameShape(w.Cdr, g.Cdr, n)
}

func subtrees(n gl.Node, out []gl.Node) []gl.Node {
	out = append(out, n)
	if p, ok := n.(*gl.Cons); ok {
		out = subtrees(p.Car, out)
		out = subtrees(p.Cdr, out)
	}
	return out
}

func (c *Case) c27Subst() {
	r := c.R
	small := func() *D {
		// a small vocabulary, so that items occur often
		return genD(r, 0, false)
	}
	var atoms []*D
	for i := 0; i < 4; i++ {
		atoms = append(atoms, small())
	}
	var tree func(d int) gl.Node
	tree = func(d int) gl.Node {
		if d == 0 || r.P(20) {
			switch r.N(8) {
			case 0:
				return gl.Null
			case 1:
				return gl.Integer(r.N(3))
			case 2:
				return gl.Float(r.N(3))
			case 3:
				return gl.NewSymbol(pick(r, []string{"a", "b", "A"}))
			case 4:
				return gl.String(pick(r, []string{"a", "b", "A", ""}))
			case 5:
				return gl.Rune('a' + rune(r.N(2)))
			}
			return pick(r, atoms).Node()
		}
		var t gl.Node = gl.Null
		if r.P(20) {
			t = tree(0)
		}
		for i := r.In(1, 4); i > 0; i-- {
			t = &gl.Cons{Car: tree(d - 1), Cdr: t}
		}
		return t
	}
	t := tree(r.In(1, 4))
	old := tree(r.N(2))
	if r.P(70) {
		subs := subtrees(t, nil)
		old = subs[r.N(len(subs))]
		if r.P(20) { // a copy
			old = substModel(gl.Null, gl.Integer(0), "?", old)
		}
	}
	n := tree(r.N(3))
	if r.P(15) {
		n = &gl.Cons{Car: old, Cdr: t} // the old one inside the new one
	}
	before := canon(t)
	objs := subtrees(t, nil)
	oc := canon(old)
	want := substModel(n, old, oc, t)
	w := gl.New()
	v := func(s string) gl.Symbol { return gl.NewSymbol(s) }
	w = w.Let(gl.Variables{v("sn"): n, v("so"): old, v("st"): t})
	form := pick(r, []string{"(subst sn so st)", "(funcall #'subst sn so st)", "(apply #'subst (list sn so st))", "(let ((x so)) (subst sn x st))"})
	o := interp(w, form)
	c.Eval()
	in := fmt.Sprintf("%s\nsn=%s\nso=%s\nst=%s", form, canon(n), oc, before)
	if o.Kind != "value" || !sameShape(want, o.Node, n) {
		c.Fail("subst", in, canon(want), o.Full())
		return
	}
	c.Count("subst", 1)
	if canon(want) != before {
		c.Count("substituted", 1)
	}
	after := subtrees(t, nil)
	same := canon(t) == before && len(after) == len(objs)
	for i := range objs {
		if p, ok := objs[i].(*gl.Cons); ok && same {
			same = after[i] == gl.Node(p)
		}
	}
	if !same {
		c.Fail("subst changed its argument", in, before, canon(t))
	}
	if r.P(5) {
		if o := interp(w, "(subst "+pick(r, []string{"", "1", "1 2", "1 2 3 4"})+")"); o.Kind != "error" {
			c.Fail("subst argument count", in, "ERROR", o.Full())
		}
	}
	c.Distinct(in)
	c.Sample(in)
}

// ---- wildcard -----------------------------------------------------------------------------------

func (c *Case) c27Wildcard() {
	r := c.R
	dir := filepath.Join(c.Dir, "wc")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0700); err != nil {
		bug("c27: %v", err)
	}
	defer os.RemoveAll(dir)
	all := map[string]bool{} // relative names of everything
	names := []string{"a", "b", "ab", "abc", "a.txt", "b.txt", "a.go", ".hidden", "with space", "é", "日本.txt", "A", "x1", "x2", "x10", "a-b", "]", "~", "a'b", `q"q`, "(x)", "%", "&", "$HOME"}
	dirs := []string{""}
	nfiles := r.N(14)
	if r.P(10) {
		nfiles = r.In(20, 150)
		for i := 0; i < 60; i++ {
			names = append(names, "a"+strconv.Itoa(i))
		}
		h0 := pick(r, []string{"a", "b", ""})
		for i := 0; i < 30; i++ {
			names = append(names, h0+"x"+strconv.Itoa(i))
		}
	}
	for i := nfiles; i > 0; i-- {
		d := pick(r, dirs)
		n := filepath.Join(d, pick(r, names))
		if all[n] {
			continue
		}
		p := filepath.Join(dir, n)
		var err error
		switch r.W(65, 25, 10) {
		case 0:
			err = os.WriteFile(p, []byte("x"), 0600)
		case 1:
			err = os.Mkdir(p, 0700)
			dirs = append(dirs, n)
		case 2:
			err = os.Symlink("nowhere", p)
		}
		if err != nil {
			bug("c27: %v", err)
		}
		all[n] = true
	}
	h := newHist(c)
	listing := []string{}
	for n := range all {
		listing = append(listing, n)
	}
	sort.Strings(listing)
	h.log = append(h.log, fmt.Sprintf(";; files %q", listing))
	pwd, err := os.Getwd()
	if err != nil {
		bug("c27: %v", err)
	}
	if err := os.Chdir(dir); err != nil {
		bug("c27: %v", err)
	}
	defer os.Chdir(pwd)
	for step := r.In(2, 7); step > 0 && !h.dead; step-- {
		comp := func() string {
			switch r.N(6) {
			case 0:
				return pick(r, names)
			case 1:
				return "*"
			}
			s := ""
			for i := r.In(1, 3); i > 0; i-- {
				s += pick(r, []string{"a", "b", "*", "?", "x", "1", ".", "txt", "[ab]", "[^a]", "[a-c]", "é", "\\a", "\\*", "日", "A", " "})
			}
			return s
		}
		pat := comp()
		for r.P(35) {
			pat = pick(r, append([]string{comp()}, dirs[1:]...)) + "/" + pat
		}
		bad := r.P(8)
		if bad {
			pat = pick(r, []string{"[", "[a", "[]", "a[", "\\", "[a-", "x\\"})
		}
		if _, err := filepath.Match(pat, "x"); err != nil != bad {
			continue
		}
		abs := r.P(30)
		want := []string{}
		for n := range all {
			// component by component
			ps, ns := strings.Split(pat, "/"), strings.Split(n, "/")
			ok := len(ps) == len(ns)
			for i := range ps {
				if ok {
					m, err := filepath.Match(ps[i], ns[i])
					if err != nil {
						ok = false
					}
					ok = m
				}
			}
			if ok {
				if abs {
					n = dir + "/" + n
				}
				want = append(want, strconv.QuoteToASCII(n))
			}
		}
		p := pat
		if abs {
			p = dir + "/" + p
		}
		// the names . and .. are in no listing
		if strings.Contains("/"+pat+"/", "/./") || strings.Contains("/"+pat+"/", "/../") {
			continue
		}
		form := "(wildcard " + lispStr(p) + ")"
		if r.P(20) {
			form = "(funcall #'wildcard " + lispStr(p) + ")"
		}
		h.log = append(h.log, form)
		o := h.m.Run(form)
		h.Eval()
		if bad {
			h.Count("bad pattern", 1)
			if o.Kind != "error" {
				h.dead = true
				h.Fail("bad pattern", h.text(), "ERROR", o.Full())
			}
			continue
		}
		h.Count("wildcard", 1)
		if len(want) > 0 {
			h.Count("files", len(want))
		}
		got := []string{}
		n := o.Node
		for o.Kind == "value" && gl.IsSome(n) {
			p, ok := n.(*gl.Cons)
			if !ok {
				break
			}
			got = append(got, canon(p.Car))
			n = p.Cdr
		}
		sort.Strings(got)
		sort.Strings(want)
		if o.Kind != "value" || strings.Join(got, " ") != strings.Join(want, " ") || len(got) > 0 && gl.IsSome(n) {
			h.dead = true
			h.Fail("wildcard", h.text(), strings.Join(want, " "), o.Full())
		}
	}
	if r.P(20) {
		h.is("invalid argument", "(wildcard "+pick(r, []string{"5", "nil", "'a", "#\\a"})+")", "ERROR <domain-error>")
	}
	h.done()
}

// ---- command -----------------------------------------------------------------------------------

// helper is the program run by (command ...): it records its arguments and does what the first one says.
func init() {
	extraModes["c27-helper"] = func(args []string) int {
		spec := strings.Split(args[0], ",")
		out, e, code, size := spec[0], spec[1], atoi(spec[2]), atoi(spec[3])
		for i, a := range args[1:] {
			fmt.Fprintf(os.Stdout, "%d:%q\n", i, a)
		}
		io.WriteString(os.Stdout, out)
		io.WriteString(os.Stderr, e)
		if size > 0 {
			os.Stdout.Write(bytes.Repeat([]byte("0123456789abcdef"), size))
		}
		return code
	}
}

func (c *Case) c27Command() {
	h := newHist(c)
	r := c.R
	self, err := os.Executable()
	if err != nil {
		bug("c27: %v", err)
	}
	outs := []*hostWriter{{}, {}, {}}
	want := make([]string, 3)
	curO, curE := 0, 1
	h.m.W.SetStdout(outs[0])
	h.m.W.SetErrout(outs[1])
	for step := r.In(1, 4); step > 0 && !h.dead; step-- {
		if r.P(20) {
			curO, curE = r.N(3), r.N(3)
			h.m.W.SetStdout(outs[curO])
			h.m.W.SetErrout(outs[curE])
			h.log = append(h.log, fmt.Sprintf(";; SetStdout(%d) SetErrout(%d)", curO, curE))
		}
		if r.P(40) {
			t := pick(r, []string{"before", "x\n", "é"})
			want[curO] += t
			h.run("output", "(format (standard-output) \"~a\" "+lispStr(t)+")")
		}
		o, e, code, size := pick(r, []string{"", "out", "o\n"}), pick(r, []string{"", "", "err", "e\n"}), 0, 0
		if r.P(25) {
			code = r.In(1, 255)
		}
		if r.P(10) {
			size = r.In(1, 20000)
		}
		if curO == curE { // the order of the two is the process's
			e = ""
		}
		args := []string{lispStr(self), `"c27-helper"`, lispStr(fmt.Sprintf("%s,%s,%d,%d", o, e, code, size))}
		evs := []string{}
		text := ""
		for i := 0; i < r.N(5); i++ {
			a := pick(r, []string{"a", "", "two words", `q"q`, `b\s`, "é日本", "-x", "--", "*", "$HOME", "`ls`", ";", "~", "#", "(car 5)", "'", "a\nb", "a\tb", strings.Repeat("long", 3000), "%s", "~a", ">", "|", "&&"})
			form := lispStr(a)
			switch r.N(7) {
			case 0:
				form = fmt.Sprintf("(progn (ev %d) %s)", i, form)
				evs = append(evs, strconv.Itoa(i))
			case 1:
				k := r.N(len([]rune(a)) + 1)
				form = "(string-append " + lispStr(string([]rune(a)[:k])) + " " + lispStr(string([]rune(a)[k:])) + ")"
			case 2:
				a = strconv.Itoa(r.N(2000) - 1000)
				form = a
			case 3: // as (format nil "~a") has them
				v := pick(r, [][2]string{{"'sym", "sym"}, {"'(a \"b c\" 1.5)", "(a b c 1.5)"}, {"2.5", "2.5"}, {"'Upper", "Upper"}, {"(vector \"x\" 'y)", "#(x y)"}, {"t", "t"}, {"nil", "nil"}})
				form, a = v[0], v[1]
			}
			text += fmt.Sprintf("%d:%q\n", i, a)
			args = append(args, form)
		}
		form := "(command " + strings.Join(args, " ") + ")"
		switch r.N(6) {
		case 0:
			form = "(funcall #'command " + strings.Join(args, " ") + ")"
		case 1:
			form = "(apply #'command (list " + strings.Join(args, " ") + "))"
		}
		res := ""
		switch {
		case code != 0 && r.P(40):
			form = "(catch 'k (with-handler (lambda (c) (ev 'handler) (throw 'k (if (instancep c (class <error>)) 'failed 'other))) " + form + " (ev 'never)))"
			evs = append(evs, `'"handler"`)
			res = `'"failed"`
		case code != 0 && r.P(30):
			form = "(ignore-errors " + form + " (ev 'never))"
			res = "nil"
		case code != 0:
			res = "ERROR"
		default:
			res = "nil"
		}
		what := "run"
		ctx := context.Context(newFuel(defaultFuel, errFuel))
		switch r.N(16) {
		case 0:
			what = "not found"
			form = "(command " + pick(r, []string{`"/no/such/program"`, `"no-such-program-xyz"`, lispStr(c.Dir), `""`, `"a/b/c" "x"`}) + ")"
			res, evs, text, o, e, size = "ERROR", nil, "", "", "", 0
		case 1:
			what = "no program"
			form = "(command)"
			res, evs, text, o, e, size = "ERROR", nil, "", "", "", 0
		case 2:
			if size == 0 && res != "ERROR" {
				what = "argument fails"
				form = "(command " + strings.Join(args, " ") + " (car 5))"
				res, text, o, e = "ERROR", "", "", ""
				evs = evs[:len(evs)-strings.Count(strings.Join(evs, " "), "handler")]
			}
		case 3:
			if res != "ERROR" && o+text != "" && e == "" {
				what = "failing writer"
				outs[curO].fail = true
				form = "(command " + strings.Join(args, " ") + ")"
				res, text, o, e, size = "ERROR", "", "", "", 0
				evs = evs[:len(evs)-strings.Count(strings.Join(evs, " "), "handler")]
			}
		}
		h.log = append(h.log, form)
		h.m.Events = nil
		oc := guard(func() (gl.Node, error) { return h.m.W.Interpret(ctx, form) })
		h.Eval()
		outs[curO].fail = false
		h.Count(what, 1)
		if code != 0 && what == "run" {
			h.Count("failing program", 1)
		}
		want[curO] += text + o + strings.Repeat("0123456789abcdef", size)
		want[curE] += e
		got := oc.String()
		if res == "ERROR" && oc.Kind == "error" && oc.Class != "fuel" {
			got = "ERROR"
		}
		if got != res || strings.Join(h.m.Events, ";") != strings.Join(evs, ";") {
			h.dead = true
			h.Fail(what, h.text(), strings.Join(evs, ";")+" => "+res, trace(h.m.Events, oc)+" "+oc.Full())
			return
		}
		if code != 0 && what == "run" && res == "ERROR" {
			var x interface{ ExitCode() int }
			if !errors.As(oc.Err, &x) || x.ExitCode() != code {
				h.dead = true
				h.Fail("exit code", h.text(), strconv.Itoa(code), oc.Full())
			}
		}
		for i, x := range outs {
			if !h.dead && x.b.String() != want[i] {
				h.dead = true
				h.Fail("output of the command", h.text()+fmt.Sprintf("\n;; writer %d", i), fmt.Sprintf("%.2000q", want[i]), fmt.Sprintf("%.2000q", x.b.String()))
			}
		}
	}
	h.done()
}

func c27Run(c *Case) {
	switch c.R.W(52, 30, 14, 4) {
	case 0:
		c.c27Regexp()
	case 1:
		c.c27Subst()
	case 2:
		c.c27Wildcard()
	case 3:
		c.c27Command()
	}
}

func init() {
	register(&Prop{
		ID: "C27", Quick: 60000, Thorough: 1000000, Run: c27Run,
		Rule:   "histories of =~ and =~i with random patterns (repeated, computed, invalid) and texts, decided by the host's regexp package as documented; subst on random trees with items that occur, are copies or nearly occur, decided by a model, objects and the unchanged argument compared by identity; wildcard in random directory trees, decided component by component; command running a program which reports the arguments it really got, on changing, failing and shared writers; distinct by history",
		Need:   []string{"match", "no match", "invalid pattern", "matches", "kept", "result changed", "subst", "substituted", "wildcard", "files", "bad pattern", "run", "failing program", "not found", "argument fails", "failing writer"},
		Assume: []string{"Go's regexp and filepath.Match are right (the documentation defines the functions by them)"},
	})
}
