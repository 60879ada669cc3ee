package main

import (
	"fmt"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// c17Gensym: no gensym is a symbol seen before, whether it was read, made by another
// interpreter, or made by converting a string of the same spelling.
func c17Gensym(c *Case) {
	m1, m2 := newMon(), newMon()
	seen := []gl.Node{}
	add := func(n gl.Node, how string) {
		for i, s := range seen {
			if s.Equals(n, gl.STRICT) || s.Equals(n, gl.EQUAL) || s.Equals(n, gl.EQUALP) || n == s {
				c.Fail("gensym-repeats", how, "a symbol never seen before", fmt.Sprintf("symbol %d again: %v", i, n))
				return
			}
		}
		seen = append(seen, n)
		c.Count("gensyms", 1)
	}
	names := []string{}
	trail := ""
	for i := 0; i < 8; i++ {
		m := m1
		if c.R.P(40) {
			m = m2
		}
		src := pick(c.R, []string{"(gensym)", "(funcall #'gensym)", "(let ((g (gensym))) g)", "(car (mapcar (lambda (x) (gensym)) '(1 2)))",
			"(progn (defmacro gg () (let ((a (gensym))) `(quote ,a))) (gg))", "(progn (defmacro gl () (list 'quote (gensym))) (gl))"})
		if len(names) > 0 && c.R.P(40) {
			// a symbol spelled like a gensym, now or next, is another symbol
			n := names[c.R.N(len(names))]
			var k int
			if _, err := fmt.Sscanf(n, "-gensym-%d-", &k); err == nil {
				n = fmt.Sprintf("-gensym-%d-", k+c.R.In(0, 3))
			}
			src = pick(c.R, []string{"'" + n, "(convert \"" + n + "\" <symbol>)"})
			o := m.Run(src)
			c.Eval()
			trail += src + "\n"
			if o.Kind != "value" {
				continue
			}
			if made[o.Node] {
				c.Fail("gensym-interned", trail, "the reader never returns a gensym", n)
				return
			}
			seen = append(seen, o.Node)
			continue
		}
		o := m.Run(src)
		c.Eval()
		trail += src + "\n"
		if o.Kind != "value" {
			c.Fail("gensym-fails", trail, "a symbol", o.Full())
			return
		}
		s, ok := o.Node.(gl.Symbol)
		if !ok {
			c.Fail("gensym-not-symbol", trail, "a symbol", o.Full())
			return
		}
		add(o.Node, trail)
		names = append(names, s.String())
		made[s] = true
	}
	c.Distinct(trail)
	// an expansion's temporary is distinct from every symbol of the program around it
	o := m1.Run("(progn (defmacro tw (e) (let ((g (gensym))) `(let ((,g ,e)) (list ,g (let ((,g 5)) ,e) ',g)))) (let ((l (tw (ev 1 2)))) (let ((l2 (tw (ev 3 4)))) (list (eq (caddr l) (caddr l2)) (car l) (cadr l2)))))")
	c.Eval()
	if o.Val != "(nil 2 4)" {
		c.Fail("gensym-captures", "tw", "(nil 2 4)", o.Full())
	}
}

// made holds every gensym of this process.
var made = map[gl.Node]bool{}

// c17Reentry: a macro which is used again while it is being expanded. Every expansion has its
// own parameters: each value is the one that the template denotes for its own arguments.
func c17Reentry(c *Case) {
	r := c.R
	names := []string{"ma", "mb", "mc"}[:r.In(1, 3)]
	type mac struct {
		parts  []string // k: the depth, s: the rest spliced, a: the rest as a list, n: the inner value
		before bool     // the inner value is computed before the template
		next   string   // the macro used inside
		extra  []string // the arguments of the inner use
		how    int
	}
	ms := map[string]*mac{}
	text := ""
	for _, n := range names {
		m := &mac{before: r.P(50), next: pick(r, names), how: r.N(4)}
		for i := r.In(2, 6); i > 0; i-- {
			m.parts = append(m.parts, pick(r, []string{"k", "s", "s", "a", "n"}))
		}
		for i := r.N(6); i > 0; i-- {
			m.extra = append(m.extra, strconv.Itoa(r.In(10, 99)))
		}
		ms[n] = m
		args := strings.Join(m.extra, " ")
		inner := "(eval (list '" + m.next + " (- k 1) " + args + "))"
		switch m.how {
		case 1:
			inner = "(funcall (lambda (d) (eval (cons '" + m.next + " (cons d '(" + args + "))))) (- k 1))"
		case 2:
			inner = "(use-" + n + " (- k 1))"
			text += "(defun use-" + n + " (d) (eval (list '" + m.next + " d " + args + ")))\n"
		case 3: // the inner use stands among the arguments of another one
			inner = "(eval (list 'list (list '" + m.next + " (- k 1) " + args + ")))"
		}
		inner = "(if (= k 0) nil " + inner + ")"
		tmpl := "`(list"
		for _, p := range m.parts {
			switch p {
			case "k":
				tmpl += pick(r, []string{" ,k", " ',k"})
			case "s":
				tmpl += " ,@args"
			case "a":
				tmpl += " ',args"
			case "n":
				if m.before {
					tmpl += " ',n"
				} else {
					tmpl += " ',(let ((v " + inner + ")) v)"
				}
			}
		}
		tmpl += ")"
		if m.before {
			tmpl = "(let ((n " + inner + ")) " + tmpl + ")"
		}
		text += "(defmacro " + n + " (k " + pick(r, []string{"&rest", ":rest"}) + " args) " + tmpl + ")\n"
	}
	var value func(n string, k int, args []string) string
	value = func(n string, k int, args []string) string {
		m := ms[n]
		in := "nil"
		uses := m.before
		for _, p := range m.parts {
			uses = uses || p == "n"
		}
		if k > 0 && uses {
			in = value(m.next, k-1, m.extra)
			if m.how == 3 {
				in = "(" + in + ")"
			}
		}
		out := []string{}
		for _, p := range m.parts {
			switch p {
			case "k":
				out = append(out, strconv.Itoa(k))
			case "s":
				out = append(out, args...)
			case "a":
				if len(args) == 0 {
					out = append(out, "nil")
				} else {
					out = append(out, "("+strings.Join(args, " ")+")")
				}
			case "n":
				out = append(out, in)
			}
		}
		if len(out) == 0 {
			return "nil"
		}
		return "(" + strings.Join(out, " ") + ")"
	}
	m := newMon()
	if o := m.Run(text); o.Kind != "value" {
		c.Fail("definition", text, "definitions", o.Full())
		return
	}
	for i := 0; i < 3; i++ {
		n, k := pick(r, names), r.In(0, 4)
		args := []string{}
		for j := r.N(5); j > 0; j-- {
			args = append(args, strconv.Itoa(r.In(1, 9)))
		}
		t := "(" + n + " " + strconv.Itoa(k) + " " + strings.Join(args, " ") + ")"
		want := value(n, k, args)
		o := m.Run(t)
		c.Eval()
		c.Count("reentrant expansion", 1)
		if o.Kind != "value" || o.Val != want {
			c.Fail("reentrant expansion", text+t, want, o.Full())
			return
		}
		text += t + "\n"
	}
	c.Distinct(text)
}

// c17Anon: a macro without a name. The same template used by its name and as (lambda-macro ...) in
// the place of the operator has the same value and does the same things in the same order.
func c17Anon(c *Case) {
	r := c.R
	np := r.In(0, 3)
	ps := []string{"x", "y", "w"}[:np]
	rest := r.P(60)
	leaf := func() string {
		o := []string{"1", "'(a b)", "\"s\"", ",n", "(ev 7)", "u"}
		for _, p := range ps {
			o = append(o, ","+p, ","+p, "',"+p, "(ev ,"+p+")", "(setq u (list u ,"+p+"))", "(quote ("+p+" ,"+p+"))")
		}
		if rest {
			o = append(o, "(list ,@z)", "',z", "(list ,@z 0)", "(progn nil ,@z)", "',(length z)")
		}
		return pick(r, o)
	}
	var form func(d int) string
	form = func(d int) string {
		if d == 0 || r.P(30) {
			return leaf()
		}
		a, b, e := form(d-1), form(d-1), form(d-1)
		return pick(r, []string{"(list " + a + " " + b + ")", "(let ((v " + a + ")) (list v " + b + " v))", "(if " + a + " " + b + " " + e + ")", "(progn " + a + " " + b + ")", "(cons " + a + " " + b + ")", "((lambda (q) (list q " + a + ")) " + b + ")"})
	}
	tmpl := "`" + form(r.In(1, 3))
	if r.P(25) {
		tmpl = "(let ((n (list 'quote n))) " + tmpl + ")"
	} else if r.P(15) {
		tmpl = "(progn (setq n (+ n 1)) " + tmpl + ")"
	}
	params := strings.Join(ps, " ")
	if rest {
		params += pick(r, []string{" &rest z", " :rest z"})
	}
	params = "(" + strings.TrimSpace(params) + ")"
	na := np
	if rest {
		na += r.N(4)
	}
	if r.P(6) {
		na = r.N(6)
	}
	args := []string{}
	for i := 0; i < na; i++ {
		args = append(args, pick(r, []string{"1", "u", "(ev 2)", "(progn (ev 3) 'b)", "'(1 2)", "nil", "(setq u 9)", "n", "\"t\"", "(list u u)", "(let ((n 3)) n)"}))
	}
	as := strings.Join(args, " ")
	run := func(form string) (string, string) {
		m := newMon()
		o := m.Run(form)
		c.Eval()
		return o.String(), strings.Join(m.Take(), " ")
	}
	// the n of an expansion is the one where the macro was written
	wrap := func(def, use string) string {
		return "(let ((n 20) (u 'u0)) " + def + " (list " + use + " u n))"
	}
	named := wrap("(defmacro nm "+params+" "+tmpl+")", "(nm "+as+")")
	wv, we := run(named)
	text := wrap("", "((lambda-macro "+params+" "+tmpl+") "+as+")")
	v, e := run(text)
	c.Count("macro without a name", 1)
	if e != we || v != wv && !(strings.HasPrefix(v, "ERROR") && strings.HasPrefix(wv, "ERROR")) {
		c.Fail("macro without a name", named+"\n"+text, wv+" "+we, v+" "+e)
		return
	}
	if strings.HasPrefix(v, "ERROR") {
		c.Count("macro without a name: error", 1)
	}
	c.Distinct(named)
}
