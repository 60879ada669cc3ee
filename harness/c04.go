package main

import (
	"strconv"
	"strings"
)

// c04Many: forms which bind or assign many variables at once. The names are those of variables outside, so that an
// operand evaluated among the new bindings where it should see the old ones (or the reverse) gives another value.
func c04Many(c *Case) {
	r := c.R
	k := pick(r, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 40})
	names := make([]string, k)
	env := map[string]int64{}
	binds := ""
	for i := range names {
		names[i] = "v" + strconv.Itoa(i)
		env[names[i]] = int64(r.In(-50, 50))
		binds += "(" + names[i] + " " + strconv.FormatInt(env[names[i]], 10) + ")"
	}
	values := func() string {
		var b strings.Builder
		for i, n := range names {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(strconv.FormatInt(env[n], 10))
		}
		return "(" + b.String() + ")"
	}
	all := "(list " + strings.Join(names, " ") + ")"
	// expr returns an operand and what it gives where env holds.
	expr := func() (string, func() int64) {
		n, m := pick(r, names), pick(r, names)
		d := int64(r.In(-9, 9))
		ds := strconv.FormatInt(d, 10)
		switch r.N(5) {
		case 0:
			return n, func() int64 { return env[n] }
		case 1:
			return "(+ " + n + " " + ds + ")", func() int64 { return env[n] + d }
		case 2:
			return "(- " + n + " " + m + ")", func() int64 { return env[n] - env[m] }
		case 3:
			return "(funcall (lambda () " + n + "))", func() int64 { return env[n] }
		}
		return ds, func() int64 { return d }
	}
	order := make([]int, k)
	for i := range order {
		order[i] = i
	}
	if r.P(60) {
		shuffle(r, order)
	}
	pairs := func(open, sep string, par bool) string {
		text := ""
		next := map[string]int64{}
		for _, i := range order {
			e, f := expr()
			v := f()
			text += open + names[i] + " " + e + sep
			if par {
				next[names[i]] = v
			} else {
				env[names[i]] = v
			}
		}
		for n, v := range next {
			env[n] = v
		}
		return text
	}
	kind := pick(r, []string{"let", "let*", "psetq", "setq", "lambda", "defun", "for", "labels", "dynamic-let", "rest"})
	outer := values()
	src := ""
	switch kind {
	case "let":
		src = "(let (" + pairs("(", ")", true) + ") " + all + ")"
	case "let*":
		src = "(let* (" + pairs("(", ")", false) + ") " + all + ")"
	case "psetq":
		src = "(progn (psetq " + pairs("", " ", true) + ") " + all + ")"
	case "setq":
		src = "(progn (setq " + pairs("", " ", false) + ") " + all + ")"
	case "lambda", "defun", "labels", "rest":
		ps, as := "", ""
		next := map[string]int64{}
		for _, i := range order {
			e, f := expr()
			next[names[i]] = f()
			ps += " " + names[i]
			as += " " + e
		}
		for n, v := range next {
			env[n] = v
		}
		switch kind {
		case "lambda":
			src = "((lambda (" + ps + ") " + all + ")" + as + ")"
		case "defun":
			c.Count("many parameters", 1)
			src = "(progn (defun c04-f (" + ps + ") " + all + ") (c04-f" + as + "))"
		case "labels":
			src = "(labels ((c04-f (" + ps + " c04-n) (if (= c04-n 0) " + all + " (c04-f" + ps + " (- c04-n 1))))) (c04-f" + as + " " + strconv.Itoa(r.N(4)) + "))"
		case "rest":
			// the same as the list of the arguments
			h := r.N(k)
			fs := strings.Fields(ps)
			src = "((lambda (" + strings.Join(fs[:h], " ") + " :rest c04-r) (list " + strings.Join(fs[:h], " ") + " c04-r))" + as + ")"
			vals, rest := "", ""
			for j, f := range fs {
				if j < h {
					vals += strconv.FormatInt(env[f], 10) + " "
				} else {
					rest += " " + strconv.FormatInt(env[f], 10)
				}
			}
			src = "(list " + src + " " + strings.TrimSpace(outer[1:len(outer)-1]) + ")"
			c04Run(c, kind, "(let ("+binds+") "+src+")", "(("+vals+"("+strings.TrimSpace(rest)+")) "+outer[1:])
			return
		}
	case "for":
		steps := make([]func() int64, 0, k)
		text := ""
		inits := map[string]int64{}
		for _, i := range order {
			e, f := expr()
			inits[names[i]] = f()
			s, g := expr()
			steps = append(steps, g)
			text += "(" + names[i] + " " + e + " " + s + ")"
		}
		for n, v := range inits {
			env[n] = v
		}
		times := r.N(4)
		for t := 0; t < times; t++ {
			next := map[string]int64{}
			for j, i := range order {
				next[names[i]] = steps[j]()
			}
			for n, v := range next {
				env[n] = v
			}
		}
		src = "(for ((c04-n 0 (+ c04-n 1))" + text + ") ((= c04-n " + strconv.Itoa(times) + ") " + all + "))"
	case "dynamic-let":
		text, read, defs := "", "", ""
		next := map[string]int64{}
		for _, i := range order {
			n := pick(r, names)
			d := int64(r.In(-9, 9))
			next[names[i]] = env[n] + d
			text += "(*c04-" + names[i] + "* (+ " + strconv.FormatInt(d, 10) + " (dynamic *c04-" + n + "*)))"
		}
		for _, n := range names {
			defs += "(defdynamic *c04-" + n + "* " + strconv.FormatInt(env[n], 10) + ")"
			read += " (dynamic *c04-" + n + "*)"
		}
		before := values()
		for n, v := range next {
			env[n] = v
		}
		c04Run(c, kind, "(progn "+defs+" (list (dynamic-let ("+text+") (list"+read+")) (list"+read+")))", "("+values()+" "+before+")")
		return
	}
	want := values()
	if kind == "psetq" || kind == "setq" {
		c04Run(c, kind, "(let ("+binds+") (list "+src+" "+all+"))", "("+want+" "+want+")")
		return
	}
	// afterwards the variables outside are as before
	c04Run(c, kind, "(let ("+binds+") (list "+src+" "+all+"))", "("+want+" "+outer+")")
}

func c04Run(c *Case, kind, src, want string) {
	m := newMon()
	o := m.Run(src)
	c.Eval()
	c.Count("many at once", 1)
	c.Count("many: "+kind, 1)
	c.Distinct(src)
	if o.String() != want {
		c.Fail("many at once", src, want, o.Full())
	}
}
