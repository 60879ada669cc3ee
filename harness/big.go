package main

import (
	"fmt"
	"strings"
)

// Large program shapes: many variables, parameters, clauses, tags, nested forms. What holds for
// two of a thing has to hold for forty of it.

// size draws a number up to hi: mostly small, now and then large.
func (g *Gen) size(hi int) int {
	switch g.r.W(4, 3, 2, 1) {
	case 0:
		return g.r.In(1, min(6, hi))
	case 1:
		return g.r.In(1, min(14, hi))
	case 2:
		return g.r.In(1, max(1, hi/2))
	}
	return g.r.In(1, hi)
}

func (g *Gen) big(n int) {
	g.budget -= n / 2
	g.use("big")
	switch {
	case n > 32:
		g.use("big32")
	case n > 8:
		g.use("big8")
	}
}

// rep joins n texts made by f.
func rep(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(f(i))
	}
	return b.String()
}

func ff(format string, args ...interface{}) string { return fmt.Sprintf(format, args...) }

// some names count of the things numbered 0..n-1, each with the format.
func (g *Gen) some(n, count int, format string) string {
	return rep(count, func(int) string { return ff(format, g.r.N(n)) })
}

// bigWrap is the form as an int, whatever it yields, with what it yields among the events.
func (g *Gen) bigWrap(k kind, text string, args ...V) V {
	return g.fit(k, LS("length", LS("list", LS("ev", T(text, args...)))))
}

var bigScope = []idiom{
	// a deep nest of binding forms; the innermost reads, assigns and calls what is far out
	func(g *Gen, k kind, depth int) V {
		n := g.size(80)
		g.big(n)
		g.use("closure")
		kinds := make([]int, n)
		fns := []int{}
		for i := range kinds {
			kinds[i] = g.r.N(9)
			if kinds[i] == 3 || kinds[i] == 4 {
				fns = append(fns, i)
			}
		}
		in := "(list " + g.some(n, g.r.In(1, 8), "v%d") + ")"
		for i := g.r.In(0, 6); i > 0; i-- {
			j := g.r.N(n)
			switch {
			case g.r.P(30) && len(fns) > 0:
				in = ff("(progn (ev (f%d %d)) %s)", pick(g.r, fns), i, in)
			case g.r.P(50):
				in = ff("(progn (setq v%d (+ v%d %d)) %s)", j, g.r.N(n), i, in)
			default:
				in = ff("(progn (ev v%d) %s)", j, in)
			}
		}
		for i := n - 1; i >= 0; i-- {
			prev := "1"
			if i > 0 {
				prev = ff("v%d", g.r.N(i))
			}
			out := ""
			if g.r.P(25) {
				out = ff(" (ev v%d)", i)
			}
			if out != "" {
				in = ff("(let ((r%d %s))%s r%d)", i, in, out, i)
			}
			switch kinds[i] {
			case 0, 1:
				in = ff("(let ((v%d (+ %s 1))) %s)", i, prev, in)
			case 2:
				in = ff("(let* ((w%d %s) (v%d (+ w%d 2))) %s)", i, prev, i, i, in)
			case 3:
				in = ff("(let ((v%d %d)) (flet ((f%d (x) (setq v%d (+ v%d x)) (+ v%d %s))) %s))", i, i, i, i, i, i, prev, in)
			case 4:
				in = ff("(let ((v%d %d)) (labels ((f%d (x) (if (< x 1) v%d (+ 1 (f%d (- x 1)))))) %s))", i, i, i, i, i, in)
			case 5:
				in = ff("((lambda (v%d) %s) (+ %s 3))", i, in, prev)
			case 6:
				in = ff("(funcall (lambda (v%d &rest s%d) %s) %s 5 6)", i, i, in, prev)
			case 7:
				in = ff("(let ((v%d 0) (z%d nil)) (dotimes (y%d 1) (setq z%d %s)) z%d)", i, i, i, i, in, i)
			default:
				in = ff("(let ((v%d %s)) (progn %s))", i, prev, in)
			}
		}
		return g.bigWrap(k, in)
	},
	// many variables in one form
	func(g *Gen, k kind, depth int) V {
		n := g.size(60)
		g.big(n)
		g.use("closure")
		star := g.r.P(50)
		binds := rep(n, func(i int) string {
			if star && i > 0 {
				return ff("(v%d (+ v%d %d))", i, g.r.N(i), i)
			}
			return ff("(v%d %d)", i, i*3)
		})
		head := "let"
		if star {
			head = "let*"
		}
		return g.bigWrap(k, ff("(%s (%s) (let ((get (lambda () (list %s))) (put (lambda (d) (setq %s)))) (ev (funcall get)) (funcall put $1) (psetq %s) (ev (funcall get)) (list %s)))", head, binds,
			g.some(n, g.r.In(1, 9), "v%d"),
			rep(g.r.In(1, 5), func(int) string { return ff("v%d (+ v%d d)", g.r.N(n), g.r.N(n)) }),
			rep(min(n, g.size(20)), func(i int) string { return ff("v%d (+ 1 v%d)", i, g.r.N(n)) }),
			g.some(n, g.r.In(1, 9), "v%d")), g.e(kInt, depth))
	},
	// many parameters and arguments
	func(g *Gen, k kind, depth int) V {
		n, extra := g.size(24), 0
		rest := ""
		if g.r.P(60) {
			rest = pick(g.r, []string{" &rest r", " :rest r"})
			extra = g.size(50) - 1
		} else if g.r.P(10) {
			extra = pick(g.r, []int{-1, 1})
		}
		g.big(n + extra)
		args := rep(n+extra, func(i int) string {
			if g.r.P(15) {
				return ff("(ev %d)", i)
			}
			return ff("%d", i*2)
		})
		body := ff("(setq p%d (+ p%d 1)) (list %s%s)", g.r.N(n), g.r.N(n), g.some(n, g.r.In(1, 8), "p%d"), pick(g.r, []string{"", "", " (lambda () p0)"}))
		if rest != "" {
			body += ff(" (cons p%d (cons (length r) r))", g.r.N(n))
		}
		params := rep(n, func(i int) string { return ff("p%d", i) })
		f := g.fresh("many")
		call := pick(g.r, []string{"($1 %s)", "(funcall #'$1 %s)", "(apply #'$1 (list %s))", "(apply #'$1 " + rep(min(n, 3), func(i int) string { return ff("%d", i) }) + " (nthcdr-n " + ff("%d", min(n, 3)) + " (list %s)))"})
		if strings.Contains(call, "nthcdr-n") {
			return g.bigWrap(k, ff("(labels ((nthcdr-n (n l) (if (< n 1) l (nthcdr-n (- n 1) (cdr l))))) (defun $1 (%s%s) %s) (ignore-errors %s))", params, rest, body, ff(call, args)), f)
		}
		if g.r.P(30) {
			return g.bigWrap(k, ff("(flet (($1 (%s%s) %s)) (ignore-errors %s))", params, rest, body, ff(call, args)), f)
		}
		return g.bigWrap(k, ff("(progn (defun $1 (%s%s) %s) (ignore-errors %s))", params, rest, body, ff(call, args)), f)
	},
	// many local functions, calling each other
	func(g *Gen, k kind, depth int) V {
		n := g.size(40)
		g.big(n)
		form := pick(g.r, []string{"labels", "labels", "flet"})
		fns := rep(n, func(i int) string {
			if form == "labels" {
				return ff("(f%d (x) (ev x) (if (< x 1) (list %d d) (f%d (- x 1))))", i, i, g.r.N(n))
			}
			return ff("(f%d (x) (setq d (+ d x)) (list %d d))", i, i)
		})
		return g.bigWrap(k, ff("(let ((d $1)) (%s (%s) (list %s (mapcar #'f%d '(1 2)))))", form, fns, g.some(n, g.r.In(1, 4), "(f%d 2)"), g.r.N(n)), g.e(kInt, depth))
	},
	// many closures of one form, each with its own variable
	func(g *Gen, k kind, depth int) V {
		n := g.size(60)
		g.big(n)
		g.use("closure")
		return g.bigWrap(k, ff("(let ((fs (create-vector %d)) (shared 0)) (dotimes (i %d) (let ((own (* i 10)) (me i)) (setf (elt fs i) (lambda (d) (setq shared (+ shared d)) (setq own (+ own d)) (list me own shared))))) (list %s))",
			n, n, rep(g.r.In(2, 8), func(int) string { return ff("(funcall (elt fs %d) %d)", g.r.N(n), g.r.N(5)) })))
	},
	// many globals, functions and variables
	func(g *Gen, k kind, depth int) V {
		n := g.size(50)
		g.big(n)
		id := g.fresh("gv").name + g.suffix
		return g.bigWrap(k, ff("(progn %s %s (list %s %s))",
			rep(n, func(i int) string {
				if g.r.P(50) {
					return ff("(defglobal %s-%d %d)", id, i, i)
				}
				return ff("(defglobal %s-%d (progn (ev %d) %d))", id, i, i, i*2)
			}),
			rep(n, func(i int) string {
				return ff("(defun %s-f%d (x) (setq %s-%d (+ %s-%d x)))", id, i, id, i, id, g.r.N(n))
			}),
			g.some(n, g.r.In(1, 6), "("+id+"-f%d 3)"), g.some(n, g.r.In(1, 6), id+"-%d")))
	},
}

var bigTail = []idiom{
	// a loop of many parameters, and rest arguments
	func(g *Gen, k kind, depth int) V {
		n, extra := g.size(16), 0
		rest := ""
		if g.r.P(50) {
			rest = " &rest r"
			extra = g.r.In(0, 6)
		}
		g.big(n)
		ps := func(f string) string { return rep(n, func(i int) string { return ff(f, i) }) }
		more := rep(extra, func(i int) string { return ff("%d", i) })
		next := rep(n, func(i int) string { return ff("(+ p%d %d)", g.r.N(n), g.r.N(3)) })
		path := tailPath(g.r, ff("(lp (- n 1) %s %s)", next, more), g.r.In(0, 5))
		path = strings.ReplaceAll(path, "acc", "p0")
		show := "(ev n " + g.some(n, 3, "p%d")
		if rest != "" {
			show += " r"
		}
		caps := "(setq fs (cons (lambda () (setq p0 (+ p0 1)) (list n p0)) fs))"
		return g.bigWrap(k, ff("(let ((fs nil)) (labels ((lp (n %s%s) %s) %s (if (< n 1) (list %s) %s))) (list (lp %d %s %s) (mapcar (lambda (f) (funcall f)) fs))))", ps("p%d"), rest, show, caps, ps("p%d"), path, g.r.In(1, 5), ps("%d"), more))
	},
	// deep nests of tail positions
	func(g *Gen, k kind, depth int) V {
		d := g.size(40)
		g.big(d)
		path := tailPath(g.r, "(lp (- n 1) (+ acc 1))", d)
		return g.bigWrap(k, ff("(labels ((lp (n acc) (ev n) (if (< n 1) acc %s))) (lp %d 0))", path, g.r.In(1, 4)))
	},
	// long chains of functions calling the next one, back to the first
	func(g *Gen, k kind, depth int) V {
		n := g.size(30)
		g.big(n)
		return g.bigWrap(k, ff("(let ((c 0)) (labels (%s) (list (f0 0 '(a)) c)))", rep(n, func(i int) string {
			return ff("(f%d (x y) (setq c (+ c 1)) (if (> c %d) (list x y) (let ((z (+ x 1))) (f%d z (cons x y)))))", i, n*2, (i+1)%n)
		})))
	},
}

var bigExit = []idiom{
	// a deep nest of exit points, left from the inside to any of them
	func(g *Gen, k kind, depth int) V {
		n := g.size(40)
		g.big(n)
		names := g.r.In(2, 60)
		g.use("unwind-protect")
		kinds, ids := make([]int, n), make([]int, n)
		for i := range kinds {
			kinds[i], ids[i] = g.r.N(9), g.r.N(names)
		}
		exits := []string{"(ev 'fine)"}
		for i := range kinds {
			switch kinds[i] {
			case 0, 1, 2:
				exits = append(exits, ff("(throw 'c%d (ev %d))", ids[i], i))
			case 3:
				exits = append(exits, ff("(return-from b%d (ev %d))", ids[i], i))
			case 4:
				exits = append(exits, ff("(go t%d)", ids[i]))
			case 5:
				exits = append(exits, "(error \"e\")")
			}
		}
		in := pick(g.r, exits)
		if g.r.P(40) {
			in = ff("(unwind-protect %s %s)", in, pick(g.r, exits))
		}
		for i := n - 1; i >= 0; i-- {
			switch kinds[i] {
			case 0, 1, 2:
				in = ff("(catch 'c%d %s)", ids[i], in)
			case 3:
				in = ff("(block b%d %s)", ids[i], in)
			case 4:
				in = ff("(let ((r nil)) (tagbody (setq r %s) (go end) t%d (ev 'at %d) end) r)", in, ids[i], i)
			case 5:
				in = ff("(with-handler (lambda (c) (ev 'h %d) %s) %s)", i, pick(g.r, []string{"nil", "(throw 'top 1)", ff("(throw 'c%d 2)", g.r.N(names))}), in)
			case 6:
				in = ff("(unwind-protect %s (ev 'cl %d))", in, i)
			case 7:
				in = ff("(let ((l%d %d)) (progn %s))", i, i, in)
			default:
				in = ff("(funcall (lambda () %s))", in)
			}
			if g.r.P(30) {
				in = ff("(ev %d %s)", i, in)
			}
		}
		return g.bigWrap(k, ff("(catch 'top (ignore-errors %s))", in))
	},
	// recursion through an exit point, left to an activation far out
	func(g *Gen, k kind, depth int) V {
		n := g.size(40)
		g.big(n)
		g.use("block")
		m := g.r.N(n + 1)
		return g.bigWrap(k, pick(g.r, []string{
			ff("(labels ((f (n fn) (block b (list n (if (= n 0) (funcall fn $1) (f (- n 1) (if (= n %d) (lambda (v) (return-from b (list v n))) fn))))))) (f %d (lambda (v) v)))", m, n),
			ff("(labels ((f (n) (if (= n 0) (throw %d (ev $1)) (catch n (unwind-protect (list n (f (- n 1))) (if (= 0 (mod n 7)) (ev 'cl n))))))) (catch 0 (f %d)))", m, n),
			ff("(labels ((f (n fn) (let ((r n)) (tagbody (setq r (list (if (= n 0) (funcall fn) (f (- n 1) (if (= n %d) (lambda () (go out)) fn))))) (go end) out (ev 'out n) end) r))) (f %d (lambda () $1)))", m, n),
		}), g.e(kInt, depth))
	},
	// many tags in one tagbody
	func(g *Gen, k kind, depth int) V {
		n := g.size(30)
		g.big(n)
		g.use("tagbody")
		g.use("go")
		body := rep(n, func(i int) string {
			stop := ff("(setq c (+ c 1)) (if (> c %d) (go end))", g.r.In(1, 20))
			return ff("t%d (ev %d) %s %s", i, i, stop, pick(g.r, []string{"", ff("(go t%d)", g.r.N(n)), ff("(if (= 0 (mod c %d)) (go t%d))", g.r.In(1, 4), g.r.N(n))}))
		})
		return g.bigWrap(k, ff("(let ((c 0)) (tagbody (go t%d) %s end) c)", g.r.N(n), body))
	},
	// many exits one after the other leave nothing behind
	func(g *Gen, k kind, depth int) V {
		n := g.size(60)
		g.big(n)
		return g.bigWrap(k, ff("(let ((acc nil)) (dotimes (i %d) (setq acc (cons (catch 'k (block b (unwind-protect (if (= 0 (mod i 3)) (throw 'k i) (if (= 1 (mod i 3)) (return-from b (- i)) (ignore-errors (car i)))) (if (= i %d) (ev 'cl i))))) acc))) (list acc (ignore-errors (throw 'k 1)) (catch 'k (throw 'k 2))))", n, g.r.N(n)))
	},
	// many cleanups, and many forms in each
	func(g *Gen, k kind, depth int) V {
		n := g.size(30)
		g.big(n)
		g.use("unwind-protect")
		return g.bigWrap(k, ff("(catch 'k (ignore-errors (unwind-protect %s %s)))", pick(g.r, []string{"(throw 'k 1)", "(car 1)", "(ev 1)"}), rep(n, func(i int) string { return ff("(ev 'cl %d)", i) })))
	},
}

var bigDyn = []idiom{
	// a deep nest of dynamic bindings of a few variables
	func(g *Gen, k kind, depth int) V {
		n := g.size(40)
		g.big(n)
		g.use("dynamic-let")
		vars := g.size(30)
		none := g.r.P(25)
		get := "(dynamic *d%d*)"
		if none { // no variable has a value of its own
			get = "(catch 'un (with-handler (lambda (c) (throw 'un 'none)) (dynamic *d%d*)))"
		}
		show := "(list " + g.some(vars, g.r.In(1, 6), get) + ")"
		in := pick(g.r, []string{"(throw 'k (rd))", "(car 1)", "(rd)", "(return-from b (rd))"})
		for i := n - 1; i >= 0; i-- {
			if g.r.P(25) {
				in = ff("(progn (setf (dynamic *d%d*) %d) %s)", g.r.N(vars), 1000+i, in)
			}
			in = ff("(dynamic-let (%s) %s %s)", rep(min(vars, g.r.In(1, 3)), func(j int) string {
				return ff("(*d%d* %s)", (i*7+j)%vars, pick(g.r, []string{ff("%d", 100+i), ff("(cons %d (dynamic *d%d*))", i, g.r.N(vars)), "nil"}))
			}),
				pick(g.r, []string{"", "", "(ev (rd))"}), in)
			switch g.r.N(6) {
			case 0:
				in = ff("(unwind-protect %s (ev 'cl (rd)))", in)
			case 1:
				in = ff("(list (catch 'k %s) (rd))", in)
			case 2:
				in = ff("(list (ignore-errors %s) (rd))", in)
			}
		}
		return g.bigWrap(k, ff("(progn %s (defun rd () %s) (list (block b (catch 'k (ignore-errors %s))) (rd)))", rep(vars, func(i int) string {
			if none {
				return ""
			}
			return ff("(defdynamic *d%d* %d)", i, i)
		}), show, in))
	},
	// many variables bound by one form, left in some way
	func(g *Gen, k kind, depth int) V {
		n := g.size(40)
		g.big(n)
		g.use("dynamic-let")
		some := g.r.In(1, 3) // every so many have a value of their own
		all := "(list " + rep(n, func(i int) string {
			if i%some != 0 {
				return ff("(catch 'un (with-handler (lambda (c) (throw 'un 'none)) (dynamic *d%d*)))", i)
			}
			return ff("(dynamic *d%d*)", i)
		}) + ")"
		return g.bigWrap(k, ff("(progn %s (defun rd () %s) (list (catch 'k (ignore-errors (dynamic-let (%s) (ev (rd)) %s %s))) (rd)))",
			rep((n+some-1)/some, func(i int) string { return ff("(defdynamic *d%d* %d)", i*some, i) }), all,
			rep(n, func(i int) string { return ff("(*d%d* (list %d (dynamic *d%d*)))", i, i, g.r.N((n+some-1)/some)*some) }),
			g.some(n, g.r.N(4), "(setf (dynamic *d%d*) 'set)"),
			pick(g.r, []string{"(throw 'k (rd))", "(car 1)", "(rd)", "(dynamic-let ((*d0* 9)) (rd))"})))
	},
	// recursion binds the same variable again and again
	func(g *Gen, k kind, depth int) V {
		n := g.size(60)
		g.big(n)
		g.use("dynamic-let")
		return g.bigWrap(k, ff("(progn (defdynamic *d* 0) (labels ((f (n) (dynamic-let ((*d* (+ n (dynamic *d*)))) (if (< n 1) %s (let ((r (f (- n 1)))) (list (dynamic *d*) r)))))) (list (catch 'k (ignore-errors (f %d))) (dynamic *d*))))",
			pick(g.r, []string{"(throw 'k (dynamic *d*))", "(dynamic *d*)", "(car 2)", "(progn (setf (dynamic *d*) 5) (dynamic *d*))"}), n))
	},
	// standard input redirected many times over
	func(g *Gen, k kind, depth int) V {
		n := g.size(30)
		g.big(n)
		g.use("with-standard-input")
		in := pick(g.r, []string{"(throw 'k (rdc))", "(car 1)", "(rdc)"})
		for i := n - 1; i >= 0; i-- {
			in = ff("(with-standard-input (create-string-input-stream \"%c%c%c\") %s (list (rdc) (ignore-errors %s) (rdc)))", 'a'+i%26, 'b'+i%25, 'A'+i%26, pick(g.r, []string{"", "(rdc)"}), in)
			if g.r.P(15) {
				in = "(catch 'k " + in + ")"
			}
		}
		return g.bigWrap(k, ff("(progn (defun rdc () (read-char (standard-input) nil 'eof)) (with-standard-input (create-string-input-stream \"xyz\") (list (rdc) (catch 'k (ignore-errors %s)) (rdc))))", in))
	},
}

var bigCond = []idiom{
	// many handlers around the same form; each declines, answers, signals anew or leaves
	func(g *Gen, k kind, depth int) V {
		n := g.size(30)
		g.big(n)
		g.use("with-handler")
		in := "(list (ev 0) $1 (ev 1))"
		stop := g.r.N(n)
		for i := n - 1; i >= 0; i-- {
			act := "nil"
			if i == stop {
				act = pick(g.r, []string{"(continue-condition c 5)", "(throw 'k 6)", "(car 'x)", "(error \"again ~a\" 3)", "(signal-condition c nil)", ff("(throw 'k%d 7)", g.r.N(n))})
			} else if g.r.P(5) {
				act = pick(g.r, []string{"(car 'y)", "(error \"other\")"})
			}
			in = ff("(with-handler (lambda (c) (ev 'h %d (class-name* c)) %s) %s)", i, act, in)
			switch g.r.N(6) {
			case 0:
				in = ff("(unwind-protect %s (ev 'cl %d))", in, i)
			case 1:
				in = ff("(catch 'k%d %s)", i, in)
			}
		}
		return g.bigWrap(k, ff("(catch 'k (ignore-errors %s))", in), g.raiser())
	},
	// a condition raised far down, and many raised one after the other
	func(g *Gen, k kind, depth int) V {
		n := g.size(60)
		g.big(n)
		g.use("with-handler")
		return g.bigWrap(k, pick(g.r, []string{
			ff("(labels ((f (n) (if (< n 1) (+ 1 (cerror \"go\" \"deep ~a\" n)) (let ((r (f (- n 1)))) (+ r 1))))) (catch 'k (with-handler (lambda (c) (ev 'h (class-name* c)) (continue-condition c $1)) (f %d))))", n),
			ff("(let ((c 0)) (with-handler (lambda (x) (setq c (+ c 1)) (continue-condition x c)) (let ((acc nil)) (dotimes (i %d) (setq acc (cons (cerror \"go\" \"n ~a\" i) acc))) acc)))", n),
			ff("(let ((acc nil)) (dotimes (i %d) (setq acc (cons (catch 'k (with-handler (lambda (c) (throw 'k (list i (class-name* c)))) (if (= 0 (mod i 2)) (car i) (error \"e ~a\" i)))) acc))) acc)", n),
			ff("(labels ((f (n) (if (< n 1) (car 1) (with-handler (lambda (c) (if (= 0 (mod n 5)) (ev 'h n)) (if (= n %d) (throw 'k n))) (f (- n 1)))))) (catch 'k (ignore-errors (f %d))))", g.r.In(0, n), n),
		}), g.e(kInt, depth))
	},
}

var bigMacro = []idiom{
	// many parameters, rest arguments and a long template
	func(g *Gen, k kind, depth int) V {
		n, extra := g.size(20), g.size(40)-1
		g.big(n + extra)
		g.use("macro")
		if g.r.P(20) { // a number of arguments that must fit
			args := n + pick(g.r, []int{0, 0, 1, -1, 2})
			return g.bigWrap(k, ff("(progn (defmacro $1 (%s) `(list %s)) (ignore-errors ($1 %s)))", rep(n, func(i int) string { return ff("p%d", i) }), g.some(n, g.size(30), ",p%d"),
				rep(args, func(i int) string { return ff("(ev %d)", i) })), g.fresh("fit"))
		}
		m := g.fresh("big")
		return g.bigWrap(k, ff("(progn (defmacro $1 (%s &rest r) `(list (list %s) (progn %s) ,@r 'end ,(length r) (list ,@r ,p%d))) (let ((x $2)) ($1 %s %s)))",
			rep(n, func(i int) string { return ff("p%d", i) }),
			g.some(n, g.size(30), ",p%d"), g.some(n, g.size(10), "(ev ,p%d)"), g.r.N(n),
			rep(n, func(i int) string {
				return pick(g.r, []string{ff("%d", i), ff("(+ x %d)", i), ff("(ev %d)", i), "'(a . b)"})
			}),
			rep(extra, func(i int) string { return pick(g.r, []string{ff("%d", i), ff("(setq x (+ x %d))", i), "'r"}) })), m, g.e(kInt, depth))
	},
	// macros expanding to the next one
	func(g *Gen, k kind, depth int) V {
		n := g.size(25)
		g.big(n)
		g.use("macro")
		id := g.fresh("mc").name + g.suffix
		return g.bigWrap(k, ff("(progn %s (%s-%d 1))", rep(n+1, func(i int) string {
			if i == 0 {
				return "(defmacro " + id + "-0 (a &rest r) `(list ,a ,@r))"
			}
			return ff("(defmacro %s-%d (a &rest r) %s)", id, i, pick(g.r, []string{
				ff("`(%s-%d ,a %d ,@r)", id, i-1, i), ff("`(%s-%d (+ ,a %d) ,@r)", id, i-1, i), ff("`(let ((x%d ,a)) (%s-%d x%d ,@r x%d))", i, id, i-1, i, i), ff("(cons '%s-%d (cons (list '+ 1 a) r))", id, i-1)}))
		}), id, n))
	},
	// long and deep templates
	func(g *Gen, k kind, depth int) V {
		n := g.size(60)
		g.big(n)
		g.use("template")
		t := rep(n, func(i int) string {
			return pick(g.r, []string{"a", "7", "\"s\"", ",v1", ",(ev v2)", ",v3", "(b ,v1 . ,v2)", "'q", "(,v3 c)", "#(1 ,v1)", "()"})
		})
		if g.r.P(40) {
			t = "deep"
			for i := 0; i < n; i++ {
				t = pick(g.r, []string{"(" + t + ")", "(,v1 " + t + " x)", "(a . " + "(" + t + "))", "(" + t + " . ,v3)", "('" + t + " ,(ev " + ff("%d", i) + "))"})
			}
		}
		return g.bigWrap(k, "(let ((v1 1) (v2 '(x)) (v3 (list 3 4))) `("+t+"))")
	},
	// long case, cond, case-using
	func(g *Gen, k kind, depth int) V {
		n := g.size(40)
		g.big(n)
		hit := g.r.N(n + 2)
		return g.bigWrap(k, pick(g.r, []string{
			ff("(case %d %s (t (ev 'none)))", hit, rep(n, func(i int) string { return ff("((%d) (ev 'hit %d))", i, i) })),
			ff("(case %d ((%s) (ev 'first)) ((%s) (ev 'second)) (t (ev 'none)))", hit, rep(n, func(i int) string { return ff("%d", i*2) }), rep(n, func(i int) string { return ff("%d", i*2+1) })),
			ff("(case 's%d %s)", hit, rep(n, func(i int) string { return ff("((s%d x%d) (ev 'hit %d))", i, i, i) })),
			ff("(case-using #'= %d %s (t (ev 'none)))", hit, rep(n, func(i int) string { return ff("((%d) (ev 'hit %d))", i, i) })),
			ff("(cond %s (t 'none))", rep(n, func(i int) string { return ff("((ev (= %d %d)) (ev 'hit %d))", i, hit, i) })),
		}))
	},
	// places far down
	func(g *Gen, k kind, depth int) V {
		n := g.size(30)
		g.big(n)
		g.use("setf")
		place := "l"
		for i := 0; i < n; i++ {
			place = "(cdr " + place + ")"
		}
		return g.bigWrap(k, ff("(let ((l (list %s))) (setf (car %s) (ev $1)) (ev (length l)) (setf (elt l %d) 'e) (incf (car %s) 2) (list l))", rep(n+1, func(i int) string { return ff("%d", i) }), place, g.r.N(n+1), "l"), g.e(kInt, depth))
	},
}

var bigOrder = []idiom{
	// many operands, forms or clauses: every one once and in order, up to where it stops
	func(g *Gen, k kind, depth int) V {
		n := g.size(60)
		g.big(n)
		bad := g.r.N(n * 3)
		args := rep(n, func(i int) string {
			if i == bad {
				return pick(g.r, []string{"(car (ev 'bad))", "(throw 'tt (ev 2))", "(ev nil)"})
			}
			return ff("(ev %d)", i)
		})
		ints := rep(n, func(i int) string { return ff("(ev %d)", i) })
		nils := rep(n, func(i int) string {
			if i == bad {
				return "(ev 'yes)"
			}
			return "(progn (ev nil))"
		})
		form := pick(g.r, []string{"(list %s)", "(vector %s)", "(progn %s)", "(and %s)", "(block q %s)", "(catch 'qq %s)", "(let ((q 1)) %s)", "(when t %s)", "(unless nil %s)", "(cond (t %s))", "(case 1 ((1) %s))", "(prog1 %s)", "(prog2 0 %s)", "((lambda (&rest r) (ev 'called) r) %s)", "(funcall (lambda (&rest r) r) %s)", "(apply #'list (list %s))", "(tagbody %s)", "(unwind-protect (ev 'body) %s)", "(flet ((f (&rest r) r)) (f %s))", "(labels ((f () %s)) (f))", "(dynamic-let () %s)", "(if (progn %s) 1 2)", "(for ((i 0 (+ i 1))) ((> i 1) %s))", "(while (null (progn %s nil)) (throw 'tt 'w))", "(progn (dolist (i '(1 2)) %s) 0)", "(with-handler (lambda (c) (ev 'h)) %s)"})
		switch g.r.N(4) {
		case 0:
			return g.bigWrap(k, ff("(catch 'tt (ignore-errors %s))", ff(pick(g.r, []string{"(+ %s)", "(max %s)", "(min %s)", "(< %s)", "(<= 0 %s)", "(- %s)", "(> 0 %s)", "(*  %s)", "(>= %s)", "(= %s)"}), ints)))
		case 1:
			return g.bigWrap(k, ff("(catch 'tt (ignore-errors (or %s)))", nils))
		}
		return g.bigWrap(k, ff("(catch 'tt (ignore-errors %s))", ff(form, args)))
	},
	// assignment pairs
	func(g *Gen, k kind, depth int) V {
		n := g.size(40)
		g.big(n)
		head := pick(g.r, []string{"setq", "psetq"})
		return g.bigWrap(k, ff("(let (%s) (ev (ignore-errors (%s %s))) (list %s))", rep(n, func(i int) string { return ff("(v%d %d)", i, i) }), head,
			rep(n, func(i int) string { return ff("v%d (ev (+ v%d 1))", i, g.r.N(n)) }), rep(n, func(i int) string { return ff("v%d", i) })))
	},
	// deep nests of calls
	func(g *Gen, k kind, depth int) V {
		n := g.size(80)
		g.big(n)
		in := "(ev 1)"
		for i := 0; i < n; i++ {
			in = pick(g.r, []string{"(+ (ev %d) " + in + ")", "(- " + in + " (ev %d))", "(progn (ev %d) " + in + ")", "(if (ev %d) " + in + " 0)", "(let ((q " + in + ")) (ev %d) q)", "(car (list " + in + " (ev %d)))"})
			in = ff(in, i)
		}
		return g.bigWrap(k, in)
	},
	// long loops
	func(g *Gen, k kind, depth int) V {
		n := g.size(60)
		g.big(n)
		g.use("loop")
		hot := g.r.N(n)
		ints := rep(n, func(i int) string { return ff("%d", i) })
		return g.bigWrap(k, pick(g.r, []string{
			ff("(let ((s 0)) (dolist (x (list %s)) (setq s (+ s x)) (if (= x %d) (ev x))) s)", ints, hot),
			ff("(let ((s 0)) (dotimes (x %d) (setq s (+ s x)) (if (= x %d) (ev x))) s)", n, hot),
			ff("(for (%s) ((>= i0 2) (ev 'done) i0) (ev i0))", rep(n, func(i int) string { return ff("(i%d %d (+ i%d 1))", i, i%2, g.r.N(i+1)) })),
			ff("(let ((i 0)) (while (< i %d) (if (= i %d) (ev i)) (setq i (+ i 1))) i)", n, hot),
			ff("(mapcar (lambda (x) (if (= x %d) (ev x)) (* x x)) (list %s))", hot, ints),
		}))
	},
}

func init() {
	for _, p := range []struct {
		to   *[]idiom
		from []idiom
		n    int
	}{{&idiomsScope, bigScope, 1}, {&idiomsTail, bigTail, 1}, {&idiomsExit, bigExit, 1}, {&idiomsDyn, bigDyn, 1}, {&idiomsCond, bigCond, 1}, {&idiomsMacro, bigMacro, 1}, {&idiomsOrder, bigOrder, 1}} {
		*p.to = append(*p.to, p.from...)
	}
}
