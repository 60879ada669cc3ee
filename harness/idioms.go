package main

// Directed program shapes: each aims at one mechanism and leaves the rest random.

func (g *Gen) e(k kind, depth int) V { return g.expr(k, depth-2) }

// fit brings an int form to the kind.
func (g *Gen) fit(k kind, f V) V {
	if k == kList {
		return LS("list", f)
	}
	return f
}

// fitL brings a list form to the kind.
func (g *Gen) fitL(k kind, f V) V {
	if k == kList {
		return f
	}
	return LS("length", LS("ev", f))
}

func (g *Gen) seq(n int, choices []string) V {
	fs := []V{}
	for i := 0; i < n; i++ {
		fs = append(fs, T(pick(g.r, choices)))
	}
	return LL(append([]V{S("list")}, fs...))
}

// body1 is a form evaluating a to a fixed number of events around an inner form.
func (g *Gen) wrapTail(inner V, depth int) V {
	switch g.r.N(8) {
	case 0:
		return LS("progn", g.stmt(depth), inner)
	case 1:
		return LS("let", L(L(g.fresh("w"), g.e(kInt, depth))), inner)
	case 2:
		return LS("let*", L(L(g.fresh("w"), g.e(kInt, depth)), L(g.fresh("w"), g.e(kInt, depth))), g.stmt(depth), inner)
	case 3:
		return LS("if", g.cond1(depth-2), inner, inner)
	case 4:
		return LS("cond", L(rNil, 1), L(LS("ev", 1), g.stmt(depth), inner))
	case 5:
		return LS("if", rNil, 0, inner)
	}
	return inner
}

var idiomsScope = []idiom{
	// counters made by one function: separate state per instance, shared within
	func(g *Gen, k kind, depth int) V {
		g.use("closure")
		calls := g.seq(g.r.In(3, 8), []string{"(funcall (car c1))", "(funcall (car c2))", "(funcall (cadr c1))", "(funcall (cadr c2))", "(funcall (caddr c1) 50)", "(funcall (caddr c2) 60)", "(setq n (+ n 1))"})
		return g.fitL(k, T(`(flet ((mk (n) (list (lambda () (setq n (+ n $1))) (lambda () n) (lambda (v) (setq n v)))))
			(let* ((n $2) (c1 (mk $2)) (c2 (mk (+ n 100)))) (setq n $3) $4))`, g.lit(), g.e(kInt, depth), g.e(kInt, depth), calls))
	},
	// the binding visible at the definition, not at the call
	func(g *Gen, k kind, depth int) V {
		g.use("closure")
		v := pick(g.r, varPool)
		return g.fitL(k, T(`(let (($1 $2)) (flet ((get () $1) (put (v) (setq $1 v)))
			(let (($1 $3)) (ev (get)) (setq $1 $4) (ev $1 (get)) (put $5) (list $1 (get) (let (($1 0)) (put 9) (+ $1 (get)))))))`, v, g.e(kInt, depth), g.e(kInt, depth), g.e(kInt, depth), g.e(kInt, depth)))
	},
	// closures collected in a loop
	func(g *Gen, k kind, depth int) V {
		g.use("closure")
		g.use("loop")
		n := g.r.In(2, 4)
		mk := pick(g.r, []string{"(lambda () i)", "(let ((j i)) (lambda () (setq j (+ j 1)) j))", "(let ((j i)) (lambda () (setq i (+ i 10)) (+ i j)))", "(let* ((i i)) (lambda () (setq i (+ i 1))))"})
		loop := pick(g.r, []string{
			"(dotimes (i $1) (setq acc (cons $2 acc)))",
			"(dolist (i '(1 2 3)) (setq acc (cons $2 acc)))",
			"(for ((i 0 (+ i 1))) ((>= i $1)) (setq acc (cons $2 acc)))",
			"(let ((i 0)) (while (< i $1) (setq acc (cons $2 acc)) (setq i (+ i 1))))",
			"(mapc (lambda (i) (setq acc (cons $2 acc))) '(4 5 6))",
			"(labels ((rec (i) (if (< i $1) (progn (setq acc (cons $2 acc)) (rec (+ i 1)))))) (rec 0))",
		})
		return g.fitL(k, LS("let", T("((acc nil))"), T(loop, n, T(mk)), T("(ev (mapcar (lambda (f) (funcall f)) acc))"), T("(mapcar (lambda (f) (funcall f)) (reverse acc))")))
	},
	// recursion: one binding per activation
	func(g *Gen, k kind, depth int) V {
		g.use("closure")
		return g.fitL(k, T(`(labels ((rec (n $1) (if (< n 1) nil (let ((rest (rec (- n 1) (+ n $1)))) (cons (lambda () (setq n (+ n $1))) rest)))))
			(let ((fs (rec $2 $3))) (ev (mapcar (lambda (f) (funcall f)) fs)) (mapcar (lambda (f) (funcall f)) fs)))`, pick(g.r, []*Sym{S("x"), S("k")}), g.r.In(1, 4), g.e(kInt, depth)))
	},
	// flet bodies see the outer function, labels bodies the new one
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T(`(flet ((f (n) (ev 'outer (+ n 100)))) (list ($1 ((f (n) (if (< n 1) 0 (+ 1 (f (- n 1)))))) (f $2)) (f 1)))`, S(pick(g.r, []string{"flet", "labels"})), g.r.In(0, 4)))
	},
	// variable and function namespaces
	func(g *Gen, k kind, depth int) V {
		n := pick(g.r, []*Sym{S("f"), S("car"), S("list"), S("x")})
		return g.fitL(k, T(`(let (($1 $2)) (flet ((g () $1)) (let (($1 (lambda (v) (+ v (g))))) (cons (funcall $1 $3) (mapcar $1 '(1 2))))))`, n, g.e(kInt, depth), g.e(kInt, depth)))
	},
	// shadowing a built-in function by a local one, for the body only
	func(g *Gen, k kind, depth int) V {
		n := pick(g.r, []*Sym{S("third"), S("max"), S("min"), S("reverse"), S("last"), S("abs")}) // none that library macros expand to
		in := g.e(kInt, depth)
		return g.fitL(k, T(`(flet ((call ($2) (ev 'fn) ($1 '(5 6)))) (list (flet (($1 (z) (ev 'mine) (list z $3))) (length (ev ($1 $3)))) (flet (($1 (z) 7)) ($1 1))))`, n, S("q"), in))
	},
	// let evaluates its values outside, let* one after the other
	func(g *Gen, k kind, depth int) V {
		a, b := S("a"), S("b")
		return g.fitL(k, T(`(let ((a $1) (b $2)) (list (let ((a b) (b a)) (ev (- a b))) (let* ((a b) (b a)) (ev (- a b))) (let ((a (ev (+ a 1))) (f (lambda () (+ $3 $4)))) (setq b (+ b 3)) (funcall f))))`, g.e(kInt, depth), g.e(kInt, depth), a, b))
	},
	// parameters and assignment to them
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T(`(let* ((x $1) (f (lambda (x &rest r) (setq x (+ x 1)) (ev x r) (lambda () (setq x (* x 2)) (cons x r)))) (p (funcall f x $2 $3)) (q (apply f $4 '(7 8)))) (list (car (funcall p)) (car (funcall q)) (car (funcall p)) x))`,
			g.e(kInt, depth), g.e(kInt, depth), g.e(kInt, depth), g.e(kInt, depth)))
	},
	// global and local variable of the same name
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T(`(progn (defglobal $4 $1) (defun getgv () $4) (defun setgv (v) (setq $4 v)) (let (($4 $2)) (setgv $3) (setq $4 (+ $4 1)) (ev $4 (getgv)) (list $4 (getgv) (funcall (lambda ($4) (setgv 4) (+ $4 (getgv))) 10))))`,
			g.e(kInt, depth), g.e(kInt, depth), g.e(kInt, depth), S("*gv"+g.suffix+"*")))
	},
	// functions defined in a local scope share its variables
	func(g *Gen, k kind, depth int) V {
		a, b := g.fresh("inc"), g.fresh("get")
		return g.fitL(k, T(`(progn (let ((n $1)) (defun $2 (d) (setq n (+ n d))) (defun $3 () n)) (let ((n 1000)) ($2 $4) (ev ($3)) ($2 n) (list ($3) n (flet (($3 () 5)) ($2 1) ($3)) ($3))))`,
			g.e(kInt, depth), a, b, g.lit()))
	},
	// redefinition is seen by earlier callers; closures keep what they captured
	func(g *Gen, k kind, depth int) V {
		a, b := g.fresh("redef"), g.fresh("user")
		return g.fitL(k, T(`(progn (defun $1 (v) (+ v 1)) (defun $2 (v) ($1 (* v 2))) (let ((r1 ($2 $3)) (old (function $1))) (defun $1 (v) (- v 1)) (list r1 ($2 $3) (funcall old $3) (funcall (function $1) $3))))`, a, b, g.e(kInt, depth)))
	},
	// a closure passed down and called where its variables are hidden
	func(g *Gen, k kind, depth int) V {
		g.use("closure")
		v := pick(g.r, varPool[:6])
		return g.fitL(k, T(`(labels ((walk (n fn $1) (if (< n 1) (funcall fn) (cons (car (funcall fn)) (walk (- n 1) (let (($1 n)) (lambda () (setq $1 (+ $1 1)) (list $1 n))) (+ $1 5)))))) (let (($1 $2)) (append (walk 3 (lambda () (list $1)) 0) (list $1))))`, v, g.e(kInt, depth)))
	},
	// argument count errors leave everything unbound
	func(g *Gen, k kind, depth int) V {
		n := g.r.N(5)
		args := g.many(kInt, n, depth-2)
		for i := range args {
			args[i] = g.ev(args[i])
		}
		ps := pick(g.r, []string{"(a)", "(a b)", "(a b &rest r)", "()", "(&rest r)", "(a / r)", "(a b c d)"})
		return g.fitL(k, T(`(let ((a 1) (r '(2))) (ignore-errors (ev (funcall (lambda $1 (ev 'called a r) 3) . $2))) (cons a r))`, T(ps), LL(args)))
	},
	// mapcar with closures over changing variables
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T(`(let ((s $1)) (append (mapcar (lambda (x y) (setq s (+ s x)) (- s y)) $2 (list 1 2 3)) (list s)))`, g.e(kInt, depth), g.e(kList, depth)))
	},
}

var idiomsTail = []idiom{
	// accumulate closures over parameters through tail calls
	func(g *Gen, k kind, depth int) V {
		f := g.fresh("tf")
		g.use("tail-closure")
		return g.fitL(k, T(`(progn (defun $1 (n acc) (if (< n 1) acc $2)) (let ((fs ($1 $3 nil))) (ev (mapcar (lambda (f) (funcall f)) fs)) (mapcar (lambda (f) (funcall f)) fs)))`, f,
			g.wrapTail(T(`($1 (ev (- n 1)) (cons (lambda () (setq n (+ n 10))) acc))`, f), depth), g.r.In(1, 5)))
	},
	// :rest in tail calls
	func(g *Gen, k kind, depth int) V {
		f := g.fresh("tr")
		g.use("tail-rest")
		call := T(pick(g.r, []string{"($1 (- n 1))", "($1 (- n 1) n)", "($1 (- n 1) n (ev (* n 2)))", "($1 (- n 1) (car r) 7 n)"}), f)
		return g.fitL(k, T(`(progn (defun $1 (n &rest r) (ev n r) (if (< n 1) r $2)) ($1 $3 $4))`, f, g.wrapTail(call, depth), g.r.In(0, 4), g.e(kInt, depth)))
	},
	// swapping parameters: all arguments before any binding
	func(g *Gen, k kind, depth int) V {
		f := g.fresh("ts")
		g.use("tail-swap")
		return g.fitL(k, T(`(progn (defun $1 (n a b) (cond ((< n 1) (list a b)) (t $2))) ($1 $3 $4 $5))`, f,
			g.wrapTail(T(pick(g.r, []string{"($1 (- n 1) b a)", "($1 (- n 1) (+ a b) a)", "($1 (- n 1) (setq b (+ b 1)) (setq a b))"}), f), depth), g.r.In(0, 6), g.e(kInt, depth), g.e(kInt, depth)))
	},
	// wrong argument counts in tail position
	func(g *Gen, k kind, depth int) V {
		f := g.fresh("te")
		g.use("tail-arity")
		call := T(pick(g.r, []string{"($1 (ev (- n 1)))", "($1 (ev (- n 1)) (ev 2) (ev 3))", "($1)", "($1 (ev (- n 1)) (ev (car 5)) (ev 4))", "($1 (- n 1) (undefined-fn (ev 5)))"}), f)
		return g.fitL(k, T(`(progn (defun $1 (n m) (ev n m) (if (< n 1) 0 $2)) (list (ignore-errors ($1 $3 $4)) (catch 'out (with-handler (lambda (c) (ev 'h) (throw 'out 7)) ($1 $3 $4)))))`, f,
			g.wrapTail(call, depth), g.r.In(0, 3), g.lit()))
	},
	// positions that look like tail calls but are not: something happens after the call
	func(g *Gen, k kind, depth int) V {
		f := g.fresh("tn")
		g.use("tail-not")
		call := T("($1 (- n 1))", f)
		w := T(pick(g.r, []string{
			"(unwind-protect $1 (ev 'clean n))",
			"(block b (ev n) $1)",
			"(catch 'ct $1)",
			"(dynamic-let ((*tl* n)) $1)",
			"(with-handler (lambda (c) (ev 'handler n) (throw 'tt n)) $1)",
			"(and (ev n) $1)",
			"(or nil $1)",
			"(case n ((1 2 3 4) $1) (t 0))",
			"(when (ev n) $1)",
			"(+ 1 $1)",
			"(list $1)",
			"(let ((r $1)) (ev 'after n) r)",
			"(prog1 $1 (ev 'after n))",
			"(progn $1 (ev 'last n))",
			"(flet ((z () n)) $1)",
			"(labels ((z () n)) $1)",
			"(tagbody $1 (ev 'tag n))",
			"(funcall (lambda () $1))",
			"(ignore-errors $1)",
			"(if $1 (ev 'then n) (ev 'else n))",
			"(cond ($1) (t 3))",
			"(unless nil $1)",
		}), call)
		return g.fitL(k, T(`(progn (defdynamic *tl* 0) (defun $1 (n) (ev 'in n (dynamic *tl*)) (if (< n 1) (if $5 (throw 'tt (dynamic *tl*)) (list (dynamic *tl*))) $2)) (list $4 (catch 'tt ($1 $3))))`, f, g.wrapTail(w, depth), g.r.In(0, 4), g.e(kInt, depth), bo(g.r.P(25))))
	},
	// the name denotes something else in tail position
	func(g *Gen, k kind, depth int) V {
		f := g.fresh("th")
		g.use("tail-hidden")
		return g.fitL(k, T(pick(g.r, []string{
			"(progn (defun $1 (n) (if (< n 1) 0 (flet (($1 (m) (ev 'local m) (* m 100))) ($1 (- n 1))))) (list ($1 $2) ($1 0)))",
			"(progn (defun $1 (n) (if (< n 1) 0 (progn (defun $1 (m) (ev 'new m) (+ m 1000)) ($1 (- n 1))))) (list ($1 $2) ($1 0)))",
			"(progn (defun $1 (n) (if (< n 1) 'done ($1 (- n 1)))) (let ((old (function $1))) (defun $1 (n) (ev 'second n) 5) (list (length (list (funcall old $2))) ($1 $2))))",
			"(labels (($1 (n) (ev 'outer n) (if (< n 1) 0 (labels (($1 (m) (ev 'inner m) (if (< m 1) 9 ($1 (- m 1))))) ($1 n))))) (list ($1 $2)))",
			"(flet (($1 (n) (ev 'first n) (* n 2))) (flet (($1 (n) (if (< n 1) 0 ($1 (- n 1))))) (list ($1 $2))))",
			"(progn (defun $1 (n g) (if (< n 1) (funcall g) (let ((h (lambda () n))) ($1 (- n 1) (if (= n 2) h g))))) (list ($1 $2 (lambda () 77))))",
		}), f, g.r.In(0, 4)))
	},
	// mutual recursion
	func(g *Gen, k kind, depth int) V {
		f, h := g.fresh("ma"), g.fresh("mb")
		return g.fitL(k, T(`(progn (defun $1 (n a) (if (< n 1) (list a n) $4)) (defun $2 (n a) (ev 'mb n) (if (< n 1) (list n a) $5)) ($1 $3 0))`, f, h, g.r.In(0, 6),
			g.wrapTail(T("($1 (- n 1) (+ a 1))", h), depth), g.wrapTail(T("($1 (- n 1) (+ a 10))", f), depth)))
	},
	// a local function through labels, with outer variables
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T(`(let ((s 0)) (labels ((lp (i / tmp) (ev i tmp) (setq tmp (+ i 1)) (cond ((>= i $1) (list s tmp)) (t (setq s (+ s i)) $2)))) (lp 0)))`, g.r.In(0, 5), g.wrapTail(T("(lp (ev tmp))"), depth)))
	},
	// exits and errors out of the n-th iteration
	func(g *Gen, k kind, depth int) V {
		f := g.fresh("tx")
		return g.fitL(k, T(`(progn (defun $1 (n) (ev n) (cond ((= n 2) $2) ((< n 1) (list 0)) (t $3))) (list (catch 'tt (block bb (ignore-errors ($1 $4)))) 5))`, f,
			T(pick(g.r, []string{"(throw 'tt 1)", "(car n)", "(error \"stop ~a\" n)", "(return-from bb 2)", "n", "(unbound-var)"})), g.wrapTail(T("($1 (- n 1))", f), depth), g.r.In(0, 5)))
	},
}

var idiomsExit = []idiom{
	// an exit captured in a closure reaches its own activation
	func(g *Gen, k kind, depth int) V {
		g.use("block")
		return g.fitL(k, T(`(labels ((f (n fn) (block b (ev 'in n) (if (= n 0) (funcall fn $1) (list (ev 'out n (f (- n 1) (if (= n $2) (lambda (v) (return-from b (list v n))) fn)))))))) (f $3 (lambda (v) (list v))))`, g.e(kInt, depth), g.r.In(1, 4), g.r.In(0, 4)))
	},
	func(g *Gen, k kind, depth int) V {
		g.use("tagbody")
		g.use("go")
		return g.fitL(k, T(`(labels ((f (n fn) (let ((r nil)) (tagbody (ev 'in n) (if (= n 0) (funcall fn) (setq r (list (f (- n 1) (if (= n $1) (lambda () (go out)) fn))))) (ev 'normal n) (go end) out (ev 'jumped n) end) (cons n r)))) (f $2 (lambda () nil)))`, g.r.In(1, 4), g.r.In(0, 4)))
	},
	// cleanups on every way out, innermost first
	func(g *Gen, k kind, depth int) V {
		g.use("unwind-protect")
		ex := T(pick(g.r, []string{"(throw 'k1 (ev 1))", "(throw 'k2 (ev 2))", "(return-from bb (ev 3))", "(go lab)", "(car (ev 4))", "(error \"e\")", "(ev 5)", "(throw 'nowhere 6)", "(undefined-fn)", "(return-from nowhere 7)"}))
		c2 := T(pick(g.r, []string{"(ev 'c2)", "(throw 'k1 8)", "(return-from bb 9)", "(car 3)", "(catch 'in (throw 'in (ev 'c2)))", "(block z (return-from z (ev 'c2)))", "(ignore-errors (car (ev 'c2)))", "(unwind-protect (ev 'c2) (ev 'c2b))"}))
		if g.r.P(60) {
			c2 = T("(ev 'c2)")
		}
		return g.fit(k, T(`(length (list (catch 'k1 (block bb (catch 'k2 (let ((r 0)) (tagbody (setq r (unwind-protect (progn (ev 'a) (unwind-protect (progn (ev 'b) (unwind-protect $1 (ev 'c1)) (ev 'b2)) $2) (ev 'a2)) (ev 'c3))) (ev 'r r) lab (ev 'lab)) (ev r) $3))))))`, ex, c2, g.e(kInt, depth)))
	},
	// leaving loops
	func(g *Gen, k kind, depth int) V {
		g.use("loop")
		ex := pick(g.r, []string{"(return-from bb i)", "(throw 'tt i)", "(go out)", "(ev i)"})
		loop := pick(g.r, []string{
			"(dotimes (i 4) (unwind-protect (if (= i $1) $2 (ev 'it i)) (ev 'cl i)))",
			"(dolist (i '(0 1 2 3)) (unwind-protect (if (= i $1) $2 (ev 'it i)) (ev 'cl i)))",
			"(for ((i 0 (+ i 1))) ((> i 3)) (unwind-protect (if (= i $1) $2 (ev 'it i)) (ev 'cl i)))",
			"(let ((i 0)) (while (< i 4) (unwind-protect (if (= i $1) $2 (ev 'it i)) (ev 'cl i)) (setq i (+ i 1))))",
			"(mapcar (lambda (i) (unwind-protect (if (= i $1) $2 (ev 'it i)) (ev 'cl i))) '(0 1 2 3))",
			"(mapc (lambda (i) (if (= i $1) $2 (ev 'it i))) (list 0 1 2 3))",
			"(labels ((lp (i) (unwind-protect (if (= i $1) $2 (if (< i 4) (lp (+ i 1)))) (ev 'cl i)))) (lp 0))",
		})
		return g.fit(k, T(`(length (list (ev (block bb (catch 'tt (tagbody $1 out (ev 'out)) 44)))))`, T(loop, g.r.N(6), T(ex))))
	},
	// same tag twice: the innermost dynamic catch, and the outer one after it is gone
	func(g *Gen, k kind, depth int) V {
		g.use("catch")
		g.use("throw")
		t := pick(g.r, []string{"'tag", "5", "\"str\"", "#\\a", "1.5"})
		return g.fit(k, T(`(flet ((thr (v) (throw $1 v))) (catch $1 (+ 1 (ev (catch $1 (+ 10 (thr $2)))) (ev (catch 'other (+ 100 (catch $1 (throw 'other $3))))) (if $4 (thr 7) 8))))`, T(t), g.e(kInt, depth), g.e(kInt, depth), g.cond1(depth-2)))
	},
	// tags are values compared by eql: lists are distinct objects
	func(g *Gen, k kind, depth int) V {
		return g.fit(k, T(`(let ((tg (list 1 2)) (t2 $1)) (catch t2 (ev 'a) (catch tg (ev 'b) (ignore-errors (throw (list 1 2) 3)) (ev 'c) (throw $2 4)) (ev 'd) 5))`, T(pick(g.r, []string{"(list 1 2)", "tg2", "1.0", "1", "'sym"})).(V), T(pick(g.r, []string{"tg", "t2", "1", "1.0", "'sym"}))))
	},
	// an exit point that is gone
	func(g *Gen, k kind, depth int) V {
		return g.fit(k, T(pick(g.r, []string{
			"(let ((f (block b (lambda () (return-from b 1))))) (length (list (ignore-errors (funcall f)) (block b (ignore-errors (funcall f)) (ev 2)))))",
			"(let ((f nil)) (tagbody (setq f (lambda () (go x))) x (ev 'x)) (length (list (ignore-errors (funcall f)) (tagbody (ignore-errors (funcall f)) x (ev 'x2)))))",
			"(let ((f nil) (n 0)) (while (< n 3) (block b (if f (ignore-errors (funcall f))) (setq f (lambda () (return-from b n))) (if (= n 1) (funcall f)) (ev n)) (setq n (+ n 1))) n)",
			"(let ((f (lambda () (throw 'gone (ev 1))))) (catch 'gone 1) (length (list (ignore-errors (funcall f)) (catch 'gone (funcall f) (ev 2)))))",
			"(with-handler (lambda (c) (ev (class-name* c)) (throw 'q 3)) (catch 'q (funcall (block b (lambda () (return-from b 1))))))",
			"(catch 'o (with-handler (lambda (c) (ev (class-name* c)) (throw 'o 2)) (ev 1) (throw 'missing (ev 5))))",
			"(catch 'o (with-handler (lambda (c) (ev (class-name* c)) (throw 'o 2)) (ev 1) (go missing)))",
			"(catch 'o (with-handler (lambda (c) (ev (class-name* c)) (throw 'o 2)) (flet ((f () (return-from b 1))) (block b (ev 1) (f) (ev 2)))))",
		})))
	},
	// go to labels forward and backward
	func(g *Gen, k kind, depth int) V {
		g.use("tagbody")
		g.use("go")
		return g.fit(k, T(`(let ((n 0)) (tagbody (ev 's) (go $1) a (ev 'a n) (setq n (+ n 1)) (if (> n $2) (go d)) b (ev 'b n) (setq n (+ n 1)) (tagbody (if (> n 4) (go d)) (if (= n 3) (go c)) b2 (ev 'in) (if (= n 2) (go a))) c (ev 'c n) (setq n (+ n 1)) (if (< n 8) (go $3)) d (ev 'd n)) n)`,
			S(pick(g.r, []string{"a", "b", "c", "d"})), g.r.In(0, 4), S(pick(g.r, []string{"a", "b", "d"}))))
	},
	// integers are no tags but forms; the value of tagbody is nil
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T(`(list (if (tagbody (ev 1) x (ev 2)) 1 0) (if (block b (tagbody (return-from b $1)) 5) 1 0))`, g.cond1(depth-2)))
	},
	// exits while arguments are being evaluated
	func(g *Gen, k kind, depth int) V {
		g.use("return-from")
		return g.fit(k, T(`(block b (ev (+ (ev 1) (block c (+ (ev 2) (ev (return-from $1 (ev 3))) (ev 4))) (ev 5))) 6)`, S(pick(g.r, []string{"b", "c"}))))
	},
	// throw through handler frames and dynamic-let, then an error afterwards must find the right handler
	func(g *Gen, k kind, depth int) V {
		g.use("unwind-protect")
		return g.fit(k, T(`(catch 'top (with-handler (lambda (c) (ev 'h1) (throw 'top 1)) (catch 'mid (with-handler (lambda (c) (ev 'h2) (throw 'mid 2)) (unwind-protect $1 (ev 'cl)))) (ev 'after) $2 3))`,
			T(pick(g.r, []string{"(car 1)", "(throw 'mid 5)", "(throw 'top 6)", "(ev 'fine)"})), T(pick(g.r, []string{"(car 2)", "(ev 'ok)", "(throw 'top 9)"}))))
	},
}

// rdForm reads from the standard input of the moment.
func (g *Gen) rdForm() V {
	return T(pick(g.r, []string{
		"(read-char (standard-input) nil 'eof)", "(rdc)", "(rdl)", "(list (rdc) (rdc))", "(funcall rdk)", "(read-line (standard-input) nil 'eof)", "(apply #'rdc nil)", "(list (read-char saved nil 'eof) (rdc))",
	}))
}

func (g *Gen) stdinText() V {
	n := g.r.In(0, 6)
	s := ""
	for i := 0; i < n; i++ {
		s += pick(g.r, []string{"a", "b", "é", "x y", "\n", "日本", "Z", "q\nw"})
	}
	return s
}

// stdinForm nests redirections, exits, errors and handlers around reads of the standard input.
func (g *Gen) stdinForm(d int) V {
	if d <= 0 {
		return LS("ev", g.rdForm())
	}
	g.use("with-standard-input")
	in := func() V { return g.stdinForm(d - 1 - g.r.N(2)) }
	r, b := in(), in()
	exit := T(pick(g.r, []string{"(throw 'in (rdc))", "(return-from ib (rdc))", "(car (rdc))", "(error \"e ~a\" (rdc))", "(throw 'nowhere (rdl))", "(rdc)", "(undefined-in (rdc))", "(go itag)", "nil"}))
	switch g.r.N(12) {
	case 0, 1, 2:
		return T("(with-standard-input (create-string-input-stream $1) $2 $3 $4)", g.stdinText(), r, exit, b)
	case 3:
		return T("(with-standard-input (create-string-input-stream $1) (let ((saved (standard-input))) $2 $3))", g.stdinText(), r, b)
	case 4:
		return T("(with-standard-input (create-string-input-stream (let ((l (rdl))) (if (stringp l) l \"none\"))) $1 $2)", r, b)
	case 5:
		return T("(list (catch 'in $1) (ev (rdc)) $2)", r, b)
	case 6:
		return T("(list (block ib $1 $3) (ev (rdc)) $2)", r, b, exit)
	case 7:
		return T("(list (length (list (ignore-errors $1 $3))) (ev (rdc)) $2)", r, b, exit)
	case 8:
		return T("(unwind-protect $1 (ev 'cl (rdc)))", r)
	case 9:
		return T("(catch 'in (with-handler (lambda (c) (ev 'h (class-name* c) (rdc)) (throw 'in (rdc))) (with-standard-input (create-string-input-stream $1) $2 $3)))", g.stdinText(), r, exit)
	case 10:
		return T("(progn (tagbody $1 $2 itag) (ev (rdc)))", r, exit)
	}
	return T("(with-standard-input saved $1 (dynamic-let ((*dx* (rdc))) (ev (dynamic *dx*)) $2))", r, b)
}

var idiomsDyn = []idiom{
	// the standard input is redirected for the extent of the form only
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T(`(progn (defun rdc () (read-char (standard-input) nil 'eof)) (defun rdl () (read-line (standard-input) nil 'eof))
			(let ((saved (create-string-input-stream $1)) (rdk (lambda () (read-char (standard-input) nil 'eof)))) (list (length (list (ev (ignore-errors (catch 'in (block ib (let ((e nil)) (tagbody (setq e $2) itag) e))))) (ev (rdc)) (ev (read-line saved nil 'eof)))))))`, g.stdinText(), g.stdinForm(g.r.In(1, 6))))
	},
	func(g *Gen, k kind, depth int) V {
		g.use("dynamic-let")
		ex := T(pick(g.r, []string{"(throw 'tt (rd))", "(return-from bb (rd))", "(car (rd))", "(rd)", "(go out)", "(error \"x\")", "(throw 'none 1)"}))
		return g.fitL(k, T(`(progn (defdynamic *dx* 1) (defdynamic *dy* 2) (defun rd () (+ (* 100 (dynamic *dx*)) (dynamic *dy*)))
			(let ((r (ignore-errors (catch 'tt (block bb (let ((q 0)) (tagbody (dynamic-let ((*dx* $1) (*dy* (rd))) (ev (rd)) (dynamic-let ((*dx* (+ (dynamic *dx*) 1))) (ev (rd)) (setq q $2) (ev (rd))) (ev (rd))) out) (ev q) (rd))))))) (list (length (list r)) (rd))))`, g.e(kInt, depth), ex))
	},
	// assignment inside lasts until the form is left
	func(g *Gen, k kind, depth int) V {
		g.use("dynamic-let")
		set := pick(g.r, []string{"(setf (dynamic *dx*) $1)", "(set-dynamic $1 *dx*)"})
		return g.fitL(k, T(`(progn (defdynamic *dx* 5) (defun wr () $1) (list (dynamic-let ((*dx* 6)) (wr) (dynamic-let ((*dx* 7)) (ev (dynamic *dx*)) (wr) (ev (dynamic *dx*))) (dynamic *dx*)) (dynamic *dx*) (progn (wr) (dynamic *dx*))))`, T(set, g.e(kInt, depth))))
	},
	// parallel initialisation
	func(g *Gen, k kind, depth int) V {
		g.use("dynamic-let")
		return g.fitL(k, T(`(progn (defdynamic *dx* 1) (defdynamic *dy* 2) (list (dynamic-let ((*dx* (dynamic *dy*)) (*dy* (dynamic *dx*))) (ev (dynamic *dx*)) (- (dynamic *dx*) (dynamic *dy*))) (ignore-errors (dynamic-let ((*dx* 50) (*dy* (car $1))) (ev 'no) 1)) (dynamic *dx*) (dynamic *dy*)))`, g.e(kInt, depth)))
	},
	// a variable without global value
	func(g *Gen, k kind, depth int) V {
		g.use("dynamic-let")
		v := g.fresh("*nv")
		return g.fitL(k, T(`(list (length (list (ignore-errors (dynamic $1)))) (dynamic-let (($1 $2)) (catch 'q (dynamic-let (($1 3)) (throw 'q (ev (dynamic $1))))) (dynamic $1)) (catch 'q (with-handler (lambda (c) (ev (class-name* c)) (throw 'q 8)) (dynamic $1))))`, v, g.e(kInt, depth)))
	},
	// closures see the binding active at the call
	func(g *Gen, k kind, depth int) V {
		g.use("dynamic-let")
		return g.fitL(k, T(`(progn (defdynamic *dx* 1) (let ((f (dynamic-let ((*dx* 2)) (lambda () (dynamic *dx*))))) (list (funcall f) (dynamic-let ((*dx* $1)) (funcall f)) (dynamic-let ((*dx* 4)) (let ((*dx* 9)) (+ *dx* (funcall f)))))))`, g.e(kInt, depth)))
	},
	// recursion with a dynamic depth counter, exits out of the middle
	func(g *Gen, k kind, depth int) V {
		g.use("dynamic-let")
		ex := T(pick(g.r, []string{"(throw 'tt (dynamic *dd*))", "(car 1)", "(dynamic *dd*)", "(funcall fn)"}))
		return g.fitL(k, T(`(progn (defdynamic *dd* 0) (labels ((rec (n fn) (ev (dynamic *dd*)) (if (< n 1) $1 (dynamic-let ((*dd* (+ (dynamic *dd*) n))) (unwind-protect (block b (rec (- n 1) (if (= n 2) (lambda () (return-from b (dynamic *dd*))) fn))) (ev 'cl (dynamic *dd*)))))))
			(list (length (list (catch 'tt (ignore-errors (rec $2 (lambda () 5)))))) (dynamic *dd*))))`, ex, g.r.In(0, 4)))
	},
	// handlers run under the bindings of the point where the condition was raised
	func(g *Gen, k kind, depth int) V {
		g.use("dynamic-let")
		return g.fitL(k, T(`(progn (defdynamic *dx* 1) (list (catch 'q (with-handler (lambda (c) (ev 'h (dynamic *dx*)) (throw 'q (dynamic *dx*))) (dynamic-let ((*dx* $1)) (ev (dynamic *dx*)) $2 6))) (dynamic *dx*)))`, g.e(kInt, depth), T(pick(g.r, []string{"(car 1)", "(ev 2)", "(throw 'q 4)", "(error \"z\")"}))))
	},
	// values of any kind, nil among them, come back
	func(g *Gen, k kind, depth int) V {
		g.use("dynamic-let")
		v := func() V {
			return T(pick(g.r, []string{"nil", "nil", "t", "\"\"", "'sym", "0", "'(1)", "(car '(nil))", "#\\a", "-1"}))
		}
		ex := T(pick(g.r, []string{"(throw 'tt (dynamic *dx*))", "(car 1)", "(dynamic *dx*)", "nil", "(return-from bb nil)", "(go out)", "(error \"e\")"}))
		set := T(pick(g.r, []string{"(setf (dynamic *dx*) $1)", "nil", "(dynamic-let ((*dx* $1)) (setf (dynamic *dx*) $2) (ev (dynamic *dx*)))", "(let ((*dx* $1)) *dx*)"}), v(), v())
		return g.fit(k, T(`(progn (defdynamic *dx* $1) (defdynamic *dy* $2) (length (list (block bb (tagbody (catch 'tt (ignore-errors (dynamic-let ((*dx* $3) (*dy* $4)) (ev (dynamic *dx*) (dynamic *dy*)) $6 (ignore-errors (catch 'tt (dynamic-let ((*dy* $5) (*dx* (dynamic *dy*))) (ev (dynamic *dx*) (dynamic *dy*)) (unwind-protect $7 (ev 'cl (dynamic *dx*) (dynamic *dy*)))))) (ev (dynamic *dx*) (dynamic *dy*)) $6))) out)) (ev (dynamic *dx*) (dynamic *dy*)))))`,
			v(), v(), v(), v(), v(), set, ex))
	},
	// the same variable twice in a row and in a loop
	func(g *Gen, k kind, depth int) V {
		g.use("dynamic-let")
		return g.fitL(k, T(`(progn (defdynamic *dx* 0) (let ((acc nil)) (dotimes (i 3) (block b (dynamic-let ((*dx* (+ i (* 10 (dynamic *dx*))))) (setq acc (cons (dynamic *dx*) acc)) (if (= i $1) (return-from b nil)) (setf (dynamic *dx*) 77)))) (cons (dynamic *dx*) acc)))`, g.r.N(4)))
	},
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T(`(progn (defdynamic *dx* $1) (defdynamic *dx* (+ 1 (dynamic *dx*))) (list (dynamic *dx*) (dynamic-let () (dynamic *dx*))))`, g.e(kInt, depth)))
	},
}

var condRaisers = []string{
	"(car 1)", "(cdr 'x)", "(error \"m ~a\" 5)", "(cerror \"c\" \"m ~a\" 6)", "(/ 1 0)", "(+ 1 'a)", "unbound-one", "(undefined-one 1)",
	"(signal-condition (create <simple-error> 'format-string \"f\" 'format-arguments '(1)) nil)",
	"(signal-condition (create <simple-error> 'format-string \"f\" 'format-arguments '(1)) t)",
	"(throw 'no-such 1)", "(return-from no-such 1)", "(mod 5 0)", "(funcall 3)", "(length 5)", "(nosuch)", "(setq unbound-two 1)",
	"(dynamic *no-such-dyn*)", "(function no-such-fn)", "(- 'q 2)", "(< 1 'z)", "((lambda (a) a))", "((lambda (a) a) 1 2)", "(apply (lambda (a) a) '(1 2))",
}

func (g *Gen) raiser() V {
	g.use("raise")
	s := pick(g.r, condRaisers)
	if s == "(length 5)" || s == "(< 1 'z)" || s == "(mod 5 0)" || s == "(setq unbound-two 1)" {
		s = "(car 1)"
	}
	return T(s)
}

var idiomsCond = []idiom{
	// three handlers, each with its own action, and a raise within cleanups
	func(g *Gen, k kind, depth int) V {
		g.use("with-handler")
		act := func(tag string) V {
			return T(pick(g.r, []string{
				"(throw 'q $1)", "(ev 'declined)", "(continue-condition c $1)", "(progn (ev 'reraise) (car 'again))", "(signal-condition c nil)", "(throw 'out $1)", "(error \"from handler\")", "(continue-condition (create <simple-error> 'format-string \"o\" 'format-arguments nil) 1)",
			}), g.lit())
		}
		return g.fit(k, T(`(length (list (catch 'out (with-handler (lambda (c) (ev 'h1 (class-name* c)) $1) (catch 'q (with-handler (lambda (c) (ev 'h2 (class-name* c)) $2) (ev 'body) (with-handler (lambda (c) (ev 'h3 (class-name* c)) $3) (unwind-protect (list (ev 0) $4 (ev 1)) (ev 'cl))) (ev 'b2))) $5 (ev 'end)))))`,
			act("h1"), act("h2"), act("h3"), g.raiser(), pick(g.r, []V{g.raiser(), LS("ev", 3)})))
	},
	// the handler itself runs without itself
	func(g *Gen, k kind, depth int) V {
		g.use("with-handler")
		return g.fit(k, T(`(length (list (catch 'q (with-handler (lambda (c) (ev 'outer (class-name* c)) (throw 'q 1)) (with-handler (lambda (c) (ev 'inner (class-name* c)) $1 (ev 'inner-done) $2) (ev (list $3)))))))`, pick(g.r, []V{g.raiser(), LS("ev", 9), LS("ignore-errors", g.raiser())}), T(pick(g.r, []string{"(continue-condition c 4)", "(throw 'q 3)", "nil"})), g.raiser()))
	},
	// resuming: the value replaces the failing form, evaluation goes on
	func(g *Gen, k kind, depth int) V {
		g.use("with-handler")
		r := T(pick(g.r, []string{
			"(car $1)", "(cdr $1)", "(cerror \"go\" \"fmt ~a\" $1)", "(signal-condition (create <simple-error> 'format-string \"s\" 'format-arguments (list $1)) t)", "(+ 1 (cerror \"go\" \"f\"))", "(/ $1 0)", "(+ 'x $1)",
		}), g.e(kInt, depth))
		return g.fit(k, T(`(length (list (with-handler (lambda (c) (ev (class-name* c)) (continue-condition c $1)) (ev 'before) (ev (list (ev 1) $2 (ev 2))) (ev 'after))))`, pick(g.r, []V{T("'(5 6)"), g.lit(), T("(cons 1 2)")}), r))
	},
	// leaving with-handler in any way brings the outer handler back
	func(g *Gen, k kind, depth int) V {
		g.use("with-handler")
		ex := T(pick(g.r, []string{"(throw 'mid 1)", "(return-from bb 2)", "(go lab)", "(car 1)", "3", "(error \"y\")"}))
		return g.fit(k, T(`(length (list (catch 'q (with-handler (lambda (c) (ev 'outer) (throw 'q 1)) (catch 'mid (block bb (tagbody (with-handler (lambda (c) (ev 'inner) (throw 'mid 5)) $1) lab))) (ev 'left) $2 (ev 'end)))))`, ex, pick(g.r, []V{g.raiser(), LS("ev", 8)})))
	},
	// ignore-errors under and over handlers
	func(g *Gen, k kind, depth int) V {
		g.use("with-handler")
		return g.fit(k, T(`(length (list (catch 'q (with-handler (lambda (c) (ev 'h (class-name* c)) $1) (ev (list (ignore-errors (ev 1) $2 (ev 2)))) $3))))`, T(pick(g.r, []string{"(throw 'q 1)", "nil", "(continue-condition c 5)"})), g.raiser(), pick(g.r, []V{g.raiser(), LS("ev", 8)})))
	},
	// handler closures: state, recursion into the same handler binding form
	func(g *Gen, k kind, depth int) V {
		g.use("with-handler")
		return g.fit(k, T(`(let ((n 0)) (labels ((try (d) (catch 'again (with-handler (lambda (c) (setq n (+ n 1)) (ev 'h d n (class-name* c)) (if (< d $1) (throw 'again (try (+ d 1))) (throw 'again n))) (ev 'try d) $2 d)))) (try 0)))`, g.r.In(0, 3), g.raiser()))
	},
	// a handler that is not a function; with-handler without raise
	func(g *Gen, k kind, depth int) V {
		g.use("with-handler")
		return g.fit(k, T(`(length (list (catch 'q (with-handler (lambda (c) (ev (class-name* c)) (throw 'q 2)) (with-handler $1 (ev 'body) 5)))))`, pick(g.r, []V{g.lit(), T("'sym"), T("(progn (ev 'mk) (lambda (c) 1))"), T("(function class-name*)")})))
	},
	// raising inside a called function, argument or cleanup
	func(g *Gen, k kind, depth int) V {
		g.use("with-handler")
		f := g.fresh("cr")
		return g.fit(k, T(`(progn (defun $1 (x) (ev 'f x) (+ x (car (list $2))) (ev 'f2)) (length (list (catch 'q (with-handler (lambda (c) (ev 'h (class-name* c)) (throw 'q 0)) (unwind-protect (+ (ev 1) ($1 (ev 2)) (ev 3)) (ev 'c1) (ignore-errors $2) (ev 'c2)))))))`, f, g.raiser()))
	},
}

// template makes a quasiquotation template; what it unquotes emits events.
func (g *Gen) template(d int, vars []string) V {
	if d <= 0 || g.r.P(20) {
		return pick(g.r, []V{int64(1), int64(-7), 2.5, "s", "", Chr('x'), Chr('('), S("a"), S("quote"), S("if"), rNil, rT, &Kw{":k"}, S("v1")})
	}
	switch g.r.N(9) {
	case 0, 1, 2:
		n := g.r.In(0, 4)
		items := make([]V, n)
		for i := range items {
			items[i] = g.template(d-1, vars)
		}
		if n > 0 && g.r.P(25) {
			tail := pick(g.r, []V{S("tl"), int64(9), LS("unquote", LS("ev", S(pick(g.r, vars)))), LS("unquote", S("v1"))})
			for i := n - 1; i >= 0; i-- {
				tail = &Pair{items[i], tail}
			}
			return tail
		}
		return LL(items)
	case 3:
		n := g.r.In(0, 3)
		x := &Arr{dims: []int{n}}
		for i := 0; i < n; i++ {
			x.data = append(x.data, g.template(d-1, vars))
		}
		return x
	case 4:
		return Q(g.template(d-1, vars))
	case 5:
		return L(LS("unquote", LS("ev", S(pick(g.r, vars)))), g.template(d-1, vars))
	case 6:
		return LS("unquote", LS("ev", Q(g.template(d-1, vars)), S(pick(g.r, vars))))
	case 7:
		v := S(pick(g.r, vars))
		return LS("unquote", LS("setq", v, LS("list", v, LS("ev", v))))
	}
	return LS("unquote", S(pick(g.r, vars)))
}

var idiomsMacro = []idiom{
	// templates: every unquoted part once, left to right, the rest copied
	func(g *Gen, k kind, depth int) V {
		g.use("template")
		t := LS("quasiquote", g.template(g.r.In(1, 5), []string{"v1", "v2", "v3"}))
		form := T("(list (length (list (ev $1) (ev v1 v2 v3))))", t)
		if g.r.P(40) {
			return T("(let ((v1 1) (v2 'two) (v3 (list 3 \"three\"))) (flet ((tp () $1)) (tp) (tp) (length $2)))", t, form)
		}
		return T("(let ((v1 1) (v2 '(x)) (v3 #\\c)) (length $1))", form)
	},
	// a macro's expansion is what its template denotes for the unevaluated arguments
	func(g *Gen, k kind, depth int) V {
		g.use("macroexpand")
		m := g.fresh("mx")
		rest, vars := []V{S("v1"), S("v2")}, []string{"v1", "v2"}
		args := []V{g.template(2, []string{"q"}), g.e(kInt, depth)}
		tmpl := g.template(g.r.In(1, 4), vars)
		if g.r.P(50) {
			rest = append(rest, &Kw{pick(g.r, []string{"&rest", ":rest"})}, S("v3"))
			vars = append(vars, "v3")
			for i := g.r.N(4); i > 0; i-- {
				args = append(args, g.template(2, []string{"q"}))
			}
			items := []V{LS("unquote", S("v1")), LS("unquote", S("@v3")), tmpl, LS("unquote", S("@v3"))}
			if g.r.P(40) {
				items = append(items, L(S("n"), LS("unquote", S("@v3"))))
			}
			tmpl = LL(items)
		} else if g.r.P(10) {
			args = args[:1]
		} else if g.r.P(10) {
			args = append(args, 1)
		}
		return T("(progn (defmacro $1 $2 (ev 'expanding) $3) (length (list (ev (ignore-errors (macroexpand $4))))))", m, LL(rest), LS("quasiquote", tmpl), Q(&Pair{m, LL(args)}))
	},
	// unless evaluated, an argument form leaves no trace; twice means twice
	func(g *Gen, k kind, depth int) V {
		m := g.fresh("mm")
		g.use("macro")
		body := pick(g.r, []string{"`(if ,a ,b 0)", "`(progn ,a ,a ,b)", "`(let ((x 5)) (+ x ,a))", "(list 'quote (list 'a 'b))", "`(list ,a ',b)", "(if (consp a) `(ev 'cons ,a) `(ev 'atom ,a))", "`(setq ,v ,b)", "(list '+ a b)", "`((lambda (,v) ,a) ,b)", "(progn (ev 'expanding) `(+ ,a ,b))"})
		v := S("v")
		call := T("($1 $2 $3 x)", m, g.e(kInt, depth), g.ev(g.e(kInt, depth)))
		return g.fit(k, T(`(progn (defmacro $1 (a b v) $2) (let ((x $3) (y 2) (v 3)) (length (list (ev $4) (ev x) (ev y)))))`, m, T(body, v), g.e(kInt, depth), call))
	},
	// expansion at definition and at run time agree
	func(g *Gen, k kind, depth int) V {
		m, f := g.fresh("md"), g.fresh("mf")
		g.use("macro")
		body := pick(g.r, []string{"`(+ ,a x)", "`(let ((y ,a)) (+ y x))", "`(setq x (+ x ,a))", "`(funcall (lambda (q) (+ q ,a)) x)", "`(,@r ,a)"})
		if body == "`(,@r ,a)" {
			return g.fit(k, T("(progn (defmacro $1 (a &rest r) `(,@r ,a)) (defun $2 (x) ($1 x + 10 20)) (let ((x 1)) (+ (ev ($2 $3)) (ev ($1 x list 5 x)) )))", m, f, g.e(kInt, depth)).(V))
		}
		return g.fit(k, T(`(progn (defmacro $1 (a) $3) (defun $2 (x) ($1 (ev $4)) ) (defun $5 (x) (let ((z 1)) (if z ($1 (ev $4)) 0))) (let ((x $6)) (+ (ev ($2 x)) (ev ($5 x)) (ev ($1 (ev $4))) x)))`, m, f, T(body), g.e(kInt, depth), g.fresh("mf"), g.e(kInt, depth)))
	},
	// quasiquote evaluates each part once, left to right
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T("(let ((x $1)) (ev `(a ,(ev 1 x) (b ,(ev 2 (list x)) . ,(ev 3 x)) ,(setq x (+ x 1)) ,x 'q ,'q nil ,nil \"s\" (c (d ,(ev 4))))) (list x))", g.e(kInt, depth)))
	},
	// library macros with user variables of suspicious names
	func(g *Gen, k kind, depth int) V {
		g.use("hygiene")
		n := pick(g.r, []string{"value", "values", "rest", "key", "result", "x", "i", "end", "start", "var", "vars", "body", "place", "form", "count", "tmp", "func", "pred", "item", "list1", "delta", "clauses", "test"})
		s := S(n)
		e1, e2 := g.e(kInt, depth), g.lit()
		return g.fitL(k, T(pick(g.r, []string{
			"(let (($1 $2)) (list (prog1 $1 (setq $1 (+ $1 1))) (prog2 (ev $1) (+ $1 5) (setq $1 0)) $1))",
			"(let (($1 $2)) (incf $1 (ev $3)) (decf $1) (list $1))",
			"(let (($1 $2) (acc nil)) (dolist (e (list 1 $1 3)) (setq acc (cons (+ e $1) acc))) acc)",
			"(let (($1 $2) (acc nil)) (dotimes (e 3) (setq acc (cons (+ e $1) acc))) acc)",
			"(let (($1 $2)) (for ((e 0 (+ e 1)) (s $1 (+ s e))) ((> e 2) (list s $1)) (ev s $1)))",
			"(let (($1 $2)) (list (case-using (function <) $1 ((0 5) (ev $1)) (t (+ $1 1))) (case $1 ((1 2 3) $1) (t (- $1)))))",
			"(let (($1 $2)) (list (if (when (< $1 5) (ev $1)) 1 0) (if (unless (< $1 5) (ev $1)) 1 0)))",
			"(let (($1 (list 1 2 3))) (setf (car $1) (length $1)) (setf (elt $1 1) (car $1)) (incf (car $1) (length $1)) $1)",
			"(let (($1 0) (acc nil)) (while (< $1 3) (setq acc (cons $1 acc)) (incf $1)) acc)",
			"(let (($1 0) (acc nil)) (dolist ($1 '(1 2 3)) (setq acc (cons $1 acc))) (dotimes ($1 2) (setq acc (cons $1 acc))) (cons $1 acc))",
		}), s, e1, e2))
	},
	// macros defining functions and macros
	func(g *Gen, k kind, depth int) V {
		m, f := g.fresh("dm"), g.fresh("df")
		g.use("macro")
		return g.fit(k, T("(progn (defmacro $1 (n d) `(defun ,n (x) (+ x ,d))) ($1 $2 (ev $3)) (+ ($2 1) ($2 $4)))", m, f, g.e(kInt, depth), g.lit()))
	},
	// rest parameters and splicing
	func(g *Gen, k kind, depth int) V {
		m := g.fresh("ms")
		g.use("macro")
		body := pick(g.r, []string{"`(list ,a ,@r)", "`(progn (ev ,a) ,@r)", "`(list (list ,@r) ,a ,@r)", "`(+ ,@r ,a)", "(cons 'list r)", "`(list ,(length r) ,a)", "`(let ((z ,a)) ,@r)"})
		args := g.many(kInt, g.r.In(1, 4), depth-2)
		for i := range args {
			args[i] = g.ev(args[i])
		}
		return g.fit(k, T("(progn (defmacro $1 (a &rest r) $2) (length (list (ev ($1 . $3)))))", m, T(body), LL(args)))
	},
}

var idiomsOrder = []idiom{
	// arguments in order, once, whatever the operator
	func(g *Gen, k kind, depth int) V {
		bad := g.r.N(8)
		args := []V{}
		for i := 0; i < g.r.In(0, 5); i++ {
			a := g.ev(g.e(kInt, depth))
			if i == bad {
				a = T(pick(g.r, []string{"(car (ev 'bad))", "unbound-v", "(undefined-f (ev 1))", "(throw 'tt (ev 2))", "(error \"e\")"}))
			}
			args = append(args, a)
		}
		op := pick(g.r, []string{"(list . $1)", "(+ . $1)", "(vector . $1)", "(funcall (progn (ev 'fn) (lambda (&rest r) (ev 'called r))) . $1)", "((lambda (&rest r) (ev 'called r) 1) . $1)", "(flet ((f (&rest r) (ev 'called r))) (f . $1))", "(apply (function list) (ev 0) (list . $1))", "(max 0 . $1)", "(progn . $1)", "(and . $1)", "(or nil . $1)", "(append (list . $1))", "(* . $1)", "(- 0 . $1)", "(ev 'ev . $1)", "(min 5 . $1)", "(< 0 . $1)", "(create-v . $1)", "(block q . $1)", "(catch 'qq . $1)", "(let ((q 1)) . $1)", "(when t . $1)", "(unless nil . $1)", "(cond (t 0 . $1))", "(case 1 ((1) 0 . $1))", "(prog1 0 . $1)", "(prog2 1 2 . $1)"})
		return g.fit(k, T("(length (list (catch 'tt (ignore-errors (ev $1)))))", T(op, LL(args))))
	},
	// selection forms: which sub-forms run
	func(g *Gen, k kind, depth int) V {
		v := func() V {
			return T(pick(g.r, []string{"(ev nil)", "(ev 1)", "(ev t)", "(ev '())", "(ev 0)", "(ev \"\")", "(car (ev 3))"}))
		}
		return g.fit(k, T(pick(g.r, []string{
			"(length (list (ignore-errors (ev (and $1 $2 $3)))))", "(length (list (ignore-errors (ev (or $1 $2 $3)))))",
			"(length (list (ignore-errors (ev (if $1 (ev 'a $2) (ev 'b $3))))))", "(length (list (ignore-errors (ev (if $1 (ev 'a))))))",
			"(length (list (ignore-errors (ev (cond ($1) ($2 (ev 'x) (ev 'y)) ($3 (ev 'z)))))))",
			"(length (list (ignore-errors (ev (when $1 (ev 'x) $2)))))", "(length (list (ignore-errors (ev (unless $1 (ev 'x) $2)))))",
			"(length (list (ignore-errors (ev (case $1 ((1) (ev 'one)) ((nil) (ev 'nil)) ((0 t) (ev 'zt)) (t (ev 'other $2)))))))",
			"(length (list (ev (and)) (ev (or)) (ev (cond)) (ev (progn)) (ev (let ())) (ev (if nil 1))))",
			"(length (list (ignore-errors (let ((a $1) (b $2)) (ev 'body a b) $3))))",
			"(length (list (ignore-errors (let* ((a $1) (b (ev 'second a))) (ev 'body a b) $3))))",
			"(let ((a 1) (b 2)) (ignore-errors (setq a $1 b $2)) (length (list (ev a b))))",
			"(let ((a 1) (b 2)) (ignore-errors (psetq a $1 b (ev a))) (length (list (ev a b))))",
		}), v(), v(), v()))
	},
	// while: test before each round
	func(g *Gen, k kind, depth int) V {
		g.use("loop")
		return g.fit(k, T(`(let ((i 0)) (while (ev 'test (< i $1)) (ev 'body i) (setq i (+ i 1)) $2) i)`, g.r.N(4), g.e(kInt, depth)))
	},
	// for: steps in parallel, test first, result forms
	func(g *Gen, k kind, depth int) V {
		g.use("loop")
		return g.fit(k, T(`(for ((i (ev 'init 0) (ev 'step (+ i 1))) (j $1 (ev 'jstep i)) (m 3)) ((ev 'test (>= i $2)) (ev 'res i j) (+ i j m)) (ev 'body i j) (setq m (+ m 1)) $3)`, g.e(kInt, depth), g.r.N(4), g.e(kInt, depth)))
	},
	func(g *Gen, k kind, depth int) V {
		g.use("loop")
		return g.fit(k, T(`(let ((n 0)) (dolist (e (ev 'list $1)) (ev 'it e) (setq n (+ n 1))) (dotimes (e (ev 'count $2)) (ev 'it e) (setq n (+ n 1))) n)`, g.e(kList, depth), g.r.N(4)))
	},
	// operator position
	func(g *Gen, k kind, depth int) V {
		return g.fit(k, T(`(+ (funcall (ev 'fn (lambda (x) (ev 'run x) (+ x 1))) (ev $1)) ((lambda (a b) (ev 'run2) (- a b)) (ev $2) (ev 3)) (apply (progn (ev 'ap) (lambda (a b c) (+ a b c))) (ev 1) (ev (list 2 $1))))`, g.e(kInt, depth), g.e(kInt, depth)))
	},
	// many psetq at once
	func(g *Gen, k kind, depth int) V {
		vs := []V{S("a"), S("b"), S("c"), S("d"), S("e")}[:g.r.In(2, 5)]
		form, binds := []V{}, []V{}
		for i, v := range vs {
			e := pick(g.r, vs)
			form = append(form, v, pick(g.r, []V{e, LS("ev", e), LS("+", e, pick(g.r, vs)), LS("list", e, v), LS("if", e, pick(g.r, vs), 1)}))
			binds = append(binds, L(v, i*7))
		}
		return g.fit(k, LS("let", LL(binds), T("(ignore-errors $1)", &Pair{S("psetq"), LL(form)}), &Pair{S("ev"), LL(vs)}, LS("length", &Pair{S("list"), LL(vs)})))
	},
	// psetq, setq sequences
	func(g *Gen, k kind, depth int) V {
		return g.fit(k, T(`(let ((a $1) (b $2) (c 3)) (psetq a (ev b) b (ev a)) (ev a b) (setq a (ev (+ a 1)) b (ev a) c (ev (- b c))) (ev a b c) (+ a b c))`, g.e(kInt, depth), g.e(kInt, depth)))
	},
	// library functions and closures as arguments are called once per element
	func(g *Gen, k kind, depth int) V {
		return g.fitL(k, T(`(mapcar (lambda (x) (ev 'm x) (+ x $1)) (ev $2))`, g.e(kInt, depth), g.e(kList, depth)))
	},
}
