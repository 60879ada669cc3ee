package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// ---- random programs in several interpreters, step by step --------------------------------

func (c *Case) c21Programs() {
	type one struct {
		m     *Mon
		in    *Ref
		forms []V
		next  int
	}
	idioms := append(append(append(append([]idiom{}, idiomsTail...), idiomsExit...), idiomsDyn...), idiomsCond...)
	idioms = append(append(idioms, idiomsMacro...), idiomsOrder...)
	n := c.R.In(2, 3)
	ws := []*one{}
	for i := 0; i < n; i++ {
		g := newGen(c.R, featAll, c.R.In(30, 90))
		g.idioms = idioms
		g.suffix = fmt.Sprintf("-w%d", i)
		ws = append(ws, &one{m: newMon(), in: newRef(), forms: g.program(c.R.In(1, 3), c.R.In(2, 4))})
	}
	text := ""
	for {
		open := []int{}
		for i, w := range ws {
			if w.next < len(w.forms) {
				open = append(open, i)
			}
		}
		if len(open) == 0 {
			break
		}
		i := pick(c.R, open)
		w := ws[i]
		f := w.forms[w.next]
		w.next++
		text += fmt.Sprintf(";; in interpreter %d\n%s\n", i, src(f))
		w.in.Events = nil
		w.in.Limit = w.in.steps + 60000
		ro := w.in.Run([]V{f})
		if ro.Kind == "limit" {
			c.Count("discarded", 1)
			return
		}
		w.m.Events = nil
		o := w.m.Run(src(f))
		c.Eval()
		c.Count("interleaved step", 1)
		c.Count("events", len(w.in.Events))
		if !agrees(o, ro) || strings.Join(w.m.Events, "\x00") != strings.Join(w.in.Events, "\x00") {
			c.Fail("interleaved program", text, trace(w.in.Events, Outcome{Kind: "value", Val: ro.String()}), trace(w.m.Events, o)+"\n"+o.Full())
			return
		}
	}
	c.Distinct(text)
}

// ---- the library, wherever it is first used ------------------------------------------------

type libUse struct {
	name string
	src  string
	want string
	uses string // functions the expansion calls at the place of the call
	bad  string // a use which fails
}

var libUses = []libUse{
	{"1+", "(1+ 5)", "6", "", "(1+ 'a)"},
	{"1-", "(1- 5)", "4", "", "(1-)"},
	{"caar", "(caar '((1) 2))", "1", "", "(caar 5)"},
	{"cadr", "(cadr '(1 2 3))", "2", "", "(cadr '(1))"},
	{"cddr", "(cddr '(1 2 3))", "(3)", "", "(cddr 1)"},
	{"caddr", "(caddr '(1 2 3 4))", "3", "", "(caddr 1)"},
	{"cdddr", "(cdddr '(1 2 3 4))", "(4)", "", "(cdddr 5)"},
	{"cadddr", "(cadddr '(1 2 3 4 5))", "4", "", "(cadddr 5)"},
	{"first", "(first '(1 2 3))", "1", "", "(first 5)"},
	{"second", "(second '(1 2 3))", "2", "", "(second 5)"},
	{"third", "(third '(1 2 3))", "3", "", "(third 5)"},
	{"rest", "(rest '(1 2 3))", "(2 3)", "", "(rest 5)"},
	{"nth", "(nth 1 '(1 2 3))", "2", "", "(nth 'a '(1))"},
	{"nthcdr", "(nthcdr 2 '(1 2 3 4))", "(3 4)", "", "(nthcdr 'a '(1))"},
	{"max", "(max 3 9 2)", "9", "", "(max 'a 'b)"},
	{"min", "(min 3 2 9)", "2", "", "(min 'a 'b)"},
	{"case-using", "(case-using #'= 2 ((1) 'a) ((2 3) 'b) (t 'c))", `'"b"`, "funcall", "(case-using #'= 'a ((1) 2))"},
	{"cerror", `(catch 'le (with-handler (lambda (c) (throw 'le (list (simple-error-format-string c) (simple-error-format-arguments c)))) (cerror "a ~a" "b ~a" 1 2)))`, `("b ~a" (1 2))`, "", "(ignore-errors (cerror 5))"},
	{"cerror", `(with-handler (lambda (c) (continue-condition c 7)) (cerror "a ~a" "b ~a" 1))`, "7", "", "(cerror)"},
	{"error", `(catch 'le (with-handler (lambda (c) (throw 'le (list (simple-error-format-string c) (simple-error-format-arguments c)))) (error "b ~a" 1 2)))`, `("b ~a" (1 2))`, "", "(error)"},
	{"decf", "(let ((z 5)) (decf z 2) (decf z) z)", "2", "-", "(decf undefined-variable-1)"},
	{"incf", "(let ((z 5)) (incf z 2) (incf z) z)", "8", "+", "(incf undefined-variable-1)"},
	{"incf", "(let ((z (list 1 2))) (incf (car (cdr z)) 5) z)", "(1 7)", "+ car cdr set-car", "(incf 5)"},
	{"incf", "(let ((z (list 1 2))) (incf (elt z 1) 5) z)", "(1 7)", "+ elt set-elt swap-elt stringp basic-array-p set-aref", "(incf)"},
	{"dolist", "(let ((s 0)) (dolist (e '(1 2 3) s) (setq s (+ s e))) s)", "6", "car cdr +", "(dolist (e 5) e)"},
	{"dotimes", "(let ((s 0)) (dotimes (e 4) (setq s (+ s e))) s)", "6", "< +", "(dotimes (e 'a) e)"},
	{"for", "(for ((m 0 (+ m 1)) (q 1 (* q 2))) ((= m 5) q))", "32", "+ * = not", "(for)"},
	{"for", "(let ((w ())) (for ((m 0 (+ m 1)) (q 1)) ((= m 2) w) (setq w (cons q w))))", "(1 1)", "+ = not cons", "(for ((i 0 (car i))) (nil))"},
	{"prog1", "(let ((z 5)) (prog1 z (setq z 6)))", "5", "", "(prog1 (car 5))"},
	{"prog2", "(let ((z 5)) (prog2 1 z (setq z 6)))", "5", "", "(prog2)"},
	{"unless", "(list (unless nil 1 2) (unless t 1 2))", "(2 nil)", "list", "(unless)"},
	{"when", "(list (when t 1 2) (when nil 1 2))", "(2 nil)", "list", "(when)"},
	{"setf", "(let ((z 1)) (setf z 9) z)", "9", "", "(setf)"},
	{"setf", "(let ((z (list 1 2))) (setf (car z) 9) z)", "(9 2)", "list set-car", "(setf (car 5) 1)"},
	{"setf", "(let ((z (list 1 2))) (setf (cdr z) 9) z)", "(1 . 9)", "list set-cdr", "(setf 5 1)"},
	{"set-cadr", "(let ((z (list 1 2))) (setf (cadr z) 9) z)", "(1 9)", "list set-cadr", "(setf (cadr 5) 1)"},
	{"set-cddr", "(let ((z (list 1 2 3))) (setf (cddr z) '(9)) z)", "(1 2 9)", "list set-cddr", "(setf (cddr 5) 1)"},
	{"set-caddr", "(let ((z (list 1 2 3))) (setf (caddr z) 9) z)", "(1 2 9)", "list set-caddr", "(setf (caddr 5) 1)"},
	{"set-cadddr", "(let ((z (list 1 2 3 4))) (setf (cadddr z) 9) z)", "(1 2 3 9)", "list set-cadddr", "(setf (cadddr 5) 1)"},
	{"set-cdddr", "(let ((z (list 1 2 3 4))) (setf (cdddr z) '(9)) z)", "(1 2 3 9)", "list set-cdddr", "(setf (cdddr 5) 1)"},
	{"set-nth", "(let ((z (list 1 2 3))) (setf (nth 1 z) 9) z)", "(1 9 3)", "list set-nth set-elt elt swap-elt stringp basic-array-p set-aref", "(setf (nth 'a '(1)) 2)"},
	{"set-nthcdr", "(let ((z (list 1 2 3))) (setf (nthcdr 2 z) (list 9)) z)", "(1 2 9)", "list set-nthcdr = set-cdr nthcdr 1-", "(setf (nthcdr 1 5) 2)"},
	{"set-assoc", "(let ((z (list (cons 1 2) (cons 3 4)))) (setf (assoc 3 z) (cons 3 9)) z)", "((1 . 2) (3 . 9))", "list cons set-assoc not consp eql car cdr set-car", "(setf (assoc 1 5) 2)"},
	{"set-dynamic", "(progn (defdynamic *lib* 1) (setf (dynamic *lib*) 5) (dynamic *lib*))", "5", "set-dynamic", "(setf (dynamic 5) 2)"},
	{"set-elt", "(let ((z (list 1 2 3))) (setf (elt z 2) 9) z)", "(1 2 9)", "list set-elt elt swap-elt stringp basic-array-p set-aref", "(setf (elt 5 1) 2)"},
	{"set-elt", "(let ((z (vector 1 2 3))) (setf (elt z 2) 9) (elt z 2))", "9", "vector set-elt elt swap-elt stringp basic-array-p set-aref", "(setf (elt) 2)"},
	{"set-elt", `(let ((z "abc")) (setf (elt z 1) #\x) z)`, `"axc"`, "set-elt elt swap-elt stringp basic-array-p set-aref", "(setf (elt \"a\" 'x) 2)"},
	{"set-subseq", `(let ((z "abcd")) (setf (subseq z 1 3) "XY") z)`, `"aXYd"`, "set-subseq subseq swap-subseq", "(setf (subseq) 2)"},
	{"set-subseq", `(let ((z (list 1 2 3 4))) (setf (subseq z 1 3) '(8 9)) z)`, `(1 8 9 4)`, "list set-subseq subseq swap-subseq", "(setf (subseq 'a 1 'b) 2)"},
	{"setf", "(progn (defun set-my-place (v c) (set-car v c)) (let ((z (list 1))) (setf (my-place z) 9) z))", "(9)", "list set-car set-my-place", "(setf (no-such-place 1) 2)"},
	{"swap-elt", "(swap-elt 9 (list 1 2) 1)", "(1 9)", "list", "(swap-elt)"},
	{"property", "(progn (set-property 5 'sy 'n) (set-property 6 'sy 'm) (list (property 'sy 'n) (property 'sy 'm)))", "(5 6)", "list", "(property 'no 'no)"},
	{"remove-property", "(progn (set-property 5 'sx 'n) (remove-property 'sx 'n) (set-property 6 'sx 'n) (property 'sx 'n))", "6", "", "(property 'sx 5)"},
	{"report-condition", `(let ((s (create-string-output-stream))) (report-condition (create (class <simple-error>) 'format-string "e~a" 'format-arguments '(5)) s) (get-output-stream-string s))`, `"e5"`, "", "(report-condition 5 6)"},
	{"initialize-object", "(progn (defclass <lib-k> () ((a :initarg a :reader lib-a))) (lib-a (create (class <lib-k>) 'a 4)))", "4", "", "(lib-a 5)"},
}

var libVars = strings.Fields("x r n z source newvalue seq start end orig s str obj error-string continue-string vars body var values rest iters test-result inits steps test result iteration-spec init step place args delta binds arg v predform keyform keyform_ pred_ entry key1 expr expr1 expr2 commands count name pair tmp setter arguments setf-table key m L K V all-properties sym-props properties sym a b list car elt t1 e w i")

var libFns = strings.Fields("car cdr cons elt append reverse length mapcar equal symbolp consp assoc string-append convert set-car set-cdr nthcdr eql swap-elt swap-subseq stringp basic-array-p zerop > < + - * >= <= = 1+ 1- not create signal-condition format get-output-stream-string create-string-output-stream subseq create-string apply funcall list set-aref cadr nth max rm-item set-item first rest")

func words(s string) map[string]bool {
	r := map[string]bool{}
	for _, f := range strings.FieldsFunc(s, func(c rune) bool { return strings.ContainsRune("()'# \n\"", c) }) {
		r[f] = true
	}
	return r
}

func (h *hist) libContext(u libUse, s string) (string, string) {
	r := h.R
	kind := ""
	for d := r.In(1, 3); d > 0; d-- {
		switch r.N(20) {
		case 0, 1, 2:
			kind += " variables"
			b := ""
			used := map[string]bool{}
			for i := r.In(1, 12); i > 0; i-- {
				n := pick(r, libVars)
				if !used[n] {
					b += "(" + n + " " + pick(r, []string{"77", "nil", "'(1 2)", "t", "\"s\"", "'car", "(lambda (&rest q) 'bad)"}) + ")"
				}
				used[n] = true
			}
			s = "(" + pick(r, []string{"let", "let*"}) + " (" + b + ") " + s + ")"
		case 3, 4, 5, 6:
			kind += " functions"
			taken := words(s + " " + u.uses)
			b := ""
			used := map[string]bool{}
			for i := r.In(1, 8); i > 0; i-- {
				n := pick(r, libFns)
				if taken[n] || used[n] || n == u.name {
					continue
				}
				used[n] = true
				b += "(" + n + " (&rest q) (ev 'captured '" + n + ") 'bad)"
			}
			if b != "" {
				s = "(" + pick(r, []string{"flet", "labels"}) + " (" + b + ") " + s + ")"
			}
		case 7:
			kind += " catch"
			s = "(catch 'k (with-handler (lambda (c) (throw 'k 'leak)) (block nil " + s + ")))"
		case 8:
			kind += " dynamic-let"
			s = "(dynamic-let ((x 1) (a 2)) " + s + ")"
		case 9:
			kind += " lambda"
			s = "((lambda (x :rest args) " + s + ") 1 2 3)"
		case 10:
			kind += " argument"
			s = "(funcall (lambda (x) x) " + s + ")"
		case 11:
			kind += " expander"
			n := fmt.Sprintf("lib-m%d", r.N(1000))
			// evaluated while a macro is expanded; the expression's value is what the macro call gives
			s = "(progn (defmacro " + n + " (a b) (let ((v " + s + ")) (cons 'quote (cons v nil)))) (" + n + " 1 2))"
			if words(u.uses)["cons"] || strings.Contains(s, "(flet ((") || strings.Contains(s, "labels") {
				return kind, s
			}
		case 12:
			kind += " cleanup"
			s = "(let ((kept 0)) (unwind-protect 1 (setq kept " + s + ")) kept)"
		case 13:
			kind += " defun"
			n := fmt.Sprintf("lib-f%d", r.N(1000))
			s = "(progn (defun " + n + " (x n list) " + s + ") (" + n + " 1 2 3))"
		case 14:
			kind += " input"
			s = "(with-standard-input (create-string-input-stream \"abc\") " + s + ")"
		case 15:
			kind += " loop"
			s = "(let ((i9 0) (o9 nil)) (while (< i9 1) (setq o9 " + s + ") (setq i9 5)) o9)"
			if u.name == "<" {
				return kind, s
			}
		case 16:
			kind += " handler"
			s = "(catch 'k9 (with-handler (lambda (c) (throw 'k9 " + s + ")) (undefined-function-9)))"
		case 17:
			kind += " method"
			n := fmt.Sprintf("lib-g%d", r.N(1000))
			s = "(progn (defgeneric " + n + " (x)) (defmethod " + n + " ((x <object>)) " + s + ") (" + n + " 5))"
		case 18:
			kind += " twice"
			s = "(progn " + s + " " + s + ")"
		case 19:
			kind += " plain"
		}
	}
	return kind, s
}

func (c *Case) c21Library() {
	h := newHist(c)
	r := c.R
	// interpreters which redefine everything they can
	vandal := newMon()
	wreck := func() {
		for i := r.In(1, 6); i > 0; i-- {
			n := pick(r, libFns)
			s := "(defun " + n + " (&rest q) 'vandal)"
			if r.P(30) {
				n = pick(r, libUses).name
				s = "(defmacro " + n + " (&rest q) ''vandal)"
			} else if r.P(30) {
				n = pick(r, libUses).name
				s = "(defun " + n + " (&rest q) 'vandal)"
			}
			h.log = append(h.log, ";; in another interpreter: "+s)
			vandal.Run(s)
			vandal.Run("(" + n + " 1 2)")
			h.Count("redefined elsewhere", 1)
		}
	}
	ms := []*Mon{h.m}
	if r.P(40) {
		ms = append(ms, newMon())
	}
	redefined := map[string]bool{} // "name@k"
	for step := r.In(2, 14); step > 0 && !h.dead; step-- {
		if r.P(15) {
			wreck()
		}
		k := r.N(len(ms))
		m := ms[k]
		u := pick(r, libUses)
		if redefined[strconv.Itoa(k)] {
			continue
		}
		where := fmt.Sprintf(";; in interpreter %d", k)
		switch r.W(64, 8, 8, 8, 6, 6) {
		case 1: // an earlier use which fails
			h.log = append(h.log, where+"\n(ignore-errors "+u.bad+")")
			m.Run("(ignore-errors " + u.bad + ")")
			h.Count("first use fails", 1)
		case 2: // an earlier use which is cancelled
			n := int64(r.N(40))
			h.log = append(h.log, fmt.Sprintf("%s\n%s ;; cancelled at poll %d", where, u.src, n))
			guard(func() (gl.Node, error) { return m.W.Interpret(newStep(n, errFuel), u.src) })
			h.Count("first use cancelled", 1)
		case 3: // a reference or an expansion only
			s := pick(r, []string{"(ignore-errors (functionp #'" + u.name + "))", "(macroexpand-1 '" + u.src + ")", "(macroexpand '" + u.bad + ")", "(defun lib-unused () " + u.src + ")", "(let ((x 5)) (lambda (y) " + u.src + "))"})
			h.log = append(h.log, where+"\n"+s)
			m.Run(s)
			h.Count("first use as a reference", 1)
		case 4: // its own definition rules from now on, here only
			redefined[strconv.Itoa(k)] = true
			s := pick(r, []string{"(defun " + u.name + " (&rest q) 'mine)", "(defmacro " + u.name + " (&rest q) ''mine)"})
			h.log = append(h.log, where+"\n"+s+"\n("+u.name+" 1 2 3)")
			m.Run(s)
			o := m.Run("(" + u.name + " 1 2 3)")
			h.Eval()
			h.Count("redefined here", 1)
			if o.String() != `'"mine"` {
				h.dead = true
				h.Fail("own definition", h.text(), "mine", o.Full())
			}
			continue
		}
		kind, s := h.libContext(u, u.src)
		w := m.W
		if r.P(15) {
			vs := gl.Variables{}
			for i := r.N(10); i > 0; i-- {
				vs[gl.NewSymbol(pick(r, libVars))] = gl.Integer(77)
			}
			w = w.Let(vs)
			kind += " derived"
		}
		if r.P(10) {
			taken := words(s + " " + u.uses)
			fs := gl.Functions{}
			for i := r.N(8); i > 0; i-- {
				n := pick(r, libFns)
				if !taken[n] {
					fs[gl.NewSymbol(n)] = &gl.Function{F: func(context.Context, *gl.World, []gl.Node) (gl.Node, error) {
						m.Events = append(m.Events, "captured by the host's "+n)
						return gl.NewSymbol("bad"), nil
					}}
				}
			}
			w = w.Flet(fs)
			kind += " derived-functions"
		}
		h.log = append(h.log, where+"\n"+s)
		m.Events = nil
		o := interp(w, s)
		h.Eval()
		h.Count("library use", 1)
		for _, x := range strings.Fields(kind) {
			h.Count("use in "+x, 1)
		}
		if o.String() != u.want || len(m.Events) != 0 {
			h.dead = true
			h.Fail("library", h.text()+"\n;; "+kind, u.want, trace(m.Events, o)+" "+o.Full())
		}
	}
	h.done()
}

// ---- the state of every kind, in several interpreters, nested -------------------------------

type iworld struct {
	id    int
	m     *Mon
	fns   map[string]string // defun, defmacro: name to value, "" undefined
	dyn   map[string]string
	props map[string]string
	meths map[string]string // "g0 <integer>"
	gens  map[string]bool
	in    []string // the lines left on the standard input: none, it is the empty one of the process
	out   bytes.Buffer
	err   bytes.Buffer
	wout  string
	werr  string
	tmpD  []map[string]string // dynamic-let in progress
}

func (w *iworld) dynamic(n string) string {
	for i := len(w.tmpD) - 1; i >= 0; i-- {
		if v, ok := w.tmpD[i][n]; ok {
			return v
		}
	}
	return w.dyn[n]
}

type indep struct {
	*hist
	ws    []*iworld
	calls map[int]func()
	n     int
	val   int
}

func (x *indep) say(w *iworld, s string) {
	x.log = append(x.log, fmt.Sprintf(";; in interpreter %d: %s", w.id, s))
}

// expect runs s in w and compares its value.
func (x *indep) expect(w *iworld, kind, s, want string) {
	if x.dead {
		return
	}
	x.say(w, s)
	saved := w.m.Events
	w.m.Events = nil
	o := interp(w.m.W, s)
	ev := w.m.Events
	w.m.Events = saved
	x.Eval()
	x.Count(kind, 1)
	if x.dead {
		return
	}
	if o.String() != want || len(ev) > 0 {
		x.dead = true
		x.Fail(kind, x.text(), want, trace(ev, o)+" "+o.Full())
	}
}

func undefinedTo(v, class string) string {
	if v == "" {
		return "ERROR " + class
	}
	return v
}

// op is one operation on interpreter w.
func (x *indep) op(w *iworld, depth int) {
	if x.dead {
		return
	}
	r := x.R
	x.val++
	v := strconv.Itoa(x.val)
	f := pick(r, []string{"f0", "f1", "f2"})
	d := pick(r, []string{"*d0*", "*d1*"})
	p := pick(r, []string{"'a 'p", "'a 'q", "'b 'p"})
	g := pick(r, []string{"g0", "g1"})
	cl := pick(r, []string{"<integer>", "<string>", "<symbol>"})
	arg := map[string]string{"<integer>": "5", "<string>": `"s"`, "<symbol>": "'s"}[cl]
	switch r.N(24) {
	case 0:
		x.expect(w, "defun", "(progn (defun "+f+" () "+v+") 0)", "0")
		w.fns[f] = v
	case 1:
		x.expect(w, "defmacro", "(progn (defmacro "+f+" () "+v+") 0)", "0")
		w.fns[f] = v
	case 2, 3:
		x.expect(w, "call", "("+f+")", undefinedTo(w.fns[f], "<undefined-function>"))
	case 4:
		if len(w.tmpD) > 0 {
			return
		}
		x.expect(w, "defdynamic", "(progn (defdynamic "+d+" "+v+") 0)", "0")
		w.dyn[d] = v
	case 5, 6:
		x.expect(w, "dynamic", "(dynamic "+d+")", undefinedTo(w.dynamic(d), "<unbound-variable>"))
	case 7:
		x.expect(w, "set-property", "(progn (set-property "+v+" "+p+") 0)", "0")
		w.props[p] = v
	case 8, 9:
		x.expect(w, "property", "(ignore-errors (property "+p+"))", orNil(w.props[p]))
	case 10:
		x.expect(w, "remove-property", "(progn (ignore-errors (remove-property "+p+")) 0)", "0")
		delete(w.props, p)
	case 11:
		x.expect(w, "defgeneric", "(progn (defgeneric "+g+" (z)) 0)", "0")
		w.gens[g] = true
		for k := range w.meths {
			if strings.HasPrefix(k, g+" ") {
				delete(w.meths, k)
			}
		}
	case 12:
		if !w.gens[g] {
			return
		}
		x.expect(w, "defmethod", "(progn (defmethod "+g+" ((z "+cl+")) "+v+") 0)", "0")
		w.meths[g+" "+cl] = v
	case 13, 14:
		x.expect(w, "method", "("+g+" "+arg+")", undefinedTo(w.meths[g+" "+cl], "<undefined-function>"))
	case 15:
		want := `'"eof"`
		if len(w.in) > 0 {
			want = strconv.Quote(w.in[0])
			w.in = w.in[1:]
		}
		x.expect(w, "read-line", "(read-line (standard-input) nil 'eof)", want)
	case 16:
		t := pick(r, []string{"a", "b\n", ""})
		x.expect(w, "output", "(format (standard-output) \"~&"+t+v+t+"\")", "nil")
		if w.wout != "" && !strings.HasSuffix(w.wout, "\n") {
			w.wout += "\n"
		}
		w.wout += t + v + t
	case 17:
		x.expect(w, "output", "(format (error-output) \"e"+v+"\")", "nil")
		w.werr += "e" + v
	case 18:
		// errors are this interpreter's own
		x.expect(w, "error", "(car "+v+")", "ERROR <domain-error>")
	case 19:
		x.expect(w, "throw", "(throw '"+pick(r, []string{"k", "k1", "k2"})+" "+v+")", "ERROR <control-error>")
	case 20:
		x.expect(w, "handled", "(catch 'k (with-handler (lambda (c) (throw 'k "+v+")) (car 'x)))", v)
	case 21:
		x.expect(w, "standard streams", "(list (format (standard-output) \"\") (consp (standard-input)))", "(nil nil)")
	default:
		if depth <= 0 {
			return
		}
		x.nested(w, depth)
	}
}

func orNil(s string) string {
	if s == "" {
		return "nil"
	}
	return s
}

// nested runs operations of other interpreters while this one is in the middle of an evaluation.
func (x *indep) nested(w *iworld, depth int) {
	r := x.R
	x.n++
	id := x.n
	s := fmt.Sprintf("(nest %d)", id)
	binds := map[string]string{}
	stream := 0
	for i := r.In(1, 4); i > 0; i-- {
		switch r.N(9) {
		case 0:
			s = "(catch 'k (catch 'k1 " + s + "))"
		case 1:
			s = "(with-handler (lambda (c) (ev 'leak) (throw 'k 'leak)) " + s + ")"
		case 2:
			x.val++
			d := pick(r, []string{"*d0*", "*d1*"})
			s = fmt.Sprintf("(dynamic-let ((%s %d)) %s)", d, x.val, s)
			if _, ok := binds[d]; !ok {
				binds[d] = strconv.Itoa(x.val)
			}
		case 3:
			s = "(with-standard-input (create-string-input-stream \"other\") " + s + ")"
			stream++
		case 4:
			s = "(block b (unwind-protect " + s + " (ev)))"
			s = strings.Replace(s, "(ev)", "1", 1)
		case 5:
			s = "(ignore-errors " + s + ")"
		case 6:
			s = "(flet ((f0 () 'local) (g0 (z) 'local)) " + s + ")"
		case 7:
			s = "(let ((*d0* 'lexical) (f0 1)) " + s + ")"
		case 8:
			s = "(car (mapcar (lambda (q) " + s + ") '(1)))"
		}
	}
	x.calls[id] = func() {
		w.tmpD = append(w.tmpD, binds)
		for i := r.In(1, 5); i > 0 && !x.dead; i-- {
			o := pick(r, x.ws)
			if len(o.tmpD) > 0 {
				continue // it is in the middle of an evaluation too: what the same interpreter sees in there is C25's business
			}
			x.op(o, depth-1)
		}
		w.tmpD = w.tmpD[:len(w.tmpD)-1]
	}
	x.expect(w, "nested", s, `'"done"`)
}

func (c *Case) c21State() {
	x := &indep{hist: newHist(c), calls: map[int]func(){}}
	r := c.R
	for i := r.In(2, 3); i > 0; i-- {
		w := &iworld{id: len(x.ws), fns: map[string]string{}, dyn: map[string]string{}, props: map[string]string{}, meths: map[string]string{}, gens: map[string]bool{}}
		w.m = newMon()
		w.m.W.SetStdout(&w.out)
		w.m.W.SetErrout(&w.err)
		w.m.W = w.m.W.Flet(gl.Functions{gl.NewSymbol("nest"): &gl.Function{C: 1, F: func(_ context.Context, _ *gl.World, a []gl.Node) (gl.Node, error) {
			f := x.calls[int(a[0].(gl.Integer))]
			if f == nil {
				return nil, errors.New("no such nest")
			}
			f()
			return gl.NewSymbol("done"), nil
		}}})
		x.ws = append(x.ws, w)
	}
	for step := r.In(10, 40); step > 0 && !x.dead; step-- {
		x.op(pick(r, x.ws), 3)
	}
	for _, w := range x.ws {
		names := []string{}
		for n := range w.fns {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			x.expect(w, "call at the end", "("+n+")", undefinedTo(w.fns[n], "<undefined-function>"))
		}
		for _, d := range []string{"*d0*", "*d1*"} {
			x.expect(w, "dynamic at the end", "(dynamic "+d+")", undefinedTo(w.dyn[d], "<unbound-variable>"))
		}
		for _, p := range []string{"'a 'p", "'a 'q", "'b 'p"} {
			x.expect(w, "property at the end", "(ignore-errors (property "+p+"))", orNil(w.props[p]))
		}
		if !x.dead && (w.out.String() != w.wout || w.err.String() != w.werr) {
			x.dead = true
			x.Fail("output", x.text(), fmt.Sprintf("interpreter %d: %q %q", w.id, w.wout, w.werr), fmt.Sprintf("%q %q", w.out.String(), w.err.String()))
		}
	}
	x.done()
}

func c21Run(c *Case) {
	switch c.R.W(30, 35, 35) {
	case 0:
		c.c21Programs()
	case 1:
		c.c21Library()
	case 2:
		c.c21State()
	}
}

func init() {
	register(&Prop{
		ID: "C21", Quick: 80000, Thorough: 800000, Run: c21Run,
		Rule:   "two or three interpreters: random programs with the same names interleaved form by form, each compared with its own reference evaluator; histories of definitions, properties, methods, dynamic variables, reads and writes, also from inside each other's catchers, handlers, bindings and redirections, compared with one model per interpreter; every library function and macro first used in hostile contexts (local variables and functions of every name the library uses, derived interpreters, failed and cancelled earlier uses, other interpreters which redefined everything); distinct by history",
		Need:   []string{"interleaved step", "library use", "redefined elsewhere", "redefined here", "first use fails", "first use cancelled", "first use as a reference", "use in variables", "use in functions", "use in derived", "nested", "call", "dynamic", "property", "method", "read-line", "output", "error", "throw"},
		Assume: []string{"interpreters are used from one goroutine; global variables and class names are shared by design and kept apart by the workload"},
	})
}
