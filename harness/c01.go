package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"strings"

	gl "github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/regexp"
	_ "github.com/hymkor/gmnlisp/pkg/subst"
	_ "github.com/hymkor/gmnlisp/pkg/wildcard"
)

// every name a program can call (command execution excepted)
var builtinNames = strings.Fields(`* + - / /= < <= = > >= abort and append apply aref arithmetic-error-operands
arithmetic-error-operation array-dimensions assoc assure atom basic-array*-p basic-array-p block car case catch cdr
ceiling char-index char/= char< char<= char= char> char>= characterp class class-of close clrhash cond cons consp
continue-condition convert create create-array create-list create-string create-string-input-stream
create-string-output-stream defclass defconstant defdynamic defgeneric defglobal defmacro defmethod defun
domain-error-expected-class domain-error-object dynamic dynamic-let elt eq eql equal equalp error-output eval evenp
exit expand-defun file-length flet floatp floor format format-char format-float format-integer format-object funcall
function functionp general-array*-p generic-function-p gensym get-internal-real-time get-internal-run-time
get-output-stream-string get-universal-time gethash gmn:dump-session go hash-table-count if ignore-errors instancep
integerp internal-time-units-per-second labels lambda lambda-macro last length let let* list listp load macroexpand
make-hash-table mapc mapcan mapcar mapcon mapl maplist member minusp mod not nreverse null numberp oddp
open-input-file open-output-file or parse-number plusp probe-file progn psetq quasiquote quit quote read read-char
read-line rem remhash rest return return-from reverse round set-aref set-car set-cdr set-gethash setq
signal-condition sqrt standard-input standard-output string-append string-index string/= string< string<= string=
string> string>= stringp subclassp subseq symbolp tagbody the throw truncate undefined-entity-name
undefined-entity-namespace unwind-protect vector while with-handler with-open-input-file with-open-output-file
with-standard-input zerop =~ =~i subst wildcard
1+ 1- caar cadddr caddr cadr case-using cdddr cddr cerror decf dolist dotimes error first for incf max min nth nthcdr
prog1 prog2 rest second set-assoc set-cadddr set-caddr set-cadr set-cdddr set-cddr set-dynamic set-elt set-nth
set-nthcdr set-setq set-subseq setf swap-elt swap-subseq third unless when property set-property remove-property
report-condition simple-error-format-string simple-error-format-arguments initialize-object unquote
<object> <integer> <list> unbound-fn nil t :key usergen userfn usermac`)

// functions whose integer arguments are sizes
var sizeFns = map[string]bool{"create-list": true, "create-string": true, "create-array": true, "format": true, "format-float": true, "dotimes": true, "nth": true, "nthcdr": true, "for": true, "while": true}

const c01Prelude = `(defclass <ca> () ((sa :initarg sa :accessor ca-sa :boundp ca-sa-p :initform 1)))
(defclass <cb> (<ca>) ((sb :initarg sb :reader cb-sb :writer set-cb-sb)))
(defgeneric usergen (x y))
(defmethod usergen ((x <integer>) (y <integer>)) (list 'int x y))
(defmethod usergen ((x <ca>) (y <object>)) x)
(defun userfn (a &rest r) (cons a r))
(defmacro usermac (a) (list 'quote (list a a)))
(defdynamic *dv* 1)
(defglobal *gv* '(1 2 3))
(defun c01str () (create-string-input-stream "a (b c) \"d\" \n line2"))
(defun c01ht () (let ((h (make-hash-table))) (set-gethash 1 'a h) (set-gethash 2 "s" h) h))
(defun c01out () (let ((s (create-string-output-stream))) (format s "x") s))
(defun c01closed () (let ((s (open-output-file "c01.tmp"))) (close s) s))
(defun c01clin () (let ((s (open-input-file "c01.tmp"))) (close s) s))
(defun c01cond () (catch 'c (with-handler (lambda (c) (throw 'c c)) (car 1))))
(defun c01cond2 () (catch 'c (with-handler (lambda (c) (throw 'c c)) (error "m ~a" 1))))
(defun c01cond3 () (catch 'c (with-handler (lambda (c) (throw 'c c)) (undefd 1))))
(defun c01cond4 () (catch 'c (with-handler (lambda (c) (throw 'c c)) (/ 1 0))))
(defun c01cond5 () (catch 'c (with-handler (lambda (c) (throw 'c c)) undefv)))
(defun c01cond6 () (catch 'c (with-handler (lambda (c) (throw 'c c)) (throw 'nonesuch 1))))
(defun c01cond7 () (catch 'c (with-handler (lambda (c) (throw 'c c)) (read (create-string-input-stream "")))))
(defun c01esc () (block b (lambda () (return-from b 1))))
(c01closed)`

var c01Atoms = []string{
	"0", "1", "-1", "2", "3", "7", "1.5", "-0.0", "1e10", "\"\"", "\"abc\"", "\"日本é\"", "\"(1 . 2)\"", "\"12\"", "\"a.tmp\"", "#\\a", "#\\日", "#\\newline",
	"'a", "'foo", "':k", ":k", "'|a b|", "nil", "t", "'()", "pi", "(list 1 2 3)", "hostinf", "hostnan", "hostbig",
	"'(1 2 3)", "'(a)", "'(1 . 2)", "'(1 2 . 3)", "'((a . 1) (b . 2))", "'((1 2) (3 4))", "(list 1 2 3)", "(list)", "(cons 1 2)", "'(\"a\" #\\b 3.5 nil)",
	"#()", "#(1 2 3)", "(vector)", "(vector 1 2 3)", "#2a((1 2) (3 4))", "(create-array '(2 3) 0)", "(create-array nil 5)", "(create-array '(0) 1)", "(create-array '(2 0 2) 1)", "#3a(((1)))",
	"(c01ht)", "(make-hash-table)", "(c01str)", "(create-string-input-stream \"\")", "(c01out)", "(c01closed)", "(c01clin)", "(standard-output)", "(standard-input)", "(error-output)",
	"(c01cond)", "(c01cond2)", "(c01cond3)", "(c01cond4)", "(c01cond5)", "(c01cond6)", "(c01cond7)", "(c01esc)",
	"(create <ca>)", "(create <cb> 'sb 2)", "<ca>", "<cb>", "(class <object>)", "(class <integer>)", "(class <list>)", "(class <error>)", "(class <simple-error>)", "(class <string>)", "(class-of 1)",
	"#'car", "#'userfn", "#'usergen", "#'+", "(lambda (x) x)", "(lambda () 1)", "(lambda (&rest r) r)", "(lambda (a b) (list a b))", "#'cadr", "#'usermac", "#'if", "#'ca-sa",
	"(gensym)", "(read (create-string-input-stream \"#(1 (2 . x))\"))", "(dynamic *dv*)", "(function list)", "`(1 ,(+ 1 1))", "(quote quote)", "'(quote x)", "''a", "(class <ca>)", "'<ca>", "(quote <integer>)", "\"%\"", "\"~a ~s ~d ~x\"", "\"~\"", "\"~v,'0d\"", "\"[a-\"", "\"(a)|(b)\"", "\"*\"",
}

var c01Big = []string{"9223372036854775807", "-9223372036854775808", "1e308", "-1e308", "4294967296", "123456789012345678901234567890", "1114112", "55296", "-1114112", "5e-324"}

// raw syntax, for the operators which take forms
var c01Raw = []string{"x", "(x)", "(x 1)", "((x 1))", "((x 1) (y x))", "((x))", "(((x 1)))", "(x . 1)", "((x . 1))", "(1)", "((1 2))", "()", "nil", "t", "(a b)", "(&rest r)", "(a &rest)", "(a &rest r s)", "(:rest r)", "(a a)", "(/ z)", "(a / b)", "((f (x) x))", "((f x x))", "((f))", "(f)", "((f ()))",
	"(<ca>)", "(x <ca>)", "((x <ca>) (y <integer>))", "((s :initarg s))", "((s :accessor))", "((s :initform))", "((s :reader 5))", "(s)", "((s :initarg s :initarg s2 :initform 3 :boundp sp))", "((s :unknown 1))", "#'car", "'x", ",x", "`(a ,b)", ",@x", "(quote)", "(quote 1 2)", "(function)", "(t 1)", "(else 1)", "((1 2) 3)", "((a) . b)", "(1 . 2)", "\"s\"", "1.5", "#\\x", ":key", "#(1 2)", "(setf (car x) 1)", "(setf foo)", "(lambda)", "(lambda x x)", "(lambda (x) . x)", "(car . 1)", "(car 1 . 2)", "(+ . x)", "tag", "(go tag)", "(return 1)", "(throw 1 2)", "((t))", "(>= 1 0)", "((> 2 1) 5)", "((x 0 (+ x 1)))", "(s \"a.tmp\")", "(s \"nofile\")", "(s)", "(:abstractp t)", "(:metaclass <standard-class>)", "(:generic-function-class 1)", "(:method ((x <integer>)) x)", "<ca>", "newname", "*dv*", "(*dv* 2)", "((*dv* 2))", "((*newdv* 2))", "(dynamic *dv*)", "(aref #(1 2) 0)", "(elt *gv* 1)", "(gethash 1 (c01ht))", "(nth 0 *gv*)", "(cadr *gv*)", "(subseq *gv* 0 1)", "(assoc 1 *gv*)", "(undefd 1)", "(ca-sa (create <ca>))", "(cons)", "(usermac)", "(usermac 1 2)"}

func c01Arg(r *Rng, depth int, big bool) string {
	switch {
	case depth > 0 && r.P(22):
		return c01Call(r, depth-1)
	case big && r.P(8):
		return pick(r, c01Big)
	case r.P(14):
		return pick(r, c01Raw)
	}
	return pick(r, c01Atoms)
}

// c01Splice replaces a few sub-expressions of a program by arbitrary ones.
func c01Splice(r *Rng, src string) string {
	for k := r.In(1, 3); k > 0; k-- {
		var starts []int
		for i := 0; i < len(src); i++ {
			if src[i] == '(' || i > 0 && (src[i-1] == ' ' || src[i-1] == '(') && src[i] != ')' && src[i] != ' ' {
				starts = append(starts, i)
			}
		}
		if len(starts) == 0 {
			return src
		}
		i := pick(r, starts)
		j := i
		if src[i] == '(' {
			d := 0
			for ; j < len(src); j++ {
				if src[j] == '(' {
					d++
				} else if src[j] == ')' {
					if d--; d == 0 {
						j++
						break
					}
				}
			}
		} else {
			for j < len(src) && src[j] != ' ' && src[j] != ')' && src[j] != '(' {
				j++
			}
		}
		if r.P(15) { // dropped
			src = src[:i] + src[j:]
		} else {
			src = src[:i] + c01Arg(r, 1, false) + src[j:]
		}
	}
	return src
}

func c01Call(r *Rng, depth int) string {
	name := pick(r, builtinNames)
	if sizeFns[name] {
		depth = 0
	}
	if r.P(3) {
		name = pick(r, c01Raw)
	}
	n := r.W(10, 22, 28, 22, 10, 5, 3)
	parts := []string{name}
	raw := r.P(25)
	for i := 0; i < n; i++ {
		if raw && r.P(70) {
			parts = append(parts, pick(r, c01Raw))
		} else {
			parts = append(parts, c01Arg(r, depth, !sizeFns[name]))
		}
	}
	s := "(" + strings.Join(parts, " ") + ")"
	if r.P(1) {
		s = s[:len(s)-1] + " . " + pick(r, c01Atoms) + ")"
	}
	return s
}

func c01World() (*Mon, *gl.World) {
	m := newMon()
	w := m.W.Let(gl.Variables{
		gl.NewSymbol("hostinf"): gl.Float(math.Inf(1)),
		gl.NewSymbol("hostnan"): gl.Float(math.NaN()),
		gl.NewSymbol("hostbig"): gl.BigInt{Int: new(big.Int).Lsh(big.NewInt(1), 80)},
	})
	if o := interp(w, c01Prelude); o.Kind != "value" {
		return nil, nil
	}
	return m, w
}

func (c *Case) c01Check(w *gl.World, src string) {
	c.Note(src)
	o := interpFuel(w, src, 2500)
	c.Eval()
	c.Count("outcome."+o.Kind, 1)
	if o.Kind == "panic" {
		c.Fail("panic", src, "a value or an error", o.Full())
		return
	}
	if o.Kind == "error" {
		if o.Class != "fuel" {
			c.Distinct(strings.SplitN(o.Msg, "\n", 2)[0])
		}
		if o.Msg == "" && o.Class == "error" {
			c.Count("error.without-text", 1)
		}
		return
	}
	if strings.Contains(o.Val, "<GONIL>") {
		c.Fail("go-nil", src, "a value", o.Val)
		return
	}
	if strings.Contains(o.Val, "<UNEVAL") {
		c.Fail("internal-node", src, "a value", o.Val)
		return
	}
	c.Distinct(o.Val)
	if strings.Contains(o.Val, "<DEEP>") || strings.Contains(o.Val, "<LONG>") {
		c.Count("circular-or-huge", 1)
		return
	}
	// whatever came out can be printed, classified and compared
	p := guard(func() (gl.Node, error) {
		var b bytes.Buffer
		if s, ok := o.Node.(fmt.Stringer); ok {
			b.WriteString(s.String())
		}
		if s, ok := o.Node.(interface {
			PrintTo(io.Writer, gl.PrintMode) (int, error)
		}); ok {
			s.PrintTo(&b, gl.PRINC)
			s.PrintTo(&b, gl.PRINT)
		}
		cls := o.Node.ClassOf()
		_ = cls.Name().String()
		for _, m := range []gl.EqlMode{gl.STRICT, gl.EQUAL, gl.EQUALP} {
			_ = o.Node.Equals(o.Node, m)
		}
		return gl.Integer(b.Len()), nil
	})
	c.Count("printed", 1)
	if p.Kind == "panic" {
		c.Fail("panic-printing", src, "printable and comparable", p.Full())
		return
	}
	w2 := w.Let(gl.Variables{gl.NewSymbol("it"): o.Node})
	for _, use := range []string{"(format nil \"~s ~a\" it it)", "(list (class-of it) (eq it it) (eql it it) (equal it it) (equalp it it) (equal it '(1)) (equalp \"a\" it) (eql 1 it) (eq it nil))",
		"(let ((h (make-hash-table))) (ignore-errors (set-gethash it 1 h)) (gethash it h))", "(list (symbolp it) (consp it) (instancep it <object>) (functionp it) (subclassp (class-of it) <object>))"} {
		u := interpFuel(w2, use, 20000)
		c.Eval()
		if u.Kind == "panic" || u.Kind == "value" && strings.Contains(u.Val, "<GONIL>") {
			c.Fail("panic-using", src+"\nthen with its value as it: "+use, "a value or an error", u.Full())
			return
		}
	}
}

var c01Tokens = strings.Fields(`( ( ( ) ) ) ' ' , ,@ #' # #( #2a( #2a #3A( #\ #\a #\space #\( #\U41 #\x #| |# | || |a| |a\|b| " "a" "\" \ \\ ; . .. ... 1 -1 +1 1. .5 1.5 1e5 1e 1e999 -  + #b101 #o17 #xff #xFG #b2 #x- #d1 : :a :: a nil t quote lambda &rest & @ ~ {} [ ] #: #. #t #f #{ 日本 é ` + "\u00a0 \ufeff \u3000 ` ^")

const c01Bytes = "()'`,#\"\\|;. \n0aZ-+e@:&/"

func c01Text(r *Rng, base []string) string {
	switch r.N(4) {
	case 0: // token soup
		n := r.In(1, 25)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(pick(r, c01Tokens))
			if r.P(70) {
				b.WriteString(pick(r, []string{" ", "\n", "\t", "\r\n", "  "}))
			}
		}
		return b.String()
	case 1: // random bytes
		n := r.In(1, 40)
		bs := make([]byte, n)
		for i := range bs {
			if r.P(70) {
				bs[i] = c01Bytes[r.N(len(c01Bytes))]
			} else {
				bs[i] = byte(r.N(256))
			}
		}
		return string(bs)
	}
	// mutated program
	s := []byte(pick(r, base))
	for k := r.In(1, 6); k > 0 && len(s) > 0; k-- {
		i := r.N(len(s))
		switch r.N(5) {
		case 0:
			s = append(s[:i:i], s[i+1:]...)
		case 1:
			s = s[:i]
		case 2:
			t := pick(r, c01Tokens)
			s = append(s[:i:i], append([]byte(t), s[i:]...)...)
		case 3:
			j := r.N(len(s))
			if j < i {
				i, j = j, i
			}
			if j-i < 60 {
				s = append(s[:j:j], append(append([]byte{}, s[i:j]...), s[j:]...)...)
			}
		case 4:
			s[i] = c01Bytes[r.N(len(c01Bytes))]
		}
	}
	return string(s)
}

var c01Idioms []idiom

func init() {
	register(&Prop{
		ID: "C01", Quick: 70000, Thorough: 2000000,
		Rule: "every bound name called with random numbers and kinds of arguments (all data types, malformed syntax, nested calls), and random, mutated and truncated source texts; each result is printed, classified, hashed and compared; a monitor watches for panics, aborts, missing values and endless work; distinct by result or error text",
		Need: []string{"outcome.value", "outcome.error", "printed"},
		Run: func(c *Case) {
			m, w := c01World()
			if m == nil {
				o := interp(newMon().W, c01Prelude)
				c.Eval()
				c.Fail("prelude", c01Prelude, "a value", o.Full())
				return
			}
			if c.Idx < len(builtinNames) {
				// each name with 0..4 arguments of each kind
				name := builtinNames[c.Idx]
				c.c01Check(w, "("+name+")")
				for _, a := range c01Atoms {
					c.c01Check(w, "("+name+" "+a+")")
					c.c01Check(w, "("+name+" "+a+" "+c01Arg(c.R, 0, false)+")")
					c.c01Check(w, "("+name+" "+c01Arg(c.R, 0, false)+" "+a+")")
					c.c01Check(w, "("+name+" "+c01Arg(c.R, 0, false)+" "+a+" "+c01Arg(c.R, 0, false)+")")
				}
				return
			}
			if k := c.Idx - len(builtinNames); k < len(c01Calls) {
				c.c01Template(c01Calls[k])
				return
			} else if k -= len(c01Calls); k < len(c01SizeCalls) {
				for _, v := range c01Sizes {
					c.c01Check(w, strings.ReplaceAll(c01SizeCalls[k], "%s", v))
				}
				return
			}
			if c.Idx%16 == 5 {
				c.c01Generic(w)
				return
			}
			if c.Idx%4 == 2 {
				forms, _ := c.genProg(featAll, c.R.In(1, 2), c.R.In(2, 5), c.R.In(20, 80), c01Idioms)
				src := srcs(forms)
				for i := 0; i < 5; i++ {
					if c.R.P(70) {
						c.c01Check(w, c01Splice(c.R, src))
					} else {
						c.c01Check(w, c01Text(c.R, []string{src}))
					}
				}
				return
			}
			if c.Idx%4 == 3 {
				base := []string{c01Prelude, c01Call(c.R, 4), "(defun f (x) (if (< x 1) '(a . b) (f (- x 1)))) (f 3)", "#2a((1 \"a\\\"b\") (#\\a |x y|)) ; c\n#| d |# '(1 . 2)"}
				for i := 0; i < 10; i++ {
					c.c01Check(w, c01Text(c.R, base))
				}
				return
			}
			for i := 0; i < 10; i++ {
				c.c01Check(w, c01Call(c.R, c.R.In(0, 3)))
			}
			if c.R.P(10) {
				c.c01Host(m)
			}
		},
		Assume: []string{"recursion depth and allocation stay within the host's limits; circular data are not built", "the command function is not called with random arguments"},
	})
}

// c01Host calls function values directly, as a host does.
func (c *Case) c01Host(m *Mon) {
	vals := func() []gl.Node {
		return []gl.Node{gl.Null, gl.True, gl.Integer(1), gl.Float(1.5), gl.String("s"), gl.Rune('c'), gl.NewSymbol("a"), gl.List(gl.Integer(1)), gl.BigInt{Int: big.NewInt(5)}}
	}
	for i := 0; i < 10; i++ {
		name := pick(c.R, builtinNames)
		f, err := m.W.GetFunc(gl.NewSymbol(name))
		if err != nil || sizeFns[name] {
			continue
		}
		args := []gl.Node{}
		for n := c.R.N(4); n > 0; n-- {
			args = append(args, pick(c.R, vals()))
		}
		var list gl.Node = gl.Null
		for i := len(args) - 1; i >= 0; i-- {
			list = &gl.Cons{Car: args[i], Cdr: list}
		}
		if c.R.P(50) {
			list = gl.UnevalList(args...)
		}
		c.Note(name + " called by the host with " + canon(gl.List(args...)))
		o := guard(func() (gl.Node, error) { return f.Call(newFuel(20000, errFuel), m.W, list) })
		c.Eval()
		c.Count("host-calls", 1)
		if o.Kind == "panic" || strings.Contains(o.Val, "<GONIL>") {
			c.Fail("panic-host-call", fmt.Sprintf("%s called by the host with %s", name, canon(gl.List(args...))), "a value or an error", o.Full())
			return
		}
	}
}
