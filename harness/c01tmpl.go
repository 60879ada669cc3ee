package main

import (
	"fmt"
	"regexp"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// correct calls: each hole {x} is, in turn, replaced by every unusual value.
var c01Calls = strings.Split(strings.TrimSpace(`
(+ {1} {2})
(+ {1.5} {2} {3})
(- {5})
(- {5} {2} {1})
(* {2} {3})
(* {2.5} {3} {2})
(/ {6} {3})
(/ {6.0} {4} {2})
(= {1} {1})
(/= {1} {2})
(< {1} {2} {3})
(<= {1} {2})
(> {2} {1})
(>= {2} {1})
(mod {7} {3})
(rem {7} {3})
(truncate {7.5})
(floor {7.5})
(ceiling {7.5})
(round {7.5})
(sqrt {9})
(max {1} {2} {3})
(min {1} {2} {3})
(1+ {1})
(1- {1})
(parse-number {"12"})
(let ((x {1})) (incf x {2}) x)
(let ((x {1})) (decf x {2}) x)
(numberp {1})
(integerp {1})
(floatp {1})
(evenp {2})
(oddp {2})
(zerop {2})
(minusp {2})
(plusp {2})
(cons {1} {2})
(car {'(1 2)})
(cdr {'(1 2)})
(set-car {1} {(list 1 2)})
(set-cdr {1} {(list 1 2)})
(setf (car {(list 1 2)}) {5})
(setf (cdr {(list 1 2)}) {5})
(setf (nth {1} {(list 1 2 3)}) {5})
(setf (nthcdr {1} {(list 1 2 3)}) {5})
(let ((l {(list 1 2 3)})) (setf (nth {1} l) {5}) l)
(let ((l {(list 1 2 3)})) (setf (nthcdr {1} l) {5}) l)
(let ((l {(list 1 2 3)})) (setf (elt l {1}) {5}) l)
(let ((l {"abc"})) (setf (elt l {1}) {#\x}) l)
(let ((l {(vector 1 2 3)})) (setf (elt l {1}) {5}) l)
(let ((l {"abcdef"})) (setf (subseq l {1} {3}) {"xy"}) l)
(let ((l {(list 1 2 3 4)})) (setf (subseq l {1} {3}) {(list 8 9)}) l)
(let ((l {(list (cons 1 2))})) (setf (assoc {1} l) {5}) l)
(caar {'((1))})
(cadr {'(1 2)})
(cddr {'(1 2)})
(caddr {'(1 2 3)})
(cdddr {'(1 2 3)})
(cadddr {'(1 2 3 4)})
(first {'(1 2)})
(second {'(1 2)})
(third {'(1 2 3)})
(rest {'(1 2)})
(nth {1} {'(1 2 3)})
(nthcdr {1} {'(1 2 3)})
(last {'(1 2 3)})
(list {1} {2})
(create-list {3} {1})
(append {'(1)} {'(2)} {'(3)})
(reverse {'(1 2 3)})
(nreverse {(list 1 2 3)})
(member {1} {'(1 2)})
(assoc {1} {'((1 . 2) (3 . 4))})
(mapcar {#'list} {'(1 2)} {'(3 4)})
(mapc {#'list} {'(1 2)} {'(3 4)})
(mapcan {#'list} {'(1 2)} {'(3 4)})
(maplist {#'list} {'(1 2)} {'(3 4)})
(mapl {#'list} {'(1 2)} {'(3 4)})
(mapcon {#'list} {'(1 2)} {'(3 4)})
(mapcar (lambda (x) {x}) {'(1 2)})
(mapcan (lambda (x) {(list x)}) {'(1 2)})
(length {'(1 2)})
(elt {'(1 2 3)} {1})
(elt {"abc"} {1})
(elt {#(1 2 3)} {1})
(elt {#2a((1 2) (3 4))} {1} {0})
(subseq {'(1 2 3)} {1} {2})
(subseq {"abc"} {1} {2})
(subseq {#(1 2 3)} {1} {2})
(set-elt {5} {(list 1 2 3)} {1})
(create-array {'(2 2)} {0})
(create-array (list {2} {3}) {0})
(aref {#(1 2 3)} {1})
(aref {#2a((1 2) (3 4))} {1} {0})
(set-aref {9} {(vector 1 2 3)} {1})
(set-aref {9} {(create-array '(2 2) 0)} {1} {0})
(setf (aref {(vector 1 2 3)} {1}) {9})
(setf (aref {(create-array '(2 2 2) 0)} {1} {0} {1}) {9})
(array-dimensions {#2a((1 2) (3 4))})
(vector {1} {2})
(basic-array*-p {#(1)})
(basic-array-p {#(1)})
(general-array*-p {#(1)})
(string-append {"a"} {"b"} {"c"})
(string-index {"b"} {"abc"} {1})
(char-index {#\b} {"abc"} {1})
(create-string {3} {#\a})
(string= {"a"} {"b"})
(string/= {"a"} {"b"})
(string< {"a"} {"b"})
(string<= {"a"} {"b"})
(string> {"a"} {"b"})
(string>= {"a"} {"b"})
(char= {#\a} {#\b})
(char/= {#\a} {#\b})
(char< {#\a} {#\b})
(char<= {#\a} {#\b})
(char> {#\a} {#\b})
(char>= {#\a} {#\b})
(convert {1.0} <integer>)
(convert {1} <float>)
(convert {1} <string>)
(convert {97} <character>)
(convert {"abc"} <symbol>)
(convert {"abc"} <list>)
(convert {'(#\a)} <string>)
(convert {#(1 2)} <list>)
(convert {'(1 2)} <general-vector>)
(convert 1 {<string>})
(convert "12" {<integer>})
(convert #\a {<integer>})
(gethash {1} {(c01ht)} {0})
(set-gethash {1} {2} {(c01ht)})
(setf (gethash {1} {(c01ht)}) {2})
(remhash {1} {(c01ht)})
(clrhash {(c01ht)})
(hash-table-count {(c01ht)})
(make-hash-table {:test} {#'eq})
(eq {1} {1})
(eql {1} {1})
(equal {1} {1})
(equalp {1} {1})
(not {1})
(functionp {1})
(funcall {#'list} {1} {2})
(apply {#'list} {1} {'(2 3)})
(apply {#'list} {'(2 3)})
(funcall {(lambda (x y) (list x y))} {1} {2})
((lambda (x &rest r) (list x r)) {1} {2})
(userfn {1} {2})
(usergen {1} {2})
(usermac {1})
(if {t} {1} {2})
(cond ({nil} {1}) ({t} {2}))
(case {1} ((1 2) {3}) (t {4}))
(case {1} ({(1 2)} 3) ({t} 4))
(case-using {#'=} {1} ((1 2) 3) (t 4))
(case-using {#'equal} {"a"} (({"a"}) 3) (t 4))
(when {t} {1})
(unless {nil} {1})
(and {1} {2})
(or {nil} {2})
(let ((x {1}) (y {2})) {x})
(let* ((x {1}) (y {x})) {y})
(let {((x 1))} {x})
(let* {((x 1))} {x})
(let ({(x 1)} {(y 2)}) 1)
(let* ({(x 1)} {(y 2)}) 1)
(flet ((f (x) {x})) (f {1}))
(flet ({(f (x) x)}) 1)
(flet {((f (x) x))} 1)
(labels ({(f (x) x)}) 1)
(labels ((f {(x)} x)) (f 1))
(labels ((f {(x &rest r)} x)) (f 1 2 3))
(setq {x} {1})
(let ((x 1)) (setq {x} {1}))
(let ((x 1) (y 2)) (psetq {x} {1} {y} {2}))
(progn {1} {2})
(prog1 {1} {2})
(prog2 {1} {2} {3})
(block {b} (return-from {b} {1}))
(block nil (return {1}))
(catch {'a} (throw {'a} {1}))
(tagbody {a} (if nil (go {a})) {b})
(unwind-protect {1} {2})
(unwind-protect {(car 1)} {(car 2)})
(while {nil} {1})
(for ((i {0} {(+ i 1)})) ({(> i 3)} {i}) {1})
(for {((i 0 (+ i 1)))} ((> i 3)) 1)
(for ({(i 0 (+ i 1))}) ({t} 1) {2})
(for ((i 0 (+ i 1))) {((> i 3) i)})
(dolist ({x} {'(1 2)} {x}) {x})
(dolist {(x '(1 2))} 1)
(dotimes {(i 3)} 1)
(dotimes ({i} 3 {i}) {i})
(dynamic {*dv*})
(set-dynamic {*dv*} {2})
(setf (dynamic {*dv*}) {2})
(set-dynamic {2} {*dv*})
(dynamic-let (({*dv*} {2})) {(dynamic *dv*)})
(dynamic-let ({(*dv* 2)}) 1)
(defdynamic {*dv2*} {1})
(defglobal {*gv2*} {1})
(defconstant {*cv2*} {1})
(progn (defun {f} {(x)} {x}) (f 1))
(progn (defun f {(x &rest r)} {r}) (f 1 2))
(progn (defmacro {m} {(x)} {x}) (m 1))
(progn (defmacro m {(x &rest r)} {(list 'quote r)}) (m 1 2))
(progn (defmacro m (x) {x}) (m {1}))
(macroexpand {'(usermac 1)})
(lambda {(x)} {x})
(function {car})
(quote {x})
(quasiquote {(a (unquote (+ 1 2)))})
(eval {'(+ 1 2)})
(load {"c01.tmp"})
(assure <integer> {1})
(assure {<integer>} 1)
(the {<integer>} {1})
(the <integer> {1})
(class {<integer>})
(class-of {1})
(instancep {1} {<integer>})
(subclassp {<integer>} {<number>})
(create {<ca>} {'sa} {1})
(create {<cb>} 'sa {1} 'sb {2})
(ca-sa {(create <ca>)})
(ca-sa-p {(create <ca>)})
(setf (ca-sa {(create <ca>)}) {1})
(cb-sb {(create <cb> 'sb 1)})
(set-cb-sb {1} {(create <cb>)})
(initialize-object {(create <ca>)} {(list 'sa 1)})
(defclass {<cc>} {(<ca>)} {((s :initarg s))})
(progn (defclass <cc> ({<ca>}) (({s} :initarg {s} :accessor {acc} :initform {1} :boundp {bp}))) (create <cc> 's {2}))
(defclass <cc> () ({(s :initarg s)}) {(:abstractp t)})
(defgeneric {gg} {(x)})
(defgeneric gg (x) {(:method ((x <integer>)) x)})
(progn (defgeneric gg {(x y)}) (defmethod gg {((x <integer>) (y <object>))} 1) (gg {1} {2}))
(progn (defgeneric gg {(x :rest r)}) (defmethod gg {((x <integer>) :rest r)} r) (gg {1} {2} {3}))
(progn (defgeneric gg (x &rest r)) (defmethod gg ((x {<integer>}) &rest r) {r}) (gg {1} {2} {3}))
(progn (defgeneric gg (x)) (defmethod gg (({x} {<integer>})) {x}) (gg {1}))
(progn (defgeneric gg (x)) (defmethod gg {:around} ((x <integer>)) 1) (gg {1}))
(generic-function-p {#'usergen})
(property {'a} {'b})
(property {'a} {'b} {'c})
(set-property {1} {'a} {'b})
(setf (property {'a} {'b}) {1})
(remove-property {'a} {'b})
(gensym)
(symbolp {'a})
(read {(c01str)} {nil} {'eof})
(read-char {(c01str)} {nil} {'eof})
(read-line {(c01str)} {nil} {'eof})
(create-string-input-stream {"abc"})
(get-output-stream-string {(c01out)})
(let ((s (create-string-output-stream))) (format s {"~a"} {1}) (get-output-stream-string s))
(let ((s {(create-string-output-stream)})) (format-object s {"x"} {t}) (get-output-stream-string s))
(let ((s {(create-string-output-stream)})) (format-integer s {255} {16}) (get-output-stream-string s))
(let ((s {(create-string-output-stream)})) (format-float s {1.5}) (get-output-stream-string s))
(let ((s {(create-string-output-stream)})) (format-char s {#\a}) (get-output-stream-string s))
(format nil {"~a ~s"} {1} {2})
(format nil "~d" {1})
(format nil "~x ~o ~b" {1} {2} {3})
(format nil "~c" {#\a})
(format nil "~e ~f ~g" {1.5} {2.5} {3.5})
(format nil "~5d|~-5d|~05d" {1} {2} {3})
(format nil "~5a|~3s|~8f|~8,2f" {1} {2} {3.5} {4.5})
(format nil "~36r ~2r" {5} {6})
(format {nil} "~%~~~&~5t~a" {1})
(open-input-file {"c01.tmp"})
(close {(open-input-file "c01.tmp")})
(open-output-file {"c01x.tmp"})
(close {(open-output-file "c01x.tmp")})
(with-open-input-file ({s} {"c01.tmp"}) {(read-line s nil 1)})
(with-open-output-file ({s} {"c01x.tmp"}) {(format s "a")})
(with-standard-input {(c01str)} {(read)})
(with-open-input-file {(s "c01.tmp")} 1)
(probe-file {"c01.tmp"})
(file-length {"c01.tmp"} {8})
(signal-condition {(c01cond)} {nil})
(with-handler {(lambda (c) (continue-condition c 5))} (+ 1 (cerror "go" "m")))
(with-handler (lambda (c) (continue-condition c {5})) (+ 1 (cerror "go" "m")))
(with-handler (lambda (c) (continue-condition {c} 5)) (cerror {"go ~a"} {"m ~a"} {1}))
(with-handler (lambda (c) {1}) {(car 1)})
(catch 'a (with-handler (lambda (c) (throw 'a {c})) (error {"m ~a"} {1})))
(catch 'a (with-handler {(lambda (c) (throw 'a 1))} (car 1)))
(catch 'a (with-handler (lambda (c) (throw 'a (report-condition {c} {(create-string-output-stream)}))) (car 1)))
(ignore-errors {(car 1)})
(report-condition {(c01cond)} {(create-string-output-stream)})
(report-condition {(c01cond2)} {(create-string-output-stream)})
(simple-error-format-string {(c01cond2)})
(simple-error-format-arguments {(c01cond2)})
(domain-error-object {(c01cond)})
(domain-error-expected-class {(c01cond)})
(undefined-entity-name {(c01cond3)})
(undefined-entity-namespace {(c01cond3)})
(arithmetic-error-operation {(c01cond4)})
(arithmetic-error-operands {(c01cond4)})
(continue-condition {(c01cond)} {1})
(error {"a ~a"} {1})
(cerror {"a ~a"} {"b ~a"} {1})
(get-universal-time)
(gmn:dump-session)
(=~ {"a(b)"} {"abab"})
(=~i {"a(b)"} {"aBab"})
(subst {1} {2} {'(1 2 (2 . 3))})
(wildcard {"*.tmp"})
(expand-defun {'f} {'(x)} {'x})
(expand-defun {f} {(x)} {x})
(abort)
(exit {1})
(quit {1})`), "\n")

// values which are unusual for any argument
var c01Odd = append([]string{
	"-2", "4", "8", "9", "15", "16", "17", "31", "32", "33", "35", "36", "37", "62", "63", "64", "65", "100", "127", "128", "255", "256", "-100", "0.0", "-1.5", "2.0", "1e300",
	"(list)", "(list 'a)", "'(nil)", "'(nil . nil)", "'(1 2 3 4 5 6 7 8 9)", "'((a 1) (b 2))", "'((nil . 1))", "'(1 (2 (3 (4))))", "#(nil)", "#(#(1) #(2))", "#2a(() ())", "#2a((nil))", "\"a\"", "\" \"", "\"\\n\"", "\"ß😀\"", "#\\space", "#\\(",
	"(lambda (x) (car x))", "(lambda (x y z) x)", "(lambda (x &rest r) r)", "#'cons", "#'not", "(create-string-output-stream)", "(class-of #'car)", "(class <function>)", "(class <class>)", "(class <standard-class>)", "(class <built-in-class>)", "(class <serious-condition>)", "(quote ())", "(progn)", "(values)", "x", "(x y)",
}, c01Atoms...)

// sizes of objects that could never be made: they are refused, not attempted
var c01Sizes = []string{"1099511627776", "4611686018427387904", "4611686018427387903", "9223372036854775807", "2305843009213693952", "1152921504606846976", "-9223372036854775808", "1e300", "4.0e18", "99999999999999999999999"}

var c01SizeCalls = []string{"(create-string %s)", "(create-string %s #\\a)", "(create-string %s #\\日)", "(create-array '(%s) 0)", "(create-array (list %s) 0)", "(create-array '(2 %s) 0)", "(create-array '(%s 2) 0)", "(create-array '(%s %s) 0)", "(create-array '(4294967296 4294967296) 0)", "(create-array '(4294967296 %s) 0)", "(create-array '(3037000500 3037000500 %s) 0)",
	"(elt \"abc\" %s)", "(elt '(1 2) %s)", "(elt #(1 2) %s)", "(nth %s '(1 2))", "(nthcdr %s '(1 2))", "(aref #(1 2) %s)", "(set-aref 1 (vector 1 2) %s)", "(aref #2a((1 2) (3 4)) %s 1)", "(aref #2a((1 2) (3 4)) 1 %s)", "(aref #2a((1 2) (3 4)) %s %s)", "(subseq \"abc\" %s 2)", "(subseq \"abc\" 1 %s)", "(subseq '(1 2) %s 2)", "(subseq '(1 2) 1 %s)", "(subseq #(1 2) 1 %s)", "(subseq #(1 2) %s %s)", "(char-index #\\a \"abc\" %s)", "(string-index \"a\" \"abc\" %s)", "(convert %s <character>)", "(format-integer (create-string-output-stream) %s 2)", "(format-integer (create-string-output-stream) 1 %s)", "(sqrt %s)", "(* %s %s)", "(- %s)", "(abs %s)", "(mod %s -1)", "(/ %s -1)", "(rem %s -1)", "(truncate %s)", "(floor %s)", "(round %s)", "(ceiling %s)", "(1+ %s)", "(1- %s)", "(set-elt 1 (list 1 2) %s)", "(let ((s \"abc\")) (setf (elt s %s) #\\a))", "(let ((s \"abc\")) (setf (subseq s %s 2) \"a\"))", "(let ((s \"abc\")) (setf (subseq s 1 %s) \"a\"))", "(let ((s (list 1 2))) (setf (nth %s s) 1))", "(file-length \"c01.tmp\" %s)", "(exit %s)", "(format nil \"~a\" (code-char %s))", "(convert %s <string>)", "(convert %s <float>)", "(convert %s <integer>)"}

var c01HoleRe = regexp.MustCompile(`\{`)

// c01Fill replaces the holes of a template; with says what goes into a hole ("" to leave it as it is).
func c01Fill(t string, with func(i int) string) string {
	var b strings.Builder
	n := 0
	for i := 0; i < len(t); i++ {
		if t[i] == '{' {
			d, j := 1, i+1
			for ; j < len(t); j++ {
				if t[j] == '{' {
					d++
				} else if t[j] == '}' {
					if d--; d == 0 {
						break
					}
				}
			}
			s := with(n)
			if s == "" {
				s = t[i+1 : j]
			}
			b.WriteString(s)
			n++
			i = j
			continue
		}
		b.WriteByte(t[i])
	}
	return b.String()
}

// c01Template sweeps one template: each hole in turn takes every unusual value.
func (c *Case) c01Template(t string) {
	holes := len(c01HoleRe.FindAllString(t, -1))
	_, w := c01World()
	if w == nil {
		return
	}
	n := 0
	fresh := func() {
		if n++; n%100 == 0 {
			_, w = c01World()
		}
	}
	try := func(src string) {
		if c.nfail == 0 {
			fresh()
			c.c01Check(w, src)
			c.Count("template-calls", 1)
		}
	}
	try(c01Fill(t, func(int) string { return "" }))
	for h := 0; h < holes; h++ {
		for _, v := range c01Odd {
			try(c01Fill(t, func(i int) string {
				if i == h {
					return v
				}
				return ""
			}))
		}
		for _, v := range c01Raw {
			try(c01Fill(t, func(i int) string {
				if i == h {
					return v
				}
				return ""
			}))
		}
		if h > 0 { // dropped, and doubled
			try(c01Fill(t, func(i int) string {
				if i == h {
					return " "
				}
				return ""
			}))
			try(c01Fill(t, func(i int) string {
				if i == h {
					return "1 2"
				}
				return ""
			}))
		}
	}
	if holes > 1 {
		for k := 0; k < 120; k++ {
			try(c01Fill(t, func(i int) string {
				if c.R.P(60) {
					return pick(c.R, c01Odd)
				}
				return ""
			}))
		}
	}
}

// c01Generic defines a generic function with methods of any shape and calls it with any number of
// arguments.
func (c *Case) c01Generic(w *gl.World) {
	types := []string{"<integer>", "<float>", "<number>", "<string>", "<symbol>", "<list>", "<cons>", "<null>", "<object>", "<ca>", "<cb>", "<function>", "<general-vector>", "<character>"}
	vals := []string{"1", "2.5", "\"s\"", "'a", "nil", "'(1 2)", "(create <ca>)", "(create <cb>)", "#'car", "#(1)", "#\\a", "t", "(c01ht)"}
	req := c.R.N(4)
	rest := c.R.P(50)
	restw := pick(c.R, []string{":rest", "&rest"})
	ll := ""
	for i := 0; i < req; i++ {
		ll += fmt.Sprintf("p%d ", i)
	}
	if rest {
		ll += restw + " r"
	}
	src := "(progn (defgeneric c01g (" + ll + "))"
	for k := c.R.N(4); k > 0; k-- {
		mreq := req
		if c.R.P(10) {
			mreq = c.R.N(4)
		}
		src += " (defmethod c01g ("
		for i := 0; i < mreq; i++ {
			switch c.R.N(4) {
			case 0:
				src += fmt.Sprintf("q%d ", i)
			default:
				src += fmt.Sprintf("(q%d %s) ", i, pick(c.R, types))
			}
		}
		mr := rest
		if c.R.P(10) {
			mr = !mr
		}
		if mr {
			if c.R.P(50) {
				src += restw + " r"
			} else {
				src += fmt.Sprintf("%s (r %s)", restw, pick(c.R, types))
			}
		}
		src += ") (list"
		for i := 0; i < mreq; i++ {
			src += fmt.Sprintf(" q%d", i)
		}
		if mr {
			src += " r"
		}
		src += "))"
	}
	c.c01Check(w, src+" 1)")
	for k := 0; k < 8; k++ {
		call := "(c01g"
		for n := c.R.N(6); n > 0; n-- {
			call += " " + pick(c.R, vals)
		}
		call += ")"
		if c.R.P(30) {
			call = "(apply #'c01g (list" + strings.TrimPrefix(call[:len(call)-1], "(c01g") + "))"
		}
		c.c01Check(w, call)
		c.Count("generic-calls", 1)
	}
}
