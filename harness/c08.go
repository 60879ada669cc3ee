package main

import (
	"fmt"
	"strings"
)

// C08, the table part: what each kind of error tells its handler, which handlers see it, and
// whether it can be resumed.

// c08Slots are values of the wrong kind: nc no cons, nl no list, nn no number (nor character),
// ns no string, nch no character, nf no function, nv no array, nt no hash table, ng no class
// and i, j small integers, x anything.
var c08Slots = map[string][]string{
	"nc":  {"5", "\"x\"", "#\\a", "'a", "1.5", "(vector 1 2)", "nil", "\"\"", "0", "(make-hash-table)"},
	"nl":  {"5", "#\\a", "'a", "1.5", "(make-hash-table)"},
	"nn":  {"'a", "\"x\"", "nil", "'(1)", "(vector 1)", "\"12\"", "#'car", "t"},
	"ns":  {"5", "'a", "nil", "'(1)", "1.5", "(make-hash-table)", "'(#\\a)"},
	"nch": {"5", "'a", "nil", "'(1)", "1.5", "\"a\"", "\"\""},
	"mf":  {"5", "\"x\"", "nil", "#\\a", "1.5"},
	"no":  {"'a", "nil", "'(1)", "t", "(vector 1)"},
	"nf":  {"5", "\"x\"", "'(1)", "nil", "'car", "#\\a", "1.5"},
	"nv":  {"5", "'a", "nil", "'(1)", "1.5", "(make-hash-table)"},
	"nt":  {"5", "'a", "nil", "'(1)", "(vector 1)", "\"a\""},
	"ng":  {"5", "'a", "nil", "'(1)", "\"<integer>\"", "'<integer>"},
	"i":   {"0", "1", "-1", "7", "-123456789", "4611686018427387904"},
	"p":   {"1", "3", "77", "9007199254740993"},
	"m":   {"-1", "-2", "-3", "-100"},
	"b":   {"3", "4", "9", "1000000", "-1", "-2", "-4"},
	"z":   {"0", "0.0", "-0.0"},
	"x":   {"5", "\"x\"", "#\\a", "'a", "1.5", "nil", "'(1 2)", "(vector 1)", "(list \"q\" 2)", "(cons 1 2)"},
	"u":   {"nosuch", "no-such", "nosuch*", "zork", "carr", "<nosuch>", "listt"},
}

// c08Entry: a form with slots {kind}; its condition's class; the facts, as Lisp over c and the
// slot variables s1 s2 s3 (all must be true); and what resuming gives: the value for
// continue-condition and what the form is then, or nothing if it cannot be resumed.
type c08Entry struct{ form, class, facts, fit, val string }

func dom(obj, class string) string {
	return "(equal (domain-error-object c) " + obj + ") (eq (domain-error-expected-class c) (class " + class + "))"
}

func und(name, space string) string {
	return "(eq (undefined-entity-name c) '" + name + ") (eq (undefined-entity-namespace c) '" + space + ")"
}

func sim(f, a string) string {
	return "(equal (simple-error-format-string c) " + f + ") (equal (simple-error-format-arguments c) " + a + ")"
}

const (
	cDom   = "<domain-error>"
	cProg  = "<program-error>"
	cCtl   = "<control-error>"
	cUndef = "<undefined-function>"
	cUnb   = "<unbound-variable>"
	cSim   = "<simple-error>"
	cErr   = "<error>"
)

var c08Table = []c08Entry{
	{"(car {nc})", cDom, dom("s1", "<cons>"), "'(7)", "7"},
	{"(cdr {nc})", cDom, dom("s1", "<cons>"), "'(7 . 8)", ""},
	{"(set-car {x} {nc})", cDom, dom("s2", "<cons>"), "'(7)", ""},
	{"(set-cdr {x} {nc})", cDom, dom("s2", "<cons>"), "'(7)", ""},
	{"(setf (car {nc}) {x})", cDom, dom("s1", "<cons>"), "'(7)", ""},
	{"(+ {i} {nn})", cDom, dom("s2", "<integer>"), "'7", ""},
	{"(* {i} {nn})", cDom, dom("s2", "<integer>"), "'0", "0"},
	{"(- {i} {nn})", cDom, dom("s2", "<integer>"), "s1", "0"},
	{"(+ {i} {nn} {nn})", cDom, dom("s2", "<integer>"), "", "?"},
	{"(+ {no} {i})", cErr, "", "", ""},
	{"(- {no})", cErr, "", "", ""},
	{"(* {no} {i})", cErr, "", "", ""},
	{"(1+ {no})", cErr, "", "", ""},
	{"(/ {i} {z})", "<division-by-zero>", "(equal (arithmetic-error-operands c) (list s1 s2))", "'7", "7"},
	{"(mod {i} 0)", "<division-by-zero>", "(equal (arithmetic-error-operands c) (list s1 0))", "'(a)", "(a)"},
	{"(rem {i} 0)", "<division-by-zero>", "(equal (arithmetic-error-operands c) (list s1 0))", "\"s\"", "\"s\""},
	{"(mod {i} {nn})", cErr, "", "", ""},
	{"(rem {nn} {i})", cErr, "", "", ""},
	{"(sqrt {m})", cDom, dom("s1", "<number>"), "'7", "7"},
	{"(< {i} {nn})", cDom, dom("s2", "<integer>"), "", "?"},
	{"(floor {nn})", cErr, "", "", ""},
	{"(round {nn})", cErr, "", "", ""},
	{"(elt (vector 1 2 3) {b})", cErr, "", "", ""},
	{"(elt \"abc\" {b})", cErr, "", "", ""},
	{"(elt (list 1 2 3) {m})", cErr, "", "", ""},
	{"(elt (list 1 2 3) {nn})", cDom, dom("s1", "<integer>"), "'1", "2"},
	{"(elt (vector 1 2 3) {nn})", cDom, dom("s1", "<integer>"), "'1", "2"},
	{"(elt \"abc\" {nn})", cDom, dom("s1", "<integer>"), "'1", "#\\b"},
	{"(aref (vector 1 2 3) {b})", cErr, "", "", ""},
	{"(aref (create-array '(2 2) 0) 1 {b})", cErr, "", "", ""},
	{"(aref (create-array '(2 2) 0) {b} 1)", cErr, "", "", ""},
	{"(aref {nv} 0)", cDom, dom("s1", "<array>"), "", "?"},
	{"(aref (vector 1) 0 {i})", cProg, "", "", "?"},
	{"(set-aref {x} (vector 1 2) {b})", cDom, dom("s2", "<integer>"), "", ""},
	{"(create-array (list 2 {m}) {x})", cDom, dom("s1", "<integer>"), "", ""},
	{"(create-array (list {nn} 2) {x})", cDom, dom("s1", "<integer>"), "", "?"},
	{"(create-array '(100000000 100000000) {x})", "<storage-exhausted>", "", "", ""},
	{"(array-dimensions {nv})", cDom, dom("s1", "<array>"), "", "?"},
	{"(length {nl})", cDom, dom("s1", "<list>"), "'(a b c)", "3"},
	{"(mapcar {mf} '(1 2))", cDom, dom("s1", "<function>"), "(lambda (q) (* 2 q))", "(2 4)"},
	{"(mapc {mf} '(1 2))", cDom, dom("s1", "<function>"), "", "?"},
	{"(maplist {mf} '(1 2))", cDom, dom("s1", "<function>"), "", "?"},
	{"(funcall {nf} 4)", cDom, dom("s1", "<function>"), "(lambda (q) (* 2 q))", "8"},
	{"(apply {nf} '(4))", cDom, dom("s1", "<function>"), "(lambda (q) (* 2 q))", "8"},
	{"(apply #'list {nl})", cDom, dom("s1", "<list>"), "", "?"},
	{"(create-list {nn} 1)", cDom, dom("s1", "<integer>"), "'2", "(1 1)"},
	{"(assoc 1 (list {nl}))", cDom, dom("s1", "<cons>"), "", "?"},
	{"(string-append \"a\" {ns})", cDom, dom("s1", "<string>"), "\"b\"", "\"ab\""},
	{"(string-append {ns} \"a\")", cDom, dom("s1", "<string>"), "\"b\"", "\"ba\""},
	{"(string-append \"a\" {ns} \"c\")", cDom, dom("s1", "<string>"), "\"b\"", "\"abc\""},
	{"(string< \"a\" {ns})", cDom, dom("s1", "<string>"), "\"b\"", "t"},
	{"(string< {ns} \"a\")", cDom, dom("s1", "<string>"), "\"b\"", "nil"},
	{"(string= {ns} \"a\")", cDom, dom("s1", "<string>"), "\"a\"", "t"},
	{"(string= \"a\" {ns})", cDom, dom("s1", "<string>"), "\"a\"", "t"},
	{"(string/= \"a\" {ns})", cDom, dom("s1", "<string>"), "\"a\"", "nil"},
	{"(string>= \"a\" {ns})", cDom, dom("s1", "<string>"), "\"b\"", "nil"},
	{"(string<= {ns} \"a\")", cDom, dom("s1", "<string>"), "\"b\"", "nil"},
	{"(string> {ns} \"a\")", cDom, dom("s1", "<string>"), "\"b\"", "t"},
	{"(char< #\\a {nch})", cDom, dom("s1", "<character>"), "#\\b", "t"},
	{"(char= {nch} #\\a)", cDom, dom("s1", "<character>"), "#\\a", "t"},
	{"(char>= {nch} #\\a)", cDom, dom("s1", "<character>"), "#\\a", "t"},
	{"(char/= #\\a {nch})", cDom, dom("s1", "<character>"), "#\\a", "nil"},
	{"(char-index {nch} \"abc\")", cDom, dom("s1", "<character>"), "#\\c", "2"},
	{"(char-index #\\c {ns})", cDom, dom("s1", "<string>"), "\"abc\"", "2"},
	{"(string-index {ns} \"abc\")", cDom, dom("s1", "<string>"), "\"c\"", "2"},
	{"(string-index \"c\" {ns})", cDom, dom("s1", "<string>"), "\"abc\"", "2"},
	{"(string-index \"a\" \"ba\" {nn})", cDom, dom("s1", "<integer>"), "'0", "1"},
	{"(create-string {nn} #\\b)", cDom, dom("s1", "<integer>"), "'2", "\"bb\""},
	{"(create-string 2 {nch})", cDom, dom("s1", "<character>"), "#\\b", "\"bb\""},
	{"(create-string {m} #\\a)", cDom, dom("s1", "<integer>"), "", ""},
	{"(parse-number {ns})", cDom, dom("s1", "<string>"), "", "?"},
	{"(parse-number \"12x\")", "<parse-error>", "", "'12", "12"},
	{"(parse-number \"1e999\")", "<floating-point-overflow>", "(equal (arithmetic-error-operands c) '(\"1e999\")) (instancep c (class <arithmetic-error>))", "'12", "12"},
	{"(parse-number \"-17.25E+4000\")", "<floating-point-overflow>", "(equal (arithmetic-error-operands c) '(\"-17.25E+4000\"))", "'12", "12"},
	{"(read (create-string-input-stream \"1.0e999\"))", "<parse-error>", "", "'q", "q"},
	{"(car (list (read (create-string-input-stream \"7e4000 8\"))))", "<parse-error>", "", "'q", "q"},
	{"(convert \"12x\" <integer>)", "<parse-error>", "", "'12", "12"},
	{"(convert \"12x\" <float>)", "<parse-error>", "", "'12", "12"},
	{"(convert -1 <character>)", cDom, dom("-1", "<character>"), "#\\b", "#\\b"},
	{"(convert 'a <integer>)", cErr, "", "", ""},
	{"{u}", cUnb, und("s1", "variable"), "", ""},
	{"(list {x} {u})", cUnb, und("s2", "variable"), "", ""},
	{"({u} {x})", cUndef, und("s1", "function"), "", ""},
	{"({u})", cUndef, und("s1", "function"), "", ""},
	{"(function {u})", cUndef, und("s1", "function"), "", ""},
	{"(mapcar #'{u} '(1))", cUndef, und("s1", "function"), "", ""},
	{"(setq {u} {x})", cUnb, und("s1", "variable"), "", ""},
	{"(dynamic {u})", cUnb, und("s1", "variable"), "", ""},
	{"(class {u})", cUnb, und("s1", "variable"), "", ""},
	{"(setf ({u} 1) 2)", cErr, "", "", ""},
	{"(eval '{u})", cUnb, und("s1", "variable"), "", ""},
	{"(eval '({u} 1))", cUndef, und("s1", "function"), "", ""},
	{"(return-from {u} {x})", cCtl, "", "", ""},
	{"(go {u})", cCtl, "", "", ""},
	{"(throw '{u} {x})", cCtl, "", "", ""},
	{"(continue-condition (create <simple-error> 'format-string \"f\" 'format-arguments nil) {x})", cCtl, "", "", ""},
	{"(continue-condition {x} {x})", cCtl, "", "", ""},
	{"((lambda (x) x))", cProg, "", "", ""},
	{"((lambda (x) x) {x} {x})", cProg, "", "", ""},
	{"((lambda (x :rest y) x))", cProg, "", "", ""},
	{"(flet ((f (a b) a)) (f {x}))", cProg, "", "", ""},
	{"(labels ((f () 1)) (f {x}))", cProg, "", "", ""},
	{"(funcall (lambda (a b) a) {x})", cProg, "", "", ""},
	{"(apply (lambda (a b) a) (list {x} {x} {x}))", cProg, "", "", ""},
	{"(cons {x})", cProg, "", "", ""},
	{"(cons {x} {x} {x})", cProg, "", "", ""},
	{"(car)", cProg, "", "", ""},
	{"(car {x} {x})", cProg, "", "", ""},
	{"(elt '(1))", cProg, "", "", ""},
	{"(mod {i})", cProg, "", "", ""},
	{"(symbolp)", cProg, "", "", ""},
	{"(char-index #\\a)", cProg, "", "", ""},
	{"(string-append* {x})", cUndef, und("string-append*", "function"), "", ""},
	{"(c08-f {x})", cProg, "", "", ""},
	{"(c08-f {x} {x} {x})", cProg, "", "", ""},
	{"(c08-g 'a {i})", cUndef, und("c08-g", "function"), "", ""},
	{"(c08-g {i} \"s\")", cUndef, und("c08-g", "function"), "", ""},
	{"(c08-r {nn})", cUndef, und("c08-r", "function"), "", ""},
	{"(c08-a {x})", cUndef, und("c08-a", "function"), "", ""},
	{"(setf (c08-a {x}) {x})", cUndef, "", "", ""},
	{"(create {ng})", cDom, dom("s1", "<class>"), "", "?"},
	{"(assure <integer> {nn})", cDom, dom("s1", "<integer>"), "", ""},
	{"(the <integer> {nn})", cDom, dom("s1", "<integer>"), "", ""},
	{"(assure <string> {ns})", cDom, dom("s1", "<string>"), "", ""},
	{"(assure <c08-c> {x})", cDom, dom("s1", "<c08-c>"), "", ""},
	{"(gethash {x} {nt})", cDom, dom("s2", "<hashtable>"), "", "?"},
	{"(set-gethash {x} {x} {nt})", cDom, dom("s3", "<hashtable>"), "", "?"},
	{"(remhash {x} {nt})", cDom, dom("s2", "<hashtable>"), "", "?"},
	{"(clrhash {nt})", cDom, dom("s1", "<hashtable>"), "", "?"},
	{"(hash-table-count {nt})", cDom, dom("s1", "<hashtable>"), "", "?"},
	{"(error \"x ~a ~a\" {x} {x})", cSim, sim("\"x ~a ~a\"", "(list s1 s2)"), "", ""},
	{"(error \"x\")", cSim, sim("\"x\"", "nil"), "", ""},
	{"(error (string-append \"x\" \" ~s\") {x})", cSim, sim("\"x ~s\"", "(list s1)"), "", ""},
	{"(cerror \"go ~a\" \"x ~a\" {x})", cSim, sim("\"x ~a\"", "(list s1)"), "'(r)", "(r)"},
	{"(cerror \"go\" \"x\")", cSim, sim("\"x\"", "nil"), "nil", "nil"},
	{"(cerror \"go ~a ~a\" \"x ~a ~a\" {x} {x})", cSim, sim("\"x ~a ~a\"", "(list s1 s2)"), "t", "t"},
	{"(signal-condition (create (class <simple-error>) 'format-string \"f ~a\" 'format-arguments (list {x})) nil)", cSim, sim("\"f ~a\"", "(list s1)"), "", ""},
	{"(signal-condition (create (class <simple-error>) 'format-string \"f ~a\" 'format-arguments (list {x} {x})) t)", cSim, sim("\"f ~a\"", "(list s1 s2)"), "'(r)", "(r)"},
	{"(signal-condition (create (class <c08-c>)) nil)", "<c08-c>", "(equal (c08-r c) 12)", "", ""},
	{"(signal-condition (create (class <c08-c>) 'r {x}) t)", "<c08-c>", "(equal (c08-r c) s1)", "'(r)", "(r)"},
	{"(signal-condition (create (class <c08-e>) 'r {x}) t)", "<c08-e>", "(equal (c08-er c) s1)", "'9", "9"},
	{"(read-char (create-string-input-stream \"\"))", "<end-of-stream>", "", "'q", "q"},
	{"(read-line (create-string-input-stream \"\"))", "<end-of-stream>", "", "'q", "q"},
	{"(read (create-string-input-stream \" \"))", "<end-of-stream>", "", "'q", "q"},
	{"(open-input-file \"/no/such/dir/file\")", cErr, "", "", ""},
	{"(load \"/no/such/dir/file.lsp\")", cErr, "", "", ""},
	{"(format nil \"~a\")", cErr, "", "", ""},
	{"(format nil \"~d\" {nn})", cErr, "", "", ""},
	{"(format nil {ns})", cDom, dom("s1", "<string>"), "\"zz\"", "\"zz\""},
	{"(format-integer c08-s {i} {nn})", cDom, dom("s2", "<integer>"), "", "?"},
	{"(format-char c08-s {nch})", cDom, dom("s1", "<character>"), "", "?"},
	{"(format-integer c08-s {nn} 10)", cErr, "", "", "?"},
	{"(create-string-input-stream {ns})", cDom, dom("s1", "<string>"), "", "?"},
	{"(probe-file {ns})", cDom, dom("s1", "<string>"), "", "?"},
	{"(property '{u} 'nosuch)", cSim, "", "", ""},
	{"(domain-error-object {x})", cDom, "(equal (domain-error-object c) s1)", "", "?"},
	{"(dotimes (i {nn}) 1)", cDom, dom("s1", "<integer>"), "", "?"},
	{"(subseq \"abc\" {nn} 1)", cDom, dom("s1", "<integer>"), "'0", "\"a\""},
	{"(subseq \"abc\" 0 {nn})", cDom, dom("s1", "<integer>"), "'1", "\"a\""},
	{"(subseq '(a b c) {nn} 2)", cDom, dom("s1", "<integer>"), "'1", "(b)"},
	{"(nth {nn} '(1 2))", cDom, dom("s1", "<integer>"), "'1", "2"},
	{"(setf (aref {nv} 0) {x})", cDom, dom("s1", "<array>"), "", "?"},
	{"(setf (dynamic *nosuch-c08*) (car {nc}))", cDom, dom("s1", "<cons>"), "", "?"},
	{"(let ((a (car {nc}))) a)", cDom, dom("s1", "<cons>"), "'(7)", "7"},
	{"(cond ((car {nc}) 'yes) (t 'no))", cDom, dom("s1", "<cons>"), "'(7)", "yes"},
	{"(if (cdr {nc}) 1 2)", cDom, dom("s1", "<cons>"), "'(7)", "2"},
	{"(unwind-protect (car {nc}) (c08-f 1 2))", cDom, dom("s1", "<cons>"), "'(7)", "7"},
	{"(case (car {nc}) ((7) 'seven) (t 'no))", cDom, dom("s1", "<cons>"), "'(7)", "seven"},
	{"(c08-f (car {nc}) 1)", cDom, dom("s1", "<cons>"), "'(7)", "7"},
	{"(c08-m (car {nc}))", cDom, dom("s1", "<cons>"), "'(7)", "(7)"},
	{"(c08-g 1 (car {nc}))", cDom, dom("s1", "<cons>"), "'(7)", "(1 7)"},
	{"`(1 ,(car {nc}))", cDom, dom("s1", "<cons>"), "'(7)", "(1 7)"},
	{"(dynamic-let ((*c08* (car {nc}))) (dynamic *c08*))", cDom, dom("s1", "<cons>"), "'(7)", "7"},
	{"(with-standard-input (create-string-input-stream \"q\") (car {nc}) (read))", cDom, dom("s1", "<cons>"), "'(7)", "q"},
	{"(catch (car {nc}) (throw 7 3))", cDom, dom("s1", "<cons>"), "'(7)", "3"},
	{"(eval '(car {nc}))", cDom, "(eq (domain-error-expected-class c) (class <cons>))", "'(7)", "7"},
	{"(funcall #'car {nc})", cDom, dom("s1", "<cons>"), "'(7)", "7"},
	{"(mapcar #'car (list {nc} '(2)))", cDom, dom("s1", "<cons>"), "'(7)", "(7 2)"},
	{"((lambda () (c08-bad 5)))", cDom, dom("5", "<cons>"), "'(7)", "7"},
	{"((lambda () 1 (c08-nest 5)))", cDom, dom("5", "<cons>"), "'(7)", "7"},
	{"(apply #'car (list {nc}))", cDom, dom("s1", "<cons>"), "'(7)", "7"},
	{"(for ((q 0 (+ q 1))) ((= q 1) (car {nc})))", cDom, dom("s1", "<cons>"), "'(7)", "7"},
	{"(let ((q nil)) (while (not q) (setq q (list (car {nc})))) q)", cDom, dom("s1", "<cons>"), "'(7)", "(7)"},
}

const c08Prelude = `(defun c08-f (a b) a) (defmacro c08-m (x) (list 'list x)) (defgeneric c08-g (a b)) (defmethod c08-g ((a <integer>) (b <integer>)) (list a b)) (defdynamic *c08* 0) (defglobal c08-s (create-string-output-stream))
(defclass <c08-c> () ((r :reader c08-r :accessor c08-a :initarg r :initform 12)))
(defclass <c08-e> (<error>) ((r :reader c08-er :initarg r :initform 12)))
(defmacro c08-bad (x) (car x)) (defmacro c08-nest (x) (list 'c08-bad x))
(defgeneric c08-q (x)) (defmethod c08-q ((x <object>)) x)`

// contexts a failing form runs in; % is the form, whose value is the context's
var c08Ctx = []string{"%", "%", "(let ((zz 1)) %)", "(funcall (lambda () %))", "(car (mapcar (lambda (zz) %) '(1)))", "(flet ((zz () %)) (zz))", "(labels ((zz (n) (if (= n 0) % (zz (- n 1))))) (zz 3))", "(block zz %)", "(catch 'zz %)",
	"(unwind-protect % (car '(1)))", "(progn 1 %)", "(dynamic-let ((*c08* 1)) %)", "(car (list %))", "(cond (nil 1) (t %))", "(c08-q %)", "(let ((zz nil)) (setq zz %) zz)", "(car (c08-m %))", "(with-standard-input (create-string-input-stream \"q\") %)",
	"(with-open-output-file (zz \"/dev/null\") %)", "(elt (vector %) 0)", "(catch 'zz2 (with-handler (lambda (zz) (throw 'zz2 1)) 1) %)", "(progn (ignore-errors (car 1)) %)", "(progn (catch (quote zz4) (with-handler (lambda (zz) (throw (quote zz4) 1)) (car 1))) %)", "(progn (catch 'zz3 (with-handler (lambda (zz) (throw 'zz3 1)) (car 1))) %)", "(block nil (dotimes (zz 1) (return-from nil %)))", "(progn (lambda () (c08-bad 5)) %)", "(progn (defun c08-unused () 1 (c08-nest 5) 2) %)", "(flet ((zz () (c08-bad 5))) %)", "(labels ((zz (n) (c08-bad n) (c08-m))) %)", "(prog1 % 1)", "(and 1 %)", "(or nil %)", "(when t %)"}

func (c *Case) c08Row() {
	r := c.R
	m := newMon()
	if o := m.Run(c08Prelude); o.Kind != "value" {
		c.Fail("definitions", c08Prelude, "a value", o.Full())
		return
	}
	for k := 0; k < 6; k++ {
		e := c08Table[(c.Idx*6+k)%len(c08Table)]
		if r.P(30) {
			e = pick(r, c08Table)
		}
		c.c08One(m, e)
	}
}

func (c *Case) c08One(m *Mon, e c08Entry) {
	r := c.R
	// fill the slots
	form, facts, binds := "", e.facts, ""
	n := 0
	for rest := e.form; ; {
		i := strings.IndexByte(rest, '{')
		if i < 0 {
			form += rest
			break
		}
		j := strings.IndexByte(rest, '}')
		kind := rest[i+1 : j]
		form += rest[:i]
		rest = rest[j+1:]
		n++
		v := pick(r, c08Slots[kind])
		s := fmt.Sprintf("s%d", n)
		switch {
		case kind == "u":
			v = fmt.Sprintf("%s%d", v, r.N(3))
			form += v
			facts = strings.ReplaceAll(facts, "'"+s, "'"+v)
		case strings.HasPrefix(e.form, "(eval"):
			form += v
		default:
			binds += fmt.Sprintf("(%s %s) ", s, v)
			form += s
		}
	}
	ctx := "%"
	for d := r.N(3); d > 0; d-- {
		ctx = strings.Replace(ctx, "%", pick(r, c08Ctx), 1)
	}
	body := strings.Replace(ctx, "%", form, 1)
	told := fmt.Sprintf("(list (instancep c (class <object>)) (instancep c (class %s)) %s)", e.class, facts)
	want := "(t t"
	for d, i := 0, 0; i < len(facts); i++ {
		switch facts[i] {
		case '(':
			if d == 0 {
				want += " t"
			}
			d++
		case ')':
			d--
		}
	}
	want += ")"
	var src, exp string
	run := func(inner string) string {
		return fmt.Sprintf("(let (%s(n 0) (m 0)) (let ((v (catch 'c08 (with-handler (lambda (c) (setq m (+ m 1)) (throw 'c08 (list 'outer %%OUT%%))) (with-handler (lambda (c) (setq n (+ n 1)) %s) %s))))) (list v n m)))", binds, inner, body)
	}
	mode := r.N(6)
	switch mode {
	case 0: // the innermost handler, once, with the facts
		src, exp = run("(throw 'c08 "+told+")"), fmt.Sprintf("(%s 1 0)", want)
	case 1: // it returns: the next one, with the same facts
		src, exp = run("nil"), fmt.Sprintf("((outer %s) 1 1)", want)
	case 2: // an error in the handler goes to the outer one
		src = run("(car 'zz)")
		src = strings.Replace(src, "%OUT%", "(domain-error-object c)", 1)
		exp = "((outer zz) 1 1)"
	case 3: // continue
		fit := e.fit
		if fit == "" {
			fit = "'q"
		}
		switch {
		case e.fit == "" && e.val == "?" || e.fit != "" && e.val == "":
			return
		case e.fit == "":
			src = strings.Replace(run("(continue-condition c "+fit+")"), "%OUT%", "(instancep c (class <control-error>))", 1)
			exp = "((outer t) 1 1)"
		default:
			src, exp = run("(continue-condition c "+fit+")"), fmt.Sprintf("(%s 1 0)", e.val)
		}
	case 4: // the same condition, again, from the handler: to the outer one
		src, exp = run("(signal-condition c nil)"), fmt.Sprintf("((outer %s) 1 1)", want)
	case 5: // nobody takes it: out to the caller, each handler having seen it once
		m.Take()
		src = fmt.Sprintf("(let (%s) (with-handler (lambda (c) (ev 'outer %s)) (with-handler (lambda (c) (ev 'inner %s)) %s)))", binds, told, told, body)
		o := m.Run(src)
		c.Eval()
		c.Count("table.declined", 1)
		w := "'\"inner\" " + want + ";'\"outer\" " + want
		evs := strings.Join(m.Take(), ";")
		if o.Kind != "error" || evs != w {
			c.Fail("declined", src, w+" and an error", evs+" => "+o.Full())
		}
		c.Distinct(src)
		return
	}
	src = strings.Replace(src, "%OUT%", told, 1)
	o := m.Run(src)
	c.Eval()
	c.Count("table."+[]string{"taken", "passed-on", "handler-error", "resumed", "resignalled"}[mode], 1)
	c.Note(src)
	c.Distinct(src)
	w := m.Run("'" + exp)
	if o.Kind != "value" || o.Val != w.Val {
		c.Fail("table-"+[]string{"taken", "passed-on", "handler-error", "resumed", "resignalled"}[mode], src, exp, o.Full())
		return
	}
	// the handlers are gone afterwards
	if o := m.Run("(ignore-errors (car 1))"); o.Val != "nil" {
		c.Fail("handler-left-over", src, "nil", o.Full())
	}
}
