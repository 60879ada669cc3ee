package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	gl "github.com/hymkor/gmnlisp"
)

// cliRun is one run of the command.
type cliRun struct {
	args   []string
	stdin  string
	dir    string
	sink   string // "": pipes; "file": files; "both": one file for both; "full": /dev/full; "slow": a reader which dawdles
	out    string
	err    string
	status int
	hung   bool
}

type slowWriter struct{ b bytes.Buffer }

func (s *slowWriter) Write(p []byte) (int, error) {
	time.Sleep(200 * time.Microsecond)
	if len(p) > 777 {
		p = p[:777]
	}
	return s.b.Write(p)
}

func (x *cliRun) run() {
	cli := os.Getenv("VMON_CLI")
	if cli == "" {
		bug("c26: VMON_CLI is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, cli, x.args...)
	cmd.Dir = x.dir
	cmd.Stdin = strings.NewReader(x.stdin)
	cmd.WaitDelay = 10 * time.Second
	var ob, eb bytes.Buffer
	var sw slowWriter
	var files []*os.File
	open := func(name string) *os.File {
		f, err := os.OpenFile(name, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0600)
		if err != nil {
			bug("c26: %v", err)
		}
		files = append(files, f)
		return f
	}
	cmd.Stdout, cmd.Stderr = &ob, &eb
	outName, errName := filepath.Join(x.dir, ".out"), filepath.Join(x.dir, ".err")
	switch x.sink {
	case "file":
		cmd.Stdout, cmd.Stderr = open(outName), open(errName)
	case "both":
		f := open(outName)
		cmd.Stdout, cmd.Stderr = f, f
	case "full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			bug("c26: %v", err)
		}
		files = append(files, f)
		cmd.Stdout = f
	case "slow":
		r, w, err := os.Pipe()
		if err != nil {
			bug("c26: %v", err)
		}
		cmd.Stdout = w
		done := make(chan bool)
		go func() {
			b := make([]byte, 777)
			for {
				n, err := r.Read(b)
				sw.b.Write(b[:n])
				if err != nil {
					break
				}
				time.Sleep(20 * time.Microsecond)
			}
			r.Close()
			close(done)
		}()
		err = cmd.Start()
		w.Close()
		if err == nil {
			err = cmd.Wait()
		}
		<-done
		x.finish(err)
		x.out, x.err = sw.b.String(), eb.String()
		x.hung = ctx.Err() != nil
		return
	}
	x.finish(cmd.Run())
	x.hung = ctx.Err() != nil
	for _, f := range files {
		f.Close()
	}
	x.out, x.err = ob.String(), eb.String()
	if x.sink == "file" || x.sink == "both" {
		b, _ := os.ReadFile(outName)
		x.out = string(b)
		os.Remove(outName)
		if x.sink == "file" {
			b, _ = os.ReadFile(errName)
			x.err = string(b)
			os.Remove(errName)
		}
	}
}

func (x *cliRun) finish(err error) {
	x.status = 0
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			if x.status = -1; !errors.Is(err, io.ErrShortWrite) {
				bug("c26: %v", err)
			}
			return
		}
		x.status = ee.ExitCode()
	}
}

// ---- scripts with known effects ------------------------------------------------------------

// cliItem is a form with what it writes.
type cliItem struct{ src, out, err string }

type cliFile struct{ name, text string }

type cliScript struct {
	r     *Rng
	items []cliItem
	files []cliFile
	args  []string
	stdin []string // lines
	nread int
	n     int
	crlf  bool
}

var cliTexts = []string{"a", "hello world", "0", "é日本語", "(", ")", ";", "|#", "#|", "'", "tab\there", "x ", " ", "%", "\U0001F600", "#!", "@"}

// lisp is the literal of s for format's control text.
func lispText(s string) string {
	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, "~", "~~").Replace(s)
}

func (s *cliScript) item() cliItem {
	r := s.r
	s.n++
	n := s.n
	t := pick(r, cliTexts)
	if r.P(2) {
		t = strings.Repeat(t, r.In(1000, 30000))
	}
	q := lispText(t)
	num := fmt.Sprint(r.N(2000) - 1000)
	switch r.N(26) {
	case 0:
		return cliItem{`(format t "` + q + `~%")`, t + "\n", ""}
	case 1:
		return cliItem{`(format t "` + q + `")`, t, ""}
	case 2:
		return cliItem{`(format (standard-output) "<~a>" "` + strings.ReplaceAll(q, "~~", "~") + `")`, "<" + t + ">", ""}
	case 3:
		return cliItem{`(format (error-output) "` + q + `~%")`, "", t + "\n"}
	case 4:
		return cliItem{`(format-char (standard-output) #\A)`, "A", ""}
	case 5:
		return cliItem{`(format-integer (standard-output) ` + num + ` 10)`, num, ""}
	case 6:
		return cliItem{fmt.Sprintf("(defun f%d (x) (format t \"f%d ~s~%%\" x) x) (f%d '(a \"b\" #\\c))", n, n, n), fmt.Sprintf("f%d (a \"b\" #\\c)\n", n), ""}
	case 7:
		return cliItem{fmt.Sprintf("(defglobal g%d (list %s 2)) (setf (car g%d) (+ 1 (car g%d))) (format t \"~s~%%\" g%d)", n, num, n, n, n), fmt.Sprintf("(%d 2)\n", atoi(num)+1), ""}
	case 8:
		return cliItem{`(let ((i 0)) (while (< i 5) (format t "~d," i) (setq i (+ i 1))))`, "0,1,2,3,4,", ""}
	case 9:
		return cliItem{`(catch 'k (with-handler (lambda (c) (format t "H~%") (throw 'k 1)) (car 5) (format t "no")))`, "H\n", ""}
	case 10:
		k := r.In(2000, 40000)
		return cliItem{fmt.Sprintf(`(for ((i 0 (+ i 1))) ((= i %d)) (format t "~d~%%" i))`, k), numLines(k), ""}
	case 11:
		name := fmt.Sprintf("f%d.txt", n)
		s.files = append(s.files, cliFile{name, t + "\n" + num})
		return cliItem{`(with-open-output-file (s "` + name + `") (format s "` + q + `~%~a" ` + num + `))`, "", ""}
	case 12:
		return cliItem{pick(r, []string{"(+ 1 2)", `"text"`, "'sym", "nil", "t", "3.5", "(list 1 2)", "#\\a", "(lambda (x) x)", "(create-string 3 #\\x)", "(defdynamic *d* 1)", "(defclass <c> () ())", "(defgeneric gg (x))", "(if nil 1)", "(catch 'a (throw 'a 5))"}), "", ""}
	case 13, 14:
		w := "()"
		if len(s.args) > 0 {
			w = "("
			for i, a := range s.args {
				if i > 0 {
					w += " "
				}
				w += `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(a) + `"`
			}
			w += ")"
		} else {
			w = "nil"
		}
		return cliItem{`(format t "~s~%" *posix-argv*)`, w + "\n", ""}
	case 15:
		out := fmt.Sprint(len(s.args)) + ":"
		for _, a := range s.args {
			out += "[" + a + "]"
		}
		return cliItem{`(format t "~d:" (length *posix-argv*)) (mapc (lambda (x) (format t "[~a]" x)) *posix-argv*)`, out, ""}
	case 16:
		if len(s.args) > 0 {
			i := r.N(len(s.args))
			return cliItem{fmt.Sprintf(`(format t "~a=~d;" (elt *posix-argv* %d) (length (elt *posix-argv* %d)))`, i, i), fmt.Sprintf("%s=%d;", s.args[i], len([]rune(s.args[i]))), ""}
		}
	case 17, 18:
		l := "eof"
		if s.nread < len(s.stdin) {
			l = s.stdin[s.nread]
			s.nread++
		}
		return cliItem{`(format t "<~a>" (read-line (standard-input) nil 'eof))`, "<" + l + ">", ""}
	case 19:
		return cliItem{`(unwind-protect (format t "body;") (format t "cleanup;"))`, "body;cleanup;", ""}
	case 20:
		return cliItem{fmt.Sprintf("(defmacro m%d (x) `(progn (format t \"m\") ,x)) (m%d (format t \"%s\"))", n, n, q), "m" + t, ""}
	case 21:
		if t := r.In(1, 9); true {
			return cliItem{fmt.Sprintf(`(command "sh" "-c" "echo run; exit 0") (command "printf" "%%s|" "a b" "%d")`, t), fmt.Sprintf("run\na b|%d|", t), ""}
		}
	case 22:
		return cliItem{`(format (error-output) "e1") (format t "o1") (format (error-output) "e2~%")`, "o1", "e1e2\n"}
	case 23:
		return cliItem{`(let ((s (create-string-output-stream))) (format s "hidden") (format t "~a!" (get-output-stream-string s)))`, "hidden!", ""}
	case 24:
		return cliItem{`(dynamic-let ((*x* 5)) (format t "~d" (dynamic *x*)))`, "5", ""}
	case 25:
		return cliItem{`(labels ((f (n) (if (> n 0) (progn (format t "~d" n) (f (- n 1)))))) (f 9))`, "987654321", ""}
	}
	return cliItem{`(format t ".")`, ".", ""}
}

var numLinesCache = map[int]string{}

func numLines(n int) string {
	if s, ok := numLinesCache[n]; ok {
		return s
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintln(&b, i)
	}
	return b.String()
}

// quits end the program; % is a form with effects.
var cliQuits = []cliItem{{"(quit)", "", ""}, {"(exit)", "", ""}, {"(progn (format t \"q\") (quit) (format t \"no\"))", "q", ""}, {"(defun qq () (quit)) (qq)", "", ""}, {"(unwind-protect (quit) (format t \"c\"))", "c", ""}, {"(ignore-errors (quit))", "", ""},
	{"(catch 'k (with-handler (lambda (c) (format t \"no\") (throw 'k 1)) (quit)))", "", ""}, {"(let ((x 1)) (dynamic-let ((*q* 1)) (quit)))", "", ""}, {"(mapc (lambda (x) (format t \"~d\" x) (if (= x 2) (quit))) '(1 2 3))", "12", ""}, {"(while t (quit))", "", ""}, {"(block b (tagbody (quit) a (go a)))", "", ""}, {"(catch 'k (with-handler (lambda (c) (quit)) (car 5)))", "", ""},
	{"(unwind-protect (car 5) (quit))", "", ""}, {"(labels ((f (n) (if (= n 0) (quit) (f (- n 1))))) (f 1000))", "", ""}, {"(apply #'quit nil)", "", ""}, {"(funcall (lambda () (exit)))", "", ""}, {"(defmacro mq () '(quit)) (mq)", "", ""}, {"(defmacro mq2 () (quit)) (mq2)", "", ""}, {"(cond ((quit) 1))", "", ""}, {"(+ 1 (quit))", "", ""}}

var cliErrors = []cliItem{{"(car 5)", "", ""}, {"undefined-variable-x", "", "undefined-variable-x"}, {"(undefined-function-x)", "", "undefined-function-x"}, {"(error \"my message ~a\" 42)", "", "my message 42"}, {"(throw 'nobody 1)", "", "nobody"}, {"(progn (format t \"p\") (car 5) (format t \"no\"))", "p", ""}, {"(defun ef () (car 5) (format t \"no\")) (ef)", "", ""}, {"(unwind-protect (car 5) (format t \"c\"))", "c", ""},
	{"(with-handler (lambda (c) (format t \"h\")) (car 5))", "h", ""}, {"(with-handler (lambda (c) (format t \"h\") (error \"in handler\")) (car 5))", "h", "in handler"}, {"(abort)", "", ""}, {"(let ((x 1)) (quotient x 0))", "", ""}, {"(elt '(1 2) -1)", "", ""}, {"(mapc (lambda (x) (format t \"~d\" x) (if (= x 2) (car x))) '(1 2 3))", "12", ""}, {"(cerror \"a\" \"cerror text\")", "", "cerror text"}, {"(create-array '(2) 0 5 5 5)", "", ""},
	{"(if)", "", ""}, {"(defmacro me () (car 5)) (me)", "", ""}, {"(read-line (create-string-input-stream \"\"))", "", ""}, {"(signal-condition (create (class <domain-error>) 'object 1 'expected-class (class <list>)) nil)", "", ""}, {"(open-input-file \"no-such-file.txt\")", "", "no-such-file.txt"}, {"(return-from nowhere 1)", "", ""}, {"(go nowhere)", "", ""}, {"(dynamic *nobody*)", "", ""}, {"(parse-number \"xyz\")", "", ""}, {"(command \"sh\" \"-c\" \"exit 3\")", "", ""}, {"(error \"multi~%line\")", "", "multi\nline"},
	{"(catch 'k (unwind-protect (throw 'k 1) (car 5)))", "", ""}, {"(assure <integer> \"x\")", "", ""}}

// unreadable ends of a script: nothing is said about what was executed before them.
var cliUnreadable = []string{"(", "\"abc", ")", "(car 'a", "'", "#(1", "(format t \"a\" ", "#|", "|abc", "`(a ,", "(quit"}

func (c *Case) c26Script() {
	r := c.R
	dir := filepath.Join(c.Dir, "cli")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0700); err != nil {
		bug("c26: %v", err)
	}
	defer os.RemoveAll(dir)
	s := &cliScript{r: r}
	for i := r.N(5); i > 0; i-- {
		s.args = append(s.args, pick(r, []string{"a", "", "b c", "-x", "--", "-e", "é日本", `q"q`, `b\b`, "-", "~a", "%", "1", "(car 5)", "'x", "*", "a\tb", "--help", "-h", "nil", "#t"}))
	}
	for i := r.N(4); i > 0; i-- {
		s.stdin = append(s.stdin, pick(r, []string{"line", "", "two words", "é", "(1 2)", "\"q\"", "x\ty", strings.Repeat("long ", 2000)}))
	}
	x := &cliRun{dir: dir}
	x.stdin = strings.Join(s.stdin, "\n")
	if len(s.stdin) > 0 && (s.stdin[len(s.stdin)-1] == "" || r.P(60)) {
		x.stdin += "\n"
	}
	exec := r.P(25) // -e
	s.crlf = r.P(20)
	nl := "\n"
	if s.crlf {
		nl = "\r\n"
	}
	text := ""
	sep := func() string {
		s := pick(r, []string{nl, " ", nl + nl, " ;; comment (car 5) \"" + nl, " #| (quit) \" |# ", nl + "\t", ""})
		if s == "" && !strings.HasSuffix(text, ")") {
			return " "
		}
		return s
	}
	out, errOut, status, errHas := "", "", 0, ""
	both := ""
	needs := ""
	for i := r.N(8); i > 0; i-- {
		it := s.item()
		if strings.Contains(it.src, "*x*") {
			it.src = "(defdynamic *x* 0)" + it.src
		}
		text += it.src
		text += sep()
		out += it.out
		errOut += it.err
		// the order of the two, for one file: the items write to one of them, apart from one
		if strings.HasPrefix(it.src, `(format (error-output) "e1")`) {
			both += "e1o1e2\n"
		} else {
			both += it.out + it.err
		}
	}
	files := append([]cliFile{}, s.files...)
	needs = "complete"
	switch r.W(40, 20, 30, 8) {
	case 1:
		it := pick(r, cliQuits)
		text += it.src
		text += sep()
		out += it.out
		both += it.out
		needs = "quit"
	case 2:
		it := pick(r, cliErrors)
		text += it.src
		text += sep()
		out += it.out
		both += it.out
		errHas = it.err
		status = 1
		needs = "error"
		if strings.Contains(it.src, "quit") {
			bug("c26")
		}
	case 3:
		needs = "unreadable"
	}
	if needs == "quit" || needs == "error" {
		for i := r.N(4); i > 0; i-- {
			text += s.item().src
			text += sep()
		}
		// files of the forms after the end must not exist
		for _, f := range s.files[len(files):] {
			defer func(name string) {
				if _, err := os.Stat(filepath.Join(dir, name)); err == nil {
					c.Fail("after the end", text, "no file "+name, "it exists")
				}
			}(f.name)
		}
	}
	if needs == "unreadable" {
		text += " " + pick(r, cliUnreadable)
	} else {
		text += pick(r, []string{"", "", nl, ";; end", " "})
	}
	c.Count("end: "+needs, 1)
	// the layout of the file
	body := text
	if !exec {
		switch r.W(55, 25, 10, 10) {
		case 1:
			text = pick(r, []string{"#!/usr/bin/env gmnlisp", "#!", "#! (car 5) \"", "#!/bin/sh )", "#!" + strings.Repeat("x", 5000), "#!" + strings.Repeat("(", 70000), "#!é \xff\xfe"}) + nl + text
			c.Count("#! line", 1)
		case 2:
			text = pick(r, []string{"@gmnlisp \"%~f0\" %*", "@", "@echo off & (car 5"}) + nl + text
			c.Count("@ line", 1)
		case 3:
			text = strings.Repeat(";; filler "+strings.Repeat("-", 60)+nl, r.In(1, 2000)) + text
		}
	}
	script := pick(r, []string{"script.lsp", "s", "with space.lsp", "é.lsp", "noext", "-dash", "sub/dir/x.lsp"})
	os.MkdirAll(filepath.Join(dir, "sub/dir"), 0700)
	if exec && text != "" && !strings.Contains(text, "\x00") && len(text) < 100000 {
		switch r.N(3) {
		case 0:
			x.args = []string{"-e", text}
		case 1:
			x.args = []string{"--e=" + text}
		case 2:
			x.args = []string{"-e=" + text}
		}
		x.args = append(x.args, "--")
		c.Count("-e", 1)
	} else {
		if err := os.WriteFile(filepath.Join(dir, script), []byte(text), 0600); err != nil {
			bug("c26: %v", err)
		}
		name := script
		switch r.N(4) {
		case 0:
			name = filepath.Join(dir, script)
		case 1:
			name = "./" + script
		case 2:
			if os.Symlink(script, filepath.Join(dir, "link.lsp")) == nil {
				name = "link.lsp"
			}
		}
		if strings.HasPrefix(name, "-") {
			x.args = []string{"--", name}
		} else {
			x.args = []string{name}
		}
		c.Count("script", 1)
	}
	x.args = append(x.args, s.args...)
	if !strings.Contains(body, "(command ") || out == "" { // the program run writes to the device by itself
		x.sink = pick(r, []string{"", "", "", "file", "both", "slow", "full"})
	} else {
		x.sink = pick(r, []string{"", "", "file", "both", "slow"})
	}
	if needs == "unreadable" && x.sink == "both" {
		x.sink = ""
	}
	c.Note(fmt.Sprintf("%q", x.args))
	x.run()
	c.Eval()
	c.Count("process", 1)
	c.Count("bytes of output", len(x.out))
	c.Count("sink "+x.sink, 1)
	lines := func(s string) string {
		if len(s) > 1500 {
			return s[:700] + " ... " + s[len(s)-700:]
		}
		return s
	}
	in := fmt.Sprintf(";; gmnlisp %s\n;; stdin %s, output to %q\n%s", lines(fmt.Sprintf("%q", x.args)), lines(fmt.Sprintf("%q", x.stdin)), x.sink, lines(text))
	got := fmt.Sprintf("status %d\nstdout %s\nstderr %s", x.status, lines(fmt.Sprintf("%q", x.out)), lines(fmt.Sprintf("%q", x.err)))
	fail := func(kind, want string) { c.Fail(kind, in, lines(want), got) }
	switch {
	case x.hung:
		fail("hung", "an end")
	case needs == "unreadable":
		if x.status == 0 || x.err == "" {
			fail("unreadable script", "a message and a non-zero status")
		}
	case x.sink == "full" && out != "":
		// what could not be delivered is reported
		if x.status == 0 || x.err == "" {
			fail("lost output", "a message and a non-zero status")
		}
		c.Count("lost output", 1)
	case x.sink == "both":
		if status == 0 && x.out != both || status != 0 && (!strings.HasPrefix(x.out, both) || len(x.out) == len(both) || !strings.Contains(x.out[len(both):], errHas)) {
			fail("output order", fmt.Sprintf("%q", both))
		} else if (x.status != 0) != (status != 0) {
			fail("exit status", fmt.Sprint(status))
		}
	default:
		if x.out != out && x.sink != "full" {
			fail("standard output", fmt.Sprintf("%q", out))
		} else if status == 0 && x.err != errOut || status != 0 && (!strings.HasPrefix(x.err, errOut) || len(x.err) == len(errOut) || !strings.Contains(x.err[len(errOut):], errHas)) {
			fail("error output", fmt.Sprintf("%q %q", errOut, errHas))
		} else if (x.status != 0) != (status != 0) {
			fail("exit status", fmt.Sprint(status))
		}
	}
	if needs != "unreadable" && (x.sink != "full" || out == "") {
		for _, f := range files {
			b, err := os.ReadFile(filepath.Join(dir, f.name))
			if err != nil || string(b) != f.text {
				fail("file", fmt.Sprintf("%s %q", f.name, f.text)+fmt.Sprintf(" not %q %v", b, err))
			}
			c.Count("file written", 1)
		}
	}
	c.Distinct(in + x.sink)
	c.Sample(in)
}

// c26Program runs a random program by the command and in this process.
func (c *Case) c26Program() {
	r := c.R
	g := newGen(r, featAll, r.In(30, 120))
	g.idioms = c01Idioms
	g.suffix = fmt.Sprintf("-p%d", c.Idx)
	forms := g.program(r.In(1, 4), r.In(2, 5))
	text := "(defun ev (&rest a) (mapc (lambda (x) (if (or (integerp x) (floatp x) (symbolp x) (stringp x) (characterp x)) (format t \"~s \" x) (format t \"# \"))) a) (format t \"~%\") (let ((v nil)) (mapc (lambda (x) (setq v x)) a) v)) (defun class-name* (c) (if (instancep c (class <error>)) 'an-error (class-of c)))\n" + srcs(forms) + "\n(format t \"end~%\")"
	in := newRef()
	in.Limit = 60000
	if in.Run(forms).Kind == "limit" { // it may be endless
		c.Count("discarded", 1)
		return
	}
	w := gl.New()
	var ob, eb bytes.Buffer
	w.SetStdout(&ob)
	w.SetErrout(&eb)
	o := interp(w, text)
	if o.Kind != "value" && o.Kind != "error" || strings.Contains(o.Full(), errFuel.Error()) {
		c.Count("discarded", 1)
		return
	}
	status := 0
	if o.Kind == "error" && !errors.Is(o.Err, gl.ErrQuit) {
		status = 1
	}
	dir := filepath.Join(c.Dir, "cli")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0700); err != nil {
		bug("c26: %v", err)
	}
	defer os.RemoveAll(dir)
	x := &cliRun{dir: dir}
	if r.P(30) {
		x.args = []string{"-e", text}
	} else {
		os.WriteFile(filepath.Join(dir, "p.lsp"), []byte(text), 0600)
		x.args = []string{"p.lsp"}
	}
	x.run()
	c.Eval()
	c.Count("program", 1)
	if x.hung || x.out != ob.String() || (x.status != 0) != (status != 0) || status == 0 && x.err != eb.String() || status != 0 && (!strings.HasPrefix(x.err, eb.String()) || len(x.err) == eb.Len()) {
		c.Fail("program", text, fmt.Sprintf("status %d\n%s\n%s", status, ob.String(), eb.String()), fmt.Sprintf("status %d\n%s\n%s", x.status, x.out, x.err))
	}
	c.Distinct(text)
}

// c26Bad: what can not be run.
func (c *Case) c26Bad() {
	r := c.R
	dir := filepath.Join(c.Dir, "cli")
	os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "d"), 0700)
	defer os.RemoveAll(dir)
	x := &cliRun{dir: dir}
	os.WriteFile(filepath.Join(dir, "empty.lsp"), nil, 0600)
	os.WriteFile(filepath.Join(dir, "one.lsp"), []byte("1"), 0600)
	os.WriteFile(filepath.Join(dir, "sharp.lsp"), []byte("#!x"), 0600)
	os.WriteFile(filepath.Join(dir, "at.lsp"), []byte("@"), 0600)
	os.WriteFile(filepath.Join(dir, "nl.lsp"), []byte("\n"), 0600)
	os.Symlink("nothing", filepath.Join(dir, "dangling"))
	t := pick(r, []struct {
		args   []string
		status int
	}{{[]string{"no-such.lsp"}, 1}, {[]string{"d"}, 1}, {[]string{"dangling"}, 1}, {[]string{"d/no"}, 1}, {[]string{"one.lsp/x"}, 1}, {[]string{"empty.lsp"}, 0}, {[]string{"one.lsp"}, 0}, {[]string{"sharp.lsp"}, 0}, {[]string{"at.lsp"}, 0}, {[]string{"nl.lsp", "a"}, 0}, {[]string{"-e", " "}, 0}, {[]string{"-e", ";; c"}, 0}, {[]string{"-no-such-flag"}, 1}, {[]string{"-e"}, 1}, {[]string{"-e", "(car 5)", "one.lsp"}, 1}, {[]string{"-e", "1", "no-such.lsp"}, 0}})
	x.args = t.args
	x.run()
	c.Eval()
	c.Count("edge", 1)
	if x.hung || (x.status != 0) != (t.status != 0) || x.out != "" || (x.err != "") != (t.status != 0) {
		c.Fail("edge", fmt.Sprintf("%q", t.args), fmt.Sprintf("status %d", t.status), fmt.Sprintf("status %d %q %q", x.status, x.out, x.err))
	}
	c.Distinct(fmt.Sprintf("%q", t.args))
}

func c26Run(c *Case) {
	switch c.R.W(70, 25, 5) {
	case 0:
		c.c26Script()
	case 1:
		c.c26Program()
	case 2:
		c.c26Bad()
	}
}

func init() {
	register(&Prop{
		ID: "C26", Quick: 8000, Thorough: 150000, Run: c26Run,
		Rule:   "scripts of forms with known effects (output of every kind, files, input, arguments, sub-processes), with every header line, line ending, comment and separator, ended by completion, quit, an error or an unreadable text, run by the built command as a file or with -e, to pipes, files, one common file, a slow reader and a full device; the output, error output, exit status and files must be those of the forms up to the end; random programs must do what they do under Interpret; distinct by script and arguments",
		Need:   []string{"process", "end: complete", "end: quit", "end: error", "end: unreadable", "#! line", "@ line", "-e", "script", "file written", "lost output", "sink both", "sink slow", "sink file", "program", "edge"},
		Assume: []string{"sh, printf and echo behave as POSIX says", "forms with known effects are those of other properties' monitors"},
	})
}
