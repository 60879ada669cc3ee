package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// ---- an interactive session on a pseudo-terminal ----------------------------------------------

type session struct {
	cmd    *exec.Cmd
	pty    *os.File
	errf   *os.File // standard error of the process, a file
	seen   int64    // bytes of it already read
	buf    []byte   // what the terminal showed since the last Enter
	status int
	ended  bool
}

func ioctl(fd, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg); e != 0 {
		return e
	}
	return nil
}

func startSession(dir string, args ...string) *session {
	cli := os.Getenv("VMON_CLI")
	if cli == "" {
		bug("c29: VMON_CLI is not set")
	}
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC|syscall.O_NONBLOCK, 0)
	if err != nil {
		bug("c29: ptmx: %v", err)
	}
	m := os.NewFile(uintptr(fd), "ptmx") // non-blocking, so that deadlines work
	unlock, n := int32(0), uint32(0)
	if err := ioctl(uintptr(fd), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); err != nil {
		bug("c29: unlockpt: %v", err)
	}
	if err := ioctl(uintptr(fd), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); err != nil {
		bug("c29: ptsname: %v", err)
	}
	size := [4]uint16{60, 240, 0, 0}
	if err := ioctl(uintptr(fd), syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&size))); err != nil {
		bug("c29: window size: %v", err)
	}
	t, err := os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		bug("c29: pts: %v", err)
	}
	defer t.Close()
	s := &session{pty: m}
	s.errf, err = os.OpenFile(filepath.Join(dir, ".stderr"), os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0600)
	if err != nil {
		bug("c29: %v", err)
	}
	s.cmd = exec.Command(cli, args...)
	s.cmd.Dir = dir
	s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = t, t, s.errf
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	s.cmd.Env = []string{"TERM=xterm", "HOME=" + dir, "PATH=/usr/bin:/bin", "LANG=C.UTF-8"}
	if err := s.cmd.Start(); err != nil {
		bug("c29: %v", err)
	}
	return s
}

func (s *session) close() {
	if !s.ended {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.pty.Close()
	s.errf.Close()
}

var (
	rxAnsi = regexp.MustCompile("\x1b(\\[[0-9;?]*[A-Za-z]|[()][A-Za-z0-9]|[=>])")
	rxMore = regexp.MustCompile(`\r +[0-9]+> \x1b`)
	// the prompt and the editor waiting for a key; one drawn again by the editor follows a hidden cursor
	rxPrompt = regexp.MustCompile("(^|[^l]|[^5]l)gmnlisp> \x1b")
)

func atPrompt(b []byte) bool { return rxPrompt.Match(b) && bytes.HasSuffix(b, []byte("\x1b[s\x1b[u")) }

// send sends keys and waits for what done says, the end of the process or the time limit.
func (s *session) send(keys string, done func([]byte) bool) bool {
	s.buf = s.buf[:0]
	end := time.Now().Add(90 * time.Second)
	if keys != "" {
		s.pty.SetWriteDeadline(end)
		if _, err := s.pty.Write([]byte(keys)); err != nil {
			return false
		}
	}
	s.pty.SetReadDeadline(end)
	b := make([]byte, 65536)
	for !done(s.buf) {
		n, err := s.pty.Read(b)
		s.buf = append(s.buf, b[:n]...)
		if err != nil {
			if os.IsTimeout(err) {
				return false
			}
			// the process has gone (EIO)
			err := s.cmd.Wait()
			s.ended = true
			s.status = 0
			if err != nil {
				s.status = -1
				if ee, ok := err.(*exec.ExitError); ok {
					s.status = ee.ExitCode()
				}
			}
			return true
		}
	}
	return true
}

// shown is what the program wrote after the last key: the editor's own output ends with a restored cursor.
func (s *session) shown() string {
	b := s.buf
	if i := rxPrompt.FindIndex(b); i != nil {
		b = b[:i[1]-len("gmnlisp> \x1b")]
	}
	if i := bytes.LastIndex(b, []byte("\x1b[u")); i >= 0 {
		b = b[i+3:]
	}
	return strings.ReplaceAll(rxAnsi.ReplaceAllString(string(b), ""), "\r", "")
}

func (s *session) stderr() string {
	b, err := os.ReadFile(s.errf.Name())
	if err != nil {
		bug("c29: %v", err)
	}
	t := string(b[s.seen:])
	s.seen = int64(len(b))
	return t
}

// ---- texts with known effects -------------------------------------------------------------------

// replItem is a text to submit, what it writes, its value as shown, and for an error a part of the message.
type replItem struct {
	src, out, err, val string
	fails              bool
	msg                string
	quits              bool
	again              func() replItem // what the same text does when it is recalled and submitted again
}

type replModel struct {
	r      *Rng
	vars   map[string]int
	names  []string
	fns    map[string]string // function: the variable it reads
	fnames []string
	n      int
	dyn    int
	lines  int // calls of next in the closure
}

func (m *replModel) item() replItem {
	r := m.r
	m.n++
	n := m.n
	num := r.N(2000) - 1000
	sn := strconv.Itoa(num)
	text := pick(r, []string{"a", "hello world", "0", "é", "日本", "%", "x y", "-", "tail ", "a;b"})
	long := text // may go over several lines; only inside parentheses
	if r.P(40) {
		long = pick(r, []string{"a\nb", "1\n2\n3", "(\nx", ")\n)", "; x\ny", "\n", "((\n\n))", "(a\n 'b;\nc"})
	}
	if len(m.names) == 0 || r.P(12) {
		v := "g" + strconv.Itoa(n)
		m.vars[v] = num
		m.names = append(m.names, v)
		return replItem{src: "(defglobal " + v + " " + sn + ")", val: v}
	}
	v := pick(r, m.names)
	if len(m.fnames) == 0 || r.P(8) {
		f := "f" + strconv.Itoa(n)
		m.fns[f] = v
		m.fnames = append(m.fnames, f)
		return replItem{src: "(defun " + f + " (x) (list x " + v + "))", val: f}
	}
	f := pick(r, m.fnames)
	switch r.N(27) {
	case 0:
		return replItem{src: v, val: strconv.Itoa(m.vars[v])}
	case 1, 2:
		m.vars[v]++
		it := replItem{src: "(setq " + v + " (+ " + v + " 1))", val: strconv.Itoa(m.vars[v])}
		it.again = func() replItem { m.vars[v]++; it.val = strconv.Itoa(m.vars[v]); return it }
		return it
	case 3, 4:
		return replItem{src: "(" + f + " " + sn + ")", val: fmt.Sprintf("(%d %d)", num, m.vars[m.fns[f]])}
	case 5:
		it := replItem{src: `(format t "<~a>~%" "` + text + `")`, out: "<" + text + ">\n"}
		it.again = func() replItem { return it }
		return it
	case 6:
		return replItem{src: `(progn (format t "` + long + `") ` + sn + `)`, out: long, val: sn}
	case 7:
		return replItem{src: `(format (error-output) "` + long + `~%")`, err: long + "\n"}
	case 8:
		m.vars[v] += 2
		return replItem{src: "(progn (setq " + v + " (+ " + v + " 1)) (setq " + v + " (+ " + v + " 1)) nil)"}
	case 9:
		return replItem{src: pick(r, []string{"nil", "()", "", " ", "'()", "(if nil 1)", "; nothing here"})}
	case 10:
		return replItem{src: `"` + text + `"`, val: text}
	case 11:
		return replItem{src: "(list 1 2.5 'sym t nil)", val: "(1 2.5 sym t nil)"}
	case 12:
		return replItem{src: "(setq " + v + " " + sn + ") (" + f + " 1)", val: func() string {
			m.vars[v] = num
			return fmt.Sprintf("(1 %d)", m.vars[m.fns[f]])
		}()}
	case 13: // changes before the error stay, what is after it is not done
		m.vars[v] = num
		return replItem{src: "(setq " + v + " " + sn + ") (car 5) (setq " + v + " 0)", fails: true}
	case 14:
		return replItem{src: "(progn (format t \"" + long + "\") (undefined-function-x) (format t \"no\"))", out: long, fails: true, msg: "undefined-function-x"}
	case 15:
		return replItem{src: pick(r, []string{"(car 5)", "(throw 'nobody 1)", "(return-from nowhere 1)", "(go nowhere)", "(if)", "(elt '(1 2) -1)", "(let ((x 1)) (/ x 0))", "(assure <integer> 'x)", "(cerror \"a\" \"b\")", "(abort)", "(defmacro) (car 1)", "(labels ((f (n) (if (= n 0) (car n) (f (- n 1))))) (f 100))"}), fails: true}
	case 16:
		it := replItem{src: "(error \"message ~a\" " + sn + ")", fails: true, msg: "message " + sn}
		it.again = func() replItem { return it }
		return it
	case 17: // a dynamic binding ends with its form, an error inside or not
		old := m.dyn
		if r.P(50) {
			return replItem{src: "(dynamic-let ((*d* " + sn + ")) (car 5))", fails: true}
		}
		if r.P(50) {
			m.dyn = num
			return replItem{src: "(progn (set-dynamic " + sn + " *d*) (dynamic *d*))", val: sn}
		}
		return replItem{src: "(dynamic *d*)", val: strconv.Itoa(old)}
	case 18: // a handler ends with its form
		return replItem{src: "(with-handler (lambda (c) (format t \"H\")) (car 5))", out: "H", fails: true}
	case 19:
		return replItem{src: "(catch 'k (with-handler (lambda (c) (throw 'k " + sn + ")) (car 5)))", val: sn}
	case 20:
		mname := "m" + strconv.Itoa(n)
		return replItem{src: "(defmacro " + mname + " (x) `(list ,x ',x)) (" + mname + " (+ 1 2))", val: "(3 (+ 1 2))"}
	case 21:
		m.lines++
		it := replItem{src: "(next)", val: strconv.Itoa(m.lines)}
		it.again = func() replItem { m.lines++; it.val = strconv.Itoa(m.lines); return it }
		return it
	case 22:
		return replItem{src: "(unwind-protect (car 5) (setq " + v + " " + sn + "))", fails: true, val: func() string { m.vars[v] = num; return "" }()}
	case 23:
		return replItem{src: "(for ((i 0 (+ i 1))) ((= i 5) 'end) (format t \"~d,\" i))", out: "0,1,2,3,4,", val: "end"}
	case 24:
		return replItem{src: pick(r, []string{"'", "#", "`", "1 2 '", "(list 1) |abc", "\"open"}), fails: true}
	case 25:
		return replItem{src: "1 2 " + sn, val: sn}
	}
	return replItem{src: "(defun " + f + " (x) (list x " + v + "))", val: func() string { m.fns[f] = v; return f }()}
}

var replQuits = []replItem{{src: "(quit)"}, {src: "(exit)"}, {src: "(progn (format t \"bye\") (quit) (format t \"no\"))", out: "bye"}, {src: "(unwind-protect (quit) (format t \"c\"))", out: "c"}, {src: "1 (quit) (car 5)"}, {src: "(ignore-errors (quit))"}, {src: "(catch 'k (with-handler (lambda (c) (quit)) (car 5)))"}}

// splitKeys breaks a text into the lines to type: only inside parentheses, between tokens, so that
// the line before is not complete.
func splitKeys(r *Rng, src string) []string {
	if strings.ContainsAny(src, "|;#`") && !strings.Contains(src, "\n") || !strings.HasPrefix(src, "(") {
		return []string{src}
	}
	lines := []string{}
	depth, quoted, start := 0, false, 0
	for i, ch := range src {
		switch {
		case ch == '"':
			quoted = !quoted
		case ch == '\n':
			lines = append(lines, src[start:i])
			start = i + 1
		case quoted:
		case ch == '(':
			depth++
		case ch == ')':
			depth--
		case ch == ' ' && depth > 0 && r.P(20) && len(lines) < 6:
			l := src[start:i]
			if r.P(20) {
				l += " ; a note"
			}
			if r.P(10) {
				l += " "
			}
			lines = append(lines, l)
			start = i
			if r.P(70) {
				start++
			}
		}
	}
	return append(lines, src[start:])
}

func c29Run(c *Case) {
	r := c.R
	dir := filepath.Join(c.Dir, "repl")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0700); err != nil {
		bug("c29: %v", err)
	}
	defer os.RemoveAll(dir)
	s := startSession(dir)
	defer s.close()
	log := []string{}
	fail := func(kind, want, got string) {
		c.Fail(kind, strings.Join(log, "\n"), want, got)
	}
	prompt := atPrompt
	if !s.send("", prompt) || s.ended {
		fail("start", "a prompt", fmt.Sprintf("%q status %d", s.buf, s.status))
		return
	}
	s.stderr()
	m := &replModel{r: r, vars: map[string]int{}, fns: map[string]string{}, dyn: 7}
	items := []replItem{{src: "(let ((n 0)) (defun next () (setq n (+ n 1)) n)) (defdynamic *d* 7)", val: "*d*"}}
	var last replItem
	total := r.In(6, 16)
	for i := 0; i <= total; i++ {
		var it replItem
		recalled := false
		switch {
		case i < len(items):
			it = items[i]
		case i < total && last.again != nil && r.P(40):
			it = last.again()
			recalled = true
		case i == total:
			it = pick(r, replQuits)
			it.quits = true
		default:
			it = m.item()
		}
		lines := splitKeys(r, it.src)
		if recalled {
			lines = []string{""}
			log = append(log, ";; recalled: "+it.src)
			c.Count("recalled", 1)
			if !s.send("\x1b[A", func(b []byte) bool {
				return bytes.Contains(b, []byte("\r\rgmnlisp> ")) && bytes.HasSuffix(b, []byte("\x1b[s\x1b[u")) || bytes.HasSuffix(rxAnsi.ReplaceAll(b, nil), []byte(")"))
			}) || s.ended {
				fail("recall", "the text submitted before", fmt.Sprintf("%q", s.buf))
				return
			}
		}
		last = it
		for j, l := range lines {
			log = append(log, l)
			if j == len(lines)-1 {
				break
			}
			// not complete: another line is asked for and nothing is evaluated
			c.Count("line of an incomplete text", 1)
			if !s.send(l+"\r", func(b []byte) bool { return prompt(b) || rxMore.Match(b) && bytes.HasSuffix(b, []byte("\x1b[s\x1b[u")) }) || s.ended || prompt(s.buf) {
				fail("incomplete text", "a prompt for its next line", fmt.Sprintf("%q ended %v", s.shown(), s.ended))
				return
			}
		}
		// the editor asking for more, where the text is complete, is not what is waited for
		more := func(b []byte) bool { return rxMore.Match(b) && bytes.HasSuffix(b, []byte("\x1b[s\x1b[u")) }
		if !s.send(lines[len(lines)-1]+"\r", func(b []byte) bool { return prompt(b) || more(b) }) || !s.ended && !prompt(s.buf) {
			fail("no prompt", "the next prompt", fmt.Sprintf("%q", s.shown()))
			return
		}
		c.Eval()
		c.Count("text submitted", 1)
		got, gotErr := s.shown(), s.stderr()
		if it.quits {
			c.Count("quit", 1)
			if !s.ended || s.status != 0 || !strings.HasSuffix(strings.TrimRight(got, "\n"), it.out) || gotErr != "" {
				fail("quit", fmt.Sprintf("the end with status 0, %q", it.out), fmt.Sprintf("ended %v status %d %q %q", s.ended, s.status, got, gotErr))
			}
			break
		}
		if s.ended {
			fail("end", "another prompt", fmt.Sprintf("ended with status %d %q %q", s.status, got, gotErr))
			return
		}
		// what was shown: the output, then the value
		want := "\n" + it.out
		if it.val != "" && !it.fails {
			c.Count("value shown", 1)
			want += it.val + "\n"
		}
		if strings.TrimRight(got, "\n") != strings.TrimRight(want, "\n") {
			fail("shown", fmt.Sprintf("%q", want), fmt.Sprintf("%q", got))
			return
		}
		switch {
		case it.fails:
			c.Count("error", 1)
			if strings.TrimSpace(gotErr) == "" || !strings.Contains(gotErr, it.msg) {
				fail("error message", fmt.Sprintf("a message with %q", it.msg), fmt.Sprintf("%q", gotErr))
				return
			}
		case gotErr != it.err:
			fail("error output", fmt.Sprintf("%q", it.err), fmt.Sprintf("%q", gotErr))
			return
		}
	}
	c.Count("session", 1)
	in := strings.Join(log, "\n")
	c.Distinct(in)
	c.Sample(in)
}

func init() {
	register(&Prop{
		ID: "C29", Quick: 1600, Thorough: 40000, Run: c29Run,
		Rule:   "sessions of 6 to 16 texts typed at a pseudo-terminal, many over several lines: definitions and uses, assignments, output, nil, errors of all kinds after effects, bindings and handlers left by errors, unreadable texts, and a way of quitting; after each text what the terminal shows after the last key, the error output and the next prompt are compared with a model of the session; distinct by session",
		Need:   []string{"session", "text submitted", "line of an incomplete text", "value shown", "error", "quit", "recalled"},
		Assume: []string{"the line editor restores the cursor (ESC [ u) before the text is evaluated"},
	})
}
