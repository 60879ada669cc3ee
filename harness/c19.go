package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	gl "github.com/hymkor/gmnlisp"
)

// ---- a model of input ---------------------------------------------------------------

// sIn is an input stream: its whole content and the position reached.
type sIn struct {
	expr string
	text string
	pos  int
	kind string
	// limit is where reading fails (a fault), or -1
	limit  int
	sticky bool
	hit    bool
}

const sWords = "abcdwxz日é"

// sContent makes text of words, numbers, lists and strings, in lines ended in several ways.
func sContent(r *Rng, size int) string {
	var b strings.Builder
	word := func() string {
		var w strings.Builder
		if r.P(30) {
			return strconv.Itoa(r.N(10000))
		}
		rs := []rune(sWords)
		for n := r.In(1, 6); n > 0; n-- {
			w.WriteRune(pick(r, rs))
		}
		return w.String()
	}
	var datum func(depth int)
	datum = func(depth int) {
		switch {
		case depth > 0 && r.P(25):
			b.WriteByte('(')
			for n := r.N(4); n > 0; n-- {
				datum(depth - 1)
				b.WriteString(pick(r, []string{" ", " ", "\n", "  ", ""}))
				if s := b.String(); s[len(s)-1] != ' ' && s[len(s)-1] != '\n' && s[len(s)-1] != ')' && s[len(s)-1] != '"' {
					b.WriteByte(' ')
				}
			}
			b.WriteByte(')')
		case r.P(20):
			b.WriteByte('"')
			for n := r.N(3); n > 0; n-- {
				b.WriteString(word())
				b.WriteString(pick(r, []string{" ", "\n", "(", ")", ""}))
			}
			b.WriteByte('"')
			if depth > 0 || r.P(50) {
				b.WriteByte(' ')
			}
		default:
			b.WriteString(word())
		}
	}
	oneLine, long := r.P(8), r.P(2) // all in one line, a line longer than any buffer
	for b.Len() < size {
		datum(2)
		if oneLine {
			b.WriteByte(' ')
			continue
		}
		if long && r.P(10) {
			b.WriteString(strings.Repeat("wß", r.In(2000, 36000)))
		}
		b.WriteString(pick(r, []string{" ", " ", "\n", "\n", "\r\n", "\n\n", "  ", "\t", "\n\r\n"}))
	}
	s := b.String()
	switch r.N(4) {
	case 0:
		s = strings.TrimRight(s, " \n\r\t")
	case 1:
		s += "last"
	case 2:
		s += "\n"
	}
	return s
}

// inString tells whether position p lies inside a string of the text.
func inString(s string, p int) bool { return strings.Count(s[:p], `"`)%2 == 1 }

var errModelEOF = errors.New("end of stream")
var errModelBad = errors.New("malformed")
var errModelFault = errors.New("fault")

// need moves over the text up to position p, or to the fault.
func (s *sIn) need(p int) bool {
	if s.limit >= 0 && p > s.limit {
		s.pos = s.limit
		s.hit = true
		return false
	}
	s.pos = p
	return true
}

// atEnd: the position is at the end of the text, and reading there reports it (or the fault).
func (s *sIn) end() error {
	if s.limit >= 0 {
		s.pos = s.limit
		s.hit = true
		return errModelFault
	}
	s.pos = len(s.text)
	return errModelEOF
}

func (s *sIn) readChar() (rune, error) {
	if s.pos >= len(s.text) || s.limit >= 0 && s.pos >= s.limit {
		return 0, s.end()
	}
	c, n := utf8.DecodeRuneInString(s.text[s.pos:])
	s.pos += n
	return c, nil
}

func (s *sIn) readLine() (string, error) {
	lim := len(s.text)
	if s.limit >= 0 {
		lim = s.limit
	}
	if s.pos >= lim {
		return "", s.end()
	}
	i := strings.IndexByte(s.text[s.pos:lim], '\n')
	if i < 0 {
		if s.limit >= 0 {
			return "", s.end()
		}
		l := s.text[s.pos:]
		s.pos = len(s.text)
		return l, nil
	}
	l := s.text[s.pos : s.pos+i]
	s.pos += i + 1
	return strings.TrimSuffix(l, "\r"), nil
}

// read gives the canonical form of the next datum.
func (s *sIn) read() (string, error) {
	lim := len(s.text)
	if s.limit >= 0 {
		lim = s.limit
	}
	for s.pos < lim && strings.IndexByte(" \t\r\n", s.text[s.pos]) >= 0 {
		s.pos++
	}
	if s.pos >= lim {
		return "", s.end()
	}
	switch s.text[s.pos] {
	case ')':
		s.pos++
		return "", errModelBad
	case '(':
		s.pos++
		parts := []string{}
		for {
			for s.pos < lim && strings.IndexByte(" \t\r\n", s.text[s.pos]) >= 0 {
				s.pos++
			}
			if s.pos < lim && s.text[s.pos] == ')' {
				s.pos++
				if len(parts) == 0 {
					return "nil", nil
				}
				return "(" + strings.Join(parts, " ") + ")", nil
			}
			d, err := s.read()
			if err == errModelEOF {
				err = errModelBad
			}
			if err != nil {
				return "", err
			}
			parts = append(parts, d)
		}
	case '"':
		i := strings.IndexByte(s.text[s.pos+1:lim], '"')
		if i < 0 {
			err := s.end()
			if err == errModelEOF {
				err = errModelBad
			}
			return "", err
		}
		t := s.text[s.pos+1 : s.pos+1+i]
		s.pos += i + 2
		return strconv.QuoteToASCII(t), nil
	}
	i := s.pos
	for i < lim && strings.IndexByte(" \t\r\n()\"", s.text[i]) < 0 {
		i++
	}
	if i == lim && s.limit >= 0 {
		return "", s.end()
	}
	w := s.text[s.pos:i]
	s.pos = i
	if w == "t" {
		return "t", nil
	}
	if n, err := strconv.Atoi(w); err == nil {
		return strconv.Itoa(n), nil
	}
	return "'" + strconv.QuoteToASCII(w), nil
}

// readOp makes one reading operation and the outcome it must have; ctl is the way end of stream is asked for.
func (h *hist) readOp(s *sIn, std bool) (src, want, name string) {
	r := h.R
	var val string
	var err error
	op := r.W(40, 35, 25)
	if op == 2 && inString(s.text, s.pos) {
		op = 0
	}
	switch op {
	case 0:
		var c rune
		c, err = s.readChar()
		val, name = canonChar(c), "read-char"
	case 1:
		// a line that begins in a string is delivered as it is
		var l string
		l, err = s.readLine()
		val, name = strconv.QuoteToASCII(l), "read-line"
	case 2:
		val, err = s.read()
		name = "read"
	}
	arg := s.expr
	if std && r.P(50) {
		arg = "(standard-input)"
	} else if std {
		arg = ""
	}
	eof, eofv := "", "ERROR <end-of-stream>"
	if arg != "" {
		switch r.W(25, 15, 10, 15, 35) {
		case 1:
			eof = " t"
		case 2:
			eof = " 'x 5"
		case 3:
			eof, eofv = " nil", "nil"
		case 4:
			eof, eofv = " nil 'the-end", `'"the-end"`
		}
	}
	src = "(" + name
	if arg != "" {
		src += " " + arg
	}
	src += eof + ")"
	switch err {
	case nil:
		return src, val, name
	case errModelEOF:
		return src, eofv, "end of stream"
	case errModelFault:
		return src, "FAULT", "fault"
	}
	return src, "ERROR", "malformed datum"
}

func c19Read(c *Case) {
	h := newHist(c)
	r := c.R
	dir := c.Dir
	size := r.N(120)
	if r.P(6) {
		size = r.In(3000, 14000)
	}
	n := r.In(1, 3)
	ins := []*sIn{}
	src := ""
	for i := 0; i < n; i++ {
		s := &sIn{expr: "i" + strconv.Itoa(i), text: sContent(r, size), limit: -1}
		q := gl.String(s.text).GoString()
		if r.P(50) {
			fn := filepath.Join(dir, "in"+strconv.Itoa(i))
			if err := os.WriteFile(fn, []byte(s.text), 0o600); err != nil {
				bug("%v", err)
			}
			s.kind = "file"
			src += fmt.Sprintf("(defglobal %s (open-input-file %s))", s.expr, gl.String(fn).GoString())
		} else {
			s.kind = "string"
			if len(s.text) > 2000 {
				s.text = s.text[:0] + strings.ToValidUTF8(s.text[:2000], "")
				q = gl.String(s.text).GoString()
			}
			src += fmt.Sprintf("(defglobal %s (create-string-input-stream %s))", s.expr, q)
		}
		ins = append(ins, s)
	}
	if r.P(30) {
		ins = append(ins, ins[0]) // the same stream more often, and under another name
		src += "(defglobal again i0)"
	}
	src += "(defun skip (s n) (let ((x nil)) (while (> n 0) (setq x (read-char s nil 'the-end)) (setq n (- n 1))) x))"
	if !h.run("make", src) {
		return
	}
	steps := 25
	if size > 1000 {
		steps = 60
	}
	for k := 0; k < steps && !h.dead; k++ {
		s := pick(r, ins)
		h.Count("on a "+s.kind+" stream", 1)
		if size > 1000 && r.P(20) {
			// up to the neighbourhood of a buffer's end
			n := r.In(1, 300)
			if r.P(50) {
				n = 4096 - s.pos%4096 - 3
			}
			var last rune
			var err error
			for j := 0; j < n; j++ {
				last, err = s.readChar()
			}
			w := canonChar(last)
			if err != nil {
				w = `'"the-end"`
			}
			if n > 0 {
				h.is("skip", fmt.Sprintf("(skip %s %d)", s.expr, n), w)
			}
			continue
		}
		switch r.W(70, 15, 15) {
		case 0:
			src, want, name := h.readOp(s, false)
			h.is(name, src, want)
		case 1:
			src, want, name := h.readOp(s, true)
			h.is(name, "(with-standard-input "+s.expr+" "+src+")", want)
			h.Count("with-standard-input", 1)
		case 2:
			// several operations in one form, perhaps left by an escape
			var ops, wants []string
			esc := ""
			for j := r.In(2, 4); j > 0; j-- {
				src, want, _ := h.readOp(s, true)
				if strings.HasPrefix(want, "ERROR") {
					esc = want
					ops = append(ops, src)
					break
				}
				ops = append(ops, src)
				wants = append(wants, want)
			}
			want := "(" + strings.Join(wants, " ") + ")"
			if esc != "" {
				want = esc
			}
			form := "(with-standard-input " + s.expr + " (list " + strings.Join(ops, " ") + "))"
			switch r.N(3) {
			case 1:
				form = "(catch 'k (with-standard-input " + s.expr + " (throw 'k (list " + strings.Join(ops, " ") + "))))"
			case 2:
				form = "(block b (with-standard-input " + s.expr + " (return-from b (list " + strings.Join(ops, " ") + "))))"
			}
			h.is("several in a form", form, want)
			// standard input is what it was
			if r.P(50) && !h.dead {
				t := pick(r, ins)
				src, w, _ := h.readOp(t, true)
				u := pick(r, ins)
				src2, w2, _ := "", "", ""
				if u != t {
					src2, w2, _ = h.readOp(u, true)
				}
				if src2 == "" || strings.HasPrefix(w, "ERROR") || strings.HasPrefix(w2, "ERROR") {
					if strings.HasPrefix(w, "ERROR") || src2 == "" {
						h.is("nested", "(with-standard-input "+t.expr+" "+src+")", w)
						if src2 != "" {
							h.is("nested", "(with-standard-input "+u.expr+" "+src2+")", w2)
						}
					} else {
						h.is("nested", "(with-standard-input "+t.expr+" (list (ignore-errors (with-standard-input "+u.expr+" "+src2+")) "+src+"))", "(nil "+w+")")
					}
				} else {
					h.is("nested", "(with-standard-input "+t.expr+" (list (with-standard-input "+u.expr+" "+src2+") "+src+"))", "("+w2+" "+w+")")
				}
			}
		}
	}
	// everything that is left
	for _, s := range ins {
		if h.dead {
			break
		}
		if !inString(s.text, s.pos) {
			h.is("rest", "(let ((r nil) (x nil)) (while (not (eq (setq x (read-line "+s.expr+" nil 'the-end)) 'the-end)) (setq r (cons x r))) (reverse r))", s.rest())
		} else {
			h.is("rest", "(let ((r nil) (x nil)) (while (setq x (read-char "+s.expr+" nil)) (setq r (cons x r))) (reverse r))", s.restChars())
		}
		h.is("end of stream", "(catch 'e (with-handler (lambda (c) (throw 'e (instancep c (class <end-of-stream>)))) (read-char "+s.expr+")))", "t")
	}
	for i := 0; i < n && !h.dead; i++ {
		if ins[i].kind == "file" {
			h.run("close", "(close "+ins[i].expr+")")
		}
	}
	c19Fds(h, dir)
	h.done()
}

func listOf(parts []string) string {
	if len(parts) == 0 {
		return "nil"
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (s *sIn) rest() string {
	parts := []string{}
	for {
		l, err := s.readLine()
		if err != nil {
			return listOf(parts)
		}
		parts = append(parts, strconv.QuoteToASCII(l))
	}
}

func (s *sIn) restChars() string {
	parts := []string{}
	for {
		c, err := s.readChar()
		if err != nil {
			return listOf(parts)
		}
		parts = append(parts, canonChar(c))
	}
}

// openFiles lists the descriptors of this process on files of the directory.
func openFiles(dir string) []string {
	fds, _ := os.ReadDir("/proc/self/fd")
	r := []string{}
	for _, e := range fds {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && (strings.HasPrefix(t, dir+"/") || t == "/dev/full") {
			r = append(r, t)
		}
	}
	return r
}

func c19Fds(h *hist, dir string) {
	if h.dead {
		return
	}
	h.Count("descriptors looked at", 1)
	if l := openFiles(dir); len(l) > 0 {
		h.Fail("descriptor", h.text(), "no file left open", strings.Join(l, " "))
		h.dead = true
	}
}

// ---- output and the ways to leave a form ------------------------------------------------

// exit wraps a body in a way of leaving it: the wrapper, the exit to be the last form inside, and what the whole
// is ("" any value).
type exitWay struct{ pre, exit, post, want string }

var exitWays = []exitWay{
	{"", "7", "", "7"},
	{"(catch 'k ", "(throw 'k 1)", ")", "1"},
	{"(block b ", "(return-from b 2)", ")", "2"},
	{"(block b (catch 'k ", "(return-from b 3)", "))", "3"},
	{"(let ((n 0)) (tagbody again (if (= n 0) (progn (setq n 1) ", "(go done)", ")) (setq n 99) done) n)", "1"},
	{"(ignore-errors ", "(car 5)", ")", "nil"},
	{"(catch 'k (with-handler (lambda (c) (throw 'k 4)) ", "(error \"oops ~a\" 1)", "))", "4"},
	{"", "(car 5)", "", "ERROR <domain-error>"},
	{"", "(undefined-function-1)", "", "ERROR <undefined-function>"},
	{"", "(throw 'nobody 1)", "", "ERROR <control-error>"},
	{"(let ((u 0)) (ignore-errors (unwind-protect ", "(error \"e\")", " (setq u 5))) u)", "5"},
	{"(catch 'k (unwind-protect ", "(throw 'k 6)", " 1))", "6"},
	{"", "(quit)", "", "ERROR quit"},
	{"", "(while t nil)", "", "ERROR fuel"},
	{"(with-handler (lambda (c) (continue-condition c 8)) ", "(cerror \"go on\" \"bad\")", ")", ""},
	{"(funcall (lambda () ", "(let ((x 1)) 9)", "))", "9"},
}

func c19Write(c *Case) {
	h := newHist(c)
	r := c.R
	dir := c.Dir
	file := func(i int) string { return filepath.Join(dir, "out"+strconv.Itoa(i)) }
	for i := 0; i < 3; i++ {
		os.Remove(file(i))
	}
	type out struct {
		name, fn, text string
		open           bool
	}
	outs := []*out{}
	src := ""
	for i := 0; i < 3; i++ {
		o := &out{name: "o" + strconv.Itoa(i), fn: file(i)}
		outs = append(outs, o)
		src += "(defglobal " + o.name + " nil)"
	}
	src += "(defun emit (s f :rest r) (apply #'format s f r))"
	if !h.run("make", src) {
		return
	}
	chunk := func() (string, string) { // forms writing to %s, and the text
		switch r.W(50, 20, 10, 12, 8) {
		case 1:
			n := r.In(1, 40)
			return fmt.Sprintf("(let ((i 0)) (while (< i %d) (format %%s \"~d,\" i) (setq i (+ i 1))))", n), func() string {
				s := ""
				for i := 0; i < n; i++ {
					s += strconv.Itoa(i) + ","
				}
				return s
			}()
		case 2:
			n := r.In(1, 12000)
			return fmt.Sprintf("(format %%s (create-string %d #\\q))", n), strings.Repeat("q", n)
		case 3:
			return `(emit %s "~a~%" "日本")`, "日本\n"
		case 4:
			n := r.In(1, 3000)
			return fmt.Sprintf("(let ((i 0)) (while (< i %d) (format-char %%s #\\é) (setq i (+ i 1))))", n), strings.Repeat("é", n)
		}
		n := r.N(100000)
		return fmt.Sprintf("(format %%s \"<~d>~%%\" %d)", n), fmt.Sprintf("<%d>\n", n)
	}
	check := func(o *out, when string) {
		if h.dead {
			return
		}
		b, err := os.ReadFile(o.fn)
		if err != nil || string(b) != o.text {
			h.dead = true
			w, g := around(strconv.Quote(o.text), strconv.Quote(string(b)))
			h.Fail("lost or changed", h.text()+"\n;; "+filepath.Base(o.fn)+" "+when, w, fmt.Sprint(g, " ", err))
			return
		}
		h.Count("files compared", 1)
	}
	strText, strWritten := "", false
	h.run("make", "(defglobal so (create-string-output-stream))")
	for k := 0; k < 12 && !h.dead; k++ {
		o := pick(r, outs)
		switch {
		case r.P(20): // a string stream, its text taken once
			if !strWritten || r.P(60) {
				f, t := chunk()
				f = strings.ReplaceAll(f, "%s", "so")
				if r.P(30) {
					w := pick(r, exitWays)
					if w.want != "ERROR fuel" {
						h.m.Run(w.pre + f + " " + w.exit + w.post)
						h.log = append(h.log, w.pre+f+" "+w.exit+w.post)
					} else {
						h.run("write", f)
					}
				} else {
					h.run("write", f)
				}
				strText += t
				strWritten = true
				continue
			}
			switch r.N(3) {
			case 0:
				h.is("string stream", "(get-output-stream-string so)", strconv.QuoteToASCII(strText))
			case 1:
				h.is("string stream", "(let ((s (get-output-stream-string so))) (list (stringp s) (length s)))", fmt.Sprintf("(t %d)", len([]rune(strText))))
			case 2:
				in := &sIn{text: strText, limit: -1}
				h.is("string stream", "(let ((s (create-string-input-stream (get-output-stream-string so))) (r nil) (x nil)) (while (not (eq (setq x (read-line s nil 'the-end)) 'the-end)) (setq r (cons x r))) (reverse r))", in.rest())
			}
			h.Count("string streams compared", 1)
			h.run("make", "(setq so (create-string-output-stream))")
			strText, strWritten = "", false
		case r.P(35):
			// a form that opens and is left somehow
			if o.open {
				continue
			}
			w := pick(r, exitWays)
			body := ""
			text := ""
			for j := r.N(4); j > 0; j-- {
				f, t := chunk()
				body += strings.ReplaceAll(f, "%s", "s") + " "
				text += t
			}
			o.text = text
			extra := w.exit
			if w.exit == "(while t nil)" {
				extra = `(let ((n 0)) (while t (ev n) (format s "~d;" n) (setq n (+ n 1))))`
				if r.P(50) {
					body, text = "", ""
				}
			}
			opened := "(with-open-output-file (s " + gl.String(o.fn).GoString() + ") " + body + extra + ")"
			other := pick(r, outs)
			inner := ""
			if other != o && !other.open && r.P(40) {
				// and another file inside or around, or the one just written is read
				f, t := chunk()
				other.text = t
				inner = other.name
				opened = "(with-open-output-file (s2 " + gl.String(other.fn).GoString() + ") " + strings.ReplaceAll(f, "%s", "s2") + " " + opened + ")"
			}
			form := w.pre + opened + w.post
			h.log = append(h.log, form)
			h.m.Take()
			fuel := int64(defaultFuel)
			if w.want == "ERROR fuel" {
				fuel = int64(r.In(20, 3000))
			}
			for _, e := range []*out{o, other} {
				if e == o || inner != "" {
					os.Remove(e.fn)
				}
			}
			res := interpFuel(h.m.W, form, fuel)
			h.Eval()
			h.Count("form left by "+w.exit, 1)
			if w.want != "" && res.String() != w.want {
				h.dead = true
				h.Fail("result", h.text(), w.want, res.Full())
				return
			}
			if w.want == "ERROR fuel" {
				// the loop wrote every number whose turn had come (the last one may have been cut off)
				evs := h.m.Take()
				b, err := os.ReadFile(o.fn)
				if err != nil && len(evs) == 0 {
					o.text = ""
					os.WriteFile(o.fn, nil, 0o600)
				}
				full := ""
				for i := 0; i < len(evs)-1; i++ {
					full += strconv.Itoa(i) + ";"
				}
				if len(evs) > 0 {
					last := full + strconv.Itoa(len(evs)-1) + ";"
					o.text = text + full
					if string(b) == text+last {
						o.text = text + last
					}
				} else {
					// cut off before the loop: a prefix of what was to be written
					if !strings.HasPrefix(text, string(b)) {
						o.text = text
					} else {
						o.text = string(b)
					}
				}
				if inner != "" {
					b, _ := os.ReadFile(other.fn)
					if strings.HasPrefix(other.text, string(b)) && len(evs) == 0 {
						other.text = string(b)
						os.WriteFile(other.fn, b, 0o600)
					}
				}
			}
			check(o, "after the form was left")
			if inner != "" {
				check(other, "after the form was left")
			}
			nOpen := 0
			for _, x := range outs {
				if x.open {
					nOpen++
				}
			}
			if l := openFiles(dir); len(l) != nOpen && !h.dead {
				h.dead = true
				h.Fail("descriptor", h.text(), fmt.Sprint(nOpen, " files open"), strings.Join(l, " "))
			}
			h.Count("descriptors looked at", 1)
		case !o.open:
			h.run("open", "(setq "+o.name+" (open-output-file "+gl.String(o.fn).GoString()+"))")
			o.open, o.text = true, ""
		case r.P(25):
			h.is("close", "(close "+o.name+")", "nil")
			o.open = false
			check(o, "after close")
			if r.P(40) {
				h.is("close again", "(close "+o.name+")", "nil")
			}
			if r.P(40) {
				h.is("write after close", "(format "+o.name+" "+pick(r, []string{`"x"`, `"~a" 5`, `"~%"`, `"~5d" 3`})+")", "ERROR")
				check(o, "after a write to the closed stream")
			}
			if r.P(60) && !h.dead {
				// read back what was written
				in := &sIn{text: o.text, limit: -1}
				h.is("read back", "(with-open-input-file (s "+gl.String(o.fn).GoString()+") (let ((r nil) (x nil)) (while (not (eq (setq x (read-line s nil 'the-end)) 'the-end)) (setq r (cons x r))) (reverse r)))", in.rest())
			}
		default:
			f, t := chunk()
			h.run("write", strings.ReplaceAll(f, "%s", o.name))
			o.text += t
		}
	}
	for _, o := range outs {
		if o.open && !h.dead {
			h.is("close", "(close "+o.name+")", "nil")
			check(o, "after close")
		}
	}
	c19Fds(h, dir)
	h.done()
}

// ---- faults -------------------------------------------------------------------------------

var errInjected = errors.New("injected fault")

// faultWriter accepts so many bytes, then fails once or for ever.
type faultWriter struct {
	b      []byte
	left   int
	sticky bool
	failed bool
	fails  int
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.failed && !f.sticky {
		f.b = append(f.b, p...)
		return len(p), nil
	}
	if len(p) <= f.left {
		f.left -= len(p)
		f.b = append(f.b, p...)
		return len(p), nil
	}
	n := f.left
	f.b = append(f.b, p[:n]...)
	f.left = 0
	f.failed = true
	f.fails++
	return n, errInjected
}

// faultNode is a host's own output stream.
type faultNode struct{ *faultWriter }

func (faultNode) ClassOf() gl.Class                        { return gl.Integer(0).ClassOf() }
func (faultNode) String() string                           { return "(faultNode)" }
func (f faultNode) Equals(n gl.Node, _ gl.EqlMode) bool    { return gl.Node(f) == n }
func (f *faultReader) ClassOf() gl.Class                   { return gl.Integer(0).ClassOf() }
func (f *faultReader) String() string                      { return "(faultReader)" }
func (f *faultReader) Equals(n gl.Node, _ gl.EqlMode) bool { return gl.Node(f) == n }

// faultReader is a host's own input stream.
type faultReader struct{ *bufio.Reader }

type faultBytes struct {
	s      string
	limit  int
	pos    int
	sticky bool
	once   bool
	r      *Rng
}

func (f *faultBytes) Read(p []byte) (int, error) {
	lim := len(f.s)
	if f.limit >= 0 && (!f.once || f.sticky) {
		lim = f.limit
		if f.pos >= lim {
			f.once = true
			return 0, errInjected
		}
	}
	if f.pos >= lim {
		return 0, io.EOF
	}
	n := min(len(p), lim-f.pos)
	if f.r.P(60) {
		n = min(n, 1+f.r.N(7))
	}
	copy(p, f.s[f.pos:f.pos+n])
	f.pos += n
	return n, nil
}

func c19FaultOut(c *Case) {
	h := newHist(c)
	r := c.R
	fw := &faultWriter{left: r.N(120), sticky: r.P(50)}
	host := faultNode{fw}
	dest := "t"
	switch r.N(3) {
	case 0:
		h.m.W.SetStdout(fw)
		dest = pick(r, []string{"t", "(standard-output)"})
	case 1:
		h.m.W.SetErrout(fw)
		dest = "(error-output)"
	case 2:
		h.m.W = h.m.W.Let(gl.Variables{gl.NewSymbol("host-stream"): host})
		dest = "host-stream"
	}
	d := &fdest{exprs: []string{dest}}
	d.get = func() (string, bool) { return string(fw.b), true }
	for k := 0; k < 14 && !h.dead; k++ {
		// what a stream like this remembers of its line is unspecified once a write failed
		f, args, text, bad := h.fFormat(r.In(1, 4), d.fresh())
		if bad || strings.Contains(f, "&") {
			continue
		}
		src := "(format " + dest + " " + gl.String(f).GoString() + " " + strings.Join(args, " ") + ")"
		fails := fw.fails
		before := len(fw.b)
		h.log = append(h.log, src)
		o := h.m.Run(src)
		h.Eval()
		got := string(fw.b[before:])
		d.want = string(fw.b)
		if fw.fails > fails {
			h.Count("write faults", 1)
			if o.Kind != "error" || !errors.Is(o.Err, errInjected) {
				h.dead = true
				h.Fail("write fault unreported", h.text(), "ERROR injected fault", o.Full())
			}
			continue
		}
		if fw.failed && fw.sticky {
			if text != "" && o.Kind != "error" {
				h.dead = true
				h.Fail("write fault unreported", h.text(), "ERROR", o.Full())
			}
			continue
		}
		if o.String() != "nil" || got != text {
			h.dead = true
			h.Fail("write", h.text(), "nil and "+strconv.Quote(text), o.Full()+" and "+strconv.Quote(got))
		}
		h.Count("writes around faults", 1)
	}
	h.done()
}

func c19FaultIn(c *Case) {
	h := newHist(c)
	r := c.R
	size := r.N(200)
	if r.P(10) {
		size = r.In(4000, 9000)
	}
	// ASCII text, so that the fault is between characters
	text := strings.Map(func(c rune) rune {
		if c >= 0x80 {
			return 'k'
		}
		return c
	}, sContent(r, size))
	s := &sIn{expr: "i0", text: text, limit: r.N(len(text) + 1)}
	s.sticky = r.P(50)
	if s.limit >= len(text) {
		s.limit = len(text) - 1
	}
	if s.limit < 0 {
		return
	}
	fb := &faultBytes{s: text, limit: s.limit, sticky: s.sticky, r: r}
	h.m.W = h.m.W.Let(gl.Variables{gl.NewSymbol("i0"): &faultReader{bufio.NewReaderSize(fb, pick(r, []int{16, 64, 4096}))}})
	h.log = append(h.log, fmt.Sprintf(";; i0 is a stream of %q failing at byte %d", text, s.limit))
	for k := 0; k < 4000 && !h.dead; k++ {
		src, want, name := h.readOp(s, false)
		if want != "FAULT" {
			h.is(name+" before a fault", src, want)
			if want == "ERROR" {
				break // malformed
			}
			continue
		}
		h.log = append(h.log, src)
		o := h.m.Run(src)
		h.Eval()
		h.Count("read faults", 1)
		if o.Kind != "error" || !errors.Is(o.Err, errInjected) {
			h.dead = true
			h.Fail("read fault unreported", h.text(), "ERROR injected fault", o.Full())
		}
		break
	}
	h.done()
}

// c19Files: what the file system has is what is reported.
func c19Files(c *Case) {
	h := newHist(c)
	r := c.R
	dir := filepath.Join(c.Dir, "fs")
	os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "sub"), 0o700)
	defer os.RemoveAll(dir)
	q := func(n string) string { return gl.String(filepath.Join(dir, n)).GoString() }
	sizes := map[string]int{}
	names := []string{"a", "b c", "日本", "d.txt", "sub/e", "-f", "*"}
	for k := 0; k < 16 && !h.dead; k++ {
		n := pick(r, names)
		size, there := sizes[n]
		switch r.N(9) {
		case 0:
			w := "nil"
			if there {
				w = "t"
			}
			h.is("probe-file", "(probe-file "+q(n)+")", w)
		case 1:
			u := pick(r, []int{1, 2, 3, 8, 8, 8, 16, 32, 7, 64})
			w := "nil"
			if there {
				w = strconv.Itoa(size * 8 / u)
			}
			h.is("file-length", fmt.Sprintf("(file-length %s %d)", q(n), u), w)
		case 2:
			size = r.N(6000)
			os.WriteFile(filepath.Join(dir, n), []byte(strings.Repeat("z", size)), 0o600)
			sizes[n] = size
		case 3:
			os.Remove(filepath.Join(dir, n))
			delete(sizes, n)
		case 4:
			size = r.N(9000)
			h.is("written by a form", fmt.Sprintf("(with-open-output-file (s %s) (format s (create-string %d #\\w)) 1)", q(n), size), "1")
			sizes[n] = size
			h.is("file-length", fmt.Sprintf("(list (file-length %s 8) (probe-file %s))", q(n), q(n)), fmt.Sprintf("(%d t)", size))
		case 5:
			if !there {
				h.is("open of nothing", pick(r, []string{"(open-input-file " + q(n) + ")", "(with-open-input-file (s " + q(n) + ") (ev 1) 5)"}), "ERROR")
				if len(h.m.Take()) > 0 {
					h.Fail("open of nothing", h.text(), "the body is not run", "it is")
				}
			} else {
				h.is("length by reading", "(with-open-input-file (s "+q(n)+") (let ((k 0)) (while (read-char s nil) (setq k (+ k 1))) k))", strconv.Itoa(size))
			}
		case 6:
			h.is("no such directory", pick(r, []string{"(open-output-file " + q("nodir/x") + ")", "(with-open-output-file (s " + q("nodir/x") + ") (ev 1) 5)", "(open-output-file " + q("sub") + ")", "(open-input-file " + q("nodir/x") + ")"}), "ERROR")
			if len(h.m.Take()) > 0 {
				h.Fail("no such directory", h.text(), "the body is not run", "it is")
			}
		case 7:
			h.is("reading a directory", "(with-open-input-file (s "+q("sub")+") "+pick(r, []string{"(read-line s nil 'the-end)", "(read-char s nil 'the-end)", "(read s nil 'the-end)", "(read-line s)"})+")", "ERROR")
		case 8:
			body := pick(r, []string{"(format s \"abc\")", "(format s \"~a~%\" 5) (throw 'k 1)", "(format s \"x\") (return-from b 1)", "(format s (create-string 9000 #\\x))", "(format s \"x\") (go end)", "(format s \"x\") (car 5)", "(format-char s #\\a) 5", "(format-integer s 10 2)"})
			if r.P(30) {
				h.is("full device", "(let ((s (open-output-file \"/dev/full\"))) "+pick(r, []string{"(format s \"abc\")", "(format-char s #\\a)", "(format-object s '(1 2) t)"})+" (close s))", "ERROR")
			} else {
				h.is("full device", "(block b (catch 'k (tagbody (with-open-output-file (s \"/dev/full\") "+body+") end)))", "ERROR")
			}
			h.is("file-length unit", "(file-length "+q("a")+" "+pick(r, []string{"0", "-1"})+")", "ERROR <domain-error>")
		}
	}
	c19Fds(h, c.Dir)
	h.done()
}

func init() {
	register(&Prop{
		ID: "C19", Quick: 60000, Thorough: 800000,
		Run: func(c *Case) {
			c.Dir = filepath.Join(c.Dir, "c"+strconv.Itoa(c.Idx))
			os.MkdirAll(c.Dir, 0o700)
			defer os.RemoveAll(c.Dir)
			switch c.Idx % 10 {
			case 1, 2, 6:
				c19Write(c)
			case 3:
				c19FaultOut(c)
			case 7:
				c19FaultIn(c)
			case 8:
				c19Files(c)
			default:
				c19Read(c)
			}
		},
		Rule:   "histories over string, file and host streams: random mixes of read-char, read-line and read (end-of-stream requested in five ways, standard input redirected), writes to several files left in 16 ways, faults injected into host readers and writers at any byte, /dev/full, directories, missing files; contents, positions, results, file system and open descriptors compared with a byte model; distinct by history",
		Need:   []string{"read-char", "read-line", "read", "end of stream", "with-standard-input", "nested", "rest", "files compared", "string streams compared", "descriptors looked at", "write after close", "read back", "write faults", "read faults", "file-length", "probe-file", "full device", "reading a directory", "skip", "on a file stream", "on a string stream"},
		Assume: []string{"texts are valid UTF-8; the file system behaves (faults come from /dev/full, directories and host streams)"},
	})
}
