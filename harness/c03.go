package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	gl "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/pkg/parser"
)

// A token as the monitor wrote it.
type rtok struct {
	s    string
	kind byte // a atom, s string, b barred symbol, o open, c close, p prefix
	top  int  // set on the last token of a top-level datum: its number (1-based)
}

func rAtom(s string) []rtok { return []rtok{{s: s, kind: 'a'}} }

// render writes the datum as one of the texts that denote it.
func (d *D) render(r *Rng) []rtok {
	switch d.K {
	case 'i':
		if d.I >= 0 && r.P(25) {
			base, pre := 16, "xX"
			switch r.N(3) {
			case 0:
				base, pre = 8, "oO"
			case 1:
				base, pre = 2, "bB"
			}
			s := strconv.FormatInt(d.I, base)
			if r.P(40) {
				s = strings.ToUpper(s)
			}
			if r.P(20) {
				s = "00" + s
			}
			return rAtom("#" + string(pre[r.N(2)]) + s)
		}
		s := strconv.FormatInt(d.I, 10)
		if d.I >= 0 {
			if r.P(15) {
				s = "0" + s
			}
			if r.P(15) {
				s = "+" + s
			}
		}
		return rAtom(s)
	case 'B':
		s := d.S
		if s[0] != '-' {
			switch r.N(6) {
			case 0, 1:
				v, _ := new(big.Int).SetString(s, 10)
				base, pre := 16, "xX"
				switch r.N(3) {
				case 0:
					base, pre = 8, "oO"
				case 1:
					base, pre = 2, "bB"
				}
				s = v.Text(base)
				if r.P(40) {
					s = strings.ToUpper(s)
				}
				return rAtom("#" + string(pre[r.N(2)]) + s)
			case 2:
				s = "+" + s
			case 3:
				s = "00" + s
			}
		}
		return rAtom(s)
	case 'f':
		s := strconv.FormatFloat(d.F, byte("efg"[r.N(3)]), -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += pick(r, []string{".0", ".", ".00", "e0", "e+0"})
		}
		if r.P(20) {
			s = strings.ToUpper(s)
		}
		if d.F > 0 && r.P(10) {
			s = "+" + s
		}
		return rAtom(s)
	case 's':
		var b strings.Builder
		b.WriteByte('"')
		for _, c := range d.S {
			if c == '"' || c == '\\' || r.P(3) {
				b.WriteByte('\\')
			}
			b.WriteRune(c)
		}
		b.WriteByte('"')
		return []rtok{{s: b.String(), kind: 's'}}
	case 'c':
		names := map[rune][]string{' ': {"space"}, '\n': {"newline", "linefeed"}, '\t': {"tab"}, '\r': {"return"}}
		if ns := names[d.C]; ns != nil {
			return rAtom(`#\` + pick(r, ns))
		}
		if d.C <= ' ' || r.P(25) || d.C >= 0x7f && d.C <= 0xa0 || d.C == 0x3000 {
			return rAtom(fmt.Sprintf(pick(r, []string{`#\U%X`, `#\U%04X`, `#\U%x`}), d.C))
		}
		return rAtom(`#\` + string(d.C))
	case 'y':
		plain := true
		for _, s := range dOddSyms {
			if s == d.S {
				plain = false
			}
		}
		if plain {
			plain = false
			for _, s := range dSyms {
				if s == d.S {
					plain = true
				}
			}
		}
		if plain && !r.P(10) {
			return rAtom(d.S)
		}
		return []rtok{{s: "|" + strings.NewReplacer(`\`, `\\`, `|`, `\|`).Replace(d.S) + "|", kind: 'b'}}
	case 'k':
		return rAtom(d.S)
	case 'n':
		switch r.N(4) {
		case 0:
			return rAtom("nil")
		case 1:
			return rAtom(pick(r, []string{"NIL", "Nil"}))
		}
		return []rtok{{s: "(", kind: 'o'}, {s: ")", kind: 'c'}}
	case 't':
		return rAtom(pick(r, []string{"t", "t", "T"}))
	case 'l':
		if len(d.L) == 2 && d.Tail == nil && d.L[0].K == 'y' && r.P(70) {
			if p := map[string]string{"quote": "'", "function": "#'", "quasiquote": "`", "unquote": ","}[d.L[0].S]; p != "" {
				return append([]rtok{{s: p, kind: 'p'}}, d.L[1].render(r)...)
			}
		}
		ts := []rtok{{s: "(", kind: 'o'}}
		for _, e := range d.L {
			ts = append(ts, e.render(r)...)
		}
		if d.Tail != nil {
			ts = append(ts, rtok{s: ".", kind: 'a'})
			ts = append(ts, d.Tail.render(r)...)
		} else if r.P(5) {
			ts = append(ts, rtok{s: ".", kind: 'a'})
			ts = append(ts, (&D{K: 'n'}).render(r)...)
		}
		return append(ts, rtok{s: ")", kind: 'c'})
	case 'a':
		open := fmt.Sprintf("#%d%c(", len(d.Dim), "aA"[r.N(2)])
		if len(d.Dim) == 1 && r.P(75) {
			open = "#("
		}
		k := 0
		var rows func(dim []int, open string) []rtok
		rows = func(dim []int, open string) []rtok {
			ts := []rtok{{s: open, kind: 'o'}}
			for i := 0; i < dim[0]; i++ {
				if len(dim) == 1 {
					ts = append(ts, d.L[k].render(r)...)
					k++
				} else {
					ts = append(ts, rows(dim[1:], "(")...)
				}
			}
			return append(ts, rtok{s: ")", kind: 'c'})
		}
		return rows(d.Dim, open)
	}
	return nil
}

// piece is a stretch of the text with what a text ending inside it means.
type piece struct {
	from, to int
	kind     byte // token kinds, 'w' white space, 'l' line comment, 'B' block comment
	open     bool // the text before the piece is inside an unfinished datum
	deep     bool // inside parentheses
	done     int  // data complete before the piece
	after    int  // data complete after the piece
}

func rSpace(r *Rng) string {
	return pick(r, []string{" ", " ", " ", "\n", "\t", "\r\n", "  ", "\n\n ", "\f", "\v", "\u3000", "\u00a0"})
}

func rBlock(r *Rng, depth int) string {
	var b strings.Builder
	if depth == 2 && r.P(40) {
		// bars and sharps in any order, up to the end that belongs to the beginning
		b.WriteString("#|")
		for n := r.In(1, 25); n > 0; n-- {
			b.WriteString(pick(r, []string{"|", "#", "|", "#", "x", " ", "\n", ";", "\"", "日", "(", "\\"}))
		}
		s, d := b.String(), 1
		for i := 2; i < len(s); {
			switch {
			case strings.HasPrefix(s[i:], "#|"):
				d++
				i += 2
			case strings.HasPrefix(s[i:], "|#"):
				d--
				i += 2
				if d == 0 {
					return s[:i]
				}
			default:
				i++
			}
		}
		return s + "x" + strings.Repeat("|#", d)
	}
	b.WriteString("#|")
	for n := r.N(4); n > 0; n-- {
		switch {
		case depth > 0 && r.P(30):
			b.WriteString(rBlock(r, depth-1))
		default:
			// no text which could be taken for an end or a beginning together with its neighbours
			b.WriteString(" " + pick(r, []string{"x", "(", ")", "\"", ";", "; z", "'", "\\", "# ", "| ", "a|b", "x#y", "日本", "\n", "#2a(", "|| ", "## "}) + " ")
		}
	}
	b.WriteString("|#")
	return b.String()
}

func rLine(r *Rng) string {
	return ";" + pick(r, []string{"", " c", "(", "\"", "#|", "|#", ";;", " )) x", "'", "日本", "\\", "|", "\r", " a b\r", " \t x", "\f y", " \u2028 z", " \u3000(", " #\\( #\\", strings.Repeat(" long", r.N(1000))}) + "\n"
}

// layout joins the tokens with random separators.
func layout(r *Rng, toks []rtok) (string, []piece, []int) {
	var b strings.Builder
	var ps []piece
	ends := []int{}
	depth, pending, done := 0, 0, 0
	add := func(s string, kind byte) {
		ps = append(ps, piece{from: b.Len(), to: b.Len() + len(s), kind: kind, open: depth > 0 || pending > 0, deep: depth > 0, done: done, after: done})
		b.WriteString(s)
	}
	seps := func(min int, blockFirst bool) {
		n := min
		for r.P(25) {
			n++
		}
		for i := 0; i < n; i++ {
			switch {
			case (blockFirst || i > 0) && r.P(12):
				add(rBlock(r, 2), 'B')
			case r.P(8):
				add(rLine(r), 'l')
			default:
				add(rSpace(r), 'w')
			}
		}
	}
	var prev *rtok
	for i := range toks {
		t := &toks[i]
		glue := prev == nil || prev.kind != 'a' && prev.kind != 'b' || t.s == "(" || t.s == ")"
		min := 1
		if glue && r.P(60) {
			min = 0
		}
		blockFirst := prev == nil || prev.kind != 'a' && prev.kind != 'b'
		seps(min, blockFirst)
		add(t.s, t.kind)
		switch t.kind {
		case 'o':
			depth++
		case 'c':
			depth--
		case 'p':
			if depth == 0 {
				pending++
			}
		}
		if t.top > 0 {
			done = t.top
			pending = 0
			ends = append(ends, b.Len())
		}
		ps[len(ps)-1].after = done
		prev = t
	}
	seps(r.N(2), prev != nil && prev.kind != 'a' && prev.kind != 'b')
	return b.String(), ps, ends
}

// chunked delivers its text in random small portions.
type chunked struct {
	s string
	r *Rng
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.s) == 0 {
		return 0, io.EOF
	}
	n := c.r.In(1, 5)
	if n > len(c.s) {
		n = len(c.s)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.s[:n])
	c.s = c.s[n:]
	if len(c.s) == 0 && c.r.P(50) {
		return n, io.EOF
	}
	return n, nil
}

// dFactory lets the parser build the monitors' own data.
type dFactory struct{}

func (dFactory) Cons(car, cdr *D) *D {
	if cdr.K == 'n' {
		return &D{K: 'l', L: []*D{car}}
	}
	return &D{K: 'l', L: []*D{car}, Tail: cdr}
}
func (dFactory) Int(n int64) *D           { return &D{K: 'i', I: n} }
func (dFactory) BigInt(n *big.Int) *D     { return &D{K: 'B', S: n.String()} }
func (dFactory) Float(f float64) *D       { return &D{K: 'f', F: f} }
func (dFactory) String(s string) *D       { return &D{K: 's', S: s} }
func (dFactory) Array(l []*D, n []int) *D { return &D{K: 'a', L: l, Dim: n} }
func (dFactory) Keyword(s string) *D      { return &D{K: 'k', S: s} }
func (dFactory) Rune(c rune) *D           { return &D{K: 'c', C: c} }
func (dFactory) Symbol(s string) *D       { return &D{K: 'y', S: s} }
func (dFactory) Null() *D                 { return &D{K: 'n'} }
func (dFactory) True() *D                 { return &D{K: 't'} }

func canons(ns []gl.Node) string {
	parts := make([]string, len(ns))
	for i, n := range ns {
		parts[i] = canon(n)
	}
	return strings.Join(parts, " ; ")
}

// around keeps the neighbourhood of the first difference.
func around(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i < 60 {
		return a, b
	}
	return "... " + a[i-50:], "... " + b[i-50:]
}

func (c *Case) readAll(text string, rs io.RuneScanner) (string, Outcome) {
	var ns []gl.Node
	o := guard(func() (gl.Node, error) {
		var err error
		ns, err = gl.ReadAll(rs)
		return gl.Null, err
	})
	c.Eval()
	if o.Kind != "value" {
		return o.Kind, o
	}
	return canons(ns), o
}

func (c *Case) c03() {
	r := c.R
	n := r.In(1, 4)
	var toks []rtok
	var data []*D
	var wants []string
	for i := 0; i < n; i++ {
		d := genD(r, r.N(4), r.P(50))
		if r.P(2) {
			d = genBig(r, r.P(50))
			c.Count("big", 1)
		}
		data = append(data, d)
		wants = append(wants, d.Canon())
		ts := d.render(r)
		ts[len(ts)-1].top = i + 1
		toks = append(toks, ts...)
	}
	text, pieces, ends := layout(r, toks)
	want := strings.Join(wants, " ; ")
	c.Distinct(text)
	c.Sample(fmt.Sprintf("%q", text))

	// 1. the whole text, however it is delivered
	routes := map[string]func() io.RuneScanner{
		"strings.Reader": func() io.RuneScanner { return strings.NewReader(text) },
		"bytes.Buffer":   func() io.RuneScanner { return bytes.NewBufferString(text) },
		"small chunks":   func() io.RuneScanner { return bufio.NewReaderSize(&chunked{text, r}, 16) },
	}
	for _, name := range []string{"strings.Reader", "bytes.Buffer", "small chunks"} {
		got, o := c.readAll(text, routes[name]())
		c.Count("texts", 1)
		if got != want {
			want, got = around(want, got)
			c.Fail("misread", fmt.Sprintf("%q by ReadAll of %s", text, name), want, got+" "+o.Msg)
			return
		}
	}
	// 2. the host's own node types
	rd := strings.NewReader(text)
	for i := range data {
		var d *D
		o := guard(func() (gl.Node, error) {
			var err error
			d, err = parser.Read[*D](dFactory{}, rd)
			return gl.Null, err
		})
		c.Eval()
		c.Count("factory", 1)
		if o.Kind != "value" || d.Canon() != wants[i] {
			got := o.Full()
			if o.Kind == "value" {
				got = d.Canon()
			}
			c.Fail("misread-factory", fmt.Sprintf("%q by parser.Read, datum %d", text, i+1), wants[i], got)
			return
		}
	}
	// 3. one datum after the other: no more is consumed than the datum and its terminator
	rd = strings.NewReader(text)
	for i := range data {
		o := guard(func() (gl.Node, error) { return gl.ReadNode(rd) })
		c.Eval()
		if o.Val != wants[i] {
			c.Fail("misread-successive", fmt.Sprintf("%q datum %d", text, i+1), wants[i], o.Full())
			return
		}
		pos := len(text) - rd.Len()
		over := text[ends[i]:]
		_, size := utf8.DecodeRuneInString(over)
		if pos < ends[i] || pos > ends[i]+size {
			c.Fail("overread", fmt.Sprintf("%q datum %d", text, i+1), fmt.Sprintf("position %d, or one character more", ends[i]), fmt.Sprintf("position %d", pos))
			return
		}
		c.Count("positions", 1)
	}
	if o := guard(func() (gl.Node, error) { return gl.ReadNode(rd) }); o.Kind != "error" || o.Err != io.EOF {
		c.Fail("misread-successive", fmt.Sprintf("%q after the last datum", text), "io.EOF", o.Full())
		return
	}
	// 4. the text cut short
	for k := 0; k < 6; k++ {
		p := pick(r, pieces)
		cut := p.from + r.N(p.to-p.from+1)
		if k == 0 { // the most damaging places
			for try := 0; try < 10 && !(p.open || p.kind == 's' || p.kind == 'B'); try++ {
				p = pick(r, pieces)
				cut = p.from + r.N(p.to-p.from+1)
			}
		}
		for cut > p.from && cut < p.to && !utf8.RuneStart(text[cut]) {
			cut--
		}
		c.c03Cut(text, p, cut, wants)
	}
}

func (c *Case) c03Cut(text string, p piece, cut int, wants []string) {
	short := text[:cut]
	inside := cut > p.from && cut < p.to
	done := p.done
	if cut == p.to {
		done = p.after
	}
	mustErr, any := false, false
	switch {
	case cut == p.from:
		mustErr = p.open
	case cut == p.to:
		// what is open after the piece
		switch p.kind {
		case 'o', 'p':
			mustErr = true
		case 'c', 'a', 's', 'b':
			mustErr = p.after == p.done
		default:
			mustErr = p.open
		}
	case inside:
		switch p.kind {
		case 's', 'b':
			mustErr = true
		case 'B':
			if cut == p.from+1 {
				mustErr, any = p.deep, true
			} else {
				mustErr = true
			}
		case 'a', 'p', 'o':
			mustErr, any = p.deep, true
		default:
			mustErr = p.open
		}
	}
	got, o := c.readAll(short, strings.NewReader(short))
	want := strings.Join(wants[:done], " ; ")
	if mustErr {
		c.Count("cut.incomplete", 1)
		if o.Kind != "error" {
			c.Fail("truncation-accepted", fmt.Sprintf("%q", short), "an error", got)
			return
		}
		// and by read, whatever was asked for the end of the stream
		if c.R.P(30) {
			w, _ := quietWorld()
			o := interp(letVar(w, "text", gl.String(short)), `(let ((s (create-string-input-stream text)) (n 0) (x nil)) (while (< n 50) (setq x (read s nil 'the-end)) (if (eq x 'the-end) (setq n 100)) (setq n (+ n 1))) n)`)
			c.Eval()
			if o.Kind != "error" {
				c.Fail("truncation-accepted-by-read", fmt.Sprintf("%q", short), "an error", o.Full())
			}
		}
		return
	}
	if any {
		c.Count("cut.atom", 1)
		if o.Kind == "value" && !(got == want || strings.HasPrefix(got, want+" ; ") || want == "") {
			c.Fail("truncation-misread", fmt.Sprintf("%q", short), want+" ...", got)
		}
		return
	}
	c.Count("cut.complete", 1)
	if got != want {
		c.Fail("truncation-misread", fmt.Sprintf("%q", short), want, got+" "+o.Msg)
	}
}

// c03Bad: texts that are unbalanced or lack an operand are errors wherever they stand.
func (c *Case) c03Bad() {
	r := c.R
	d := func() string {
		ts := genD(r, r.N(2), r.P(50)).render(r)
		s, _, _ := layout(r, ts)
		return " " + s + " "
	}
	bad := pick(r, []string{"(%s ')", "')", "(a (b #'))", "(%s `)%s)", "(,)", "#(1 . 2)", "#(%s . %s)", "#2a((1 2) (3))", "#2a((1) (2 3))", "#2a(1 2)", "#2a((1 . 2))", ")", "%s)", "(%s))", "#2a((%s)(%s %s))", "#3a(((1)) ((2) (3)))", "('#())%s)", "#0a(1)", "#2a((1) 2)"})
	parts := strings.Split(bad, "%s")
	text := parts[0]
	for _, p := range parts[1:] {
		text += d() + p
	}
	if r.P(40) {
		text = d() + text
	}
	if r.P(40) {
		text += d()
	}
	got, o := c.readAll(text, strings.NewReader(text))
	c.Count("bad", 1)
	if o.Kind != "error" {
		c.Fail("malformed-accepted", fmt.Sprintf("%q", text), "an error", got)
	}
}

// c03Stream: read, read-char and read-line on one stream share the position.
func (c *Case) c03Stream() {
	r := c.R
	d := genD(r, r.N(3), r.P(50))
	if r.P(2) {
		d = genBig(r, r.P(50))
	}
	ts := d.render(r)
	ts[len(ts)-1].top = 1
	text, _, ends := layout(r, ts)
	text = text[:ends[0]]
	after := pick(r, []string{" X", "\nX", ")X", "(X", ";X", " (X", "\tX", "\"X", "'X"})
	k := ts[len(ts)-1].kind
	if (k == 'a' || k == 'b') && (after[0] == '"' || after[0] == '\'') {
		after = " X"
	}
	full := text + after + "rest of it"
	w, _ := quietWorld()
	o := interp(letVar(w, "text", gl.String(full)), `(let* ((s (create-string-input-stream text)) (d (read s))) (list d (read-line s nil "")))`)
	c.Eval()
	c.Count("stream", 1)
	ok := false
	rests := []string{after + "rest of it"}
	if strings.ContainsAny(after[:1], " \n\t") {
		rests = append(rests, after[1:]+"rest of it")
	}
	want := []string{}
	for _, rest := range rests {
		if i := strings.IndexByte(rest, '\n'); i >= 0 {
			rest = rest[:i]
		}
		e := "(" + d.Canon() + " " + strconv.QuoteToASCII(rest) + ")"
		want = append(want, e)
		if o.Val == e {
			ok = true
		}
	}
	if !ok {
		c.Fail("stream-position", fmt.Sprintf("%q", full), strings.Join(want, "\nor "), o.Full())
	}
}

func init() {
	register(&Prop{
		ID: "C03", Quick: 150000, Thorough: 2500000,
		Rule: "random sequences of data written in random admissible spellings with random white space, line comments and nested block comments between the tokens; read whole (three deliveries, two node factories), datum by datum with the position checked, and cut short at random places; distinct by text",
		Need: []string{"texts", "factory", "positions", "cut.incomplete", "cut.complete", "cut.atom", "stream", "bad"},
		Run: func(c *Case) {
			switch {
			case c.Idx%5 == 4:
				c.c03Stream()
				return
			case c.Idx%20 == 3:
				c.c03Bad()
				return
			}
			c.c03()
		},
		Assume: []string{"texts are valid UTF-8; spellings the manuals do not describe are not generated"},
	})
}
