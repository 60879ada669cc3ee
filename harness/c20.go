package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// fdest is a destination of format with the text it must hold.
type fdest struct {
	exprs []string // expressions denoting the destination
	want  string
	get   func() (string, bool) // what it holds now
	node  gl.Node
}

func (d *fdest) fresh() bool { return d.want == "" || strings.HasSuffix(d.want, "\n") }

// fpiece is one piece of a format string.
type fpiece struct {
	dir  string   // its text in the format string
	args []string // expressions of the arguments it takes
	out  func(fresh bool, rest int) string
	bad  bool // it fails
	name string
}

// farg is a datum with its ~a and ~s texts.
type farg struct{ src, a, s string }

func (c *Case) fObject(depth int) farg {
	r := c.R
	switch r.W(26, 22, 14, 18, 6, 6, 18) {
	case 0:
		n := strconv.FormatInt(pick(r, []int64{0, 1, -1, 7, 42, -300, 65, 97, math.MaxInt64, math.MinInt64 + 1, int64(r.In(-100000, 100000))}), 10)
		return farg{n, n, n}
	case 1:
		s := pick(r, []string{"", "a", "abc", "日本語", "é", "x y", "\n", "a\n", "~a", "a\"b", "b\\c", "\t|", "a\nb", "0123456789abcdef", "(", "nil"})
		if r.P(4) {
			s = strings.Repeat(s+"k", r.In(30, 900)) + pick(r, []string{"", "日", "\n"})
		}
		q := `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
		return farg{q, s, q}
	case 2:
		ch := pick(r, []rune{'a', 'Z', '日', 'é', 'q'})
		t := `#\` + string(ch)
		return farg{t, string(ch), t}
	case 3:
		y := pick(r, []string{"a", "foo", "日本", "x1", "a-b", "+", "<p>", "Foo"})
		return farg{"'" + y, y, y}
	case 4:
		return farg{"nil", "nil", "nil"}
	case 5:
		f := pick(r, []float64{0.5, -1.25, 3.75, 100.125, 1e-3})
		t := strconv.FormatFloat(f, 'f', -1, 64)
		return farg{t, t, t}
	}
	if depth <= 0 {
		return farg{"t", "t", "t"}
	}
	n := r.In(1, 4)
	src, a, s := "(list", "(", "("
	for i := 0; i < n; i++ {
		e := c.fObject(depth - 1)
		src += " " + e.src
		if i > 0 {
			a += " "
			s += " "
		}
		a += e.a
		s += e.s
	}
	return farg{src + ")", a + ")", s + ")"}
}

// fParam gives a parameter in one of its three notations; the value of # is the number of arguments left.
type fparam struct {
	text string
	args []string
	val  func(rest int) int
}

func (c *Case) fParam(vals []int) fparam {
	r := c.R
	v := pick(r, vals)
	switch r.W(65, 25, 10) {
	case 0:
		if v >= 0 {
			t := strconv.Itoa(v)
			if r.P(5) {
				t = "0" + t
			}
			return fparam{text: t, val: func(int) int { return v }}
		}
		fallthrough
	case 1:
		return fparam{text: pick(r, []string{"v", "v", "V"}), args: []string{strconv.Itoa(v)}, val: func(int) int { return v }}
	}
	return fparam{text: "#", val: func(rest int) int { return rest }}
}

// fWidths: mostly small, sometimes beyond a line, a page, a buffer.
func (c *Case) fWidths() []int {
	if c.R.P(8) {
		return []int{40, 79, 80, 81, 100, 127, 128, 200, 255, 256, 257, 1000, 4095, 4096, 4097, 5000, 9000}
	}
	return []int{0, 1, 3, 5, 10, 20, -3}
}

func caseOf(r *Rng, s string) string {
	if r.P(20) {
		return strings.ToUpper(s)
	}
	return s
}

func padLeft(s string, w int, p rune) string {
	for n := len(s); n < w; n++ {
		s = string(p) + s
	}
	return s
}

func (c *Case) fPiece() fpiece {
	r := c.R
	fixed := func(s string) func(bool, int) string { return func(bool, int) string { return s } }
	switch r.W(22, 18, 12, 16, 10, 10, 12, 4, 2) {
	case 0:
		s := pick(r, []string{"a", "x", " ", "日本", "é", "text", "(~~)", "\n", "a\n", "v", "#", "'", ",", "1,2", "%", "&", "end", "\"", "\\", "5d"})
		if r.P(3) {
			s = strings.Repeat("long ", r.In(20, 1200)) + pick(r, []string{"", "x", "\n", "日"})
		}
		if s == "(~~)" {
			return fpiece{dir: s, out: fixed("(~)"), name: "~~"}
		}
		return fpiece{dir: s, out: fixed(s), name: "literal"}
	case 1:
		o := c.fObject(2)
		d, t := "a", o.a
		if r.P(50) {
			d, t = "s", o.s
		}
		if r.P(30) {
			p := c.fParam(c.fWidths())
			return fpiece{dir: "~" + p.text + caseOf(r, d), args: append(p.args, o.src), name: "~" + d + " width", out: func(_ bool, rest int) string {
				s := t
				for n := len([]rune(t)); n < p.val(rest); n++ {
					s += " "
				}
				return s
			}}
		}
		return fpiece{dir: "~" + caseOf(r, d), args: []string{o.src}, out: fixed(t), name: "~" + d}
	case 2:
		return fpiece{dir: "~&", out: func(fresh bool, _ int) string {
			if fresh {
				return ""
			}
			return "\n"
		}, name: "~&"}
	case 3:
		d := pick(r, []string{"d", "d", "b", "o", "x"})
		base := map[string]int{"d": 10, "b": 2, "o": 8, "x": 16}[d]
		v := pick(r, []int64{0, 1, -1, 5, 10, 255, -255, 4096, math.MaxInt64, math.MinInt64 + 1, int64(r.In(-1000000, 1000000)), int64(r.U64() >> 1)})
		t := strings.ToUpper(strconv.FormatInt(v, base))
		arg := strconv.FormatInt(v, 10)
		switch r.W(45, 25, 30) {
		case 1:
			p := c.fParam(append(c.fWidths(), 2, 8, 12, 30, -4))
			return fpiece{dir: "~" + p.text + caseOf(r, d), args: append(p.args, arg), name: "~" + d + " width", out: func(_ bool, rest int) string { return padLeft(t, p.val(rest), ' ') }}
		case 2:
			p := c.fParam(append(c.fWidths(), 2, 8, 12, 70))
			ch := pick(r, []rune{'0', '*', ' ', '日', 'v', '#', ',', '\'', 'd', '~', '5'})
			return fpiece{dir: "~" + p.text + ",'" + string(ch) + caseOf(r, d), args: append(p.args, arg), name: "~" + d + " padded", out: func(_ bool, rest int) string { return padLeft(t, p.val(rest), ch) }}
		}
		return fpiece{dir: "~" + caseOf(r, d), args: []string{arg}, out: fixed(t), name: "~" + d}
	case 4:
		d := pick(r, []string{"f", "e", "g"})
		v := pick(r, []float64{0, 0.5, -0.5, 1, 3.14159, 1e10, -2.5, 1e-7, 123456.789, 1e21, 1e300, float64(r.In(-100000, 100000)) / 64})
		arg := strconv.FormatFloat(v, 'g', -1, 64)
		if r.P(15) { // an integer is written as the nearest float
			n := int64(r.U64()) >> uint(r.In(1, 63))
			v, arg = float64(n), strconv.FormatInt(n, 10)
		} else if !strings.ContainsAny(arg, ".e") {
			if r.P(50) {
				arg += ".0"
			}
		} else if !strings.Contains(arg, ".") {
			arg = strings.Replace(arg, "e", ".0e", 1)
		}
		switch r.W(50, 25, 25) {
		case 1:
			p := c.fParam(append(c.fWidths(), -2))
			return fpiece{dir: "~" + p.text + caseOf(r, d), args: append(p.args, arg), name: "~" + d + " width", out: func(_ bool, rest int) string {
				return padLeft(strconv.FormatFloat(v, d[0], -1, 64), p.val(rest), ' ')
			}}
		case 2:
			p, q := c.fParam([]int{0, 5, 10, 20}), c.fParam([]int{0, 1, 2, 6, 15})
			return fpiece{dir: "~" + p.text + "," + q.text + caseOf(r, d), args: append(append(append([]string{}, p.args...), q.args...), arg), name: "~" + d + " precision", out: func(_ bool, rest int) string {
				// a later v has already been taken from the arguments when # counts them, an earlier one too
				return padLeft(strconv.FormatFloat(v, d[0], q.val(rest), 64), p.val(rest+len(q.args)), ' ')
			}}
		}
		return fpiece{dir: "~" + caseOf(r, d), args: []string{arg}, out: fixed(strconv.FormatFloat(v, d[0], -1, 64)), name: "~" + d}
	case 5:
		return fpiece{dir: "~%", out: fixed("\n"), name: "~%"}
	case 6:
		p := c.fParam([]int{0, 1, 2, 3, -1})
		if r.P(50) {
			return fpiece{dir: "~" + p.text + "%", args: p.args, name: "~n%", out: func(_ bool, rest int) string { return strings.Repeat("\n", max(0, p.val(rest))) }}
		}
		return fpiece{dir: "~" + p.text + "&", args: p.args, name: "~n&", out: func(fresh bool, rest int) string {
			n := p.val(rest)
			if fresh {
				n--
			}
			return strings.Repeat("\n", max(0, n))
		}}
	case 7:
		return fpiece{dir: "~~", out: fixed("~"), name: "~~"}
	}
	// a directive that fails
	b := pick(r, []fpiece{
		{dir: "~q", args: []string{"1"}}, {dir: "~z", args: []string{"1"}}, {dir: "~日", args: []string{"1"}}, {dir: "~!", args: []string{"1"}},
		{dir: "~d", args: []string{`"abc"`}}, {dir: "~d", args: []string{"'a"}}, {dir: "~x", args: []string{"(list 1)"}}, {dir: "~f", args: []string{`"1"`}},
		{dir: "~e", args: []string{"'a"}}, {dir: "~b", args: []string{"#\\a"}}, {dir: "~vd", args: []string{`"a"`, "1"}}, {dir: "~va", args: []string{"1.5", "1"}},
		{dir: "~g", args: []string{"nil"}}, {dir: "~1,2,3d", args: []string{"1"}}, {dir: "~1,2,3f", args: []string{"1.5"}}, {dir: "~5d", args: []string{"nil"}},
	})
	b.bad = true
	b.name = "failing directive"
	return b
}

// fFormat builds a format string of n pieces with its arguments, and the text it must give at a destination
// whose line is fresh or not. bad means that it must fail after that text.
func (c *Case) fFormat(n int, fresh bool) (format string, args []string, text string, bad bool) {
	r := c.R
	ps := []fpiece{}
	total := 0
	for i := 0; i < n; i++ {
		p := c.fPiece()
		ps = append(ps, p)
		total += len(p.args)
	}
	for _, p := range ps {
		// text must not run into the directive after it: only a piece's own characters count
		format += p.dir
		args = append(args, p.args...)
		total -= len(p.args)
		if bad {
			continue
		}
		if p.bad {
			bad = true
			c.Count("failing directive", 1)
			continue
		}
		c.Count(p.name, 1)
		// # counts the arguments left when it is read: those of this piece not yet taken and of the later ones
		rest := total + 1
		if len(p.args) == 0 {
			rest = total
		}
		if p.name == "~n%" || p.name == "~n&" {
			rest = total
		}

		text += p.out(fresh, rest)
		if text != "" {
			fresh = strings.HasSuffix(text, "\n")
		}
	}
	if !bad {
		switch r.W(80, 8, 8, 4) {
		case 1:
			args = append(args, pick(r, []string{"1", "'x", "nil"}))
			// a # would see it
			if strings.Contains(format, "#") {
				args = args[:len(args)-1]
			}
		case 2:
			if !strings.Contains(format, "#") {
				format += pick(r, []string{"~a", "~d", "~s", "~x", "~f", "~5d", "~va", "~v%", "~v&"})
				bad = true
				c.Count("missing argument", 1)
			}
		case 3:
			if !strings.Contains(format, "#") {
				format += pick(r, []string{"~5", "~v", "~'", "~1,", "~#"})
				args = append(args, "3")
				bad = true
				c.Count("unfinished directive", 1)
			}
		}
	}
	return
}

func c20Run(c *Case) {
	h := newHist(c)
	r := c.R
	dir := filepath.Join(c.Dir, "f")
	os.MkdirAll(dir, 0o700)
	var dests []*fdest
	dests = append(dests,
		&fdest{exprs: []string{"t", "(standard-output)", "so"}, get: func() (string, bool) { return h.m.Out.String(), true }},
		&fdest{exprs: []string{"(error-output)", "eo"}, get: func() (string, bool) { return h.m.Err.String(), true }})
	src := "(defglobal so (standard-output)) (defglobal eo (error-output)) (defun out (s f :rest r) (apply #'format s f r))"
	files := []string{}
	for i := 0; i < 2; i++ {
		n := "s" + strconv.Itoa(i)
		src += "(defglobal " + n + " (create-string-output-stream))"
		var sb gl.Node
		dests = append(dests, &fdest{exprs: []string{n, "(progn " + n + ")"}, get: func() (string, bool) {
			if sb == nil {
				sb = h.m.Run(n).Node
			}
			if r.P(50) {
				if s, ok := sb.(fmt.Stringer); ok {
					return s.String(), true
				}
			}
			o := h.m.Run("(get-output-stream-string " + n + ")")
			s, ok := o.Node.(gl.String)
			if !ok {
				return o.Full(), true
			}
			return string(s), true
		}})
	}
	if c.Idx%2 == 0 {
		fn := filepath.Join(dir, fmt.Sprintf("o%d", c.Idx%7))
		files = append(files, fn)
		src += "(defglobal fo (open-output-file " + gl.String(fn).GoString() + "))"
		dests = append(dests, &fdest{exprs: []string{"fo"}, get: func() (string, bool) { return "", false }})
	}
	if !h.run("make", src) {
		return
	}
	steps := r.In(8, 24)
	for step := 0; step < steps && !h.dead; step++ {
		if r.P(15) {
			c20Nil(h)
			continue
		}
		d := pick(r, dests)
		if r.P(30) {
			d = dests[0]
		}
		c20Step(h, d)
		h.m.Take()
		for _, d := range dests {
			if h.dead {
				return
			}
			got, ok := d.get()
			if ok && got != d.want {
				h.dead = true
				h.Fail("text", h.text()+"\n;; destination "+d.exprs[0], strconv.Quote(d.want), strconv.Quote(got))
				return
			}

		}
	}
	if len(files) > 0 && !h.dead {
		h.run("close", "(close fo)")
		b, err := os.ReadFile(files[0])
		d := dests[len(dests)-1]
		if err != nil || string(b) != d.want {
			h.Fail("file text", h.text(), strconv.Quote(d.want), fmt.Sprintf("%q %v", b, err))
		}
		h.Count("file text", 1)
		os.Remove(files[0])
	}
	h.done()
}

// expectText decides what the call left at the destination.
func (h *hist) fCall(d *fdest, src, text string, bad bool) {
	h.log = append(h.log, src)
	o := h.m.Run(src)
	h.Eval()
	if !bad {
		if o.String() != "nil" {
			h.dead = true
			h.Fail("result", h.text(), "nil", o.Full())
			return
		}
		d.want += text
		return
	}
	if o.Kind != "error" || o.Class == "fuel" {
		h.dead = true
		h.Fail("error", h.text(), "ERROR", o.Full())
		return
	}
	got, ok := d.get()
	if !ok {
		// the file cannot be looked at yet; what precedes the failing directive is there
		d.want += text
		return
	}
	if !strings.HasPrefix(got, d.want) || !strings.HasPrefix(d.want+text, got) {
		h.dead = true
		h.Fail("text before the error", h.text(), strconv.Quote(d.want)+" then a part of "+strconv.Quote(text), strconv.Quote(got))
		return
	}
	d.want = got
}

func c20Step(h *hist, d *fdest) {
	r := h.R
	e := pick(r, d.exprs)
	switch r.W(70, 8, 6, 8, 5, 3) {
	case 0:
		f, args, text, bad := h.fFormat(r.In(1, 5), d.fresh())
		if bad {
			if _, ok := d.get(); !ok {
				return // a file: what it holds cannot be seen now
			}
		}
		q := gl.String(f).GoString()
		a := strings.Join(args, " ")
		switch r.W(70, 12, 10, 8) {
		case 0:
			h.fCall(d, "(format "+e+" "+q+" "+a+")", text, bad)
		case 1:
			h.fCall(d, "(out "+e+" "+q+" "+a+")", text, bad)
		case 2:
			h.fCall(d, "(apply #'format "+e+" "+q+" (list "+a+"))", text, bad)
		case 3:
			h.fCall(d, "(let ((f "+q+")) (funcall #'format "+e+" f "+a+"))", text, bad)
		}
		h.Count("format", 1)
	case 1:
		o := h.fObject(2)
		if r.P(50) {
			h.fCall(d, "(format-object "+e+" "+o.src+" nil)", o.a, false)
		} else {
			h.fCall(d, "(format-object "+e+" "+o.src+" "+pick(r, []string{"t", "1", "'x"})+")", o.s, false)
		}
		h.Count("format-object", 1)
	case 2:
		ch := pick(r, []rune{'a', '日', 'é', '~', '\n'})
		t := gl.Rune(ch).GoString()
		h.fCall(d, "(format-char "+e+" "+t+")", string(ch), false)
		h.Count("format-char", 1)
	case 3:
		v := pick(r, []int64{0, 1, -1, 35, 36, -1000, math.MaxInt64, int64(r.In(-5000000, 5000000))})
		b := r.In(2, 36)
		h.fCall(d, fmt.Sprintf("(format-integer %s %d %d)", e, v, b), strings.ToUpper(strconv.FormatInt(v, b)), false)
		h.Count("format-integer", 1)
	case 4:
		v := pick(r, []float64{0.5, -2.25, 1e10, 3.125, 100})
		t := strconv.FormatFloat(v, 'f', -1, 64)
		a := t
		if !strings.Contains(a, ".") {
			a += ".0"
		}
		h.fCall(d, "(format-float "+e+" "+a+")", t, false)
		h.Count("format-float", 1)
	case 5:
		src := pick(r, []string{"(format-integer %s 5 1)", "(format-integer %s 5 37)", "(format-integer %s 'a 10)", "(format-char %s \"a\")", "(format-char %s 65)", "(format-float %s \"1\")", "(format-float %s 'a)", "(format %s)", "(format %s 5)", "(format %s 'a 1)", "(format-object %s 1)", "(format-char %s)", "(format-integer %s 1)", "(format-integer %s 5 0)", "(format-integer %s 5 -1)"})
		if r.P(20) {
			src = pick(r, []string{"(format 5 \"a\")", "(format \"s\" \"a\")", "(format 'so \"a\")", "(format (list 1) \"a\")", "(format-char 5 #\\a)", "(format-integer 'a 1 10)", "(format-object 1 1 nil)", "(format-float \"\" 1.0)", "(format)", "(format (create-string-input-stream \"\") \"a\")"})
		} else {
			src = strings.Replace(src, "%s", e, 1)
		}
		h.fCall(d, src, "", true)
		h.Count("bad call", 1)
	}
	// nested output: the arguments are evaluated, and write, before the text is
	if !h.dead && r.P(12) {
		inner, ia, it, ibad := h.fFormat(r.In(1, 2), d.fresh())
		if !ibad {
			after := d.want + it
			fresh := after == "" || strings.HasSuffix(after, "\n")
			f, args, text, bad := h.fFormat(r.In(1, 3), fresh)
			if !bad && !strings.Contains(f, "#") {
				h.fCall(d, fmt.Sprintf("(format %s %s %s (format %s %s %s))", e, gl.String(f).GoString(), strings.Join(args, " "), pick(r, d.exprs), gl.String(inner).GoString(), strings.Join(ia, " ")), it+text, false)
				h.Count("nested", 1)
			}
		}
	}
}

// c20Nil checks a call that returns its text.
func c20Nil(h *hist) {
	r := h.R
	str := func(s string) string { return strconv.QuoteToASCII(s) }
	switch r.W(70, 10, 10, 10) {
	case 0:
		f, args, text, bad := h.fFormat(r.In(1, 6), true)
		src := "(format nil " + gl.String(f).GoString() + " " + strings.Join(args, " ") + ")"
		if bad {
			h.is("format nil error", src, "ERROR")
		} else {
			h.is("format nil", src, str(text))
		}
	case 1:
		o := h.fObject(2)
		h.is("format-object nil", "(format-object nil "+o.src+" t)", str(o.s))
	case 2:
		v, b := r.In(-500000, 500000), r.In(2, 36)
		h.is("format-integer nil", fmt.Sprintf("(format-integer nil %d %d)", v, b), str(strings.ToUpper(strconv.FormatInt(int64(v), b))))
	case 3:
		h.is("format-char nil", `(list (format-char nil #\x) (format-float nil 2.5))`, `("x" "2.5")`)
	}
}

func init() {
	register(&Prop{
		ID: "C20", Quick: 60000, Thorough: 800000, Run: c20Run,
		Rule:   "histories of 8-24 format and format-* calls over standard output, error output, two string streams, a file and nil; format strings of 1-6 pieces (all directives with numeric, v and # parameters, literals, failing directives, missing arguments) through format, apply, funcall and a defun; after every call the text of every destination is compared with the prescribed one; distinct by history",
		Need:   []string{"~a", "~s", "~d", "~b", "~o", "~x", "~f", "~e", "~g", "~%", "~&", "~n&", "~n%", "~~", "~d padded", "~f precision", "~a width", "format-object", "format-char", "format-integer", "format-float", "format nil", "missing argument", "failing directive", "nested", "file text", "bad call"},
		Assume: []string{"~d ~b ~o ~x are given integers of 64 bits; text written before a directive fails may or may not reach the destination"},
	})
}
