package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// C12: every string operation against the same operation on slices of characters.

var c12Alpha = [][]rune{
	[]rune("ab"),
	[]rune("abcABC 012"),
	[]rune("aéß日本𝄞😀"),
	[]rune("日本語日本"),
	{'é', 'a', 0x301, 'é', 'ß', 'Σ', 'ς'},
	{'😀', '😁', 'x', 0x10FFFF, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x80, 0x7F},
	{'\n', '\t', '"', '\\', ';', '(', ')', '|', '#', '~', 0, 'a'},
}

type strCase struct {
	*Case
	w     *gl.World
	alpha []rune
}

func (c *strCase) str(max int) []rune {
	n := c.R.In(0, max)
	if c.R.P(3) {
		n = c.R.In(50, 300)
	}
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = pick(c.R, c.alpha)
	}
	return rs
}

func lit(rs []rune) string { return gl.String(string(rs)).GoString() }

func cstr(rs []rune) string { return strconv.QuoteToASCII(string(rs)) }

func clist(rs []rune) string {
	if len(rs) == 0 {
		return "nil"
	}
	p := make([]string, len(rs))
	for i, r := range rs {
		p[i] = canonChar(r)
	}
	return "(" + strings.Join(p, " ") + ")"
}

func cmpRunes(a, b []rune) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func tnil(b bool) string {
	if b {
		return "t"
	}
	return "nil"
}

// is runs the form with the string variables s and u and the character variable c.
func (c *strCase) is(kind, src, want string, vars gl.Variables) bool {
	o := interp(c.w.Let(vars), src)
	c.Eval()
	c.Count(kind, 1)
	got := o.String()
	ok := got == want
	if want == "ERROR" {
		ok = o.Kind == "error"
	}
	if !ok {
		in := src
		for k, v := range vars {
			in += "\n" + k.String() + " = " + canon(v)
		}
		c.Fail(kind, in, want, o.Full())
	}
	return ok
}

func indexRunes(s, sub []rune, from int) int {
	for i := from; i+len(sub) <= len(s); i++ {
		if string(s[i:i+len(sub)]) == string(sub) {
			return i
		}
	}
	return -1
}

func c12Run(cc *Case) {
	c := &strCase{Case: cc}
	c.w, _ = quietWorld()
	r := c.R
	c.alpha = pick(r, c12Alpha)
	s, u := c.str(8), c.str(5)
	switch r.N(5) {
	case 0: // a neighbour
		u = append([]rune{}, s...)
		if len(u) > 0 && r.P(70) {
			u[r.N(len(u))] = pick(r, c.alpha)
		} else {
			u = append(u, pick(r, c.alpha))
		}
	case 1: // a part
		if len(s) > 0 {
			i := r.N(len(s))
			u = append([]rune{}, s[i:r.In(i, len(s))]...)
		}
	case 2:
		u = append([]rune{}, s...)
	}
	ch := pick(r, c.alpha)
	sv, uv := gl.String(string(s)), gl.String(string(u))
	vars := gl.Variables{gl.NewSymbol("s"): sv, gl.NewSymbol("u"): uv, gl.NewSymbol("c"): gl.Rune(ch)}
	is := func(kind, src, want string) bool { return c.is(kind, src, want, vars) }
	c.Distinct(string(s) + "\x00" + string(u))
	multi := len(string(s)) != len(s)
	if multi {
		c.Count("strings with characters of several bytes", 1)
	}
	is("length", "(length s)", strconv.Itoa(len(s)))
	// the literal in the source text is the string
	is("literal", lit(s), cstr(s))
	for i := 0; i < 3 && len(s) > 0; i++ {
		k := r.N(len(s))
		if i == 0 {
			k = len(s) - 1
		}
		is("elt", fmt.Sprintf("(elt s %d)", k), canonChar(s[k]))
	}
	is("elt out of range", fmt.Sprintf("(elt s %d)", pick(r, []int{-1, len(s), len(s) + 1, len(string(s)) + 1})), "ERROR")
	for i := 0; i < 3; i++ {
		a := r.In(0, len(s))
		b := r.In(a, len(s))
		is("subseq", fmt.Sprintf("(subseq s %d %d)", a, b), cstr(s[a:b]))
	}
	is("string-append", "(string-append s u s)", cstr(append(append(append([]rune{}, s...), u...), s...)))
	if r.P(20) {
		is("string-append", "(string-append)", cstr(nil))
		is("string-append", "(string-append u)", cstr(u))
	}
	n := r.In(0, 6)
	is("create-string", fmt.Sprintf("(create-string %d c)", n), cstr([]rune(strings.Repeat(string(ch), n))))
	if r.P(3) { // long texts
		n := pick(r, []int{63, 255, 1023, 1366, 2049, 4097, 5000, 20000})
		long := strings.Repeat(string(ch), n)
		is("create-string", fmt.Sprintf("(create-string %d c)", n), cstr([]rune(long)))
		is("length", fmt.Sprintf("(length (create-string %d c))", n), strconv.Itoa(n))
		k := r.N(n)
		is("elt", fmt.Sprintf("(elt (create-string %d c) %d)", n, k), canonChar(ch))
		is("subseq", fmt.Sprintf("(subseq (string-append (create-string %d c) s) %d %d)", n, n, n+len(s)), cstr(s))
		is("subseq", fmt.Sprintf("(subseq (string-append s (create-string %d c)) %d %d)", n, len(s)+n-1, len(s)+n), cstr([]rune{ch}))
		// many pieces, some of them empty, some long
		pieces, joined := "", []rune{}
		for i := r.In(2, 40); i > 0; i-- {
			switch r.N(5) {
			case 0:
				pieces += ` ""`
			case 1:
				pieces += fmt.Sprintf(" (create-string %d c)", n)
				joined = append(joined, []rune(long)...)
				if len(joined) > 100000 {
					i = 1
				}
			case 2:
				pieces, joined = pieces+" u", append(joined, u...)
			default:
				pieces, joined = pieces+" s", append(joined, s...)
			}
		}
		is("string-append", "(string-append"+pieces+")", cstr(joined))
		if len(u) > 0 {
			rest := strings.Repeat("-", n) + string(u)
			is("string-index", fmt.Sprintf("(string-index u (string-append (create-string %d #\\-) u))", n), strconv.Itoa(len([]rune(rest[:strings.Index(rest, string(u))]))))
		}
	}
	if r.P(20) {
		is("create-string", fmt.Sprintf("(length (create-string %d))", n), strconv.Itoa(n))
		is("create-string", fmt.Sprintf("(create-string %d c)", -1-n), "ERROR <domain-error>")
	}
	// searches
	for i := 0; i < 2; i++ {
		from, args := 0, ""
		if i == 1 {
			from = r.In(0, len(s)+1)
			args = " " + strconv.Itoa(from)
		}
		w := "nil"
		if k := indexRunes(s, u, from); k >= 0 {
			w = strconv.Itoa(k)
			c.Count("substring found", 1)
		}
		is("string-index", "(string-index u s"+args+")", w)
		w = "nil"
		if k := indexRunes(s, []rune{ch}, from); k >= 0 {
			w = strconv.Itoa(k)
			c.Count("character found", 1)
		}
		is("char-index", "(char-index c s"+args+")", w)
	}
	// comparisons
	x := cmpRunes(s, u)
	is("comparison", "(list (string= s u) (string/= s u) (string< s u) (string> s u) (string<= s u) (string>= s u))",
		fmt.Sprintf("(%s %s %s %s %s %s)", tnil(x == 0), tnil(x != 0), tnil(x < 0), tnil(x > 0), tnil(x <= 0), tnil(x >= 0)))
	ch2 := pick(r, c.alpha)
	vars[gl.NewSymbol("d")] = gl.Rune(ch2)
	is("character comparison", "(list (char= c d) (char/= c d) (char< c d) (char> c d) (char<= c d) (char>= c d))",
		fmt.Sprintf("(%s %s %s %s %s %s)", tnil(ch == ch2), tnil(ch != ch2), tnil(ch < ch2), tnil(ch > ch2), tnil(ch <= ch2), tnil(ch >= ch2)))
	is("equality", "(list (equal s u) (eql c d) (equal c d))", fmt.Sprintf("(%s %s %s)", tnil(x == 0), tnil(ch == ch2), tnil(ch == ch2)))
	// strings as sequences
	is("mapcar", "(mapcar (lambda (x) x) s)", clist(s))
	m := len(s)
	if len(u) < m {
		m = len(u)
	}
	pairs := []string{}
	for i := 0; i < m; i++ {
		pairs = append(pairs, "("+canonChar(s[i])+" "+canonChar(u[i])+")")
	}
	w := "nil"
	if m > 0 {
		w = "(" + strings.Join(pairs, " ") + ")"
	}
	is("mapcar", "(mapcar #'list s u)", w)
	is("iteration", "(let ((r nil)) (mapc (lambda (x) (setq r (cons x r))) s) (reverse r))", clist(s))
	is("iteration", "(let ((r nil) (i 0)) (while (< i (length s)) (setq r (cons (elt s i) r)) (setq i (+ i 1))) (reverse r))", clist(s))
	// conversions
	is("string to list", "(convert s <list>)", clist(s))
	vec := strings.TrimSuffix(strings.TrimPrefix(clist(s), "("), ")")
	if len(s) == 0 {
		vec = ""
	}
	is("string to vector", "(convert s <general-vector>)", fmt.Sprintf("#[%d][%s]", len(s), vec))
	is("list to vector and back", "(convert (convert (convert s <list>) <general-vector>) <list>)", clist(s))
	is("string to symbol and back", "(convert (convert s <symbol>) <string>)", cstr(s))
	is("string to symbol", "(eq (convert s <symbol>) (convert u <symbol>))", tnil(x == 0))
	is("character to integer", "(convert c <integer>)", strconv.Itoa(int(ch)))
	is("integer to character", fmt.Sprintf("(convert %d <character>)", ch), canonChar(ch))
	is("integer to character and back", "(convert (convert c <integer>) <character>)", canonChar(ch))
	is("character to symbol", "(convert (convert c <symbol>) <string>)", cstr([]rune{ch}))
	is("no character", fmt.Sprintf("(convert %d <character>)", pick(r, []int{-1, 0x110000, 0xD800, 0xDFFF, 1<<32 + 'a', -1<<32 + 'a', math.MaxInt64, math.MinInt64})), "ERROR <domain-error>")
	c.numbers(is)
	// wrong arguments
	bad := pick(r, []string{"5", "'s", "c", "(list 1)", "nil", "1.5"})
	is("wrong argument", pick(r, []string{"(string-append s " + bad + ")", "(string-append " + bad + " s)", "(string= s " + bad + ")", "(string< " + bad + " s)", "(string-index " + bad + " s)", "(string-index s " + bad + ")", "(char-index c " + bad + ")"}), "ERROR <domain-error>")
	bad = pick(r, []string{"5", "'c", "s", "nil"})
	is("wrong argument", pick(r, []string{"(char= c " + bad + ")", "(char< " + bad + " c)", "(char-index " + bad + " s)", "(create-string 3 " + bad + ")"}), "ERROR <domain-error>")
	if r.P(30) {
		is("wrong argument", pick(r, []string{"(convert s <nosuch>)", "(convert 'a <list>)", "(convert s <character>)", "(convert 1.5 <character>)", "(convert (create-array '(2 2) 0) <list>)", "(convert c <float>)", "(convert '(1) <integer>)"}), "ERROR")
	}
	// nothing changed
	is("unchanged", "(list s u)", "("+cstr(s)+" "+cstr(u)+")")
	c.Sample(string(s) + " | " + string(u))
}

func (c *strCase) numbers(is func(kind, src, want string) bool) {
	r := c.R
	i := int64(r.U64()) >> uint(r.N(64))
	if r.P(30) {
		i = pick(r, dInts)
	}
	si := strconv.FormatInt(i, 10)
	if i != math.MinInt64 {
		is("integer to string", "(convert "+si+" <string>)", strconv.QuoteToASCII(si))
	}
	is("string to integer", "(convert \""+si+"\" <integer>)", si)
	is("string to integer", "(parse-number \""+si+"\")", si)
	is("integer to float", "(convert (convert \""+si+"\" <integer>) <float>)", canonFloat(float64(i)))
	f := pick(r, dFloats)
	if r.P(60) {
		f = math.Float64frombits(r.U64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 0.1
		}
	}
	sf := strconv.FormatFloat(f, 'g', -1, 64)
	if !strings.ContainsAny(sf, ".e") {
		sf += ".0"
	}
	is("string to float", "(convert \""+sf+"\" <float>)", canonFloat(f))
	is("string to float", "(parse-number \""+sf+"\")", canonFloat(f))
	is("float to string and back", "(convert (convert (parse-number \""+sf+"\") <string>) <float>)", canonFloat(f))
	// float to integer: exact or an error
	g := float64(r.In(-1000, 1000))
	if r.P(30) {
		g = pick(r, []float64{1 << 53, -(1 << 60), 1 << 62, -(1 << 63), 1e15})
	}
	is("float to integer", "(convert "+fmtFloatLit(g)+" <integer>)", strconv.FormatInt(int64(g), 10))
	g = pick(r, []float64{1.5, -0.25, 1e300, 1 << 63, -1e19, 0.1, 123456.789})
	is("float without integer", "(convert "+fmtFloatLit(g)+" <integer>)", "ERROR <domain-error>")
	bad := pick(r, []string{"", "x", "1x", "--1", "1 2", "1,5", "é", "日", "-", "+", ".", "1.2.3", "e5", "0b2"})
	is("no number", "(convert \""+bad+"\" "+pick(r, []string{"<integer>", "<float>"})+")", "ERROR <parse-error>")
	is("no number", "(parse-number \""+bad+"\")", "ERROR <parse-error>")
	is("no number", "(convert \""+pick(r, []string{"0x10", "0b1", "0o17", "1_000", "0X1f", "1_0", "0_7", "#x10"})+"\" <integer>)", "ERROR <parse-error>")
	// decimal always: zeros in front and a sign change nothing
	j := i >> uint(r.N(60))
	zeros := strings.Repeat("0", r.In(1, 6))
	if t := strconv.FormatInt(j, 10); j >= 0 {
		is("string to integer", "(convert \""+pick(r, []string{"", "+"})+zeros+t+"\" <integer>)", t)
	} else {
		is("string to integer", "(convert \"-"+zeros+t[1:]+"\" <integer>)", t)
	}
	// lists and vectors of anything
	n := r.In(0, 12)
	if r.P(3) {
		n = r.In(60, 400)
	}
	elems, want := []string{}, []string{}
	for k := 0; k < n; k++ {
		e := pick(r, [][2]string{{"nil", "nil"}, {"t", "t"}, {"1", "1"}, {"\"b\"", "\"b\""}, {"(list nil)", "(nil)"}, {"'a", `'"a"`}, {"#\\c", canonChar('c')}, {"-7", "-7"}})
		elems, want = append(elems, e[0]), append(want, e[1])
	}
	list := "(" + strings.Join(want, " ") + ")"
	if n == 0 {
		list = "nil"
	}
	es := strings.Join(elems, " ")
	is("vector to list", "(convert (vector "+es+") <list>)", list)
	is("vector to list", fmt.Sprintf("(convert (elt (let ((m (create-array '(3 %d) 'x)) (i 0)) (mapc (lambda (e) (setf (aref m 1 i) e) (setq i (+ i 1))) (list %s)) m) 1) <list>)", max(n, 1), es), map[bool]string{true: `('"x")`, false: list}[n == 0])
	is("list to vector", "(convert (list "+es+") <general-vector>)", fmt.Sprintf("#[%d][%s]", n, strings.Join(want, " ")))
	is("list to list", "(let ((x (list "+es+"))) (if (eq (convert x <list>) x) x 'copied))", list)
	is("no number", "(convert \""+pick(r, []string{"9223372036854775808", "-9223372036854775809", "1.5", "99999999999999999999"})+"\" <integer>)", "ERROR <parse-error>")
}

func fmtFloatLit(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	return s
}

func init() {
	register(&Prop{
		ID: "C12", Quick: 80000, Thorough: 600000,
		Rule:   "distinct pairs of strings",
		Assume: []string{"strings of valid characters (no broken UTF-8)"},
		Need: []string{"length", "elt", "subseq", "string-append", "create-string", "string-index", "char-index", "substring found", "character found", "comparison", "mapcar",
			"string to list", "string to vector", "string to symbol and back", "no character", "float without integer", "no number", "strings with characters of several bytes"},
		Run: c12Run,
	})
}
