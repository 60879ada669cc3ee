package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// ev16 is a value to compare: the node, what it was made of, and whether it is a datum whose
// comparison is prescribed exactly.
type ev16 struct {
	node gl.Node
	d    *D // nil for opaque values
	text string
	id   int // values with the same id are the same object
	mut  bool
}

func isAtomD(d *D) bool { return d.K != 'l' && d.K != 'a' }

// eqD: 1 equal, 0 not, for atoms (eql).
func eqlAtom(a, b *D) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case 'i', 'y', 'k', 's', 'c', 'B':
		return a.I == b.I && a.S == b.S && a.C == b.C
	case 'f':
		return a.F == b.F
	}
	return true
}

func flatD(d *D) ([]*D, *D) {
	l, t := append([]*D{}, d.L...), d.Tail
	for t != nil && t.K == 'l' {
		l = append(l, t.L...)
		t = t.Tail
	}
	if t != nil && t.K == 'n' {
		t = nil
	}
	return l, t
}

func equalD(a, b *D) bool {
	if isAtomD(a) || isAtomD(b) {
		return isAtomD(a) && isAtomD(b) && eqlAtom(a, b)
	}
	if a.K != b.K {
		return false
	}
	if a.K == 'a' {
		if fmt.Sprint(a.Dim) != fmt.Sprint(b.Dim) || len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !equalD(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	}
	la, ta := flatD(a)
	lb, tb := flatD(b)
	if len(la) != len(lb) || (ta == nil) != (tb == nil) {
		return false
	}
	for i := range la {
		if !equalD(la[i], lb[i]) {
			return false
		}
	}
	return ta == nil || equalD(ta, tb)
}

// equalpD: 1 when equalp must hold (case and the type of numbers disregarded, at any depth), 0 when it must not,
// -1 where the letters' case is a matter of definition.
func equalpD(a, b *D) int {
	if isAtomD(a) || isAtomD(b) {
		num := func(d *D) *big.Rat {
			switch d.K {
			case 'i':
				return new(big.Rat).SetInt64(d.I)
			case 'f':
				return new(big.Rat).SetFloat64(d.F)
			}
			return nil
		}
		if !isAtomD(a) || !isAtomD(b) {
			return 0
		}
		if x, y := num(a), num(b); x != nil && y != nil {
			return b2i(x.Cmp(y) == 0)
		}
		if a.K != b.K {
			return 0
		}
		switch a.K {
		case 's', 'c':
			x, y := a.S, b.S
			if a.K == 'c' {
				x, y = string(a.C), string(b.C)
			}
			fold := b2i(strings.EqualFold(x, y))
			if fold != b2i(strings.ToLower(x) == strings.ToLower(y)) || fold != b2i(strings.ToUpper(x) == strings.ToUpper(y)) {
				return -1
			}
			return fold
		}
		return b2i(eqlAtom(a, b))
	}
	if a.K != b.K {
		return 0
	}
	la, ta := a.L, (*D)(nil)
	lb, tb := b.L, (*D)(nil)
	if a.K == 'a' {
		if fmt.Sprint(a.Dim) != fmt.Sprint(b.Dim) {
			return 0
		}
	} else {
		la, ta = flatD(a)
		lb, tb = flatD(b)
	}
	if len(la) != len(lb) || (ta == nil) != (tb == nil) {
		return 0
	}
	if ta != nil {
		la, lb = append(la, ta), append(lb, tb)
	}
	res := 1
	for i := range la {
		switch equalpD(la[i], lb[i]) {
		case 0:
			return 0
		case -1:
			res = -1
		}
	}
	return res
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func cloneD(d *D) *D {
	if d == nil {
		return nil
	}
	c := *d
	c.L = make([]*D, len(d.L))
	for i, e := range d.L {
		c.L[i] = cloneD(e)
	}
	c.Tail = cloneD(d.Tail)
	c.Dim = append([]int{}, d.Dim...)
	return &c
}

// nearD is d with one small difference somewhere.
func nearD(r *Rng, d *D) *D {
	c := cloneD(d)
	p := c
	for !isAtomD(p) && len(p.L) > 0 && r.P(85) {
		if p.Tail != nil && r.P(20) {
			p = p.Tail
			continue
		}
		k := len(p.L) - 1
		if r.P(60) {
			k = r.N(len(p.L))
		}
		p = p.L[k]
	}
	switch p.K {
	case 'i':
		if r.P(50) {
			*p = D{K: 'f', F: float64(p.I)}
		} else {
			p.I++
		}
	case 'f':
		if r.P(50) && p.F == float64(int64(p.F)) {
			*p = D{K: 'i', I: int64(p.F)}
		} else {
			p.F = p.F*2 + 1
		}
	case 's':
		switch r.N(4) {
		case 0:
			p.S = strings.ToUpper(p.S)
		case 1:
			*p = D{K: 'y', S: p.S}
		case 2:
			p.S += "x"
		case 3:
			p.S = strings.ToLower(p.S)
		}
	case 'c':
		switch r.N(3) {
		case 0:
			p.C = []rune(strings.ToUpper(string(p.C)))[0]
		case 1:
			*p = D{K: 's', S: string(p.C)}
		case 2:
			p.C++
			if p.C >= 0xD800 && p.C <= 0xDFFF || p.C > 0x10FFFF {
				p.C = 'q'
			}
		}
	case 'y':
		*p = D{K: 's', S: p.S}
	case 'n':
		*p = *pick(r, []*D{{K: 't'}, {K: 'y', S: "nil"}, {K: 'i'}, {K: 's'}, {K: 'a', Dim: []int{0}}})
	case 't':
		*p = *pick(r, []*D{{K: 'n'}, {K: 'y', S: "t"}})
	case 'l':
		switch {
		case p.Tail == nil && r.P(40):
			p.Tail = genAtom(r, false)
		case p.Tail == nil && r.P(40):
			*p = D{K: 'a', Dim: []int{len(p.L)}, L: p.L}
		case len(p.L) > 1:
			p.L = p.L[:len(p.L)-1]
		default:
			p.L = append(p.L, &D{K: 'n'})
		}
	case 'a':
		switch {
		case len(p.Dim) >= 2 && len(p.L) > 0 && r.P(60):
			// the same elements in another shape
			d := append([]int{}, p.Dim...)
			switch r.N(3) {
			case 0:
				d[0], d[len(d)-1] = d[len(d)-1], d[0]
			case 1:
				d = append([]int{d[0] * d[1]}, d[2:]...)
			case 2:
				i := r.N(len(d) + 1)
				d = append(d[:i:i], append([]int{1}, d[i:]...)...)
			}
			p.Dim = d
		case len(p.Dim) == 2 && len(p.L) > 0:
			p.Dim = []int{len(p.L)}
		case len(p.Dim) > 2:
			p.L = append(p.L, p.L...)
			p.Dim[0] *= 2
		case len(p.Dim) == 1 && len(p.L) > 0 && r.P(50):
			p.Dim = []int{1, len(p.L)}
		case len(p.Dim) == 1 && len(p.L) > 0:
			*p = D{K: 'l', L: p.L}
		case len(p.Dim) == 1:
			p.Dim = []int{1}
			p.L = []*D{{K: 'n'}}
		}
	}
	return c
}

const c16Prelude = `(defclass <pt> () ((a :initarg a :accessor pt-a) (b :initarg b :accessor pt-b) (c :initarg c)))
(defclass <pt2> (<pt>) ((d :initarg d)))
(defgeneric gf (x)) (defmethod gf ((x <integer>)) x) (defmethod gf ((x <string>)) x)
(defun named (x) x)
(defun catch-condition (th) (block b (with-handler (lambda (c) (return-from b c)) (funcall th))))`

var c16Opaque = []string{
	"(create (class <pt>) 'a nil)", "(create (class <pt>) 'b 5)", "(create (class <pt>) 'a 1 'b 2)", "(create (class <pt>) 'a 1 'b 2)", "(create (class <pt>) 'a 1.0 'b 2)", "(create (class <pt>))", "(create (class <pt2>) 'a 1 'b 2)", "(create (class <pt2>) 'a 1 'd 2)",
	"(create (class <pt>) 'a (list 1 \"x\"))", "(create (class <pt>) 'a (list 1 \"X\"))", "(create (class <pt>) 'b nil)", "(create (class <pt>) 'a nil 'b nil)",
	"#'car", "#'cdr", "(lambda (x) x)", "(lambda (x) x)", "#'named", "#'gf", "#'when", "#'nth", "#'pt-a", "(let ((n 0)) (lambda () n))",
	"(class <integer>)", "(class <pt>)", "(class <pt2>)", "(class <error>)", "(class <list>)",
	"(make-hash-table)", "(let ((h (make-hash-table))) (setf (gethash 1 h) 2) h)", "(let ((h (make-hash-table))) (setf (gethash 1 h) 2) h)",
	"(create-string-output-stream)", "(create-string-input-stream \"abc\")", "(create-string-input-stream \"abc\")", "(standard-output)", "(error-output)", "(standard-input)",
	"(gensym)", "(gensym)",
	"(catch-condition (lambda () (car 5)))", "(catch-condition (lambda () (car 5)))", "(catch-condition (lambda () (car nil)))", "(catch-condition (lambda () (car (list (list)))))", "(catch-condition (lambda () (+ 'a 1)))", "(catch-condition (lambda () (/ 1 0)))", "(catch-condition (lambda () (/ 1 0)))", "(catch-condition (lambda () (mod 2 0)))",
	"(catch-condition (lambda () nosuch))", "(catch-condition (lambda () (nosuch)))", "(catch-condition (lambda () (error \"x ~a\" 1)))", "(catch-condition (lambda () (error \"x ~a\" 1)))", "(catch-condition (lambda () (convert \"zz\" <integer>)))", "(catch-condition (lambda () (parse-number \"zz\")))", "(catch-condition (lambda () (read-char (create-string-input-stream \"\"))))",
	"(catch-condition (lambda () (throw 'nosuch 1)))", "(catch-condition (lambda () (named)))", "(catch-condition (lambda () (elt (vector 1) 5)))", "(catch-condition (lambda () (create-array '(100000000 100000000))))", "(catch-condition (lambda () (open-input-file \"/no/such/file\")))",
	"*err-quit*", "*err-not-exist*", "*err-exist*", "(macroexpand '(when a b))", "pi", "most-positive-fixnum", "(vector)", "(create-array nil 5)",
}

func c16Run(c *Case) {
	r := c.R
	m := newMon()
	if o := m.Run(c16Prelude); o.Kind != "value" {
		c.Fail("prelude", c16Prelude, "a value", o.Full())
		return
	}
	var vs []*ev16
	add := func(n gl.Node, d *D, text string, mut bool) *ev16 {
		v := &ev16{node: n, d: d, text: text, id: len(vs), mut: mut}
		vs = append(vs, v)
		return v
	}
	// data, their copies and their neighbours
	for i := 0; i < 3; i++ {
		d := genD(r, r.N(4), r.P(20))
		if r.P(2) {
			d = genBig(r, r.P(20))
			c.Count("big", 1)
		}
		if r.P(12) {
			d = &D{K: 'a', Dim: []int{r.In(1, 4), r.In(1, 4)}}
			if r.P(30) {
				d.Dim = append(d.Dim, r.In(1, 3))
			}
			n := 1
			for _, k := range d.Dim {
				n *= k
			}
			for ; n > 0; n-- {
				d.L = append(d.L, genD(r, r.N(2), false))
			}
		}
		add(d.Node(), d, d.Canon(), false)
		if r.P(60) {
			add(d.Node(), cloneD(d), d.Canon(), false)
		}
		for k := 0; k < 2; k++ {
			e := nearD(r, d)
			add(e.Node(), e, e.Canon(), false)
		}
	}
	// opaque values, and lists and vectors of them
	n := r.In(2, 5)
	from := r.N(len(c16Opaque))
	for i := 0; i < n; i++ {
		src := pick(r, c16Opaque)
		if r.P(55) { // neighbours in the table are alike
			src = c16Opaque[(from+r.N(4))%len(c16Opaque)]
		}
		o := m.Run(src)
		if o.Kind != "value" {
			c.Fail("value", src, "a value", o.Full())
			return
		}
		v := add(o.Node, nil, src, true)
		if r.P(30) {
			v.mut = false
			v.node = gl.List(v.node, gl.Integer(1))
			v.text = "(list " + src + " 1)"
		} else if r.P(20) {
			a, err := callFn(m.W, "vector", v.node, gl.String("x"))
			if err != nil {
				c.Fail("vector", src, "a vector", err.Error())
				return
			}
			v.mut = false
			v.node = a
			v.text = "(vector " + src + " \"x\")"
		} else if r.P(15) {
			cr := letVar(m.W, "x", v.node)
			o := interp(cr, "(create (class <pt>) 'a x)")
			if o.Kind == "value" {
				v.node = o.Node
				v.text = "(create (class <pt>) 'a " + src + ")"
			}
		}
	}
	res := make([][]string, len(vs))
	w := m.W.Let(gl.Variables{gl.NewSymbol("x"): gl.Null, gl.NewSymbol("y"): gl.Null})
	_ = w
	for i, a := range vs {
		res[i] = make([]string, len(vs))
		for j, b := range vs {
			ww := m.W.Let(gl.Variables{gl.NewSymbol("x"): a.node, gl.NewSymbol("y"): b.node})
			o := interp(ww, "(list (if (eq x y) 1 0) (if (eql x y) 1 0) (if (equal x y) 1 0) (if (equalp x y) 1 0))")
			c.Eval()
			c.Count("pairs compared", 1)
			input := "x = " + a.text + "\ny = " + b.text
			if i == j {
				input += " (the same object)"
			}
			if o.Kind != "value" {
				c.Fail("comparison fails", input, "no error", o.Full())
				return
			}
			g := o.Val
			res[i][j] = g
			c.Count("pairs "+g, 1)
			eq, eql, equal, equalp := g[1] == '1', g[3] == '1', g[5] == '1', g[7] == '1'
			switch {
			case eq && !eql || eql && !equal || equal && !equalp:
				c.Fail("hierarchy", input, "eq implies eql implies equal implies equalp", g)
				return
			case i == j && !eq && !(a.d != nil && isAtomD(a.d)):
				c.Fail("reflexivity", input, "(1 1 1 1)", g)
				return
			case i == j && !eql:
				c.Fail("reflexivity", input, "(. 1 1 1)", g)
				return
			case j < i && res[j][i] != g:
				c.Fail("symmetry", input, res[j][i], g)
				return
			}
			if i != j && a.d != nil && b.d != nil {
				c.Count("prescribed pairs", 1)
				wantEql := isAtomD(a.d) && isAtomD(b.d) && eqlAtom(a.d, b.d)
				if eql != wantEql {
					c.Fail("eql", input, strconv.FormatBool(wantEql), g)
					return
				}
				if we := equalD(a.d, b.d); equal != we {
					c.Fail("equal", input, strconv.FormatBool(we), g)
					return
				}
				if wp := equalpD(a.d, b.d); wp >= 0 && b2i(equalp) != wp {
					c.Fail("equalp", input, strconv.FormatBool(wp == 1), g)
					return
				}
				if equal && !wantEql {
					c.Count("equal copies", 1)
				}
				if equalp && !equal {
					c.Count("equalp only", 1)
				}
			}
			if i != j && (a.d == nil) != (b.d == nil) && (a.mut || b.mut) && eql && !strings.HasPrefix(a.text+b.text, "pi") {
				other := a
				if a.d == nil {
					other = b
				}
				if !isAtomD(other.d) {
					c.Fail("eql", input, "distinct objects are not eql", g)
					return
				}
			}
			c.Distinct(input)
		}
	}
	// member, assoc, case, catch and case-using select by the predicate
	var keys []gl.Node
	var idx []int
	for i := 0; i < r.In(2, 6); i++ {
		k := r.N(len(vs))
		idx = append(idx, k)
		keys = append(keys, vs[k].node)
	}
	x := r.N(len(vs))
	first := func(pos int) int {
		for i, k := range idx {
			if res[x][k][pos] == '1' {
				return i
			}
		}
		return -1
	}
	pairs := make([]gl.Node, len(keys))
	for i, k := range keys {
		pairs[i] = &gl.Cons{Car: k, Cdr: gl.Integer(i)}
	}
	quote := func(n gl.Node) gl.Node { return gl.List(gl.NewSymbol("quote"), n) }
	caseForm := []gl.Node{gl.NewSymbol("case"), quote(vs[x].node)}
	using := []gl.Node{gl.NewSymbol("case-using"), gl.List(gl.NewSymbol("function"), gl.NewSymbol("equal")), quote(vs[x].node)}
	for i, k := range keys {
		caseForm = append(caseForm, gl.List(gl.List(k), gl.Integer(i)))
		using = append(using, gl.List(gl.List(k), gl.Integer(i)))
	}
	caseForm = append(caseForm, gl.List(gl.True, gl.Integer(-1)))
	using = append(using, gl.List(gl.True, gl.Integer(-1)))
	env := m.W.Let(gl.Variables{
		gl.NewSymbol("x"): vs[x].node, gl.NewSymbol("l"): gl.List(keys...), gl.NewSymbol("al"): gl.List(pairs...),
		gl.NewSymbol("casef"): gl.List(caseForm...), gl.NewSymbol("usingf"): gl.List(using...), gl.NewSymbol("k"): keys[0],
	})
	try := func(kind, src, want string) bool {
		o := interp(env, src)
		c.Eval()
		c.Count(kind, 1)
		if o.String() != want {
			var b strings.Builder
			fmt.Fprintf(&b, "%s\nx = %s\nl =", src, vs[x].text)
			for _, k := range idx {
				fmt.Fprintf(&b, "\n   %s", vs[k].text)
				if k == x {
					b.WriteString(" (the same object)")
				}
			}
			c.Fail(kind, b.String(), want, o.Full())
			return false
		}
		return true
	}
	f := first(3)
	if f >= 0 {
		c.Count("selected", 1)
	}
	wm := 0
	if f >= 0 {
		wm = len(idx) - f
	}
	ok := try("member", "(length (member x l))", strconv.Itoa(wm)) &&
		try("assoc", "(let ((p (assoc x al))) (if p (cdr p) -1))", strconv.Itoa(f)) &&
		try("case", "(eval casef)", strconv.Itoa(f)) &&
		try("case-using", "(eval usingf)", strconv.Itoa(first(5)))
	if ok {
		w := "thrown"
		if res[x][idx[0]][3] != '1' {
			w = "no-tag"
		}
		try("catch", "(block b (with-handler (lambda (c) (return-from b 'no-tag)) (catch k (throw x 'thrown) 'normal)))", "'"+strconv.Quote(w))
	}
	c.Sample(vs[0].text + " | " + vs[1].text + " | " + vs[len(vs)-1].text)
}

func init() {
	register(&Prop{
		ID: "C16", Quick: 12000, Thorough: 300000,
		Rule:   "distinct pairs of values compared (by their texts)",
		Assume: []string{"data without cycles, NaN excluded"},
		Need:   []string{"prescribed pairs", "equal copies", "member", "assoc", "case", "case-using", "catch", "selected", "pairs (1 1 1 1)", "pairs (0 0 1 1)", "pairs (0 0 0 1)", "pairs (0 0 0 0)"},
		Run:    c16Run,
	})
}
