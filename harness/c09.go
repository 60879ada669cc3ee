package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

type cnum struct {
	isF bool
	i   int64
	f   float64
}

func (n cnum) node() gl.Node {
	if n.isF {
		return gl.Float(n.f)
	}
	return gl.Integer(n.i)
}

func (n cnum) canon() string {
	if n.isF {
		return canonFloat(n.f)
	}
	return strconv.FormatInt(n.i, 10)
}

func (n cnum) float() float64 {
	if n.isF {
		return n.f
	}
	return float64(n.i)
}

func (n cnum) zero() bool { return n.isF && n.f == 0 || !n.isF && n.i == 0 }

// rat is the exact value; nil for infinities and NaN.
func (n cnum) rat() *big.Rat {
	if !n.isF {
		return new(big.Rat).SetInt64(n.i)
	}
	if math.IsInf(n.f, 0) || math.IsNaN(n.f) {
		return nil
	}
	return new(big.Rat).SetFloat64(n.f)
}

// ccmp is -1, 0, 1, or 2 when unordered.
func ccmp(a, b cnum) int {
	if a.isF && math.IsNaN(a.f) || b.isF && math.IsNaN(b.f) {
		return 2
	}
	ra, rb := a.rat(), b.rat()
	if ra != nil && rb != nil {
		return ra.Cmp(rb)
	}
	x, y := a.float(), b.float()
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

var errDivZero = fmt.Errorf("division by zero")
var errSkip = fmt.Errorf("outside what is prescribed")

// fold is the model of + - * / on the operands.
func foldNum(op string, xs []cnum) (cnum, error, [2]cnum) {
	var none [2]cnum
	if len(xs) == 0 {
		if op == "*" {
			return cnum{i: 1}, nil, none
		}
		return cnum{}, nil, none
	}
	if op == "-" && len(xs) == 1 {
		if xs[0].isF {
			return cnum{isF: true, f: 0 - xs[0].f}, nil, none
		}
		if xs[0].i == math.MinInt64 {
			return cnum{}, errSkip, none
		}
		return cnum{i: -xs[0].i}, nil, none
	}
	allInt := true
	for _, x := range xs {
		allInt = allInt && !x.isF
	}
	if allInt && op != "/" {
		z := big.NewInt(xs[0].i)
		for _, x := range xs[1:] {
			y := big.NewInt(x.i)
			switch op {
			case "+":
				z.Add(z, y)
			case "-":
				z.Sub(z, y)
			case "*":
				z.Mul(z, y)
			}
		}
		if !z.IsInt64() {
			return cnum{}, errSkip, none
		}
		return cnum{i: z.Int64()}, nil, none
	}
	acc := xs[0]
	for _, x := range xs[1:] {
		if op == "/" && x.zero() {
			return cnum{}, errDivZero, [2]cnum{acc, x}
		}
		if acc.isF || x.isF {
			a, b := acc.float(), x.float()
			switch op {
			case "+":
				a += b
			case "-":
				a -= b
			case "*":
				a *= b
			case "/":
				a /= b
			}
			acc = cnum{isF: true, f: a}
			continue
		}
		z, y := big.NewInt(acc.i), big.NewInt(x.i)
		switch op {
		case "+":
			z.Add(z, y)
		case "-":
			z.Sub(z, y)
		case "*":
			z.Mul(z, y)
		case "/":
			z.Quo(z, y)
		}
		if !z.IsInt64() {
			return cnum{}, errSkip, none
		}
		acc = cnum{i: z.Int64()}
	}
	return acc, nil, none
}

// remNum is the model of rem and mod.
func remNum(op string, a, b cnum) (cnum, error) {
	if b.zero() {
		return cnum{}, errDivZero
	}
	if !a.isF && !b.isF {
		x, y := big.NewInt(a.i), big.NewInt(b.i)
		q, r := new(big.Int).QuoRem(x, y, new(big.Int))
		_ = q
		if op == "mod" && r.Sign() != 0 && r.Sign() != y.Sign() {
			r.Add(r, y)
		}
		return cnum{i: r.Int64()}, nil
	}
	fa, fb := a.float(), b.float()
	x, y := cnum{isF: true, f: fa}.rat(), cnum{isF: true, f: fb}.rat()
	if x == nil || y == nil || fa == 0 {
		return cnum{}, errSkip
	}
	// the exact remainder, rounded once; beyond 2000 bits of quotient it is not worth it
	q := new(big.Rat).Quo(x, y)
	t := new(big.Int).Quo(q.Num(), q.Denom())
	r := new(big.Rat).Sub(x, new(big.Rat).Mul(y, new(big.Rat).SetInt(t)))
	if op == "mod" && r.Sign() != 0 && r.Sign() != y.Sign() {
		r.Add(r, y)
	}
	f, _ := r.Float64()
	if f == 0 {
		return cnum{}, errSkip // the sign of a zero remainder is not prescribed
	}
	return cnum{isF: true, f: f}, nil
}

func roundNum(op string, a cnum) (int64, bool) {
	if !a.isF {
		return a.i, true
	}
	r := a.rat()
	if r == nil {
		return 0, false
	}
	fl := new(big.Int).Div(r.Num(), r.Denom()) // floor: the denominator is positive
	frac := new(big.Rat).Sub(r, new(big.Rat).SetInt(fl))
	z := new(big.Int).Set(fl)
	switch op {
	case "ceiling":
		if frac.Sign() > 0 {
			z.Add(z, big.NewInt(1))
		}
	case "truncate":
		if frac.Sign() > 0 && r.Sign() < 0 {
			z.Add(z, big.NewInt(1))
		}
	case "round":
		switch frac.Cmp(big.NewRat(1, 2)) {
		case 1:
			z.Add(z, big.NewInt(1))
		case 0:
			if fl.Bit(0) == 1 {
				z.Add(z, big.NewInt(1))
			}
		}
	}
	return z.Int64(), z.IsInt64()
}

var c09Floats = append(append([]float64{}, dFloats...), 2.5, -2.5, 3.5, -3.5, 0.49999999999999994, 4503599627370495.5, -0.5, 1e300, -1e300, 9.223372036854775e18, 9.223372036854776e18, -9.223372036854776e18, 1.8e19, 4.5, 1e-300, 9007199254740993, -7.5, 1e18)

func genNum(r *Rng) cnum {
	switch r.W(40, 20, 25, 15) {
	case 0:
		return cnum{i: int64(r.In(-12, 12))}
	case 1:
		switch r.N(3) {
		case 0:
			return cnum{i: pick(r, dInts)}
		case 1:
			return cnum{i: int64(r.U64()) >> uint(r.N(64))}
		}
		return cnum{i: int64(r.In(-100000, 100000))}
	case 2:
		return cnum{isF: true, f: float64(r.In(-40, 40)) / pick(r, []float64{1, 2, 4, 8, 10})}
	}
	return cnum{isF: true, f: pick(r, c09Floats)}
}

// near makes a number close to another, across the types.
func near(r *Rng, n cnum) cnum {
	switch r.N(5) {
	case 0:
		if n.isF {
			if n.f >= -9e18 && n.f <= 9e18 {
				return cnum{i: int64(n.f)}
			}
			return n
		}
		return cnum{isF: true, f: float64(n.i)}
	case 1:
		if n.isF {
			return cnum{isF: true, f: math.Nextafter(n.f, math.Inf(1))}
		}
		if n.i < math.MaxInt64 {
			return cnum{i: n.i + 1}
		}
	case 2:
		if n.isF {
			return cnum{isF: true, f: math.Nextafter(n.f, math.Inf(-1))}
		}
		if n.i > math.MinInt64 {
			return cnum{i: n.i - 1}
		}
	case 3:
		return n
	}
	return genNum(r)
}

type c09 struct {
	*Case
	m    *Mon
	vars gl.Variables
	n    int
}

// operand is the text by which the program gets the number.
func (c *c09) operand(n cnum) string {
	if c.R.P(50) && !(n.isF && (math.IsNaN(n.f) || math.IsInf(n.f, 0))) {
		if n.isF {
			return gl.Float(n.f).String()
		}
		return strconv.FormatInt(n.i, 10)
	}
	c.n++
	name := fmt.Sprintf("v%d", c.n)
	c.vars[gl.NewSymbol(name)] = n.node()
	if c.R.P(20) {
		return "(ev " + name + ")"
	}
	return name
}

func (c *c09) call(op string, xs []cnum) string {
	ops := make([]string, len(xs))
	for i, x := range xs {
		ops[i] = c.operand(x)
	}
	return c.spell(op, ops)
}

func (c *c09) spell(op string, ops []string) string {
	args := strings.Join(ops, " ")
	switch c.R.N(8) {
	case 0:
		return "(apply #'" + op + " (list " + args + "))"
	case 1:
		return "(funcall #'" + op + " " + args + ")"
	case 2:
		return "((lambda (&rest r) (apply #'" + op + " r)) " + args + ")"
	}
	return "(" + op + " " + args + ")"
}

// run evaluates src under a handler which records that it ran.
func (c *c09) run(src string) (Outcome, []string) {
	c.m.Events = nil
	o := interp(c.m.W.Let(c.vars), "(with-handler (lambda (c) (ev 'handler (class-name* c))) "+src+")")
	c.Eval()
	evs := []string{}
	for _, e := range c.m.Take() {
		if strings.HasPrefix(e, "'\"handler\"") {
			evs = append(evs, e)
		}
	}
	return o, evs
}

func (c *c09) show(src string) string {
	s := src
	for k, v := range c.vars {
		s += fmt.Sprintf("  [%s=%s]", k, canon(v))
	}
	return s
}

// expect wants the value and no handler.
func (c *c09) expect(src, want string, what string) {
	o, evs := c.run(src)
	c.Distinct(src + canonVars(c.vars))
	c.Count(what, 1)
	if o.Kind != "value" || o.Val != want {
		c.Fail(what, c.show(src), want, o.Full())
		return
	}
	if len(evs) > 0 {
		c.Fail("handler-ran", c.show(src), "no handler call", strings.Join(evs, ";"))
	}
	c.Sample(c.show(src) + " => " + o.Val)
}

func canonVars(v gl.Variables) string {
	parts := []string{}
	for _, n := range v {
		parts = append(parts, canon(n))
	}
	return strings.Join(parts, " ")
}

// expectError wants an error of the class, delivered once.
func (c *c09) expectError(src, class, event, what string) {
	o, evs := c.run(src)
	c.Distinct(src + canonVars(c.vars))
	c.Count(what, 1)
	if o.Kind != "error" || class != "" && o.Class != class {
		c.Fail(what, c.show(src), "ERROR "+class, o.Full())
		return
	}
	if event != "" && (len(evs) != 1 || evs[0] != event) {
		c.Fail(what+".handler", c.show(src), event, strings.Join(evs, ";"))
	}
}

func boolCanon(b bool) string {
	if b {
		return "t"
	}
	return "nil"
}

func (c *c09) one() {
	r := c.R
	c.vars = gl.Variables{}
	c.n = 0
	xs := []cnum{}
	for n := r.In(1, 4); n > 0; n-- {
		if len(xs) > 0 && r.P(40) {
			xs = append(xs, near(r, xs[len(xs)-1]))
		} else {
			xs = append(xs, genNum(r))
		}
	}
	if r.P(15) {
		xs = append(xs, genNum(r), genNum(r))
	}
	switch r.W(26, 10, 20, 10, 10, 6, 8, 5, 5) {
	case 0: // + - * /
		op := pick(r, []string{"+", "-", "*", "/"})
		if op == "*" || op == "+" {
			if r.P(5) {
				xs = nil
			}
		}
		if op == "/" && len(xs) == 1 {
			xs = append(xs, genNum(r))
		}
		if op == "/" && r.P(15) {
			xs[r.In(1, len(xs)-1)] = pick(r, []cnum{{i: 0}, {isF: true}, {isF: true, f: math.Copysign(0, -1)}})
		}
		v, err, at := foldNum(op, xs)
		src := c.call(op, xs)
		switch err {
		case nil:
			want := v.canon()
			if op == "-" && len(xs) == 1 && v.isF && v.f == 0 {
				return
			}
			c.expect(src, want, "fold")
		case errDivZero:
			c.expectError(src, "<division-by-zero>", fmt.Sprintf("'\"handler\" ('\"<division-by-zero>\" (%s %s))", at[0].canon(), at[1].canon()), "division-by-zero")
		default:
			c.run(src)
			c.Count("unprescribed", 1)
		}
	case 1: // rem mod
		op := pick(r, []string{"rem", "mod"})
		a, b := genNum(r), genNum(r)
		if a.isF && math.Abs(a.f) > 1e40 || b.isF && math.Abs(b.f) < 1e-40 && b.f != 0 {
			a, b = cnum{isF: true, f: -7.25}, cnum{i: 2}
		}
		v, err := remNum(op, a, b)
		src := c.call(op, []cnum{a, b})
		switch err {
		case nil:
			c.expect(src, v.canon(), "rem")
		case errDivZero:
			c.expectError(src, "<division-by-zero>", fmt.Sprintf("'\"handler\" ('\"<division-by-zero>\" (%s %s))", a.canon(), b.canon()), "division-by-zero")
		default:
			c.run(src)
			c.Count("unprescribed", 1)
		}
	case 2: // comparison chains
		op := pick(r, []string{"<", "<=", ">", ">=", "=", "/="})
		if len(xs) < 2 {
			xs = append(xs, near(r, xs[0]))
		}
		if r.P(40) { // an ordered chain with at most one flaw
			asc := append([]cnum{}, xs...)
			for i := 1; i < len(asc); i++ {
				for j := i; j > 0 && ccmp(asc[j], asc[j-1]) < 0; j-- {
					asc[j], asc[j-1] = asc[j-1], asc[j]
				}
			}
			if op[0] == '>' {
				for i, j := 0, len(asc)-1; i < j; i, j = i+1, j-1 {
					asc[i], asc[j] = asc[j], asc[i]
				}
			}
			if r.P(30) {
				k := r.N(len(asc))
				asc[k] = genNum(r)
			}
			xs = asc
		}
		if r.P(4) {
			xs[r.N(len(xs))] = cnum{isF: true, f: pick(r, []float64{math.Inf(1), math.Inf(-1), math.NaN()})}
		}
		if op == "/=" {
			xs = xs[:2]
		}
		want := true
		for i := 1; i < len(xs); i++ {
			k := ccmp(xs[i-1], xs[i])
			ok := false
			switch op {
			case "<":
				ok = k == -1
			case "<=":
				ok = k == -1 || k == 0
			case ">":
				ok = k == 1
			case ">=":
				ok = k == 1 || k == 0
			case "=":
				ok = k == 0
			case "/=":
				ok = k != 0
			}
			want = want && ok
		}
		c.expect(c.call(op, xs), boolCanon(want), "compare")
		if want {
			c.Count("compare.true", 1)
		}
	case 3: // rounding
		op := pick(r, []string{"floor", "ceiling", "truncate", "round"})
		a := xs[0]
		switch r.W(35, 30, 35) {
		case 0:
			a = cnum{isF: true, f: float64(r.In(-30, 30)) / 4}
		case 1: // at, or one step beside, a half or a whole
			f := float64(r.In(-6, 6)) / 2
			switch r.N(3) {
			case 0:
				f = math.Nextafter(f, 1e9)
			case 1:
				f = math.Nextafter(f, -1e9)
			}
			a = cnum{isF: true, f: f}
			if r.P(40) { // where the steps between floats are a quarter to four
				f = math.Ldexp(1, r.In(50, 55)) + float64(r.In(-9, 9))*pick(r, []float64{0.25, 0.5, 1, 2})
				a.f = f * pick(r, []float64{1, -1})
			}
		}
		v, ok := roundNum(op, a)
		if ok {
			c.expect(c.call(op, []cnum{a}), fmt.Sprint(v), "round")
		} else {
			c.expectError(c.call(op, []cnum{a}), "", "", "round.overflow")
		}
	case 4: // max min
		op := pick(r, []string{"max", "min"})
		src := c.call(op, xs)
		o, evs := c.run(src)
		c.Distinct(src + canonVars(c.vars))
		c.Count("extreme", 1)
		best := xs[0]
		for _, x := range xs {
			k := ccmp(x, best)
			if op == "max" && k > 0 || op == "min" && k < 0 {
				best = x
			}
		}
		ok := false
		for _, x := range xs {
			if ccmp(x, best) == 0 && o.Val == x.canon() {
				ok = true
			}
		}
		if !ok || len(evs) > 0 {
			c.Fail("extreme", c.show(src), best.canon(), o.Full())
		}
	case 5: // 1+ 1- predicates
		a := xs[0]
		if r.P(30) {
			a = cnum{i: int64(r.In(-3, 3))}
		}
		switch op := pick(r, []string{"1+", "1-", "plusp", "minusp", "zerop", "oddp", "evenp", "integerp", "floatp", "numberp"}); op {
		case "1+", "1-":
			v, err, _ := foldNum(op[1:], []cnum{a, {i: 1}})
			if err == nil {
				c.expect(c.call(op, []cnum{a}), v.canon(), "fold")
			}
		case "plusp":
			c.expect(c.call(op, []cnum{a}), boolCanon(ccmp(a, cnum{}) == 1), "predicate")
		case "minusp":
			c.expect(c.call(op, []cnum{a}), boolCanon(ccmp(a, cnum{}) == -1), "predicate")
		case "zerop":
			c.expect(c.call(op, []cnum{a}), boolCanon(a.zero()), "predicate")
		case "oddp":
			if !a.isF {
				c.expect(c.call(op, []cnum{a}), boolCanon(a.i%2 != 0), "predicate")
			}
		case "evenp":
			if !a.isF {
				c.expect(c.call(op, []cnum{a}), boolCanon(a.i%2 == 0), "predicate")
			}
		case "integerp":
			c.expect(c.call(op, []cnum{a}), boolCanon(!a.isF), "predicate")
		case "floatp":
			c.expect(c.call(op, []cnum{a}), boolCanon(a.isF), "predicate")
		case "numberp":
			c.expect(c.call(op, []cnum{a}), "t", "predicate")
		}
	case 6: // sqrt, parse-number
		a := xs[0]
		if r.P(50) {
			if ccmp(a, cnum{}) < 0 {
				c.expectError(c.call("sqrt", []cnum{a}), "<domain-error>", fmt.Sprintf("'\"handler\" ('\"<domain-error>\" %s <class \"<number>\">)", a.canon()), "sqrt.negative")
			} else {
				c.expect(c.call("sqrt", []cnum{a}), canonFloat(math.Sqrt(a.float())), "sqrt")
			}
			return
		}
		text := a.node().(fmt.Stringer).String()
		c.vars[gl.NewSymbol("text")] = gl.String(text)
		c.expect("(parse-number text)", a.canon(), "parse-number")
	case 7: // an operand which is no number
		op := pick(r, []string{"+", "-", "*", "/", "<", "<=", ">", ">=", "rem", "mod", "1+", "floor", "round", "sqrt", "max", "min"})
		bad := pick(r, []string{"'a", "\"1\"", "nil", "t", "'(1)", "#(1)", "#\\1", "'|1|"})
		ops := []string{}
		n := 2
		switch op {
		case "1+", "floor", "round", "sqrt", "zerop", "plusp":
			n = 1
		case "+", "-", "*", "max", "min":
			n = r.In(2, 5)
		}
		at := r.N(n)
		for i := 0; i < n; i++ {
			if i == at {
				ops = append(ops, bad)
			} else {
				ops = append(ops, strconv.Itoa(r.In(1, 9)))
			}
		}
		if bad == "#\\1" {
			return
		}
		o, _ := c.run(c.spell(op, ops))
		c.Count("non-number", 1)
		if o.Kind != "error" {
			c.Fail("non-number", c.spell(op, ops), "an error", o.Full())
		}
	case 8: // composed expressions
		depth := r.In(1, 3)
		var build func(d int) (string, cnum, error)
		build = func(d int) (string, cnum, error) {
			if d == 0 || r.P(25) {
				n := genNum(r)
				return c.operand(n), n, nil
			}
			op := pick(r, []string{"+", "-", "*", "+", "-"})
			var args []string
			var vals []cnum
			for k := r.In(2, 3); k > 0; k-- {
				s, v, err := build(d - 1)
				if err != nil {
					return "", v, err
				}
				args = append(args, s)
				vals = append(vals, v)
			}
			v, err, _ := foldNum(op, vals)
			return c.spell(op, args), v, err
		}
		src, v, err := build(depth)
		if err == nil {
			c.expect(src, v.canon(), "composed")
		}
	}
}

// constants: the largest and the smallest integer, and the float next to pi.
func (c *c09) constants() {
	for _, t := range [][2]string{
		{"most-positive-fixnum", strconv.FormatInt(math.MaxInt64, 10)}, {"most-negative-fixnum", strconv.FormatInt(math.MinInt64, 10)}, {"pi", canonFloat(math.Pi)},
		{"(let ((x most-positive-fixnum)) (list (integerp x) (- 0 x) (= x (+ (- x 1) 1)) (> x (- x 1)) (- x x)))", "(t " + strconv.FormatInt(-math.MaxInt64, 10) + " t t 0)"},
		{"(- (- 0 most-positive-fixnum) 1)", strconv.FormatInt(math.MinInt64, 10)},
		{"(list (floatp pi) (= pi (* 2 (/ pi 2))))", "(t t)"},
	} {
		o := c.m.Run(t[0])
		c.Eval()
		c.Count("constant", 1)
		if o.Kind != "value" || o.Val != t[1] {
			c.Fail("constant", t[0], t[1], o.Full())
		}
	}
}

func init() {
	register(&Prop{
		ID: "C09", Quick: 150000, Thorough: 2500000,
		Rule: "random and boundary operands (near-equal pairs across the types, 64-bit limits, halves, subnormals), all arithmetic functions, comparison chains with at most one flaw, composed expressions; results compared with exact rational arithmetic (math/big) or one IEEE operation per step; a recording handler must run exactly once per error and never otherwise",
		Need: []string{"fold", "rem", "compare", "compare.true", "round", "extreme", "predicate", "sqrt", "division-by-zero", "non-number", "composed", "parse-number", "constant"},
		Run: func(c *Case) {
			cc := &c09{Case: c, m: newMon()}
			if c.Idx%50 == 0 {
				cc.constants()
			}
			for k := 0; k < 12; k++ {
				cc.one()
			}
		},
		Assume: []string{"integer results that do not fit 64 bits are not prescribed"},
	})
}
