package main

import (
	"math"
	"math/big"
	"strings"
)

// arithmetic of the reference: exact integers (big) reduced to int64, IEEE doubles otherwise.

func (in *Ref) numArg(v V) V {
	switch v.(type) {
	case int64, float64:
		return v
	}
	return in.gerr()
}

// numArgs raises the domain error for the first operand that is no number: the expected class
// follows the other operand.
func (in *Ref) numArgs(a, b V) (V, V) {
	if _, ok := num(a); !ok {
		in.gerr()
		bug("numArgs")
	}
	if _, ok := num(b); !ok {
		if _, isInt := a.(int64); isInt {
			b = in.domain(b, "<integer>")
			if _, ok := b.(int64); !ok {
				panic(xLimit{})
			}
		} else {
			b = in.domain(b, "<float>")
			if _, ok := b.(float64); !ok {
				panic(xLimit{})
			}
		}
	}
	return a, b
}

func asF(v V) float64 {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case float64:
		return x
	}
	return math.NaN()
}

func (in *Ref) arith(op byte, a, b V) V {
	a, b = in.numArgs(a, b)
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		p, q, r := big.NewInt(x), big.NewInt(y), new(big.Int)
		switch op {
		case '+':
			r.Add(p, q)
		case '-':
			r.Sub(p, q)
		case '*':
			r.Mul(p, q)
		case '/':
			if y == 0 {
				return in.raise(&Cond{cls: "<division-by-zero>", a: L(a, b), b: rNil}, true)
			}
			r.Quo(p, q)
		}
		if !r.IsInt64() {
			panic(xLimit{}) // out of the 64-bit range: not prescribed
		}
		return r.Int64()
	}
	f, g := asF(a), asF(b)
	switch op {
	case '+':
		return f + g
	case '-':
		return f - g
	case '*':
		return f * g
	}
	if g == 0 {
		return in.raise(&Cond{cls: "<division-by-zero>", a: L(a, b), b: rNil}, true)
	}
	return f / g
}

func cmpNum(a, b V) int {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		if x < y {
			return -1
		} else if x > y {
			return 1
		}
		return 0
	}
	f, g := asF(a), asF(b)
	if f < g {
		return -1
	} else if f > g {
		return 1
	}
	return 0
}

// properList gives up on anything else: other monitors decide what happens then.
func properList(v V) []V {
	r := []V{}
	for {
		p, ok := v.(*Pair)
		if !ok {
			if !isNil(v) {
				panic(xLimit{})
			}
			return r
		}
		r = append(r, p.a)
		v = p.d
	}
}

func installPrims(in *Ref) {
	def := func(name string, min, max int, f func(in *Ref, a []V) V) {
		in.funs[S(name)] = &Fn{name: name, prim: f, min: min, max: max}
	}
	def("ev", 0, -1, func(in *Ref, a []V) V {
		parts := make([]string, len(a))
		for i, x := range a {
			parts[i] = canonV(x)
		}
		in.Events = append(in.Events, strings.Join(parts, " "))
		if len(a) == 0 {
			return rNil
		}
		return a[len(a)-1]
	})
	def("class-name*", 1, 1, func(in *Ref, a []V) V {
		switch x := a[0].(type) {
		case *Obj:
			return L(S(x.cls.name), x.get("format-string"), x.get("format-arguments"))
		case *Cond:
			switch x.cls {
			case "<domain-error>", "<unbound-variable>", "<undefined-function>":
				return L(S(x.cls), x.a, x.b)
			case "<division-by-zero>":
				return L(S(x.cls), x.a)
			case "<control-error>":
				return L(S(x.cls))
			}
		}
		return S("other")
	})
	fold := func(name string, op byte) {
		min := 1
		if op == '+' || op == '*' {
			min = 0
		}
		def(name, min, -1, func(in *Ref, a []V) V {
			if len(a) == 0 {
				if op == '+' {
					return int64(0)
				}
				return int64(1)
			}
			if len(a) == 1 {
				if op == '-' {
					return in.arith('-', int64(0), in.numArg(a[0]))
				}
				return in.numArg(a[0])
			}
			r := a[0]
			for _, x := range a[1:] {
				r = in.arith(op, r, x)
			}
			return r
		})
	}
	fold("+", '+')
	fold("-", '-')
	fold("*", '*')
	fold("/", '/')
	def("1+", 1, 1, func(in *Ref, a []V) V { return in.arith('+', a[0], int64(1)) })
	def("1-", 1, 1, func(in *Ref, a []V) V { return in.arith('-', a[0], int64(1)) })
	cmp := func(name string, ok func(int) bool) {
		def(name, 1, -1, func(in *Ref, a []V) V {
			for i := 0; i+1 < len(a); i++ {
				if name != "=" && name != "/=" {
					in.numArg(a[i])
					in.numArg(a[i+1])
				}
				for _, x := range a[i : i+2] {
					if _, isn := num(x); !isn {
						panic(xLimit{}) // = of non-numbers: not prescribed
					}
				}
				if !ok(cmpNum(a[i], a[i+1])) {
					return rNil
				}
			}
			return rT
		})
	}
	cmp("<", func(c int) bool { return c < 0 })
	cmp(">", func(c int) bool { return c > 0 })
	cmp("<=", func(c int) bool { return c <= 0 })
	cmp(">=", func(c int) bool { return c >= 0 })
	cmp("=", func(c int) bool { return c == 0 })
	def("/=", 2, 2, func(in *Ref, a []V) V {
		for _, x := range a {
			if _, isn := num(x); !isn {
				panic(xLimit{})
			}
		}
		return bo(cmpNum(a[0], a[1]) != 0)
	})
	def("zerop", 1, 1, func(in *Ref, a []V) V { return bo(asF(a[0]) == 0) })
	def("plusp", 1, 1, func(in *Ref, a []V) V { return bo(asF(a[0]) > 0) })
	def("minusp", 1, 1, func(in *Ref, a []V) V { return bo(asF(a[0]) < 0) })
	def("evenp", 1, 1, func(in *Ref, a []V) V { x, ok := a[0].(int64); return bo(ok && x%2 == 0) })
	def("oddp", 1, 1, func(in *Ref, a []V) V { x, ok := a[0].(int64); return bo(ok && x%2 != 0) })
	def("rem", 2, 2, func(in *Ref, a []V) V {
		x, y := a[0].(int64), a[1].(int64)
		if y == 0 {
			return in.raise(&Cond{cls: "<division-by-zero>", a: L(a[0], a[1]), b: rNil}, true)
		}
		return x % y
	})
	def("mod", 2, 2, func(in *Ref, a []V) V {
		x, y := a[0].(int64), a[1].(int64)
		if y == 0 {
			return in.raise(&Cond{cls: "<division-by-zero>", a: L(a[0], a[1]), b: rNil}, true)
		}
		r := x % y
		if r != 0 && (r < 0) != (y < 0) {
			r += y
		}
		return r
	})
	mm := func(name string, want int) {
		def(name, 1, -1, func(in *Ref, a []V) V {
			for _, x := range a {
				if _, isn := num(x); !isn {
					panic(xLimit{})
				}
			}
			r := a[0]
			for _, x := range a[1:] {
				if cmpNum(x, r) == want {
					r = x
				}
			}
			return r
		})
	}
	mm("max", 1)
	mm("min", -1)

	def("not", 1, 1, func(in *Ref, a []V) V { return bo(isNil(a[0])) })
	def("null", 1, 1, func(in *Ref, a []V) V { return bo(isNil(a[0])) })
	def("consp", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(*Pair); return bo(ok) })
	def("atom", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(*Pair); return bo(!ok) })
	def("listp", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(*Pair); return bo(ok || isNil(a[0])) })
	def("symbolp", 1, 1, func(in *Ref, a []V) V {
		switch a[0].(type) {
		case *Sym, NilT, TruT:
			return rT
		}
		return rNil
	})
	def("integerp", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(int64); return bo(ok) })
	def("floatp", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(float64); return bo(ok) })
	def("numberp", 1, 1, func(in *Ref, a []V) V { _, ok := num(a[0]); return bo(ok) })
	def("stringp", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(string); return bo(ok) })
	def("characterp", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(Chr); return bo(ok) })
	def("functionp", 1, 1, func(in *Ref, a []V) V { _, ok := a[0].(*Fn); return bo(ok) })
	def("eql", 2, 2, func(in *Ref, a []V) V { return bo(refEql(a[0], a[1])) })
	def("eq", 2, 2, func(in *Ref, a []V) V { return bo(refEql(a[0], a[1])) })
	def("equal", 2, 2, func(in *Ref, a []V) V { return bo(refEqual(a[0], a[1])) })

	def("cons", 2, 2, func(in *Ref, a []V) V { return &Pair{a[0], a[1]} })
	def("car", 1, 1, func(in *Ref, a []V) V {
		if p, ok := a[0].(*Pair); ok {
			return p.a
		}
		v := in.domain(a[0], "<cons>")
		if p, ok := v.(*Pair); ok {
			return p.a
		}
		panic(xLimit{})
	})
	def("cdr", 1, 1, func(in *Ref, a []V) V {
		if p, ok := a[0].(*Pair); ok {
			return p.d
		}
		v := in.domain(a[0], "<cons>")
		if p, ok := v.(*Pair); ok {
			return p.d
		}
		panic(xLimit{})
	})
	in.funs[S("first")] = in.funs[S("car")]
	in.funs[S("rest")] = in.funs[S("cdr")]
	nthPrim := func(k int) func(in *Ref, a []V) V {
		return func(in *Ref, a []V) V {
			if p, ok := nthcdrV(k, a[0]).(*Pair); ok {
				return p.a
			}
			return rNil
		}
	}
	def("cadr", 1, 1, nthPrim(1))
	def("second", 1, 1, nthPrim(1))
	def("caddr", 1, 1, nthPrim(2))
	def("third", 1, 1, nthPrim(2))
	def("cadddr", 1, 1, nthPrim(3))
	def("cddr", 1, 1, func(in *Ref, a []V) V { return nthcdrV(2, a[0]) })
	def("cdddr", 1, 1, func(in *Ref, a []V) V { return nthcdrV(3, a[0]) })
	def("nth", 2, 2, func(in *Ref, a []V) V { return nthPrim(int(a[0].(int64)))(in, a[1:]) })
	def("nthcdr", 2, 2, func(in *Ref, a []V) V { return nthcdrV(int(a[0].(int64)), a[1]) })
	def("elt", 2, -1, func(in *Ref, a []V) V {
		if arr, ok := a[0].(*Arr); ok {
			return arr.data[arr.index(in, a[1:])]
		}
		return nthPrim(int(a[1].(int64)))(in, a[:1])
	})
	def("aref", 2, -1, func(in *Ref, a []V) V { arr := a[0].(*Arr); return arr.data[arr.index(in, a[1:])] })
	def("list", 0, -1, func(in *Ref, a []V) V { return LL(a) })
	def("vector", 0, -1, func(in *Ref, a []V) V { return &Arr{dims: []int{len(a)}, data: append([]V{}, a...)} })
	def("length", 1, 1, func(in *Ref, a []V) V {
		switch x := a[0].(type) {
		case string:
			return int64(len([]rune(x)))
		case *Arr:
			return int64(len(x.data))
		}
		properList(a[0])
		return int64(len(slice(a[0])))
	})
	def("append", 0, -1, func(in *Ref, a []V) V {
		if len(a) == 0 {
			return rNil
		}
		r := a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			l := properList(a[i])
			for j := len(l) - 1; j >= 0; j-- {
				r = &Pair{l[j], r}
			}
		}
		return r
	})
	def("reverse", 1, 1, func(in *Ref, a []V) V {
		var r V = rNil
		for _, x := range properList(a[0]) {
			r = &Pair{x, r}
		}
		return r
	})
	def("last", 1, 1, func(in *Ref, a []V) V {
		l := properList(a[0])
		if len(l) == 0 {
			return rNil
		}
		return l[len(l)-1]
	})
	def("member", 2, 2, func(in *Ref, a []V) V {
		for v := a[1]; ; {
			p, ok := v.(*Pair)
			if !ok {
				properList(v)
				return rNil
			}
			if refEql(a[0], p.a) {
				return p
			}
			v = p.d
		}
	})
	def("assoc", 2, 2, func(in *Ref, a []V) V {
		for _, e := range properList(a[1]) {
			if p, ok := e.(*Pair); ok && refEql(a[0], p.a) {
				return p
			}
		}
		return rNil
	})
	def("set-car", 2, 2, func(in *Ref, a []V) V { in.needPair(a[1]).a = a[0]; return a[1] })
	def("set-cdr", 2, 2, func(in *Ref, a []V) V { in.needPair(a[1]).d = a[0]; return a[1] })

	// map family
	cars := func(ls []V) ([]V, bool) {
		r := []V{}
		for _, l := range ls {
			p, ok := l.(*Pair)
			if !ok {
				return nil, false
			}
			r = append(r, p.a)
		}
		return r, true
	}
	cdrs := func(ls []V) []V {
		r := []V{}
		for _, l := range ls {
			r = append(r, l.(*Pair).d)
		}
		return r
	}
	isList := func(ls []V) bool {
		for _, l := range ls {
			if _, ok := l.(*Pair); !ok {
				return false
			}
		}
		return true
	}
	// what a sequence operation does with a non-list is decided elsewhere: give up
	onlyLists := func(ls []V) {
		for _, l := range ls {
			if _, ok := l.(*Pair); !ok && !isNil(l) {
				panic(xLimit{})
			}
		}
	}
	mapper := func(name string, onLists bool, fin func(in *Ref, rs []V, a []V) V) {
		def(name, 2, -1, func(in *Ref, a []V) V {
			ls := append([]V{}, a[1:]...)
			rs := []V{}
			fn := in.needFn(a[0])
			for onlyLists(ls); isList(ls); onlyLists(ls) {
				args := append([]V{}, ls...)
				if !onLists {
					args, _ = cars(ls)
				}
				rs = append(rs, in.apply(fn, args))
				ls = cdrs(ls)
			}
			return fin(in, rs, a)
		})
	}
	app := func(in *Ref, rs []V, a []V) V { return in.funs[S("append")].(*Fn).prim(in, rs) }
	mapper("mapcar", false, func(in *Ref, rs []V, a []V) V { return LL(rs) })
	mapper("mapc", false, func(in *Ref, rs []V, a []V) V { return a[1] })
	mapper("mapcan", false, app)
	mapper("maplist", true, func(in *Ref, rs []V, a []V) V { return LL(rs) })
	mapper("mapl", true, func(in *Ref, rs []V, a []V) V { return a[1] })
	mapper("mapcon", true, app)

	def("create-string-input-stream", 1, 1, func(in *Ref, a []V) V {
		if s, ok := a[0].(string); ok {
			return &InStr{[]rune(s)}
		}
		panic(xLimit{})
	})
	def("standard-input", 0, 0, func(in *Ref, a []V) V { return in.stdin })
	atEnd := func(a []V) V {
		if len(a) >= 2 && isNil(a[1]) {
			if len(a) == 3 {
				return a[2]
			}
			return rNil
		}
		panic(xLimit{})
	}
	streamArg := func(in *Ref, a []V) *InStr {
		if len(a) == 0 {
			return in.stdin
		}
		if s, ok := a[0].(*InStr); ok {
			return s
		}
		panic(xLimit{})
	}
	def("read-char", 0, 3, func(in *Ref, a []V) V {
		s := streamArg(in, a)
		if len(s.rs) == 0 {
			return atEnd(a)
		}
		c := s.rs[0]
		s.rs = s.rs[1:]
		return Chr(c)
	})
	def("read-line", 0, 3, func(in *Ref, a []V) V {
		s := streamArg(in, a)
		if len(s.rs) == 0 {
			return atEnd(a)
		}
		for i, c := range s.rs {
			if c == '\n' {
				l := string(s.rs[:i])
				s.rs = s.rs[i+1:]
				return l
			}
		}
		l := string(s.rs)
		s.rs = nil
		return l
	})
	def("make-hash-table", 0, 0, func(in *Ref, a []V) V { return &Hash{m: map[any]V{}} })
	def("gethash", 2, 2, func(in *Ref, a []V) V {
		if v, ok := a[1].(*Hash).m[hkey(a[0])]; ok {
			return v
		}
		return rNil
	})
	def("gensym", 0, 0, func(in *Ref, a []V) V { in.gcount++; return &Sym{name: "\x00g" + string(rune(in.gcount))} })
	def("macroexpand", 1, 1, func(in *Ref, a []V) V {
		p, ok := a[0].(*Pair)
		if !ok {
			panic(xLimit{})
		}
		m, ok := in.funs[p.a.(*Sym)].(*Macro)
		if !ok {
			panic(xLimit{})
		}
		return in.expand(m, slice(p.d))
	})
	def("quit", 0, 0, func(in *Ref, a []V) V { panic(xQuit{}) })
	def("eval", 1, 1, func(in *Ref, a []V) V { return in.eval(a[0], in.genv) })

	def("error", 1, -1, func(in *Ref, a []V) V {
		c := &Obj{cls: in.classes["<simple-error>"], slots: map[string]V{"format-string": a[0], "format-arguments": LL(a[1:])}}
		return in.raise(c, false)
	})
	def("cerror", 2, -1, func(in *Ref, a []V) V {
		c := &Obj{cls: in.classes["<simple-error>"], slots: map[string]V{"format-string": a[1], "format-arguments": LL(a[2:])}}
		return in.raise(c, true)
	})
	def("signal-condition", 2, 2, func(in *Ref, a []V) V { return in.raise(a[0], !isNil(a[1])) })
	def("simple-error-format-string", 1, 1, func(in *Ref, a []V) V { return a[0].(*Obj).get("format-string") })
	def("simple-error-format-arguments", 1, 1, func(in *Ref, a []V) V { return a[0].(*Obj).get("format-arguments") })
	def("domain-error-object", 1, 1, func(in *Ref, a []V) V { return a[0].(*Cond).a })
	def("domain-error-expected-class", 1, 1, func(in *Ref, a []V) V { return a[0].(*Cond).b })
	def("undefined-entity-name", 1, 1, func(in *Ref, a []V) V { return a[0].(*Cond).a })
	def("undefined-entity-namespace", 1, 1, func(in *Ref, a []V) V { return a[0].(*Cond).b })
	def("arithmetic-error-operands", 1, 1, func(in *Ref, a []V) V { return a[0].(*Cond).a })
	def("class-of", 1, 1, func(in *Ref, a []V) V { return in.classOf(a[0]) })
	def("create", 1, -1, func(in *Ref, a []V) V { return in.create(a[0].(*Cls), a[1:]) })
	def("subclassp", 2, 2, func(in *Ref, a []V) V { return bo(a[0].(*Cls).subOf(a[1].(*Cls))) })
}
