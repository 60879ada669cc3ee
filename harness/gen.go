package main

import "fmt"

// Random programs of the core language. Every program is run by the real interpreter and by the
// reference evaluator (ref.go); what it does is observable through (ev ...) events and its result.

type kind int

const (
	kInt kind = iota
	kList
	kFn0
	kFn1
	kFn2
	kAny
)

type gvar struct {
	s  *Sym
	k  kind
	ro bool // loop counters: never assigned
}
type gfn struct {
	s    *Sym
	n    int
	rest bool
}
type gblk struct {
	s *Sym
	k kind
}
type gtag struct {
	v V
	k kind
}
type gmac struct {
	s    *Sym
	n    int
	rest bool
}

// Feat weighs the features of generated programs (0: never).
type Feat struct {
	Closures, Assign, Calls, Exits, Unwind, Dyn, Handlers, Errors, Macros, Setf, Loops, Select, Lists, Quasi, Idiom int
}

type Gen struct {
	r      *Rng
	f      Feat
	vars   []gvar
	fns    []gfn
	macs   []gmac
	blocks []gblk
	gotags []*Sym
	catchT []gtag
	dyns   []*Sym
	globs  []*Sym
	conds  []*Sym // variables holding a condition object
	uniq   int
	nev    int
	budget int
	used   map[string]bool
	idioms []idiom
	suffix string // of global variables, which all interpreters share
}

// idiom is a directed shape with random parts.
type idiom func(g *Gen, k kind, depth int) V

func newGen(r *Rng, f Feat, budget int) *Gen {
	return &Gen{r: r, f: f, budget: budget, used: map[string]bool{}}
}

var varPool = []*Sym{S("x"), S("y"), S("z"), S("a"), S("b"), S("f"), S("n")}
var fnPool = []*Sym{S("f"), S("g"), S("h"), S("x")}
var blkPool = []*Sym{S("b1"), S("b2"), S("b3")}
var tagPool = []gtag{{Q(S("t1")), kInt}, {Q(S("t2")), kList}, {7, kInt}, {"tag", kInt}, {Chr('c'), kList}}

// pool is the names local variables get; those of global variables are among them.
func (g *Gen) pool() []*Sym {
	r := append([]*Sym{}, varPool...)
	if g.r.P(40) {
		r = append(r, g.globs...)
	}
	return r
}

func (g *Gen) fresh(p string) *Sym {
	g.uniq++
	return S(fmt.Sprintf("%s%d", p, g.uniq))
}

func (g *Gen) use(s string) { g.used[s] = true }

func (g *Gen) scoped(f func()) {
	v, fn, mc, b, gt, c, cd := len(g.vars), len(g.fns), len(g.macs), len(g.blocks), len(g.gotags), len(g.catchT), len(g.conds)
	f()
	g.vars, g.fns, g.macs, g.blocks, g.gotags, g.catchT, g.conds = g.vars[:v], g.fns[:fn], g.macs[:mc], g.blocks[:b], g.gotags[:gt], g.catchT[:c], g.conds[:cd]
}

// visible returns the variables of a kind that are not shadowed by one of another kind.
func (g *Gen) visible(k kind, assignable bool) []gvar {
	seen := map[*Sym]bool{}
	r := []gvar{}
	for i := len(g.vars) - 1; i >= 0; i-- {
		v := g.vars[i]
		if seen[v.s] {
			continue
		}
		seen[v.s] = true
		if v.k == k && !(assignable && v.ro) {
			r = append(r, v)
		}
	}
	return r
}

func (g *Gen) visFns() []gfn {
	seen := map[*Sym]bool{}
	r := []gfn{}
	for i := len(g.fns) - 1; i >= 0; i-- {
		if !seen[g.fns[i].s] {
			seen[g.fns[i].s] = true
			if g.fns[i].n >= 0 {
				r = append(r, g.fns[i])
			}
		}
	}
	return r
}

func (g *Gen) visMacs() []gmac {
	hidden := map[*Sym]bool{}
	for _, f := range g.fns {
		hidden[f.s] = true
	}
	r := []gmac{}
	for _, m := range g.macs {
		if !hidden[m.s] {
			r = append(r, m)
		}
	}
	return r
}

func (g *Gen) lit() V { return g.r.In(-3, 12) }

func (g *Gen) ev(v V) V {
	g.nev++
	return LS("ev", g.nev, v)
}

// atom of the kind
func (g *Gen) leaf(k kind) V {
	if vs := g.visible(k, false); len(vs) > 0 && g.r.P(75) {
		return pick(g.r, vs).s
	}
	switch k {
	case kInt:
		if len(g.dyns) > 0 && g.f.Dyn > 0 && g.r.P(30) {
			return LS("dynamic", pick(g.r, g.dyns))
		}
		return g.lit()
	case kList:
		n := g.r.N(4)
		vs := []V{}
		for i := 0; i < n; i++ {
			vs = append(vs, g.lit())
		}
		if g.r.P(50) {
			return Q(LL(vs))
		}
		return LS("list", vs...)
	case kFn0, kFn1, kFn2:
		return g.lambda(int(k-kFn0), 0)
	}
	return g.lit()
}

func (g *Gen) lambda(n, depth int) V {
	var form V
	g.scoped(func() {
		ps := g.params(n, false)
		form = &Pair{S("lambda"), &Pair{LL(ps), LL(g.body(kInt, depth-1))}}
	})
	return form
}

// params binds n distinct parameters as ints and returns the lambda list.
func (g *Gen) params(n int, rest bool) []V {
	pool := g.pool()
	shuffle(g.r, pool)
	ps := []V{}
	for i := 0; i < n; i++ {
		ps = append(ps, pool[i])
		g.vars = append(g.vars, gvar{s: pool[i], k: kInt})
	}
	if rest {
		kw := ":rest"
		if g.r.P(40) {
			kw = "&rest"
		}
		ps = append(ps, &Kw{kw}, pool[n])
		g.vars = append(g.vars, gvar{s: pool[n], k: kList})
	} else if g.r.P(8) {
		ps = append(ps, S("/"), pool[n])
		g.vars = append(g.vars, gvar{s: pool[n], k: kList})
	}
	return ps
}

func (g *Gen) body(k kind, depth int) []V {
	r := []V{}
	for i := g.r.W(5, 3, 1); i > 0; i-- {
		r = append(r, g.stmt(depth))
	}
	return append(r, g.expr(k, depth))
}

func (g *Gen) stmt(depth int) V {
	if g.f.Assign > 0 && g.r.P(35) {
		return g.assign(depth)
	}
	if g.r.P(30) {
		return g.ev(g.expr(kInt, depth-1))
	}
	return g.expr(pick(g.r, []kind{kInt, kInt, kList, kAny}), depth-1)
}

func (g *Gen) assign(depth int) V {
	k := pick(g.r, []kind{kInt, kInt, kInt, kList})
	vs := g.visible(k, true)
	if len(vs) == 0 {
		return g.ev(g.expr(kInt, depth-1))
	}
	v := pick(g.r, vs)
	if g.f.Setf > 0 && g.r.P(30) {
		if k == kInt && g.r.P(60) {
			op := pick(g.r, []string{"incf", "decf"})
			if g.r.P(50) {
				return LS(op, v.s)
			}
			return LS(op, v.s, g.expr(kInt, depth-1))
		}
		return LS("setf", v.s, g.expr(k, depth-1))
	}
	if len(vs) > 1 && g.r.P(15) {
		w := pick(g.r, vs)
		op := pick(g.r, []string{"setq", "psetq"})
		if w.s != v.s {
			return LS(op, v.s, g.expr(k, depth-1), w.s, g.expr(k, depth-1))
		}
	}
	return LS("setq", v.s, g.expr(k, depth-1))
}

func (g *Gen) cond1(depth int) V {
	switch g.r.N(9) {
	case 0:
		return rT
	case 1:
		return rNil
	case 2:
		return LS("consp", g.expr(kList, depth-1))
	case 3:
		return LS("null", g.expr(kList, depth-1))
	case 4:
		return LS("not", g.cond1(depth-1))
	case 5:
		return g.expr(kList, depth-1)
	case 6:
		if g.f.Select > 0 {
			return LS(pick(g.r, []string{"and", "or"}), g.cond1(depth-1), g.cond1(depth-1))
		}
	}
	return LS(pick(g.r, []string{"<", ">", "<=", ">=", "=", "/=", "eql"}), g.expr(kInt, depth-1), g.expr(kInt, depth-1))
}

func (g *Gen) many(k kind, n, depth int) []V {
	r := []V{}
	for i := 0; i < n; i++ {
		r = append(r, g.expr(k, depth))
	}
	return r
}

func (g *Gen) expr(k kind, depth int) V {
	g.budget--
	if depth <= 0 || g.budget <= 0 {
		return g.leaf(k)
	}
	switch k {
	case kFn0, kFn1, kFn2:
		n := int(k - kFn0)
		cands := []gfn{}
		for _, f := range g.visFns() {
			if f.n == n || (f.rest && f.n <= n) {
				cands = append(cands, f)
			}
		}
		if len(cands) > 0 && g.r.P(35) {
			return LS("function", pick(g.r, cands).s)
		}
		if vs := g.visible(k, false); len(vs) > 0 && g.r.P(40) {
			return pick(g.r, vs).s
		}
		// a closure made in a scope of its own
		if g.r.P(30) {
			var form V
			g.scoped(func() {
				ps := g.params(1, false)
				form = LS("let", L(L(ps[0], g.lit())), g.lambda(n, depth-1))
			})
			return form
		}
		return g.lambda(n, depth-1)
	case kAny:
		k = pick(g.r, []kind{kInt, kList})
	}
	f := g.f
	w := []int{
		4,          // 0 leaf
		6,          // 1 arithmetic / list building
		3,          // 2 ev
		3,          // 3 let
		2,          // 4 let*
		2,          // 5 progn
		4,          // 6 if
		f.Select,   // 7 cond/case/and/or/when/unless
		f.Closures, // 8 funcall of a function expression
		f.Calls,    // 9 call a named function
		f.Calls,    // 10 flet/labels
		f.Exits,    // 11 block
		f.Exits,    // 12 return-from/throw/go
		f.Exits,    // 13 catch
		f.Unwind,   // 14 unwind-protect
		f.Dyn,      // 15 dynamic-let
		f.Handlers, // 16 with-handler
		f.Errors,   // 17 error
		f.Handlers, // 18 ignore-errors, continue
		f.Loops,    // 19 loops
		f.Lists,    // 20 map
		f.Macros,   // 21 macro call
		f.Assign,   // 22 assignment as value
		f.Exits,    // 23 tagbody
		f.Quasi,    // 24 quasi-quote
		f.Closures, // 25 function-valued variables
		f.Calls,    // 26 apply
		f.Lists,    // 27 prog1, prog2, nth...
		f.Idiom,    // 28
	}
	switch g.r.W(w...) {
	case 0:
		return g.leaf(k)
	case 1:
		return g.compute(k, depth)
	case 2:
		return g.ev(g.expr(k, depth-1))
	case 3, 4:
		return g.let(k, depth)
	case 5:
		return LS("progn", g.body(k, depth-1)...)
	case 6:
		return LS("if", g.cond1(depth-1), g.expr(k, depth-1), g.expr(k, depth-1))
	case 7:
		return g.sel(k, depth)
	case 8:
		if k != kInt {
			return LS("list", g.many(kInt, 2, depth-1)...)
		}
		n := g.r.N(3)
		fn := g.expr(kFn0+kind(n), depth-1)
		args := g.many(kInt, n, depth-1)
		if g.f.Errors > 0 && g.r.P(4) {
			args = append(args, g.lit())
		}
		if p, ok := fn.(*Pair); ok && p.a == V(S("lambda")) && g.r.P(40) {
			return &Pair{fn, LL(args)}
		}
		return LS("funcall", append([]V{fn}, args...)...)
	case 9:
		fs := g.visFns()
		if k != kInt || len(fs) == 0 {
			return g.compute(k, depth)
		}
		fn := pick(g.r, fs)
		n := fn.n
		if fn.rest {
			n += g.r.N(3)
		}
		if g.f.Errors > 0 && g.r.P(4) {
			n += g.r.In(-1, 1)
		}
		return &Pair{fn.s, LL(g.many(kInt, n, depth-1))}
	case 10:
		return g.fletForm(k, depth)
	case 11:
		var form V
		g.scoped(func() {
			b := pick(g.r, blkPool)
			if g.r.P(20) {
				b = S("nil")
			}
			g.blocks = append(g.blocks, gblk{b, k})
			var name V = b
			if b.name == "nil" {
				name = rNil
			}
			form = &Pair{S("block"), &Pair{name, LL(g.body(k, depth-1))}}
		})
		g.use("block")
		return form
	case 12:
		return g.exit(k, depth)
	case 13:
		var form V
		tag := pick(g.r, tagPool)
		for tag.k != k {
			tag = pick(g.r, tagPool)
		}
		g.scoped(func() {
			g.catchT = append(g.catchT, tag)
			form = &Pair{S("catch"), &Pair{tag.v, LL(g.body(k, depth-1))}}
		})
		g.use("catch")
		return form
	case 14:
		cl := []V{}
		for i := g.r.In(1, 2); i > 0; i-- {
			cl = append(cl, g.cleanup(depth-2))
		}
		g.use("unwind-protect")
		return &Pair{S("unwind-protect"), &Pair{g.expr(k, depth-1), LL(cl)}}
	case 15:
		if len(g.dyns) == 0 {
			return g.compute(k, depth)
		}
		bs := []V{}
		ds := append([]*Sym{}, g.dyns...)
		shuffle(g.r, ds)
		for i := 0; i < g.r.In(1, min(2, len(ds))); i++ {
			bs = append(bs, L(ds[i], g.expr(kInt, depth-1)))
		}
		g.use("dynamic-let")
		return &Pair{S("dynamic-let"), &Pair{LL(bs), LL(g.body(k, depth-1))}}
	case 16:
		return g.withHandler(k, depth)
	case 17:
		return g.raise(k, depth)
	case 18:
		if len(g.conds) > 0 && g.r.P(50) {
			return LS("continue-condition", g.conds[len(g.conds)-1], g.expr(k, depth-1))
		}
		ig := LS("list", LS("ignore-errors", g.body(kInt, depth-1)...))
		if k == kList {
			return LS("list", LS("length", ig))
		}
		return LS("length", ig)
	case 19:
		return g.loop(k, depth)
	case 20:
		if k == kInt {
			return LS("length", g.mapForm(depth))
		}
		return g.mapForm(depth)
	case 21:
		ms := g.visMacs()
		if len(ms) == 0 {
			return g.compute(k, depth)
		}
		m := pick(g.r, ms)
		n := m.n
		if m.rest {
			n += g.r.N(3)
		}
		g.use("macro")
		call := &Pair{m.s, LL(g.many(kInt, n, depth-1))}
		if k == kList {
			return LS("list", call)
		}
		return call
	case 22:
		a := g.assign(depth)
		if p, ok := a.(*Pair); ok && p.a == V(S("setq")) && len(slice(a)) == 3 {
			if vs := g.visible(k, true); len(vs) > 0 {
				for _, v := range vs {
					if V(v.s) == slice(a)[1] {
						return a
					}
				}
			}
		}
		return LS("progn", a, g.expr(k, depth-1))
	case 23:
		return g.tagbody(k, depth)
	case 24:
		return g.quasi(k, depth)
	case 25:
		return g.fnVar(k, depth)
	case 26:
		if k != kInt {
			return g.compute(k, depth)
		}
		n := g.r.N(3)
		m := g.r.N(n + 1)
		args := append([]V{g.expr(kFn0+kind(n), depth-1)}, g.many(kInt, n-m, depth-1)...)
		return LS("apply", append(args, LS("list", g.many(kInt, m, depth-1)...))...)
	case 27:
		return g.misc(k, depth)
	case 28:
		if len(g.idioms) > 0 {
			return pick(g.r, g.idioms)(g, k, depth)
		}
	}
	return g.leaf(k)
}

func (g *Gen) compute(k kind, depth int) V {
	if k == kList {
		switch g.r.N(6) {
		case 0:
			return LS("cons", g.expr(kInt, depth-1), g.expr(kList, depth-1))
		case 1:
			return LS("append", g.expr(kList, depth-1), g.expr(kList, depth-1))
		case 2:
			return LS("reverse", g.expr(kList, depth-1))
		case 3:
			return LS("list", g.many(kInt, g.r.N(4), depth-1)...)
		case 4:
			return LS("if", LS("consp", g.expr(kList, depth-1)), g.expr(kList, depth-1), rNil)
		}
		return g.expr(kList, depth-1)
	}
	switch g.r.N(8) {
	case 0:
		return LS("length", g.expr(kList, depth-1))
	case 1:
		return LS(pick(g.r, []string{"max", "min"}), g.many(kInt, g.r.In(1, 3), depth-1)...)
	case 2:
		return LS(pick(g.r, []string{"1+", "1-"}), g.expr(kInt, depth-1))
	case 3:
		return LS("-", g.many(kInt, g.r.In(1, 2), depth-1)...)
	case 4:
		return LS("*", g.lit(), g.expr(kInt, depth-1))
	}
	return LS("+", g.many(kInt, g.r.In(1, 3), depth-1)...)
}

func (g *Gen) let(k kind, depth int) V {
	op := pick(g.r, []string{"let", "let*"})
	var form V
	g.scoped(func() {
		n := g.r.In(1, 3)
		bs := []V{}
		pool := g.pool()
		shuffle(g.r, pool)
		pend := []gvar{}
		for i := 0; i < n; i++ {
			kk := pick(g.r, []kind{kInt, kInt, kList})
			if g.f.Closures > 0 && g.r.P(25) {
				kk = pick(g.r, []kind{kFn0, kFn1, kFn2})
			}
			s := pool[i]
			if op == "let*" && i > 0 && g.r.P(25) {
				s = pool[i-1]
			}
			v := gvar{s: s, k: kk}
			if kk == kList && g.r.P(15) {
				bs = append(bs, s) // bound to nil
			} else {
				bs = append(bs, L(s, g.expr(kk, depth-1)))
			}
			if op == "let*" {
				g.vars = append(g.vars, v)
			} else {
				pend = append(pend, v)
			}
		}
		g.vars = append(g.vars, pend...)
		form = &Pair{S(op), &Pair{LL(bs), LL(g.body(k, depth-1))}}
	})
	return form
}

func (g *Gen) sel(k kind, depth int) V {
	switch g.r.N(9) {
	case 7: // keys of every type select by eql
		keys := []V{int64(3), 1.5, "s", Chr('c'), S("sym"), &Kw{":kw"}, rNil, int64(-1), 3.0}
		val := func() V {
			switch v := pick(g.r, keys).(type) {
			case *Sym:
				return Q(v)
			default:
				return v
			}
		}
		cls := []V{}
		for i := g.r.In(1, 4); i > 0; i-- {
			ks := []V{}
			for j := g.r.In(1, 3); j > 0; j-- {
				ks = append(ks, pick(g.r, keys))
			}
			cls = append(cls, &Pair{LL(ks), LL(g.body(k, depth-1))})
		}
		cls = append(cls, &Pair{rT, LL(g.body(k, depth-1))})
		return &Pair{S("case"), &Pair{g.ev(val()), LL(cls)}}
	case 8:
		if k == kInt {
			return LS("cond", L(LS("ev", rNil)), L(LS("and", g.cond1(depth-1), g.expr(kInt, depth-1))), L(g.expr(kInt, depth-1)), L(rT, g.lit()))
		}
		return LS("append", LS("if", g.cond1(depth-1), g.expr(kList, depth-1)), g.expr(kList, depth-1))
	case 0, 1:
		cls := []V{}
		for i := g.r.In(1, 3); i > 0; i-- {
			cls = append(cls, &Pair{g.cond1(depth - 1), LL(g.body(k, depth-1))})
		}
		cls = append(cls, &Pair{rT, LL(g.body(k, depth-1))})
		return LS("cond", cls...)
	case 2, 3:
		cls := []V{}
		for i := g.r.In(1, 3); i > 0; i-- {
			keys := []V{}
			for j := g.r.In(1, 3); j > 0; j-- {
				keys = append(keys, g.lit())
			}
			cls = append(cls, &Pair{LL(keys), LL(g.body(k, depth-1))})
		}
		cls = append(cls, &Pair{rT, LL(g.body(k, depth-1))})
		if g.r.P(25) {
			g.use("case-using")
			return &Pair{S("case-using"), &Pair{LS("function", S(pick(g.r, []string{"=", "<", ">", "eql"}))), &Pair{g.expr(kInt, depth-1), LL(cls)}}}
		}
		return &Pair{S("case"), &Pair{g.expr(kInt, depth-1), LL(cls)}}
	case 4:
		return LS("progn", &Pair{S(pick(g.r, []string{"when", "unless"})), &Pair{g.cond1(depth - 1), LL(g.body(k, depth-1))}}, g.expr(k, depth-1))
	case 5:
		return LS("or", LS("and", g.cond1(depth-1), g.expr(k, depth-1)), g.expr(k, depth-1), g.leaf(k))
	}
	// a value of the right kind out of and
	return LS("if", LS(pick(g.r, []string{"and", "or"}), append(g.many(kAny, g.r.N(3), depth-1), g.cond1(depth-1))...), g.expr(k, depth-1), g.expr(k, depth-1))
}

func (g *Gen) fletForm(k kind, depth int) V {
	op := pick(g.r, []string{"flet", "labels"})
	var form V
	g.scoped(func() {
		n := g.r.In(1, 2)
		pool := append([]*Sym{}, fnPool...)
		shuffle(g.r, pool)
		defs := []V{}
		newf := []gfn{}
		for i := 0; i < n; i++ {
			newf = append(newf, gfn{s: pool[i], n: g.r.N(3), rest: g.r.P(20)})
		}
		if op == "labels" {
			// inside the bodies the names are hidden unless the recursion is bounded
			for _, f := range newf {
				g.fns = append(g.fns, gfn{s: f.s, n: -1})
			}
		}
		for _, f := range newf {
			g.scoped(func() {
				ps := g.params(f.n, f.rest)
				body := g.body(kInt, depth-1)
				if op == "labels" && f.n >= 1 && g.r.P(60) {
					// bounded recursion on the first parameter
					p := ps[0].(*Sym)
					args := []V{LS("-", p, 1)}
					for j := 1; j < f.n; j++ {
						args = append(args, g.expr(kInt, depth-2))
					}
					var call V = &Pair{f.s, LL(args)}
					if g.r.P(50) {
						call = LS("+", 1, call)
					} else if g.r.P(40) {
						call = LS("let", L(L(g.fresh("q"), g.expr(kInt, depth-2))), call)
					}
					body = []V{LS("if", LS("<", p, 1), g.expr(kInt, depth-2), LS("if", LS("<", 8, p), 0, call))}
				}
				defs = append(defs, &Pair{f.s, &Pair{LL(ps), LL(body)}})
			})
		}
		g.fns = append(g.fns, newf...)
		form = &Pair{S(op), &Pair{LL(defs), LL(g.body(k, depth-1))}}
	})
	return form
}

func (g *Gen) exit(k kind, depth int) V {
	type ch struct{ w, t int }
	for try := 0; try < 4; try++ {
		switch g.r.N(3) {
		case 0:
			if len(g.blocks) > 0 {
				b := pick(g.r, g.blocks)
				for _, x := range g.blocks {
					if x.s == b.s {
						b = x // the innermost of the name
					}
				}
				g.use("return-from")
				if b.s.name == "nil" {
					if g.r.P(50) {
						return LS("return", g.expr(b.k, depth-1))
					}
					return LS("return-from", rNil, g.expr(b.k, depth-1))
				}
				return LS("return-from", b.s, g.expr(b.k, depth-1))
			}
		case 1:
			if len(g.catchT) > 0 {
				g.use("throw")
				t := pick(g.r, g.catchT)
				return LS("throw", t.v, g.expr(t.k, depth-1))
			}
		case 2:
			if len(g.gotags) > 0 && g.r.P(50) {
				g.use("go")
				return LS("go", pick(g.r, g.gotags))
			}
		}
	}
	if g.f.Errors > 0 && g.r.P(30) {
		if g.r.P(50) {
			t := pick(g.r, tagPool)
			return LS("throw", t.v, g.expr(t.k, depth-1))
		}
		if len(g.blocks) == 0 {
			return LS("return-from", pick(g.r, blkPool), g.expr(k, depth-1))
		}
	}
	return g.expr(k, depth-1)
}

func (g *Gen) cleanup(depth int) V {
	if g.r.P(70) {
		return g.ev(g.expr(kInt, depth))
	}
	return g.stmt(depth)
}

func (g *Gen) withHandler(k kind, depth int) V {
	var h V
	g.scoped(func() {
		c := g.fresh("c")
		g.conds = append(g.conds, c)
		body := []V{g.ev(LS("class-name*", c))}
		if g.r.P(40) {
			body = append(body, g.stmt(depth-2))
		}
		switch g.r.N(6) {
		case 0, 1:
			body = append(body, g.exit(k, depth-1))
		case 2, 3:
			body = append(body, LS("continue-condition", c, g.expr(k, depth-1)))
		case 4:
			body = append(body, LS("if", g.cond1(depth-2), LS("continue-condition", c, g.expr(k, depth-1)), g.exit(k, depth-1)))
		default:
			body = append(body, g.expr(kInt, depth-1))
		}
		h = &Pair{S("lambda"), &Pair{L(c), LL(body)}}
	})
	g.use("with-handler")
	return &Pair{S("with-handler"), &Pair{h, LL(g.body(k, depth-1))}}
}

func (g *Gen) raise(k kind, depth int) V {
	g.use("raise")
	var e V
	switch g.r.N(9) {
	case 0:
		e = LS("error", "msg ~a", g.expr(kInt, depth-1))
	case 1:
		e = LS("cerror", "go on", "msg ~a", g.expr(kInt, depth-1))
	case 2:
		e = LS("car", g.expr(kInt, depth-1))
	case 3:
		e = LS("/", g.expr(kInt, depth-1), 0)
	case 4:
		e = S("unbound-variable")
	case 5:
		e = LS("undefined-fn", g.expr(kInt, depth-1))
	case 6:
		e = LS("signal-condition", LS("create", S("<simple-error>"), Q(S("format-string")), "s", Q(S("format-arguments")), rNil), pick(g.r, []V{rT, rNil}))
	case 7:
		e = LS("+", g.expr(kInt, depth-1), Q(S("sym")))
	default:
		e = LS("cdr", Q(S("sym")))
	}
	// the value a handler supplies is unconstrained: bring it to the kind
	if k == kList {
		return LS("list", e)
	}
	return LS("length", LS("list", e))
}

func (g *Gen) loop(k kind, depth int) V {
	n := g.r.In(1, 3)
	var form V
	g.use("loop")
	switch g.r.N(4) {
	case 0:
		i := g.fresh("i")
		g.scoped(func() {
			g.vars = append(g.vars, gvar{s: i, k: kInt, ro: true})
			form = &Pair{S("let"), &Pair{L(L(i, 0)), L(&Pair{S("while"), &Pair{LS("<", i, n), LL(append([]V{LS("setq", i, LS("+", i, 1))}, g.body(kInt, depth-1)...))}}, g.expr(k, depth-1))}}
		})
	case 1:
		i := pick(g.r, g.pool())
		g.scoped(func() {
			g.vars = append(g.vars, gvar{s: i, k: kInt, ro: true})
			form = &Pair{S("dotimes"), &Pair{L(i, n), LL(g.body(kInt, depth-1))}}
		})
		form = LS("progn", form, g.expr(k, depth-1))
	case 2:
		i := pick(g.r, g.pool())
		l := g.expr(kList, depth-1)
		g.scoped(func() {
			g.vars = append(g.vars, gvar{s: i, k: kAny, ro: true})
			g.blocks = append(g.blocks, gblk{S("nil"), kAny})
			form = &Pair{S("dolist"), &Pair{L(i, l), LL(g.body(kInt, depth-1))}}
		})
		form = LS("progn", form, g.expr(k, depth-1))
	case 3:
		i, j := g.fresh("i"), g.fresh("j")
		g.scoped(func() {
			init := g.expr(kInt, depth-1)
			g.vars = append(g.vars, gvar{s: i, k: kInt, ro: true}, gvar{s: j, k: kInt})
			form = &Pair{S("for"), &Pair{L(L(i, 0, LS("+", i, 1)), L(j, init, g.expr(kInt, depth-1))), &Pair{L(LS(">=", i, n), g.expr(k, depth-1)), LL(g.body(kInt, depth-1))}}}
		})
	}
	return form
}

func (g *Gen) mapForm(depth int) V {
	// the result's elements are ints again
	if g.r.P(25) {
		return LS("mapcar", g.expr(kFn2, depth-1), g.expr(kList, depth-1), g.expr(kList, depth-1))
	}
	if g.r.P(20) {
		return LS("mapc", g.expr(kFn1, depth-1), g.expr(kList, depth-1))
	}
	return LS("mapcar", g.expr(kFn1, depth-1), g.expr(kList, depth-1))
}

func (g *Gen) tagbody(k kind, depth int) V {
	cnt := g.fresh("k")
	v := g.fresh("v")
	var form V
	g.use("tagbody")
	init := g.leaf(k)
	g.scoped(func() {
		g.vars = append(g.vars, gvar{s: v, k: k})
		l1, l2 := g.fresh("l"), g.fresh("l")
		items := []V{}
		g.scoped(func() {
			g.gotags = append(g.gotags, l2)
			items = append(items, g.stmt(depth-1), l1, LS("setq", cnt, LS("+", cnt, 1)))
			items = append(items, g.stmt(depth-1))
			items = append(items, LS("setq", v, g.expr(k, depth-1)))
			items = append(items, LS("if", LS("<", cnt, g.r.In(1, 3)), LS("go", l1)))
			items = append(items, g.stmt(depth-1))
		})
		items = append(items, l2, g.ev(cnt))
		form = LS("let", L(L(cnt, 0), L(v, init)), LS("tagbody", items...), v)
	})
	return form
}

func (g *Gen) quasi(k kind, depth int) V {
	items := []V{}
	for i := g.r.In(1, 3); i > 0; i-- {
		switch g.r.N(4) {
		case 0:
			items = append(items, g.lit())
		case 1:
			items = append(items, L(S("q"), LS("unquote", g.expr(kInt, depth-1))))
		case 2:
			items = append(items, LS("unquote", g.expr(kList, depth-1)))
		default:
			items = append(items, LS("unquote", g.expr(kInt, depth-1)))
		}
	}
	q := LS("quasiquote", LL(items))
	if k == kList {
		// keep the elements ints
		return LS("progn", g.ev(q), g.expr(kList, depth-1))
	}
	return LS("length", LS("ev", q))
}

func (g *Gen) fnVar(k kind, depth int) V {
	// (let ((f <closure>)) ... (funcall f ...)), possibly reassigned or made in a loop
	var form V
	g.scoped(func() {
		n := g.r.N(3)
		kk := kFn0 + kind(n)
		s := pick(g.r, g.pool())
		fe := g.expr(kk, depth-1)
		g.vars = append(g.vars, gvar{s: s, k: kk})
		body := []V{}
		if g.r.P(30) {
			body = append(body, LS("setq", s, g.expr(kk, depth-1)))
		}
		call := LS("funcall", append([]V{s}, g.many(kInt, n, depth-1)...)...)
		if k == kInt {
			body = append(body, g.stmt(depth-1), LS("+", call, LS("funcall", append([]V{s}, g.many(kInt, n, depth-2)...)...)))
		} else {
			body = append(body, LS("list", call, g.expr(kInt, depth-1), call))
		}
		form = &Pair{S("let"), &Pair{L(L(s, fe)), LL(body)}}
	})
	return form
}

func (g *Gen) misc(k kind, depth int) V {
	switch g.r.N(4) {
	case 0:
		return &Pair{S("prog1"), &Pair{g.expr(k, depth-1), LL(g.body(kInt, depth-1))}}
	case 1:
		return &Pair{S("prog2"), &Pair{g.stmt(depth - 1), &Pair{g.expr(k, depth-1), LL(g.body(kInt, depth-1))}}}
	case 2:
		if k == kInt {
			return LS("if", LS("member", g.expr(kInt, depth-1), g.expr(kList, depth-1)), g.expr(kInt, depth-1), g.expr(kInt, depth-1))
		}
		return LS("member", g.expr(kInt, depth-1), g.expr(kList, depth-1))
	}
	return g.expr(k, depth-1)
}

// ---- whole programs ---------------------------------------------------------------

// Prelude that both sides share: class-name* maps a condition to a symbol.
const monPrelude = ``

func (g *Gen) defmacro() V {
	name := g.fresh("mac")
	n := g.r.In(1, 2)
	rest := g.r.P(40)
	pool := []*Sym{S("p"), S("q"), S("x"), S("y")}
	shuffle(g.r, pool)
	ps := []V{}
	for i := 0; i < n; i++ {
		ps = append(ps, pool[i])
	}
	var rv *Sym
	if rest {
		rv = pool[n]
		ps = append(ps, &Kw{"&rest"}, rv)
	}
	u := func(i int) V { return LS("unquote", pool[i]) }
	var tmpl V
	args := []V{}
	for i := 0; i < n; i++ {
		args = append(args, u(i))
	}
	if rest {
		args = append(args, LS("unquote", S("@"+rv.name)))
	}
	switch g.r.N(6) {
	case 0:
		tmpl = &Pair{S("+"), LL(args)}
	case 1:
		tmpl = LS("if", LS("<", u(0), g.lit()), &Pair{S("+"), LL(args)}, g.lit())
	case 2: // hygienic temporary
		gs := S("gs")
		body := LS("quasiquote", LS("let", L(L(LS("unquote", gs), u(0))), LS("+", LS("unquote", gs), LS("unquote", gs), &Pair{S("+"), LL(args[1:])}, 0)))
		g.macs = append(g.macs, gmac{name, n, rest})
		return LS("defmacro", name, LL(ps), LS("let", L(L(gs, LS("gensym"))), body))
	case 3: // evaluates an argument twice
		tmpl = LS("progn", u(0), &Pair{S("+"), LL(args)})
	case 4: // expands into another macro call when there is one
		if len(g.macs) > 0 {
			m := pick(g.r, g.macs)
			a := []V{}
			for i := 0; i < m.n; i++ {
				a = append(a, u(g.r.N(n)))
			}
			tmpl = LS("+", &Pair{m.s, LL(a)}, &Pair{S("+"), LL(args)})
		} else {
			tmpl = LS("let", L(L(S("loc"), u(0))), LS("+", S("loc"), 1))
		}
	default: // expands into ev and computes at expansion time
		g.nev++
		g.macs = append(g.macs, gmac{name, n, rest})
		return LS("defmacro", name, LL(ps), LS("list", Q(S("ev")), g.nev, LS("list", Q(S("+")), pool[0], LS("+", 1, 2))))
	}
	g.macs = append(g.macs, gmac{name, n, rest})
	return LS("defmacro", name, LL(ps), LS("quasiquote", tmpl))
}

func (g *Gen) defun(depth int) V {
	var form V
	name := g.fresh("fun")
	n, rest := g.r.N(3), g.r.P(25)
	g.scoped(func() {
		ps := g.params(n, rest)
		form = &Pair{S("defun"), &Pair{name, &Pair{LL(ps), LL(g.body(kInt, depth))}}}
	})
	g.fns = append(g.fns, gfn{name, n, rest})
	return form
}

// program returns the top-level forms.
func (g *Gen) program(nTop, depth int) []V {
	r := []V{}
	if g.f.Dyn > 0 {
		for i := 0; i < 2; i++ {
			d := S(fmt.Sprintf("*d%d*", i+1))
			r = append(r, LS("defdynamic", d, g.lit()))
			g.dyns = append(g.dyns, d)
		}
		if g.r.P(30) {
			g.dyns = append(g.dyns, S("*unset*"))
		}
	}
	for i := g.r.N(3); i > 0; i-- {
		s := S("*g" + fmt.Sprint(i) + g.suffix + "*")
		r = append(r, LS("defglobal", s, g.lit()))
		g.globs = append(g.globs, s)
		g.vars = append(g.vars, gvar{s: s, k: kInt})
	}
	if g.f.Macros > 0 {
		for i := g.r.In(1, 3); i > 0; i-- {
			r = append(r, g.defmacro())
		}
	}
	if g.f.Calls > 0 {
		for i := g.r.N(3); i > 0; i-- {
			r = append(r, g.defun(depth-1))
		}
	}
	for i := 0; i < nTop; i++ {
		r = append(r, g.expr(pick(g.r, []kind{kInt, kInt, kList}), depth))
	}
	return r
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
