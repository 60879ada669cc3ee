package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"
)

// An independent reference evaluator for the language core. It shares no code with the
// repository; monitors compare the event traces and results of the two.

type V interface{}
type NilT struct{}
type TruT struct{}
type Chr rune
type Sym struct{ name string }
type Kw struct{ name string }
type Pair struct{ a, d V }
type Arr struct {
	dims []int
	data []V
}
type Hash struct{ m map[any]V }
type Fn struct {
	name    string
	params  []*Sym
	locals  []*Sym
	rest    *Sym
	body    []V
	env     *Env
	prim    func(in *Ref, a []V) V
	min     int
	max     int // -1: any
	generic *Generic
}
type Macro struct {
	params []*Sym
	rest   *Sym
	body   []V
	env    *Env
}
type Cls struct {
	name    string
	supers  []*Cls
	slots   []*SlotDef
	builtin bool
}
type SlotDef struct {
	name     string
	initargs []string
	initform V
	hasForm  bool
	env      *Env
}
type Obj struct {
	cls   *Cls
	slots map[string]V
}
type Generic struct {
	name    string
	nreq    int
	methods []*MethodDef
}
type MethodDef struct {
	classes []*Cls
	params  []*Sym
	rest    *Sym
	body    []V
	env     *Env
}
type InStr struct{ rs []rune }
type Cond struct {
	cls  string // class name
	a, b V
}

var rNil = NilT{}
var rT = TruT{}

var symtab sync.Map // name -> *Sym

func S(n string) *Sym {
	if s, ok := symtab.Load(n); ok {
		return s.(*Sym)
	}
	s, _ := symtab.LoadOrStore(n, &Sym{n})
	return s.(*Sym)
}

func L(vs ...V) V {
	var r V = rNil
	for i := len(vs) - 1; i >= 0; i-- {
		r = &Pair{vs[i], r}
	}
	return r
}

// LS builds a form whose head is a symbol.
func LS(head string, vs ...V) V { return &Pair{S(head), L(vs...)} }

func LL(vs []V) V { return L(vs...) }

func Q(v V) V { return LS("quote", v) }

func isNil(v V) bool { _, ok := v.(NilT); return ok }

func bo(b bool) V {
	if b {
		return rT
	}
	return rNil
}

func slice(v V) []V {
	r := []V{}
	for {
		p, ok := v.(*Pair)
		if !ok {
			return r
		}
		r = append(r, p.a)
		v = p.d
	}
}

// ---- source text ---------------------------------------------------------------

// src prints a program as source text for the interpreter's reader.
func src(v V) string {
	var b strings.Builder
	srcTo(&b, v)
	return b.String()
}

func srcs(vs []V) string {
	var b strings.Builder
	for i, v := range vs {
		if i > 0 {
			b.WriteByte('\n')
		}
		srcTo(&b, v)
	}
	return b.String()
}

func srcFloat(f float64) string {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if len(s) > 24 {
		s = strconv.FormatFloat(f, 'e', -1, 64)
		return s
	}
	if !strings.ContainsAny(s, ".") {
		s += ".0"
	}
	return s
}

func srcString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if r == '"' || r == '\\' {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	b.WriteByte('"')
	return b.String()
}

func srcChar(r rune) string {
	switch r {
	case ' ':
		return `#\space`
	case '\n':
		return `#\newline`
	case '\t':
		return `#\tab`
	}
	if (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (r >= '0' && r <= '9') {
		return `#\` + string(r)
	}
	return fmt.Sprintf(`#\U%04X`, r)
}

func srcTo(b *strings.Builder, v V) {
	switch x := v.(type) {
	case NilT:
		b.WriteString("nil")
	case TruT:
		b.WriteString("t")
	case int:
		b.WriteString(strconv.Itoa(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float64:
		b.WriteString(srcFloat(x))
	case string:
		b.WriteString(srcString(x))
	case Chr:
		b.WriteString(srcChar(rune(x)))
	case *Sym:
		b.WriteString(x.name)
	case *Kw:
		b.WriteString(x.name)
	case *Pair:
		if s, ok := x.a.(*Sym); ok {
			if p, ok := x.d.(*Pair); ok && isNil(p.d) {
				pre := ""
				switch s.name {
				case "quote":
					pre = "'"
				case "quasiquote":
					pre = "`"
				case "unquote":
					pre = ","
				case "function":
					if _, ok := p.a.(*Sym); ok {
						pre = "#'"
					}
				}
				if pre != "" {
					b.WriteString(pre)
					srcTo(b, p.a)
					return
				}
			}
		}
		b.WriteByte('(')
		for {
			srcTo(b, x.a)
			if isNil(x.d) {
				break
			}
			n, ok := x.d.(*Pair)
			if !ok {
				b.WriteString(" . ")
				srcTo(b, x.d)
				break
			}
			b.WriteByte(' ')
			x = n
		}
		b.WriteByte(')')
	case *Arr:
		if len(x.dims) == 1 {
			b.WriteString("#(")
			for i, e := range x.data {
				if i > 0 {
					b.WriteByte(' ')
				}
				srcTo(b, e)
			}
			b.WriteByte(')')
		} else {
			fmt.Fprintf(b, "#%da", len(x.dims))
			srcArr(b, x.data, x.dims)
		}
	default:
		bug("src: %T", v)
	}
}

func srcArr(b *strings.Builder, data []V, dims []int) []V {
	b.WriteByte('(')
	for i := 0; i < dims[0]; i++ {
		if i > 0 {
			b.WriteByte(' ')
		}
		if len(dims) > 1 {
			data = srcArr(b, data, dims[1:])
		} else {
			srcTo(b, data[0])
			data = data[1:]
		}
	}
	b.WriteByte(')')
	return data
}

// canonV renders reference values exactly as canon renders interpreter values.
func canonV(v V) string {
	var b strings.Builder
	canonVTo(&b, v, 0)
	return b.String()
}

func canonVTo(b *strings.Builder, v V, depth int) {
	if depth > 5000 {
		b.WriteString("<DEEP>")
		return
	}
	switch x := v.(type) {
	case NilT:
		b.WriteString("nil")
	case TruT:
		b.WriteString("t")
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case int:
		b.WriteString(strconv.Itoa(x))
	case float64:
		b.WriteString(canonFloat(x))
	case string:
		b.WriteString(strconv.QuoteToASCII(x))
	case Chr:
		b.WriteString(canonChar(rune(x)))
	case *Sym:
		if strings.HasPrefix(x.name, "\x00g") {
			b.WriteString("'<gensym>")
		} else {
			b.WriteString("'" + strconv.QuoteToASCII(x.name))
		}
	case *Kw:
		b.WriteString("kw" + x.name)
	case *Pair:
		b.WriteByte('(')
		for i := 0; ; i++ {
			if i > 200000 {
				b.WriteString(" <LONG>")
				break
			}
			canonVTo(b, x.a, depth+1)
			if isNil(x.d) {
				break
			}
			n, ok := x.d.(*Pair)
			if !ok {
				b.WriteString(" . ")
				canonVTo(b, x.d, depth+1)
				break
			}
			b.WriteByte(' ')
			x = n
		}
		b.WriteByte(')')
	case *Arr:
		fmt.Fprintf(b, "#%v[", x.dims)
		for i, e := range x.data {
			if i > 0 {
				b.WriteByte(' ')
			}
			canonVTo(b, e, depth+1)
		}
		b.WriteByte(']')
	case *Fn:
		b.WriteString("<fn>")
	case *Cls:
		b.WriteString("<class " + strconv.QuoteToASCII(x.name) + ">")
	case *Obj:
		b.WriteString("<" + x.cls.name + ">")
	case *InStr:
		b.WriteString("<<reader>>")
	case *Hash:
		b.WriteString("<<hashtable>>")
	case *Cond:
		b.WriteString("<" + x.cls + ">")
	default:
		bug("canonV: %T", v)
	}
}

// ---- environments ------------------------------------------------------------

type Env struct {
	up    *Env
	vars  map[*Sym]*V
	funs  map[*Sym]any // *Fn
	block *blkFrame
	tags  *tagFrame
}

type blkFrame struct {
	name   *Sym
	active bool
}

type tagFrame struct {
	tags   map[*Sym]int
	active bool
}

func (e *Env) bind(names []*Sym, vals []V) *Env {
	n := &Env{up: e, vars: map[*Sym]*V{}}
	for i, s := range names {
		v := vals[i]
		n.vars[s] = &v
	}
	return n
}

func (e *Env) find(s *Sym) *V {
	for ; e != nil; e = e.up {
		if e.vars != nil {
			if p, ok := e.vars[s]; ok {
				return p
			}
		}
	}
	return nil
}

// ---- control -------------------------------------------------------------------

type xBlock struct {
	f *blkFrame
	v V
}
type xThrow struct {
	tag any
	f   *catchFrame
	v   V
}
type xGo struct {
	f   *tagFrame
	pos int
}
type xErr struct{ c V }
type xCont struct{ c, v V }
type xQuit struct{}
type xLimit struct{}

type catchFrame struct {
	tag V
	up  *catchFrame
}
type xIgnored struct{ f *hFrame }

// hFrame is a handler; one without a function is that of (ignore-errors).
type hFrame struct {
	fn V
	up *hFrame
}

// Ref is one reference interpreter.
type Ref struct {
	genv    *Env
	funs    map[*Sym]any // *Fn, *Macro
	dyn     map[*Sym]V
	classes map[string]*Cls
	h       *hFrame
	sig     []V // conditions whose handlers are running
	catches *catchFrame
	Events  []string
	steps   int
	Limit   int
	depth   int
	gcount  int
	stack   int
	stdin   *InStr
}

func newRef() *Ref {
	in := &Ref{genv: &Env{vars: map[*Sym]*V{}}, funs: map[*Sym]any{}, dyn: map[*Sym]V{}, classes: map[string]*Cls{}, Limit: 200000, stdin: &InStr{}}
	for _, n := range builtinClassTable {
		c := &Cls{name: n.name, builtin: true}
		for _, s := range n.supers {
			c.supers = append(c.supers, in.classes[s])
		}
		in.classes[n.name] = c
		in.setGlobal(S(n.name), c)
	}
	for _, n := range []string{"format-string", "format-arguments"} {
		in.classes["<simple-error>"].slots = append(in.classes["<simple-error>"].slots, &SlotDef{name: n, initargs: []string{n}})
	}
	installPrims(in)
	return in
}

var builtinClassTable = []struct {
	name   string
	supers []string
}{
	{"<object>", nil},
	{"<built-in-class>", []string{"<object>"}},
	{"<error>", []string{"<object>"}},
	{"<integer>", []string{"<object>"}},
	{"<float>", []string{"<object>"}},
	{"<string>", []string{"<object>"}},
	{"<character>", []string{"<object>"}},
	{"<symbol>", []string{"<object>"}},
	{"<list>", []string{"<object>"}},
	{"<cons>", []string{"<object>"}},
	{"<null>", []string{"<object>"}},
	{"<function>", []string{"<object>"}},
	{"<simple-error>", []string{"<error>"}},
	{"<program-error>", []string{"<error>"}},
	{"<domain-error>", []string{"<error>"}},
	{"<control-error>", []string{"<error>"}},
	{"<undefined-entity>", []string{"<error>"}},
	{"<unbound-variable>", []string{"<undefined-entity>"}},
	{"<undefined-function>", []string{"<undefined-entity>"}},
	{"<division-by-zero>", []string{"<object>"}},
}

func (in *Ref) setGlobal(s *Sym, v V) {
	if p, ok := in.genv.vars[s]; ok {
		*p = v
		return
	}
	in.genv.vars[s] = &v
}

// RefOutcome mirrors Outcome.
type RefOutcome struct {
	Kind  string // value, error, limit, quit
	Val   string
	Class string
	V     V
}

func (o RefOutcome) String() string {
	switch o.Kind {
	case "value":
		return o.Val
	case "quit":
		return "ERROR quit"
	case "error":
		return "ERROR " + o.Class
	}
	return "LIMIT"
}

// Run evaluates the forms in order.
func (in *Ref) Run(forms []V) (o RefOutcome) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case xErr:
				o = RefOutcome{Kind: "error", Class: condClass(x.c)}
			case xLimit:
				o = RefOutcome{Kind: "limit"}
			case xCont:
				o = RefOutcome{Kind: "error", Class: "error"}
			case xQuit:
				o = RefOutcome{Kind: "quit", Class: "quit"}
			default:
				panic(r)
			}
		}
		in.h, in.catches, in.stack = nil, nil, 0
	}()
	var v V = rNil
	for _, f := range forms {
		v = in.eval(norm(f), in.genv)
	}
	return RefOutcome{Kind: "value", Val: canonV(v), V: v}
}

func condClass(c V) string {
	switch x := c.(type) {
	case *Cond:
		return x.cls
	case *Obj:
		return "error"
	}
	return "error"
}

// agrees: the interpreter's outcome is what the reference prescribes.
func agrees(o Outcome, r RefOutcome) bool {
	switch r.Kind {
	case "value":
		return o.Kind == "value" && o.Val == r.Val
	case "quit":
		return o.Kind == "error" && o.Class == "quit"
	case "error":
		if o.Kind != "error" || o.Class == "fuel" || o.Class == "quit" {
			return false
		}
		return r.Class == "error" || r.Class == o.Class
	}
	return false
}

// ---- conditions ------------------------------------------------------------------

// raise signals a condition at the current point: every active handler, from the innermost to
// the outermost, is called there while only its outer handlers are active.
func (in *Ref) raise(c V, continuable bool) V {
	top := in.h
	for h := top; h != nil; h = h.up {
		v, cont := in.callHandler(h, c)
		if cont && continuable {
			in.h = top
			return v
		}
		if cont {
			in.h = h.up
			in.raise(&Cond{cls: "<control-error>", a: rNil, b: rNil}, false)
			bug("control-error continued")
		}
	}
	in.h = top
	panic(xErr{c: c})
}

func (in *Ref) callHandler(h *hFrame, c V) (v V, cont bool) {
	saveH, saveC, saveS := in.h, in.catches, in.stack
	in.sig = append(in.sig, c)
	defer func() {
		in.h, in.catches, in.stack = saveH, saveC, saveS
		in.sig = in.sig[:len(in.sig)-1]
		if r := recover(); r != nil {
			if x, ok := r.(xCont); ok && x.c == c {
				v, cont = x.v, true
				return
			}
			panic(r)
		}
	}()
	in.h = h.up
	if h.fn == nil {
		if o, ok := c.(*Obj); ok && o.cls.subOf(in.classes["<error>"]) {
			panic(xIgnored{h})
		}
		if _, ok := c.(*Cond); ok {
			panic(xIgnored{h})
		}
		return
	}
	in.apply(h.fn, []V{c})
	return
}

func (in *Ref) errClass(cls string) V { return in.raise(&Cond{cls: cls, a: rNil, b: rNil}, false) }

func (in *Ref) domain(obj V, cls string) V {
	return in.raise(&Cond{cls: "<domain-error>", a: obj, b: in.classes[cls]}, true)
}

// generic error whose class is not prescribed
func (in *Ref) gerr() V { return in.raise(&Cond{cls: "error", a: rNil, b: rNil}, false) }

// ---- evaluation --------------------------------------------------------------------

func (in *Ref) step() {
	in.steps++
	if in.steps > in.Limit {
		panic(xLimit{})
	}
}

func (in *Ref) progn(body []V, env *Env) V {
	var v V = rNil
	for _, f := range body {
		v = in.eval(f, env)
	}
	return v
}

func (in *Ref) eval(f V, env *Env) V {
	in.step()
	switch x := f.(type) {
	case *Sym:
		if p := env.find(x); p != nil {
			return *p
		}
		return in.raise(&Cond{cls: "<unbound-variable>", a: x, b: S("variable")}, false)
	case int:
		return int64(x)
	case *Pair:
		in.stack++
		if in.stack > 4000 {
			panic(xLimit{})
		}
		v := in.evalPair(x, env)
		in.stack--
		return v
	}
	return f
}

func (in *Ref) lookupFn(s *Sym, env *Env) any {
	for e := env; e != nil; e = e.up {
		if e.funs != nil {
			if f, ok := e.funs[s]; ok {
				return f
			}
		}
	}
	if f, ok := in.funs[s]; ok {
		return f
	}
	return nil
}

func (in *Ref) evalArgs(v V, env *Env) []V {
	r := []V{}
	for _, a := range slice(v) {
		r = append(r, in.eval(a, env))
	}
	return r
}

func (in *Ref) evalPair(x *Pair, env *Env) V {
	s, ok := x.a.(*Sym)
	if !ok {
		f := in.eval(x.a, env)
		fn, ok := f.(*Fn)
		if !ok {
			return in.gerr()
		}
		return in.apply(fn, in.evalArgs(x.d, env))
	}
	// local functions shadow everything
	f := in.lookupFn(s, env)
	if f == nil {
		if sf, ok := specials[s.name]; ok {
			return sf(in, slice(x.d), env)
		}
		return in.raise(&Cond{cls: "<undefined-function>", a: s, b: S("function")}, false)
	}
	switch fn := f.(type) {
	case *Fn:
		return in.apply(fn, in.evalArgs(x.d, env))
	case *Macro:
		return in.eval(in.expand(fn, slice(x.d)), env)
	}
	bug("evalPair")
	return nil
}

func (in *Ref) expand(m *Macro, args []V) V {
	if len(args) < len(m.params) || m.rest == nil && len(args) > len(m.params) {
		return in.gerr()
	}
	names := append([]*Sym{}, m.params...)
	vals := append([]V{}, args[:len(m.params)]...)
	if m.rest != nil {
		names = append(names, m.rest)
		vals = append(vals, LL(args[len(m.params):]))
	}
	return in.progn(m.body, m.env.bind(names, vals))
}

func (in *Ref) needFn(fv V) *Fn {
	f, ok := fv.(*Fn)
	if !ok {
		if f, ok = in.domain(fv, "<function>").(*Fn); !ok {
			panic(xLimit{}) // resumed with something that is no function: not prescribed
		}
	}
	return f
}

func (in *Ref) apply(fv V, args []V) V {
	in.step()
	f := in.needFn(fv)
	if f.generic != nil {
		return in.callGeneric(f.generic, args)
	}
	if f.prim != nil {
		if len(args) < f.min {
			return in.gerr()
		}
		if f.max >= 0 && len(args) > f.max {
			return in.gerr()
		}
		return f.prim(in, args)
	}
	if len(args) < len(f.params) {
		return in.gerr()
	}
	if f.rest == nil && len(args) > len(f.params) {
		return in.gerr()
	}
	names := f.params
	vals := args[:len(f.params)]
	if f.rest != nil {
		names = append(append([]*Sym{}, names...), f.rest)
		vals = append(append([]V{}, vals...), LL(args[len(f.params):]))
	}
	if len(f.locals) > 0 {
		names, vals = append([]*Sym{}, names...), append([]V{}, vals...)
		for _, l := range f.locals {
			names, vals = append(names, l), append(vals, rNil)
		}
	}
	in.stack++
	if in.stack > 4000 {
		panic(xLimit{})
	}
	v := in.progn(f.body, f.env.bind(names, vals))
	in.stack--
	return v
}

func parseParams(v V) (ps []*Sym, rest *Sym) {
	vs := slice(v)
	for i := 0; i < len(vs); i++ {
		switch x := vs[i].(type) {
		case *Kw:
			rest = vs[i+1].(*Sym)
			i++
		case *Sym:
			ps = append(ps, x)
		}
	}
	return
}

// splitLocals takes the variables after the slash off a parameter list: they start as nil.
func splitLocals(ps []*Sym) (params, locals []*Sym) {
	for i, p := range ps {
		if p.name == "/" {
			return ps[:i:i], ps[i+1:]
		}
	}
	return ps, nil
}

func mkFn(name string, args []V, env *Env) *Fn {
	ps, rest := parseParams(args[0])
	ps, locals := splitLocals(ps)
	return &Fn{name: name, params: ps, locals: locals, rest: rest, body: args[1:], env: env}
}

func num(v V) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	}
	return 0, false
}

// eql of the reference
func refEql(a, b V) bool {
	switch x := a.(type) {
	case NilT:
		return isNil(b)
	case TruT:
		_, ok := b.(TruT)
		return ok
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case Chr:
		y, ok := b.(Chr)
		return ok && x == y
	case *Kw:
		y, ok := b.(*Kw)
		return ok && x.name == y.name
	}
	return a == b
}

func refEqual(a, b V) bool {
	if x, ok := a.(*Pair); ok {
		y, ok := b.(*Pair)
		return ok && refEqual(x.a, y.a) && refEqual(x.d, y.d)
	}
	if x, ok := a.(*Arr); ok {
		y, ok := b.(*Arr)
		if !ok || len(x.dims) != len(y.dims) {
			return false
		}
		for i := range x.dims {
			if x.dims[i] != y.dims[i] {
				return false
			}
		}
		for i := range x.data {
			if !refEqual(x.data[i], y.data[i]) {
				return false
			}
		}
		return true
	}
	return refEql(a, b)
}

type special func(in *Ref, a []V, env *Env) V

var specials map[string]special

func symOf(v V) *Sym {
	if isNil(v) {
		return S("nil")
	}
	s, ok := v.(*Sym)
	if !ok {
		bug("symOf %T", v)
	}
	return s
}

func init() {
	specials = map[string]special{
		"quote":  func(in *Ref, a []V, env *Env) V { return a[0] },
		"lambda": func(in *Ref, a []V, env *Env) V { return mkFn("", a, env) },
		"function": func(in *Ref, a []V, env *Env) V {
			f := in.lookupFn(a[0].(*Sym), env)
			if f == nil {
				return in.raise(&Cond{cls: "<undefined-function>", a: a[0], b: S("function")}, false)
			}
			if fn, ok := f.(*Fn); ok {
				return fn
			}
			return in.gerr()
		},
		"funcall": func(in *Ref, a []V, env *Env) V {
			f := in.needFn(in.eval(a[0], env))
			return in.apply(f, in.evalArgs(LL(a[1:]), env))
		},
		"apply": func(in *Ref, a []V, env *Env) V {
			f := in.needFn(in.eval(a[0], env))
			args := in.evalArgs(LL(a[1:]), env)
			last := args[len(args)-1]
			return in.apply(f, append(append([]V{}, args[:len(args)-1]...), slice(last)...))
		},
		"progn": func(in *Ref, a []V, env *Env) V { return in.progn(a, env) },
		"if": func(in *Ref, a []V, env *Env) V {
			if !isNil(in.eval(a[0], env)) {
				return in.eval(a[1], env)
			}
			if len(a) > 2 {
				return in.eval(a[2], env)
			}
			return rNil
		},
		"when": func(in *Ref, a []V, env *Env) V {
			if !isNil(in.eval(a[0], env)) {
				return in.progn(a[1:], env)
			}
			return rNil
		},
		"unless": func(in *Ref, a []V, env *Env) V {
			if isNil(in.eval(a[0], env)) {
				return in.progn(a[1:], env)
			}
			return rNil
		},
		"cond": func(in *Ref, a []V, env *Env) V {
			for _, cl := range a {
				c := slice(cl)
				t := in.eval(c[0], env)
				if !isNil(t) {
					if len(c) == 1 {
						return t
					}
					return in.progn(c[1:], env)
				}
			}
			return rNil
		},
		"case": func(in *Ref, a []V, env *Env) V {
			k := in.eval(a[0], env)
			for _, cl := range a[1:] {
				c := cl.(*Pair)
				if _, ok := c.a.(TruT); ok {
					return in.progn(slice(c.d), env)
				}
				for _, x := range slice(c.a) {
					if refEql(k, in.lit(x)) {
						return in.progn(slice(c.d), env)
					}
				}
			}
			return rNil
		},
		"case-using": func(in *Ref, a []V, env *Env) V {
			p := in.eval(a[0], env)
			k := in.eval(a[1], env)
			for _, cl := range a[2:] {
				c := cl.(*Pair)
				if _, ok := c.a.(TruT); ok {
					return in.progn(slice(c.d), env)
				}
				for _, x := range slice(c.a) {
					if !isNil(in.apply(p, []V{k, in.lit(x)})) {
						return in.progn(slice(c.d), env)
					}
				}
			}
			return rNil
		},
		"and": func(in *Ref, a []V, env *Env) V {
			var v V = rT
			for _, f := range a {
				if v = in.eval(f, env); isNil(v) {
					return rNil
				}
			}
			return v
		},
		"or": func(in *Ref, a []V, env *Env) V {
			for _, f := range a {
				if v := in.eval(f, env); !isNil(v) {
					return v
				}
			}
			return rNil
		},
		"while": func(in *Ref, a []V, env *Env) V {
			for !isNil(in.eval(a[0], env)) {
				in.progn(a[1:], env)
			}
			return rNil
		},
		"setq": func(in *Ref, a []V, env *Env) V {
			var v V = rNil
			for i := 0; i+1 < len(a); i += 2 {
				v = in.eval(a[i+1], env)
				p := env.find(a[i].(*Sym))
				if p == nil {
					return in.raise(&Cond{cls: "<unbound-variable>", a: a[i], b: S("variable")}, false)
				}
				*p = v
			}
			return v
		},
		"psetq": func(in *Ref, a []V, env *Env) V {
			vs := []V{}
			for i := 0; i+1 < len(a); i += 2 {
				vs = append(vs, in.eval(a[i+1], env))
			}
			for i := 0; i+1 < len(a); i += 2 {
				p := env.find(a[i].(*Sym))
				if p == nil {
					return in.raise(&Cond{cls: "<unbound-variable>", a: a[i], b: S("variable")}, false)
				}
				*p = vs[i/2]
			}
			return rNil
		},
		"let": func(in *Ref, a []V, env *Env) V {
			ns, vs := []*Sym{}, []V{}
			for _, b := range slice(a[0]) {
				if s, ok := b.(*Sym); ok {
					ns, vs = append(ns, s), append(vs, rNil)
					continue
				}
				c := slice(b)
				ns, vs = append(ns, c[0].(*Sym)), append(vs, in.eval(c[1], env))
			}
			return in.progn(a[1:], env.bind(ns, vs))
		},
		"let*": func(in *Ref, a []V, env *Env) V {
			for _, b := range slice(a[0]) {
				if s, ok := b.(*Sym); ok {
					env = env.bind([]*Sym{s}, []V{rNil})
					continue
				}
				c := slice(b)
				env = env.bind([]*Sym{c[0].(*Sym)}, []V{in.eval(c[1], env)})
			}
			return in.progn(a[1:], env)
		},
		"flet": func(in *Ref, a []V, env *Env) V {
			ne := &Env{up: env, funs: map[*Sym]any{}}
			for _, d := range slice(a[0]) {
				c := slice(d)
				ne.funs[c[0].(*Sym)] = mkFn(c[0].(*Sym).name, c[1:], env)
			}
			return in.progn(a[1:], ne)
		},
		"labels": func(in *Ref, a []V, env *Env) V {
			ne := &Env{up: env, funs: map[*Sym]any{}}
			for _, d := range slice(a[0]) {
				c := slice(d)
				ne.funs[c[0].(*Sym)] = mkFn(c[0].(*Sym).name, c[1:], ne)
			}
			return in.progn(a[1:], ne)
		},
		"defun": func(in *Ref, a []V, env *Env) V {
			in.funs[a[0].(*Sym)] = mkFn(a[0].(*Sym).name, a[1:], env)
			return a[0]
		},
		"defmacro": func(in *Ref, a []V, env *Env) V {
			ps, rest := parseParams(a[1])
			in.funs[a[0].(*Sym)] = &Macro{params: ps, rest: rest, body: a[2:], env: env}
			return a[0]
		},
		"defglobal": func(in *Ref, a []V, env *Env) V {
			in.setGlobal(a[0].(*Sym), in.eval(a[1], env))
			return a[0]
		},
		"defdynamic": func(in *Ref, a []V, env *Env) V {
			in.dyn[a[0].(*Sym)] = in.eval(a[1], env)
			return a[0]
		},
		"dynamic": func(in *Ref, a []V, env *Env) V {
			v, ok := in.dyn[a[0].(*Sym)]
			if !ok {
				return in.raise(&Cond{cls: "<unbound-variable>", a: a[0], b: S("variable")}, false)
			}
			return v
		},
		"with-standard-input": func(in *Ref, a []V, env *Env) V {
			v, ok := in.eval(a[0], env).(*InStr)
			if !ok {
				return in.gerr()
			}
			defer func(s *InStr) { in.stdin = s }(in.stdin)
			in.stdin = v
			return in.progn(a[1:], env)
		},
		"dynamic-let": func(in *Ref, a []V, env *Env) V {
			type sv struct {
				s  *Sym
				v  V
				ok bool
			}
			ns, vs := []*Sym{}, []V{}
			for _, b := range slice(a[0]) {
				c := slice(b)
				ns, vs = append(ns, c[0].(*Sym)), append(vs, in.eval(c[1], env))
			}
			saved := []sv{}
			for i, s := range ns {
				o, ok := in.dyn[s]
				saved = append(saved, sv{s, o, ok})
				in.dyn[s] = vs[i]
			}
			defer func() {
				for i := len(saved) - 1; i >= 0; i-- {
					if saved[i].ok {
						in.dyn[saved[i].s] = saved[i].v
					} else {
						delete(in.dyn, saved[i].s)
					}
				}
			}()
			return in.progn(a[1:], env)
		},
		"set-dynamic*": nil,
		"block": func(in *Ref, a []V, env *Env) V {
			return in.block(symOf(a[0]), env, func(e *Env) V { return in.progn(a[1:], e) })
		},
		"return-from": func(in *Ref, a []V, env *Env) V { return in.returnFrom(symOf(a[0]), a[1], env) },
		"return":      func(in *Ref, a []V, env *Env) V { return in.returnFrom(S("nil"), a[0], env) },
		"catch": func(in *Ref, a []V, env *Env) (v V) {
			tag := in.eval(a[0], env)
			fr := &catchFrame{tag: tag, up: in.catches}
			saveH, saveC, saveS := in.h, in.catches, in.stack
			in.catches = fr
			defer func() {
				in.catches = saveC
				if r := recover(); r != nil {
					if x, ok := r.(xThrow); ok && x.f == fr {
						in.h, in.stack = saveH, saveS
						v = x.v
						return
					}
					panic(r)
				}
			}()
			return in.progn(a[1:], env)
		},
		"throw": func(in *Ref, a []V, env *Env) V {
			tag := in.eval(a[0], env)
			v := in.eval(a[1], env)
			for f := in.catches; f != nil; f = f.up {
				if refEql(f.tag, tag) {
					panic(xThrow{f: f, v: v})
				}
			}
			return in.errClass("<control-error>")
		},
		"tagbody": func(in *Ref, a []V, env *Env) V {
			fr := &tagFrame{tags: map[*Sym]int{}, active: true}
			for i, x := range a {
				if s, ok := x.(*Sym); ok {
					fr.tags[s] = i
				}
			}
			ne := &Env{up: env, tags: fr}
			pc := 0
			saveH, saveC, saveS := in.h, in.catches, in.stack
			run := func() (again bool) {
				defer func() {
					if r := recover(); r != nil {
						if x, ok := r.(xGo); ok && x.f == fr {
							in.h, in.catches, in.stack = saveH, saveC, saveS
							pc, again = x.pos, true
							return
						}
						fr.active = false
						panic(r)
					}
				}()
				for ; pc < len(a); pc++ {
					if _, ok := a[pc].(*Sym); !ok {
						in.eval(a[pc], ne)
					}
				}
				return false
			}
			for run() {
			}
			fr.active = false
			return rNil
		},
		"go": func(in *Ref, a []V, env *Env) V {
			s := a[0].(*Sym)
			for e := env; e != nil; e = e.up {
				if e.tags != nil {
					if p, ok := e.tags.tags[s]; ok {
						if !e.tags.active {
							return in.errClass("<control-error>")
						}
						panic(xGo{e.tags, p})
					}
				}
			}
			return in.errClass("<control-error>")
		},
		"unwind-protect": func(in *Ref, a []V, env *Env) (v V) {
			saveH, saveC, saveS := in.h, in.catches, in.stack
			defer func() {
				r := recover()
				if r != nil {
					if _, ok := r.(xLimit); ok {
						panic(r)
					}
					if _, ok := r.(harnessBug); ok {
						panic(r)
					}
				}
				in.h, in.catches, in.stack = saveH, saveC, saveS
				if in.escapes(a[1:], env) {
					v = in.errClass("<control-error>")
				}
				if r != nil {
					panic(r)
				}
			}()
			return in.eval(a[0], env)
		},
		"ignore-errors": func(in *Ref, a []V, env *Env) (v V) {
			saveH, saveC, saveS := in.h, in.catches, in.stack
			fr := &hFrame{up: in.h}
			in.h = fr
			defer func() {
				in.h = saveH
				if r := recover(); r != nil {
					_, ok := r.(xErr)
					if x, is := r.(xIgnored); is && x.f == fr {
						ok = true
					}
					if ok {
						in.h, in.catches, in.stack = saveH, saveC, saveS
						v = rNil
						return
					}
					panic(r)
				}
			}()
			return in.progn(a, env)
		},
		"with-handler": func(in *Ref, a []V, env *Env) (v V) {
			fn := in.eval(a[0], env)
			if _, ok := fn.(*Fn); !ok {
				return in.domain(fn, "<function>")
			}
			fr := &hFrame{fn: fn, up: in.h}
			saveH := in.h
			in.h = fr
			defer func() { in.h = saveH }()
			return in.progn(a[1:], env)
		},
		"continue-condition": func(in *Ref, a []V, env *Env) V {
			c := in.eval(a[0], env)
			v := in.eval(a[1], env)
			for _, s := range in.sig {
				if s == c {
					panic(xCont{c, v})
				}
			}
			return in.errClass("<control-error>")
		},
		"setf": func(in *Ref, a []V, env *Env) V { return in.setf(a[0], a[1], env) },
		"incf": func(in *Ref, a []V, env *Env) V {
			var d V = int64(1)
			if len(a) > 1 {
				d = a[1]
			}
			return in.setf(a[0], LS("+", a[0], d), env)
		},
		"decf": func(in *Ref, a []V, env *Env) V {
			var d V = int64(1)
			if len(a) > 1 {
				d = a[1]
			}
			return in.setf(a[0], LS("-", a[0], d), env)
		},
		"dotimes": func(in *Ref, a []V, env *Env) V {
			h := slice(a[0])
			n, _ := in.eval(h[1], env).(int64)
			ne := env.bind([]*Sym{h[0].(*Sym)}, []V{int64(0)})
			for i := int64(0); i < n; i++ {
				in.progn(a[1:], ne)
				if now, ok := (*ne.vars[h[0].(*Sym)]).(int64); !ok || now != i {
					panic(xLimit{}) // the body assigned the counter: not prescribed
				}
				*ne.vars[h[0].(*Sym)] = i + 1
			}
			return rNil
		},
		"dolist": func(in *Ref, a []V, env *Env) V {
			h := slice(a[0])
			return in.block(S("nil"), env, func(be *Env) V {
				l := in.eval(h[1], be)
				ne := be.bind([]*Sym{h[0].(*Sym)}, []V{rNil})
				for {
					if isNil(l) {
						return rNil
					}
					p, ok := l.(*Pair)
					if !ok {
						panic(xLimit{}) // not a list: how often the error is raised is not prescribed
					}
					*ne.vars[h[0].(*Sym)] = p.a
					l = p.d
					in.progn(a[1:], ne)
				}
			})
		},
		"for": func(in *Ref, a []V, env *Env) V {
			ns, vs := []*Sym{}, []V{}
			for _, b := range slice(a[0]) {
				c := slice(b)
				ns, vs = append(ns, c[0].(*Sym)), append(vs, in.eval(c[1], env))
			}
			ne := env.bind(ns, vs)
			tr := slice(a[1])
			for isNil(in.eval(tr[0], ne)) {
				in.progn(a[2:], ne)
				nv := map[*Sym]V{}
				for _, b := range slice(a[0]) {
					c := slice(b)
					if len(c) == 3 {
						nv[c[0].(*Sym)] = in.eval(c[2], ne)
					}
				}
				for s, v := range nv {
					*ne.vars[s] = v
				}
			}
			return in.progn(tr[1:], ne)
		},
		"prog1": func(in *Ref, a []V, env *Env) V {
			v := in.eval(a[0], env)
			in.progn(a[1:], env)
			return v
		},
		"prog2": func(in *Ref, a []V, env *Env) V {
			in.eval(a[0], env)
			v := in.eval(a[1], env)
			in.progn(a[2:], env)
			return v
		},
		"set-dynamic": func(in *Ref, a []V, env *Env) V {
			v := in.eval(a[0], env)
			in.dyn[a[1].(*Sym)] = v
			return v
		},
		"quasiquote": func(in *Ref, a []V, env *Env) V { return in.quasi(a[0], env) },
		"class":      func(in *Ref, a []V, env *Env) V { return in.eval(a[0], env) },
		"defclass":   func(in *Ref, a []V, env *Env) V { return in.defclass(a, env) },
		"defgeneric": func(in *Ref, a []V, env *Env) V {
			ps, _ := parseParams(a[1])
			in.funs[a[0].(*Sym)] = &Fn{name: a[0].(*Sym).name, generic: &Generic{name: a[0].(*Sym).name, nreq: len(ps)}}
			return a[0]
		},
		"defmethod": func(in *Ref, a []V, env *Env) V { return in.defmethod(a, env) },
		"instancep": func(in *Ref, a []V, env *Env) V {
			v := in.eval(a[0], env)
			c := in.eval(a[1], env)
			return bo(in.instancep(v, c.(*Cls)))
		},
	}
	delete(specials, "set-dynamic*")
}

func (in *Ref) block(name *Sym, env *Env, body func(*Env) V) (v V) {
	fr := &blkFrame{name: name, active: true}
	saveH, saveC, saveS := in.h, in.catches, in.stack
	defer func() {
		fr.active = false
		if r := recover(); r != nil {
			if x, ok := r.(xBlock); ok && x.f == fr {
				in.h, in.catches, in.stack = saveH, saveC, saveS
				v = x.v
				return
			}
			panic(r)
		}
	}()
	return body(&Env{up: env, block: fr})
}

// escapes runs the cleanup forms; it returns true when they try to leave by an exit.
func (in *Ref) escapes(forms []V, env *Env) (escaped bool) {
	saveH, saveC, saveS := in.h, in.catches, in.stack
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case xBlock, xThrow, xGo, xIgnored:
				in.h, in.catches, in.stack = saveH, saveC, saveS
				escaped = true
				return
			}
			panic(r)
		}
	}()
	in.progn(forms, env)
	return
}

// normAt writes only what changes: some data are in several programs at the same time.
func normAt(p *V) {
	if n, ok := (*p).(int); ok {
		*p = int64(n)
		return
	}
	norm(*p)
}

// norm converts the Go ints of a program text to values in place.
func norm(v V) V {
	switch x := v.(type) {
	case int:
		return int64(x)
	case *Pair:
		for p := x; ; {
			normAt(&p.a)
			n, ok := p.d.(*Pair)
			if !ok {
				normAt(&p.d)
				break
			}
			p = n
		}
	case *Arr:
		for i := range x.data {
			normAt(&x.data[i])
		}
	}
	return v
}

// lit converts literals inside program text to values (int -> int64).
func (in *Ref) lit(v V) V {
	if i, ok := v.(int); ok {
		return int64(i)
	}
	return v
}

func (in *Ref) returnFrom(s *Sym, form V, env *Env) V {
	for e := env; e != nil; e = e.up {
		if e.block != nil && e.block.name == s {
			if !e.block.active {
				in.eval(form, env)
				return in.errClass("<control-error>")
			}
			v := in.eval(form, env)
			panic(xBlock{e.block, v})
		}
	}
	return in.errClass("<control-error>")
}

func (in *Ref) quasi(t V, env *Env) V {
	if x, ok := t.(*Arr); ok {
		n := &Arr{dims: x.dims, data: make([]V, len(x.data))}
		for i, e := range x.data {
			n.data[i] = in.quasi(e, env)
		}
		return n
	}
	p, ok := t.(*Pair)
	if !ok {
		return in.lit(t)
	}
	if s, ok := p.a.(*Sym); ok && s.name == "unquote" {
		return in.eval(p.d.(*Pair).a, env)
	}
	// ,@rest
	if q, ok := p.a.(*Pair); ok {
		if s, ok := q.a.(*Sym); ok && s.name == "unquote" {
			if n, ok := q.d.(*Pair).a.(*Sym); ok && strings.HasPrefix(n.name, "@") {
				lst := slice(in.eval(S(n.name[1:]), env))
				rest := in.quasi(p.d, env)
				for i := len(lst) - 1; i >= 0; i-- {
					rest = &Pair{lst[i], rest}
				}
				return rest
			}
		}
	}
	a := in.quasi(p.a, env)
	d := in.quasi(p.d, env)
	return &Pair{a, d}
}

// ---- setf -----------------------------------------------------------------------------

func (in *Ref) setf(place, value V, env *Env) V {
	if s, ok := place.(*Sym); ok {
		return in.eval(LS("setq", s, value), env)
	}
	p := slice(place)
	name := p[0].(*Sym).name
	// the setter is called with the new value first, then the place's sub-forms
	switch name {
	case "dynamic":
		v := in.eval(value, env)
		in.dyn[p[1].(*Sym)] = v
		return v
	}
	if sf, ok := setters[name]; ok {
		v := in.eval(value, env)
		args := in.evalArgs(LL(p[1:]), env)
		sf(in, v, args)
		return v
	}
	f := in.lookupFn(S("set-"+name), env)
	if f == nil {
		return in.gerr()
	}
	v := in.eval(value, env)
	args := in.evalArgs(LL(p[1:]), env)
	return in.apply(f, append([]V{v}, args...))
}

func (in *Ref) needPair(v V) *Pair {
	p, ok := v.(*Pair)
	if !ok {
		if p, ok = in.domain(v, "<cons>").(*Pair); !ok {
			panic(xLimit{})
		}
	}
	return p
}

func nthcdrV(n int, v V) V {
	for ; n > 0; n-- {
		p, ok := v.(*Pair)
		if !ok {
			return rNil
		}
		v = p.d
	}
	return v
}

var setters = map[string]func(in *Ref, v V, a []V){
	"car":    func(in *Ref, v V, a []V) { in.needPair(a[0]).a = v },
	"cdr":    func(in *Ref, v V, a []V) { in.needPair(a[0]).d = v },
	"first":  func(in *Ref, v V, a []V) { in.needPair(a[0]).a = v },
	"cadr":   func(in *Ref, v V, a []V) { in.needPair(nthcdrV(1, a[0])).a = v },
	"second": func(in *Ref, v V, a []V) { in.needPair(nthcdrV(1, a[0])).a = v },
	"caddr":  func(in *Ref, v V, a []V) { in.needPair(nthcdrV(2, a[0])).a = v },
	"third":  func(in *Ref, v V, a []V) { in.needPair(nthcdrV(2, a[0])).a = v },
	"cadddr": func(in *Ref, v V, a []V) { in.needPair(nthcdrV(3, a[0])).a = v },
	"cddr":   func(in *Ref, v V, a []V) { in.needPair(nthcdrV(1, a[0])).d = v },
	"cdddr":  func(in *Ref, v V, a []V) { in.needPair(nthcdrV(2, a[0])).d = v },
	"nth":    func(in *Ref, v V, a []V) { in.needPair(nthcdrV(int(a[0].(int64)), a[1])).a = v },
	"elt": func(in *Ref, v V, a []V) {
		if arr, ok := a[0].(*Arr); ok {
			arr.set(in, v, a[1:])
			return
		}
		in.needPair(nthcdrV(int(a[1].(int64)), a[0])).a = v
	},
	"aref": func(in *Ref, v V, a []V) { a[0].(*Arr).set(in, v, a[1:]) },
	"gethash": func(in *Ref, v V, a []V) {
		a[1].(*Hash).m[hkey(a[0])] = v
	},
}

func hkey(v V) any {
	switch x := v.(type) {
	case *Kw:
		return "kw" + x.name
	case string:
		return "s" + x
	}
	return v
}

func (a *Arr) index(in *Ref, ix []V) int {
	if len(ix) != len(a.dims) {
		in.gerr()
		bug("index")
	}
	k := 0
	for i, v := range ix {
		n, ok := v.(int64)
		if !ok || n < 0 || n >= int64(a.dims[i]) {
			in.gerr()
			bug("index")
		}
		k = k*a.dims[i] + int(n)
	}
	return k
}

func (a *Arr) set(in *Ref, v V, ix []V) { a.data[a.index(in, ix)] = v }

// ---- classes ----------------------------------------------------------------------------

func (in *Ref) defclass(a []V, env *Env) V {
	c := &Cls{name: a[0].(*Sym).name}
	for _, s := range slice(a[1]) {
		c.supers = append(c.supers, in.eval(s, env).(*Cls))
	}
	method := func(name string, m *MethodDef) {
		f, ok := in.funs[S(name)].(*Fn)
		if !ok || f.generic == nil {
			f = &Fn{name: name, generic: &Generic{name: name, nreq: len(m.classes)}}
			in.funs[S(name)] = f
		}
		f.generic.add(m)
	}
	for _, sd := range slice(a[2]) {
		s := slice(sd)
		d := &SlotDef{name: s[0].(*Sym).name, env: env}
		prim := func(n int, fn func(args []V) V) []V {
			return []V{&primBody{func(in *Ref, args []V) V { return fn(args) }}}
		}
		for i := 1; i+1 < len(s); i += 2 {
			switch s[i].(*Kw).name {
			case ":initarg":
				d.initargs = append(d.initargs, s[i+1].(*Sym).name)
			case ":initform":
				d.initform, d.hasForm = s[i+1], true
			case ":reader":
				method(s[i+1].(*Sym).name, &MethodDef{classes: []*Cls{c}, body: prim(1, func(x []V) V { return x[0].(*Obj).get(d.name) })})
			case ":writer":
				method(s[i+1].(*Sym).name, &MethodDef{classes: []*Cls{in.classes["<object>"], c}, body: prim(2, func(x []V) V { x[1].(*Obj).slots[d.name] = x[0]; return rT })})
			case ":accessor":
				method(s[i+1].(*Sym).name, &MethodDef{classes: []*Cls{c}, body: prim(1, func(x []V) V { return x[0].(*Obj).get(d.name) })})
				method("set-"+s[i+1].(*Sym).name, &MethodDef{classes: []*Cls{in.classes["<object>"], c}, body: prim(2, func(x []V) V { x[1].(*Obj).slots[d.name] = x[0]; return rT })})
			case ":boundp":
				method(s[i+1].(*Sym).name, &MethodDef{classes: []*Cls{c}, body: prim(1, func(x []V) V { _, ok := x[0].(*Obj).slots[d.name]; return bo(ok) })})
			}
		}
		c.slots = append(c.slots, d)
	}
	in.classes[c.name] = c
	in.setGlobal(a[0].(*Sym), c)
	return a[0]
}

type primBody struct{ f func(in *Ref, args []V) V }

func (o *Obj) get(n string) V {
	if v, ok := o.slots[n]; ok {
		return v
	}
	return rNil
}

// precedence: class, then supers depth-first left to right, later duplicates win position (good enough for trees)
func (c *Cls) ancestors() []*Cls {
	r := []*Cls{c}
	for _, s := range c.supers {
		r = append(r, s.ancestors()...)
	}
	return r
}

func (c *Cls) subOf(d *Cls) bool { // strict
	for _, s := range c.supers {
		if s == d || s.subOf(d) {
			return true
		}
	}
	return d.name == "<object>" && c != d
}

func (in *Ref) classOf(v V) *Cls {
	n := ""
	switch x := v.(type) {
	case int64:
		n = "<integer>"
	case float64:
		n = "<float>"
	case string:
		n = "<string>"
	case Chr:
		n = "<character>"
	case *Sym:
		n = "<symbol>"
	case *Pair:
		n = "<cons>"
	case NilT:
		n = "<null>"
	case *Fn:
		n = "<function>"
	case *Obj:
		return x.cls
	case *Cond:
		if c, ok := in.classes[x.cls]; ok {
			return c
		}
		return in.classes["<error>"]
	}
	if n == "" {
		return in.classes["<object>"]
	}
	return in.classes[n]
}

func (in *Ref) instancep(v V, c *Cls) bool {
	k := in.classOf(v)
	return k == c || k.subOf(c)
}

func (in *Ref) create(c *Cls, args []V) V {
	o := &Obj{cls: c, slots: map[string]V{}}
	for i := 0; i+1 < len(args); i += 2 {
		n := args[i].(*Sym).name
		for _, k := range c.ancestors() {
			done := false
			for _, s := range k.slots {
				for _, ia := range s.initargs {
					if ia == n {
						if _, ok := o.slots[s.name]; !ok {
							o.slots[s.name] = args[i+1]
						}
						done = true
					}
				}
			}
			if done {
				break
			}
		}
	}
	for _, k := range c.ancestors() {
		for _, s := range k.slots {
			if _, ok := o.slots[s.name]; !ok && s.hasForm {
				o.slots[s.name] = in.eval(s.initform, s.env)
			}
		}
	}
	return o
}

func (g *Generic) add(m *MethodDef) {
	for i, o := range g.methods {
		same := len(o.classes) == len(m.classes)
		for j := range o.classes {
			if same && o.classes[j] != m.classes[j] {
				same = false
			}
		}
		if same {
			g.methods[i] = m
			return
		}
	}
	g.methods = append(g.methods, m)
}

func (in *Ref) defmethod(a []V, env *Env) V {
	f, ok := in.funs[a[0].(*Sym)].(*Fn)
	if !ok || f.generic == nil {
		return in.gerr()
	}
	m := &MethodDef{body: a[2:], env: env}
	ps := slice(a[1])
	for i := 0; i < len(ps); i++ {
		if _, ok := ps[i].(*Kw); ok {
			r := slice(ps[i+1])
			m.rest = r[0].(*Sym)
			break
		}
		c := slice(ps[i])
		m.params = append(m.params, c[0].(*Sym))
		m.classes = append(m.classes, in.eval(c[1], env).(*Cls))
	}
	f.generic.add(m)
	return a[0]
}

// more specific at the first differing position
func (in *Ref) moreSpecific(a, b *MethodDef) bool {
	for i := range a.classes {
		if a.classes[i] == b.classes[i] {
			continue
		}
		return a.classes[i].subOf(b.classes[i])
	}
	return false
}

func (in *Ref) callGeneric(g *Generic, args []V) V {
	var best *MethodDef
	for _, m := range g.methods {
		if len(args) < len(m.classes) || (len(args) > len(m.classes) && m.rest == nil) {
			continue
		}
		ok := true
		for i, c := range m.classes {
			if !in.instancep(args[i], c) {
				ok = false
				break
			}
		}
		if ok && (best == nil || in.moreSpecific(m, best)) {
			best = m
		}
	}
	if best == nil {
		return in.raise(&Cond{cls: "<undefined-function>", a: S(g.name), b: S("function")}, false)
	}
	if len(best.body) == 1 {
		if p, ok := best.body[0].(*primBody); ok {
			return p.f(in, args)
		}
	}
	names := append([]*Sym{}, best.params...)
	vals := append([]V{}, args[:len(best.params)]...)
	if best.rest != nil {
		names = append(names, best.rest)
		vals = append(vals, LL(args[len(best.params):]))
	}
	return in.progn(best.body, best.env.bind(names, vals))
}

var _ = math.Abs
