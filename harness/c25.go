package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// ---- what the host can hand in ---------------------------------------------------------------

// hostObj is a data type of the host.
type hostObj struct{ n int }

func (h *hostObj) Equals(o gl.Node, _ gl.EqlMode) bool { p, ok := o.(*hostObj); return ok && p == h }
func (h *hostObj) String() string                      { return fmt.Sprintf("#<host %d>", h.n) }
func (h *hostObj) ClassOf() gl.Class                   { return gl.String("").ClassOf() }

// hostErr is an error type of the host.
type hostErr struct{ n int }

func (e *hostErr) Error() string { return fmt.Sprintf("host error %d", e.n) }

// hostCond is an error of the host which is a Lisp object too.
type hostCond struct{ n int }

func (e *hostCond) Error() string                       { return fmt.Sprintf("host condition %d", e.n) }
func (e *hostCond) String() string                      { return e.Error() }
func (e *hostCond) Equals(o gl.Node, _ gl.EqlMode) bool { p, ok := o.(*hostCond); return ok && p == e }
func (e *hostCond) ClassOf() gl.Class                   { return gl.ErrorNode{}.ClassOf() }

var errHost = errors.New("host sentinel")

// passTmpl hand the value of % through; those in passErr let its error through.
var passTmpl = []string{"%", "(let ((x %)) x)", "(let* ((y 1) (x %)) x)", "(progn 1 %)", "(if t % 1)", "(if nil 1 %)", "(car (list %))", "(cdr (cons 1 %))", "(funcall (lambda (x) x) %)", "(catch 'k (throw 'k %))", "(catch 'k %)", "(block b (return-from b %))", "(block b %)",
	"(unwind-protect % 1)", "(let ((x nil)) (setq x %) x)", "(elt (vector 1 %) 1)", "(dynamic-let ((*hv* %)) (dynamic *hv*))", "(aref (create-array '(1) %) 0)", "(apply (lambda (&rest r) (car r)) (list %))", "(with-handler (lambda (c) nil) %)", "(case 1 ((1) %))", "(cond (t %))", "(and t %)", "(or nil %)",
	"(car (mapcar (lambda (x) %) '(1)))", "(flet ((f () %)) (f))", "(labels ((f (n) (if (= n 0) % (f (- n 1))))) (f 3))", "(with-handler (lambda (c) (continue-condition c %)) (cerror \"a\" \"b\"))", "(first (reverse (list %)))", "(prog1 % 2)", "(when t %)", "(unless nil %)", "(for ((i 0 (+ i 1))) ((= i 1) %))", "((lambda () %))", "(id %)", "(car (append (list %) nil))",
	"(progn (set-property % 'pa 'pb) (property 'pa 'pb))", "(let ((l (list 1 2))) (setf (car l) %) (car l))", "(nth 1 (list 0 %))", "(car (mapcar #'id (list %)))", "(catch 'k (with-handler (lambda (c) (throw 'k %)) (car 5)))", "(tail-id 3 %)", "(mac-id %)", "`,%", "(car `(,%))", "(gen-id %)", "(let ((r nil)) (while (not r) (setq r (list %))) (car r))", "(let ((r nil)) (tagbody (setq r %)) r)"}

const passPrelude = "(defdynamic *hv* nil) (defun id (x) x) (defun tail-id (n x) (if (= n 0) x (tail-id (- n 1) x))) (defmacro mac-id (x) (list 'progn x)) (defgeneric gen-id (x)) (defmethod gen-id ((x <object>)) x)"

func (h *hist) pass(s string) string {
	for i := h.R.N(4); i > 0; i-- {
		s = strings.Replace(pick(h.R, passTmpl), "%", s, 1)
	}
	return s
}

// ---- A: calls of host functions ------------------------------------------------------------

func (c *Case) c25Calls() {
	h := newHist(c)
	r := c.R
	h.m.Run(passPrelude)
	var got [][]gl.Node
	var result gl.Node
	var fail error
	F := func(_ context.Context, _ *gl.World, a []gl.Node) (gl.Node, error) {
		got = append(got, append([]gl.Node{}, a...))
		return result, fail
	}
	type hf struct {
		name     string
		min, max int // -1 any
		special  bool
	}
	fs := []hf{}
	funcs := gl.Functions{}
	for i := r.In(1, 4); i > 0; i-- {
		f := hf{name: fmt.Sprintf("host%d", i)}
		var call gl.Callable
		switch r.N(8) {
		case 0:
			f.min, f.max = 0, 0
			call = gl.Function0(func(ctx context.Context, w *gl.World) (gl.Node, error) { return F(ctx, w, nil) })
		case 1:
			f.min, f.max = 1, 1
			call = gl.Function1(func(ctx context.Context, w *gl.World, a gl.Node) (gl.Node, error) { return F(ctx, w, []gl.Node{a}) })
		case 2:
			f.min, f.max = 2, 2
			call = gl.Function2(func(ctx context.Context, w *gl.World, a, b gl.Node) (gl.Node, error) {
				return F(ctx, w, []gl.Node{a, b})
			})
		case 3:
			f.min, f.max = 0, -1
			call = &gl.Function{F: F}
		case 4:
			n := r.In(1, 4)
			if r.P(30) {
				n = r.In(5, 14)
			}
			f.min, f.max = n, n
			call = &gl.Function{C: n, F: F}
		case 5:
			f.min, f.max = r.In(1, 3), -1
			if r.P(30) {
				f.min = r.In(4, 10)
			}
			call = &gl.Function{Min: f.min, F: F}
		case 6:
			f.min = r.N(3)
			f.max = f.min + r.N(3)
			if r.P(40) {
				f.min, f.max = r.N(8), r.In(8, 14)
			}
			if f.max == 0 {
				f.max = 1
			}
			call = &gl.Function{Min: f.min, Max: f.max, F: F}
		case 7:
			f.special = true
			call = gl.SpecialF(func(ctx context.Context, w *gl.World, n gl.Node) (gl.Node, error) {
				a := []gl.Node{}
				for gl.IsSome(n) {
					var x gl.Node
					var err error
					if x, n, err = gl.Shift(n); err != nil {
						return nil, err
					}
					a = append(a, x)
				}
				return F(ctx, w, a)
			})
		}
		fs = append(fs, f)
		funcs[gl.NewSymbol(f.name)] = call
	}
	// some through Flet, some through Export-like global definition
	w := h.m.W.Flet(funcs)
	objs := []*hostObj{{1}, {2}, {3}}
	w = w.Let(gl.Variables{gl.NewSymbol("o1"): objs[0], gl.NewSymbol("o2"): objs[1], gl.NewSymbol("v5"): gl.Integer(5)})
	for step := r.In(4, 12); step > 0 && !h.dead; step-- {
		f := pick(r, fs)
		n := r.N(5)
		if r.P(30) {
			n = r.N(16)
		}
		if r.P(70) && !f.special {
			n = f.min + r.N(2)
			if f.max >= 0 {
				n = f.min + r.N(f.max-f.min+1)
			}
		}
		args, want, evs := []string{}, []string{}, []string{}
		how := r.W(55, 20, 15, 10)
		if f.special {
			how = 0
		}
		if how == 3 && n != 1 {
			how = 0
		}
		bad := -1
		if r.P(6) && n > 0 && !f.special {
			bad = r.N(n)
		}
		for i := 0; i < n; i++ {
			a, v := "", ""
			switch r.N(9) {
			case 0:
				a, v = strconv.Itoa(i), strconv.Itoa(i)
			case 1:
				a, v = `"s"`, `"s"`
			case 2:
				a, v = "nil", "nil"
			case 3:
				a, v = "o1", "#<host 1>"
			case 4:
				a, v = "o2", "#<host 2>"
			case 5:
				a, v = "(+ v5 1)", "6"
			case 6:
				a, v = "'(1 (2))", "(1 (2))"
			case 7:
				a, v = "t", "t"
			case 8:
				a, v = "(car (list #\\a))", "#U+0061"
			}
			if r.P(40) {
				a = fmt.Sprintf("(progn (ev %d) %s)", i, h.pass(a))
				if bad < 0 || i <= bad {
					evs = append(evs, strconv.Itoa(i))
				}
			}
			if i == bad {
				a = "(progn " + a + " (car 'bad))"
			}
			if f.special {
				// unevaluated: compared by the reader's own result
				nodes, err := gl.ReadAll(strings.NewReader(a))
				if err != nil || len(nodes) != 1 {
					bug("c25: %s", a)
				}
				v = canonHost(nodes[0])
				evs = nil
			}
			args, want = append(args, a), append(want, v)
		}
		as := strings.Join(args, " ")
		form := "(" + f.name + " " + as + ")"
		switch how {
		case 1:
			form = "(funcall #'" + f.name + " " + as + ")"
		case 2:
			form = "(apply #'" + f.name + " (list " + as + "))"
			if r.P(30) && n > 0 {
				form = "(apply #'" + f.name + " " + strings.Join(args[:n-1], " ") + " (list " + args[n-1] + "))"
			}
		case 3:
			form = "(car (mapcar #'" + f.name + " (list " + as + ")))"
		}
		fail, result = nil, gl.Node(gl.Integer(r.N(100)))
		switch r.N(6) {
		case 0:
			result = objs[2]
		case 1:
			result = &gl.Cons{Car: gl.Integer(1), Cdr: gl.Null}
		case 2:
			result = nil
		case 3:
			result = gl.List(gl.Integer(1), gl.String("x"))
		}
		outer := h.pass("%")
		if strings.Count(outer, "%") != 1 || result == nil && strings.Contains(outer, "(while ") {
			outer = "%"
		}
		form = strings.Replace(outer, "%", form, 1)
		got = nil
		h.m.Events = nil
		h.log = append(h.log, form)
		o := guard(func() (gl.Node, error) { return w.Interpret(newFuel(defaultFuel, errFuel), form) })
		h.Eval()
		h.Count("host call", 1)
		describe := func() string {
			s := trace(h.m.Events, o) + " called:"
			for _, g := range got {
				for _, x := range g {
					s += " " + canonHost(x)
				}
				s += ";"
			}
			return s + " " + o.Full()
		}
		if strings.Join(h.m.Events, ";") != strings.Join(evs, ";") {
			h.dead = true
			h.Fail("argument evaluation", h.text(), strings.Join(evs, ";"), describe())
			return
		}
		switch {
		case bad >= 0:
			if o.Kind != "error" || o.Class != "<domain-error>" || len(got) != 0 {
				h.dead = true
				h.Fail("failing argument", h.text(), "<domain-error>, no call", describe())
			}
			h.Count("failing argument", 1)
		case !f.special && (n < f.min || f.max >= 0 && n > f.max):
			// nothing is called
			if o.Kind != "error" || len(got) != 0 {
				h.dead = true
				h.Fail("wrong number of arguments", h.text(), fmt.Sprintf("an error and no call (%d to %d)", f.min, f.max), describe())
			}
			h.Count("wrong number", 1)
		default:
			ok := o.Kind == "value" && len(got) == 1 && len(got[0]) == n
			if ok {
				for i, x := range got[0] {
					ok = ok && canonHost(x) == want[i]
				}
				// its result, the very object
				if result == nil {
					ok = ok && gl.IsNone(o.Node)
				} else if _, comparable := result.(*gl.Cons); comparable {
					ok = ok && o.Node == result
				} else {
					ok = ok && o.Node == result
				}
			}
			if !ok {
				h.dead = true
				h.Fail("call", h.text(), strings.Join(want, " ")+" => "+fmt.Sprint(result), describe())
			}
			h.Count("called", 1)
		}
	}
	h.done()
}

// canonHost is canon with the host's objects.
func canonHost(n gl.Node) string {
	switch x := n.(type) {
	case *hostObj:
		return x.String()
	case *gl.Cons:
		s := "("
		for {
			s += canonHost(x.Car)
			next, ok := x.Cdr.(*gl.Cons)
			if !ok {
				if gl.IsSome(x.Cdr) {
					s += " . " + canonHost(x.Cdr)
				}
				return s + ")"
			}
			s += " "
			x = next
		}
	}
	return canon(n)
}

// ---- D: errors of host functions -------------------------------------------------------------

func (c *Case) c25Errors() {
	h := newHist(c)
	r := c.R
	h.m.Run(passPrelude)
	var fail error
	var seen []gl.Node
	calls := 0
	w := h.m.W.Flet(gl.Functions{
		gl.NewSymbol("host"): &gl.Function{F: func(_ context.Context, _ *gl.World, a []gl.Node) (gl.Node, error) {
			calls++
			if r.P(30) {
				return gl.Integer(7), fail // a value besides the error counts for nothing
			}
			return nil, fail
		}},
		gl.NewSymbol("see"): &gl.Function{C: 1, F: func(_ context.Context, _ *gl.World, a []gl.Node) (gl.Node, error) {
			seen = append(seen, a[0])
			return gl.Null, nil
		}},
	})
	for step := r.In(3, 8); step > 0 && !h.dead; step-- {
		var cond *hostCond
		var check func(error) bool
		kind := ""
		n := r.N(1000)
		switch r.N(8) {
		case 0:
			kind, fail = "sentinel", errHost
			check = func(e error) bool { return errors.Is(e, errHost) }
		case 1:
			kind, fail = "wrapped sentinel", fmt.Errorf("outer %d: %w", n, errHost)
			check = func(e error) bool {
				return errors.Is(e, errHost) && strings.Contains(e.Error(), fmt.Sprintf("outer %d: ", n))
			}
		case 2, 3:
			kind, fail = "type", &hostErr{n}
			f := fail
			check = func(e error) bool { var x *hostErr; return errors.As(e, &x) && error(x) == f }
		case 4:
			kind = "condition"
			cond = &hostCond{n}
			fail = cond
			check = func(e error) bool { var x *hostCond; return errors.As(e, &x) && x == cond }
		case 5:
			kind, fail = "MakeError", gl.MakeError(errHost, n)
			check = func(e error) bool { return errors.Is(e, errHost) }
		case 6:
			kind, fail = "joined", errors.Join(errHost, &hostErr{n})
			check = func(e error) bool { var x *hostErr; return errors.Is(e, errHost) && errors.As(e, &x) }
		case 7:
			kind = "quit"
			fail = pick(r, []error{gl.ErrQuit, gl.ErrAbort})
			f := fail
			check = func(e error) bool { return errors.Is(e, f) }
		}
		// a handler which declines sees the condition once
		s := "(host)"
		declines := 0
		caught := ""
		for i := r.N(5); i > 0; i-- {
			switch r.N(7) {
			case 0, 1, 2:
				t := pick(r, passTmpl)
				if strings.Contains(t, "(with-handler (lambda (c) nil)") || strings.Contains(t, "(throw 'k %)) (car 5)") || strings.Contains(t, "(continue-condition c %)") {
					continue
				}
				s = strings.Replace(t, "%", s, 1)
			case 3:
				if caught == "" {
					s = "(with-handler (lambda (c) (see c)) " + s + ")"
					declines++
				}
			case 4:
				s = "(list 1 " + s + " (ev 'never))"
			case 5:
				s = "(unwind-protect " + s + " (ev 'cleanup))"
			case 6:
				if caught == "" && kind != "quit" && r.P(50) {
					caught = pick(r, []string{"throw", "ignore", "continue", "resignal", "return"})
					switch caught {
					case "throw":
						s = "(catch 'hk (with-handler (lambda (c) (see c) (throw 'hk 'got)) " + s + "))"
						declines++
					case "return":
						s = "(block hb (with-handler (lambda (c) (see c) (return-from hb 'got)) " + s + "))"
						declines++
					case "ignore":
						s = "(progn (ignore-errors " + s + ") 'got)"
					case "continue": // the error can not be continued
						s = "(with-handler (lambda (c) (continue-condition c 'got)) " + s + ")"
					case "resignal":
						s = "(with-handler (lambda (c) (see c) (signal-condition c nil)) " + s + ")"
						declines++
					}
					if caught == "continue" || caught == "resignal" {
						i = 1
					}
				}
			}
		}
		seen, calls = nil, 0
		h.m.Events = nil
		h.log = append(h.log, s+" ;; "+kind)
		o := guard(func() (gl.Node, error) {
			return w.Interpret(newFuel(defaultFuel, errFuel), "(ev 'before) "+s+" (ev 'after)")
		})
		h.Eval()
		h.Count("host error", 1)
		h.Count("error: "+kind, 1)
		bad := func(want string) {
			h.dead = true
			h.Fail("host error", h.text(), want, trace(h.m.Events, o)+" "+o.Full())
		}
		never := strings.Contains(strings.Join(h.m.Events, ";"), "never")
		after := len(h.m.Events) > 0 && h.m.Events[len(h.m.Events)-1] == `'"after"`
		cleanups := strings.Count(s, "(ev 'cleanup)")
		ran := strings.Count(strings.Join(h.m.Events, ";"), "cleanup")
		if kind == "quit" {
			declines = 0
		}
		switch {
		case caught == "throw" || caught == "ignore" || caught == "return":
			h.Count("handled", 1)
			if o.Kind != "value" || !after {
				bad("the error is handled")
				return
			}
		case caught == "continue":
			if o.Kind != "error" || o.Class != "<control-error>" {
				bad("<control-error>")
				return
			}
		default:
			if o.Kind != "error" || after || !check(o.Err) {
				bad("the host's error: " + fail.Error())
				return
			}
		}
		// events after the failing call are those of the cleanups only
		if never && caught == "" || ran != cleanups || calls != 1 {
			bad(fmt.Sprintf("one call (%d), %d cleanups", calls, cleanups))
			return
		}
		if caught != "resignal" && caught != "continue" && len(seen) != declines {
			bad(fmt.Sprintf("%d handler calls, not %d", declines, len(seen)))
			return
		}
		for _, x := range seen {
			h.Count("condition seen", 1)
			if cond != nil {
				if x != gl.Node(cond) {
					bad("the handler gets the host's condition, not " + x.String())
					return
				}
			} else if e, ok := x.(error); !ok || !check(e) {
				bad("the handler gets the host's error, not " + x.String())
				return
			}
		}
	}
	h.done()
}

// ---- B: scopes -----------------------------------------------------------------------------

// recScope is a scope of the host which records its use.
type recScope struct {
	vals map[gl.Symbol]gl.Node
	sets []string
}

func (s *recScope) Get(n gl.Symbol) (gl.Node, bool) { v, ok := s.vals[n]; return v, ok }
func (s *recScope) Set(n gl.Symbol, v gl.Node) {
	s.sets = append(s.sets, n.String()+"="+canon(v))
	s.vals[n] = v
}
func (s *recScope) Range(f func(gl.Symbol, gl.Node) bool) {
	for k, v := range s.vals {
		if !f(k, v) {
			return
		}
	}
}

type recFuncs struct {
	vals map[gl.Symbol]gl.Callable
}

func (s *recFuncs) Get(n gl.Symbol) (gl.Callable, bool) { v, ok := s.vals[n]; return v, ok }
func (s *recFuncs) Set(n gl.Symbol, v gl.Callable)      { s.vals[n] = v }
func (s *recFuncs) Range(f func(gl.Symbol, gl.Callable) bool) {
	for k, v := range s.vals {
		if !f(k, v) {
			return
		}
	}
}

type sworld struct {
	parent *sworld
	w      *gl.World
	vars   map[string]string // nil: none
	funcs  map[string]string
	raw    gl.Scope
	sets   []string
}

func (s *sworld) find(n string) map[string]string {
	for ; s != nil; s = s.parent {
		if _, ok := s.vars[n]; ok {
			return s.vars
		}
	}
	return nil
}

func (s *sworld) findScope(n string) *sworld {
	for ; s != nil; s = s.parent {
		if _, ok := s.vars[n]; ok {
			return s
		}
	}
	return nil
}

func (s *sworld) findFunc(n string) (string, bool) {
	for ; s != nil; s = s.parent {
		if v, ok := s.funcs[n]; ok {
			return v, true
		}
	}
	return "", false
}

func (c *Case) c25Scopes() {
	h := newHist(c)
	r := c.R
	tag := fmt.Sprintf("-%d", c.Idx)
	vn := []string{"hx" + tag, "hy" + tag, "hz" + tag}
	fn := []string{"p", "q"}
	base := &sworld{w: h.m.W, vars: map[string]string{}, funcs: map[string]string{}}
	ws := []*sworld{base}
	val := 100
	next := func() string {
		val++
		switch r.N(12) {
		case 0, 1:
			return "nil"
		case 2:
			return "t"
		case 3:
			return fmt.Sprintf("%q", "s"+strconv.Itoa(val))
		}
		return strconv.Itoa(val)
	}
	node := func(v string) gl.Node {
		n, err := gl.ReadNode(strings.NewReader(v))
		if err != nil {
			bug("%s: %v", v, err)
		}
		return n
	}
	constF := func(v string) gl.Callable {
		return &gl.Function{F: func(context.Context, *gl.World, []gl.Node) (gl.Node, error) { return node(v), nil }}
	}
	closures := map[string]*sworld{} // number of the getter and setter
	derive := func() {
		p := pick(r, ws)
		s := &sworld{parent: p}
		desc := ""
		switch r.N(5) {
		case 0, 1:
			vs := gl.Variables{}
			s.vars = map[string]string{}
			for i := r.N(3); i >= 0; i-- {
				n, v := pick(r, vn), next()
				vs[gl.NewSymbol(n)] = node(v)
				s.vars[n] = v
			}
			s.raw = vs
			s.w = p.w.Let(vs)
			desc = fmt.Sprint("Let ", s.vars)
		case 2:
			n, v := pick(r, vn), next()
			s.vars = map[string]string{n: v}
			pr := &gl.Pair{Key: gl.NewSymbol(n), Value: node(v)}
			s.raw = pr
			s.w = p.w.Let(pr)
			desc = fmt.Sprint("Let Pair ", s.vars)
		case 3:
			rs := &recScope{vals: map[gl.Symbol]gl.Node{}}
			s.vars = map[string]string{}
			for i := r.N(3); i > 0; i-- {
				n, v := pick(r, vn), next()
				rs.vals[gl.NewSymbol(n)] = node(v)
				s.vars[n] = v
			}
			s.raw = rs
			s.w = p.w.Let(rs)
			desc = fmt.Sprint("Let custom ", s.vars)
		case 4:
			s.funcs = map[string]string{}
			var fs gl.FuncScope = gl.Functions{}
			if r.P(40) {
				fs = &recFuncs{vals: map[gl.Symbol]gl.Callable{}}
			}
			for i := r.N(2); i >= 0; i-- {
				n, v := pick(r, fn), next()
				fs.Set(gl.NewSymbol(n), constF(v))
				s.funcs[n] = v
			}
			s.w = p.w.Flet(fs)
			desc = fmt.Sprint("Flet ", s.funcs)
		}
		idx := 0
		for i, x := range ws {
			if x == p {
				idx = i
			}
		}
		h.log = append(h.log, fmt.Sprintf(";; world %d = world %d.%s", len(ws), idx, desc))
		ws = append(ws, s)
		h.Count("derived", 1)
	}
	expect := func(s *sworld, i int, kind, src, want string) {
		if h.dead {
			return
		}
		h.log = append(h.log, fmt.Sprintf(";; in world %d\n%s", i, src))
		o := interp(s.w, src)
		h.Eval()
		h.Count(kind, 1)
		if o.String() != want {
			h.dead = true
			h.Fail(kind, h.text(), want, o.Full())
		}
	}
	for i := r.In(1, 4); i > 0; i-- {
		derive()
	}
	read := func(m *sworld, n string) string {
		if s := m.find(n); s != nil {
			return s[n]
		}
		return "ERROR <unbound-variable>"
	}
	assign := func(m *sworld, n, v string) bool {
		s := m.findScope(n)
		if s == nil {
			return false
		}
		s.vars[n] = v
		s.sets = append(s.sets, n+"="+v)
		return true
	}
	for step := r.In(8, 30); step > 0 && !h.dead; step-- {
		i := r.N(len(ws))
		s := ws[i]
		n := pick(r, vn)
		f := pick(r, fn)
		v := next()
		switch r.N(19) {
		case 0, 1, 2:
			expect(s, i, "read", pick(r, []string{n, "(progn " + n + ")", "((lambda () " + n + "))", "(let ((other 1)) " + n + ")", "(car (list " + n + "))"}), read(s, n))
		case 3, 4:
			want := v
			if !assign(s, n, v) {
				want = "ERROR <unbound-variable>"
			}
			expect(s, i, "setq", pick(r, []string{"(setq " + n + " " + v + ")", "(progn (setq " + n + " " + v + ") " + n + ")", "((lambda () (setq " + n + " " + v + ")))", "(let ((other 1)) (setq " + n + " " + v + "))"}), want)
		case 5:
			expect(s, i, "shadow", fmt.Sprintf("(let ((%s %d)) (setq %s (+ 1 %s)) %s)", n, val, n, n, n), strconv.Itoa(val+1))
		case 6:
			g := strconv.Itoa(len(closures))
			closures[g+" "+n] = s
			expect(s, i, "closure", "(progn (defun get"+g+" () "+n+") (defun set"+g+" (v) (setq "+n+" v)) 0)", "0")
		case 7, 8:
			for k, cw := range closures {
				p := strings.Fields(k)
				if r.P(50) {
					expect(s, i, "call of a closure", "(get"+p[0]+")", read(cw, p[1]))
				} else {
					want := v
					if !assign(cw, p[1], v) {
						want = "ERROR <unbound-variable>"
					}
					expect(s, i, "call of a closure", "(set"+p[0]+" "+v+")", want)
				}
				break
			}
		case 9:
			base.funcs[f] = v
			expect(s, i, "defun", "(progn (defun "+f+" () "+v+") 0)", "0")
		case 10, 11:
			want, ok := s.findFunc(f)
			if !ok {
				want = "ERROR <undefined-function>"
			}
			expect(s, i, "function call", pick(r, []string{"(" + f + ")", "(funcall #'" + f + ")", "(progn (" + f + "))", "(let ((" + f + " 1)) (" + f + "))"}), want)
		case 12:
			expect(s, i, "local function", "(flet (("+f+" () "+v+")) ("+f+"))", v)
		case 13:
			// by the host
			x, err := s.w.Get(gl.NewSymbol(n))
			got := "ERROR <unbound-variable>"
			if err == nil {
				got = canon(x)
			}
			h.Eval()
			h.Count("World.Get", 1)
			if want := read(s, n); got != want {
				h.dead = true
				h.Fail("World.Get", h.text()+fmt.Sprintf("\n;; world %d: Get(%s)", i, n), want, got)
			}
		case 14:
			h.log = append(h.log, fmt.Sprintf(";; world %d: Set(%s, %s)", i, n, v))
			err := s.w.Set(gl.NewSymbol(n), node(v))
			h.Eval()
			h.Count("World.Set", 1)
			if ok := assign(s, n, v); ok != (err == nil) {
				h.dead = true
				h.Fail("World.Set", h.text(), fmt.Sprint("found: ", ok), fmt.Sprint(err))
			}
		case 15:
			cl, err := s.w.GetFunc(gl.NewSymbol(f))
			want, ok := s.findFunc(f)
			h.Eval()
			h.Count("World.GetFunc", 1)
			got := ""
			if err == nil {
				x, e := cl.Call(context.Background(), s.w, gl.Null)
				if e != nil {
					got = e.Error()
				} else {
					got = canon(x)
				}
			}
			if ok != (err == nil) || got != want {
				h.dead = true
				h.Fail("World.GetFunc", h.text()+fmt.Sprintf("\n;; world %d: GetFunc(%s)", i, f), want, got+fmt.Sprint(err))
			}
		case 16:
			// the host changes its own scope
			if s.vars == nil || s.raw == nil {
				continue
			}
			if _, ok := s.vars[n]; !ok {
				if _, pair := s.raw.(*gl.Pair); pair {
					continue
				}
			}
			h.log = append(h.log, fmt.Sprintf(";; the scope of world %d: Set(%s, %s)", i, n, v))
			s.raw.Set(gl.NewSymbol(n), node(v))
			s.vars[n] = v
			s.sets = append(s.sets, n+"="+v)
			h.Count("scope changed", 1)
		case 17:
			base.vars[n] = v
			if r.P(50) {
				expect(s, i, "defglobal", "(progn (defglobal "+n+" "+v+") 0)", "0")
			} else {
				h.log = append(h.log, fmt.Sprintf(";; world %d: DefineGlobal(%s, %s)", i, n, v))
				s.w.DefineGlobal(gl.NewSymbol(n), node(v))
				h.Count("DefineGlobal", 1)
			}
		case 18:
			derive()
		}
	}
	// what the host finds in its scopes afterwards
	for i, s := range ws {
		if h.dead {
			break
		}
		if s.raw != nil {
			got := map[string]string{}
			s.raw.Range(func(k gl.Symbol, v gl.Node) bool { got[k.String()] = canon(v); return true })
			h.Eval()
			if fmt.Sprint(got) != fmt.Sprint(s.vars) {
				h.dead = true
				h.Fail("scope contents", h.text()+fmt.Sprintf("\n;; the scope of world %d", i), fmt.Sprint(s.vars), fmt.Sprint(got))
			}
			if rs, ok := s.raw.(*recScope); ok && strings.Join(rs.sets, " ") != strings.Join(s.sets, " ") {
				h.dead = true
				h.Fail("assignments seen by the scope", h.text()+fmt.Sprintf("\n;; the scope of world %d", i), strings.Join(s.sets, " "), strings.Join(rs.sets, " "))
			}
			h.Count("scope contents", 1)
		}
		if h.dead {
			break
		}
		want, got := map[string]string{}, map[string]string{}
		twice := ""
		for _, n := range vn {
			if m := s.find(n); m != nil {
				want[n] = m[n]
			}
		}
		s.w.Range(func(k gl.Symbol, v gl.Node) bool {
			n := k.String()
			if strings.HasSuffix(n, tag) && strings.HasPrefix(n, "h") {
				if _, ok := got[n]; ok {
					twice = n
				}
				got[n] = canon(v)
			}
			return true
		})
		h.Eval()
		h.Count("World.Range", 1)
		if r.P(30) {
			// asked to stop, it stops
			calls, stop, after := 0, r.In(1, 6), 0
			s.w.Range(func(gl.Symbol, gl.Node) bool {
				if calls++; calls > stop {
					after++
				}
				return calls < stop
			})
			if after > 0 {
				h.dead = true
				h.Fail("World.Range goes on", h.text()+fmt.Sprintf("\n;; world %d", i), fmt.Sprintf("no call after the function returned false at call %d", stop), fmt.Sprint(after, " more calls"))
			}
			h.Count("World.Range stopped", 1)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) || twice != "" {
			h.dead = true
			h.Fail("World.Range", h.text()+fmt.Sprintf("\n;; world %d", i), fmt.Sprint(want), fmt.Sprint(got, twice))
		}
	}
	h.done()
}

// ---- C: a program under host bindings is the program under let and flet ----------------------

func (c *Case) c25Programs() {
	g := newGen(c.R, featAll, c.R.In(30, 100))
	g.idioms = append(append(append([]idiom{}, idiomsScope...), idiomsExit...), idiomsDyn...)
	g.suffix = "-h"
	g.vars = append(g.vars, gvar{s: S("h0"), k: kInt}, gvar{s: S("h1"), k: kInt}, gvar{s: S("h2"), k: kList})
	g.fns = append(g.fns, gfn{S("hf"), 1, false}, gfn{S("hg"), 2, false})
	forms := g.program(c.R.In(1, 3), c.R.In(2, 5))
	forms = append(forms, LS("list", S("h0"), S("h1"), S("h2")))
	m := newMon()
	vars := gl.Variables{gl.NewSymbol("h0"): gl.Integer(3), gl.NewSymbol("h1"): gl.Integer(-1), gl.NewSymbol("h2"): gl.List(gl.Integer(1), gl.Integer(2))}
	log := func(s string) { m.Events = append(m.Events, s) }
	fs := gl.Functions{
		gl.NewSymbol("hf"): &gl.Function{C: 1, F: func(ctx context.Context, w *gl.World, a []gl.Node) (gl.Node, error) {
			log("'\"hf\" " + canon(a[0]))
			if x, ok := a[0].(gl.Integer); ok {
				return x + 1, nil
			}
			return gl.Integer(0), nil
		}},
		gl.NewSymbol("hg"): gl.Function2(func(ctx context.Context, w *gl.World, a, b gl.Node) (gl.Node, error) {
			log("'\"hg\" " + canon(a) + " " + canon(b))
			return a, nil
		}),
	}
	w := m.W
	switch c.R.N(3) {
	case 0:
		w = w.Let(vars).Flet(fs)
	case 1:
		w = w.Flet(fs).Let(vars)
	case 2:
		w = w.Let(gl.Variables{gl.NewSymbol("h0"): gl.Integer(77), gl.NewSymbol("h9"): gl.Null}).Flet(gl.Functions{gl.NewSymbol("hf"): gl.Function0(nil)}).Let(vars).Flet(fs)
	}
	m.W = w
	in := newRef()
	in.Limit = 60000
	lets := TT("((h0 3) (h1 -1) (h2 (list 1 2)))")[0]
	flets := TT("((hf (x) (ev 'hf x) (if (integerp x) (+ x 1) 0)) (hg (a b) (ev 'hg a b) a))")[0]
	ro := in.Run([]V{LS("let", lets, &Pair{S("flet"), &Pair{flets, LL(forms)}})})
	if ro.Kind == "limit" {
		c.Count("discarded", 1)
		return
	}
	text := srcs(forms)
	var o Outcome
	// the whole text at once, or form by form
	how := c.R.N(3)
	run := func(s string) Outcome {
		return guard(func() (gl.Node, error) {
			ctx := newFuel(defaultFuel, errFuel)
			switch c.R.N(3) {
			case 0:
				return m.W.InterpretBytes(ctx, []byte(s))
			case 1:
				ns, err := gl.ReadAll(strings.NewReader(s))
				if err != nil {
					return nil, err
				}
				return m.W.InterpretNodes(ctx, ns)
			}
			return m.W.Interpret(ctx, s)
		})
	}
	if how == 0 {
		o = run(text)
	} else {
		for _, f := range forms {
			if o = run(src(f)); o.Kind != "value" {
				break
			}
		}
	}
	c.Eval()
	c.Count("program under host bindings", 1)
	c.Count("events", len(in.Events))
	if !agrees(o, ro) || strings.Join(m.Events, "\x00") != strings.Join(in.Events, "\x00") {
		c.Fail("host bindings", ";; Let h0 3 h1 -1 h2 (1 2), Flet hf hg\n"+text, trace(in.Events, Outcome{Kind: "value", Val: ro.String()}), trace(m.Events, o)+"\n"+o.Full())
		return
	}
	if o.Kind == "value" {
		// and the host finds what was assigned
		got := "(" + canon(vars[gl.NewSymbol("h0")]) + " " + canon(vars[gl.NewSymbol("h1")]) + " " + canon(vars[gl.NewSymbol("h2")]) + ")"
		if got != o.Val {
			c.Fail("host variables", text, o.Val, got)
		}
		c.Count("host variables", 1)
	}
	c.Distinct(text)
}

// ---- E: the writers of the host --------------------------------------------------------------

type hostWriter struct {
	b    bytes.Buffer
	fail bool
}

var errWriter = errors.New("host writer is full")

func (w *hostWriter) Write(p []byte) (int, error) {
	if w.fail {
		return 0, errWriter
	}
	return w.b.Write(p)
}

func (c *Case) c25Output() {
	h := newHist(c)
	r := c.R
	ws := []*gl.World{h.m.W}
	outs := []*hostWriter{{}, {}, {}}
	want := make([]string, len(outs))
	cur, curE := 0, 1
	h.m.W.SetStdout(outs[0])
	h.m.W.SetErrout(outs[1])
	fresh := []bool{true, true} // nothing written since the writer was set
	ws = append(ws, h.m.W.Let(gl.Variables{gl.NewSymbol("o-x"): gl.Integer(1)}), h.m.W.Flet(gl.Functions{}))
	h.m.W.Flet(gl.Functions{})
	held := "" // (defglobal) stream held by the program
	_ = held
	for step := r.In(6, 25); step > 0 && !h.dead; step-- {
		w := pick(r, ws)
		isErr := r.P(30)
		stream, k, fr := "(standard-output)", cur, 0
		if isErr {
			stream, k, fr = "(error-output)", curE, 1
		}
		switch r.N(9) {
		case 0:
			n := r.N(len(outs))
			h.log = append(h.log, fmt.Sprintf(";; SetStdout(%d)", n))
			w.SetStdout(outs[n])
			cur = n
			fresh[0] = true
			h.Count("SetStdout", 1)
		case 1:
			n := r.N(len(outs))
			h.log = append(h.log, fmt.Sprintf(";; SetErrout(%d)", n))
			w.SetErrout(outs[n])
			curE = n
			fresh[1] = true
			h.Count("SetErrout", 1)
		case 2:
			s := fmt.Sprintf("host%d\n", step)
			if isErr {
				fmt.Fprint(w.Errout(), s)
			} else {
				fmt.Fprint(w.Stdout(), s)
			}
			h.log = append(h.log, fmt.Sprintf(";; the host writes %q to its %s", s, stream))
			want[k] += s
			fresh[fr] = true // at the beginning of a line again
			h.Count("host writes", 1)
		case 3:
			outs[k].fail = true
			src := "(format " + stream + " \"lost\")"
			h.log = append(h.log, src+" ;; the writer fails")
			o := interp(w, src)
			h.Eval()
			outs[k].fail = false
			h.Count("failing writer", 1)
			if o.Kind != "error" || !errors.Is(o.Err, errWriter) {
				h.dead = true
				h.Fail("failing writer", h.text(), errWriter.Error(), o.Full())
			}
		default:
			t := pick(r, []string{"a", "b~%", "~&c", "x~%~&y", ""})
			src := "(format " + stream + " \"" + t + "\")"
			out := strings.NewReplacer("~%", "\n").Replace(t)
			if strings.HasPrefix(out, "~&") {
				nl := "\n"
				if fresh[fr] {
					nl = ""
				}
				out = nl + out[2:]
			}
			out = strings.ReplaceAll(out, "\n~&", "\n")
			if out == "" && r.P(50) {
				src = "(format-char " + stream + " #\\z)"
				out = "z"
			}
			if out != "" {
				fresh[fr] = strings.HasSuffix(out, "\n")
			}
			want[k] += out
			h.log = append(h.log, src)
			o := interp(w, src)
			h.Eval()
			h.Count("output", 1)
			if o.Kind != "value" {
				h.dead = true
				h.Fail("output", h.text(), "a value", o.Full())
			}
		}
		for i, x := range outs {
			if !h.dead && x.b.String() != want[i] {
				h.dead = true
				h.Fail("output", h.text()+fmt.Sprintf("\n;; writer %d", i), fmt.Sprintf("%q", want[i]), fmt.Sprintf("%q", x.b.String()))
			}
		}
	}
	h.done()
}

// ---- F: host functions calling back -----------------------------------------------------------

func (c *Case) c25Callbacks() {
	h := newHist(c)
	r := c.R
	wrapErr := false
	wrap := func(e error) error {
		if e != nil && wrapErr {
			return fmt.Errorf("host context: %w", e)
		}
		return e
	}
	fs := gl.Functions{
		// (each f list): calls f with each element
		gl.NewSymbol("each"): &gl.Function{C: 2, F: func(ctx context.Context, w *gl.World, a []gl.Node) (gl.Node, error) {
			f, err := gl.ExpectFunction(ctx, w, a[0])
			if err != nil {
				return nil, err
			}
			var last gl.Node = gl.Null
			err = gl.SeqEach(ctx, w, a[1], func(n gl.Node) error {
				v, err := f.Call(ctx, w, gl.UnevalList(n))
				last = v
				return err
			})
			if err != nil {
				return nil, wrap(err)
			}
			return last, nil
		}},
		// (host-eval text): interprets it in the interpreter it is called by
		gl.NewSymbol("host-eval"): &gl.Function{C: 1, F: func(ctx context.Context, w *gl.World, a []gl.Node) (gl.Node, error) {
			s, err := gl.ExpectClass[gl.String](ctx, w, a[0])
			if err != nil {
				return nil, err
			}
			v, err := w.Interpret(ctx, s.String())
			return v, wrap(err)
		}},
		gl.NewSymbol("host-progn"): gl.SpecialF(func(ctx context.Context, w *gl.World, n gl.Node) (gl.Node, error) {
			v, err := gl.Progn(ctx, w, n)
			return v, wrap(err)
		}),
		gl.NewSymbol("host-dyn"): gl.SpecialF(func(ctx context.Context, w *gl.World, n gl.Node) (gl.Node, error) {
			d := w.NewDynamics()
			defer d.Close()
			d.Set(gl.NewSymbol("*cd*"), gl.Integer(55))
			d.Set(gl.NewSymbol("*cd*"), gl.Integer(56))
			v, err := gl.Progn(ctx, w, n)
			return v, wrap(err)
		}),
		gl.NewSymbol("host-int"): &gl.Function{C: 1, F: func(ctx context.Context, w *gl.World, a []gl.Node) (gl.Node, error) {
			return gl.ExpectClass[gl.Integer](ctx, w, a[0])
		}},
		gl.NewSymbol("host-map"): &gl.Function{Min: 2, F: func(ctx context.Context, w *gl.World, a []gl.Node) (gl.Node, error) {
			l := &gl.ListBuilder{}
			err := gl.MapCar(ctx, w, a[0], a[1:], func(n gl.Node) { l.Add(ctx, w, n) })
			return l.Sequence(), wrap(err)
		}},
	}
	h.m.W = h.m.W.Flet(fs)
	h.run("prelude", "(defdynamic *cd* 1)")
	type tc struct{ src, want string }
	evs := func(o Outcome) string { return trace(h.m.Events, o) }
	for step := r.In(4, 12); step > 0 && !h.dead; step-- {
		wrapErr = r.P(40)
		n := strconv.Itoa(r.N(90))
		t := pick(r, []tc{
			{"(each (lambda (x) (ev x) (* x 2)) '(1 2 3))", "1;2;3 => 6"},
			{"(catch 'k (each (lambda (x) (ev x) (if (= x 2) (throw 'k " + n + "))) '(1 2 3)))", "1;2 => " + n},
			{"(block b (each (lambda (x) (ev x) (if (= x 2) (return-from b " + n + "))) '(1 2 3)))", "1;2 => " + n},
			{"(let ((s 0)) (tagbody (each (lambda (x) (ev x) (if (= x 2) (go out))) '(1 2 3)) (ev 'no) out (setq s " + n + ")) s)", "1;2 => " + n},
			{"(catch 'k (with-handler (lambda (c) (ev (class-name* c)) (throw 'k " + n + ")) (each #'car '(1 2))))", "('\"<domain-error>\" 1 <class \"<cons>\">) => " + n},
			{"(catch 'k (with-handler (lambda (c) (ev 'outer) (throw 'k " + n + ")) (with-handler (lambda (c) (ev 'inner)) (each #'car '(1 2)))))", "'\"inner\";'\"outer\" => " + n},
			{"(ignore-errors (each #'car '(1 2)))", " => nil"},
			{"(unwind-protect (each (lambda (x) (ev x)) '(1 2)) (ev 'cleanup))", "1;2;'\"cleanup\" => 2"},
			{"(catch 'k (unwind-protect (each (lambda (x) (throw 'k " + n + ")) '(1 2)) (ev 'cleanup)))", "'\"cleanup\" => " + n},
			{"(each (lambda (x) (each (lambda (y) (ev x y) (+ x y)) '(10 20))) '(1 2))", "1 10;1 20;2 10;2 20 => 22"},
			{"(let ((s 0)) (each (lambda (x) (setq s (+ s x))) '(1 2 3)) s)", " => 6"},
			{"(each (lambda (x) (dynamic-let ((*cd* x)) (ev (dynamic *cd*)))) '(5 6))", "5;6 => 6"},
			{"(progn (catch 'k (each (lambda (x) (dynamic-let ((*cd* x)) (throw 'k 1))) '(5 6))) (dynamic *cd*))", " => 1"},
			{"(host-eval \"(+ 1 2) (* 3 " + n + ")\")", " => " + strconv.Itoa(3*atoi(n))},
			{"(host-eval \"\")", " => nil"},
			{"(catch 'k (host-eval \"(throw 'k " + n + ")\"))", " => " + n},
			{"(catch 'k (with-handler (lambda (c) (ev (class-name* c)) (throw 'k " + n + ")) (host-eval \"(car 5)\")))", "('\"<domain-error>\" 5 <class \"<cons>\">) => " + n},
			{"(catch 'k (with-handler (lambda (c) (throw 'k 'no)) (host-eval \"(catch 'k (with-handler (lambda (c) (throw 'k " + n + ")) (car 5)))\")))", " => " + n},
			{"(progn (host-eval \"(defun from-host (x) (* x 2))\") (from-host " + n + "))", " => " + strconv.Itoa(2*atoi(n))},
			{"(progn (host-eval \"(defdynamic *hd* " + n + ")\") (dynamic *hd*))", " => " + n},
			{"(host-progn (ev 1) (ev 2) " + n + ")", "1;2 => " + n},
			{"(block b (host-progn (ev 1) (return-from b " + n + ") (ev 2)))", "1 => " + n},
			{"(let ((x " + n + ")) (host-progn (setq x (+ x 1)) x))", " => " + strconv.Itoa(1+atoi(n))},
			{"(list (host-dyn (dynamic *cd*)) (dynamic *cd*))", " => (56 1)"},
			{"(list (catch 'k (host-dyn (throw 'k (dynamic *cd*)))) (dynamic *cd*))", " => (56 1)"},
			{"(list (ignore-errors (host-dyn (car 5))) (dynamic *cd*))", " => (nil 1)"},
			{"(host-int " + n + ")", " => " + n},
			{"(catch 'k (with-handler (lambda (c) (throw 'k (class-name* c))) (host-int \"a\")))", " => ('\"<domain-error>\" \"a\" <class \"<integer>\">)"},
			{"(host-map #'+ '(1 2) '(10 20))", " => (11 22)"},
			{"(host-map (lambda (x) (ev x) x) '(1 2))", "1;2 => (1 2)"},
			{"(catch 'k (host-map (lambda (x) (throw 'k " + n + ")) '(1 2)))", " => " + n},
			{"(host-map #'car '(1))", " => ERROR <domain-error>"},
			{"(host-eval \"(car 5)\")", " => ERROR <domain-error>"},
			{"(each (lambda (x) (throw 'nobody 1)) '(1))", " => ERROR <control-error>"},
			{"(each 5 '(1))", " => ERROR <domain-error>"},
			{"(host-eval 5)", " => ERROR <domain-error>"},
			{"(labels ((f (n) (if (= n 0) 'done (each (lambda (x) (f x)) (list (- n 1)))))) (f 20))", " => '\"done\""},
			{"(with-handler (lambda (c) (continue-condition c 5)) (each (lambda (x) (cerror \"a\" \"b\")) '(1)))", " => 5"},
			{"(with-handler (lambda (c) (continue-condition c 5)) (host-eval \"(+ 1 (cerror \\\"a\\\" \\\"b\\\"))\"))", " => 6"},
		})
		s := t.src
		pre := ""
		if r.P(40) && !strings.Contains(t.want, "ERROR") {
			s = pick(r, []string{"(let ((x 1) (k 2)) " + s + ")", "(progn 1 " + s + ")", "(car (list " + s + "))", "(block bb " + s + ")", "(catch 'kk " + s + ")", "(host-progn " + s + ")", "(unwind-protect " + s + " (list 1))"})
		}
		h.m.Events = nil
		h.log = append(h.log, fmt.Sprintf("%s ;; errors wrapped: %v", s, wrapErr))
		o := h.m.Run(s)
		h.Eval()
		h.Count("callback", 1)
		if strings.Contains(t.want, "ERROR") {
			h.Count("callback error", 1)
		}
		got := pre + evs(o)
		if got != t.want {
			h.dead = true
			h.Fail("callback", h.text(), t.want, got+" "+o.Full())
		}
	}
	h.is("afterwards", "(list (dynamic *cd*) (catch 'k (throw 'k 1)))", "(1 1)")
	h.done()
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// ---- G: successive Interpret calls ---------------------------------------------------------

func (c *Case) c25Sequence() {
	h := newHist(c)
	r := c.R
	// a text with an error in the middle: what is before it has happened, what is after it has not
	n := r.In(1, 6)
	bad := r.N(n + 1) // n: none
	text, last := "", "nil"
	want := []string{}
	for i := 0; i < n; i++ {
		if i == bad {
			text += pick(r, []string{"(car 5)", "undefined-variable-9", "(undefined-function-9)", "(error \"x\")", "(throw 'nobody 1)", "(if)"}) + pick(r, []string{" ", "\n", "\n\n"})
		}
		e := fmt.Sprintf("(ev %d)", i)
		last = strconv.Itoa(i)
		if r.P(30) { // the value is that of the last form, whatever it is
			v := pick(r, [][2]string{{"nil", "nil"}, {"(car '(nil))", "nil"}, {"\"\"", `""`}, {"0", "0"}, {"(if nil 1)", "nil"}, {"'()", "nil"}})
			e += " " + v[0]
			last = v[1]
		}
		text += fmt.Sprintf("(defun seq%d () %d)%s%s\n", i, i*10, pick(r, []string{"", " ", "\n", ";; comment\n", "#| |#"}), e)
		if i < bad {
			want = append(want, strconv.Itoa(i))
		}
	}
	var o Outcome
	ctx := newFuel(defaultFuel, errFuel)
	switch r.N(3) {
	case 0:
		o = guard(func() (gl.Node, error) { return h.m.W.Interpret(ctx, text) })
	case 1:
		o = guard(func() (gl.Node, error) { return h.m.W.InterpretBytes(ctx, []byte(text)) })
	case 2:
		o = guard(func() (gl.Node, error) {
			ns, err := gl.ReadAll(strings.NewReader(text))
			if err != nil {
				return nil, err
			}
			return h.m.W.InterpretNodes(ctx, ns)
		})
	}
	h.log = append(h.log, text)
	h.Eval()
	h.Count("text", 1)
	if got := strings.Join(h.m.Events, ";"); got != strings.Join(want, ";") || (o.Kind == "error") != (bad < n) {
		h.Fail("text", h.text(), strings.Join(want, ";"), trace(h.m.Events, o)+o.Full())
		return
	}
	if bad == n && o.Val != last {
		h.Fail("value of a text", h.text(), last, o.Full())
		return
	}
	h.m.Events = nil
	for i := 0; i < n; i++ {
		w := strconv.Itoa(i * 10)
		if i >= bad {
			w = "ERROR <undefined-function>"
		}
		h.is("definitions kept", fmt.Sprintf("(seq%d)", i), w)
	}
	// a text which can not be read does nothing at all
	if !h.dead {
		s := "(ev 'read) " + pick(r, []string{"(car", "\"abc", ")", "#\\", "'", "#(1 2"})
		if strings.HasSuffix(s, "#\\") {
			s += " ("
		}
		h.log = append(h.log, s)
		o := h.m.Run(s)
		h.Eval()
		h.Count("unreadable text", 1)
		if o.Kind != "error" || len(h.m.Events) != 0 {
			h.dead = true
			h.Fail("unreadable text", h.text(), "an error, nothing evaluated", trace(h.m.Events, o)+o.Full())
		}
	}
	for i := r.In(1, 3); i > 0 && !h.dead; i-- { // short texts, by all the ways in
		forms := [][2]string{}
		for j := r.In(0, 4); j > 0; j-- {
			forms = append(forms, pick(r, [][2]string{{"1", "1"}, {"nil", "nil"}, {"\"\"", `""`}, {"(car '(nil))", "nil"}, {"(list 2)", "(2)"}, {"(progn)", "nil"}}))
		}
		text, w := "", "nil"
		for _, f := range forms {
			text += f[0] + " "
			w = f[1]
		}
		h.log = append(h.log, text)
		h.Eval()
		h.Count("short text", 1)
		ctx := newFuel(defaultFuel, errFuel)
		var o Outcome
		switch r.N(3) {
		case 0:
			o = guard(func() (gl.Node, error) { return h.m.W.Interpret(ctx, text) })
		case 1:
			o = guard(func() (gl.Node, error) { return h.m.W.InterpretBytes(ctx, []byte(text)) })
		case 2:
			o = guard(func() (gl.Node, error) {
				ns, err := gl.ReadAll(strings.NewReader(text))
				if err != nil {
					return nil, err
				}
				return h.m.W.InterpretNodes(ctx, ns)
			})
		}
		if o.Val != w {
			h.dead = true
			h.Fail("value of a text", h.text(), w, o.Full())
		}
	}
	h.is("empty text", pick(r, []string{"", "  ", "\n", ";; nothing\n", "#| nothing |#"}), "nil")
	h.done()
}

func c25Run(c *Case) {
	switch c.R.W(22, 16, 22, 14, 8, 12, 6) {
	case 0:
		c.c25Calls()
	case 1:
		c.c25Errors()
	case 2:
		c.c25Scopes()
	case 3:
		c.c25Programs()
	case 4:
		c.c25Output()
	case 5:
		c.c25Callbacks()
	case 6:
		c.c25Sequence()
	}
}

func init() {
	register(&Prop{
		ID: "C25", Quick: 60000, Thorough: 1500000, Run: c25Run,
		Rule:   "a Go host drives the API: functions of every kind and arity limit called with every argument count, their arguments, results (by identity) and errors (errors.Is/As, through nested forms, handlers and cleanups) recorded; trees of derived interpreters over maps, pairs and custom scopes with reads and assignments from both sides, compared with a model; random programs under Let/Flet compared with the same programs under let/flet in the reference evaluator; writers changed and failing; callbacks through host functions, with wrapped errors; texts with errors in the middle; distinct by history",
		Need:   []string{"host call", "called", "wrong number", "failing argument", "host error", "condition seen", "handled", "read", "setq", "call of a closure", "function call", "World.Get", "World.Set", "World.GetFunc", "World.Range", "scope contents", "program under host bindings", "host variables", "SetStdout", "failing writer", "callback", "text", "definitions kept", "unreadable text"},
		Assume: []string{"host functions are total apart from the errors they return; a scope's Get and Set behave as a map"},
	})
}
