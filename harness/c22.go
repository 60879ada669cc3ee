package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// C22: histories of stores through setf (and the setters called directly), incf and decf. The model
// changes exactly one place; the whole store is compared after each form.

type sop struct {
	*lop
}

const setfPrelude = `(defun my (l i) (elt l i))
(defun set-my (v l i) (ev 'user-setter) (set-car v (nthcdr i l)))
(defmacro set-mym (v x) (list 'set-car v x))
(defun mym (x) (car x))
(defun prop (s n) (catch 'none (with-handler (lambda (c) (throw 'none nil)) (property s n))))
(defun set-prop (v s n) (set-property v s n))
(defdynamic d1 0) (defdynamic d2 'none)`

var setfVars = []string{"va", "vb", "vc", "vd", "ve", "vf", "aa", "hh", "oo", "ss", "nn"}

// place is somewhere to store: forms with their sub-forms, a getter and a setter in the model.
type place struct {
	op     string   // car, elt, ...
	args   []string // its arguments
	pure   bool     // the first container argument must stay a variable (the setter assigns it)
	get    func() mval
	put    func(mval)
	owner  any // mutable object that holds the place (nil: a variable)
	kind   string
	direct string                // name of the setter, "" when there is none
	noRead bool                  // reading the place does not give the value back (assoc)
	value  func() (string, mval) // the values that may be stored, when not every one may
	user   bool
}

func (p *place) text(args []string) string {
	if p.op == "" {
		return args[0]
	}
	return "(" + p.op + " " + strings.Join(args, " ") + ")"
}

func (s *sop) place() *place {
	r := s.R
	for try := 0; try < 30; try++ {
		switch r.N(18) {
		case 0: // variable
			n := pick(r, append([]string{"nn", "nn"}, setfVars[:6]...))
			return &place{args: []string{n}, pure: true, kind: "variable", get: func() mval { return s.model[n] }, put: func(v mval) { s.model[n] = v }}
		case 1, 2, 3, 4, 5: // list accessors
			t, v, ok := s.arg()
			if !ok || strings.HasPrefix(t, "(list") || strings.HasPrefix(t, "(vector") {
				continue
			}
			cs, ok := mcells(v)
			if !ok || len(cs) == 0 || len(cs) > 100 {
				continue
			}
			type acc struct {
				op  string
				i   int
				cdr bool
			}
			a := pick(r, []acc{{"car", 0, false}, {"cdr", 0, true}, {"cadr", 1, false}, {"caddr", 2, false}, {"cadddr", 3, false}, {"cddr", 1, true}, {"cdddr", 2, true},
				{"first", 0, false}, {"second", 1, false}, {"third", 2, false}, {"mym", 0, false}})
			if a.i >= len(cs) {
				continue
			}
			c := cs[a.i]
			p := &place{op: a.op, args: []string{t}, kind: a.op, owner: c, direct: "set-" + a.op}
			switch a.op {
			case "first", "second", "third":
				p.direct = ""
			case "mym":
				p.user = true
			}
			if a.cdr {
				p.get, p.put = func() mval { return c.cdr }, func(v mval) { c.cdr = v }
			} else {
				p.get, p.put = func() mval { return c.car }, func(v mval) { c.car = v }
			}
			return p
		case 6, 7: // indexed list accessors
			t, v, ok := s.arg()
			if !ok || strings.HasPrefix(t, "(list") || strings.HasPrefix(t, "(vector") {
				continue
			}
			cs, ok := mcells(v)
			if !ok || len(cs) == 0 || len(cs) > 100 {
				continue
			}
			i := r.N(len(cs))
			c := cs[i]
			is := strconv.Itoa(i)
			p := &place{owner: c, get: func() mval { return c.car }, put: func(v mval) { c.car = v }}
			switch r.N(4) {
			case 0:
				p.op, p.args = "nth", []string{is, t}
			case 1:
				p.op, p.args = "elt", []string{t, is}
			case 2:
				p.op, p.args, p.user = "my", []string{t, is}, true
			case 3:
				p.op, p.args = "nthcdr", []string{strconv.Itoa(i + 1), t}
				p.get, p.put = func() mval { return c.cdr }, func(v mval) { c.cdr = v }
			}
			p.kind, p.direct = p.op, "set-"+p.op
			return p
		case 8: // nthcdr 0: the variable
			n, _, ok := s.listVar()
			if !ok {
				continue
			}
			return &place{op: "nthcdr", args: []string{"0", n}, pure: true, kind: "nthcdr 0", direct: "set-nthcdr", get: func() mval { return s.model[n] }, put: func(v mval) { s.model[n] = v }}
		case 9, 10: // array
			a, ok := s.model["aa"].(*marr)
			if !ok {
				continue
			}
			k := r.N(len(a.elem))
			args := []string{"aa"}
			idx := make([]int, len(a.dim))
			for j, q := len(a.dim)-1, k; j >= 0; j-- {
				idx[j] = q % a.dim[j]
				q /= a.dim[j]
			}
			for _, i := range idx {
				args = append(args, strconv.Itoa(i))
			}
			op := "aref"
			if r.P(40) {
				op = "elt"
			}
			if len(a.dim) > 1 && op == "aref" && r.P(30) { // a part of the array at once
				n := r.In(1, len(a.dim)-1)
				part := &marr{dim: a.dim[n:]}
				sz := 1
				for _, d := range part.dim {
					sz *= d
				}
				off := k / sz * sz
				return &place{op: op, args: args[:n+1], kind: "array part", direct: "set-aref", noRead: true,
					get: func() mval { return nil },
					put: func(v mval) { copy(a.elem[off:off+sz], v.(*marr).elem) },
					value: func() (string, mval) {
						part.elem = make([]mval, sz)
						for i := range part.elem {
							part.elem[i] = s.atom()
						}
						return mtext(part), part
					}}
			}
			return &place{op: op, args: args, kind: "array " + op, owner: a, direct: "set-" + op, get: func() mval { return a.elem[k] }, put: func(v mval) { a.elem[k] = v }}
		case 11, 12: // hash
			h, ok := s.model["hh"].(*mhash)
			if !ok {
				continue
			}
			var k mval
			for k == nil {
				k = s.atom()
			}
			if len(h.key) > 0 && r.P(50) {
				k = pick(r, h.key)
			}
			return &place{op: "gethash", args: []string{mtext(k), "hh"}, kind: "gethash", owner: h, direct: "set-gethash",
				get: func() mval {
					if i := h.find(k); i >= 0 {
						return h.val[i]
					}
					return nil
				},
				put: func(v mval) {
					if i := h.find(k); i >= 0 {
						h.val[i] = v
					} else {
						h.key, h.val = append(h.key, k), append(h.val, v)
					}
				}}
		case 13, 14: // slot
			o, ok := s.model["oo"].(*mobj)
			if !ok {
				continue
			}
			sl := pick(r, []string{"a", "b"})
			return &place{op: "node-" + sl, args: []string{"oo"}, kind: "slot accessor", owner: o, direct: "set-node-" + sl,
				get: func() mval { return o.slot[sl] }, put: func(v mval) { o.slot[sl] = v }}
		case 15: // dynamic
			n := pick(r, []string{"d1", "d2"})
			return &place{op: "dynamic", args: []string{n}, pure: true, kind: "dynamic", direct: "set-dynamic", get: func() mval { return s.dyn[n] }, put: func(v mval) { s.dyn[n] = v }}
		case 16: // property-like user setter
			n, m := pick(r, []string{"a", "b"}), pick(r, []string{"p", "q"})
			op, u := "prop", true
			if _, set := s.props[n+m]; set && r.P(50) {
				op = "property"
			}
			return &place{op: op, args: []string{"'" + n, "'" + m}, kind: "user setter " + op, direct: "set-" + op, user: u, get: func() mval { return s.props[n+m] }, put: func(v mval) { s.props[n+m] = v }}
		case 17: // assoc
			n, cs, ok := s.listVar()
			if !ok {
				continue
			}
			keys := []*mcell{}
			for _, c := range cs {
				if p, ok := c.car.(*mcell); ok {
					switch p.car.(type) {
					case int, mSym, mStr, mChr:
						if len(keys) == 0 || keys[len(keys)-1].car.(*mcell).car != p.car {
							keys = append(keys, c)
						}
						continue
					}
				}
				break
			}
			if len(keys) == 0 {
				continue
			}
			k := pick(r, keys).car.(*mcell).car
			var at *mcell
			for _, c := range cs {
				if p, ok := c.car.(*mcell); ok && p.car == k {
					at = c
					break
				}
			}
			return &place{op: "assoc", args: []string{mtext(k), n}, kind: "assoc", owner: at, direct: "set-assoc", noRead: true, get: func() mval { return at.car }, put: func(v mval) { at.car = v }}
		}
	}
	return nil
}

// once wraps sub-forms so that their evaluations are seen.
func (s *sop) once(texts []string, events *[]string) []string {
	out := make([]string, len(texts))
	for i, t := range texts {
		if s.R.P(50) {
			s.uniq++
			out[i] = fmt.Sprintf("(progn (ev %d) %s)", 1000+s.uniq, t)
			*events = append(*events, strconv.Itoa(1000+s.uniq))
		} else {
			out[i] = t
		}
	}
	return out
}

func (s *sop) runStore(kind, src string, events []string, user bool) bool {
	s.log = append(s.log, src)
	s.m.Events = nil
	o := interp(s.w, src)
	s.Eval()
	s.Count(kind, 1)
	evs := s.m.Take()
	got := []string{}
	for _, e := range evs {
		if e != "'\"user-setter\"" {
			got = append(got, e)
		}
	}
	sort.Strings(got)
	sort.Strings(events)
	fail := func(w, g string) bool {
		s.dead = true
		s.Fail(kind, strings.Join(s.log, "\n"), w, g)
		return false
	}
	if o.Kind != "value" {
		return fail("a value", o.Full())
	}
	if strings.Join(got, "|") != strings.Join(events, "|") {
		return fail("every sub-form evaluated once: "+strings.Join(events, "|"), strings.Join(got, "|"))
	}
	if e := s.check(); e != "" {
		return fail("the model's store after the last form", e)
	}
	return true
}

func (s *sop) store() bool {
	p := s.place()
	if p == nil {
		return true
	}
	et, v := s.elem()
	if p.value != nil {
		et, v = p.value()
	}
	if p.owner != nil && mreach(v, p.owner) {
		return true
	}
	if p.kind == "variable" && p.args[0] == "nn" {
		if _, ok := v.(int); !ok {
			v = s.R.In(-5, 99)
			et = mtext(v)
		}
	}
	events := []string{}
	args := append([]string{}, p.args...)
	if !p.pure {
		args = s.once(args, &events)
	}
	vt := s.once([]string{et}, &events)[0]
	num, isNum := p.get().(int)
	arith := isNum && !p.noRead && s.R.P(45)
	src, kind := "", "setf "+p.kind
	switch {
	case arith:
		op, delta, dt := "incf", 1, ""
		if s.R.P(50) {
			op = "decf"
		}
		if s.R.P(60) {
			delta = s.R.In(-9, 9)
			events = events[:0]
			args = append([]string{}, p.args...)
			if !p.pure {
				args = s.once(args, &events)
			}
			dt = " " + s.once([]string{strconv.Itoa(delta)}, &events)[0]
		} else {
			events = events[:0]
			args = append([]string{}, p.args...)
			if !p.pure {
				args = s.once(args, &events)
			}
		}
		if op == "decf" {
			delta = -delta
		}
		v = num + delta
		src, kind = "("+op+" "+p.text(args)+dt+")", op
		s.Count(op+" "+p.kind, 1)
		s.Count(op, 1)
	case p.direct != "" && s.R.P(30):
		src = "(" + p.direct + " " + vt + " " + strings.Join(args, " ") + ")"
		if s.R.P(15) && !p.pure && p.op != "assoc" && p.op != "mym" && p.op != "elt" && p.op != "nthcdr" {
			src = "(apply #'" + p.direct + " (list " + vt + " " + strings.Join(args, " ") + "))"
		}
		s.Count("setter called directly", 1)
	default:
		src = "(setf " + p.text(args) + " " + vt + ")"
	}
	// where the form stands
	switch {
	case p.pure && p.kind != "dynamic" && s.R.P(15):
		// a local variable of the same name: nothing else changes
		n := p.args[len(p.args)-1]
		s.Count("store to a local variable", 1)
		return s.runStore(kind, "(let (("+n+" "+n+")) "+src+")", events, p.user)
	case p.kind == "dynamic" && s.R.P(30):
		s.Count("store under dynamic-let", 1)
		was := p.get()
		if arith {
			src = "(dynamic-let ((" + p.args[0] + " " + mtext(was) + ")) " + src + ")"
		} else {
			src = "(dynamic-let ((" + p.args[0] + " 0)) " + src + ")"
		}
		if !s.runStore(kind, src, events, p.user) {
			return false
		}
		return s.step("read back", p.text(p.args), true, was, nil)
	case s.R.P(20):
		src = "(progn (defun g () " + src + ") (g))"
	case s.R.P(15) && len(p.args) > 0 && !p.pure && !arith && p.op != "dynamic":
		// through a parameter
		k := 0
		if p.op == "nth" || p.op == "nthcdr" || p.op == "gethash" || p.op == "assoc" {
			k = 1
		}
		inner := append([]string{}, p.args...)
		outer := inner[k]
		inner[k] = "place"
		events = events[:0]
		src = "((lambda (place) (setf " + p.text(inner) + " " + et + ")) " + outer + ")"
		s.Count("store through a parameter", 1)
	}
	p.put(v)
	if !s.runStore(kind, src, events, p.user) {
		return false
	}
	if !p.noRead && s.R.P(60) {
		return s.step("read back", p.text(p.args), true, v, nil)
	}
	return true
}

func (s *sop) textStore() bool {
	// strings: the variable gets a new string, nothing else sees it
	str, ok := s.model["ss"].(mStr)
	if !ok || len(str) == 0 || s.R.P(20) {
		t := strings.Join([]string{"a", "é", "日", "x", "𝄞", "z"}[s.R.N(3):s.R.In(4, 6)], "")
		if s.R.P(30) {
			t = strings.Repeat(t+"k", s.R.In(2, 12))
		}
		return s.fresh("ss", mStr(t))
	}
	rs := []rune(string(str))
	i := s.R.N(len(rs))
	if s.R.P(50) {
		r := pick(s.R, []rune{'q', '本', 'ß', '😀'})
		rs[i] = r
		s.model["ss"] = mStr(string(rs))
		op := fmt.Sprintf("(setf (elt ss %d) %s)", i, mtext(mChr(r)))
		if s.R.P(30) {
			op = fmt.Sprintf("(set-elt %s ss %d)", mtext(mChr(r)), i)
		}
		return s.runStore("setf elt of a string", op, nil, false)
	}
	j := s.R.In(i, len(rs))
	k := j - i
	if s.R.P(40) || k > 6 { // of another length
		k = s.R.N(7)
	}
	nv := []rune("日本語éxy")[:k]
	s.model["ss"] = mStr(string(rs[:i]) + string(nv) + string(rs[j:]))
	return s.runStore("setf subseq of a string", fmt.Sprintf("(setf (subseq ss %d %d) %s)", i, j, mtext(mStr(string(nv)))), nil, false)
}

func (s *sop) subseqStore() bool {
	n, cs, ok := s.listVar()
	if !ok || len(cs) == 0 || len(cs) > 100 {
		return true
	}
	i := s.R.N(len(cs))
	j := s.R.In(i, len(cs))
	src, vs := "(list", []mval{}
	for k := i; k < j; k++ {
		t, v := s.elem()
		for _, c := range cs {
			if mreach(v, c) {
				t, v = "0", 0
			}
		}
		src += " " + t
		vs = append(vs, v)
	}
	for k := i; k < j; k++ {
		cs[k].car = vs[k-i]
	}
	op := fmt.Sprintf("(setf (subseq %s %d %d) %s))", n, i, j, src)
	if s.R.P(30) {
		op = fmt.Sprintf("(set-subseq %s) %s %d %d)", src, n, i, j)
	}
	return s.runStore("setf subseq of a list", op, nil, false)
}

func (s *sop) remake() bool {
	switch s.R.N(6) {
	case 0:
		a := &marr{dim: []int{s.R.In(1, 4)}}
		n := a.dim[0]
		for s.R.P(45) && len(a.dim) < 4 {
			a.dim = append(a.dim, s.R.In(1, 3))
			n *= a.dim[len(a.dim)-1]
		}
		for i := 0; i < n; i++ {
			a.elem = append(a.elem, s.lit(1))
		}
		return s.fresh("aa", a)
	case 1:
		h := &mhash{}
		for i := s.R.In(0, 3); i > 0; i-- {
			k := s.atom()
			if k != nil && h.find(k) < 0 {
				h.key, h.val = append(h.key, k), append(h.val, s.lit(1))
			}
		}
		return s.fresh("hh", h)
	case 2:
		o := &mobj{class: "<node>", slot: map[string]mval{"a": s.lit(1), "b": s.R.In(0, 9)}}
		return s.fresh("oo", o)
	case 3:
		// a container inside another one
		n := pick(s.R, []string{"aa", "hh", "oo"})
		return s.set("alias", pick(s.R, listVars), "(list "+n+" 1 "+n+")", mlist(s.model[n], 1, s.model[n]), nil)
	case 4:
		al := []mval{}
		for i := s.R.In(1, 5); i > 0; i-- {
			al = append(al, &mcell{s.atom(), s.lit(1)})
		}
		return s.fresh(pick(s.R, listVars), mlist(al...))
	}
	return s.fresh(pick(s.R, listVars), s.list(s.R.In(1, 6), 3))
}

// outside: an index outside the container is an error that stores nothing.
func (s *sop) outside() bool {
	a, ok := s.model["aa"].(*marr)
	if !ok {
		return true
	}
	idx := make([]string, len(a.dim))
	for i, d := range a.dim {
		idx[i] = strconv.Itoa(s.R.N(d))
	}
	k := s.R.N(len(idx))
	idx[k] = strconv.Itoa(pick(s.R, []int{-1, a.dim[k], a.dim[k] + 5}))
	src := fmt.Sprintf("(setf (%s aa %s) 'bad)", pick(s.R, []string{"aref", "elt"}), strings.Join(idx, " "))
	s.log = append(s.log, src)
	o := interp(s.w, src)
	s.Eval()
	s.Count("index out of bounds", 1)
	if o.Kind != "error" {
		s.Fail("index out of bounds", strings.Join(s.log, "\n"), "an error", o.Full())
		return false
	}
	if e := s.check(); e != "" {
		s.Fail("index out of bounds", strings.Join(s.log, "\n"), "the store unchanged", e)
		return false
	}
	return true
}

// others reads dynamic variables and properties.
func (s *sop) others() bool {
	src, vs := "(list (dynamic d1) (dynamic d2)", []mval{s.dyn["d1"], s.dyn["d2"]}
	for _, n := range []string{"a", "b"} {
		for _, m := range []string{"p", "q"} {
			src += " (prop '" + n + " '" + m + ")"
			vs = append(vs, s.props[n+m])
		}
	}
	return s.step("dynamic variables and properties", src+")", true, mlist(vs...), nil)
}

func init() {
	register(&Prop{
		ID: "C22", Quick: 20000, Thorough: 500000,
		Rule: "distinct histories of stores (texts)",
		Need: []string{"setf car", "setf cdr", "setf cadr", "setf caddr", "setf cadddr", "setf cddr", "setf cdddr", "setf first", "setf second", "setf third", "setf nth", "setf elt",
			"setf nthcdr", "setf nthcdr 0", "setf array aref", "setf array elt", "setf gethash", "setf slot accessor", "setf dynamic", "setf user setter prop", "setf assoc", "setf variable",
			"incf", "decf", "setter called directly", "setf elt of a string", "setf subseq of a string", "setf subseq of a list", "index out of bounds"},
		Run: func(c *Case) {
			s := &sop{&lop{newHeap(c)}}
			for _, n := range setfVars {
				s.real[gl.NewSymbol(n)] = gl.Null
				s.model[n] = nil
			}
			if o := interp(s.w, setfPrelude); o.Kind != "value" {
				c.Fail("prelude", setfPrelude, "a value", o.Full())
				return
			}
			s.dyn["d1"], s.dyn["d2"] = 0, mSym("none")
			for _, n := range listVars {
				if !s.fresh(n, s.list(s.R.In(1, 5), 3)) {
					return
				}
			}
			s.fresh("nn", s.R.In(0, 9))
			for i := 0; i < 3; i++ {
				s.remake()
			}
			for i := 0; i < 24 && !s.dead; i++ {
				ok := true
				switch s.R.W(62, 6, 6, 18, 5, 3) {
				case 0:
					ok = s.store()
				case 1:
					ok = s.textStore()
				case 2:
					ok = s.subseqStore()
				case 3:
					ok = s.remake()
				case 4:
					ok = s.outside()
				case 5:
					ok = s.others()
				}
				if !ok {
					return
				}
			}
			s.others()
			c.Distinct(strings.Join(s.log, "\n"))
			c.Sample(strings.Join(s.log, "\n"))
		},
	})
}
