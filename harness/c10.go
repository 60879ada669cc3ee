package main

import (
	"fmt"
	"strconv"
	"strings"
)

// C10: histories of list operations; after each one the whole store (values and sharing) is compared
// with the model's.

func meql(a, b mval) bool { return a == b }

type lop struct {
	*heap
}

var listVars = []string{"va", "vb", "vc", "vd", "ve", "vf"}

// listVar picks a variable that holds a proper list (nil included).
func (h *lop) listVar() (string, []*mcell, bool) {
	for try := 0; try < 12; try++ {
		n := pick(h.R, listVars)
		if cs, ok := mcells(h.model[n]); ok {
			if _, bound := h.model[n]; bound {
				return n, cs, true
			}
		}
	}
	return "", nil, false
}

// arg is a list argument: a variable, a tail of one, an element that is a list, or a fresh list.
func (h *lop) arg() (string, mval, bool) {
	n, cs, ok := h.listVar()
	if !ok {
		return "", nil, false
	}
	switch h.R.W(55, 15, 10, 20) {
	case 1:
		if len(cs) > 0 {
			return "(cdr " + n + ")", cs[0].cdr, true
		}
	case 2:
		for i, c := range cs {
			if _, ok := mcells(c.car); ok && i < 6 {
				return "(elt " + n + " " + strconv.Itoa(i) + ")", c.car, true
			}
		}
	case 3:
		v := h.list(h.R.In(0, 4), 2)
		return mtext(v), v, true
	}
	return n, h.model[n], true
}

// elem is an argument that is any value: an atom, a variable, an element.
func (h *lop) elem() (string, mval) {
	switch h.R.W(40, 35, 25) {
	case 1:
		n := pick(h.R, listVars)
		return n, h.model[n]
	case 2:
		n, cs, ok := h.listVar()
		if ok && len(cs) > 0 && len(cs) < 100 {
			i := h.R.N(len(cs))
			return "(elt " + n + " " + strconv.Itoa(i) + ")", cs[i].car
		}
	}
	v := h.atom()
	return mtext(v), v
}

// known is an element to look for: often one that is there.
func (h *lop) known(vs []mval) (string, mval) {
	if len(vs) > 0 && h.R.P(70) {
		v := pick(h.R, vs)
		switch v.(type) {
		case int, mSym, mStr, mChr, nil:
			return mtext(v), v
		}
	}
	return h.elem()
}

func (h *lop) put(kind, src string, v mval, events []string) bool {
	if h.R.P(25) {
		// the value is looked at and dropped
		return h.step(kind, src, true, v, events)
	}
	return h.set(kind, pick(h.R, listVars), src, v, events)
}

// forget gives fresh values to the variables that can reach one of the cells.
func (h *lop) forget(cs []*mcell, except string) bool {
	for _, n := range listVars {
		if n == except {
			continue
		}
		for _, c := range cs {
			if mreach(h.model[n], c) {
				if !h.fresh(n, h.list(h.R.In(0, 3), 2)) {
					return false
				}
				break
			}
		}
	}
	return true
}

// how a function is given to the map functions
func (h *lop) fn(params, body string) string {
	if h.R.P(25) {
		return "(flet ((f1 " + params + " " + body + ")) #'f1)"
	}
	return "(lambda " + params + " " + body + ")"
}

func evLine(vs ...mval) string {
	parts := make([]string, len(vs))
	for i, v := range vs {
		parts[i] = mcanon(v)
	}
	return strings.Join(parts, " ")
}

func (h *lop) mapArgs() (src string, lists [][]*mcell, vals []mval, ok bool) {
	n := h.R.W(60, 24, 8, 3, 2, 1, 1, 1) + 1
	var b strings.Builder
	for i := 0; i < n; i++ {
		t, v, ok := h.arg()
		if !ok {
			return "", nil, nil, false
		}
		cs, _ := mcells(v)
		if len(cs) > 60 {
			return "", nil, nil, false
		}
		b.WriteString(" " + t)
		lists = append(lists, cs)
		vals = append(vals, v)
	}
	return b.String(), lists, vals, true
}

func (h *lop) mapOp() bool {
	src, lists, vals, ok := h.mapArgs()
	if !ok {
		return true
	}
	n := len(lists[0])
	for _, l := range lists {
		if len(l) < n {
			n = len(l)
		}
	}
	params := []string{"x", "y", "z", "u", "v", "w", "p", "q"}[:len(lists)]
	ps := strings.Join(params, " ")
	plist := "(" + ps + ")"
	if h.R.P(15) {
		plist, ps = "(&rest r)", "r"
	}
	op := pick(h.R, []string{"mapcar", "mapc", "mapcan", "maplist", "mapl", "mapcon"})
	tails := op == "maplist" || op == "mapl" || op == "mapcon"
	calls := [][]mval{}
	for i := 0; i < n; i++ {
		a := []mval{}
		for _, l := range lists {
			if tails {
				a = append(a, l[i])
			} else {
				a = append(a, l[i].car)
			}
		}
		calls = append(calls, a)
	}
	events := []string{}
	h.Count("map calls", len(calls))
	if n != len(lists[0]) || len(lists) > 1 {
		h.Count("maps over several lists", 1)
	}
	rest := ps == "r"
	for _, a := range calls {
		if rest {
			events = append(events, evLine(mlist(a...)))
		} else {
			events = append(events, evLine(a...))
		}
	}
	last := func(a []mval) mval { return a[len(a)-1] }
	body := "(ev " + ps + ")"
	ret := last
	if rest {
		ret = func(a []mval) mval { return mlist(a...) }
	}
	switch op {
	case "mapcar", "maplist":
		if h.R.P(30) {
			body = "(list (ev " + ps + "))"
			old := ret
			ret = func(a []mval) mval { return mlist(old(a)) }
		}
		if h.R.P(20) && n > 0 {
			// left by an exit on the way
			k := h.R.N(n)
			src1 := fmt.Sprintf("(let ((i 0)) (block b (%s (lambda %s (let ((v (ev %s))) (if (= i %d) (return-from b v)) (setq i (+ i 1)) v))%s)))", op, plist, ps, k, src)
			h.Count("maps left early", 1)
			return h.put(op, src1, func() mval {
				if rest {
					return mlist(calls[k]...)
				}
				return last(calls[k])
			}(), events[:k+1])
		}
		vs := []mval{}
		for _, a := range calls {
			vs = append(vs, ret(a))
		}
		return h.put(op, "("+op+" "+h.fn(plist, body)+src+")", mlist(vs...), events)
	case "mapc", "mapl":
		return h.put(op, "("+op+" "+h.fn(plist, body)+src+")", vals[0], events)
	}
	// mapcan, mapcon: the function returns fresh lists, possibly empty
	k := h.R.N(4)
	switch k {
	case 0:
		body = "(list (ev " + ps + "))"
	case 1:
		body = "(progn (ev " + ps + ") nil)"
	case 2:
		body = "(let ((v (ev " + ps + "))) (list v 1 v))"
	case 3:
		body = "(let ((v (ev " + ps + "))) (if (consp v) nil (list v)))"
	}
	vs := []mval{}
	for _, a := range calls {
		v := ret(a)
		switch k {
		case 0:
			vs = append(vs, v)
		case 2:
			vs = append(vs, v, 1, v)
		case 3:
			if _, ok := v.(*mcell); !ok {
				vs = append(vs, v)
			}
		}
	}
	return h.put(op, "("+op+" "+h.fn(plist, body)+src+")", mlist(vs...), events)
}

func (h *lop) op() bool {
	t, v, ok := h.arg()
	if !ok {
		return h.fresh(pick(h.R, listVars), h.list(h.R.In(0, 5), 3))
	}
	cs, _ := mcells(v)
	items := mitems(v)
	n := len(cs)
	switch h.R.N(25) {
	case 0:
		e, ev := h.elem()
		return h.put("cons", "(cons "+e+" "+t+")", &mcell{ev, v}, nil)
	case 1:
		k := h.R.In(0, 4)
		src, vs := "(list", []mval{}
		for i := 0; i < k; i++ {
			e, ev := h.elem()
			src += " " + e
			vs = append(vs, ev)
		}
		return h.put("list", src+")", mlist(vs...), nil)
	case 2, 3, 4:
		k := h.R.In(0, 3)
		src, vs := "(append", []mval{}
		for i := 0; i < k; i++ {
			e, ev, ok := h.arg()
			if !ok {
				return true
			}
			src += " " + e
			vs = append(vs, mitems(ev)...)
		}
		if k == 0 && h.R.P(20) {
			return h.put("append", "(append)", nil, nil)
		}
		res := v
		for i := len(vs) - 1; i >= 0; i-- {
			res = &mcell{vs[i], res}
		}
		return h.put("append", src+" "+t+")", res, nil)
	case 5:
		var r mval
		for _, x := range items {
			r = &mcell{x, r}
		}
		return h.put("reverse", "(reverse "+t+")", r, nil)
	case 6:
		name, cs, ok := h.listVar()
		if !ok {
			return true
		}
		var r mval
		for _, c := range cs {
			r = &mcell{c.car, r}
		}
		for _, c := range cs {
			// the list itself as its own element: not reversed here
			if mreach(c.car, cs[0]) {
				return true
			}
			for _, d := range cs {
				if mreach(c.car, d) {
					return true
				}
			}
		}
		// what shares the cells may change: give it up first
		if !h.forget(cs, name) {
			return false
		}
		return h.set("nreverse", name, "(nreverse "+name+")", r, nil)
	case 7:
		return h.step("length", "(length "+t+")", true, n, nil)
	case 8:
		e, ev := h.elem()
		k := h.R.In(0, 5)
		var r mval
		for i := 0; i < k; i++ {
			r = &mcell{ev, r}
		}
		return h.put("create-list", fmt.Sprintf("(create-list %d %s)", k, e), r, nil)
	case 9:
		k := h.R.In(0, n+2)
		r := mval(nil)
		if k < n {
			r = cs[k]
		}
		return h.put("nthcdr", fmt.Sprintf("(nthcdr %d %s)", k, t), r, nil)
	case 10:
		if n == 0 {
			return true
		}
		k := h.R.N(n)
		src := fmt.Sprintf("(nth %d %s)", k, t)
		if h.R.P(50) {
			src = fmt.Sprintf("(elt %s %d)", t, k)
		}
		h.put("nth/elt", src, items[k], nil)
		return !h.dead
	case 11:
		if n == 0 {
			return true
		}
		return h.put("last", "(last "+t+")", items[n-1], nil)
	case 12:
		e, ev := h.known(items)
		r := mval(nil)
		for _, c := range cs {
			if meql(ev, c.car) {
				r = c
				break
			}
		}
		if r != nil {
			h.Count("member found", 1)
		}
		return h.put("member", "(member "+e+" "+t+")", r, nil)
	case 13, 23:
		// an association list of fresh pairs, or what is there if it is one
		keys := []mval{}
		all := n > 0
		for _, x := range items {
			p, ok := x.(*mcell)
			if !ok {
				all = false
				break
			}
			keys = append(keys, p.car)
		}
		if !all {
			al := []mval{}
			for i := h.R.In(1, 5); i > 0; i-- {
				al = append(al, &mcell{h.atom(), h.lit(1)})
			}
			return h.fresh(pick(h.R, listVars), mlist(al...))
		}
		e, ev := h.known(keys)
		r := mval(nil)
		for _, x := range items {
			if meql(ev, x.(*mcell).car) {
				r = x
				break
			}
		}
		if r != nil {
			h.Count("assoc found", 1)
		}
		return h.put("assoc", "(assoc "+e+" "+t+")", r, nil)
	case 14:
		i := h.R.In(0, n)
		j := h.R.In(i, n)
		return h.put("subseq", fmt.Sprintf("(subseq %s %d %d)", t, i, j), mlist(items[i:j]...), nil)
	case 15, 16, 17:
		return h.mapOp()
	case 18:
		if n == 0 {
			return h.step("car of nil", "(ev (catch 'c (with-handler (lambda (c) (throw 'c (instancep c (class <domain-error>)))) (car nil) 1)))", false, nil, nil)
		}
		op, r := "car", cs[0].car
		if h.R.P(50) {
			op, r = "cdr", cs[0].cdr
		}
		return h.put("car/cdr", "("+op+" "+t+")", r, nil)
	case 19, 20:
		// set-car, set-cdr (never making a cycle)
		if n == 0 {
			return true
		}
		e, ev := h.elem()
		c := cs[0]
		if mreach(ev, c) {
			return true
		}
		op := pick(h.R, []string{"car", "cdr"})
		src := "(set-" + op + " " + e + " " + t + ")"
		if h.R.P(40) {
			src = "(setf (" + op + " " + t + ") " + e + ")"
		}
		if op == "car" {
			c.car = ev
		} else {
			c.cdr = ev
		}
		return h.step("set-car/cdr", src, false, nil, nil)
	case 21:
		// predicates
		x, xv := h.elem()
		if h.R.P(50) {
			x, xv = t, v
		}
		_, isC := xv.(*mcell)
		p := pick(h.R, []string{"consp", "listp", "null", "atom"})
		b := false
		switch p {
		case "consp":
			b = isC
		case "listp":
			b = isC || xv == nil
		case "null":
			b = xv == nil
		case "atom":
			b = !isC
		}
		r := mval(nil)
		if b {
			r = 1
		}
		return h.step("predicates", "(if ("+p+" "+x+") 1 nil)", true, r, nil)
	case 22:
		// an argument which is no list: an error, and nothing changes
		bad := pick(h.R, []string{"5", "'a", "#\\x", "(vector 1 2)", "(cons 1 2)", "(cons 1 (cons 2 'x))"})
		src := pick(h.R, []string{
			"(reverse " + bad + ")", "(append " + bad + " " + t + ")",
			"(append " + t + " " + bad + " " + t + ")", "(set-car 1 " + strings.Replace(bad, "(cons", "(vector", 1) + ")",
		})
		if strings.HasPrefix(bad, "(cons") && !strings.HasPrefix(src, "(append") {
			return true
		}
		h.log = append(h.log, src)
		o := interp(h.w, src)
		h.Eval()
		h.Count("wrong arguments", 1)
		if o.Kind != "error" {
			h.Fail("wrong argument", strings.Join(h.log, "\n"), "an error", o.Full())
			return false
		}
		if e := h.check(); e != "" {
			h.Fail("wrong argument", strings.Join(h.log, "\n"), "the store unchanged by an error", e)
			return false
		}
		return true
	default:
		return h.fresh(pick(h.R, listVars), h.list(h.R.In(0, 6), 3))
	}
}

// long lists: the operations on thousands of elements
func longLists(c *Case) {
	m := newMon()
	n := c.R.In(500, 6000)
	k := c.R.N(n)
	src := fmt.Sprintf(`(let ((a nil) (i 0)) (while (< i %d) (setq a (cons i a)) (setq i (+ i 1)))
 (let ((r (reverse a)) (b (append a a)) (s 0))
  (mapc (lambda (x y) (setq s (+ s (* x (- y x))))) a (cdr a))
  (list (length a) (car r) (last a) (length b) (elt b %d) (nth %d r) (car (nthcdr %d r)) (length (subseq a %d %d)) (car (subseq r %d %d))
   (length (mapcar (lambda (x y) x) a b)) (car (member %d a)) (cdr (assoc %d (mapcar (lambda (x) (cons x (* 2 x))) r))) s (length (mapcan #'list a a)) (length (maplist #'car r)) (car (nreverse a)))))`,
		n, n+k, k, k, k, n, k, n, k, k)
	if c.R.P(50) {
		// many lists of different lengths
		lens, low := []int{}, 1<<30
		for i := c.R.In(2, 12); i > 0; i-- {
			l := c.R.In(0, 400)
			if c.R.P(10) {
				l = 0
			}
			lens = append(lens, l)
			low = min(low, l)
		}
		var b strings.Builder
		for i, l := range lens {
			fmt.Fprintf(&b, " (create-list %d %d)", l, i)
		}
		fn := pick(c.R, []string{"mapcar", "maplist"})
		src := fmt.Sprintf("(let ((n 0)) (list (length (%s (lambda (&rest r) (setq n (+ n (length r))))%s)) n))", fn, b.String())
		c.Eval()
		want := fmt.Sprintf("(%d %d)", low, low*len(lens))
		if o := m.Run(src); o.String() != want {
			c.Fail("many lists", src, want, o.Full())
		}
	}
	{
		size := c.R.In(100, 30000)
		src := fmt.Sprintf("(let* ((l (create-list %d 5)) (v (convert l <general-vector>)) (m (append l '(6)))) (list (length l) (length v) (length m) (elt m %d) (elt m %d) (length (subseq m 1 %d)) (length (convert v <list>)) (length (append m l m '(a))) (equal (reverse (reverse m)) m)))", size, size-1, size, size)
		want := fmt.Sprintf("(%d %d %d 5 6 %d %d %d t)", size, size, size+1, size-1, size, 3*size+3)
		c.Eval()
		if o := m.Run(src); o.String() != want {
			c.Fail("long list", src, want, o.Full())
		}
	}
	{
		// no list at all: an error, and the function is not called
		fn := pick(c.R, []string{"mapcar", "mapc", "mapcan", "maplist", "mapl", "mapcon"})
		k := c.R.In(1, 60)
		src := fmt.Sprintf("(let ((n 0)) (list (catch 'runaway (with-handler (lambda (c) (throw 'runaway 1)) (%s (lambda (:rest x) (setq n (+ n 1)) (if (> n %d) (throw 'runaway 2)) nil)))) n))", fn, k)
		c.Eval()
		c.Count("maps without a list", 1)
		if o := m.Run(src); o.String() != "(1 0)" {
			c.Fail("a map without a list", src, "(1 0): too few arguments, and no call", o.Full())
		}
	}
	o := m.Run(src)
	c.Eval()
	c.Count("long lists", 1)
	want := fmt.Sprintf("(%d 0 0 %d %d %d %d %d %d %d %d %d %d %d %d 0)", n, 2*n, n-1-k, k, k, n-k, k, n, k, 2*k, -(n-1)*n/2, 2*n, n)
	if o.String() != want {
		c.Fail("long list", src, want, o.Full())
	}
}

func init() {
	register(&Prop{
		ID: "C10", Quick: 30000, Thorough: 600000,
		Rule: "distinct histories of list operations (texts)",
		Need: []string{"append", "nreverse", "mapcan", "mapcon", "maplist", "mapl", "mapcar", "mapc", "member found", "assoc found", "subseq", "nthcdr", "long lists", "wrong arguments", "maps left early", "maps without a list"},
		Run: func(c *Case) {
			if c.Idx%400 == 7 {
				longLists(c)
				return
			}
			h := &lop{newHeap(c)}
			for _, n := range listVars {
				if !h.fresh(n, h.list(h.R.In(0, 5), 3)) {
					return
				}
			}
			for i := 0; i < 24 && !h.dead; i++ {
				if !h.op() {
					return
				}
			}
			c.Distinct(strings.Join(h.log, "\n"))
			c.Sample(strings.Join(h.log, "\n"))
		},
	})
}
