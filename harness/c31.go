package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// C31: the Go helpers for Lisp data. A host and a Lisp program work on the same lists; the monitor
// compares every reachable object (its contents and its identity) with a model after every call.

var c31Vars = []string{"la", "lb", "lc", "ld"}

type c31 struct {
	*heap
	ctx context.Context
}

func (x *c31) node(n string) gl.Node { return x.real[gl.NewSymbol(n)] }

func (x *c31) put(n string, v mval, node gl.Node) {
	x.model[n] = v
	x.real[gl.NewSymbol(n)] = node
}

func (x *c31) bad(kind, want, got string) bool {
	x.dead = true
	x.Fail(kind, strings.Join(x.log, "\n"), want, got)
	return false
}

// same compares the store after a call of a helper.
func (x *c31) same(kind, call string) bool {
	x.log = append(x.log, "Go: "+call)
	x.Eval()
	x.Count("helper", 1)
	x.Count(kind, 1)
	if e := x.check(); e != "" {
		return x.bad(kind, "the model's store after the last call", e)
	}
	return true
}

// noPanic turns a panic of the helper into an error.
func noPanic(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC: %v", r)
		}
	}()
	return f()
}

// pool gives the elements of a new list: values already in use (shared) and new atoms.
func (x *c31) elems(n int) ([]mval, []gl.Node, string) {
	ms, ns, text := []mval{}, []gl.Node{}, ""
	for ; n > 0; n-- {
		if v := pick(x.R, c31Vars); x.R.P(30) {
			ms, ns, text = append(ms, x.model[v]), append(ns, x.node(v)), text+" "+v
			continue
		}
		a := x.atom()
		ms, ns, text = append(ms, a), append(ns, mnode(a)), text+" "+mtext(a)
	}
	return ms, ns, text
}

func c31Reversed(v mval) mval {
	var l mval
	for _, e := range mitems(v) {
		l = &mcell{e, l}
	}
	return l
}

// big limits the size: shared lists grow quickly when they are put into lists.
func (x *c31) big(v mval) bool { return len(mcanon(v)) > 600 }

func (x *c31) step31() bool {
	r := x.R
	to, from := pick(r, c31Vars), pick(r, c31Vars)
	src := x.model[from]
	cells, proper := mcells(src)
	fn := gl.NewSymbol(from)
	switch r.N(16) {
	case 0, 1: // a new list
		ms, ns, text := x.elems(r.N(6))
		v := mlist(ms...)
		if x.big(v) {
			return true
		}
		switch r.N(3) {
		case 0:
			x.put(to, v, gl.List(ns...))
			for i := range ns {
				ns[i] = gl.Integer(-77) // the slice stays the host's
			}
			return x.same("List", to+" = List("+text+" )")
		case 1:
			var b gl.ListBuilder
			k := r.N(len(ns) + 1)
			for i, n := range ns {
				if i == k {
					b.Sequence() // looking at it changes nothing
				}
				if err := b.Add(x.ctx, x.w, n); err != nil {
					return x.bad("ListBuilder", "no error", err.Error())
				}
			}
			x.put(to, v, b.Sequence())
			return x.same("ListBuilder", to+" = ListBuilder"+text)
		}
		x.model[to] = v
		return x.step("list in Lisp", "(setq "+to+" (list"+text+"))", false, nil, nil)
	case 2: // vectors
		ms, ns, text := x.elems(r.N(6))
		a := &marr{dim: []int{len(ms)}, elem: ms}
		if x.big(a) {
			return true
		}
		if r.P(50) {
			x.put(to, a, gl.NewVector(x.ctx, x.w, ns...))
			for i := range ns {
				ns[i] = gl.Integer(-77) // the slice stays the host's
			}
			if !x.same("NewVector", to+" = NewVector("+text+" )") {
				return false
			}
		} else {
			var b gl.VectorBuilder
			for _, n := range ns {
				if err := b.Add(x.ctx, x.w, n); err != nil {
					return x.bad("VectorBuilder", "no error", err.Error())
				}
			}
			x.put(to, a, b.Sequence())
			if !x.same("VectorBuilder", to+" = VectorBuilder"+text) {
				return false
			}
		}
		if len(ms) > 0 { // what Lisp stores in it is stored there
			k := r.N(len(ms))
			a.elem[k] = x.R.In(100, 200)
			return x.step("vector changed in Lisp", fmt.Sprintf("(set-aref %s %s %d)", mtext(a.elem[k]), to, k), false, nil, nil)
		}
		return true
	case 3: // strings
		want, text := "", ""
		b := &gl.StringBuilder{}
		for i := r.N(6); i > 0; i-- {
			if r.P(15) {
				e, t := gl.Node(gl.Integer(5)), "5"
				if r.P(50) {
					e, t = gl.String("x"), `"x"`
				}
				text += " " + t
				var d *gl.DomainError
				if err := noPanic(func() error { return b.Add(x.ctx, x.w, e) }); !errors.As(err, &d) || d.Object != e {
					x.log = append(x.log, "Go: StringBuilder"+text)
					return x.bad("StringBuilder", "a domain error for "+t, fmt.Sprint(err))
				}
				continue
			}
			ch := pick(r, []rune{'a', '日', ' ', '"', '\\', '\n', '𝄞', 'é'})
			want += string(ch)
			text += " " + string(ch)
			if err := b.Add(x.ctx, x.w, gl.Rune(ch)); err != nil {
				return x.bad("StringBuilder", "no error", err.Error())
			}
		}
		x.put(to, mStr(want), b.Sequence())
		return x.same("StringBuilder", to+" = StringBuilder"+text)
	case 4, 5: // reverse
		if !proper {
			return true
		}
		if r.P(30) {
			x.model[to] = c31Reversed(src)
			return x.step("reverse in Lisp", "(setq "+to+" (reverse "+from+"))", false, nil, nil)
		}
		n, err := gl.Reverse(x.node(from))
		if err != nil {
			return x.bad("Reverse", "no error", err.Error())
		}
		x.put(to, c31Reversed(src), n)
		return x.same("Reverse", to+" = Reverse("+from+")")
	case 6: // nreverse: the cells of the list themselves
		if !proper || len(cells) == 0 {
			return true
		}
		for _, c := range cells {
			if mreach(c.car, cells[0]) || mreach(c.car, cells[len(cells)-1]) {
				return true // would become circular
			}
		}
		for _, n := range c31Vars { // another list which holds a cell keeps a part of it
			if n != from && r.P(30) && mreach(x.model[n], cells[len(cells)-1]) {
				return true
			}
		}
		var l mval
		for _, c := range cells {
			c.cdr, l = l, c
		}
		if r.P(30) {
			x.model[to] = l
			return x.step("nreverse in Lisp", "(setq "+to+" (nreverse "+from+"))", false, nil, nil)
		}
		n, err := gl.NReverse(x.ctx, x.w, x.node(from))
		if err != nil {
			return x.bad("NReverse", "no error", err.Error())
		}
		x.put(to, l, n)
		return x.same("NReverse", to+" = NReverse("+from+")")
	case 7: // the elements in a Go slice
		if !proper {
			return true
		}
		k := len(cells) + pick(r, []int{0, 0, 0, -1, 1, 2})
		if k < 0 {
			k = 0
		}
		slice := make([]gl.Node, k)
		err := noPanic(func() error { return gl.ListToArray(x.node(from), slice) })
		call := fmt.Sprintf("ListToArray(%s, %d places)", from, k)
		x.log = append(x.log, "Go: "+call)
		switch {
		case k > len(cells):
			if !errors.Is(err, gl.ErrTooFewArguments) {
				return x.bad("ListToArray", "ErrTooFewArguments", fmt.Sprint(err))
			}
			x.Count("ListToArray too few", 1)
			return true
		case k < len(cells):
			if !errors.Is(err, gl.ErrTooManyArguments) {
				return x.bad("ListToArray", "ErrTooManyArguments", fmt.Sprint(err))
			}
			x.Count("ListToArray too many", 1)
			return true
		case err != nil:
			return x.bad("ListToArray", "no error", err.Error())
		}
		// the elements themselves: a list of them is the list
		ms := mitems(src)
		x.put(to, mlist(ms...), gl.List(slice...))
		return x.same("ListToArray", to+" = List(elements of "+from+")")
	case 8: // Shift
		n := x.node(from)
		car, cdr, err := gl.Shift(n)
		x.log = append(x.log, "Go: Shift("+from+")")
		c, ok := src.(*mcell)
		if !ok {
			if err == nil {
				return x.bad("Shift", "an error", canonNode(car))
			}
			x.Count("Shift of no cell", 1)
			return true
		}
		if err != nil {
			return x.bad("Shift", "no error", err.Error())
		}
		if r.P(50) {
			x.put(to, c.car, car)
		} else {
			x.put(to, c.cdr, cdr)
		}
		return x.same("Shift", to+" = one of them")
	case 9: // Assoc gives the pair itself
		type pair struct{ k, v mval }
		ps, ns := []mval{}, []gl.Node{}
		for i := r.N(5); i > 0; i-- {
			k, v := x.atom(), x.atom()
			ps = append(ps, &mcell{k, v})
			ns = append(ns, &gl.Cons{Car: mnode(k), Cdr: mnode(v)})
		}
		var key mval
		for key == nil {
			key = x.atom()
		}
		if len(ps) > 0 && r.P(70) {
			if k := pick(r, ps).(*mcell).car; k != nil {
				key = k
			}
		}
		var want mval
		for _, p := range ps {
			if p.(*mcell).car == key {
				want = p
				break
			}
		}
		alist := gl.List(ns...)
		if _, isStr := key.(mStr); isStr {
			return true // whether equal strings are the same string is not specified
		}
		n, err := gl.Assoc(x.ctx, x.w, mnode(key), alist)
		if err != nil {
			return x.bad("Assoc", "no error", err.Error())
		}
		x.put(to, want, n)
		x.put(from, mlist(ps...), alist)
		if to == from {
			x.put(to, want, n)
		}
		return x.same("Assoc", fmt.Sprintf("%s = list, %s = Assoc(%s, list)", from, to, mtext(key)))
	case 10, 11: // SeqEach
		s, isStr := src.(mStr)
		if !proper && !isStr {
			return true
		}
		items := mitems(src)
		if isStr {
			items = nil
			for _, ch := range string(s) {
				items = append(items, mChr(ch))
			}
		}
		stop := r.In(0, len(items)*2)
		fail := pick(r, []error{errors.New("stop here"), io.EOF, gl.ErrQuit, gl.ErrAbort, context.Canceled, gl.ErrTooFewArguments, fmt.Errorf("wrapped %w", io.EOF), &hostErr{1}})
		got := []gl.Node{}
		err := noPanic(func() error {
			return gl.SeqEach(x.ctx, x.w, x.node(from), func(n gl.Node) error {
				if len(got) == stop {
					return fail
				}
				got = append(got, n)
				return nil
			})
		})
		x.log = append(x.log, fmt.Sprintf("Go: SeqEach(%s), error at element %d", from, stop))
		if stop < len(items) {
			items = items[:stop]
			x.Count("SeqEach stopped", 1)
			if err != fail {
				return x.bad("SeqEach", "the callback's error", fmt.Sprint(err))
			}
		} else if err != nil {
			return x.bad("SeqEach", "no error", err.Error())
		}
		x.put(to, mlist(items...), gl.List(got...))
		return x.same("SeqEach", to+" = List(elements seen)")
	case 12: // MapCar
		if !proper {
			return true
		}
		other := pick(r, c31Vars)
		items2 := mitems(x.model[other])
		if _, ok := mcells(x.model[other]); !ok {
			return true
		}
		n := len(cells)
		if len(items2) < n {
			n = len(items2)
		}
		var want []mval
		for i, e := range mitems(src)[:n] {
			want = append(want, &mcell{e, items2[i]})
		}
		stop := r.In(0, n*2)
		fail := pick(r, []error{errors.New("stop here"), io.EOF, gl.ErrQuit, gl.ErrAbort, context.Canceled, gl.ErrTooFewArguments, fmt.Errorf("wrapped %w", io.EOF), &hostErr{1}})
		calls := 0
		f := &gl.Function{C: 2, F: func(_ context.Context, _ *gl.World, args []gl.Node) (gl.Node, error) {
			if calls == stop {
				return nil, fail
			}
			calls++
			return &gl.Cons{Car: args[0], Cdr: args[1]}, nil
		}}
		w := x.w.Flet(gl.Functions{gl.NewSymbol("c31-pair"): f})
		ref := gl.List(gl.NewSymbol("function"), gl.NewSymbol("c31-pair"))
		var b gl.ListBuilder
		lists := []gl.Node{x.node(from), x.node(other)}
		err := noPanic(func() error {
			return gl.MapCar(x.ctx, w, ref, lists, func(n gl.Node) { b.Add(x.ctx, w, n) })
		})
		if lists[0] != x.node(from) || lists[1] != x.node(other) {
			return x.bad("MapCar", "the slice of lists is only read", "it was changed")
		}
		x.log = append(x.log, fmt.Sprintf("Go: MapCar(#'pair, %s, %s), error at call %d", from, other, stop))
		if stop < n {
			want = want[:stop]
			x.Count("MapCar stopped", 1)
			if !errors.Is(err, fail) {
				return x.bad("MapCar", "the function's error", fmt.Sprint(err))
			}
		} else if err != nil {
			return x.bad("MapCar", "no error", err.Error())
		}
		v := mlist(want...)
		if x.big(v) {
			return true
		}
		x.put(to, v, b.Sequence())
		return x.same("MapCar", to+" = the results")
	case 13: // nothing and something
		n := x.node(from)
		if none := src == nil; gl.IsNone(n) != none || gl.IsNull(n) != none || gl.IsSome(n) == none || gl.HasValue(n) == none {
			return x.bad("IsNone", fmt.Sprint(none), fmt.Sprintf("IsNone %v IsNull %v IsSome %v HasValue %v of %s", gl.IsNone(n), gl.IsNull(n), gl.IsSome(n), gl.HasValue(n), canonNode(n)))
		}
		x.Count("IsNone", 1)
		x.Eval()
		return true
	case 14: // a derived interpreter sees the same objects, and what it assigns is assigned
		w := x.w.Let(gl.Variables{gl.NewSymbol("c31-local"): x.node(from)})
		n, err := w.Interpret(x.ctx, "(setq "+to+" c31-local)")
		if err != nil || n != x.node(to) && src != nil {
			return x.bad("Set", "the value", fmt.Sprint(n, err))
		}
		x.model[to] = src
		return x.same("Set", "Interpret (setq "+to+" "+from+") in a derived interpreter")
	case 15: // Get and Set
		n, err := x.w.Get(fn)
		if err != nil {
			return x.bad("Get", "no error", err.Error())
		}
		if err := x.w.Set(gl.NewSymbol(to), n); err != nil {
			return x.bad("Set", "no error", err.Error())
		}
		x.model[to] = src
		return x.same("Set", "Set("+to+", Get("+from+"))")
	}
	return true
}

func c31Data(c *Case) {
	x := &c31{heap: newHeap(c), ctx: context.Background()}
	for _, n := range c31Vars {
		if !x.dead {
			x.fresh(n, mlist(x.atom(), x.lit(1), x.atom()))
		}
	}
	for i := 0; i < 30 && !x.dead; i++ {
		if !x.step31() {
			break
		}
	}
	c.Distinct(strings.Join(x.log, "\n"))
}

// c31Numbers: the methods of numbers are the Lisp functions.
func c31Numbers(c *Case) {
	r := c.R
	w := gl.New()
	ctx := context.Background()
	ops := []string{"+", "-", "*", "/", "<"}
	for i := 0; i < 20; i++ {
		a, b := genNum(r), genNum(r)
		if r.P(20) {
			b = near(r, a)
		}
		op := pick(r, ops)
		var an, bn gl.Node = gl.Integer(a.i), gl.Integer(b.i)
		if a.isF {
			an = gl.Float(a.f)
		}
		if b.isF {
			bn = gl.Float(b.f)
		}
		call := "Go: " + canon(an) + " " + op + " " + canon(bn)
		if r.P(8) {
			bn = pick(r, []gl.Node{gl.String("5"), gl.Null, gl.NewSymbol("x"), gl.Rune('a')})
			call = "Go: " + canon(an) + " " + op + " " + canon(bn)
		}
		o := runNode(w.Let(gl.Variables{gl.NewSymbol("x"): an, gl.NewSymbol("y"): bn}), "("+op+" x y)")
		var got gl.Node
		var less bool
		err := noPanic(func() (err error) {
			switch op {
			case "+":
				got, err = an.(interface {
					Add(context.Context, *gl.World, gl.Node) (gl.Node, error)
				}).Add(ctx, w, bn)
			case "-":
				got, err = an.(interface {
					Sub(context.Context, *gl.World, gl.Node) (gl.Node, error)
				}).Sub(ctx, w, bn)
			case "*":
				got, err = an.(interface {
					Multi(context.Context, *gl.World, gl.Node) (gl.Node, error)
				}).Multi(ctx, w, bn)
			case "/":
				got, err = an.(interface {
					Divide(context.Context, *gl.World, gl.Node) (gl.Node, error)
				}).Divide(ctx, w, bn)
			case "<":
				less, err = an.(interface {
					LessThan(context.Context, *gl.World, gl.Node) (bool, error)
				}).LessThan(ctx, w, bn)
			}
			return
		})
		c.Eval()
		c.Count("number method", 1)
		c.Distinct(call)
		if err != nil {
			var d *gl.DomainError
			if _, e, _ := foldNum(op, []cnum{a, b}); bn == b.node() && (op == "<" || e == nil) || bn != b.node() && (!errors.As(err, &d) || d.Object != bn) {
				c.Fail("number method", call, "a value, or a domain error for the wrong operand", err.Error())
				return
			}
			if o.Kind != "error" || errClassOf(err) != o.Class {
				c.Fail("number method", call, "as in Lisp: "+o.String(), err.Error())
				return
			}
			c.Count("number method error", 1)
			continue
		}
		s := boolCanon(less)
		if op != "<" {
			s = canonNode(got)
		}
		if bn == b.node() { // and as in mathematics
			want := boolCanon(ccmp(a, b) < 0)
			var e error
			if op != "<" {
				var z cnum
				z, e, _ = foldNum(op, []cnum{a, b})
				want = z.canon()
			}
			if e == nil && want != s || e == errDivZero {
				c.Fail("number method", call, want, s)
				return
			}
		}
		if o.Kind != "value" || o.Val != s {
			c.Fail("number method", call, "as in Lisp: "+o.String(), s)
			return
		}
	}
}

// c31Dynamics: NewDynamics and Close are dynamic-let.
func c31Dynamics(c *Case) {
	r := c.R
	m := newMon()
	names := []string{"*c31-a*", "*c31-b*", "*c31-c*", "*c31-d*"}
	bound := map[string]string{}
	log := []string{}
	for _, n := range names[:3] {
		v := strconv.Itoa(r.In(0, 9))
		bound[n] = v
		log = append(log, "(defdynamic "+n+" "+v+")")
		m.Run(log[len(log)-1])
	}
	read := func() bool {
		for _, n := range names {
			o := m.Run("(dynamic " + n + ")")
			c.Eval()
			want, ok := bound[n]
			if ok && (o.Kind != "value" || o.Val != want) || !ok && o.Kind != "error" {
				if !ok {
					want = "not bound"
				}
				c.Fail("dynamic variable", strings.Join(log, "\n"), n+" "+want, o.Full())
				return false
			}
			d := m.W.Dynamic(gl.NewSymbol(n))
			if ok && canonNode(d) != want || !ok && d != nil {
				c.Fail("Dynamic", strings.Join(log, "\n"), n+" "+want, canonNode(d))
				return false
			}
		}
		return true
	}
	type frame struct {
		d     *gl.Dynamics
		saved map[string]string
	}
	var fs []frame
	for i := 0; i < 14; i++ {
		n, v := pick(r, names), strconv.Itoa(r.In(10, 99))
		switch k := r.N(6); {
		case k == 0 && len(fs) < 5:
			s := map[string]string{}
			for k, v := range bound {
				s[k] = v
			}
			fs = append(fs, frame{m.W.NewDynamics(), nil})
			fs[len(fs)-1].saved = map[string]string{}
			log = append(log, "Go: NewDynamics")
		case k == 1 && len(fs) > 0:
			f := fs[len(fs)-1]
			fs = fs[:len(fs)-1]
			f.d.Close()
			for k, v := range f.saved {
				if v == "" {
					delete(bound, k)
				} else {
					bound[k] = v
				}
			}
			log = append(log, "Go: Close")
			c.Count("Close", 1)
		case k <= 3 && len(fs) > 0:
			f := fs[len(fs)-1]
			if _, ok := f.saved[n]; !ok {
				f.saved[n] = bound[n]
			}
			var node gl.Node = gl.Integer(atoi(v))
			if r.P(20) {
				v, node = "nil", gl.Null
			}
			f.d.Set(gl.NewSymbol(n), node)
			bound[n] = v
			log = append(log, "Go: Set "+n+" "+v)
			c.Count("Set", 1)
		default:
			if _, ok := bound[n]; !ok {
				continue
			}
			s := "(set-dynamic " + v + " " + n + ")"
			if r.P(50) {
				s = "(dynamic-let ((" + n + " 0)) (setf (dynamic " + n + ") 1))" // no effect outside
			} else {
				bound[n] = v
			}
			log = append(log, s)
			if o := m.Run(s); o.Kind != "value" {
				c.Fail("dynamic variable", strings.Join(log, "\n"), "a value", o.Full())
				return
			}
		}
		if !read() {
			return
		}
	}
	c.Distinct(strings.Join(log, "\n"))
}

// c31Export: a function given to Export is there in every interpreter which does not define the name.
func c31Export(c *Case) {
	r := c.R
	tag := fmt.Sprintf("c31-x-%d-", c.Idx)
	log := []string{}
	ms := []*Mon{newMon()}
	want := map[string]string{}            // exported
	own := []map[string]string{{}, {}, {}} // defined by each interpreter
	constant := func(v int) gl.Callable {
		if r.P(50) {
			return gl.Function0(func(context.Context, *gl.World) (gl.Node, error) { return gl.Integer(v), nil })
		}
		return &gl.Function{F: func(context.Context, *gl.World, []gl.Node) (gl.Node, error) { return gl.Integer(v), nil }}
	}
	names := []string{tag + "a", tag + "b", tag + "c"}
	used := map[string]bool{}
	for i := 0; i < 12; i++ {
		n, v := pick(r, names), r.In(1, 999)
		k := r.N(len(ms))
		switch r.N(6) {
		case 0:
			if used[n] {
				continue // an interpreter may keep the function it has used
			}
			if r.P(50) {
				gl.Export(gl.NewSymbol(n), constant(v))
			} else {
				gl.ExportRange(gl.Functions{gl.NewSymbol(n): constant(v)})
			}
			want[n] = strconv.Itoa(v)
			log = append(log, fmt.Sprintf("Go: Export %s = %d", n, v))
			c.Count("Export", 1)
		case 1:
			if len(ms) < 3 {
				ms = append(ms, newMon())
				log = append(log, "Go: New")
			}
		case 2:
			own[k][n] = strconv.Itoa(v)
			s := fmt.Sprintf("(defun %s () %d)", n, v)
			log = append(log, fmt.Sprintf("in %d: %s", k, s))
			if o := ms[k].Run(s); o.Kind != "value" {
				c.Fail("defun", strings.Join(log, "\n"), "a value", o.Full())
				return
			}
		default:
			s := pick(r, []string{"(" + n + ")", "(funcall #'" + n + ")", "(flet ((f () (" + n + "))) (f))", "(let ((g (function " + n + "))) (funcall g))"})
			log = append(log, fmt.Sprintf("in %d: %s", k, s))
			o := ms[k].Run(s)
			c.Eval()
			w, ok := own[k][n]
			if !ok {
				w, ok = want[n]
				used[n] = used[n] || ok
			}
			if ok && (o.Kind != "value" || o.Val != w) || !ok && o.Class != "<undefined-function>" {
				if !ok {
					w = "ERROR <undefined-function>"
				}
				c.Fail("exported function", strings.Join(log, "\n"), w, o.Full())
				return
			}
			c.Count("exported function called", 1)
		}
	}
	c.Distinct(strings.Join(log, "\n"))
}

// c31Assert: Assert is silent exactly when the value is the expected one.
func c31Assert(c *Case) {
	r := c.R
	h := &heap{Case: c}
	w := gl.New()
	for i := 0; i < 10; i++ {
		v := h.lit(2)
		other := h.lit(2)
		if r.P(50) {
			other = v
		}
		n := runNode(w, mtext(other)).Node
		text := mtext(v)
		equal := mcanon(v) == mcanon(other)
		if r.P(30) { // equalp, but not equal
			p := pick(r, [][2]string{{"1", "1.0"}, {"(list 1 2)", "(list 1 2.0)"}, {"\"abc\"", "\"aBc\""}, {"#\\a", "#\\A"}, {"(vector 1)", "(vector 1.0)"}, {"nil", "'()"}, {"2", "(+ 1 1)"}, {"'a", "'b"}, {"nil", "t"}, {"1.5", "1.5"}, {"\"\"", "nil"}})
			if r.P(50) {
				p[0], p[1] = p[1], p[0]
			}
			n, text = runNode(w, p[1]).Node, p[0]
			equal = p[0] == "nil" && p[1] == "'()" || p[0] == "'()" || p[0] == "2" || p[1] == "2" || p[0] == "1.5"
			c.Count("Assert of similar values", 1)
			other = mSym(p[1])
		}
		fails := r.P(15)
		if fails {
			text = pick(r, []string{"(car 5)", "(", "(undefined-f-c31)", "(error \"no\")"})
		}
		var got string
		err := noPanic(func() error { got = w.Assert(text, n); return nil })
		c.Eval()
		c.Count("Assert", 1)
		c.Distinct(text + " = " + mtext(other))
		if err != nil || (got == "") != (equal && !fails) {
			c.Fail("Assert", text+"\n;; expecting\n"+mtext(other), fmt.Sprintf("silent: %v", equal && !fails), fmt.Sprint(got, err))
			return
		}
	}
}

// fullWriter accepts n bytes, then fails.
type fullWriter struct {
	got strings.Builder
	n   int
	err error
}

func (f *fullWriter) Write(p []byte) (int, error) {
	if len(p) <= f.n {
		f.n -= len(p)
		f.got.Write(p)
		return len(p), nil
	}
	k := f.n
	f.n = 0
	f.got.Write(p[:k])
	return k, f.err
}

// c31Print: PrintTo, String and GoString of data give the text of ~a and ~s; PrintTo tells how much it wrote
// and returns the writer's error.
func c31Print(c *Case) {
	r := c.R
	w := gl.New()
	for i := 0; i < 4; i++ {
		n := genD(r, r.In(1, 4), false).Node()
		p, ok := n.(interface {
			PrintTo(io.Writer, gl.PrintMode) (int, error)
		})
		g, ok2 := n.(fmt.GoStringer)
		if !ok || !ok2 {
			continue
		}
		ww := w.Let(gl.Variables{gl.NewSymbol("c31-datum"): n})
		for _, f := range []struct {
			mode gl.PrintMode
			dir  string
			str  func() string
		}{{gl.PRINC, "~a", n.String}, {gl.PRINT, "~s", g.GoString}} {
			v, err := ww.Interpret(context.Background(), "(format nil \""+f.dir+"\" c31-datum)")
			t, ok := v.(gl.String)
			if err != nil || !ok {
				c.Fail("PrintTo", "format "+f.dir+" of "+g.GoString(), "a string", fmt.Sprint(v, err))
				return
			}
			want := string(t)
			fail := &hostErr{r.N(1000)}
			k := r.N(len(want) + 3)
			full, cut := &fullWriter{n: len(want) + 100, err: fail}, &fullWriter{n: k, err: fail}
			var n1, n2 int
			var e1, e2 error
			str := ""
			err = noPanic(func() error {
				n1, e1 = p.PrintTo(full, f.mode)
				n2, e2 = p.PrintTo(cut, f.mode)
				str = f.str()
				return nil
			})
			c.Eval()
			c.Count("PrintTo", 1)
			c.Distinct(f.dir + want)
			wantCut, wantN := error(nil), len(want)
			if k < len(want) {
				c.Count("PrintTo to a full writer", 1)
				wantCut, wantN = fail, k
			}
			if err != nil || e1 != nil || n1 != len(want) || full.got.String() != want || str != want || !errors.Is(e2, wantCut) || n2 != wantN || cut.got.String() != want[:wantN] {
				c.Fail("PrintTo", fmt.Sprintf("%s: %q, and a writer which is full after %d bytes", f.dir, want, k), fmt.Sprintf("%d bytes; then %d bytes and %v; the same text from String and GoString", len(want), wantN, wantCut),
					fmt.Sprintf("%v; %d %v %q; %d %v %q; %q", err, n1, e1, full.got.String(), n2, e2, cut.got.String(), str))
				return
			}
		}
	}
}

func runNode(w *gl.World, src string) Outcome { return interp(w, src) }

func init() {
	register(&Prop{ID: "C31", Quick: 40000, Thorough: 800000, Run: func(c *Case) {
		switch c.Idx % 10 {
		case 0:
			c31Numbers(c)
		case 1:
			c31Dynamics(c)
		case 2:
			c31Export(c)
		case 3:
			c31Assert(c)
		case 4:
			c31Print(c)
		default:
			c31Data(c)
		}
	},
		Rule: "distinct histories of calls of Go helpers and Lisp operations on shared data (texts)",
		Need: []string{"List", "ListBuilder", "NewVector", "VectorBuilder", "StringBuilder", "Reverse", "NReverse", "ListToArray", "ListToArray too few", "ListToArray too many", "Shift", "Shift of no cell", "Assoc", "SeqEach", "SeqEach stopped", "MapCar", "MapCar stopped", "IsNone", "Set", "number method", "number method error", "Close", "Export", "exported function called", "Assert", "Assert of similar values", "PrintTo", "PrintTo to a full writer"},
	})
}
