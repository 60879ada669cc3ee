package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// A model of mutable data with identity: after every operation the variables of the program must
// be the same graph (same structure, same sharing) as the model's.

type mval any // nil, int, mSym, mStr, mChr, *mcell, *marr, *mhash, *mobj

type mSym string
type mStr string
type mChr rune

type mcell struct{ car, cdr mval }
type marr struct {
	dim  []int
	elem []mval
}
type mhash struct {
	key []mval
	val []mval
}
type mobj struct {
	class string
	slot  map[string]mval
}

func (h *mhash) find(k mval) int {
	for i := range h.key {
		if h.key[i] == k {
			return i
		}
	}
	return -1
}

type heap struct {
	*Case
	m     *Mon
	w     *gl.World
	real  gl.Variables
	model map[string]mval
	log   []string
	dyn   map[string]mval
	props map[string]mval
	dead  bool
	uniq  int
}

const heapPrelude = `(defclass <node> () ((a :initarg a :accessor node-a) (b :initarg b :accessor node-b :boundp node-b-p)))`

func newHeap(c *Case) *heap {
	h := &heap{Case: c, m: newMon(), real: gl.Variables{}, model: map[string]mval{}, dyn: map[string]mval{}, props: map[string]mval{}}
	h.w = h.m.W.Let(h.real)
	if o := interp(h.w, heapPrelude); o.Kind != "value" {
		c.Fail("prelude", heapPrelude, "a value", o.Full())
		h.dead = true
	}
	return h
}

func (h *heap) names() []string {
	ns := []string{}
	for n := range h.model {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// ---- generating ---------------------------------------------------------------

func (h *heap) atom() mval {
	switch h.R.W(50, 25, 10, 8, 7) {
	case 0:
		return h.R.In(-3, 9)
	case 1:
		return mSym(pick(h.R, []string{"a", "b", "c", "k"}))
	case 2:
		return mStr(pick(h.R, []string{"", "s", "héé", "日本"}))
	case 3:
		return mChr(pick(h.R, []rune{'x', '日', ' '}))
	}
	return nil
}

// lit is a fresh value.
func (h *heap) lit(depth int) mval {
	if depth <= 0 || h.R.P(55) {
		return h.atom()
	}
	if h.R.P(12) {
		a := &marr{dim: []int{h.R.In(1, 3)}}
		if h.R.P(40) {
			a.dim = append(a.dim, h.R.In(1, 3))
		}
		n := a.dim[0]
		if len(a.dim) == 2 {
			n *= a.dim[1]
		}
		for i := 0; i < n; i++ {
			a.elem = append(a.elem, h.lit(depth-2))
		}
		return a
	}
	return h.list(h.R.In(1, 4), depth)
}

func (h *heap) list(n, depth int) mval {
	var l mval
	for ; n > 0; n-- {
		l = &mcell{h.lit(depth - 1), l}
	}
	return l
}

// expr is a text that makes the fresh value (constructor calls, no constants).
func mtext(v mval) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case int:
		return strconv.Itoa(v)
	case mSym:
		return "'" + string(v)
	case mStr:
		return gl.String(v).GoString()
	case mChr:
		return gl.Rune(v).GoString()
	case *mcell:
		parts := []string{}
		for {
			parts = append(parts, mtext(v.car))
			next, ok := v.cdr.(*mcell)
			if !ok {
				break
			}
			v = next
		}
		if v.cdr == nil {
			return "(list " + strings.Join(parts, " ") + ")"
		}
		s := mtext(v.cdr)
		for i := len(parts) - 1; i >= 0; i-- {
			s = "(cons " + parts[i] + " " + s + ")"
		}
		return s
	case *marr:
		if len(v.dim) == 1 {
			s := "(vector"
			for _, e := range v.elem {
				s += " " + mtext(e)
			}
			return s + ")"
		}
		// filled element by element
		s := "(let ((a (create-array '("
		for i, d := range v.dim {
			if i > 0 {
				s += " "
			}
			s += strconv.Itoa(d)
		}
		s += ") nil)))"
		idx := make([]int, len(v.dim))
		for _, e := range v.elem {
			s += " (set-aref " + mtext(e) + " a"
			for _, i := range idx {
				s += " " + strconv.Itoa(i)
			}
			s += ")"
			for j := len(idx) - 1; j >= 0; j-- {
				if idx[j]++; idx[j] < v.dim[j] {
					break
				}
				idx[j] = 0
			}
		}
		return s + " a)"
	case *mhash:
		s := "(let ((h (make-hash-table)))"
		for i := range v.key {
			s += " (set-gethash " + mtext(v.val[i]) + " " + mtext(v.key[i]) + " h)"
		}
		return s + " h)"
	case *mobj:
		s := "(create " + v.class
		for _, n := range []string{"a", "b"} {
			if x, ok := v.slot[n]; ok {
				s += " '" + n + " " + mtext(x)
			}
		}
		return s + ")"
	}
	bug("mtext %T", v)
	return ""
}

// mcells lists the cells of a proper list; ok is false when it is not one.
func mcells(v mval) ([]*mcell, bool) {
	cs := []*mcell{}
	for {
		switch c := v.(type) {
		case nil:
			return cs, true
		case *mcell:
			cs = append(cs, c)
			v = c.cdr
		default:
			return cs, false
		}
	}
}

func mlist(vs ...mval) mval {
	var l mval
	for i := len(vs) - 1; i >= 0; i-- {
		l = &mcell{vs[i], l}
	}
	return l
}

func mitems(v mval) []mval {
	cs, _ := mcells(v)
	vs := []mval{}
	for _, c := range cs {
		vs = append(vs, c.car)
	}
	return vs
}

// reaches tells whether the mutable object x can be reached from v.
func reaches(v mval, x any, seen map[any]bool) bool {
	if v == nil {
		return false
	}
	switch v.(type) {
	case *mcell, *marr, *mhash, *mobj:
		if v == x {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
	default:
		return false
	}
	switch t := v.(type) {
	case *mcell:
		return reaches(t.car, x, seen) || reaches(t.cdr, x, seen)
	case *marr:
		for _, e := range t.elem {
			if reaches(e, x, seen) {
				return true
			}
		}
	case *mhash:
		for _, e := range t.val {
			if reaches(e, x, seen) {
				return true
			}
		}
	case *mobj:
		for _, e := range t.slot {
			if reaches(e, x, seen) {
				return true
			}
		}
	}
	return false
}

func mreach(v mval, x any) bool { return reaches(v, x, map[any]bool{}) }

// mcanon is the structure of a model value, as canon gives it.
func mcanon(v mval) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case int:
		return strconv.Itoa(v)
	case mSym:
		return "'" + strconv.QuoteToASCII(string(v))
	case mStr:
		return strconv.QuoteToASCII(string(v))
	case mChr:
		return canonChar(rune(v))
	case *mcell:
		var b strings.Builder
		b.WriteByte('(')
		for {
			b.WriteString(mcanon(v.car))
			if v.cdr == nil {
				break
			}
			next, ok := v.cdr.(*mcell)
			if !ok {
				b.WriteString(" . " + mcanon(v.cdr))
				break
			}
			b.WriteByte(' ')
			v = next
		}
		return b.String() + ")"
	case *marr:
		parts := make([]string, len(v.elem))
		for i, e := range v.elem {
			parts[i] = mcanon(e)
		}
		return fmt.Sprintf("#%v[%s]", v.dim, strings.Join(parts, " "))
	case *mhash:
		return "<<hashtable>>"
	case *mobj:
		return "<" + v.class + ">"
	}
	bug("mcanon %T", v)
	return ""
}

// ---- comparing the graphs ---------------------------------------------------------

type isoState struct {
	h    *heap
	m2r  map[any]uintptr
	r2m  map[uintptr]any
	seen map[any]bool
}

func (s *isoState) bind(m any, r uintptr) string {
	if p, ok := s.m2r[m]; ok {
		if p != r {
			return "is a copy, should be shared"
		}
		return ""
	}
	if x, ok := s.r2m[r]; ok && x != m {
		return "is shared, should be separate"
	}
	s.m2r[m] = r
	s.r2m[r] = m
	return ""
}

func (s *isoState) iso(path string, v mval, n gl.Node) string {
	bad := func(what string) string { return path + " " + what + ": want " + mcanon(v) + ", got " + canon(n) }
	switch t := v.(type) {
	case nil:
		if n != nil && !gl.IsNone(n) {
			return bad("differs")
		}
	case int, mSym, mStr, mChr:
		if n == nil || canon(n) != mcanon(v) {
			return bad("differs")
		}
	case *mcell:
		// along the list without recursion
		i := 0
		for {
			c, ok := n.(*gl.Cons)
			if !ok {
				return path + fmt.Sprintf("[%d...] is no cons: want %s, got %s", i, mcanon(v), canonNode(n))
			}
			if e := s.bind(t, reflect.ValueOf(c).Pointer()); e != "" {
				return path + fmt.Sprintf("[%d...] %s", i, e)
			}
			if s.seen[t] {
				return ""
			}
			s.seen[t] = true
			if e := s.iso(path+fmt.Sprintf("[%d]", i), t.car, c.Car); e != "" {
				return e
			}
			i++
			next, ok := t.cdr.(*mcell)
			if !ok {
				return s.iso(path+fmt.Sprintf("[%d...]", i), t.cdr, c.Cdr)
			}
			t, n, v = next, c.Cdr, next
		}
	case *marr:
		a, ok := n.(*gl.Array)
		if !ok {
			return bad("is no array")
		}
		if e := s.bind(t, reflect.ValueOf(a).Pointer()); e != "" {
			return path + " " + e
		}
		if s.seen[t] {
			return ""
		}
		s.seen[t] = true
		dims, elems, err := arrayParts(a)
		if err != nil || fmt.Sprint(dims) != fmt.Sprint(t.dim) || len(elems) != len(t.elem) {
			return path + fmt.Sprintf(" dimensions: want %v, got %v %v", t.dim, dims, err)
		}
		for i := range elems {
			if e := s.iso(path+fmt.Sprintf("{%d}", i), t.elem[i], elems[i]); e != "" {
				return e
			}
		}
	case *mhash:
		if n == nil || n.ClassOf().Name().String() != "<hashtable>" {
			return bad("is no hash table")
		}
		if e := s.bind(t, reflect.ValueOf(n).Pointer()); e != "" {
			return path + " " + e
		}
		if s.seen[t] {
			return ""
		}
		s.seen[t] = true
		cnt, err := callFn(s.h.w, "hash-table-count", n)
		if err != nil || canon(cnt) != strconv.Itoa(len(t.key)) {
			return path + fmt.Sprintf(" count: want %d, got %s %v", len(t.key), canonNode(cnt), err)
		}
		for i := range t.key {
			got, err := callFn(s.h.w, "gethash", mnode(t.key[i]), n)
			if err != nil {
				return path + " gethash " + mcanon(t.key[i]) + ": " + err.Error()
			}
			if e := s.iso(path+"<"+mcanon(t.key[i])+">", t.val[i], got); e != "" {
				return e
			}
		}
	case *mobj:
		if n == nil || n.ClassOf().Name().String() != t.class {
			return bad("is no " + t.class)
		}
		if e := s.bind(t, reflect.ValueOf(n).Pointer()); e != "" {
			return path + " " + e
		}
		if s.seen[t] {
			return ""
		}
		s.seen[t] = true
		for _, sl := range []string{"a", "b"} {
			got, err := callFn(s.h.w, "node-"+sl, n)
			if err != nil {
				return path + " slot " + sl + ": " + err.Error()
			}
			if e := s.iso(path+"."+sl, t.slot[sl], got); e != "" {
				return e
			}
		}
	}
	return ""
}

func canonNode(n gl.Node) string {
	if n == nil {
		return "<GONIL>"
	}
	return canon(n)
}

func mnode(v mval) gl.Node {
	switch v := v.(type) {
	case int:
		return gl.Integer(v)
	case mSym:
		return gl.NewSymbol(string(v))
	case mStr:
		return gl.String(v)
	case mChr:
		return gl.Rune(v)
	}
	return gl.Null
}

// check compares all variables (and extra, a result) with the model.
func (h *heap) check(extra ...any) string {
	s := &isoState{h: h, m2r: map[any]uintptr{}, r2m: map[uintptr]any{}, seen: map[any]bool{}}
	for _, n := range h.names() {
		if e := s.iso(n, h.model[n], h.real[gl.NewSymbol(n)]); e != "" {
			return e
		}
	}
	if len(extra) == 2 {
		return s.iso("result", extra[0], extra[1].(gl.Node))
	}
	return ""
}

// step runs a text, whose value must be want (when hasWant), and compares everything.
func (h *heap) step(kind, src string, hasWant bool, want mval, events []string) bool {
	if h.dead {
		return false
	}
	h.log = append(h.log, src)
	h.m.Events = nil
	o := interp(h.w, src)
	h.Eval()
	h.Count(kind, 1)
	evs := h.m.Take()
	fail := func(w, g string) bool {
		h.dead = true
		h.Fail(kind, strings.Join(h.log, "\n"), w, g)
		return false
	}
	if o.Kind != "value" {
		return fail("a value", o.Full())
	}
	if events != nil && strings.Join(evs, "|") != strings.Join(events, "|") {
		return fail("events "+strings.Join(events, "|"), strings.Join(evs, "|"))
	}
	var e string
	if hasWant {
		e = h.check(want, o.Node)
	} else {
		e = h.check()
	}
	if e != "" {
		return fail("the model's store after the last form", e)
	}
	return true
}

// set stores the value of the text in a variable.
func (h *heap) set(kind, name, src string, v mval, events []string) bool {
	h.model[name] = v
	return h.step(kind, "(setq "+name+" "+src+")", false, nil, events)
}

func (h *heap) fresh(name string, v mval) bool {
	if _, ok := h.real[gl.NewSymbol(name)]; !ok {
		h.real[gl.NewSymbol(name)] = gl.Null
	}
	return h.set("make", name, mtext(v), v, nil)
}
