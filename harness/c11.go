package main

import (
	"fmt"
	"strconv"
	"strings"
)

// C11: histories of array operations against a model that keeps a value per index tuple.

type tarr struct {
	dim  []int
	elem []string // canonical forms; a view shares the slice of its array
}

func prodInts(d []int) int {
	n := 1
	for _, x := range d {
		n *= x
	}
	return n
}

func (a *tarr) at(idx []int) int {
	n := 0
	for i, d := range a.dim {
		n = n*d + idx[i]
	}
	return n
}

func (a *tarr) canon() string { return fmt.Sprintf("#%v[%s]", a.dim, strings.Join(a.elem, " ")) }

func (a *tarr) print() string {
	head := "#"
	if len(a.dim) != 1 {
		head = fmt.Sprintf("#%dA", len(a.dim))
	}
	var rec func(dim []int, e []string) string
	rec = func(dim []int, e []string) string {
		if len(dim) == 0 {
			return e[0]
		}
		parts := []string{}
		k := len(e) / dim[0]
		for i := 0; i < dim[0]; i++ {
			parts = append(parts, rec(dim[1:], e[i*k:(i+1)*k]))
		}
		return "(" + strings.Join(parts, " ") + ")"
	}
	return head + rec(a.dim, a.elem)
}

type arrHist struct {
	*hist
	vars [4]*tarr
}

func ints(xs []int) string {
	s := make([]string, len(xs))
	for i, x := range xs {
		s[i] = strconv.Itoa(x)
	}
	return strings.Join(s, " ")
}

func (h *arrHist) index(a *tarr) []int {
	idx := make([]int, len(a.dim))
	for i, d := range a.dim {
		idx[i] = h.R.N(d)
		if h.R.P(25) {
			idx[i] = d - 1
		}
	}
	return idx
}

func (h *arrHist) dims() []int {
	rank := h.R.W(8, 34, 32, 16, 6, 4)
	d := []int{}
	for i := 0; i < rank; i++ {
		d = append(d, h.R.In(1, 4))
	}
	if rank >= 1 && h.R.P(8) {
		d[h.R.N(rank)] = h.R.In(5, 20)
	}
	return d
}

func (h *arrHist) elem() (string, string) {
	n := h.R.In(-99, 999)
	switch h.R.W(70, 10, 10, 10) {
	case 1:
		return "nil", "nil"
	case 2:
		return "'s", "'\"s\""
	case 3:
		return fmt.Sprintf("(list %d \"x\")", n), fmt.Sprintf("(%d \"x\")", n)
	}
	return strconv.Itoa(n), strconv.Itoa(n)
}

func (h *arrHist) make(v int) bool {
	r := h.R
	name := "a" + strconv.Itoa(v)
	a := &tarr{}
	src, kind := "", ""
	switch r.W(50, 20, 10, 8, 6, 6) {
	case 0:
		a.dim = h.dims()
		t, c := h.elem()
		a.elem = make([]string, prodInts(a.dim))
		src, kind = "(create-array (list "+ints(a.dim)+") "+t+")", "create-array"
		if r.P(30) {
			src, c = "(create-array '("+ints(a.dim)+"))", "nil"
		}
		for i := range a.elem {
			a.elem[i] = c
		}
	case 1, 2, 3, 4:
		n := r.In(1, 6)
		a.dim = []int{n}
		ts := []string{}
		for i := 0; i < n; i++ {
			t, c := h.elem()
			ts = append(ts, t)
			a.elem = append(a.elem, c)
		}
		args := strings.Join(ts, " ")
		src, kind = pick(r, []string{"(vector " + args + ")", "(apply #'vector (list " + args + "))", "(apply #'vector " + ts[0] + " (list " + strings.Join(ts[1:], " ") + "))", "(mkv " + args + ")", "(convert (list " + args + ") <general-vector>)", "(elt (mks 5 (list " + args + ") nil) 2)"}), "vector"
	case 5:
		// read from text
		a.dim = h.dims()
		if len(a.dim) == 0 {
			a.dim = []int{2, 2}
		}
		n := prodInts(a.dim)
		for i := 0; i < n; i++ {
			a.elem = append(a.elem, strconv.Itoa(r.In(-9, 99)))
		}
		t := a.print()
		if r.P(50) {
			t = strings.Replace(t, "A", "a", 1)
		}
		src, kind = "(read (create-string-input-stream \""+t+"\"))", "array read from text"
	}
	h.vars[v] = a
	return h.is(kind, "(setq "+name+" "+src+")", a.canon())
}

func (h *arrHist) step() {
	r := h.R
	v := r.N(4)
	a := h.vars[v]
	name := "a" + strconv.Itoa(v)
	idx := h.index(a)
	is := ""
	if len(idx) > 0 {
		is = " " + ints(idx)
	}
	vec := len(a.dim) == 1
	switch r.W(36, 28, 6, 6, 6, 5, 7, 7, 4, 4, 4, 3) {
	case 0: // write
		t, c := h.elem()
		a.elem[a.at(idx)] = c
		forms := []string{
			"(set-aref " + t + " " + name + is + ")",
			"(setf (aref " + name + is + ") " + t + ")",
			"(let ((v " + t + ") (a " + name + ")) (setf (aref a" + is + ") v))",
			"(apply #'set-aref " + t + " " + name + " (list" + is + "))",
		}
		if len(idx) > 0 {
			forms = append(forms, "(setf (elt "+name+is+") "+t+")", "(set-elt "+t+" "+name+is+")")
		}
		if len(idx) > 1 {
			forms = append(forms, "(setf (aref (aref "+name+" "+ints(idx[:1])+") "+ints(idx[1:])+") "+t+")")
		}
		h.run("write", pick(r, forms))
		h.is("whole array", name, a.canon())
	case 1: // read
		forms := []string{"(aref " + name + is + ")", "(apply #'aref " + name + " (list" + is + "))", "(funcall #'aref " + name + is + ")"}
		if len(idx) > 0 {
			forms = append(forms, "(elt "+name+is+")")
		}
		if len(idx) > 1 {
			forms = append(forms, "(aref (aref "+name+" "+ints(idx[:1])+") "+ints(idx[1:])+")", "(elt (elt "+name+" "+ints(idx[:1])+") "+ints(idx[1:])+")")
		}
		h.is("read", pick(r, forms), a.elem[a.at(idx)])
	case 2:
		w := "(" + ints(a.dim) + ")"
		if len(a.dim) == 0 {
			w = "nil"
		}
		h.is("dimensions", "(array-dimensions "+name+")", w)
		if vec {
			h.is("length", "(length "+name+")", strconv.Itoa(a.dim[0]))
		}
	case 3:
		h.is("print", "(format nil \"~a\" "+name+")", strconv.QuoteToASCII(strings.NewReplacer("'\"s\"", "s", "\"x\"", "x").Replace(a.print())))
	case 4: // a part of the array seen as one
		if len(idx) < 2 {
			return
		}
		k := r.In(1, len(idx)-1)
		sz := prodInts(a.dim[k:])
		off := 0
		for i := 0; i < k; i++ {
			off = off*a.dim[i] + idx[i]
		}
		w := r.N(4)
		h.vars[w] = &tarr{dim: a.dim[k:], elem: a.elem[off*sz : (off+1)*sz : (off+1)*sz]}
		h.is("part of an array", fmt.Sprintf("(setq a%d (%s %s %s))", w, pick(r, []string{"aref", "elt"}), name, ints(idx[:k])), h.vars[w].canon())
	case 5: // a part replaced by an array of the same dimensions
		if len(idx) < 2 {
			return
		}
		k := r.In(1, len(idx)-1)
		sz := prodInts(a.dim[k:])
		off := 0
		for i := 0; i < k; i++ {
			off = off*a.dim[i] + idx[i]
		}
		row := &tarr{dim: a.dim[k:], elem: make([]string, sz)}
		for i := range row.elem {
			row.elem[i] = strconv.Itoa(r.In(100, 200))
		}
		copy(a.elem[off*sz:], row.elem)
		h.run("part replaced", fmt.Sprintf("(set-aref (read (create-string-input-stream \"%s\")) %s %s)", row.print(), name, ints(idx[:k])))
		h.is("whole array", name, a.canon())
	case 6: // outside the bounds
		if len(idx) == 0 {
			return
		}
		k := r.N(len(idx))
		bad := pick(r, []int{-1, a.dim[k], a.dim[k] + 1, -a.dim[k], 1 << 40, -1 << 40, 1<<62 + 1})
		idx[k] = bad
		is = " " + ints(idx)
		h.is("index out of bounds", pick(r, []string{"(aref " + name + is + ")", "(elt " + name + is + ")", "(set-aref 'bad " + name + is + ")", "(setf (aref " + name + is + ") 'bad)", "(setf (elt " + name + is + ") 'bad)"}), "ERROR")
		h.is("whole array", name, a.canon())
	case 7: // wrong indices
		switch r.N(3) {
		case 0:
			is += " 0"
			h.is("too many indices", pick(r, []string{"(aref " + name + is + ")", "(set-aref 'bad " + name + is + ")", "(setf (aref " + name + is + ") 'bad)"}), "ERROR")
		default:
			if len(idx) == 0 {
				return
			}
			parts := strings.Fields(ints(idx))
			parts[r.N(len(parts))] = pick(r, []string{"0.0", "nil", "'x", "\"0\"", "#\\0", "(list 0)", "1.5"})
			is = " " + strings.Join(parts, " ")
			h.is("index of a wrong type", pick(r, []string{"(aref " + name + is + ")", "(elt " + name + is + ")", "(set-aref 'bad " + name + is + ")"}), "ERROR")
		}
		h.is("whole array", name, a.canon())
	case 8: // invalid dimensions
		bad := pick(r, []string{"(-1)", "(2 -3)", "(1.0)", "(a)", "(2 nil)", "(\"2\")", "((2))", "(-2 -2)"})
		h.is("invalid dimension", "(create-array '"+bad+pick(r, []string{"", " 0"})+")", "ERROR")
	case 9:
		bad := pick(r, []string{"5", "'a", "nil", "(list 1 2)"})
		h.is("no array", pick(r, []string{"(aref " + bad + " 0)", "(set-aref 1 " + bad + " 0)", "(array-dimensions " + bad + ")"}), "ERROR <domain-error>")
	case 10:
		w := r.N(4)
		h.vars[w] = a
		h.run("alias", fmt.Sprintf("(setq a%d %s)", w, name))
	case 11:
		h.make(v)
	}
}

func c11Run(c *Case) {
	if c.Idx%250 == 3 {
		c11Big(c)
		return
	}
	h := &arrHist{hist: newHist(c)}
	h.run("define", "(defglobal a0 nil) (defglobal a1 nil) (defglobal a2 nil) (defglobal a3 nil) (defun mkv (&rest r) (apply #'vector r)) (defun mks (n l acc) (if (= n 0) acc (mks (- n 1) l (cons (apply #'vector l) acc))))")
	for i := range h.vars {
		if !h.make(i) {
			return
		}
	}
	for i := 0; i < 36 && !h.dead; i++ {
		h.step()
	}
	for i, a := range h.vars {
		h.is("final state", "a"+strconv.Itoa(i), a.canon())
		n := "a" + strconv.Itoa(i)
		// what has more than one dimension, what has one, what has none
		multi := tnil(len(a.dim) > 1)
		if len(a.dim) > 0 {
			h.is("predicates", "(list (basic-array-p "+n+") (basic-array*-p "+n+") (general-array*-p "+n+") (length (array-dimensions "+n+")))", "(t "+multi+" "+multi+" "+strconv.Itoa(len(a.dim))+")")
		}
	}
	if h.R.P(10) {
		h.is("predicates", "(let ((s "+pick(h.R, []string{`""`, `"a"`, `"日本"`, `(create-string 3 #\a)`})+")) (list (basic-array-p s) (basic-array*-p s) (general-array*-p s)))", "(t nil nil)")
		h.is("predicates", "(let ((s "+pick(h.R, []string{"nil", "'(1 2)", "5", "'a", "#'car", `#\a`})+")) (list (basic-array-p s) (basic-array*-p s) (general-array*-p s)))", "(nil nil nil)")
	}
	h.done()
}

// c11Big writes every element of a large array and reads all of them back.
func c11Big(c *Case) {
	h := newHist(c)
	r := c.R
	d := []int{r.In(2, 9), r.In(2, 9), r.In(2, 9)}
	m := r.In(3, 97)
	h.is("every index", fmt.Sprintf(`(let ((a (create-array '(%d %d %d) -1)) (bad 0))
 (for ((i 0 (+ i 1))) ((= i %d)) (for ((j 0 (+ j 1))) ((= j %d)) (for ((k 0 (+ k 1))) ((= k %d)) (if (/= (aref a i j k) -1) (setq bad (+ bad 1))) (setf (aref a i j k) (+ (* i 1000) (* j 100) (* k 10))))))
 (for ((i 0 (+ i 1))) ((= i %d)) (for ((j 0 (+ j 1))) ((= j %d)) (for ((k 0 (+ k 1))) ((= k %d)) (if (/= (aref a i j k) (+ (* i 1000) (* j 100) (* k 10))) (setq bad (+ bad 1))))))
 (list bad (array-dimensions a)))`, d[0], d[1], d[2], d[0], d[1], d[2], d[0], d[1], d[2]), fmt.Sprintf("(0 (%s))", ints(d)))
	n := r.In(500, 5000)
	h.is("every index", fmt.Sprintf(`(let ((v (create-array '(%d) 0)) (bad 0) (s 0))
 (for ((i 0 (+ i 1))) ((= i %d)) (setf (elt v (mod (* i %d) %d)) i))
 (for ((i 0 (+ i 1))) ((= i %d)) (setq s (+ s (aref v i))))
 (list (length v) (aref v 0) s))`, n, n, m, n, n), func() string {
		v := make([]int, n)
		for i := 0; i < n; i++ {
			v[i*m%n] = i
		}
		s := 0
		for _, x := range v {
			s += x
		}
		return fmt.Sprintf("(%d %d %d)", n, v[0], s)
	}())
	h.done()
}

func init() {
	register(&Prop{
		ID: "C11", Quick: 60000, Thorough: 500000,
		Rule: "distinct histories of array operations (texts)",
		Need: []string{"create-array", "vector", "array read from text", "write", "read", "dimensions", "length", "print", "part of an array", "part replaced", "index out of bounds", "too many indices", "index of a wrong type", "invalid dimension", "every index", "alias"},
		Run:  c11Run,
	})
}
