package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// hist is a history of forms run in one interpreter, each with its prescribed outcome.
type hist struct {
	*Case
	m    *Mon
	log  []string
	dead bool
}

func newHist(c *Case) *hist { return &hist{Case: c, m: newMon()} }

// is runs the form, whose value must have the canonical form want ("ERROR" for any error, "ERROR <class>"
// for one of that class).
func (h *hist) is(kind, src, want string) bool {
	if h.dead {
		return false
	}
	h.log = append(h.log, src)
	o := h.m.Run(src)
	h.Eval()
	h.Count(kind, 1)
	got := o.String()
	ok := got == want
	if want == "ERROR" {
		ok = o.Kind == "error" && o.Class != "fuel"
	}
	if !ok {
		h.dead = true
		h.Fail(kind, h.text(), want, o.Full())
	}
	return ok
}

// run runs the form, which must end with some value.
func (h *hist) run(kind, src string) bool {
	if h.dead {
		return false
	}
	h.log = append(h.log, src)
	o := h.m.Run(src)
	h.Eval()
	h.Count(kind, 1)
	if o.Kind != "value" {
		h.dead = true
		h.Fail(kind, h.text(), "a value", o.Full())
		return false
	}
	return true
}

func (h *hist) text() string {
	l := h.log
	if len(l) > 400 {
		l = append([]string{"..."}, l[len(l)-400:]...)
	}
	return strings.Join(l, "\n")
}

func (h *hist) done() {
	t := h.text()
	h.Distinct(t)
	h.Sample(t)
}

// skey is a key or a value: its text and its canonical form.
type skey struct{ text, canon string }

func (h *hist) hashKey() skey {
	r := h.R
	switch r.W(28, 14, 22, 18, 10, 8) {
	case 0:
		n := r.In(-2, 4)
		switch r.N(6) {
		case 0:
			n = pick(r, []int{math.MaxInt64, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, 97, 65, 26085, 1 << 32, 1<<32 + 1, 1 << 62, 1<<16 + 1})
		}
		return skey{strconv.Itoa(n), strconv.Itoa(n)}
	case 1:
		f := pick(r, []float64{0.5, 1, 2, -1, 1e300, 97, 1 << 53})
		t := strconv.FormatFloat(f, 'g', -1, 64)
		if !strings.ContainsAny(t, ".e") {
			t += ".0"
		}
		return skey{t, canonFloat(f)}
	case 2:
		s := pick(r, []string{"", "a", "b", "A", "1", "abc", "日", "日本", "aé", "é", " ", "nil", "\n", "a\"b", ":k"})
		if r.P(8) { // long ones which differ in one place only
			b := []rune(strings.Repeat(pick(r, []string{"a", "日", "ab "}), r.In(1, 3)*60))
			b[r.N(2)*(len(b)-1)] = rune('a' + r.N(2))
			s = string(b)
		}
		return skey{gl.String(s).GoString(), strconv.QuoteToASCII(s)}
	case 3:
		s := pick(r, []string{"a", "b", "A", "abc", "日", "foo", "k"})
		return skey{"'" + s, "'" + strconv.QuoteToASCII(s)}
	case 4:
		c := pick(r, []rune{'a', 'b', 'A', '1', '日', 'é', ' '})
		return skey{gl.Rune(c).GoString(), canonChar(c)}
	}
	s := pick(r, []string{":k", ":a", ":abc"})
	return skey{s, "kw" + s}
}

func (h *hist) hashVal(n int) skey {
	switch h.R.W(60, 15, 10, 15) {
	case 1:
		return skey{"nil", "nil"}
	case 2:
		return skey{fmt.Sprintf("(list %d 'x)", n), fmt.Sprintf("(%d '\"x\")", n)}
	case 3:
		k := h.hashKey()
		return k
	}
	return skey{strconv.Itoa(n), strconv.Itoa(n)}
}

func c13Run(c *Case) {
	if c.Idx%300 == 11 {
		c13Big(c)
		return
	}
	h := newHist(c)
	r := c.R
	tables := []map[string]string{{}, {}, {}}
	at := []int{0, 1, 2} // which table each variable holds
	src := ""
	for i := range at {
		src += fmt.Sprintf("(defglobal h%d (make-hash-table))", i)
	}
	src += "(defun put (h k v) (set-gethash v k h)) (defun get (k h) (gethash k h)) (defun take (k h) (remhash k h))"
	if !h.run("make", src) {
		return
	}
	seen := []skey{}
	for step := 0; step < 40 && !h.dead; step++ {
		v := r.N(3)
		t := tables[at[v]]
		name := "h" + strconv.Itoa(v)
		k := h.hashKey()
		if len(seen) > 0 && r.P(45) {
			k = pick(r, seen)
		}
		seen = append(seen, k)
		get := func(k skey) string {
			if x, ok := t[k.canon]; ok {
				return x
			}
			return "nil"
		}
		switch r.W(34, 30, 10, 10, 3, 4, 6, 5, 4) {
		case 0:
			x := h.hashVal(step)
			_, was := t[k.canon]
			t[k.canon] = x.canon
			kind := "store"
			if was {
				kind = "overwrite"
			}
			switch r.N(4) {
			case 0:
				h.run(kind, "(setf (gethash "+k.text+" "+name+") "+x.text+")")
			case 1:
				h.is(kind, "(set-gethash "+x.text+" "+k.text+" "+name+")", x.canon)
			case 2:
				h.run(kind, "(put "+name+" "+k.text+" "+x.text+")")
			case 3:
				h.run(kind, "(let ((k "+k.text+")) (setf (gethash k "+name+") "+x.text+"))")
			}
			h.is("lookup", "(gethash "+k.text+" "+name+")", get(k))
		case 1:
			kind := "lookup"
			if _, ok := t[k.canon]; !ok {
				kind = "lookup of nothing"
			}
			h.is(kind, pick(r, []string{"(gethash ", "(get ", "(funcall #'gethash "})+k.text+" "+name+")", get(k))
		case 2:
			h.is("count", "(hash-table-count "+name+")", strconv.Itoa(len(t)))
		case 3:
			if _, ok := t[k.canon]; ok {
				h.Count("removal of a key present", 1)
			}
			delete(t, k.canon)
			h.run("remove", pick(r, []string{"(remhash ", "(take "})+k.text+" "+name+")")
		case 4:
			for k := range t {
				delete(t, k)
			}
			h.run("clear", "(clrhash "+name+")")
		case 5:
			// another name for the same table, or a new table
			if r.P(50) {
				w := r.N(3)
				at[v] = at[w]
				h.run("alias", fmt.Sprintf("(setq h%d h%d)", v, w))
			} else {
				tables = append(tables, map[string]string{})
				at[v] = len(tables) - 1
				h.run("new table", fmt.Sprintf("(setq h%d (make-hash-table))", v))
			}
		case 6:
			bad := pick(r, []string{"(list 1 2)", "(vector 1)", "h1", "(lambda (x) x)", "(create-string-output-stream)", "#'car", "'(a)", "(class <integer>)"})
			h.is("unsupported key", pick(r, []string{"(gethash " + bad + " " + name + ")", "(set-gethash 1 " + bad + " " + name + ")", "(setf (gethash " + bad + " " + name + ") 5)", "(remhash " + bad + " " + name + ")"}), "ERROR")
			h.is("count", "(hash-table-count "+name+")", strconv.Itoa(len(t)))
		case 7:
			bad := pick(r, []string{"5", "nil", "'h", "\"h\"", "(list 1)", "(vector 1 2)"})
			h.is("no table", pick(r, []string{"(gethash 1 " + bad + ")", "(set-gethash 1 2 " + bad + ")", "(remhash 1 " + bad + ")", "(clrhash " + bad + ")", "(hash-table-count " + bad + ")"}), "ERROR <domain-error>")
		case 8:
			h.is("wrong number of arguments", pick(r, []string{"(gethash 1)", "(gethash)", "(set-gethash 1 " + name + ")", "(remhash " + name + ")", "(clrhash)", "(hash-table-count " + name + " 1)", "(make-hash-table 1)", "(gethash 1 " + name + " 2)"}), "ERROR <program-error>")
		}
	}
	// everything there is
	for v := range at {
		t := tables[at[v]]
		h.is("count", fmt.Sprintf("(hash-table-count h%d)", v), strconv.Itoa(len(t)))
		for _, k := range seen {
			w := "nil"
			if x, ok := t[k.canon]; ok {
				w = x
			}
			if r.P(30) {
				h.is("final lookup", fmt.Sprintf("(gethash %s h%d)", k.text, v), w)
			}
		}
	}
	h.done()
}

// c13Big grows and shrinks a table of many keys.
func c13Big(c *Case) {
	h := newHist(c)
	n := c.R.In(200, 3000)
	d := c.R.In(2, 5)
	h.is("large table", fmt.Sprintf(`(let ((h (make-hash-table)) (g (make-hash-table)) (i 0) (bad 0))
 (while (< i %d) (setf (gethash i h) (* i 3)) (setf (gethash (convert i <string>) h) i) (setf (gethash (+ i 0.5) g) i) (setf (gethash (convert (+ 20000 i) <character>) g) (if (= (mod i %d) 1) nil i)) (setq i (+ i 1)))
 (setq i 0)
 (while (< i %d) (if (= (mod i %d) 0) (remhash i h)) (setq i (+ i 1)))
 (setq i 0)
 (while (< i %d)
  (if (equal (gethash i h) (if (= (mod i %d) 0) nil (* i 3))) nil (setq bad (+ bad 1)))
  (if (equal (gethash (convert i <string>) h) i) nil (setq bad (+ bad 1)))
  (if (equal (gethash (+ i 0.5) g) i) nil (setq bad (+ bad 1)))
  (if (gethash i g) (setq bad (+ bad 1)))
  (if (equal (gethash (convert (+ 20000 i) <character>) g) (if (= (mod i %d) 1) nil i)) nil (setq bad (+ bad 1)))
  (setq i (+ i 1)))
 (let ((cnt (hash-table-count h))) (clrhash h) (list bad cnt (hash-table-count h) (hash-table-count g) (gethash 1 h) (gethash 0.5 g))))`, n, d, n, d, n, d, d),
		fmt.Sprintf("(0 %d 0 %d nil 0)", 2*n-(n+d-1)/d, 2*n))
	h.done()
}

// ---- C24 ---------------------------------------------------------------------------

func c24Run(c *Case) {
	h := newHist(c)
	r := c.R
	props := map[string]string{}
	syms := []string{"a", "b", "c", "foo", "p", "日本", "A", "car", "x"}
	names := []string{"p", "q", "a", "x", "color", "b", "car"}
	if r.P(40) { // long, and with the same beginning or end
		stem := pick(r, []string{"abcdefghijkl", "thing", "the-color-of-the-thing-", "日本語の名前", strings.Repeat("long-name-", r.In(1, 12))})
		more := []string{stem, stem + "-1", stem + "-2", stem + stem, "x" + stem, stem + "x", strings.ToUpper(stem), stem + "-12"}
		shuffle(r, more)
		syms, names = append(more[:4:4], syms...), append(more[2:], names...)
	}
	syms = syms[:r.In(2, len(syms))]
	names = names[:r.In(2, len(names))]
	h.run("define", "(defun put (v s n) (set-property v s n)) (defun get (s n) (property s n)) (defun get-or (s n) (catch 'none (with-handler (lambda (c) (throw 'none 'unset)) (property s n))))")
	objs := []string{}
	for step := 0; step < 45 && !h.dead; step++ {
		s, n := pick(r, syms), pick(r, names)
		key := s + " " + n
		args := "'" + s + " '" + n
		cur, set := props[key]
		switch r.W(34, 34, 16, 8, 8) {
		case 0:
			v := h.hashVal(step)
			kind := "set"
			if set {
				kind = "set again"
			}
			props[key] = v.canon
			switch r.N(4) {
			case 0:
				h.run(kind, "(set-property "+v.text+" "+args+")")
			case 1:
				h.run(kind, "(setf (property "+args+") "+v.text+")")
			case 2:
				h.run(kind, "(put "+v.text+" "+args+")")
			case 3:
				h.run(kind, "(let ((s '"+s+") (n '"+n+") (properties 1) (sym-props 2) (L 3) (key 4)) (set-property "+v.text+" s n))")
			}
			objs = append(objs, key)
			h.is("read", "(property "+args+")", v.canon)
		case 1:
			if len(objs) > 0 && r.P(40) {
				key = pick(r, objs)
				f := strings.Fields(key)
				args = "'" + f[0] + " '" + f[1]
				cur, set = props[key]
			}
			if set {
				h.is("read", pick(r, []string{"(property ", "(get ", "(get-or "})+args+")", cur)
			} else if r.P(50) {
				h.is("read unset", "(get-or "+args+")", "'\"unset\"")
			} else {
				h.is("read unset", pick(r, []string{"(property ", "(get "})+args+")", "ERROR")
			}
		case 2:
			if len(objs) > 0 && r.P(60) {
				key = pick(r, objs)
				f := strings.Fields(key)
				args = "'" + f[0] + " '" + f[1]
				_, set = props[key]
			}
			kind := "remove"
			if !set {
				kind = "remove unset"
			}
			delete(props, key)
			h.run(kind, "(remove-property "+args+")")
			h.is("read unset", "(get-or "+args+")", "'\"unset\"")
		case 3:
			if cur, ok := props[key]; ok && !strings.Contains(cur, "f") {
				if k, err := strconv.Atoi(cur); err == nil && k < 1000 && k > -1000 {
					props[key] = strconv.Itoa(k + 2)
					h.run("incf", "(incf (property "+args+") 2)")
				}
			}
		case 4:
			h.is("wrong number of arguments", pick(r, []string{"(property '" + s + ")", "(set-property 1 '" + s + ")", "(remove-property '" + s + ")", "(remove-property)"}), "ERROR <program-error>")
		}
	}
	for _, s := range syms {
		for _, n := range names {
			w, ok := props[s+" "+n]
			if !ok {
				w = "'\"unset\""
			}
			h.is("final read", "(get-or '"+s+" '"+n+")", w)
		}
	}
	h.done()
}

func init() {
	register(&Prop{
		ID: "C13", Quick: 50000, Thorough: 400000,
		Rule: "distinct histories of table operations (texts)",
		Need: []string{"store", "overwrite", "lookup", "lookup of nothing", "remove", "removal of a key present", "clear", "count", "unsupported key", "large table", "alias"},
		Run:  c13Run,
	})
	register(&Prop{
		ID: "C24", Quick: 30000, Thorough: 150000,
		Rule: "distinct histories of property operations (texts)",
		Need: []string{"set", "set again", "read", "read unset", "remove", "remove unset", "final read"},
		Run:  c24Run,
	})
}
