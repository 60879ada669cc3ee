package main

import (
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// ---- a model of classes ---------------------------------------------------------------

type oslot struct {
	name                              string
	initargs                          []string
	form                              string // the initform's text, "" none
	kind                              byte   // of the initform: 'c' constant, 'e' event, 'n' counter, 'l' fresh list, 'x' error, 'v' variable
	canon                             string
	id                                int
	n                                 int // the counter's state
	readers, writers, access, boundps []string
}

type ocls struct {
	name   string
	supers []int
	slots  []*oslot
}

type ometh struct {
	cls  int
	what byte // g get, s set, b boundp
	slot string
}

type oval struct {
	c    string
	cell *int
}

func (v oval) canon() string {
	if v.cell != nil {
		return fmt.Sprintf("(%d)", *v.cell)
	}
	return v.c
}

type oobj struct {
	cls   int
	slots map[string]oval
}

type omodel struct {
	cls  []*ocls
	gens map[string][]ometh
}

// cpl lists the classes from the most specific one: every class before its superclasses, left before right.
func (m *omodel) cpl(i int) []int {
	var all []int
	var walk func(int)
	walk = func(i int) {
		all = append(all, i)
		for _, s := range m.cls[i].supers {
			walk(s)
		}
	}
	walk(i)
	r := []int{}
	for k, c := range all {
		later := false
		for _, d := range all[k+1:] {
			later = later || d == c
		}
		if !later {
			r = append(r, c)
		}
	}
	return r
}

func (m *omodel) sub(a, b int) bool { // strictly below
	if a == b {
		return false
	}
	for _, c := range m.cpl(a) {
		if c == b {
			return true
		}
	}
	return false
}

func (m *omodel) addMethod(g string, x ometh) {
	l := m.gens[g]
	for i, o := range l {
		if o.cls == x.cls {
			l = append(append([]ometh{}, l[:i]...), l[i+1:]...)
			break
		}
	}
	m.gens[g] = append(l, x)
}

func (m *omodel) find(g string, cls int) (ometh, bool) {
	for _, c := range m.cpl(cls) {
		for _, x := range m.gens[g] {
			if x.cls == c {
				return x, true
			}
		}
	}
	return ometh{}, false
}

// allSlots are the slots of an instance: name to the specifications from the most specific class.
func (m *omodel) allSlots(cls int) map[string][]*oslot {
	r := map[string][]*oslot{}
	for _, c := range m.cpl(cls) {
		for _, s := range m.cls[c].slots {
			r[s.name] = append(r[s.name], s)
		}
	}
	return r
}

// c14Classes makes a class graph and the text defining it.
func (h *hist) c14Classes(m *omodel, n int) []string {
	r := h.R
	forms := []string{"(defglobal gv 500)"}
	id := 0
	for i := 0; i < n; i++ {
		c := &ocls{name: fmt.Sprintf("<k%d-%d>", h.Idx%1000, i)}
		if i > 0 {
			k := r.W(15, 45, 30, 10)
			for ; k > 0; k-- {
				s := r.N(i)
				if r.P(50) {
					s = i - 1 - r.N(min(i, 2))
				}
				dup := false
				for _, o := range c.supers {
					dup = dup || o == s
				}
				if !dup {
					c.supers = append(c.supers, s)
				}
			}
		}
		supers := []string{}
		for _, s := range c.supers {
			supers = append(supers, pick(r, []string{"%s", "%s", "(class %s)"}))
			supers[len(supers)-1] = strings.ReplaceAll(supers[len(supers)-1], "%s", m.clsName(s))
		}
		m.cls = append(m.cls, c)
		slots := []string{}
		names := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "l", "m"}
		large := r.P(8) // many slots, many options
		if large {
			h.Count("large class", 1)
		} else {
			names = names[:5]
		}
		shuffle(r, names)
		wrap := ""
		nslots := r.N(4)
		if large {
			nslots = r.In(5, 11)
		}
		more := func(n int) int {
			if large && r.P(25) {
				return r.In(3, 7)
			}
			return n
		}
		for k := nslots; k > 0; k-- {
			s := &oslot{name: names[k]}
			c.slots = append(c.slots, s)
			opts := []string{}
			for j := more(r.W(35, 45, 20)); j > 0; j-- {
				a := pick(r, []string{s.name, s.name, "x", "y", "k" + strconv.Itoa(i), s.name + "2"})
				if large {
					a = s.name + strconv.Itoa(r.N(9))
				}
				s.initargs = append(s.initargs, a)
				opts = append(opts, ":initarg "+a)
			}
			id++
			s.id = id
			switch r.W(30, 14, 14, 12, 14, 3, 13) {
			case 1:
				s.kind, s.form, s.canon = 'c', strconv.Itoa(id*10), strconv.Itoa(id*10)
			case 2:
				s.kind, s.form, s.canon = 'e', fmt.Sprintf("(ev 'i%d)", id), fmt.Sprintf(`'"i%d"`, id)
			case 3:
				v := "n" + strconv.Itoa(id)
				s.kind, s.form = 'n', fmt.Sprintf("(progn (ev 'i%d) (setq %s (+ %s 1)) %s)", id, v, v, v)
				s.n = id * 100
				wrap += fmt.Sprintf("(%s %d) ", v, s.n)
			case 4:
				s.kind, s.form = 'l', fmt.Sprintf("(list %d)", id)
			case 5:
				s.kind, s.form = 'x', "(car 5)"
			case 6:
				s.kind, s.form, s.canon = 'v', "gv", "500"
				if r.P(30) {
					s.form, s.canon = "nil", "nil"
				}
			}
			if s.form != "" {
				opts = append(opts, ":initform "+s.form)
			}
			fn := func(kind string) string {
				if r.P(35) {
					return kind + "-" + pick(r, []string{"p", "q"}) // shared between classes
				}
				if large && r.P(60) {
					return fmt.Sprintf("%s%d-%s%d", kind, i, s.name, r.N(9))
				}
				return fmt.Sprintf("%s%d-%s", kind, i, s.name)
			}
			for j := more(r.W(30, 60, 10)); j > 0; j-- {
				f := fn("r")
				s.readers = append(s.readers, f)
				opts = append(opts, ":reader "+f)
			}
			for j := more(r.W(50, 45, 5)); j > 0; j-- {
				f := fn("w")
				s.writers = append(s.writers, f)
				opts = append(opts, ":writer "+f)
			}
			for j := more(r.W(40, 50, 10)); j > 0; j-- {
				f := fn("a")
				s.access = append(s.access, f)
				opts = append(opts, ":accessor "+f)
			}
			for j := more(r.W(50, 45, 5)); j > 0; j-- {
				f := fn("b")
				s.boundps = append(s.boundps, f)
				opts = append(opts, ":boundp "+f)
			}
			shuffle(r, opts)
			slots = append(slots, "("+s.name+" "+strings.Join(opts, " ")+")")
		}
		for _, s := range c.slots {
			for _, f := range s.boundps {
				m.addMethod(f, ometh{i, 'b', s.name})
			}
			for _, f := range s.readers {
				m.addMethod(f, ometh{i, 'g', s.name})
			}
			for _, f := range s.writers {
				m.addMethod(f, ometh{i, 's', s.name})
			}
			for _, f := range s.access {
				m.addMethod(f, ometh{i, 'g', s.name})
				m.addMethod("set-"+f, ometh{i, 's', s.name})
			}
		}
		form := "(defclass " + c.name + " (" + strings.Join(supers, " ") + ") (" + strings.Join(slots, " ") + "))"
		if len(slots) == 0 && r.P(50) { // the short forms
			form = "(defclass " + c.name + " (" + strings.Join(supers, " ") + "))"
			if len(supers) == 0 && r.P(50) {
				form = "(defclass " + c.name + ")"
			}
		}
		if wrap != "" {
			form = "(let (" + strings.TrimSpace(wrap) + ") " + form + ")"
		} else if r.P(20) {
			form = "(let ((gv2 1)) " + form + ")"
		}
		forms = append(forms, form)
	}
	return forms
}

func (m *omodel) clsName(i int) string { return m.cls[i].name }

func c14Run(c *Case) {
	if c.Idx%12 == 5 {
		c14Builtin(c)
		return
	}
	h := newHist(c)
	r := c.R
	m := &omodel{gens: map[string][]ometh{}}
	for _, f := range h.c14Classes(m, r.In(1, 6)) {
		if !h.run("definition", f) {
			return
		}
	}
	if len(h.m.Take()) > 0 {
		h.Fail("initform at definition", h.text(), "no initform is evaluated by defclass", "one is")
		return
	}
	gens := []string{}
	for g := range m.gens {
		gens = append(gens, g)
	}
	sort.Strings(gens)
	ints := func(g string) bool { return false }
	if len(gens) > 0 && r.P(25) {
		// a method of the program's own on a generic made by defclass
		g := pick(r, gens)
		if m.gens[g][0].what != 's' {
			h.run("own method", "(defmethod "+g+" ((n <integer>)) (* n 7))")
			ints = func(x string) bool { return x == g }
		}
	}
	var objs []*oobj
	vars := []int{} // object of each variable
	evs := func(want []string) {
		got := h.m.Take()
		if h.dead {
			return
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, ";") != strings.Join(want, ";") {
			h.dead = true
			h.Fail("evaluations", h.text(), strings.Join(want, ";"), strings.Join(got, ";"))
		}
	}
	bound := func(o *oobj, s string) (oval, bool) { v, ok := o.slots[s]; return v, ok }
	checkSlot := func(v int, g string) {
		o := objs[vars[v]]
		x, ok := m.find(g, o.cls)
		name := "o" + strconv.Itoa(v)
		if !ok {
			h.is("no such method", pick(r, []string{"(" + g + " " + name + ")", "(funcall #'" + g + " " + name + ")"}), "ERROR <undefined-function>")
			return
		}
		val, isb := bound(o, x.slot)
		call := pick(r, []string{"(" + g + " " + name + ")", "(funcall #'" + g + " " + name + ")", "(car (mapcar #'" + g + " (list " + name + ")))"})
		switch x.what {
		case 'b':
			w := "nil"
			if isb {
				w = "t"
			}
			h.is("boundp", call, w)
		case 'g':
			w := "nil"
			if isb {
				w = val.canon()
			}
			h.is("read", call, w)
		}
	}
	for step := 0; step < 36 && !h.dead; step++ {
		what := r.W(20, 30, 22, 8, 8, 4, 4, 4)
		if len(vars) == 0 {
			what = 0
		}
		switch what {
		case 0: // create
			ci := r.N(len(m.cls))
			o := &oobj{cls: ci, slots: map[string]oval{}}
			all := m.allSlots(ci)
			given := map[string]bool{} // slots already given a value by an initarg
			args := ""
			keys := []string{"a", "b", "c", "d", "e", "x", "y"}
			for i := range m.cls {
				keys = append(keys, "k"+strconv.Itoa(i))
			}
			shuffle(r, keys)
			keys = keys[:r.N(len(keys))]
			extra := []string{} // initargs which only large classes have
			for _, specs := range all {
				for _, s := range specs {
					for _, a := range s.initargs {
						if len(a) == 2 && a[0] != 'k' && !slices.Contains(keys, a) && !slices.Contains(extra, a) {
							extra = append(extra, a)
						}
					}
				}
			}
			sort.Strings(extra)
			for _, a := range extra {
				if r.P(60) {
					keys = append(keys, a)
				}
			}
			shuffle(r, keys)
			var wantEv []string
			for _, k := range keys {
				takes := []string{}
				clash := false
				for name, specs := range all {
					for _, s := range specs {
						for _, a := range s.initargs {
							if a == k {
								takes = append(takes, name)
								clash = clash || given[name]
							}
						}
					}
				}
				if len(takes) == 0 || clash {
					continue
				}
				v := step*100 + r.N(100)
				for _, n := range takes {
					given[n] = true
					o.slots[n] = oval{c: strconv.Itoa(v)}
				}
				if r.P(30) {
					args += fmt.Sprintf(" '%s (ev %d)", k, v)
					wantEv = append(wantEv, strconv.Itoa(v))
				} else {
					args += fmt.Sprintf(" '%s %d", k, v)
				}
			}
			bad := false
			anyErr := false
			for n, specs := range all {
				if given[n] {
					continue
				}
				for _, s := range specs {
					if s.kind == 'x' {
						bad = true
					}
					if s.form != "" {
						break
					}
				}
			}
			if !bad {
				for n, specs := range all {
					if given[n] {
						continue
					}
					for _, s := range specs {
						if s.form == "" {
							continue
						}
						switch s.kind {
						case 'e':
							wantEv = append(wantEv, fmt.Sprintf(`'"i%d"`, s.id))
							o.slots[n] = oval{c: s.canon}
						case 'n':
							wantEv = append(wantEv, fmt.Sprintf(`'"i%d"`, s.id))
							s.n++
							o.slots[n] = oval{c: strconv.Itoa(s.n)}
						case 'l':
							k := s.id
							o.slots[n] = oval{cell: &k}
						default:
							o.slots[n] = oval{c: s.canon}
						}
						break
					}
				}
			}
			cl := pick(r, []string{"(class %s)", "%s"})
			form := "(create " + strings.ReplaceAll(cl, "%s", m.cls[ci].name) + args + ")"
			switch r.N(6) {
			case 0:
				form = "(let ((gv 1) (n1 5) (n2 5) (n3 5)) " + form + ")"
			case 1:
				form = "(apply #'create " + strings.ReplaceAll(cl, "%s", m.cls[ci].name) + " (list" + args + "))"
			case 2:
				form = "(progn (ignore-errors (throw 'none 1)) " + form + ")"
			}
			if bad {
				// which initforms ran before the failing one, and how the counters stand, is not prescribed
				for _, specs := range all {
					for _, s := range specs {
						anyErr = anyErr || s.kind == 'n'
					}
				}
				if anyErr {
					continue
				}
				h.is("failing initform", form, "ERROR <domain-error>")
				h.m.Take()
				continue
			}
			v := len(vars)
			if v >= 5 {
				v = r.N(5)
				h.run("create", "(setq o"+strconv.Itoa(v)+" "+form+")")
				objs = append(objs, o)
				vars[v] = len(objs) - 1
			} else {
				h.run("create", "(defglobal o"+strconv.Itoa(v)+" "+form+")")
				objs = append(objs, o)
				vars = append(vars, len(objs)-1)
			}
			evs(wantEv)
			h.is("class-of", fmt.Sprintf("(eq (class-of o%d) (class %s))", v, m.cls[ci].name), "t")
		case 1:
			if len(gens) == 0 {
				continue
			}
			g := pick(r, gens)
			if m.gens[g][0].what == 's' {
				continue
			}
			checkSlot(r.N(len(vars)), g)
		case 2: // write
			if len(gens) == 0 {
				continue
			}
			g := pick(r, gens)
			if m.gens[g][0].what != 's' {
				continue
			}
			v := r.N(len(vars))
			o := objs[vars[v]]
			name := "o" + strconv.Itoa(v)
			val := pick(r, []string{strconv.Itoa(step*100 + 7), "nil", "'z"})
			canon := map[string]string{"nil": "nil", "'z": `'"z"`}[val]
			if canon == "" {
				canon = val
			}
			call := "(" + g + " " + val + " " + name + ")"
			if strings.HasPrefix(g, "set-") && r.P(60) {
				call = "(setf (" + g[4:] + " " + name + ") " + val + ")"
			} else if r.P(25) {
				call = "(funcall #'" + g + " " + val + " " + name + ")"
			}
			x, ok := m.find(g, o.cls)
			if !ok {
				h.is("no such method", call, "ERROR <undefined-function>")
				continue
			}
			h.run("write", call)
			o.slots[x.slot] = oval{c: canon}
		case 3: // class relations
			a, b := r.N(len(m.cls)), r.N(len(m.cls))
			w := "nil"
			if m.sub(a, b) {
				w = "t"
			}
			h.is("subclassp", fmt.Sprintf("(subclassp (class %s) %s)", m.cls[a].name, m.cls[b].name), w)
			v := r.N(len(vars))
			o := objs[vars[v]]
			w = "nil"
			if o.cls == a || m.sub(o.cls, a) {
				w = "t"
			}
			h.is("instancep", fmt.Sprintf("(instancep o%d (class %s))", v, m.cls[a].name), w)
			f := pick(r, []string{"assure", "the"})
			if w == "t" {
				h.is("assure", fmt.Sprintf("(eq o%d (%s %s o%d))", v, f, m.cls[a].name, v), "t")
			} else {
				h.is("assure", fmt.Sprintf("(%s %s o%d)", f, m.cls[a].name, v), "ERROR <domain-error>")
			}
			h.is("top", fmt.Sprintf("(list (instancep o%d (class <object>)) (subclassp %s <object>) (subclassp <object> %s) (instancep o%d (class <number>)) (subclassp %s <number>) (instancep 5 (class %s)))", v, m.cls[a].name, m.cls[a].name, v, m.cls[a].name, m.cls[a].name), "(t t nil nil nil nil)")
		case 4: // identity and aliases
			v, w := r.N(len(vars)), r.N(len(vars))
			x := "nil"
			if vars[v] == vars[w] {
				x = "t"
			}
			h.is("identity", fmt.Sprintf("(eq o%d o%d)", v, w), x)
			if r.P(40) {
				h.run("alias", fmt.Sprintf("(setq o%d o%d)", v, w))
				vars[v] = vars[w]
			}
		case 5: // a value with state of its own
			v := r.N(len(vars))
			o := objs[vars[v]]
			for _, g := range gens {
				x, ok := m.find(g, o.cls)
				if !ok || x.what != 'g' {
					continue
				}
				if val, isb := bound(o, x.slot); isb && val.cell != nil {
					h.run("change inside a slot's value", fmt.Sprintf("(setf (car (%s o%d)) %d)", g, v, step+1000))
					*val.cell = step + 1000
					break
				}
			}
		case 6:
			if len(gens) == 0 {
				continue
			}
			g := pick(r, gens)
			if m.gens[g][0].what == 's' {
				h.is("foreign object", "("+g+" 1 "+pick(r, []string{"5", "'a", "nil", "\"s\""})+")", "ERROR <undefined-function>")
			} else if ints(g) {
				h.is("own method called", "("+g+" 6)", "42")
			} else {
				h.is("foreign object", "("+g+" "+pick(r, []string{"5", "'a", "nil", "\"s\"", "(class <object>)"})+")", "ERROR <undefined-function>")
			}
		case 7:
			n := m.cls[r.N(len(m.cls))].name
			h.is("malformed", strings.ReplaceAll(pick(r, []string{"(create)", "(create 5)", "(create 'a)", "(create (class %s) 'a)", "(create (class %s) 5 6)", "(defclass <kbad> (%s undefined-class-1) ())", "(defclass <kbad> (5) ())", "(defclass <kbad> (%s) ((a :nonsense 1)))", "(defclass <kbad> () ((a :initarg)))", "(defclass 5 () ())", "(create (class <object>))", "(create (class <number>))", "(instancep 5 5)", "(subclassp (class %s) 5)", "(class gv)", "(defclass <kbad> (%s) ((a :reader 5)))", "(defclass <kbad> () ((a :reader car)))"}), "%s", n), "ERROR")
			h.m.Take()
		}
		evs(nil)
	}
	// every slot of every object through every function
	for v := range vars {
		for _, g := range gens {
			if h.dead {
				return
			}
			if m.gens[g][0].what != 's' && r.P(70) {
				checkSlot(v, g)
			}
		}
	}
	h.done()
}

// ---- built-in classes -----------------------------------------------------------------

var builtinClasses = []string{"<object>", "<number>", "<integer>", "<float>", "<character>", "<string>", "<symbol>", "<null>", "<cons>", "<list>", "<function>", "<array>", "<hashtable>", "<keyword>", "<error>", "<program-error>", "<domain-error>", "<control-error>", "<parse-error>", "<stream-error>", "<end-of-stream>", "<arithmetic-error>", "<division-by-zero>", "<undefined-entity>", "<unbound-variable>", "<undefined-function>", "<simple-error>", "<storage-exhausted>", "<floating-point-overflow>", "<floating-point-underflow>"}

// what the manuals say of the built-in classes
var builtinBelow = map[string]string{"<integer>": "<number>", "<float>": "<number>", "<null>": "<symbol> <list>", "<cons>": "<list>",
	"<program-error>": "<error>", "<domain-error>": "<program-error> <error>", "<control-error>": "<error>", "<parse-error>": "<error>", "<stream-error>": "<error>", "<end-of-stream>": "<stream-error> <error>",
	"<arithmetic-error>": "<error>", "<division-by-zero>": "<arithmetic-error> <error>", "<undefined-entity>": "<program-error> <error>", "<unbound-variable>": "<undefined-entity> <program-error> <error>", "<undefined-function>": "<undefined-entity> <program-error> <error>",
	"<simple-error>": "<error>", "<storage-exhausted>": "<error>", "<floating-point-overflow>": "<arithmetic-error> <error>", "<floating-point-underflow>": "<arithmetic-error> <error>"}

func isBelow(a, b string) bool {
	if b == "<object>" {
		return a != b
	}
	for _, x := range strings.Fields(builtinBelow[a]) {
		if x == b {
			return true
		}
	}
	return false
}

// values and the classes they are direct instances of
var classedValues = [][2]string{{"5", "<integer>"}, {"-1", "<integer>"}, {"1.5", "<float>"}, {`#\a`, "<character>"}, {`"s"`, "<string>"}, {`""`, "<string>"}, {"'sym", "<symbol>"}, {"nil", "<null>"}, {"'()", "<null>"}, {"'(1 . 2)", "<cons>"}, {"(list 1)", "<cons>"}, {"#'car", "<function>"}, {"(lambda (x) x)", "<function>"}, {"(vector 1 2)", "<array>"}, {"(vector)", "<array>"}, {"#2a((1))", "<array>"}, {"(make-hash-table)", "<hashtable>"}, {":key", "<keyword>"},
	{"(cond-of (car 5))", "<domain-error>"}, {"(cond-of (/ 1 0))", "<division-by-zero>"}, {"(cond-of undefined-variable-1)", "<unbound-variable>"}, {"(cond-of (undefined-function-1))", "<undefined-function>"}, {"(cond-of (error \"x\"))", "<simple-error>"}, {"(cond-of (read-char (create-string-input-stream \"\")))", "<end-of-stream>"}, {"(cond-of (throw 'nobody 1))", "<control-error>"}, {"(cond-of (parse-number \"x\"))", "<parse-error>"}, {"(cond-of (car))", "<program-error>"}, {"(create (class <error-instance-none>))", ""}}

func c14Builtin(c *Case) {
	h := newHist(c)
	r := c.R
	h.run("setup", "(defmacro cond-of (form) `(catch 'cond-of (with-handler (lambda (c) (throw 'cond-of c)) ,form)))")
	bools := map[bool]string{true: "t", false: "nil"}
	for k := 0; k < 30 && !h.dead; k++ {
		a, b := pick(r, builtinClasses), pick(r, builtinClasses)
		switch r.N(4) {
		case 0:
			h.is("built-in subclassp", "(subclassp (class "+a+") "+b+")", bools[isBelow(a, b)])
		case 1:
			v := pick(r, classedValues)
			if v[1] == "" {
				continue
			}
			h.is("built-in instancep", "(instancep "+v[0]+" (class "+a+"))", bools[v[1] == a || isBelow(v[1], a)])
			h.is("built-in class-of", "(eq (class-of "+v[0]+") (class "+v[1]+"))", "t")
		case 2:
			v := pick(r, classedValues)
			if v[1] == "" {
				continue
			}
			f := pick(r, []string{"assure", "the"})
			if v[1] == a || isBelow(v[1], a) {
				h.is("built-in assure", "(let ((v "+v[0]+")) (eq v ("+f+" "+a+" v)))", "t")
			} else {
				h.is("built-in assure", "("+f+" "+a+" "+v[0]+")", "ERROR <domain-error>")
			}
		case 3:
			// the predicates agree with the classes
			v := pick(r, classedValues)
			if v[1] == "" {
				continue
			}
			if r.P(12) {
				h.is("predicate", "(atom "+v[0]+")", bools[v[1] != "<cons>"])
			}
			if r.P(8) {
				h.is("predicate", "(basic-array-p "+v[0]+")", bools[v[1] == "<array>" || v[1] == "<string>"])
			}
			if r.P(8) {
				h.is("predicate", "(generic-function-p "+v[0]+")", "nil")
			}
			if r.P(4) {
				h.is("predicate", "(let ((g (defgeneric gen-p1 (x)))) (list (generic-function-p #'gen-p1) (functionp #'gen-p1) (generic-function-p #'report-condition) (generic-function-p (lambda (x) x))))", "(t t t nil)")
			}
			preds := [][2]string{{"integerp", "<integer>"}, {"floatp", "<float>"}, {"numberp", "<number>"}, {"stringp", "<string>"}, {"symbolp", "<symbol>"}, {"consp", "<cons>"}, {"listp", "<list>"}, {"null", "<null>"}, {"functionp", "<function>"}, {"characterp", "<character>"}}
			p := pick(r, preds)
			if v[0] == ":key" && p[0] == "symbolp" {
				continue
			}
			h.is("predicate", "("+p[0]+" "+v[0]+")", bools[v[1] == p[1] || isBelow(v[1], p[1])])
		}
	}
	h.done()
}

// ---- C15 -----------------------------------------------------------------------------

// gtype is a class a parameter can be specialised on, or an argument can be an instance of.
type gmethod struct {
	types []int // indices into the pool; the last one for :rest if the generic has one
	id    int
	env   string // value of the closed-over variable
}

type ggen struct {
	name    string
	argc    int
	argc0   int // the other interpreter's
	rest    bool
	methods []*gmethod
}

// pool of classes: 0 <object>, 1.. built-ins, then user classes
var gBuiltin = []string{"<object>", "<number>", "<integer>", "<float>", "<string>", "<list>", "<cons>", "<symbol>", "<character>", "<error>", "<arithmetic-error>", "<function>", "<array>"}

type gpool struct {
	m     *omodel
	names []string
	tied  bool // best found another method as specific on the arguments given: they differ in an unused :rest only
}

func (p *gpool) rank(t int, v gval) int { // how far class t is from the value's class; -1 not an instance
	if t == 0 {
		return 1000
	}
	if t < len(gBuiltin) {
		if v.cls >= 0 {
			return -1
		}
		for i, n := range v.chain {
			if n == gBuiltin[t] {
				return i
			}
		}
		return -1
	}
	if v.cls < 0 {
		return -1
	}
	for i, c := range p.m.cpl(v.cls) {
		if c == t-len(gBuiltin) {
			return i
		}
	}
	return -1
}

type gval struct {
	src   string
	canon string
	cls   int
	chain []string
}

var gValues = []gval{
	{"5", "5", -1, []string{"<integer>", "<number>"}}, {"0", "0", -1, []string{"<integer>", "<number>"}}, {"1.5", "1.5f", -1, []string{"<float>", "<number>"}},
	{`"s"`, `"s"`, -1, []string{"<string>"}}, {"'(1)", "(1)", -1, []string{"<cons>", "<list>"}}, {"'sym", `'"sym"`, -1, []string{"<symbol>"}}, {`#\a`, "#U+0061", -1, []string{"<character>"}},
	{"nil", "nil", -1, []string{"<null>", "<symbol>", "<list>"}}, {"(vector 1)", "", -1, []string{"<array>"}}, {"#'car", "", -1, []string{"<function>"}},
}

func (p *gpool) best(g *ggen, vs []gval) *gmethod {
	var best *gmethod
	var bestRank []int
	p.tied = false
	for _, m := range g.methods {
		if !g.rest && len(vs) != g.argc || g.rest && len(vs) < g.argc {
			continue
		}
		ranks := []int{}
		ok := true
		for i, v := range vs {
			t := m.types[min(i, len(m.types)-1)]
			if i >= g.argc {
				t = m.types[len(m.types)-1]
			}
			k := p.rank(t, v)
			if k < 0 {
				ok = false
				break
			}
			ranks = append(ranks, k)
		}
		if !ok {
			continue
		}
		if best == nil {
			best, bestRank = m, ranks
			continue
		}
		tied := true
		for i := range ranks {
			if ranks[i] != bestRank[i] {
				tied = false
				if ranks[i] < bestRank[i] {
					best, bestRank = m, ranks
					p.tied = false
				}
				break
			}
		}
		p.tied = p.tied || tied
	}
	return best
}

func c15Run(c *Case) {
	h := newHist(c)
	r := c.R
	p := &gpool{m: &omodel{gens: map[string][]ometh{}}}
	nc := r.In(0, 6)
	forms := []string{}
	if nc > 0 {
		for i := 0; i < nc; i++ {
			k := &ocls{name: fmt.Sprintf("<g%d-%d>", c.Idx%1000, i)}
			sup := ""
			if i > 0 {
				for j := r.W(15, 50, 25, 10); j > 0; j-- {
					s := max(0, i-1-r.N(3))
					dup := false
					for _, o := range k.supers {
						dup = dup || o == s
					}
					if !dup {
						k.supers = append(k.supers, s)
						sup += p.m.cls[s].name + " "
					}
				}
			}
			p.m.cls = append(p.m.cls, k)
			forms = append(forms, fmt.Sprintf("(defclass %s (%s) ()) (defglobal u%d (create (class %s)))", k.name, strings.TrimSpace(sup), i, k.name))
		}
	}
	p.names = append(p.names, gBuiltin...)
	vals := append([]gval{}, gValues...)
	for i, k := range p.m.cls {
		p.names = append(p.names, k.name)
		vals = append(vals, gval{src: "u" + strconv.Itoa(i), cls: i}, gval{src: "(create (class " + k.name + "))", cls: i})
		if i >= nc/2 {
			vals = append(vals, gval{src: "u" + strconv.Itoa(i), cls: i}, gval{src: "u" + strconv.Itoa(i), cls: i})
		}
	}
	types := []int{0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12}
	for i := range p.m.cls {
		types = append(types, len(gBuiltin)+i, len(gBuiltin)+i, len(gBuiltin)+i)
	}
	gens := []*ggen{}
	for i := r.In(1, 3); i > 0; i-- {
		g := &ggen{name: "g" + strconv.Itoa(len(gens)), argc: r.In(1, 3), rest: r.P(25)}
		if r.P(8) {
			g.argc = r.In(4, 8)
		}
		gens = append(gens, g)
	}
	defgen := func(g *ggen) string {
		ps := strings.Fields("a b c d e f g h")[:g.argc]
		if g.rest {
			ps = append(append([]string{}, ps...), pick(r, []string{":rest r", "&rest r"}))
		}
		return "(defgeneric " + g.name + " (" + strings.Join(ps, " ") + "))"
	}
	for _, g := range gens {
		forms = append(forms, defgen(g))
	}
	if !h.run("definition", strings.Join(forms, " ")) {
		return
	}
	// another interpreter defining the same names differently
	var other *Mon
	if r.P(20) {
		other = newMon()
		src := ""
		for _, g := range gens {
			ps := strings.Fields("a b c d e f g h")[:g.argc]
			g.argc0 = g.argc
			ms := []string{}
			for _, x := range ps {
				ms = append(ms, "("+x+" <object>)")
			}
			src += "(defgeneric " + g.name + " (" + strings.Join(ps, " ") + ")) (defmethod " + g.name + " (" + strings.Join(ms, " ") + ") 'other)"
		}
		if o := other.Run(src); o.Kind != "value" {
			h.Fail("second interpreter", src, "a value", o.Full())
			return
		}
	}
	id := 0
	defMethod := func(g *ggen) {
		m := &gmethod{id: id}
		id++
		n := g.argc
		if g.rest {
			n++
		}
		if len(g.methods) > 0 && r.P(25) {
			m.types = append([]int{}, pick(r, g.methods).types...) // replaces
			if r.P(50) {
				m.types[r.N(n)] = pick(r, types)
			}
		} else {
			for i := 0; i < n; i++ {
				m.types = append(m.types, pick(r, types))
			}
		}
		replaced := false
		for i, o := range g.methods {
			if fmt.Sprint(o.types) == fmt.Sprint(m.types) {
				g.methods[i] = m
				replaced = true
				break
			}
		}
		if !replaced {
			g.methods = append(g.methods, m)
		} else {
			h.Count("method replaced", 1)
		}
		ps := []string{}
		vars := strings.Fields("a b c d e f g h")[:g.argc]
		for i, v := range vars {
			t := p.names[m.types[i]]
			if r.P(20) {
				t = "(class " + t + ")"
			}
			ps = append(ps, "("+v+" "+t+")")
		}
		body := "(ev 'm" + strconv.Itoa(m.id) + ")"
		val := "(list 'm" + strconv.Itoa(m.id) + " " + strings.Join(vars, " ")
		if g.rest {
			ps = append(ps, pick(r, []string{":rest", "&rest"})+" (r "+p.names[m.types[g.argc]]+")")
			val += " r"
		}
		m.env = strconv.Itoa(1000 + m.id)
		form := "(let ((env " + m.env + ")) (defmethod " + g.name + " (" + strings.Join(ps, " ") + ") " + body + " " + val + " env)))"
		if r.P(40) {
			m.env = ""
			form = "(defmethod " + g.name + " (" + strings.Join(ps, " ") + ") " + body + " " + val + "))"
		}
		h.run("defmethod", form)
	}
	call := func(g *ggen) {
		n := g.argc
		if g.rest {
			n += r.N(3)
			if r.P(15) {
				n += r.In(3, 14)
			}
		}
		if r.P(6) {
			n = r.N(5)
		}
		vs := []gval{}
		args := []string{}
		wantEv := []string{}
		for i := 0; i < n; i++ {
			v := pick(r, vals)
			vs = append(vs, v)
			a := v.src
			if r.P(30) {
				a = fmt.Sprintf("(progn (ev %d) %s)", i, a)
				wantEv = append(wantEv, strconv.Itoa(i))
			}
			args = append(args, a)
		}
		m := p.best(g, vs)
		if p.tied {
			h.Count("call skipped: methods differ in an unused :rest only", 1)
			return
		}
		as := strings.Join(args, " ")
		form := "(" + g.name + " " + as + ")"
		switch r.W(60, 15, 15, 10) {
		case 1:
			form = "(funcall #'" + g.name + " " + as + ")"
		case 2:
			form = "(apply #'" + g.name + " (list " + as + "))"
		case 3:
			form = "(let ((a 77) (env 88)) " + form + ")"
		}
		// what comes back: the method's name, the arguments (identity of objects by canonical text) and its own variable
		h.m.Take()
		h.log = append(h.log, form)
		o := h.m.Run(form)
		h.Eval()
		got := strings.Join(h.m.Take(), ";")
		if m == nil {
			h.Count("no applicable method", 1)
			wrongCount := !g.rest && n != g.argc || g.rest && n < g.argc
			if o.Kind != "error" || !wrongCount && o.Class != "<undefined-function>" || got != strings.Join(wantEv, ";") {
				h.dead = true
				h.Fail("no applicable method", h.text(), strings.Join(wantEv, ";")+" => ERROR <undefined-function>", got+" => "+o.Full())
				return
			}
			if !wrongCount && r.P(40) {
				h.is("names the generic", "(catch 'k (with-handler (lambda (c) (throw 'k (class-name* c))) "+form+"))", `('"<undefined-function>" '"`+g.name+`" '"function")`)
				h.m.Take()
			}
			return
		}
		h.Count("call", 1)
		if len(g.methods) > 1 {
			app := 0
			for _, x := range g.methods {
				if p.best(&ggen{argc: g.argc, rest: g.rest, methods: []*gmethod{x}}, vs) != nil {
					app++
				}
			}
			if app > 1 {
				h.Count("several applicable", 1)
			}
		}
		wantEv = append(wantEv, fmt.Sprintf(`'"m%d"`, m.id))
		want := fmt.Sprintf(`('"m%d"`, m.id)
		opaque := false
		rest := []string{}
		for i, v := range vs {
			if v.canon == "" {
				opaque = true
			}
			if i >= g.argc {
				rest = append(rest, v.canon)
			} else {
				want += " " + v.canon
			}
		}
		if g.rest {
			want += " " + listOf(rest)
		}
		if m.env != "" {
			want += " " + m.env
		}
		want += ")"
		if opaque && o.Kind == "value" {
			// the objects are compared by the interpreter's own identity in C14; here only the method counts
			if !strings.HasPrefix(o.Val, fmt.Sprintf(`('"m%d" `, m.id)) {
				h.dead = true
				h.Fail("method", h.text(), want, o.Full())
				return
			}
			want = o.Val
		}
		if o.String() != want || got != strings.Join(wantEv, ";") {
			h.dead = true
			h.Fail("method", h.text(), strings.Join(wantEv, ";")+" => "+want, got+" => "+o.Full())
		}
	}
	for k := r.N(4); k > 0; k-- {
		defMethod(pick(r, gens))
	}
	for step := 0; step < 30 && !h.dead; step++ {
		g := pick(r, gens)
		switch r.W(26, 64, 3, 3, 2, 2) {
		case 0:
			defMethod(g)
		case 1:
			call(g)
		case 2:
			if other != nil {
				args := strings.Repeat(" 5", g.argc0)
				o := other.Run("(" + g.name + args + ")")
				h.Eval()
				h.Count("the other interpreter", 1)
				if o.String() != `'"other"` {
					h.dead = true
					h.Fail("leak to another interpreter", h.text()+"\n;; there: ("+g.name+args+")", `'"other"`, o.Full())
				}
			}
		case 3:
			if r.P(30) {
				g.methods = nil
				g.argc = r.In(1, 3)
				h.run("defgeneric again", defgen(g))
			}
		case 4:
			h.is("malformed", strings.ReplaceAll(pick(r, []string{"(defmethod undefined-generic-1 ((a <object>)) 1)", "(defmethod car ((a <object>)) 1)", "(defmethod %s ((a 5)) 1)", "(defmethod %s ((a <undefined-class-1>)) 1)", "(defmethod %s ((a <object> <object>)) 1)", "(defgeneric %s (a :rest))", "(defgeneric 5 (a))", "(defgeneric if (a))"}), "%s", g.name), "ERROR")
		case 5:
			h.is("generic-function-p", "(list (generic-function-p #'"+g.name+") (generic-function-p #'car) (generic-function-p 5) (functionp #'"+g.name+"))", "(t nil nil t)")
		}
	}
	h.done()
}

var _ = gl.Null

func init() {
	register(&Prop{
		ID: "C14", Quick: 40000, Thorough: 400000, Run: c14Run,
		Rule:   "random class graphs (up to 6 classes, multiple inheritance, shared and repeated slots, initargs and initforms of seven kinds, four kinds of slot functions, some shared between classes); 36 creations, reads, writes, aliasings, class tests and malformed calls, all slots read at the end, initform evaluations counted; the built-in hierarchy and predicates; distinct by history",
		Need:   []string{"create", "read", "write", "boundp", "subclassp", "instancep", "assure", "no such method", "alias", "class-of", "change inside a slot's value", "built-in subclassp", "built-in instancep", "failing initform", "malformed", "predicate"},
		Assume: []string{"between unrelated superclasses the one named first is the more specific; metaclasses, initialize-object methods and class redefinition are not generated"},
	})
	register(&Prop{
		ID: "C15", Quick: 80000, Thorough: 700000, Run: c15Run,
		Rule:   "random class graphs and generics of 1-3 parameters (with and without :rest), methods on built-in and user classes added and replaced in random order between calls, calls through names, funcall and apply; the method run, its arguments, its closed-over variable and the order of evaluation compared with a model of dispatch; another interpreter with the same names; distinct by history",
		Need:   []string{"call", "several applicable", "no applicable method", "method replaced", "the other interpreter", "defgeneric again", "malformed", "generic-function-p", "names the generic"},
		Assume: []string{"between unrelated superclasses the one named first is the more specific; methods have the shape of their generic"},
	})
}
