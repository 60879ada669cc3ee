package main

import (
	"bytes"
	"fmt"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// princ is what ~a writes for data made of strings, characters, symbols, integers and lists.
func (d *D) princ() (string, bool) {
	switch d.K {
	case 's', 'y':
		return d.S, true
	case 'c':
		return string(d.C), true
	case 'i':
		return fmt.Sprint(d.I), true
	case 'n':
		return "nil", true
	case 't':
		return "t", true
	case 'l':
		if d.Tail != nil || len(d.L) == 2 && d.L[0].K == 'y' {
			return "", false
		}
		parts := []string{}
		for _, e := range d.L {
			s, ok := e.princ()
			if !ok {
				return "", false
			}
			parts = append(parts, s)
		}
		return "(" + strings.Join(parts, " ") + ")", true
	}
	return "", false
}

func (c *Case) c02Print(w *gl.World, n gl.Node, how int) (string, Outcome) {
	var o Outcome
	wl := letVar(w, "it", n)
	switch how {
	case 0:
		o = interp(wl, `(format nil "~s" it)`)
	case 1:
		o = interp(wl, `(let ((s (create-string-output-stream))) (format s "~s" it) (get-output-stream-string s))`)
	case 2:
		o = interp(wl, `(let ((s (create-string-output-stream))) (format-object s it t) (get-output-stream-string s))`)
	case 3:
		o = guard(func() (gl.Node, error) {
			if p, ok := n.(interface{ GoString() string }); ok {
				return gl.String(p.GoString()), nil
			}
			return gl.String(fmt.Sprintf("%#v", n)), nil
		})
	}
	c.Eval()
	s, ok := o.Node.(gl.String)
	if !ok {
		return "", o
	}
	return string(s), o
}

func init() {
	register(&Prop{
		ID: "C02", Quick: 160000, Thorough: 5000000,
		Rule: "random data (all types, awkward symbols, strings and characters, nested and dotted lists, arrays of rank 1-4, floats by random bit pattern); printed by ~s three ways, read back three ways and compared by Go type and structure, and printed again; distinct by canonical form",
		Need: []string{"roundtrip.list", "roundtrip.array", "roundtrip.symbol", "roundtrip.string", "roundtrip.float", "roundtrip.char", "princ"},
		Run: func(c *Case) {
			w, _ := quietWorld()
			for k := 0; k < 4; k++ {
				d := genD(c.R, c.R.N(5), true)
				if c.R.P(2) {
					d = genBig(c.R, true)
					c.Count("big", 1)
				}
				c.c02One(w, d)
			}
		},
		Assume: []string{"floats are finite, arrays have rank 1 or more, strings are valid UTF-8"},
	})
}

var c02Kind = map[byte]string{'i': "integer", 'B': "bigint", 'f': "float", 's': "string", 'c': "char", 'y': "symbol", 'k': "keyword", 'n': "nil", 't': "t", 'l': "list", 'a': "array"}

func (c *Case) c02One(w *gl.World, d *D) {
	want := d.Canon()
	n := d.Node()
	if got := canon(n); got != want {
		c.Fail("construct", want, want, got)
		return
	}
	how := c.R.N(3)
	text, o := c.c02Print(w, n, how)
	if o.Kind != "value" {
		c.Fail("print", want, "printed text", o.Full())
		return
	}
	c.Distinct(want)
	c.Count("roundtrip."+c02Kind[d.K], 1)
	check := func(route string, o Outcome) bool {
		c.Eval()
		if o.Kind != "value" || o.Val != want {
			c.Fail("roundtrip", want+"\nprinted as "+text+"\nread by "+route, want, o.Full())
			return false
		}
		return true
	}
	o = guard(func() (gl.Node, error) { return gl.ReadNode(bytes.NewReader([]byte(text))) })
	if !check("gmnlisp.ReadNode", o) {
		return
	}
	// printed again, the same text
	again, o2 := c.c02Print(w, o.Node, c.R.N(3))
	if again != text {
		c.Fail("reprint", want, text, again+" "+o2.String())
		return
	}
	switch c.R.N(4) {
	case 0:
		o = interp(letVar(w, "text", gl.String(text)), `(read (create-string-input-stream text))`)
		check("read", o)
	case 1:
		// code text: a comma or backquote form cannot be quoted as data by evaluation
		if !strings.Contains(want, "quasiquote") && !strings.Contains(want, "unquote") && !strings.Contains(want, "backquote") {
			o = interp(w, "'"+text)
			check("evaluating its quotation", o)
		}
	case 2:
		o = guard(func() (gl.Node, error) {
			ns, err := gl.ReadAll(strings.NewReader("(" + text + " " + text + ")" + text + " z"))
			if err != nil || len(ns) != 3 {
				return nil, fmt.Errorf("%d data: %v", len(ns), err)
			}
			l, ok := ns[0].(*gl.Cons)
			if !ok || canon(ns[1]) != want || canon(l.Car) != want {
				return nil, fmt.Errorf("inside a list: %s", canon(ns[0]))
			}
			l2, ok := l.Cdr.(*gl.Cons)
			if !ok || canon(ns[2]) != "'\"z\"" {
				return nil, fmt.Errorf("inside a list: %s", canon(ns[0]))
			}
			return l2.Car, nil
		})
		check("ReadAll inside a list", o)
	case 3:
		// what the reader itself built prints as itself
		if _, ok := n.(interface{ GoString() string }); ok {
			t, _ := c.c02Print(w, n, 3)
			o = guard(func() (gl.Node, error) { return gl.ReadNode(strings.NewReader(t)) })
			text = t
			check("ReadNode of GoString", o)
		}
	}
	// ~a prints strings and characters bare
	if p, ok := d.princ(); ok {
		o := interp(letVar(w, "it", n), pick(c.R, []string{`(format nil "~a" it)`, `(let ((s (create-string-output-stream))) (format-object s it nil) (get-output-stream-string s))`}))
		c.Eval()
		c.Count("princ", 1)
		if s, ok := o.Node.(gl.String); !ok || string(s) != p {
			c.Fail("princ", want, fmt.Sprintf("%q", p), o.Full())
		}
	}
}
