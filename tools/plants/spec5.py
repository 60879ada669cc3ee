# Planted bugs, fifth series. See mk.py.
plants = []
def P(id, prop, needs, breaks, edits, **kw):
    plants.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw))

GO = '''
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/hymkor/gmnlisp"
)

var _ = errors.New
var _ = io.EOF
var ctx = context.Background()

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func ints(ns ...int) (r []gmnlisp.Node) {
	for _, n := range ns {
		r = append(r, gmnlisp.Integer(n))
	}
	return
}

func main() {
	w := gmnlisp.New()
	_ = w
BODY
}
'''
def go(body):
    return GO.replace("BODY", body)

P('C16-dotted-tail', 'C16', 'dotted lists that differ only in the case, or the type of number, of their last cdr, compared by equalp',
  'equalp compares the end of a dotted list as equal does',
  [('cons.go', '''	return cons.getCar().Equals(value.Car, m) &&
		cons.getCdr().Equals(value.Cdr, m)
}''', '''	if !cons.getCar().Equals(value.Car, m) {
		return false
	}
	cdr := cons.getCdr()
	if _, ok := cdr.(*Cons); !ok {
		m = EQUAL // the end of the list
	}
	return cdr.Equals(value.Cdr, m)
}''')],
  lisp='''
(format t "~s~%" (equalp '("x" 1 . "End") '("X" 1.0 . "END")))
(format t "~s~%" (equalp '("x" 1 "End") '("X" 1.0 "END")))
''')
P('C20-fresh-after-long', 'C20', 'a single object of more than 4096 bytes is written by ~a, and ~& follows',
  'the column is not known after a long write: ~& writes no newline',
  [('world.go', '''	nn, err = w._Writer.Write(p)
	if nn >= 1 {
''', '''	nn, err = w._Writer.Write(p)
	if nn >= 1 && nn <= 4096 {
''')],
  lisp='''
(let ((s (create-string-output-stream)))
  (format s "~%~a~&x" (create-string 5000 #\\k))
  (format t "~a~%" (length (get-output-stream-string s))))
''')
P('C31-print-count', 'C31', 'a host which prints a list to a writer that accepts a part of it',
  'PrintTo does not count the bytes of the write that failed',
  [('cons.go', '''	w.n += n
	w.err = err
	return err != nil''', '''	if w.err = err; err == nil {
		w.n += n
	}
	return err != nil''')],
  go=go('''	l := gmnlisp.List(gmnlisp.NewSymbol("abc"), gmnlisp.NewSymbol("defghi"))
	full := &limited{n: 7}
	n, err := l.(*gmnlisp.Cons).PrintTo(full, gmnlisp.PRINC)
	check(err != nil && n == 7 && full.got == "(abc de", n, err, full.got)
''') + '''
type limited struct {
	n   int
	got string
}

func (l *limited) Write(p []byte) (int, error) {
	k := min(l.n, len(p))
	l.n -= k
	l.got += string(p[:k])
	if k < len(p) {
		return k, io.ErrShortWrite
	}
	return k, nil
}
''')
P('C04-let-many', 'C04', 'a let of more than eight variables whose later operands refer to outer variables of the same names',
  'the ninth and later operands of let see the bindings made before them',
  [('setq.go', '''		value, err := w.Eval(ctx, argv[1])
		if err != nil {
			return err
		}
		lexical[symbol] = value''', '''		scope := w
		if len(lexical) >= 8 {
			scope = w.Let(Variables(lexical))
		}
		value, err := scope.Eval(ctx, argv[1])
		if err != nil {
			return err
		}
		lexical[symbol] = value''')],
  lisp='''
(let ((a 1) (z 0))
  (format t "~s~%" (let ((a 2) (b 0) (c 0) (d 0) (e 0) (f 0) (g 0) (h 0) (i a)) i))
  (format t "~s~%" (let ((a 2) (i a)) i)))
''')
P('C12-append-empty', 'C12', 'string-append of more than 16 kilobytes with an empty string among the pieces',
  'what follows an empty piece is lost in a long result',
  [('string.go', '''		buffer.WriteString(str.String())
	}
	return String(buffer.String()), nil
}

func compareString''', '''		if n, _ := buffer.WriteString(str.String()); n == 0 && buffer.Cap() >= 1<<14 {
			break
		}
	}
	return String(buffer.String()), nil
}

func compareString''')],
  lisp='''
(format t "~s~%" (length (string-append (create-string 20000 #\\a) "" "bcd")))
(format t "~s~%" (string-append "x" "" "bcd"))
''')
