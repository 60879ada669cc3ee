# Planted bugs, fourth series. See mk.py.
plants = []
def P(id, prop, needs, breaks, edits, **kw):
    plants.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw))

GO = '''
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/hymkor/gmnlisp"
)

var _ = errors.New
var _ = io.EOF
var ctx = context.Background()

func check(ok bool, a ...any) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}

func ints(ns ...int) (r []gmnlisp.Node) {
	for _, n := range ns {
		r = append(r, gmnlisp.Integer(n))
	}
	return
}

func main() {
	w := gmnlisp.New()
	_ = w
BODY
}
'''
def go(body):
    return GO.replace("BODY", body)

P('C31-builder-restart', 'C31', 'a list builder whose Sequence is looked at before further elements are added',
  'elements added after the first Sequence are not in the list',
  [('sequence.go', '''	return L.first.Cdr
}''', '''	list := L.first.Cdr
	L.first, L.last = Cons{Cdr: list}, &Cons{Cdr: L.last.Cdr}
	return list
}''')],
  go=go('''	var b gmnlisp.ListBuilder
	b.Add(ctx, w, gmnlisp.Integer(1))
	b.Sequence()
	b.Add(ctx, w, gmnlisp.Integer(2))
	check(b.Sequence().String() == "(1 2)", b.Sequence())
'''))
P('C31-one-too-many', 'C31', 'ListToArray of a list with exactly one element more than the slice',
  'one surplus element is ignored',
  [('utils.go', '''	if IsSome(list) {
		return ErrTooManyArguments
	}
	return nil
}

func checkContext''', '''	if rest, ok := list.(*Cons); ok && (IsSome(rest.Cdr) || len(slice) == 0) {
		return ErrTooManyArguments
	}
	return nil
}

func checkContext''')],
  go=go('''	var s [2]gmnlisp.Node
	check(gmnlisp.ListToArray(gmnlisp.List(ints(1, 2, 3)...), s[:]) != nil, "three elements in two places")
'''))
P('C31-each-eof', 'C31', 'a callback of SeqEach which ends with io.EOF',
  'SeqEach takes the error of the callback for the end of the list',
  [('sequence.go', '''		if err := f(value); err != nil {
			return err
		}
	}
	return nil
}

type ListBuilder''', '''		if err := f(value); err != nil {
			return ignoreEOF(err)
		}
	}
	return nil
}

type ListBuilder''')],
  go=go('''	err := gmnlisp.SeqEach(ctx, w, gmnlisp.List(ints(1, 2)...), func(gmnlisp.Node) error { return io.EOF })
	check(err == io.EOF, err)
'''))
P('C31-vector-slice', 'C31', 'a host which passes a slice to NewVector and uses it again',
  'the vector and the slice of the host are the same memory',
  [('array.go', '''	var v VectorBuilder
	for _, value := range args {
		v.Add(ctx, w, value)
	}
	return v.Sequence()''', '''	v := VectorBuilder{list: args}
	return v.Sequence()''')],
  go=go('''	s := ints(1, 2)
	v := gmnlisp.NewVector(ctx, w, s...)
	s[0] = gmnlisp.Integer(9)
	check(v.String() == "#(1 2)", v)
'''))
P('C31-nreverse-copies', 'C31', 'NReverse of a list of more than four elements that is held by a variable as well',
  'NReverse makes new cells',
  [('sequence.go', '''	var result Node = Null
	for IsSome(list) {
		cons, err := ExpectClass[*Cons](ctx, w, list)
		if err != nil {
			return nil, err
		}
		list = cons.Cdr
		cons.Cdr = result
		result = cons
	}
	return result, nil''', '''	var result Node = Null
	for count := 0; IsSome(list); count++ {
		cons, err := ExpectClass[*Cons](ctx, w, list)
		if err != nil {
			return nil, err
		}
		list = cons.Cdr
		if count >= 4 {
			cons = &Cons{Car: cons.Car}
		}
		cons.Cdr = result
		result = cons
	}
	return result, nil''')],
  go=go('''	l := gmnlisp.List(ints(1, 2, 3, 4, 5)...)
	last := l
	for {
		c := last.(*gmnlisp.Cons)
		if gmnlisp.IsNone(c.Cdr) {
			break
		}
		last = c.Cdr
	}
	r, err := gmnlisp.NReverse(ctx, w, l)
	check(err == nil && r == last, "the last cell is not the first one of the result", r)
'''))
P('C31-dynamics-nil', 'C31', 'Dynamics over a dynamic variable whose value is nil',
  'a variable whose value was nil is not bound any more after Close',
  [('setq.go', '''	for key, val := range D.backups {
		D.world.dynamic.Set(key, val)
	}
}''', '''	for key, val := range D.backups {
		if IsNone(val) {
			delete(D.world.dynamic, key)
			continue
		}
		D.world.dynamic[key] = val
	}
}''')],
  go=go('''	w.Interpret(ctx, "(defdynamic *a* nil)")
	d := w.NewDynamics()
	d.Set(gmnlisp.NewSymbol("*a*"), gmnlisp.Integer(1))
	d.Close()
	v, err := w.Interpret(ctx, "(dynamic *a*)")
	check(err == nil && gmnlisp.IsNone(v), v, err)
'''))
P('C31-export-defined', 'C31', 'an interpreter that redefines an exported function while another one uses it',
  'a definition of the name in one interpreter replaces the exported function for all of them',
  [('world.go', '''func (rw _RootWorld) Set(symbol Symbol, value Callable) {
	rw[symbol] = value
}''', '''func (rw _RootWorld) Set(symbol Symbol, value Callable) {
	table := Functions(rw)
	if _, exported := autoLoadFunc[symbol]; exported {
		table = autoLoadFunc
	}
	table[symbol] = value
}''')],
  go=go('''	gmnlisp.Export(gmnlisp.NewSymbol("the-answer"), &gmnlisp.Function{F: func(context.Context, *gmnlisp.World, []gmnlisp.Node) (gmnlisp.Node, error) { return gmnlisp.Integer(42), nil }})
	w.Interpret(ctx, "(defun the-answer () 1)")
	v, err := gmnlisp.New().Interpret(ctx, "(the-answer)")
	check(err == nil && v.String() == "42", v, err)
'''))
P('C31-assert-equalp', 'C31', 'Assert with a value that differs from the expected one in case or in the type of a number only',
  'Assert is silent about values which are only similar',
  [('world.go', 'if !result.Equals(expect, EQUAL) {', 'if !result.Equals(expect, EQUALP) {')],
  go=go('''	check(w.Assert("1.0", gmnlisp.Integer(1)) != "", "1.0 is taken for 1")
'''))
