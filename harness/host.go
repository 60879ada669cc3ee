package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	gl "github.com/hymkor/gmnlisp"
)

// ---- contexts -------------------------------------------------------------

var errFuel = errors.New("vmon: fuel exhausted")

// fuelCtx is done after a fixed number of polls: cancellation at a logical step, no clock.
type fuelCtx struct {
	n      int64
	err    error
	closed chan struct{}
	open   chan struct{}
}

func newFuel(n int64, err error) *fuelCtx {
	c := &fuelCtx{n: n, err: err, closed: make(chan struct{}), open: make(chan struct{})}
	close(c.closed)
	return c
}

func (c *fuelCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *fuelCtx) Done() <-chan struct{} {
	if c.n <= 0 {
		return c.closed
	}
	c.n--
	return c.open
}
func (c *fuelCtx) Err() error {
	if c.n <= 0 {
		return c.err
	}
	c.n--
	return nil
}
func (c *fuelCtx) Value(any) any { return nil }

// ---- outcomes ---------------------------------------------------------------

// Outcome of one interpretation as seen by the host.
type Outcome struct {
	Kind  string // value, error, panic
	Val   string // canonical value
	Class string // error class
	Msg   string
	Node  gl.Node
	Err   error
	Stack string
}

func (o Outcome) String() string {
	switch o.Kind {
	case "value":
		return o.Val
	case "error":
		return "ERROR " + o.Class
	}
	return "PANIC " + o.Msg
}

// Full gives the message too, for reports.
func (o Outcome) Full() string {
	if o.Kind == "value" {
		return o.Val
	}
	return o.String() + " :: " + o.Msg + "\n" + o.Stack
}

func errClassOf(err error) string {
	if errors.Is(err, errFuel) {
		return "fuel"
	}
	if errors.Is(err, gl.ErrQuit) {
		return "quit"
	}
	if errors.Is(err, gl.ErrAbort) {
		return "abort"
	}
	if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
		return "ctx"
	}
	var c interface{ ClassOf() gl.Class }
	if errors.As(err, &c) {
		return c.ClassOf().Name().String()
	}
	return "error"
}

func guard(f func() (gl.Node, error)) (o Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessBug); ok {
				panic(h)
			}
			o = Outcome{Kind: "panic", Msg: fmt.Sprint(r), Stack: firstLines(string(debug.Stack()), 40)}
		}
	}()
	v, err := f()
	if err != nil {
		return Outcome{Kind: "error", Class: errClassOf(err), Msg: err.Error(), Err: err}
	}
	return Outcome{Kind: "value", Val: canon(v), Node: v}
}

const defaultFuel = 3_000_000

func interp(w *gl.World, src string) Outcome { return interpFuel(w, src, defaultFuel) }

func interpFuel(w *gl.World, src string, fuel int64) Outcome {
	return guard(func() (gl.Node, error) { return w.Interpret(newFuel(fuel, errFuel), src) })
}

// ---- canonical values ---------------------------------------------------------

// canon renders a value by its Go type, independently of the interpreter's printer.
func canon(n gl.Node) string {
	var b strings.Builder
	canonTo(&b, n, 0)
	return b.String()
}

func canonFloat(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	return s + "f"
}

func canonChar(r rune) string { return fmt.Sprintf("#U+%04X", int32(r)) }

func canonTo(b *strings.Builder, n gl.Node, depth int) {
	if depth > 5000 {
		b.WriteString("<DEEP>")
		return
	}
	if b.Len() > 1<<20 {
		return
	}
	switch v := n.(type) {
	case nil:
		b.WriteString("<GONIL>")
	case gl.Integer:
		b.WriteString(strconv.FormatInt(int64(v), 10))
	case gl.Float:
		b.WriteString(canonFloat(float64(v)))
	case gl.String:
		b.WriteString(strconv.QuoteToASCII(string(v)))
	case gl.Rune:
		b.WriteString(canonChar(rune(v)))
	case gl.BigInt:
		b.WriteString("big" + v.Int.String())
	case gl.Keyword:
		b.WriteString("kw" + v.String())
	case *gl.Cons:
		b.WriteByte('(')
		for i := 0; ; i++ {
			if i > 200000 {
				b.WriteString(" <LONG>")
				break
			}
			canonElem(b, v.Car, depth+1)
			if gl.IsNone(v.Cdr) {
				break
			}
			next, ok := v.Cdr.(*gl.Cons)
			if !ok {
				b.WriteString(" . ")
				canonElem(b, v.Cdr, depth+1)
				break
			}
			b.WriteByte(' ')
			v = next
		}
		b.WriteByte(')')
	case *gl.Array:
		canonArray(b, v, depth)
	case gl.FunctionRef:
		b.WriteString("<fn>")
	case gl.Class:
		b.WriteString("<class " + symName(v.Name()) + ">")
	case gl.Uneval:
		b.WriteString("<UNEVAL ")
		canonTo(b, v.Node, depth+1)
		b.WriteString(">")
	default:
		if gl.IsNone(n) {
			b.WriteString("nil")
			return
		}
		if n == gl.True {
			b.WriteString("t")
			return
		}
		if s, ok := n.(gl.Symbol); ok {
			b.WriteString("'" + symName(s))
			return
		}
		b.WriteString("<" + n.ClassOf().Name().String() + ">")
	}
}

func symName(s gl.Symbol) string {
	if s == nil {
		return "?"
	}
	n := s.String()
	if strings.HasPrefix(n, "-gensym-") {
		return "<gensym>"
	}
	return strconv.QuoteToASCII(n)
}

// car/cdr slots of conses may hold Go nil for "empty" (the interpreter treats it as nil).
func canonElem(b *strings.Builder, n gl.Node, depth int) {
	if n == nil {
		b.WriteString("nil")
		return
	}
	canonTo(b, n, depth)
}

var auxWorld *gl.World

func aux() *gl.World {
	if inChild {
		w := gl.New()
		w.SetStdout(&bytes.Buffer{})
		w.SetErrout(&bytes.Buffer{})
		return w
	}
	if auxWorld == nil {
		auxWorld = gl.New()
		auxWorld.SetStdout(&bytes.Buffer{})
		auxWorld.SetErrout(&bytes.Buffer{})
	}
	return auxWorld
}

// canonArray reads dimensions and elements through aref, not through the printer.
func canonArray(b *strings.Builder, a *gl.Array, depth int) {
	dims, elems, err := arrayParts(a)
	if err != nil {
		b.WriteString("<ARRAY? " + err.Error() + ">")
		return
	}
	fmt.Fprintf(b, "#%v[", dims)
	for i, e := range elems {
		if i > 0 {
			b.WriteByte(' ')
		}
		canonElem(b, e, depth+1)
	}
	b.WriteByte(']')
}

func callFn(w *gl.World, name string, args ...gl.Node) (gl.Node, error) {
	f, err := w.GetFunc(gl.NewSymbol(name))
	if err != nil {
		return nil, err
	}
	return f.Call(context.Background(), w, gl.UnevalList(args...))
}

func arrayParts(a *gl.Array) ([]int, []gl.Node, error) {
	w := aux()
	d, err := callFn(w, "array-dimensions", a)
	if err != nil {
		return nil, nil, err
	}
	dims := []int{}
	for c, ok := d.(*gl.Cons); ok; c, ok = c.Cdr.(*gl.Cons) {
		n, ok := c.Car.(gl.Integer)
		if !ok {
			return nil, nil, errors.New("non-integer dimension")
		}
		dims = append(dims, int(n))
	}
	if len(dims) == 0 {
		v, err := callFn(w, "aref", a)
		if err == nil && v != gl.Node(a) {
			return dims, []gl.Node{v}, nil
		}
		return dims, nil, nil
	}
	total := 1
	for _, d := range dims {
		total *= d
	}
	if total > 100000 {
		return nil, nil, errors.New("too large")
	}
	elems := []gl.Node{}
	idx := make([]int, len(dims))
	for k := 0; k < total; k++ {
		args := []gl.Node{a}
		for _, i := range idx {
			args = append(args, gl.Integer(i))
		}
		v, err := callFn(w, "aref", args...)
		if err != nil {
			return nil, nil, err
		}
		elems = append(elems, v)
		for j := len(idx) - 1; j >= 0; j-- {
			idx[j]++
			if idx[j] < dims[j] {
				break
			}
			idx[j] = 0
		}
	}
	return dims, elems, nil
}

// ---- monitored interpreter ------------------------------------------------------

// Mon is a World whose program can emit events through (ev x ...), which the host records.
type Mon struct {
	W      *gl.World
	Out    bytes.Buffer
	Err    bytes.Buffer
	Events []string
	MaxEv  int
}

func newMon() *Mon {
	m := &Mon{MaxEv: 100000}
	w := gl.New()
	w.SetStdout(&m.Out)
	w.SetErrout(&m.Err)
	ev := &gl.Function{F: func(ctx context.Context, _ *gl.World, args []gl.Node) (gl.Node, error) {
		parts := make([]string, len(args))
		for i, a := range args {
			parts[i] = canon(a)
		}
		if len(m.Events) < m.MaxEv {
			m.Events = append(m.Events, strings.Join(parts, " "))
		}
		if len(args) == 0 {
			return gl.Null, nil
		}
		return args[len(args)-1], nil
	}}
	cn := &gl.Function{C: 1, F: func(ctx context.Context, w *gl.World, args []gl.Node) (gl.Node, error) {
		return condData(w, args[0]), nil
	}}
	m.W = w.Flet(gl.Functions{gl.NewSymbol("ev"): ev, gl.NewSymbol("class-name*"): cn})
	return m
}

func (m *Mon) Run(src string) Outcome { return interp(m.W, src) }

func (m *Mon) Take() []string {
	e := m.Events
	m.Events = nil
	return e
}

func trace(evs []string, o Outcome) string {
	return strings.Join(evs, ";") + " => " + o.String()
}

// condData describes a condition by its class and its data, read through the public accessors.
func condData(w *gl.World, c gl.Node) gl.Node {
	n := c.ClassOf().Name()
	get := func(f string) gl.Node {
		v, err := callFn(w, f, c)
		if err != nil {
			return gl.String("accessor failed: " + err.Error())
		}
		return v
	}
	switch n.String() {
	case "<domain-error>":
		return gl.List(n, get("domain-error-object"), get("domain-error-expected-class"))
	case "<division-by-zero>":
		return gl.List(n, get("arithmetic-error-operands"))
	case "<unbound-variable>", "<undefined-function>":
		return gl.List(n, get("undefined-entity-name"), get("undefined-entity-namespace"))
	case "<simple-error>":
		return gl.List(n, get("simple-error-format-string"), get("simple-error-format-arguments"))
	case "<control-error>":
		return gl.List(n)
	}
	return gl.NewSymbol("other")
}
