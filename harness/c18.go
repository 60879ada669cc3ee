package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	gl "github.com/hymkor/gmnlisp"
)

// stepCtx is done after n polls and records whether a poll has seen it done.
type stepCtx struct {
	n        int64
	err      error
	polls    int64
	after    int64 // polls which found it done
	open     chan struct{}
	closed   chan struct{}
	pollsTop int64
}

func newStep(n int64, err error) *stepCtx {
	c := &stepCtx{n: n, err: err, open: make(chan struct{}), closed: make(chan struct{})}
	close(c.closed)
	return c
}

func (c *stepCtx) poll() bool {
	c.polls++
	if c.polls > c.n {
		c.after++
		return true
	}
	return false
}
func (c *stepCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *stepCtx) Done() <-chan struct{} {
	if c.poll() {
		return c.closed
	}
	return c.open
}
func (c *stepCtx) Err() error {
	if c.after > 0 || c.poll() {
		c.after++
		return c.err
	}
	return nil
}
func (c *stepCtx) Value(any) any { return nil }

// evHook is the ev of C18: an ordinary host function, of which it is known how many calls are still evaluating their arguments.
type evHook struct {
	inner *gl.Function
	depth int
}

func (e *evHook) Call(ctx context.Context, w *gl.World, args gl.Node) (gl.Node, error) {
	e.depth++
	defer func() { e.depth-- }()
	return e.inner.Call(ctx, w, args)
}

type canMon struct {
	W       *gl.World
	M       *Mon
	hook    *evHook
	cancelN int // the event which cancels; 0 none
	cancel  func()
	done    bool
	after   int             // events after the cancellation
	pending int             // calls of ev which had begun before the cancellation
	clock   context.Context // the clock which cancels; nil for none
}

// c18Slack is how many events may follow the cancellation besides those already begun: the interpreter polls the context at
// every call, so none are expected; a few are no violation of "a bounded number of steps".
const c18Slack = 2

func newCanMon() *canMon {
	k := &canMon{M: newMon()}
	m := k.M
	k.hook = &evHook{}
	stop := func() {
		k.done = true
		k.pending = k.hook.depth - 1
		k.cancel()
	}
	k.hook.inner = &gl.Function{F: func(ctx context.Context, _ *gl.World, args []gl.Node) (gl.Node, error) {
		parts := make([]string, len(args))
		for i, a := range args {
			parts[i] = canon(a)
		}
		m.Events = append(m.Events, strings.Join(parts, " "))
		if k.done {
			k.after++
		}
		if !k.done && k.cancelN > 0 && len(m.Events) >= k.cancelN {
			stop()
		}
		if k.clock != nil && len(m.Events) == 100000 {
			<-k.clock.Done() // on a busy machine the clock may be late
		}
		if len(m.Events) > 400000 {
			return nil, errors.New("vmon: too many events")
		}
		if len(args) == 0 {
			return gl.Null, nil
		}
		return args[len(args)-1], nil
	}}
	fail := &gl.Function{F: func(ctx context.Context, _ *gl.World, args []gl.Node) (gl.Node, error) {
		if k.cancelN > 0 && !k.done {
			k.pending = k.hook.depth
			k.done = true
			k.cancel()
		}
		return nil, errors.New("host failure")
	}}
	k.W = m.W.Flet(gl.Functions{gl.NewSymbol("ev"): k.hook, gl.NewSymbol("host-fail"): fail})
	m.W = k.W
	return k
}

func newCanReady() *canMon {
	k := newCanMon()
	if o := k.run(newFuel(defaultFuel, errFuel), c18Prelude); o.Kind != "value" {
		bug("c18 prelude: %s", o.Full())
	}
	return k
}

func (k *canMon) run(ctx context.Context, src string) Outcome {
	k.M.Events = nil
	k.M.Out.Reset()
	k.after, k.done, k.pending = 0, false, 0
	k.hook.depth = 0
	return guard(func() (gl.Node, error) { return k.W.Interpret(ctx, src) })
}

// c18Gen makes an endless or long program around which things are wrapped.
type c18Gen struct {
	r   *Rng
	n   int
	dir string
}

func (g *c18Gen) id() int { g.n++; return g.n }

func (g *c18Gen) ev() string { return fmt.Sprintf("(ev %d)", g.id()) }

// seq is a run of plain calls
func (g *c18Gen) seq() string {
	var b strings.Builder
	for i := g.r.W(40, 30, 20, 10) * g.r.In(1, 4); i > 0; i-- {
		b.WriteString(g.ev())
		b.WriteByte(' ')
	}
	return b.String()
}

func (g *c18Gen) small() string {
	return pick(g.r, []string{g.ev(), "(ev (+ 1 2))", "(ev x)", "(setq x (+ x 1))", "(format t \"a\")", "(ev (ev 3))", "(car '(1))", "(ignore-errors (car 5))", "(catch 'q (throw 'q 1))", "(block b (return-from b (ev 4)))", "(mapcar #'ev '(1 2 3))", "(ignore-errors (host-fail))",
		"(funcall (lambda (y) (ev y)) x)", "(let ((y 1)) (ev y))", "(ev (dynamic *p*))", "(unwind-protect (ev 5) (ev 6))", "(ev (funcall #'tail 3))", "(nothing)", "(with-handler (lambda (c) (continue-condition c 0)) (+ 1 (ev 7)))", "(ignore-errors (error \"x\"))", "(ev (gen x))", "(my-m (ev 8))", "x", "1", "(ev (if (= x 3) 'a 'b))",
		"(catch 'h (with-handler (lambda (c) (ev 'handled) (throw 'h 1)) (host-fail)))", "(catch 'h (with-handler (lambda (c) (ev 'handled) (throw 'h 1)) (car 5)))", "(case x ((1) (ev 1)) (t (ev 2)))", "(cond ((ev nil) 1) (t (ev 2)))", "(for ((i 0 (+ i 1))) ((> i 2)) (ev i))", "(dolist (e '(1 2)) (ev e))", "(dotimes (i 2) (ev i))", "(and (ev 1) (ev nil))", "(apply #'ev '(1 2))"})
}

func (g *c18Gen) body() string {
	s := ""
	for i := g.r.W(15, 40, 30, 15); i > 0; i-- {
		s += g.small() + " "
	}
	return s
}

// endless never ends by itself and has no error leave it.
func (g *c18Gen) endless(d int) string {
	b := g.body()
	if d > 0 && g.r.P(30) {
		b += "(ignore-errors " + g.wrap(g.small(), d-1) + ")"
	}
	in := "(ignore-errors " + b + ")"
	if g.r.P(50) {
		in = "(catch 'out (ignore-errors " + b + "))"
	}
	f := fmt.Sprintf("f%d", g.id())
	switch g.r.N(26) {
	case 0:
		return "(while t)"
	case 1:
		return "(while t 1)"
	case 2:
		return "(while t " + in + ")"
	case 3:
		return "(while (ev t))"
	case 4:
		return "(tagbody a (go a))"
	case 5:
		return "(tagbody a " + in + " (go a))"
	case 6:
		return "(tagbody a (go b) c (ev 'no) b " + in + " (go a))"
	case 7:
		return "(for ((i 0 (+ i 1))) (nil) " + in + ")"
	case 8:
		return "(for ((i 0 (ev i))) ((ev nil)))"
	case 9:
		return "(labels ((" + f + " (n) " + in + " (" + f + " (+ n 1)))) (" + f + " 0))"
	case 10:
		return "(labels ((" + f + " (n) (if (< n 0) 'no (" + f + " (+ n 1))))) (" + f + " 0))"
	case 11:
		return "(labels ((" + f + " (n) (ev n) (h" + f + " n)) (h" + f + " (n) (cond ((< n 0) 'no) (t (" + f + " (+ n 1)))))) (" + f + " 0))"
	case 12:
		return "(progn (defun " + f + " (n) " + in + " (" + f + " n)) (" + f + " 0))"
	case 13:
		return "(progn (defun " + f + " () (" + f + ")) (" + f + "))"
	case 14:
		return "(while t (ignore-errors (car 5)))"
	case 15:
		return "(while t (catch 'k (throw 'k 1)))"
	case 16:
		return "(while t (catch 'k (with-handler (lambda (c) (throw 'k 1)) (car 5))))"
	case 17:
		return "(while t (with-handler (lambda (c) (continue-condition c 1)) (cerror \"a\" \"b\")))"
	case 18:
		return "(while t (block b (return-from b 1)))"
	case 19:
		return "(while t (while x (ev 1) (setq x nil)) (setq x 1))"
	case 20:
		return "(catch 'never (with-handler (lambda (c) (while t " + in + ")) (car 5)))"
	case 21:
		return "(unwind-protect (ev 1) (while t " + in + "))"
	case 22:
		return "(unwind-protect (while t " + in + ") (while t (ev 'cleanup)))"
	case 23:
		return "(let ((go-on t)) (while go-on " + in + "))"
	case 24:
		return "(labels ((" + f + " (n) (ev n) (+ 1 (" + f + " n)))) (" + f + " 0))"
	}
	return "(while t (unwind-protect (ignore-errors " + b + ") (ev 'cleanup)))"
}

// long ends after many steps.
func (g *c18Gen) long() string {
	n := g.r.In(3, 200)
	return pick(g.r, []string{
		fmt.Sprintf("(dotimes (i %d) (ev i) %s)", n, g.small()),
		fmt.Sprintf("(mapc (lambda (e) (ev e)) (create-list %d 1))", n),
		fmt.Sprintf("(mapcar #'ev (create-list %d 2))", n),
		fmt.Sprintf("(let ((i 0)) (while (< i %d) (setq i (+ i 1)) (ev i)))", n),
		fmt.Sprintf("(progn %s)", strings.Repeat("(ev 1) ", n)),
		fmt.Sprintf("(list %s)", strings.Repeat("(ev 1) ", n)),
		fmt.Sprintf("(let* (%s) 1)", strings.Repeat("(v (ev 1)) ", n%20+1)),
		fmt.Sprintf("(and %s)", strings.Repeat("(ev 1) ", n)),
		fmt.Sprintf("(cond %s)", strings.Repeat("((ev nil) 1) ", n)),
		fmt.Sprintf("(or %s)", strings.Repeat("(ev nil) ", n)),
		fmt.Sprintf("(setf %s)", "x (ev 5)"),
		fmt.Sprintf("(vector %s)", strings.Repeat("(ev 1) ", n)),
		fmt.Sprintf("(for ((i 0 (+ i 1))) ((= i %d)) (ev i))", n),
		fmt.Sprintf("(ignore-errors (dolist (e (create-list %d 1)) (ev e) %s))", n, g.small()),
		fmt.Sprintf("(tail %d)", n),
		fmt.Sprintf("(tagbody a (setq x (+ (ev 1) x)) (if (< x %d) (go a)))", n+5),
		fmt.Sprintf("(maplist (lambda (l) (ev (length l))) (create-list %d 1))", n%40),
		fmt.Sprintf("(map-into (create-list %d 1) (lambda () (ev 1)))", n%40),
		fmt.Sprintf("(with-handler (lambda (c) %s (continue-condition c (ev 5))) (list (cerror \"a\" \"b\") (ev 6)))", strings.Repeat("(ev 1) ", n)),
		g.seq() + g.small(),
	})
}

func (g *c18Gen) wrap(b string, d int) string {
	for ; d > 0; d-- {
		h := g.seq()
		switch g.r.N(36) {
		case 0:
			b = "(ignore-errors " + h + b + ")"
		case 1:
			b = "(catch 'out (with-handler (lambda (c) (ev 'handler) (throw 'out (ev 9))) " + h + b + "))"
		case 2:
			b = "(with-handler (lambda (c) (ev 'handler) (continue-condition c 5)) " + h + b + ")"
		case 3:
			b = "(with-handler (lambda (c) (ev 'declines)) " + b + ")"
		case 4:
			b = "(catch '" + pick(g.r, []string{"t1", "out", "k"}) + " " + h + b + ")"
		case 5:
			b = "(unwind-protect (progn " + h + b + ") (ev 'cleanup) " + g.seq() + ")"
		case 6:
			b = "(block out " + h + b + ")"
		case 7:
			b = "(dynamic-let ((*p* 99)) " + h + b + ")"
		case 8:
			b = "(let ((s (create-string-output-stream))) (format s \"in\") " + h + b + ")"
		case 9:
			b = "(flet ((f () " + h + b + ")) (f))"
		case 10:
			b = "((lambda () " + h + b + "))"
		case 11:
			b = "(let ((x (ev 1))) " + h + b + ")"
		case 12:
			b = "(mapcar (lambda (x) " + b + ") '(1 2))"
		case 13:
			b = "(funcall (lambda () " + h + b + "))"
		case 14:
			b = "(apply (lambda (a b) " + h + b + ") '(1 2))"
		case 15:
			b = "(progn " + h + b + " (ev 'after) " + g.seq() + ")"
		case 16:
			b = "(list (ev 1) " + b + " (ev 'after))"
		case 17:
			b = "(ev " + b + ")"
		case 18:
			b = "(if " + b + " (ev 'after) (ev 'after))"
		case 19:
			b = "(my-m " + b + ")"
		case 20:
			b = "(let* ((x (ev 2)) (y " + b + ") (z (ev 'after))) (ev 'after))"
		case 21:
			b = "(while t " + h + b + " (ev 'round))"
		case 22:
			b = "(setq x " + b + ")"
		case 23:
			b = "(unwind-protect (ev 1) " + h + b + " (ev 'after))"
		case 24:
			b = "(catch 'out (with-handler (lambda (c) " + h + b + " (throw 'out 1)) (car 5)))"
		case 25:
			b = "(with-handler (lambda (c) " + b + " (continue-condition c (ev 'after))) (cerror \"a\" \"b\"))"
		case 26:
			b = "(case " + b + " ((1) (ev 'after)) (t (ev 'after)))"
		case 27:
			b = "(cond (" + b + " (ev 'after)) (t (ev 'after)))"
		case 28:
			b = "(gen " + b + ")"
		case 29:
			b = "(with-open-input-file (in \"" + filepath.Join(g.dir, "in.txt") + "\") (ev (read-line in)) " + b + ")"
		case 30:
			b = "(with-open-output-file (o" + fmt.Sprint(g.id()) + " \"" + filepath.Join(g.dir, fmt.Sprintf("o%d.txt", g.id())) + "\") " + h + b + ")"
		case 31:
			b = "(ignore-errors (error \"%s\" " + b + "))"
		case 32:
			b = "(tagbody " + h + b + " (ev 'after) x (ev 'after))"
		case 33:
			b = "(with-standard-input (create-string-input-stream \"abc\") (ev (read-char)) " + b + ")"
		case 34:
			b = "(with-open-output-file (o" + fmt.Sprint(g.id()) + " \"" + filepath.Join(g.dir, fmt.Sprintf("q%d.txt", g.id())) + "\") " + h + b + ")"
		case 35:
			b = "(and (ev 1) " + b + " (ev 'after))"
		}
	}
	return b
}

const c18Prelude = `(defdynamic *p* 10) (defmacro my-m (a) (list 'progn '(ev 'm) a)) (defun tail (n) (ev n) (if (= n 0) 'end (tail (- n 1)))) (defgeneric gen (a)) (defmethod gen ((a <object>)) (ev 'method) a) `

// c18Idle checks that nothing of the cancelled evaluation is left.
func (c *Case) c18Idle(k *canMon, text string) {
	c.idle(k.M, text)
	for _, tag := range []string{"'out", "'k", "'q", "'h", "'never"} {
		o := k.run(newFuel(defaultFuel, errFuel), "(throw "+tag+" 0)")
		if o.Kind != "error" || o.Class != "<control-error>" || len(k.M.Events) != 0 {
			c.Fail("stale-catch", text+"\n(throw "+tag+" 0)", "<control-error> without any handler call", trace(k.M.Events, o)+o.Full())
		}
	}
	o := k.run(newFuel(defaultFuel, errFuel), `(list (format t "z") (dynamic *p*) (eql (standard-output) (standard-output)) (tail 3) (gen 5) (my-m 6) (ignore-errors (read-char (standard-input) nil 'eof)))`)
	c.Eval()
	if got := trace(k.M.Events, o) + " " + k.M.Out.String(); got != `3;2;1;0;'"method";'"m" => (nil 10 t '"end" 5 6 '"eof") z` {
		c.Fail("not-idle", text, `3;2;1;0;'"method";'"m" => (nil 10 t '"end" 5 6 '"eof") z`, got+o.Full())
	}
	if l := openFiles(c.Dir); len(l) > 0 {
		c.Fail("open files", text, "no file left open", strings.Join(l, " "))
	}
}

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func tailOf(l []string) string {
	if len(l) > 30 {
		l = append([]string{fmt.Sprintf("(%d events)", len(l)-30)}, l[len(l)-30:]...)
	}
	return strings.Join(l, ";")
}

func c18Run(c *Case) {
	r := c.R
	os.WriteFile(filepath.Join(c.Dir, "in.txt"), []byte("line\nline\n"), 0o644)
	text := ""
	infinite := false
	switch r.W(45, 30, 25) {
	case 0:
		g := &c18Gen{r: r, dir: c.Dir}
		text = "(let ((x 1)) " + g.wrap(g.endless(2), r.N(6)) + ")"
		infinite = true
	case 1:
		g := &c18Gen{r: r, dir: c.Dir}
		text = "(let ((x 1)) " + g.wrap(g.long(), r.N(5)) + ")"
		infinite = strings.Contains(text, "(while t ")
	case 2:
		forms, _ := c.genProg(featAll, r.In(1, 2), r.In(2, 5), r.In(40, 120), c01Idioms)
		text = srcs(forms)
	}
	src := text
	c.Note(src)
	const cap = 6000 // polls an endless program is given
	// the uncancelled run
	full := newCanReady()
	fc := newStep(cap, errFuel)
	fo := full.run(fc, src)
	fev := full.M.Events
	fout := full.M.Out.String()
	c.Eval()
	natural := fc.after == 0
	if fo.Kind == "panic" {
		c.Fail("panic", src, "no panic", fo.Full())
		return
	}
	total := fc.polls
	if !natural {
		total = cap
		c.Count("endless", 1)
		if !errors.Is(fo.Err, errFuel) {
			c.Fail("not the context's error", src+fmt.Sprintf("\n;; cancelled at poll %d", cap), "the context's error", tailOf(fev)+" => "+fo.Full())
			return
		}
	} else {
		c.Count("ends", 1)
	}
	_ = infinite
	c.Count("events", len(fev))
	if fc.polls-fc.n > 0 {
		c.Count("polls after", int(fc.after))
	}
	check := func(what string, k *canMon, o Outcome, ctxErr error, observed bool) bool {
		c.Eval()
		c.Count("cancelled: "+what, 1)
		in := src + "\n;; " + what
		full := natural && o.String() == fo.String() && len(k.M.Events) == len(fev)
		switch {
		case o.Kind == "panic":
			c.Fail("panic", in, "no panic", o.Full())
			return false
		case o.Kind == "error" && errors.Is(o.Err, ctxErr):
			c.Count("stopped by the context", 1)
		case full:
			c.Count("had just ended", 1)
		case !observed && natural:
			c.Fail("not cancelled, but differs", in, tailOf(fev)+" => "+fo.String(), tailOf(k.M.Events)+" => "+o.Full())
			return false
		default:
			c.Fail("not the context's error", in, "the context's error", tailOf(k.M.Events)+" => "+o.Full())
			return false
		}
		if natural || len(k.M.Events) <= len(fev) {
			if !isPrefix(k.M.Events, fev) {
				c.Fail("events after the cancellation", in, "a prefix of "+strings.Join(fev, ";"), strings.Join(k.M.Events, ";"))
				return false
			}
		} else if !isPrefix(fev, k.M.Events) {
			c.Fail("events differ", in, tailOf(fev), tailOf(k.M.Events))
			return false
		}
		if out := k.M.Out.String(); natural && !strings.HasPrefix(fout, out) {
			c.Fail("output after the cancellation", in, fout, out)
			return false
		}
		if k.after > k.pending+c18Slack {
			c.Fail("goes on after the cancellation", in, fmt.Sprintf("at most %d more events", k.pending+c18Slack), fmt.Sprintf("%d more events, among them %s", k.after, tailOf(k.M.Events)))
			return false
		}
		return true
	}
	finish := func(k *canMon, in string) {
		c.c18Idle(k, in)
		if natural && r.P(50) {
			// the whole program again, in the same interpreter: as if nothing had happened, if it is a program which can be repeated
			o1 := full.run(newFuel(defaultFuel, errFuel), src)
			if o1.String() == fo.String() && strings.Join(full.M.Events, ";") == strings.Join(fev, ";") && full.M.Out.String() == fout {
				o2 := k.run(newFuel(defaultFuel, errFuel), src)
				c.Eval()
				c.Count("run again", 1)
				if o2.String() != fo.String() || strings.Join(k.M.Events, ";") != strings.Join(fev, ";") || k.M.Out.String() != fout {
					c.Fail("run again", in, tailOf(fev)+" => "+fo.String(), tailOf(k.M.Events)+" => "+o2.Full())
				}
			}
		}
	}
	ok := true
	for i := 0; ok && i < 4; i++ {
		// at a poll
		n := int64(r.N(int(total) + 1))
		if total > 40 && r.P(50) {
			n = int64(r.N(40))
		}
		if total > 40 && r.P(20) {
			n = total - int64(r.N(40))
		}
		e := pick(r, []error{context.Canceled, context.DeadlineExceeded, errFuel, errors.New("own error")})
		k := newCanReady()
		sc := newStep(n, e)
		o := k.run(sc, src)
		what := fmt.Sprintf("cancelled at poll %d", n)
		ok = check("at a poll", k, o, e, sc.after > 0)
		if ok && sc.after == 0 && !natural {
			c.Fail("not cancelled", src+"\n;; "+what, "endless", o.Full())
			ok = false
		}
		if ok && r.P(40) {
			finish(k, src+"\n;; "+what)
		}
	}
	for i := 0; ok && i < 3 && len(fev) > 0; i++ {
		// in a host function
		k := newCanReady()
		k.cancelN = r.In(1, len(fev))
		if r.P(60) {
			k.cancelN = r.In(1, min(len(fev), 30))
		}
		var ctx context.Context
		e := context.Canceled
		if r.P(25) {
			var cf context.CancelCauseFunc
			ctx, cf = context.WithCancelCause(context.Background())
			k.cancel = func() { cf(errors.New("cause")) }
		} else {
			parent, cf := context.WithCancel(context.Background())
			k.cancel = cf
			ctx = parent
			if r.P(30) {
				child, cf2 := context.WithTimeout(parent, time.Hour)
				defer cf2()
				ctx = child
			}
		}
		o := k.run(ctx, src)
		n := k.cancelN
		k.cancelN = 0
		ok = check("in event", k, o, e, true)
		if ok && r.P(40) {
			finish(k, src+fmt.Sprintf("\n;; cancelled in event %d", n))
		}
		k.cancel()
	}
	if ok && r.P(25) {
		// before
		ctx, cf := context.WithCancel(context.Background())
		e := error(context.Canceled)
		if r.P(40) {
			cf()
			ctx, cf = context.WithDeadline(context.Background(), time.Unix(0, 0))
			e = context.DeadlineExceeded
		} else {
			cf()
		}
		k := newCanMon()
		o := k.run(ctx, src)
		ok = check("before", k, o, e, true)
		if ok && len(k.M.Events) > c18Slack {
			c.Fail("goes on after the cancellation", src+"\n;; cancelled before", "no events", tailOf(k.M.Events))
		}
		if ok && natural {
			// the first use of an interpreter under a finished context leaves it complete
			k.run(newFuel(defaultFuel, errFuel), c18Prelude)
			o := k.run(newFuel(defaultFuel, errFuel), src)
			c.Eval()
			if o.String() != fo.String() || strings.Join(k.M.Events, ";") != strings.Join(fev, ";") {
				c.Fail("run again", src+"\n;; first under a finished context", tailOf(fev)+" => "+fo.String(), tailOf(k.M.Events)+" => "+o.Full())
			}
		}
		cf()
	}
	if ok && !natural && r.P(6) {
		// by a clock, from outside
		k := newCanReady()
		d := time.Duration(r.N(3000)) * time.Microsecond
		ctx, cf := context.WithTimeout(context.Background(), d)
		k.clock = ctx
		o := k.run(ctx, src)
		k.clock = nil
		cf()
		// how much the program did depends on the clock: the events are not compared beyond the common prefix
		ok = check("by a clock", k, o, context.DeadlineExceeded, true)
		if ok {
			c.c18Idle(k, src+"\n;; cancelled by a clock")
		}
	}
	c.Distinct(src)
	c.Sample(text)
}

func init() {
	register(&Prop{
		ID: "C18", Quick: 9000, Thorough: 150000, Run: c18Run,
		Rule: "endless, long and random programs wrapped in handlers, ignore-errors, catch, cleanup, dynamic bindings, redirections and open files; each cancelled at random polls of its context, in random calls of a host function, before it starts and by a clock; the result must be the context's error, the events and the output a prefix of the uncancelled run with nothing beyond the calls already begun, and the interpreter idle and able to run the program again; distinct by program",
		Need: []string{"endless", "ends", "cancelled: at a poll", "cancelled: in event", "cancelled: before", "cancelled: by a clock", "stopped by the context", "run again", "events"},
		Assume: []string{"cleanup forms of a cancelled program need not run; up to two events after the cancellation count as prompt",
			"programs are deterministic apart from the cancellation"},
	})
}
