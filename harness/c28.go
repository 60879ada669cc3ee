package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	gl "github.com/hymkor/gmnlisp"
)

// C28: interpreters in different goroutines. Every case runs a child process of the race-instrumented
// build: its goroutines start at a barrier, so that everything the package initialises on first use is
// initialised by all of them at once. The monitors are the race detector, the runtime's own checks
// (concurrent map access, deadlock) and the comparison with the same programs run one after the other.

type c28Mix struct {
	Prop string
	Idx  int
}

type c28Prog struct {
	Steps  []string
	Parsed int // 1: Steps[0] was parsed once for all the goroutines that run it
}

type c28Job struct {
	Seed    int64
	Tier    string
	Gor     [][]c28Prog
	Mix     [][]c28Mix
	Symbols int // names each goroutine interns
	Writes  int // of the shared global variable
	Cancel  bool
	Trace   int // calls of a traced function, by each of the two goroutines that trace it
	Procs   int
}

type c28Res struct {
	Out     [][][]string // goroutine, program, step
	MixFail [][]string   // goroutine, case: what failed, or ""
	Evals   int64
	Bad     []string // violations seen by the child itself
	Counts  map[string]int
}

// inChild is true in the process that runs goroutines.
var inChild bool

var c28Gensym = regexp.MustCompile(`-gensym-\d+-|0x[0-9a-f]{5,}|(function to|not support type:) [^\n]*`)

func (p c28Prog) run(nodes []gl.Node) (res []string) {
	m := newMon()
	for i, s := range p.Steps {
		m.Events = nil
		var o Outcome
		if i == 0 && nodes != nil {
			o = guard(func() (gl.Node, error) { return m.W.InterpretNodes(newFuel(defaultFuel, errFuel), nodes) })
		} else {
			o = m.Run(s)
		}
		t := trace(m.Events, o)
		if o.Kind == "error" && o.Class != "error" && !strings.Contains(o.Msg, "{") {
			t += " " + o.Msg
		}
		t += " out=" + m.Out.String() + m.Err.String()
		m.Out.Reset()
		m.Err.Reset()
		res = append(res, c28Gensym.ReplaceAllString(t, "*"))
	}
	return
}

func c28RunMix(x c28Mix, seed int64, tier, dir, suffix string) (string, int64) {
	var b bytes.Buffer
	ws := &workerState{counters: map[string]int64{}, hashes: map[uint64]struct{}{}, out: bufio.NewWriter(&b)}
	runOneAs(props[x.Prop], seed, tier, x.Idx, dir, ws, suffix)
	ws.out.Flush()
	if ws.fails == 0 {
		return "", ws.evals
	}
	return b.String(), ws.evals
}

func c28Child(args []string) int {
	inChild = true
	debug.SetMaxStack(maxStack)
	go func(parent int) {
		for os.Getppid() == parent {
			time.Sleep(time.Second)
		}
		os.Exit(3)
	}(os.Getppid())
	var job c28Job
	b, err := os.ReadFile(args[0])
	if err != nil || json.Unmarshal(b, &job) != nil {
		return 3
	}
	runtime.GOMAXPROCS(job.Procs)
	res := c28Res{Counts: map[string]int{}}
	res.Out = make([][][]string, len(job.Gor))
	res.MixFail = make([][]string, len(job.Mix))
	evals := make([]int64, len(job.Gor)+len(job.Mix)+64)
	var bad []string
	var badMu sync.Mutex
	badf := func(f string, a ...any) {
		badMu.Lock()
		if len(bad) < 10 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
		badMu.Unlock()
	}
	parsed := map[string][]gl.Node{}
	for _, ps := range job.Gor {
		for _, p := range ps {
			if p.Parsed > 0 && parsed[p.Steps[0]] == nil {
				if ns, err := gl.ReadAll(strings.NewReader(p.Steps[0])); err == nil {
					parsed[p.Steps[0]] = ns
				}
			}
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, ps := range job.Gor {
		wg.Add(1)
		go func(i int, ps []c28Prog) {
			defer wg.Done()
			<-start
			for _, p := range ps {
				var ns []gl.Node
				if p.Parsed > 0 {
					ns = parsed[p.Steps[0]]
				}
				r := p.run(ns)
				evals[i] += int64(len(r))
				res.Out[i] = append(res.Out[i], r)
			}
		}(i, ps)
	}
	for i, xs := range job.Mix {
		wg.Add(1)
		go func(i int, xs []c28Mix) {
			defer wg.Done()
			dir := filepath.Join(args[2], fmt.Sprintf("m%d", i))
			os.MkdirAll(dir, 0o700)
			<-start
			for _, x := range xs {
				r, n := c28RunMix(x, job.Seed, job.Tier, dir, fmt.Sprintf("-m%d", i))
				evals[len(job.Gor)+i] += n
				res.MixFail[i] = append(res.MixFail[i], r)
			}
		}(i, xs)
	}
	// symbols: one name, one symbol, whoever interned it first
	const nsym = 6
	ids := make([]map[string]gl.Node, nsym)
	kws := make([]map[string]gl.Node, nsym)
	gen := make([][]gl.Node, nsym)
	for i := 0; job.Symbols > 0 && i < nsym; i++ {
		ids[i], kws[i] = map[string]gl.Node{}, map[string]gl.Node{}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := newRng(job.Seed, "C28s", i)
			<-start
			w := gl.New()
			for k := 0; k < job.Symbols; k++ {
				n := fmt.Sprintf("c28-%d", r.N(job.Symbols))
				s := gl.NewSymbol(n)
				if s.String() != n {
					badf("symbol %q is called %q", n, s.String())
				}
				if old, ok := ids[i][n]; ok && old != gl.Node(s) {
					badf("two symbols are called %q", n)
				}
				ids[i][n] = s
				kw := gl.NewKeyword(":" + n)
				if kw.String() != ":"+n {
					badf("keyword %q is called %q", ":"+n, kw.String())
				}
				kws[i][n] = kw
				if k%3 == 0 {
					g, err := w.Interpret(context.Background(), "(gensym)")
					if err != nil {
						badf("gensym: %v", err)
						continue
					}
					gen[i] = append(gen[i], g)
				}
			}
		}(i)
	}
	seen := make([]int, 3)
	// one writer and some readers of a global variable, which all interpreters share
	if job.Writes > 0 {
		if _, err := gl.New().Interpret(context.Background(), "(defglobal *c28-shared* 0)"); err != nil {
			badf("defglobal: %v", err)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := gl.New()
			<-start
			for k := 1; k <= job.Writes; k++ {
				if o := interp(w, fmt.Sprintf("(setq *c28-shared* %d)", k)); o.Kind != "value" {
					badf("setq of a global variable: %s", o.Full())
					return
				}
			}
		}()
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				w := gl.New()
				<-start
				last := int64(-1)
				for k := 0; k < job.Writes; k++ {
					o := interp(w, "*c28-shared*")
					n, ok := o.Node.(gl.Integer)
					if !ok || int64(n) < last || int(n) > job.Writes {
						badf("a reader of the global variable saw %s after %d", o.Full(), last)
						return
					}
					if int64(n) != last {
						seen[i]++
					}
					last = int64(n)
				}
			}(i)
		}
	}
	// a loop is stopped by the host from another goroutine
	if job.Cancel {
		for i := 0; i < 3; i++ {
			wg.Add(1)
			ctx, cancel := context.WithCancel(context.Background())
			running := make(chan struct{})
			var once sync.Once
			go func(i int) {
				defer wg.Done()
				m := newMon()
				w := m.W.Flet(gl.Functions{gl.NewSymbol("alive"): &gl.Function{F: func(context.Context, *gl.World, []gl.Node) (gl.Node, error) {
					once.Do(func() { close(running) })
					return gl.Null, nil
				}}})
				<-start
				loop := []string{"(while t (alive))", "(labels ((f (x) (alive) (f (+ x 1)))) (f 0))", "(tagbody a (alive) (go a))"}[i]
				o := guard(func() (gl.Node, error) { return w.Interpret(ctx, loop) })
				if o.Kind != "error" || ctx.Err() == nil {
					badf("a cancelled loop %s gave %s", loop, o.Full())
				}
			}(i)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-running
				time.Sleep(time.Millisecond)
				cancel()
			}()
			res.Counts["cancelled"]++
		}
	}
	close(start)
	wg.Wait()
	for _, n := range evals {
		res.Evals += n
	}
	byName := map[string]gl.Node{}
	byNode := map[gl.Node]string{}
	for i := range ids {
		for n, s := range ids[i] {
			if old, ok := byName[n]; ok && old != s {
				badf("goroutines got different symbols for %q", n)
			}
			byName[n] = s
			if old, ok := byNode[s]; ok && old != n {
				badf("%q and %q are one symbol", n, old)
			}
			byNode[s] = n
		}
	}
	kwName := map[string]gl.Node{}
	for i := range kws {
		for n, s := range kws[i] {
			if old, ok := kwName[n]; ok && old != s {
				badf("goroutines got different keywords for %q", n)
			}
			kwName[n] = s
		}
	}
	gens := map[gl.Node]bool{}
	for i := range gen {
		for _, g := range gen[i] {
			if gens[g] || byNode[g] != "" {
				badf("gensym %s was made twice", g)
			}
			gens[g] = true
		}
	}
	res.Counts["changes-seen"] = seen[0] + seen[1] + seen[2]
	res.Counts["symbols"] = len(byNode)
	res.Counts["gensyms"] = len(gens)
	res.Bad = bad
	out, _ := json.Marshal(&res)
	if os.WriteFile(args[1], out, 0o600) != nil {
		return 3
	}
	return 0
}

func init() { extraModes["c28child"] = c28Child }

// c28Lanes are the properties whose cases run in goroutines beside each other: those of the first lane
// anywhere, those of the others, which define global variables or classes of fixed names, in a
// goroutine of their own.
var c28Lanes = [][]string{
	strings.Fields("C02 C03 C04 C06 C07 C09 C10 C12 C22 C23 C24"),
	{"C08"}, {"C11"}, {"C13"}, {"C19", "C20"},
}

var c28Texts = []string{
	`(defclass <c@> () ((a :initarg a :reader c@-a :initform 3)))¦(c@-a (create (class <c@>)))¦(progn (defclass <d@> (<c@>) ((b :initarg b :accessor d@-b))) (defgeneric g@ (x)) (defmethod g@ ((x <c@>)) (list 'c (c@-a x))) (defmethod g@ ((x <d@>)) (list 'd (d@-b x) (call-next-method))))¦(g@ (create (class <d@>) 'a 1 'b 2))¦(list (instancep (create (class <c@>)) (class <d@>)) (subclassp (class <d@>) (class <c@>)) (subclassp (class <c@>) (class <d@>)) (eq (class-of (create (class <c@>))) (class <c@>)) (equal (class <c@>) (class <d@>)))¦(catch 'k (with-handler (lambda (c) (throw 'k (instancep c (class <undefined-function>)))) (g@ 5)))`,
	`(defglobal *a@* 1)¦(setq *a@* (+ *a@* 1))¦(let ((*a@* 7)) (list *a@*))¦*a@*¦(defconstant *k@* 5)¦(list *k@* *a@*)`,
	`(defdynamic *dy* 1)¦(defun dy () (dynamic *dy*))¦(list (dynamic-let ((*dy* 5)) (dy)) (dy))¦(catch 'z (dynamic-let ((*dy* 6)) (throw 'z (dy))))¦(set-dynamic 9 *dy*)¦(dy)`,
	`(defun f (x) (* x 2))¦(f 5)¦(defmacro mm (x) (list 'f (list 'f x)))¦(mm 5)¦(defun f (x) (- x))¦(mm 5)`,
	`(let ((h (make-hash-table))) (for ((i 0 (+ i 1))) ((>= i 200)) (setf (gethash i h) (* i i))) (list (gethash 150 h) (hash-table-count h)))`,
	`(let ((s (create-string-output-stream))) (format s "~a ~s ~d ~x ~o ~b ~c ~g ~%~&~10t|" 'a "b" 12 255 8 5 #\c 1.5) (format-integer s 255 16) (format-float s 2.5) (format-char s #\z) (format-object s '(1 "x" #\y) t) (get-output-stream-string s))`,
	`(list (=~ "a(b+)c" "xxabbbcxx") (=~ "[0-9]+" "ab12") (=~i "ABC" "xxabc") (=~ "q.q" "none"))¦(list (=~ "a(b+)c@" "abc") (=~ "(x)(y)" "xy"))`,
	`(subst 9 1 '(1 2 (1 3)))`,
	`(list (convert 65 <character>) (convert "12" <integer>) (convert "1.5" <float>) (convert 'abc <string>) (convert "sym-@" <symbol>) (convert '(1 2) <general-vector>) (parse-number "1e3"))`,
	`(list '|a b@| 'x@ :k@ '#2a((1 2) (3 4)) #(1 "s" #\c) 123456789012345678901234567890 1.5e10)`,
	`(let ((s (create-string-input-stream "(a@ b . c) \"str\" 12 |x y|"))) (list (read s) (read s) (read s) (read s) (read s nil 'eof)))`,
	`(with-standard-input (create-string-input-stream "line one
line two") (list (read-line) (read-char) (read)))`,
	`(block b (with-handler (lambda (c) (return-from b (list 'caught (report-condition c (create-string-output-stream)) (arithmetic-error-operands c)))) (/ 1 0)))`,
	`(catch 'q (with-handler (lambda (c) (continue-condition c 8)) (+ 1 (cerror "go" "bad ~a" 5))))¦(catch 'q (with-handler (lambda (c) (throw 'q (list (undefined-entity-name c) (undefined-entity-namespace c)))) (no-such-fn@ 1)))¦(undefined-fn-@ 1)¦undefined-var-@¦(throw 'nobody 1)¦(car 5)¦(error "e ~a" 1)`,
	`(labels ((fib (n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2)))))) (fib 13))¦(labels ((lp (n a) (if (= n 0) a (lp (- n 1) (+ a n))))) (lp 5000 0))`,
	`(let ((r nil)) (tagbody a (setq r (cons 1 r)) (if (< (length r) 20) (go a))) (unwind-protect (catch 'x (throw 'x r)) (setq r nil)))`,
	`(let ((a (create-array '(3 4) 0)) (v (create-vector 5 'x)) (s (create-string 4 #\q))) (set-aref 7 a 1 2) (setf (aref v 2) 'y) (setf (elt s 1) #\日) (list (aref a 1 2) (array-dimensions a) v s (subseq s 1 3)))`,
	`(let ((l (list 5 3 9))) (setf (nth 1 l) 'z) (setf (car l) 'h) (push 1 l) (incf (elt l 3)) (list l (reverse l) (nreverse l)))`,
	`(list (mapcar #'+ '(1 2) '(3 4)) (mapcan #'list '(1 2)) (maplist #'length '(a b)) (append '(1) '(2) '(3)) (assoc 'b '((a 1) (b 2))) (member 3 '(1 2 3 4)))`,
	`(list (sqrt 2) (expt 2 100) (exp 1) (log 10) (sin 1) (atan 1) (floor 7.5) (mod -7 3) (gcd 12 18) (lcm 4 6) (isqrt 99) (max 1 2.5 3) (quotient 7 2) (* 99999999999 99999999999))`,
	`(case 3 ((1 2) 'a) ((3) 'b) (t 'c))¦(cond ((assoc 'x '((y 1))) 1) (t 2))¦(let* ((x 1) (y (+ x 1))) (setq x 5) (list x y))¦(dolist (i '(1 2 3)) i)¦(prog1 1 2)¦(when t 1 2)¦(unless t 1 2)`,
	`(set-property 5 's@ 'n)¦(list (property 's@ 'n) (remove-property 's@ 'n) (property 's@ 'n))`,
	`(macroexpand '(when a b c))¦(list (let ((g (gensym))) (eq g g)) (eq (gensym) (gensym)))¦(defmacro sw@ (a b) (let ((tmp (gensym))) (list 'let (list (list tmp a)) (list 'setq a b) (list 'setq b tmp))))¦(let ((x 1) (y 2)) (sw@ x y) (list x y))`,
	`(string-append "a" "b@")¦(list (string< "a" "b") (char< #\a #\b) (string-index "b" "abc") (char-index #\c "abc") (length "日本") (elt "日本" 1))`,
	`(let ((s (create-string-output-stream))) (report-condition (create (class <simple-error>) 'format-string "e~a@" 'format-arguments '(5)) s) (get-output-stream-string s))`,
	`(with-open-output-file (o "c28-@.tmp") (format o "line ~a~%(datum ~s)" 1 "x"))¦(with-open-input-file (i "c28-@.tmp") (list (read-line i) (read i) (read-char i nil 'eof)))¦(with-open-io-file (i "c28-@.tmp") (list (read-line i)))¦(list (probe-file "c28-@.tmp") (file-length "c28-@.tmp" 8))`,
	`(progn (format t "out@ ~a~%" 1) (format (standard-output) "x") (format (error-output) "err@") (princ 5) (print "z"))`,
}

var c28SkipCall = regexp.MustCompile(`exit|quit|abort|file|open|delete|rename|time|internal|defglobal|defconstant|defclass|defgeneric|defmethod|command|wildcard|probe|random|dump-session|<c[ab]>|c01ht|defdynamic|standard-input|\(read|posix`)

func (c *Case) c28Text(suffix string) c28Prog {
	t := strings.ReplaceAll(pick(c.R, c28Texts), "@", suffix)
	return c28Prog{Steps: strings.Split(t, "¦")}
}

func (c *Case) c28Random(suffix string) c28Prog {
	g := newGen(c.R, featAll, c.R.In(30, 100))
	g.suffix, g.idioms = suffix, c01Idioms
	forms := g.program(c.R.In(1, 2), c.R.In(2, 5))
	in := newRef()
	in.Limit = 60000
	if in.Run(forms).Kind == "limit" {
		return c28Prog{}
	}
	t := srcs(forms)
	return c28Prog{Steps: []string{t}}
}

func (c *Case) c28Calls(n int) c28Prog {
	p := c28Prog{Steps: []string{c28CallPrelude}}
	for len(p.Steps) <= n {
		t := pick(c.R, c01Calls)
		s := c01Fill(t, func(int) string {
			if c.R.P(20) {
				return pick(c.R, c01Odd)
			}
			return ""
		})
		if !c28SkipCall.MatchString(s) && !strings.Contains(s, "host") {
			p.Steps = append(p.Steps, s)
		}
	}
	return p
}

const c28CallPrelude = `(progn (defun c01cond () (catch 'k (with-handler (lambda (c) (throw 'k c)) (car 5)))) (defun c01cond2 () (catch 'k (with-handler (lambda (c) (throw 'k c)) (error "a~a" 1)))) (defun c01cond3 () (catch 'k (with-handler (lambda (c) (throw 'k c)) nowhere))) (defun c01cond4 () (catch 'k (with-handler (lambda (c) (throw 'k c)) (/ 1 0)))))`

func (c *Case) c28Lib(suffix string) c28Prog {
	p := c28Prog{}
	for i := c.R.In(2, 8); i > 0; i-- {
		u := pick(c.R, libUses)
		p.Steps = append(p.Steps, strings.ReplaceAll(strings.ReplaceAll(u.src, "lib-", "lib"+suffix+"-"), "*lib", "*lib"+suffix))
	}
	return p
}

func (c *Case) c28Prog(suffix string) c28Prog {
	switch c.R.N(10) {
	case 0, 1, 2:
		if p := c.c28Random(suffix); p.Steps != nil {
			return p
		}
	case 3, 4:
		return c.c28Calls(c.R.In(3, 15))
	case 5, 6:
		return c.c28Lib(suffix)
	}
	return c.c28Text(suffix)
}

func (c *Case) c28Job() c28Job {
	j := c28Job{Seed: int64(c.R.U64() >> 2), Tier: "quick", Procs: c.R.In(2, 6)}
	suf := func(g, k int) string { return fmt.Sprintf("%dx%dx%d", c.Idx, g, k) }
	ng := c.R.In(3, 8)
	switch c.Idx % 4 {
	case 0: // the cases of other monitors
		for g := 0; g < ng; g++ {
			var xs []c28Mix
			lane := c28Lanes[0]
			if lanes := c28Lanes[1:]; g < len(lanes) && c.R.P(60) {
				lane = lanes[g]
			}
			for k := c.R.In(2, 6); k > 0; k-- {
				xs = append(xs, c28Mix{pick(c.R, lane), 16 + c.R.N(4000)})
			}
			j.Mix = append(j.Mix, xs)
		}
		c.Count("job.monitors", 1)
	case 1: // different programs
		for g := 0; g < ng; g++ {
			var ps []c28Prog
			for k := c.R.In(3, 10); k > 0; k-- {
				ps = append(ps, c.c28Prog(suf(g, k)))
			}
			j.Gor = append(j.Gor, ps)
		}
		c.Count("job.programs", 1)
	case 2: // one program, everywhere at once
		for k := c.R.In(1, 4); k > 0; k-- {
			p := c.c28Prog(fmt.Sprintf("%dq%d", c.Idx, k))
			shared := c.R.P(40)
			for g := 0; g < ng; g++ {
				q := c28Prog{}
				for _, s := range p.Steps {
					// the names of globals are each goroutine's own
					q.Steps = append(q.Steps, strings.ReplaceAll(s, fmt.Sprintf("%dq%d", c.Idx, k), suf(g, k)))
				}
				if shared && q.Steps[0] == p.Steps[0] {
					q.Parsed = 1
				}
				if len(j.Gor) <= g {
					j.Gor = append(j.Gor, nil)
				}
				j.Gor[g] = append(j.Gor[g], q)
				c.Count("parsed-once", q.Parsed)
			}
		}
		c.Count("job.same", 1)
	case 3: // the tables all interpreters share, and the host
		j.Symbols = c.R.In(50, 400)
		j.Writes = c.R.In(20, 200)
		j.Cancel = c.R.P(50)
		for g := 0; g < 3; g++ {
			p := c.c28Text(suf(g, 0))
			if c.R.P(50) {
				p = c28Prog{Steps: strings.Split(strings.ReplaceAll(c28Texts[c.R.N(2)], "@", suf(g, 0)), "¦")}
			}
			j.Gor = append(j.Gor, []c28Prog{p})
		}
		// a function is traced in some interpreters, and called under the same name in the others
		j.Trace = c.R.In(1, 30)
		for g := 0; g < 4; g++ {
			p := c28Prog{Steps: []string{"(defun c28-traced (x) (+ x 1))"}}
			if g < 2 {
				p.Steps = append(p.Steps, "(trace c28-traced)")
			}
			for k := 0; k < j.Trace; k++ {
				p.Steps = append(p.Steps, "(c28-traced 5)")
			}
			if g < 2 {
				p.Steps = append(p.Steps, "(trace)", "(c28-traced 5)")
			}
			j.Gor = append(j.Gor, []c28Prog{p})
		}
		c.Count("job.tables", 1)
	}
	return j
}

func (c *Case) c28Spawn(j c28Job, try int) (res *c28Res, how, stderr string) {
	bin := os.Getenv("VMON_RACE")
	if bin == "" {
		bug("VMON_RACE is not set")
	}
	dir := filepath.Join(c.Dir, fmt.Sprintf("c28-%d-%d", c.Idx, try))
	os.MkdirAll(dir, 0o700)
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(&j)
	in, out, errp := filepath.Join(dir, "job"), filepath.Join(dir, "res"), filepath.Join(dir, "stderr")
	os.WriteFile(in, b, 0o600)
	errf, _ := os.Create(errp)
	defer errf.Close()
	cmd := exec.Command(bin, "c28child", in, out, dir)
	cmd.Dir = dir
	cmd.Stderr, cmd.Stdout = errf, errf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=exitcode=66 halt_on_error=1 atexit_sleep_ms=20 history_size=3", "GOMEMLIMIT=2GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		bug("cannot start the child: %v", err)
	}
	timer := time.AfterFunc(60*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	stopped := timer.Stop()
	eb, _ := os.ReadFile(errp)
	stderr = string(eb)
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		how = "race"
	case !stopped:
		how = "stuck"
	case err != nil:
		how = "abort"
	default:
		rb, _ := os.ReadFile(out)
		res = &c28Res{}
		if json.Unmarshal(rb, res) != nil {
			return nil, "abort", "no result\n" + stderr
		}
	}
	return
}

func c28Head(s string, n int) string {
	for _, k := range []string{"WARNING: DATA RACE", "fatal error:", "panic:"} {
		if i := strings.Index(s, k); i >= 0 {
			return firstLines(s[i:], n)
		}
	}
	return firstLines(s, n)
}

func c28Run(c *Case) {
	j := c.c28Job()
	show := func() string { b, _ := json.Marshal(&j); return string(b) }
	res, how, stderr := c.c28Spawn(j, 0)
	c.Eval()
	if how == "stuck" { // twice, or the machine was busy
		res, how, stderr = c.c28Spawn(j, 1)
	}
	if how != "" {
		want := map[string]string{"race": "no data race", "stuck": "the goroutines end", "abort": "the process survives"}[how]
		if how == "abort" && !strings.Contains(stderr, "fatal error:") && !strings.Contains(stderr, "panic:") {
			bug("child: %s", c28Head(stderr, 20))
		}
		c.Fail(how, show(), want, c28Head(stderr, 60))
		return
	}
	if n := strings.Count(stderr, ": (c28-traced"); n != 2*j.Trace {
		c.Fail("trace", show(), fmt.Sprintf("%d traced calls", 2*j.Trace), fmt.Sprintf("%d: %s", n, clip(stderr, 500)))
	}
	c.Count("traced-calls", 2*j.Trace)
	for _, b := range res.Bad {
		c.Fail("tables", show(), "one table of symbols, classes and global variables", b)
	}
	for k, n := range res.Counts {
		c.Count(k, n)
	}
	c.Count("evaluations.concurrent", int(res.Evals))
	c.Count("goroutines", len(j.Gor)+len(j.Mix))
	for g, ps := range j.Gor {
		for k, p := range ps {
			want := p.run(nil)
			c.Eval()
			c.Count("programs", 1)
			c.Distinct(strings.Join(p.Steps, "\n"))
			got := res.Out[g][k]
			for i := range want {
				if i >= len(got) || got[i] != want[i] {
					gi := "nothing"
					if i < len(got) {
						gi = got[i]
					}
					c.Fail("interference", strings.Join(p.Steps[:i+1], "\n")+"\n;; beside\n"+show(), "as alone: "+want[i], gi)
					return
				}
			}
		}
	}
	for g, xs := range j.Mix {
		for k, x := range xs {
			c.Count("cases", 1)
			c.Eval()
			c.Distinct(fmt.Sprintf("%s %d %d", x.Prop, x.Idx, j.Seed))
			if f := res.MixFail[g][k]; f != "" {
				os.Setenv("VMON_NOSHRINK", "1")
				alone, _ := c28RunMix(x, j.Seed, j.Tier, c.Dir, fmt.Sprintf("-m%d", g))
				if alone != "" {
					c.Count("fails-alone", 1)
					continue
				}
				c.Fail("interference", fmt.Sprintf("%s case %d (seed %d)\n;; beside\n%s", x.Prop, x.Idx, j.Seed, show()), "the monitor is satisfied, as when the case runs alone", clip(f, 3000))
				return
			}
		}
	}
	if len(j.Gor) > 0 && len(j.Gor[0]) > 0 {
		c.Sample(fmt.Sprintf("%d goroutines, first: %s => %s", len(j.Gor), strings.Join(j.Gor[0][0].Steps, " "), strings.Join(res.Out[0][0], " ")))
	}
}

func init() {
	register(&Prop{ID: "C28", Quick: 1200, Thorough: 12000, NoLimit: true, Run: c28Run,
		Rule:   "every case is a process of the race-instrumented build whose goroutines start at one barrier: cases of the other monitors beside each other, different programs beside each other, one program (parsed once or by each) everywhere at once, and hammering of the tables all interpreters share; the race detector and the runtime's own checks must stay silent and every result must be the one of the same program run alone; a program or case counts once by its text",
		Need:   []string{"job.monitors", "job.programs", "job.same", "job.tables", "symbols", "gensyms", "cancelled", "parsed-once"},
		Assume: []string{"each interpreter is used by one goroutine at a time; the programs of different goroutines define no global variable, constant or class of the same name, which are shared by design"}})
}
