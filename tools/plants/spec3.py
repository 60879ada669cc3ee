# Planted bugs, third series. See mk.py.
plants = []
def P(id, prop, needs, breaks, edits, **kw):
    plants.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw))

def gorace(setup, body):
    "a Go demonstration built with the race detector: body runs in 8 goroutines released together; demo.sh starts in /repo and has changed to a scratch folder"
    return '''repo=${OLDPWD}
cat > "$d/demo.go" <<'GO'
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"sync"

	"github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/regexp"
)

func run(w *gmnlisp.World, code, want string) {
	if v, err := w.Interpret(context.Background(), code); err != nil || v.String() != want {
		fmt.Println(code, v, err)
		os.Exit(1)
	}
}

func main() {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			w := gmnlisp.New()
			var out bytes.Buffer
			w.SetStdout(&out)
			%s
			_ = g
		}()
	}
	%s
	close(start)
	wg.Wait()
}
GO
cd "$repo" && go build -race -o "$d/demo" "$d/demo.go" || exit 2
cd "$d/w" && GORACE=halt_on_error=1 timeout 200 "$d/demo"
''' % (body, setup)

P('C28-regexp-cache', 'C28', 'two interpreters in two goroutines which use =~ for the first time with some pattern',
  'the cache of compiled patterns, shared by all interpreters, is written without a lock',
  [('pkg/regexp/main.go', '''		var err error
		reg, err = regexp.Compile(pattern)
		if err != nil {
			return nil, "", MakeError(err, pattern)
		}
''', '''		compiled, err := regexp.Compile(pattern)
		if err != nil {
			return nil, "", MakeError(err, pattern)
		}
		regexpCache[pattern] = compiled
		reg = compiled
''')],
  sh=gorace('', '''for i := 0; i < 200; i++ {
				run(w, fmt.Sprintf("(=~ \\"a%d\\" \\"a%d\\")", i*(g+1), i*(g+1)), fmt.Sprintf("((a%d))", i*(g+1)))
			}'''))
P('C28-symbol-twice', 'C28', 'two goroutines which read the same new name for the first time at the same moment',
  'one name becomes two symbols: what one interpreter defined under it the other does not find',
  [('atom.go', '''	if id, ok := idm.name2id[name]; ok {
		return id
	}
	if idm.name2id == nil {''', '''	if idm.name2id == nil {''')],
  go='''
package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/hymkor/gmnlisp"
)

func main() {
	for round := 0; round < 20000; round++ {
		name := fmt.Sprintf("name%d", round)
		var got [8]gmnlisp.Symbol
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range got {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[g] = gmnlisp.NewSymbol(name)
			}()
		}
		close(start)
		wg.Wait()
		for _, s := range got {
			if s.Id() != got[0].Id() {
				fmt.Println(name, "is", s.Id(), "and", got[0].Id())
				os.Exit(1)
			}
		}
	}
}
''')
P('C28-token-buffer', 'C28', 'two goroutines which parse at the same time',
  'the tokenizer keeps the characters of a token in a buffer shared by all goroutines',
  [('pkg/parser/tokenize.go', '''func readtokenWord(r io.RuneScanner) (string, error) {
	var buffer strings.Builder
''', '''var tokenBuffer strings.Builder

func readtokenWord(r io.RuneScanner) (string, error) {
	buffer := &tokenBuffer
	buffer.Reset()
''')],
  sh=gorace('', '''for i := 0; i < 1000; i++ {
				name := fmt.Sprintf("variable-%d-%d", g, i)
				run(w, "(quote "+name+")", name)
			}'''))
P('C28-rune-buffer', 'C28', 'two goroutines which write characters beyond ASCII with format-char or ~C at the same time',
  'a character is encoded in a buffer shared by all streams',
  [('world.go', '''func (w *_WriterNode) WriteRune(c rune) (int, error) {
	var buffer [utf8.UTFMax]byte
	size := utf8.EncodeRune(buffer[:], c)
''', '''var runeBuffer [utf8.UTFMax]byte

func (w *_WriterNode) WriteRune(c rune) (int, error) {
	buffer := &runeBuffer
	size := utf8.EncodeRune(buffer[:], c)
''')],
  sh=gorace('', '''c := string(rune(0x3042 + g))
			run(w, "(let ((i 0)) (while (< i 5000) (format-char (standard-output) #\\\\\\\\"+c+") (setq i (+ i 1))) i)", "5000")
			if out.String() != string(bytes.Repeat([]byte(c), 5000)) {
				fmt.Println("wrong output")
				os.Exit(1)
			}'''.replace('\\\\\\\\', '\\\\')))
P('C28-startup-shared', 'C28', 'several interpreters whose first evaluations run at the same time',
  'the parsed library is kept in a variable of the package which is filled without a lock',
  [('world.go', '''func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
	w.startup.Do(func() {
		compiled, err := ReadAll(strings.NewReader(startupCode))
		if err != nil {
			panic(err.Error())
		}
''', '''var startupNodes []Node

func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
	w.startup.Do(func() {
		if startupNodes == nil {
			nodes, err := ReadAll(strings.NewReader(startupCode))
			if err != nil {
				panic(err.Error())
			}
			startupNodes = nodes
		}
		compiled := startupNodes
''')],
  sh=gorace('', '''run(w, "(progn (set-property 1 'a 'b) (property 'a 'b))", "1")'''))

PTY = r'''
cat > "$d/drive.py" <<'PY'
import os, pty, re, select, struct, sys, time, fcntl, termios
prog, texts, want = sys.argv[1], eval(sys.argv[2]), sys.argv[3]
pid, fd = pty.fork()
if pid == 0:
    os.environ['TERM'] = 'xterm'
    os.environ.pop('GOREADLINESKK', None)
    os.execv(prog, [prog])
fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', 50, 200, 0, 0))
out, status = b'', None
def pump(seconds):
    "reads until nothing came for that long"
    global out
    while select.select([fd], [], [], seconds)[0]:
        try: b = os.read(fd, 65536)
        except OSError: return False
        if not b: return False
        out += b
    return True
time.sleep(0.5)
alive = pump(1.0)
for t in texts:
    for ch in t:
        if not alive: break
        try: os.write(fd, ch.encode())
        except OSError: alive = False
        alive = alive and pump(0.03)
    mark = len(out)
    alive = alive and pump(0.5)
for i in range(20):
    p, s = os.waitpid(pid, os.WNOHANG)
    if p: status = os.waitstatus_to_exitcode(s); break
    pump(0.1)
if status is None:
    os.kill(pid, 9); os.waitpid(pid, 0)
shown = re.sub(r'\x1b\[[0-9;?]*[A-Za-z]', '', out.decode(errors='replace')) + '\nstatus %s\n' % status
if not re.search(want, shown):
    print('not shown:', want); print(repr(shown)[-500:]); sys.exit(1)
PY
drive() { timeout 120 python3 "$d/drive.py" "$d/g" "$@"; }
'''
P('C29-joined-lines', 'C29', 'a text of several lines with a comment in a line that is not the last, or a string with a line end',
  'the lines of a text are joined by spaces: a comment swallows the following lines',
  [('cmd/gmnlisp/main.go', 'code := strings.Join(lines, "\\n")', 'code := strings.Join(lines, " ")')],
  sh=PTY + r'''drive '["(list 1 ; one\r", "(+ 20 22))\r"]' '\(1 42\)'
''')
P('C29-quote-per-line', 'C29', 'a string over several lines with a parenthesis in its second line',
  'whether a text is complete is decided as if every line began outside of strings',
  [('cmd/gmnlisp/main.go', '''		quote := false
		count := 0
		for _, line := range lines {
''', '''		count := 0
		for _, line := range lines {
			quote := false
''')],
  sh=PTY + r'''drive '["(length (list \"a\r", "b (c\" 7 8 (+ 1 2)))\r"]' '\n4\s'
''')
P('C29-fresh-after-error', 'C29', 'a definition, then an error, then a use of the definition',
  'after an error the session goes on in a new interpreter',
  [('cmd/gmnlisp/main.go', '''			fmt.Fprintln(os.Stderr, err.Error())
			continue
''', '''			fmt.Fprintln(os.Stderr, err)
			lisp = gmnlisp.New()
			continue
''')],
  sh=PTY + r'''drive '["(defun f (x) (* x 111))\r", "(car 1)\r", "(f 3)\r"]' '\n333\s'
''')
P('C29-recall-first-line', 'C29', 'a text of several lines recalled from the history and submitted again',
  'only the first line of a text goes into the history',
  [('cmd/gmnlisp/main.go', 'history.Add(code)', 'history.Add(lines[0])')],
  sh=PTY + r'''drive '["(list 12\r", "(* 3 4))\r", "(car (list 9))\r", "\x10\x10", "\r"]' '\n\(12 12\)(.|\n)*\n\(12 12\)'
''')
P('C29-quit-wrapped', 'C29', 'quit called inside a form which adds to the errors that pass through it',
  'quit inside such a form is reported as an error and the session goes on',
  [('cmd/gmnlisp/main.go', '''			if errors.Is(err, gmnlisp.ErrQuit) {
				return nil''', '''			if err == gmnlisp.ErrQuit {
				return nil''')],
  sh=PTY + r'''drive '["(progn (list 1 (quit)))\r"]' 'status 0'
''')

P('C30-dump-nil', 'C30', 'gmn:dump-session inside a let which binds a variable of an outer scope to nil',
  'a variable bound to nil is shown a second time with the value of the outer scope',
  [('world.go', '''				marked[key] = struct{}{}
''', '''				if IsSome(val) {
					marked[key] = struct{}{}
				}
''') , ('world.go', '			if _, ok := marked[key]; !ok {', '			if _, done := marked[key]; !done {')],
  sh='''
echo "(let ((x 1)) (let ((x nil)) (gmn:dump-session)))" > p.lsp
"$d/g" p.lsp > out 2>&1
test "$(grep -c '^(x ' out)" = 1 || { grep '^(x ' out; exit 1; }
''')
P('C30-epoch-local', 'C30', 'get-universal-time in a process whose time zone is not UTC',
  'the seconds are counted from 1900 in local time',
  [('misc.go', '''	start := time.Date(1900, time.Month(1), 1, 0, 0, 0, 0, time.UTC)
	now := time.Now()
	duration := now.Sub(start)
''', '''	now := time.Now()
	start := time.Date(1900, time.Month(1), 1, 0, 0, 0, 0, now.Location())
	duration := now.Sub(start)
''')],
  go='''
package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/hymkor/gmnlisp"
)

func main() {
	time.Local = time.FixedZone("X", 9*3600)
	v, err := gmnlisp.New().Interpret(context.Background(), "(get-universal-time)")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	want := time.Now().Unix() + 2208988800
	if d := int64(v.(gmnlisp.Integer)) - want; d < -5 || d > 5 {
		fmt.Println("off by", d)
		os.Exit(1)
	}
}
''')
P('C30-load-limit', 'C30', 'load of a file of more than 64 KiB',
  'only the first 64 KiB of a file are loaded',
  [('cmds.go', '''	script, err := os.ReadFile(fname.String())
	if err != nil {
		return nil, err
	}
	return w.InterpretBytes(ctx, script)''', '''	fd, err := os.Open(fname.String())
	if err != nil {
		return nil, err
	}
	defer fd.Close()
	script := make([]byte, 65536)
	n, err := fd.Read(script)
	if err != nil && n > 0 {
		return nil, err
	}
	return w.InterpretBytes(ctx, script[:n])''')],
  sh='''
{ for i in $(seq 1 6553); do echo "(+ 1 111)"; done; echo "     "; echo '(format t "end of the file~%")'; } > big.lsp
echo '(load "big.lsp")' > p.lsp
"$d/g" p.lsp > out 2>&1
grep -q 'end of the file' out || { cat out; exit 1; }
''')
P('C30-load-each-form', 'C30', 'load of a file whose end is cut off',
  'load evaluates the forms before the place where the file becomes unreadable',
  [('cmds.go', '	return w.InterpretBytes(ctx, script)', '''	br := strings.NewReader(string(script))
	var result Node = Null
	for {
		node, err := ReadNode(br)
		if err == io.EOF {
			return result, nil
		}
		if err != nil {
			return nil, err
		}
		if result, err = w.InterpretNodes(ctx, []Node{node}); err != nil {
			return nil, err
		}
	}'''), ('cmds.go', '''	"errors"
''', '''	"errors"
	"io"
''')],
  sh='''
printf '(format t "evaluated~%%")\\n(list 1' > cut.lsp
echo '(load "cut.lsp")' > p.lsp
"$d/g" p.lsp > out 2>&1
! grep -q evaluated out
''')
P('C30-shown-princ', 'C30', 'expand-defun of a function with a string or a quoted symbol in bars in its body',
  'the shown definition lacks the quotes of strings',
  [('lambda.go', 'fmt.Fprintln(w.stdout, result.GoString())', 'fmt.Fprintln(w.stdout, result.String())')],
  lisp='''
(defun greet (x) (string-append "hello " x))
(expand-defun greet)
''')

P('C04-empty-rest', 'C04', 'a function with a :rest parameter named like a visible variable and called without remaining arguments',
  'the parameter is not bound: the outer variable is seen instead',
  [('lambda.go', '''	if L.rest != nulSymbol {
		var values Node = nil''', '''	if L.rest != nulSymbol && IsSome(n) {
		var values Node = nil''')],
  lisp='''
(defglobal more '(outer))
(defun f (x :rest more) (list x more))
(format t "~s ~s~%" (f 1 2) (f 1))
''')
P('C06-go-out-of-cleanup', 'C06', 'a cleanup form which calls go',
  'go out of a cleanup form is carried out instead of being an error',
  [('progn.go', '''		var e3 *_ErrTagBody      // tagbody & go
		if errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {''', '''		if errors.As(err, &e1) || errors.As(err, &e2) {''')],
  lisp='''
(format t "~s~%" (catch 'e (with-handler (lambda (c) (throw 'e (class-of c)))
  (tagbody (unwind-protect 1 (go out)) out) 'left)))
''')
P('C09-round-half', 'C09', 'round of a float beyond 2^52 or of the float just below a half',
  'round adds a half and takes the floor',
  [('operator.go', '''func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
''', '''func halfToEven(f float64) float64 {
	v := math.Floor(f + 0.5)
	if v-f == 0.5 && math.Mod(v, 2) != 0 {
		v--
	}
	return v
}

func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
'''), ('operator.go', 'return floatToInteger(arg, math.RoundToEven)', 'return floatToInteger(arg, halfToEven)'),
  ('operator.go', '''func floatToInteger(arg Node, f func(float64) float64) (Node, error) {
	if value, ok := arg.(Integer); ok {
		return value, nil
	}''', '''func floatToInteger(arg Node, f func(float64) float64) (Node, error) {
	if _, ok := arg.(Integer); ok {
		return arg, nil
	}''')],
  lisp='''
(format t "~s ~s ~s~%" (round 2.5) (round 0.49999999999999994) (round 4503599627370497.0))
''')
P('C09-negate-whole', 'C09', '- with one argument, a float which is a whole number beyond 2^63',
  'a whole float is negated as an integer',
  [('operator.go', '''		class := args[0].ClassOf()
		zero := class.Create()
		z, err := ExpectInterface[canMinus](ctx, w, zero, class)
		if err != nil {
			return nil, err
		}
		return z.Sub(ctx, w, args[0])''', '''		if f, ok := args[0].(Float); ok && f == Float(math.Trunc(float64(f))) {
			return Float(-Integer(f)), nil
		}
		return Integer(0).Sub(ctx, w, args[0])''')],
  lisp='''
(format t "~s ~s ~s ~s~%" (- 5) (- 2.5) (- 3.0) (- 1e300))
''')
P('C11-row-copied', 'C11', 'a row taken out of an array of rank 3 or more by aref, then written through',
  'a row of such an array is a copy: what is stored through it does not reach the array',
  [('array.go', '''		elementSize := dim2size(array.dim[1:])
		array = &Array{
			list: array.list[int(nth)*elementSize : int(nth+1)*elementSize],
			dim:  array.dim[1:],
		}
	}
	return array, nil''', '''		elementSize := dim2size(array.dim[1:])
		row := array.list[int(nth)*elementSize : int(nth+1)*elementSize]
		if len(array.dim) > 2 {
			row = append([]Node{}, row...)
		}
		array = &Array{
			list: row,
			dim:  array.dim[1:],
		}
	}
	return array, nil''')],
  lisp='''
(let* ((a (create-array '(2 2 2) 0)) (row (aref a 1)))
  (set-aref 7 row 0 1)
  (format t "~s ~s~%" (aref row 0 1) (aref a 1 0 1)))
''')
P('C11-rank-five', 'C11', 'an array of rank 5 or more whose last dimension is more than 1',
  'the size of a row is the product of at most three dimensions: elements share their place',
  [('array.go', '''	for _, v := range dim {
		size *= v
	}
	return size
}''', '''	for i := 0; i < len(dim) && i < 3; i++ {
		size *= dim[i]
	}
	return size
}''')],
  lisp='''
(let ((a (create-array '(2 2 2 2 2) 0)))
  (set-aref 7 a 0 1 1 1 1)
  (set-aref 8 a 1 0 0 0 0)
  (format t "~s ~s ~s~%" (aref a 0 1 1 1 1) (aref a 1 0 0 0 0) (aref a 0 1 0 0 0)))
''')
P('C17-splice-buffer', 'C17', 'a macro with :rest whose body calls the same macro, while it is expanded, before it splices its own rest',
  'the spliced forms are those of the inner call',
  [('macro.go', '''	rest    Symbol
	lexical *World
}

var macroClass''', '''	rest    Symbol
	lexical *World
	spliced _JoinedForm
}

var macroClass'''), ('macro.go', '''	joinedForm := _JoinedForm{}
''', '''	joinedForm := m.spliced[:0]
'''), ('macro.go', '''	lexical[NewSymbol("@"+m.rest.String())] = joinedForm
''', '''	m.spliced = joinedForm
	lexical[NewSymbol("@"+m.rest.String())] = m.spliced
''')],
  lisp='''
(defmacro lst (k :rest args)
  (let ((n (if (= k 1) (eval '(lst 0 7 8 9)) nil)))
    `(list ',n ,@args)))
(format t "~s~%" (lst 1 1 2 3))
''')
P('C18-while-condition', 'C18', 'a while loop without a body whose condition is a variable',
  'such a loop is never stopped',
  [('progn.go', '''	for {
		if err := checkContext(ctx); err != nil {
			return nil, err
		}
		cont, err := w.Eval(ctx, cond)''', '''	for {
		if _, ok := cond.(*Cons); ok || IsSome(statements) {
			if err := checkContext(ctx); err != nil {
				return nil, err
			}
		}
		cont, err := w.Eval(ctx, cond)''')],
  go='''
package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/hymkor/gmnlisp"
)

func main() {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
	defer cancel()
	done := make(chan error, 1)
	go func() {
		_, err := gmnlisp.New().Interpret(ctx, "(let ((x 1)) (while x))")
		done <- err
	}()
	select {
	case err := <-done:
		fmt.Println(err)
	case <-time.After(10 * time.Second):
		fmt.Println("still running")
		os.Exit(1)
	}
}
''')
P('C21-embed-shared', 'C21', 'a library function that is used first in one interpreter, where a function it uses was redefined, and then in another',
  'the code of library functions is evaluated once for all interpreters: it calls the functions of the interpreter that used it first',
  [('world.go', '''	fname := "embed/" + symbol.String() + ".lsp"

	script, err := embedLisp.ReadFile(fname)
	if err == nil {
		value := &LispString{S: string(script)}
''', '''	fname := "embed/" + symbol.String() + ".lsp"

	if value, ok := embedLoaded[symbol]; ok {
		rw[symbol] = value
		return value, true
	}
	script, err := embedLisp.ReadFile(fname)
	if found := err == nil; found {
		value := &LispString{S: string(script)}
		embedLoaded[symbol] = value
'''), ('world.go', '''type _RootWorld map[Symbol]Callable
''', '''type _RootWorld map[Symbol]Callable

var embedLoaded = map[Symbol]*LispString{}
''')],
  go='''
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/hymkor/gmnlisp"
)

func main() {
	ctx := context.Background()
	a, b := gmnlisp.New(), gmnlisp.New()
	a.Interpret(ctx, "(defun elt (x n) 'mine)")
	a.Interpret(ctx, "(cadr '(1 2))")
	if v, err := b.Interpret(ctx, "(cadr '(1 2))"); err != nil || v.String() != "2" {
		fmt.Println(v, err)
		os.Exit(1)
	}
}
''')
P('C22-row-last', 'C22', 'setf of a whole row of an array',
  'the last element of a row of three or more is not stored',
  [('array.go', '''	copy(array.list, _newValue.list)
''', '''	n := len(array.list)
	if n > 2 && len(_newValue.list) == n {
		n--
	}
	copy(array.list[:n], _newValue.list)
''')],
  lisp='''
(let ((a (create-array '(2 3) 0)))
  (setf (aref a 1) (vector 7 8 9))
  (format t "~s~%" a))
''')
P('C22-cut-list', 'C22', 'setf of cdr with nil on a cell followed by two or more cells',
  'a list cannot be cut there: it is cut one cell later',
  [('list.go', '''	cons.Cdr = first
	return cons, nil''', '''	last := cons
	if rest, ok := cons.Cdr.(*Cons); ok && IsNone(first) && IsSome(rest.Cdr) {
		last = rest
	}
	last.Cdr = first
	return cons, nil''')],
  lisp='''
(let ((l (list 1 2 3 4)))
  (setf (cdr l) nil)
  (format t "~s~%" l))
''')
P('C23-or-next', 'C23', 'or with the value t in a sub-form that is followed by two or more others',
  'the sub-form after the one that decides is evaluated as well',
  [('operator.go', '''		if IsSome(value) {
			return value, nil
		}
		if IsNone(param) {''', '''		if IsSome(value) {
			if rest, ok := param.(*Cons); ok && value == True && IsSome(rest.Cdr) {
				_, err = w.Eval(ctx, rest.Car)
			}
			return value, err
		}
		if IsNone(param) {''')],
  lisp='''
(let ((n 0))
  (or t (setq n 1) (setq n 2))
  (format t "~s~%" n))
''')
P('C23-case-t-in-list', 'C23', 'case whose key list contains t',
  'a key list which contains t matches every value',
  [('progn.go', '''				_caseValue, list, err = Shift(list)
				if err != nil {
					return nil, err
				}
''', '''				_caseValue, list, err = Shift(list)
				if err != nil {
					return nil, err
				}
				if _caseValue == True {
					return Progn(ctx, w, act)
				}
'''), ('progn.go', '''			var list Node = cons
			for IsSome(list) {
				var _caseValue Node''', '''			for list := Node(cons); IsSome(list); {
				var _caseValue Node''')],
  lisp='''
(format t "~s ~s~%" (case 1 ((t) 'true) ((1) 'one) (t 'other)) (case t ((t) 'true) (t 'other)))
''')
P('C24-long-names', 'C24', 'two properties of one symbol whose names are long and have the same beginning',
  'a long name finds the property whose name is its beginning',
  [('list.go', '''		if key.Equals(cons.Car, STRICT) {
			return cons, nil
		}
	}
	return Null, nil''', '''		if sameKey(key, cons.Car) {
			return cons, nil
		}
	}
	return Null, nil'''), ('list.go', '''// funAssoc implements (assoc KEY LIST)
''', '''func sameKey(key, other Node) bool {
	k, ok1 := key.(Symbol)
	o, ok2 := other.(Symbol)
	if ok1 && ok2 && len(k.String()) > 12 && len(o.String()) >= 12 {
		return k.String()[:12] == o.String()[:12]
	}
	return key.Equals(other, STRICT)
}

// funAssoc implements (assoc KEY LIST)
''')],
  lisp='''
(set-property 1 'thing 'abcdefghijkl-1)
(format t "~s~%" (catch 'e (with-handler (lambda (c) (throw 'e 'missing)) (property 'thing 'abcdefghijkl-2))))
''')
