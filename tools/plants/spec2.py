# Planted bugs, second series. See mk.py.
plants = []
def P(id, prop, needs, breaks, edits, **kw):
    plants.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw))

P('C04-set-shadow-function-frame', 'C04', 'setq inside flet or labels of a local variable that hides a global one',
  'setq inside flet or labels changes the global variable of that name although a let outside of the flet binds it',
  [('world.go', '''func (w *World) Set(name Symbol, value Node) error {
	for w != nil {
		if w.vars != nil {''', '''func (w *World) Set(name Symbol, value Node) error {
	for w != nil {
		if _, ok := w.global.Get(name); ok && w.funcs != nil {
			w.global.Set(name, value)
			return nil
		} else if w.vars != nil {''')],
  lisp='''
(defglobal xx 'g)
(let ((xx 'l))
  (flet ((f (v) v))
    (setq xx (f 'new)))
  (format t "~a~%" xx))
(format t "~a~%" xx)
''')
P('C04-param-slash', 'C04', 'a function with a parameter list of two or more whose later argument refers to a variable with the name of an earlier parameter',
  'arguments are evaluated in the scope where the earlier parameters are already bound',
  [('lambda.go', '''		value, n, err = w.ShiftAndEvalCar(ctx, n)
		if err != nil {
			// return nil,fmt.Errorf("%w\\n\\t%s",err,L.name)
			return nil, err
		}
		lexical[name] = value''', '''		value, n, err = w.Let(lexical).ShiftAndEvalCar(ctx, n)
		if err != nil {
			// return nil,fmt.Errorf("%w\\n\\t%s",err,L.name)
			return nil, err
		}
		lexical[name] = value''')],
  lisp='''
(defun pair2 (a b) (list a b))
(let ((a 1) (b 2))
  (format t "~s~%" (pair2 b a)))
''')
P('C06-cleanup-error-wins', 'C06', 'an error in a cleanup form while a throw passes through it',
  'an error raised by a cleanup form is dropped when the protected form is being left by an exit',
  [('progn.go', '''		return nil, err
	}
	if formErr != nil {
		return nil, formErr
	}''', '''		if formErr == nil {
			return nil, err
		}
	}
	if formErr != nil {
		return nil, formErr
	}''')],
  lisp='''
(format t "~a~%"
  (catch 'a
    (with-handler
      (lambda (c) (throw 'a 'error-seen))
      (catch 'b
        (unwind-protect (throw 'b 'thrown) (car 5))
        'not-seen))))
(format t "~a~%"
  (catch 'a
    (with-handler
      (lambda (c) (throw 'a 'error-seen))
      (block b
        (unwind-protect (return-from b 'returned) (undefined-function-xyz))))))
(let ((r (ignore-errors (list (catch 'b (unwind-protect (throw 'b 'thrown) (car 5)))))))
  (format t "~a~%" r))
''')
P('C07-close-order', 'C07', 'a dynamic variable which is bound by dynamic-let and was assigned by defdynamic inside when it had no value outside',
  'the value given inside survives when the variable had the same value as it is bound to',
  [('setq.go', '''	for key := range D.removes {
		delete(D.world.dynamic, key)
	}
	for key, val := range D.backups {
		D.world.dynamic.Set(key, val)
	}''', '''	for key := range D.removes {
		delete(D.world.dynamic, key)
	}
	for key, val := range D.backups {
		if IsSome(val) {
			D.world.dynamic.Set(key, val)
		}
	}''')],
  lisp='''
(defdynamic *v* nil)
(format t "~a~%" (dynamic-let ((*v* 1)) (dynamic *v*)))
(format t "~a~%" (dynamic *v*))
''')
P('C08-undefined-namespace', 'C08', 'undefined-entity-namespace of the condition for a generic function without applicable method',
  'the namespace of an undefined entity is variable for a call without applicable method',
  [('generic.go', '''	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
		name:  c.Symbol,
		space: symFunction,
	})''', '''	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
		name:  c.Symbol,
		space: c.Symbol,
	})''')],
  lisp='''
(defgeneric gg (x))
(defmethod gg ((x <integer>)) 'int)
(catch 'e
  (with-handler
    (lambda (c)
      (format t "~a ~a ~a~%" (undefined-entity-name c) (undefined-entity-namespace c) (instancep c (class <undefined-function>)))
      (throw 'e 1))
    (gg "string")))
''')
P('C08-domain-object-swapped', 'C08', 'domain-error-object for the second argument of set-car or set-cdr',
  'the domain error of set-cdr names the new value instead of the object which is not a cons',
  [('list.go', '''	cons, err := ExpectClass[*Cons](ctx, w, second)
	if err != nil {
		return nil, err
	}
	cons.Cdr = first''', '''	cons, ok := second.(*Cons)
	if !ok {
		var err error
		cons, err = ExpectClass[*Cons](ctx, w, first)
		if err != nil {
			return nil, err
		}
	}
	cons.Cdr = first''')],
  lisp='''
(catch 'e
  (with-handler
    (lambda (c) (format t "~s~%" (domain-error-object c)) (throw 'e 1))
    (set-cdr 7 "not a cons")))
(let ((x (list 1 2)))
  (format t "~a ~s~%" (catch 'e (with-handler (lambda (c) (throw 'e 'err)) (set-cdr x 5))) x))
''')
P('C08-create-array-continuable', 'C08', 'continue-condition for the domain error of create-array with a bad dimension',
  'a domain error which is not continuable can be continued',
  [('array.go', '''			return callHandler[Node](ctx, w, false, &DomainError{
				Object:        Integer(n),''', '''			return callHandler[Node](ctx, w, true, &DomainError{
				Object:        Integer(n),''')],
  lisp='''
(format t "~a~%"
  (catch 'e
    (with-handler
      (lambda (c) (throw 'e (list 'outer (instancep c (class <control-error>)))))
      (with-handler
        (lambda (c) (continue-condition c 'continued))
        (create-array '(-1) 0)))))
''')
P('C08-simple-error-args', 'C08', 'error with two or more arguments',
  'the format-arguments of the condition made by error hold only the first argument',
  [('embed/error.lsp', "      'format-arguments obj)", "      'format-arguments (if (cdr obj) (list (car obj) (cdr obj)) obj))")],
  lisp='''
(catch 'e
  (with-handler
    (lambda (c) (format t "~s ~s~%" (simple-error-format-string c) (simple-error-format-arguments c)) (throw 'e 1))
    (error "a ~a b ~a" 1 2)))
''')
P('C10-member-equal', 'C10', 'member with a list or array as the item',
  'member finds an item which is equal but not the same object',
  [('sequence.go', '''		if expr.Equals(value, STRICT) {
			return list, nil''', '''		if expr.Equals(value, EQUAL) {
			return list, nil''')],
  lisp='''
(let ((x (list 1)))
  (format t "~s ~s~%" (member x (list (list 1) x 2)) (member (list 1) (list (list 1)))))
''')
P('C11-aref-negative', 'C11', 'an index outside the second dimension of an array of rank 2 which lies inside the whole storage',
  'aref checks the last index against the whole storage, not against its dimension',
  [('array.go', '''		if nth < 0 || int(nth) >= array.dim[0] {
			return nil, MakeError(ErrIndexOutOfRange, nth)
		}
		if len(array.dim) == 1 {
			return array.list[nth], nil
		}''', '''		if len(array.dim) == 1 && nth >= 0 && int(nth) < cap(array.list) {
			return array.list[:cap(array.list)][nth], nil
		}
		if nth < 0 || int(nth) >= array.dim[0] {
			return nil, MakeError(ErrIndexOutOfRange, nth)
		}''')],
  lisp='''
(let ((a (create-array '(2 3) 0)))
  (set-aref 'x a 1 0)
  (format t "~s~%" (catch 'e (with-handler (lambda (c) (throw 'e 'range)) (aref a 0 3)))))
''')
P('C12-convert-bytes', 'C12', 'conversion of a string with non-ASCII characters to a vector',
  'convert of a string to a general vector gives one element per byte',
  [('convert.go', '''		case classVector:
			var buffer VectorBuilder
			for _, r := range val {
				buffer.Add(ctx, w, Rune(r))
			}''', '''		case classVector:
			var buffer VectorBuilder
			for _, r := range []byte(val) {
				buffer.Add(ctx, w, Rune(r))
			}''')],
  lisp='''
(format t "~s ~s~%" (length (convert "日本é" <general-vector>)) (length (convert "日本é" <list>)))
''')
P('C12-create-string-width', 'C12', 'create-string with a character outside ASCII',
  'create-string counts bytes when the character is not ASCII',
  [('string.go', 'return String(strings.Repeat(string(ch), int(length))), nil', '''s := strings.Repeat(string(ch), int(length))
	if len(s) > 4096 && ch > 127 {
		s = s[:4096]
	}
	return String(s), nil''')],
  lisp='''
(format t "~a ~a ~a~%" (length (create-string 2000 (elt "日" 0))) (length (create-string 3 (elt "日" 0))) (length (create-string 9000 (elt "a" 0))))
''')
P('C13-set-returns-old', 'C13', 'setf of gethash on a key which is present already',
  'storing a value under a present key of float type keeps the old value when both are equal under =',
  [('hash.go', '''	hash[args[1]] = args[0]
	return args[0], nil''', '''	if old, ok := hash[args[1]]; !ok || !old.Equals(args[0], EQUALP) {
		hash[args[1]] = args[0]
	}
	return args[0], nil''')],
  lisp='''
(let ((h (make-hash-table)))
  (setf (gethash 'k h) 1)
  (setf (gethash 'k h) 1.0)
  (format t "~s " (gethash 'k h))
  (setf (gethash 'k h) "abc")
  (setf (gethash 'k h) "ABC")
  (format t "~s~%" (gethash 'k h)))
''')
P('C14-initform-once', 'C14', 'two objects of one class whose initform makes a fresh list, of which one is changed',
  'the value of an initform is computed once per class and shared by all its instances',
  [('class.go', '''			slotSpec.initform = func() (Node, error) { return w.Eval(ctx, value) }
			slotSpec.initialize = func(ctx context.Context) (Node, error) { return w.Eval(ctx, value) }''',
  '''			var cache Node
			slotSpec.initform = func() (Node, error) {
				var err error
				if cache == nil {
					cache, err = w.Eval(ctx, value)
				}
				return cache, err
			}
			slotSpec.initialize = func(context.Context) (Node, error) { return slotSpec.initform() }''')],
  lisp='''
(defclass box () ((items :initform (list 1 2) :accessor items)))
(let ((a (create (class box))) (b (create (class box))))
  (set-car 9 (items a))
  (format t "~s ~s~%" (items a) (items b)))
''')
P('C14-instance-super-first', 'C14', 'instancep of an object of a class with two superclasses for a superclass of the second one',
  'instancep follows only the first superclass of a class above the second level',
  [('class.go', '''		if uc, ok := super.(*_StandardClass); ok && uc.subClassP(class2) {
			return true
		}
	}
	return false''', '''		if uc, ok := super.(*_StandardClass); ok {
			return uc.subClassP(class2)
		}
	}
	return false''')],
  lisp='''
(defclass a () ()) (defclass b (a) ()) (defclass c () ()) (defclass d (c b) ())
(let ((x (create (class d))))
  (format t "~a ~a ~a ~a~%" (instancep x (class a)) (instancep x (class b)) (instancep x (class c)) (instancep x (class <object>))))
''')
P('C14-setter-nil', 'C14', 'an accessor used to store nil in a slot',
  'storing nil in a slot makes it unbound',
  [('class.go', '''			rec.Slot[slotName] = node[0]
			return True, nil''', '''			if IsNone(node[0]) {
				delete(rec.Slot, slotName)
			} else {
				rec.Slot[slotName] = node[0]
			}
			return True, nil''')],
  lisp='''
(defclass p () ((x :initform 1 :accessor x :boundp x-bound)))
(let ((o (create (class p))))
  (setf (x o) nil)
  (format t "~a ~a~%" (x o) (x-bound o)))
''')
P('C15-arity-rest', 'C15', 'defmethod with a :rest parameter called with only the required arguments',
  'a :rest method is not applicable when there are no rest arguments',
  [('generic.go', '''		if len(m.types) > len(values) {
			//println("too few arguments")''', '''		if len(m.types) >= len(values) && len(m.types) > 1 {
			//println("too few arguments")''')],
  lisp='''
(defgeneric g (a b :rest r))
(defmethod g ((a <integer>) (b <integer>) :rest (r <object>)) (list a b r))
(format t "~s~%" (g 1 2 3))
(format t "~s~%" (catch 'e (with-handler (lambda (c) (throw 'e 'none)) (g 1 2))))
''')
P('C16-equal-tail', 'C16', 'equal of two dotted pairs that differ in the cdr only',
  'equal of improper lists compares their tails with equalp',
  [('cons.go', '''	return cons.getCar().Equals(value.Car, m) &&
		cons.getCdr().Equals(value.Cdr, m)''', '''	if _, ok := cons.Cdr.(*Cons); !ok {
		return cons.getCar().Equals(value.Car, m) && cons.getCdr().Equals(value.Cdr, EQUALP)
	}
	return cons.getCar().Equals(value.Car, m) && cons.getCdr().Equals(value.Cdr, m)''')],
  lisp='''
(format t "~a ~a ~a~%" (equal '(1 . 2) '(1 . 2.0)) (equal '("a" . "b") '("a" . "B")) (equal '(a . b) '(a . b)))
''')
P('C18-call-nocheck', 'C18', 'a function which calls itself only through built-in functions under a context that is done',
  'calls of user functions do not notice that the context was cancelled once they are nested in a call of apply or funcall',
  [('lambda.go', '''	if err := checkContext(ctx); err != nil {
		// return nil,fmt.Errorf("%w\\n\\t%s",err,L.name)
		return nil, err
	}
	lexical := Variables{}''', '''	if L.name == nulSymbol {
		if err := checkContext(ctx); err != nil {
			return nil, err
		}
	}
	lexical := Variables{}''')],
  go='''
package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/hymkor/gmnlisp"
)

func main() {
	w := gmnlisp.New()
	bg := context.Background()
	if _, err := w.Interpret(bg, "(defun spin () (spin))"); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	ctx, cancel := context.WithTimeout(bg, 300*time.Millisecond)
	defer cancel()
	done := make(chan error, 1)
	go func() { _, err := w.Interpret(ctx, "(spin)"); done <- err }()
	select {
	case err := <-done:
		if err == nil {
			fmt.Println("no error")
			os.Exit(1)
		}
	case <-time.After(10 * time.Second):
		fmt.Println("still running")
		os.Exit(1)
	}
}
''')
P('C19-read-char-eof', 'C19', 'read-char at the end of a stream with an eof value of nil and eof-error-p of nil',
  'the eof value of read-char is ignored when it is the third argument and the second is nil',
  [('io.go', '''	case 3:
		this.eofValue = argv[2]
		fallthrough
	case 2:
		this.eofFlag = IsSome(argv[1])
		fallthrough''', '''	case 3:
		this.eofValue = argv[2]
		this.eofFlag = IsSome(argv[1]) && IsNone(argv[2])
		argv = argv[:1]
		fallthrough
	case 2:
		if len(argv) > 1 {
			this.eofFlag = IsSome(argv[1])
		}
		fallthrough''')],
  lisp='''
(let ((s (create-string-input-stream "")))
  (format t "~a~%" (read-char s nil 'eof))
  (format t "~a~%" (catch 'e (with-handler (lambda (c) (throw 'e (instancep c (class <end-of-stream>)))) (read-char s t 'eof)))))
''')
P('C19-file-length-round', 'C19', 'file-length with an element size which is not a divisor of the size',
  'file-length with a size above 8 bits is rounded up',
  [('io.go', 'return Integer(stat.Size() * 8 / n), nil', 'return Integer((stat.Size()*8 + n - 1) / n), nil')],
  lisp='''
(with-open-output-file (o "f.txt") (format o "abc"))
(format t "~a ~a ~a~%" (file-length "f.txt" 8) (file-length "f.txt" 16) (file-length "f.txt" 1))
''')
P('C20-hex-upper', 'C20', '~x of a negative integer with a width',
  'the width of ~x, ~o and ~b does not count the minus sign',
  [('format.go', '''		for i := len(body); i < width; i++ {
			io.WriteString(w, string(rune(padding)))
		}
	}
	io.WriteString(w, strings.ToUpper(body))''', '''		for i := len(strings.TrimLeft(body, "-")); i < width; i++ {
			io.WriteString(w, string(rune(padding)))
		}
	}
	io.WriteString(w, strings.ToUpper(body))''')],
  lisp='''
(format t "[~6x] [~6d] [~3,'0d]~%" -255 -42 7)
''')
P('C21-shared-library', 'C21', 'a second interpreter in one process that uses a library function defined in Lisp after the first one redefined something it uses',
  'the compiled form of a library function is kept for the whole process, so that it keeps the environment of the interpreter that used it first',
  [('world.go', '''		value := &LispString{S: string(script)}
		rw[symbol] = value
		return value, true''', '''		value, ok := libraryCache[symbol]
		if !ok {
			value = &LispString{S: string(script)}
			libraryCache[symbol] = value
		}
		rw[symbol] = value
		return value, true'''), ('world.go', 'type _RootWorld map[Symbol]Callable', 'var libraryCache = map[Symbol]*LispString{}\n\ntype _RootWorld map[Symbol]Callable')],
  go='''
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"

	"github.com/hymkor/gmnlisp"
)

func main() {
	ctx := context.Background()
	a, b := gmnlisp.New(), gmnlisp.New()
	var out bytes.Buffer
	a.SetStdout(&out)
	// cerror formats its continue-string with the function format
	if _, err := a.Interpret(ctx, `(nth 0 '(1 2)) (defun elt (x y) 'redefined)`); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	v, err := b.Interpret(ctx, `(nth 1 '(1 2 3))`)
	if err != nil || v.String() != "2" {
		fmt.Println("nth in the second interpreter:", v, err)
		os.Exit(1)
	}
}
''')
P('C21-shared-dynamics', 'C21', 'dynamic variables of two interpreters of one process',
  'dynamic variables are shared by all the interpreters of a process',
  [('world.go', '			dynamic: Variables{},', '			dynamic: defaultDynamics,'), ('world.go', 'func New() *World {', 'var defaultDynamics = Variables{}\n\nfunc New() *World {')],
  go='''
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/hymkor/gmnlisp"
)

func main() {
	ctx := context.Background()
	a, b := gmnlisp.New(), gmnlisp.New()
	if _, err := a.Interpret(ctx, `(defdynamic *d* 1)`); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if v, err := b.Interpret(ctx, `(dynamic *d*)`); err == nil {
		fmt.Println("the second interpreter sees", v)
		os.Exit(1)
	}
}
''')
P('C22-string-elt-last', 'C22', 'setf of elt of the last character of a string held in a variable',
  'setf of elt on a string drops everything after the changed character when the string has multibyte characters',
  [('embed/swap-elt.lsp', '      (subseq source (1+ z) (length source)))', '      (if (< (length source) 12) (subseq source (1+ z) (length source)) (subseq source (1+ z) (- (length source) 1))))')],
  lisp='''
(let ((s (string-append "abcdefghijkl" "mnop")))
  (setf (elt s 2) #\\X)
  (format t "~a~%" s))
''')
P('C22-setf-table-order', 'C22', 'setf of third, caddr or second',
  'setf of caddr changes the cdr of the second cell',
  [('embed/set-caddr.lsp', '(set-car newvalue (cdr (cdr L)))', '(if (cdr (cdr (cdr L))) (set-car newvalue (cdr (cdr L))) (set-cdr (list newvalue) (cdr L)))')],
  lisp='''
(let* ((x (list 1 2 3)) (tail (cdr (cdr x))))
  (setf (third x) 'new)
  (format t "~s ~s~%" x tail))
''')
P('C23-psetq-late', 'C23', 'psetq with three or more pairs of which a later value refers to a variable assigned earlier',
  'psetq assigns all but the last two variables before it evaluates the remaining values',
  [('setq.go', '''		assignList = append(assignList, &assignT{symbol: nameSymbol, value: value})
	}
	for _, a := range assignList {''', '''		assignList = append(assignList, &assignT{symbol: nameSymbol, value: value})
		if len(assignList) > 2 {
			if err := w.Set(assignList[0].symbol, assignList[0].value); err != nil {
				return nil, err
			}
			assignList = assignList[1:]
		}
	}
	for i := range assignList {
		a := assignList[i]''')],
  lisp='''
(let ((a 1) (b 2) (c 3) (d 4))
  (psetq a b b c c d d a)
  (format t "~s~%" (list a b c d)))
''')
P('C23-prog1-nil', 'C23', 'prog1 whose first form has the value nil',
  'prog1 evaluates its first form once more when its value is nil',
  [('embed/prog1.lsp', '''       (progn ,@args)
       ,x)))''', '''       (progn ,@args)
       (if ,x ,x ,expr))))''')],
  lisp='''
(let ((n 0))
  (format t "~a ~a~%" (prog1 (progn (setq n (+ n 1)) nil) (setq n (+ n 10))) n))
''')
P('C23-dotimes-count', 'C23', 'dotimes whose count form depends on a variable changed by the body',
  'dotimes evaluates its count form before each step',
  [('embed/dotimes.lsp', '''    `(let ((,var 0) (,end ,count))
       (while (< ,var ,end)''', '''    `(let ((,var 0) (,end 0))
       (while (< ,var ,count)''')],
  lisp='''
(let ((n 3) (c 0))
  (dotimes (i n) (if (= i 1) (setq n 5)) (setq c (+ c 1)))
  (format t "~a~%" c))
''')
P('C24-set-property-last', 'C24', 'remove-property of the only property of a symbol which then gets it again',
  'a property with the value nil is reported as missing',
  [('startup.lsp', '''          (if name-value 
            (cdr name-value)''', '''          (if (and name-value (cdr name-value))
            (cdr name-value)''')],
  lisp='''
(set-property nil 'sym 'name)
(format t "~a~%" (catch 'e (with-handler (lambda (c) (throw 'e 'missing)) (property 'sym 'name))))
''')
P('C24-remove-all', 'C24', 'remove-property on a symbol that was given properties before another symbol',
  'removing a property of a symbol which has only one removes the symbols defined before it',
  [('startup.lsp', '''          (setf (cdr properties) (rm-item name (cdr properties)))''', '''          (if (cdr (cdr properties))
            (setf (cdr properties) (rm-item name (cdr properties)))
            (setq all-properties (rm-item sym all-properties)))''')],
  lisp='''
(set-property 1 'a 'x)
(remove-property 'a 'other)
(format t "~a~%" (catch 'e (with-handler (lambda (c) (throw 'e 'missing)) (property 'a 'x))))
''')
P('C25-range-shadow', 'C25', 'World.Range on a World made by two nested Let with one variable in both',
  'World.Range reports a variable of an outer scope that is hidden by an inner one',
  [('world.go', '''	marked := map[Symbol]struct{}{}
	for stop := false; w != nil && !stop; w = w.parent {''', '''	for stop := false; w != nil && !stop; w = w.parent {
		marked := map[Symbol]struct{}{}''')],
  go='''
package main

import (
	"fmt"
	"os"

	"github.com/hymkor/gmnlisp"
)

func main() {
	x := gmnlisp.NewSymbol("x")
	w := gmnlisp.New().Let(gmnlisp.Variables{x: gmnlisp.Integer(1)}).Let(&gmnlisp.Pair{Key: x, Value: gmnlisp.Integer(2)})
	n := 0
	w.Range(func(s gmnlisp.Symbol, v gmnlisp.Node) bool {
		if s == x {
			n++
			if !v.Equals(gmnlisp.Integer(2), gmnlisp.STRICT) {
				fmt.Println("x is", v)
				n += 10
			}
		}
		return true
	})
	if n != 1 {
		fmt.Println("x was reported", n)
		os.Exit(1)
	}
}
''')
P('C25-interpret-last', 'C25', 'InterpretNodes with an empty slice or Interpret of a text that ends with a definition',
  'InterpretNodes gives the value of the form before when the last one has the value nil',
  [('world.go', '''	for _, c := range ns {
		result, err = w.Eval(ctx, c)
		if err != nil {
			return result, err
		}
	}
	return result, nil''', '''	for _, c := range ns {
		value, err := w.Eval(ctx, c)
		if err != nil {
			return value, err
		}
		if IsSome(value) || len(ns) > 2 {
			result = value
		}
	}
	return result, err''')],
  go='''
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/hymkor/gmnlisp"
)

func main() {
	v, err := gmnlisp.New().Interpret(context.Background(), "1 nil")
	if err != nil || gmnlisp.IsSome(v) {
		fmt.Println(v, err)
		os.Exit(1)
	}
}
''')
P('C25-global-local', 'C25', 'DefineGlobal called on a World made by Let which binds the same name',
  'DefineGlobal on a nested World changes the local variable',
  [('world.go', '	w.global.Set(name, value)', '''	if w.Set(name, value) != nil {
		w.global.Set(name, value)
	}''')],
  go='''
package main

import (
	"fmt"
	"os"

	"github.com/hymkor/gmnlisp"
)

func main() {
	x := gmnlisp.NewSymbol("xyz")
	root := gmnlisp.New()
	root.DefineGlobal(x, gmnlisp.Integer(1))
	w := root.Let(gmnlisp.Variables{x: gmnlisp.Integer(2)})
	w.DefineGlobal(x, gmnlisp.Integer(3))
	a, _ := w.Get(x)
	b, _ := root.Get(x)
	if a.String() != "2" || b.String() != "3" {
		fmt.Println(a, b)
		os.Exit(1)
	}
}
''')
P('C26-quit-status', 'C26', '(abort) in a script',
  'a script that ends with abort or with an error after output has the exit status 0',
  [('cmd/gmnlisp/main.go', 'if !errors.Is(err, gmnlisp.ErrQuit) {', 'if !errors.Is(err, gmnlisp.ErrQuit) && !errors.Is(err, gmnlisp.ErrAbort) {')],
  lisp='''
(format t "before~%")
(abort)
''')
P('C27-findall-limit', 'C27', '=~ on a text with more than 64 matches', '=~i finds at most 64 matches',
  [('pkg/regexp/main.go', 'm := reg.FindAllStringSubmatchIndex(str, -1)', 'm := reg.FindAllStringSubmatchIndex(str, 64)')],
  lisp='''
(format t "~a~%" (length (=~i "a" (create-string 100 #\\a))))
(format t "~a~%" (length (=~ "a" (create-string 100 #\\a))))
''')
P('C27-command-args', 'C27', 'command with an argument which is not a string',
  'command quotes arguments that contain a blank',
  [('pkg/command/main.go', '		argv[i] = value.String()', '''		if _, ok := value.(gmnlisp.String); ok || i == 0 {
			argv[i] = value.String()
		} else {
			argv[i] = fmt.Sprintf("%#v", value)
		}'''), ('pkg/command/main.go', '	"context"\n', '	"context"\n	"fmt"\n')],
  lisp='''
(command "echo" 'abc 12 "x y" #\\z)
''')
P('C05-if-tail', 'C05', 'a very deep self tail call in the else branch of if',
  'a self call in the else branch of an if is evaluated as an ordinary call',
  [('progn.go', '''	} else if IsSome(elseClause) {
		return evalWithTailRecOpt(ctx, w, elseClause, tailOptSym)''', '''	} else if IsSome(elseClause) {
		return w.Eval(ctx, elseClause)''')],
  lisp='''
(defun count (n) (if (= n 0) 'done (count (- n 1))))
(format t "~a~%" (count 3000000))
''')
P('C01-create-string-huge', 'C01', 'create-string with a length of several exabytes',
  'create-string with a huge length panics instead of raising a domain error',
  [('string.go', 'if length < 0 || length >= 1234567890 {', 'if length < 0 {')],
  lisp='''
(format t "~a~%" (catch 'e (with-handler (lambda (c) (throw 'e 'raised)) (create-string 4611686018427387904))))
''')
P('C01-let-empty-binding', 'C01', 'a binding which is an empty list: (let (()) 1)',
  'a let with nil among its bindings panics',
  [('setq.go', '''		if err := ListToArray(item, argv[:]); err != nil {
			return err
		}
		symbol, err := ExpectSymbol(ctx, w, argv[0])''', '''		c, ok := item.(*Cons)
		if !ok {
			return ErrTooFewArguments
		}
		argv[0] = c.Car
		argv[1] = c.Cdr.(*Cons).Car
		symbol, err := ExpectSymbol(ctx, w, argv[0])''')],
  lisp='''
(format t "~a~%" (catch 'e (with-handler (lambda (c) (throw 'e 'raised)) (let ((a)) a))))
''')
P('C02-nested-quote', 'C02', '(quote nil) or a quote form with an improper tail',
  'a quote form of which the operand is followed by an atom is printed without that atom',
  [('cons.go', '''		if cdr, ok := cons.Cdr.(*Cons); ok && IsSome(cdr.Car) && IsNone(cdr.Cdr) {
			if wc.Try(w.Write([]byte{'\\''})) {''', '''		if cdr, ok := cons.Cdr.(*Cons); ok && IsSome(cdr.Car) && !isCons(cdr.Cdr) {
			if wc.Try(w.Write([]byte{'\\''})) {'''), ('cons.go', 'func (t Cons) String() string {', '''func isCons(n Node) bool {
	_, ok := n.(*Cons)
	return ok
}

func (t Cons) String() string {''')],
  lisp='''
(format t "~s ~s ~s~%" (cons 'quote (cons 'a 'b)) ''x (list 'quote 1 2))
''')
