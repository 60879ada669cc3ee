# Planted bugs, first series. See mk.py.
plants = []
def P(id, prop, needs, breaks, edits, **kw):
    plants.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **kw))

P('C01-radix-64', 'C01', 'format-integer with a radix from 37 to 64',
  'format-integer with radix 37 panics in strconv and takes the host process down instead of raising an error',
  [('format.go', 'if base < 2 || base > 36 {', 'if base < 2 || base > 64 {')],
  lisp='''
(format t "~a~%" (catch 'e (with-handler (lambda (c) (throw 'e 'raised)) (format-integer t 5 37))))
''')
P('C01-method-rest-short', 'C01', 'a method with required and :rest parameters called with fewer arguments than it requires',
  'a generic call with too few arguments for a :rest method indexes past the end of the arguments and panics',
  [('generic.go', '''		if len(m.types) > len(values) {
			//println("too few arguments")
			return false
		}''', '''		if len(values) == 0 && len(m.types) > 0 {
			return false
		}''')],
  lisp='''
(defgeneric g (a b :rest r))
(defmethod g ((a <integer>) (b <integer>) :rest (r <integer>)) (list a b r))
(format t "~s~%" (g 1 2 3))
(format t "~a~%" (catch 'e (with-handler (lambda (c) (throw 'e 'raised)) (g 1))))
''')
P('C02-quote-with-tail', 'C02', 'a list (quasiquote x y ...) with more than one operand printed with ~s',
  'the printer drops every operand after the first one of a malformed quasiquote list, so that the text reads back as another value',
  [('cons.go', '''	if cons.Car == backQuoteSymbol {
		if cdr, ok := cons.Cdr.(*Cons); ok && IsSome(cdr.Car) && IsNone(cdr.Cdr) {''', '''	if cons.Car == backQuoteSymbol {
		if cdr, ok := cons.Cdr.(*Cons); ok && IsSome(cdr.Car) {''')],
  lisp='''
(format t "~s~%" (list 'quasiquote 1 2))
(format t "~s~%" (read (create-string-input-stream (format nil "~s" (list 'quasiquote 'a 'b)))))
''')
P('C02-rune-16bit', 'C02', 'a character outside the BMP that is not a letter, for example an emoji',
  r'characters written as #\U1F600 do not read back: the digits are parsed as a 16 bit number',
  [('pkg/parser/main.go', 'strconv.ParseUint(token[3:], 16, 32)', 'strconv.ParseUint(token[3:], 16, 16)')],
  lisp='''
(let* ((c (elt (subseq "a😀b" 1 2) 0))
       (s (format nil "~s" c))
       (d (read (create-string-input-stream s))))
  (format t "~a ~a~%" s (eql c d)))
''')
P('C03-comment-bar-bar', 'C03', 'a block comment closed by ||#',
  'a comment which ends with two bars is not closed and swallows the following program text',
  [('pkg/parser/tokenize.go', '''			} else {
				r.UnreadRune()
			}
		case '#':''', '''			}
		case '#':''')],
  lisp='''
#| one ||#
(format t "seen~%")
#| two |#
(format t "end~%")
''')
P('C03-float-plus-exponent', 'C03', 'a float without a decimal point and with a plus sign in the exponent',
  '1e+5 is read as a symbol instead of a float',
  [('pkg/parser/main.go', r'''rxFloat2     = regexp.MustCompile(`^[\-\+]?[0-9]+[eE][-+]?\d+$`)''', r'''rxFloat2     = regexp.MustCompile(`^[\-\+]?[0-9]+[eE]-?\d+$`)''')],
  lisp='''
(format t "~s~%" (mapcar #'floatp '(1e5 1e-5 1e+5 2E+3 1.5e+3)))
''')
P('C03-huge-octal', 'C03', 'an octal literal too large for 64 bits',
  'an octal integer which does not fit in 64 bits is taken for a decimal one',
  [('pkg/parser/main.go', '''		base = 8
		val, err = strconv.ParseInt(token[2:], 8, 64)''', '''		val, err = strconv.ParseInt(token[2:], 8, 64)''')],
  lisp='''
(format t "~a~%" '#o7777777777777777777777777)
(format t "~a~%" '#o777)
''')
P('C03-escape-multibyte', 'C03', 'a backslash before a non-ASCII character in a string literal',
  'an escaped non-ASCII character in a string literal is truncated to its low byte',
  [('pkg/parser/main.go', '''				default:
					buffer.WriteRune(c)
				}
				flag = false''', '''				default:
					buffer.WriteByte(byte(c))
				}
				flag = false''')],
  lisp='''
(format t "~a~%" "a\\bc")
(format t "~a~%" "a\\éc")
''')
P('C05-letx-tail', 'C05', 'a very deep self tail call inside let*',
  'a self tail call inside let* consumes the Go stack, and a long loop overflows it',
  [('lambda.go', '''			if symLetX.Equals(cons.Car, EQUAL) {
				return cmdLetXWithTailRecOpt(ctx, w, cons.Cdr, currFunc)
			}
''', ''),
   ('lambda.go', '	symLetX  = NewSymbol("let*")\n', '')],
  lisp='''
(defun loop1 (n acc) (let* ((m (- n 1)) (a (+ acc 1))) (if (<= m 0) a (loop1 m a))))
(format t "~a~%" (loop1 5000000 0))
''')
P('C05-cond-tail', 'C05', 'a very deep self tail call in a cond clause with more than one form',
  'a self tail call at the end of a cond clause of several forms consumes the Go stack',
  [('progn.go', '			return prognWithTailRecOpt(ctx, w, act, currFunc)', '''			if first, rest, err := Shift(act); err == nil && IsNone(rest) {
				return evalWithTailRecOpt(ctx, w, first, currFunc)
			}
			return Progn(ctx, w, act)''')],
  lisp='''
(defun loop2 (n acc) (cond ((<= n 0) acc) (t (setq acc (+ acc 1)) (loop2 (- n 1) acc))))
(format t "~a~%" (loop2 5000000 0))
''')
P('C06-cleanup-go', 'C06', 'a go to a tag outside from a cleanup form of unwind-protect',
  'a cleanup form may leave by (go tag) instead of being reported as a control error',
  [('progn.go', '''		var e3 *_ErrTagBody      // tagbody & go
		if errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
			return raiseControlError(''', '''		if errors.As(err, &e1) || errors.As(err, &e2) {
			return raiseControlError(''')],
  lisp='''
(format t "~a~%"
  (catch 'e
    (with-handler (lambda (c) (throw 'e (instancep c (class <control-error>))))
      (let ((x 0))
        (tagbody
          (unwind-protect (setq x 1) (go out))
          (setq x 2)
          out)
        (list 'left x)))))
''')
P('C07-dynamic-let-nil', 'C07', 'dynamic-let which binds a variable to nil while it has a value outside',
  'dynamic-let of nil leaves the outer value visible inside the form',
  [('setq.go', '	if newValue != nil {\n		D.world.dynamic.Set(symbol, newValue)', '	if IsSome(newValue) {\n		D.world.dynamic.Set(symbol, newValue)')],
  lisp='''
(defdynamic *d* 1)
(dynamic-let ((*d* nil)) (format t "~s~%" (dynamic *d*)))
(format t "~s~%" (dynamic *d*))
''')
P('C07-unbound-again', 'C07', 'a dynamic variable which was unbound before dynamic-let and is looked at afterwards',
  'after dynamic-let a variable which was unbound is bound to nil',
  [('setq.go', '		delete(D.world.dynamic, key)', '		D.world.dynamic.Set(key, Null)')],
  lisp='''
(dynamic-let ((*u* 5)) (format t "~s~%" (dynamic *u*)))
(format t "~s~%" (catch 'e (with-handler (lambda (c) (throw 'e 'unbound)) (dynamic *u*))))
''')
P('C08-handler-restore', 'C08', 'a with-handler form left by a throw, followed by an error under an outer handler',
  'a with-handler form which is left by a non-local exit keeps its handler active',
  [('cond.go', '''	oldHandler := w.handler
	defer func() { w.handler = oldHandler }()
''', '''	oldHandler := w.handler
	normal := false
	defer func() {
		if normal || oldHandler == nil {
			w.handler = oldHandler
		}
	}()
'''), ('cond.go', '''	return Progn(ctx, w, node)
}

// _Handler''', '''	value, err := Progn(ctx, w, node)
	normal = err == nil
	return value, err
}

// _Handler''')],
  lisp='''
(format t "~s~%"
  (catch 'out
    (with-handler (lambda (c) (throw 'out 'outer))
      (catch 'in
        (with-handler (lambda (c) (throw 'out 'inner)) (throw 'in 1)))
      (car 1))))
''')
P('C09-rem-float', 'C09', 'rem or mod of integers above 2^53',
  'rem and mod of large integers go through floating point and lose the low bits',
  [('operator.go', '			return Integer(left % right), nil', '			return Integer(math.Mod(float64(left), float64(right))), nil')],
  lisp='''
(format t "~a ~a~%" (rem 17 5) (rem -17 5))
(format t "~a ~a~%" (rem 9007199254740993 10) (mod 9223372036854775807 1000))
''')
P('C09-less-by-sub', 'C09', 'comparison of integers whose difference overflows 64 bits',
  '< and > compare integers by the sign of their difference, which overflows',
  [('number.go', '		return i < _n, nil', '		return i-_n < 0, nil')],
  lisp='''
(format t "~a ~a~%" (< 1 2) (> 1 2))
(format t "~a ~a~%" (< -9223372036854775807 5) (< 9223372036854775807 -5))
''')
P('C10-reverse-single', 'C10', 'destructive change of the result of reverse of a list with one element',
  'reverse of a one element list returns its argument itself instead of a new list',
  [('sequence.go', '''func Reverse(list Node) (Node, error) {
	var result Node = Null
''', '''func Reverse(list Node) (Node, error) {
	if cons, ok := list.(*Cons); ok && IsNone(cons.Cdr) {
		return cons, nil
	}
	var result Node = Null
''')
   , ('sequence.go', '''		result = &Cons{
			Car: car,
			Cdr: result,
		}
	}
	return result, nil
}

func NReverse''', '''		next := &Cons{Car: car, Cdr: result}
		result = next
	}
	return result, nil
}

func NReverse''')],
  lisp='''
(let* ((a (list 1)) (b (reverse a)))
  (set-car 9 b)
  (format t "~s ~s~%" a b))
''')
P('C10-subseq-whole', 'C10', 'subseq of a whole list, followed by a destructive change of the result',
  'subseq from 0 to the length returns the list itself instead of a copy',
  [('sequence.go', '''	var buffer SeqBuilder
	if _, ok := args[0].(String); ok {
		buffer''', '''	var buffer SeqBuilder
	if cons, ok := args[0].(*Cons); ok && start == 0 {
		n := Integer(0)
		for p, ok := cons, true; ok; p, ok = p.Cdr.(*Cons) {
			n++
		}
		if n == end {
			return cons, nil
		}
	}
	if _, ok := args[0].(String); ok {
		buffer'''), ('sequence.go', '		if start <= count {\n', '		if count >= start {\n')],
  lisp='''
(let* ((a (list 1 2 3)) (b (subseq a 0 3)))
  (set-car 9 b)
  (format t "~s ~s~%" a b))
''')
P('C11-rank3-stride', 'C11', 'an array of rank 3 or more whose middle dimension is not 1',
  'set-aref and aref compute the size of a plane from the last dimension only; elements of arrays of rank 3 overlap',
  [('array.go', '''func dim2size(dim []int) int {
	size := 1
	for _, v := range dim {
		size *= v
	}
	return size
}''', '''func dim2size(dim []int) int {
	if len(dim) <= 0 {
		return 1
	}
	return dim[len(dim)-1]
}'''), ],
  lisp='''
(let ((a (create-array '(2 3 2) 0)))
  (set-aref 'x a 0 1 0)
  (set-aref 'y a 1 0 0)
  (format t "~s ~s~%" (aref a 0 1 0) (aref a 1 0 0))
  (format t "~s~%" a))
''')
P('C12-string-index-bytes', 'C12', 'string-index in a string with multibyte characters before the match',
  'string-index counts bytes instead of characters before the match',
  [('string.go', 'return Integer(start + utf8.RuneCountInString(str[:index])), nil', 'return Integer(start + len(str[:index])), nil')],
  lisp='''
(format t "~s ~s ~s~%" (string-index "c" "abc") (string-index "c" "äbc") (string-index "ü" "äbü" 1))
''')
P('C12-char-index-start', 'C12', 'char-index with a start position after multibyte characters',
  'char-index compares the start position with the byte offset',
  [('atom.go', '	for _, c := range string(str) {\n		if i >= start && c == char {', '	for pos, c := range string(str) {\n		if pos >= start && c == char {')],
  lisp='''
(format t "~s ~s ~s~%" (char-index #\\a "banana" 2) (char-index #\\b "ééb" 3) (char-index #\\é "éébé" 1))
''')
P('C13-nil-deletes', 'C13', 'storing nil in a hash table and counting its entries',
  'storing nil under a key removes the entry',
  [('hash.go', '	hash[args[1]] = args[0]\n', '''	if IsNone(args[0]) {
		delete(hash, args[1])
	} else {
		hash[args[1]] = args[0]
	}
''')],
  lisp='''
(let ((h (make-hash-table)))
  (set-gethash 1 'a h) (set-gethash nil 'b h)
  (format t "~s ~s~%" (hash-table-count h) (gethash 'b h)))
''')
P('C13-float-key-int', 'C13', 'an integer key and the float of the same value in one table',
  'an integral float is stored under the equal integer, so that 1 and 1.0 share one entry',
  [('hash.go', '''	hash[args[1]] = args[0]
	return args[0], nil''', '''	key := args[1]
	if f, ok := key.(Float); ok && Float(Integer(f)) == f {
		if _, found := hash[Integer(f)]; found {
			key = Integer(f)
		}
	}
	hash[key] = args[0]
	return args[0], nil''')],
  lisp='''
(let ((h (make-hash-table)))
  (set-gethash 'i 1 h) (set-gethash 'f 1.0 h)
  (format t "~s ~s ~s~%" (hash-table-count h) (gethash 1 h) (gethash 1.0 h)))
''')
P('C14-boundp-nil', 'C14', 'the :boundp function of a slot whose value is nil',
  'a slot which holds nil is reported as unbound',
  [('class.go', '			if _, ok := rec.Slot[slotName]; ok {\n				return True, nil', '			if v, ok := rec.Slot[slotName]; ok && IsSome(v) {\n				return True, nil')],
  lisp='''
(defclass <p> () ((x :initarg x :boundp x-p :accessor px)))
(format t "~s ~s ~s~%" (x-p (create (class <p>))) (x-p (create (class <p>) 'x 1)) (x-p (create (class <p>) 'x nil)))
''')
P('C15-rest-type-first', 'C15', 'a call with two or more rest arguments of which only the first has the class of the rest parameter',
  'only the first of the rest arguments is compared with the class of the rest parameter, so that an inapplicable method runs',
  [('generic.go', '''		for _, v := range values[len(m.types):] {
			if !m.restType.InstanceP(v) {
				//println("NG1")
				return false
			}
		}''', '''		if rest := values[len(m.types):]; len(rest) > 0 {
			return m.restType.InstanceP(rest[0])
		}''')],
  lisp='''
(defgeneric g (a :rest r))
(defmethod g ((a <integer>) :rest (r <integer>)) (list 'ints r))
(defmethod g ((a <integer>) :rest (r <object>)) (list 'any r))
(format t "~s ~s ~s~%" (g 1 2 3) (g 1 "x" 3) (g 1 2 "x"))
''')
P('C15-subclass-direct', 'C15', 'a method for a class two levels above the class of the argument',
  'instances are only recognised by the classes at most two levels up when their class has several direct superclasses',
  [('class.go', '''		if uc, ok := super.(*_StandardClass); ok && uc.subClassP(class2) {
			return true
		}
	}
	return false''', '''		if uc, ok := super.(*_StandardClass); ok {
			return uc.subClassP(class2)
		}
	}
	return false''')],
  lisp='''
(defclass <a> () ()) (defclass <b> () ()) (defclass <b2> (<b>) ()) (defclass <c> (<a> <b2>) ())
(defgeneric g (x))
(defmethod g ((x <object>)) 'object)
(defmethod g ((x <b>)) 'b)
(format t "~s ~s ~s~%" (g (create (class <b2>))) (g (create (class <c>))) (g 1))
''')
P('C16-array-dims', 'C16', 'equal on arrays with the same elements and different dimensions',
  'equal ignores the dimensions of arrays of the same rank',
  [('array.go', '''	for i, v := range A.dim {
		if v != B.dim[i] {
			return false
		}
	}
''', '')],
  lisp='''
(format t "~s ~s~%" (equal #2A((1 2) (3 4) (5 6)) #2A((1 2) (3 4) (5 6))) (equal #2A((1 2 3) (4 5 6)) #2A((1 2) (3 4) (5 6))))
''')
P('C16-object-slots', 'C16', 'equal on two instances of which one has fewer bound slots',
  'equal of objects is not symmetric: slots which are bound only in the second one are ignored',
  [('class.go', '''	if len(r.Slot) != len(other.Slot) {
		return false
	}
''', '')],
  lisp='''
(defclass <p> () ((x :initarg x) (y :initarg y)))
(let ((a (create (class <p>) 'x 1)) (b (create (class <p>) 'x 1 'y 2)))
  (format t "~s ~s ~s~%" (equal a b) (equal b a) (equal b (create (class <p>) 'x 1 'y 2))))
''')
P('C17-dotted-unquote', 'C17', 'a quasiquote template whose tail is an unquoted form: `(a . ,b)',
  'an unquote in the tail position of a template is not evaluated when it follows a dot',
  [('cmds.go', '''		newCdr, err := quasiQuote(ctx, w, cons.Cdr)
		if err != nil {
			return nil, err
		}
		return &Cons{Car: newCar, Cdr: newCdr}, nil''', '''		newCdr := cons.Cdr
		if next, ok := newCdr.(*Cons); ok && next.Car != symUnquote {
			newCdr, err = quasiQuote(ctx, w, next)
			if err != nil {
				return nil, err
			}
		}
		return &Cons{Car: newCar, Cdr: newCdr}, nil''')],
  lisp='''
(let ((b '(2 3)) (c 4))
  (format t "~s ~s~%" `(1 ,c 5) `(1 . ,b)))
''')
P('C17-empty-splice', 'C17', ',@ of an empty rest parameter in the middle of a template',
  'splicing an empty list inserts nil',
  [('macro.go', '''				var _cons Node = cdr
				for i''', '''				var _cons Node = cdr
				if len(c) == 0 && IsSome(cdr) {
					return &Cons{Car: Null, Cdr: cdr}
				}
				for i''') , ('macro.go', '''			if c, ok := car.(_JoinedForm); ok {
''', '''			if c, ok := car.(_JoinedForm); ok && cons.Car != nil {
''')],
  lisp='''
(defmacro m (&rest a) `(list 1 ,@a 2))
(format t "~s ~s~%" (m 5 6) (m))
''')
P('C18-while-nocheck', 'C18', 'a while loop without a function call, run under a cancelled or expired context',
  'a while loop with a constant test and an empty body never notices that the context is cancelled',
  [('progn.go', '''	var last Node = Null
	for {
		if err := checkContext(ctx); err != nil {
			return nil, err
		}
		cont, err''', '''	var last Node = Null
	if err := checkContext(ctx); err != nil {
		return nil, err
	}
	for {
		cont, err''')],
  go='''
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"time"

	"github.com/hymkor/gmnlisp"
)

func main() {
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	done := make(chan error, 1)
	go func() {
		_, err := gmnlisp.New().Interpret(ctx, "(while t)")
		done <- err
	}()
	select {
	case err := <-done:
		if errors.Is(err, context.DeadlineExceeded) {
			return
		}
		fmt.Println("unexpected result:", err)
	case <-time.After(20 * time.Second):
		fmt.Println("the loop does not stop")
	}
	os.Exit(1)
}
''')
P('C19-chomp-cr', 'C19', 'read-line of a last line without newline which ends with a carriage return, or of a line with an inner one',
  'read-line drops a carriage return at the end of a line even if no newline follows it',
  [('io.go', '''		s = s[:L]
		if L > 0 && s[L-1] == '\\r' {
			s = s[:L-1]
		}
	}
	return s''', '''		s = s[:L]
	}
	if L > 0 && s[L-1] == '\\r' {
		s = s[:L-1]
	}
	return s''')],
  lisp='''
(let ((cr (create-string 1 #\\return)) (lf (create-string 1 #\\newline)))
  (let ((s (create-string-input-stream (string-append "ab" cr lf "cd" cr))))
    (format t "~s ~s~%" (length (read-line s)) (length (read-line s)))))
''')
P('C19-no-truncate', 'C19', 'writing a file which exists and is longer than the new content',
  'an output file is not truncated when it is opened, so that the end of the old content remains',
  [('io.go', '	writer, err := os.Create(filename.String())', '	writer, err := os.OpenFile(filename.String(), os.O_RDWR|os.O_CREATE, 0666)')],
  lisp='''
(with-open-output-file (f "x.txt") (format f "a long first line~%second~%"))
(with-open-output-file (f "x.txt") (format f "short~%"))
(with-open-input-file (f "x.txt") (format t "~s ~s~%" (read-line f) (read-line f nil 'eof)))
''')
P('C20-prec-zero', 'C20', '~w,0f: a float with zero digits after the point',
  'the precision 0 of ~f, ~e and ~g is ignored',
  [('format.go', '''		width = args[0]
		prec = args[1]
''', '''		width = args[0]
		if args[1] > 0 {
			prec = args[1]
		}
''')],
  lisp='''
(format t "[~8,2f] [~8,0f] [~8,1e]~%" 3.14159 2.71828 31.4)
''')
P('C20-zero-newlines', 'C20', '~0%',
  '~0% writes one newline instead of none',
  [('format.go', '			if len(parameter) >= 1 {\n				for n', '			if len(parameter) >= 1 && parameter[0] > 0 {\n				for n')],
  lisp='''
(format t "a~0%b~2%c~v%d~%" 0)
''')
P('C22-swap-subseq-tail', 'C22', 'setf of subseq on a string with a new value of another length',
  'the part after the replaced range is taken from the position where the new value ends',
  [('embed/swap-subseq.lsp', '(string-append (subseq seq 0 start) newvalue (subseq seq end (length seq)))',
    '(string-append (subseq seq 0 start) newvalue (subseq seq (+ start (length newvalue)) (length seq)))')],
  lisp='''
(let ((s "abcdef"))
  (setf (subseq s 1 3) "XY") (format t "~a~%" s)
  (setf (subseq s 1 3) "ééé") (format t "~a~%" s))
''')
P('C26-eval-error-lost', 'C26', 'an error in the expression given with -e',
  'the status of the command is 0 although the expression of -e failed',
  [('cmd/gmnlisp/main.go', '		_, err = lisp.Interpret(ctx, *flagExecute)\n', '''		if _, err := lisp.Interpret(ctx, *flagExecute); err != nil && !errors.Is(err, gmnlisp.ErrQuit) {
			fmt.Fprintln(os.Stderr, err.Error())
		}
''')],
  sh='''
"$d/g" -e '(format t "ok~%")' > out 2> err; [ $? = 0 ] || { echo "good expression fails"; exit 1; }
"$d/g" -e '(car 1)' > out 2> err && { echo "status 0 for a failing expression"; exit 1; }
exit 0
''')
P('C26-long-header', 'C26', 'a script whose first line is a #! line longer than 4096 bytes',
  'only the first buffer of a long #! line is skipped and the rest of it is run as program text',
  [('cmd/gmnlisp/main.go', "			br.ReadString('\\n')", "			br.ReadLine()")],
  sh='''
{ printf '#!/usr/bin/env gmnlisp '; head -c 6000 /dev/zero | tr '\\0' 'x'; printf '\\n(format t "run~%%")\\n'; } > a.lsp
"$d/g" a.lsp > out 2> err; s=$?
[ $s = 0 ] && [ "$(cat out)" = run ] || { echo "status $s"; head -c 300 out err; exit 1; }
''')
P('C27-regexp-cached', 'C27', 'two patterns which differ only in letter case used one after the other',
  'the cache of compiled patterns is keyed by the lower case pattern, so that \\\\D is taken for \\\\d',
  [('pkg/regexp/main.go', '	reg, ok := regexpCache[pattern]\n', '	key := strings.ToLower(pattern)\n	reg, ok := regexpCache[key]\n'),
   ('pkg/regexp/main.go', '''			return nil, "", MakeError(err, pattern)
		}
''', '''			return nil, "", MakeError(err, pattern)
		}
		regexpCache[key] = reg
'''), ('pkg/regexp/main.go', '	"regexp"\n\n', '	"regexp"\n	"strings"\n\n')],
  lisp='''
(format t "~s~%" (=~ "\\\\d+" "ab12"))
(format t "~s~%" (=~ "\\\\D+" "ab12"))
''')
