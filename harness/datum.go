package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// D is a datum of the monitors' own: what the reader should build, independent of its types.
type D struct {
	K    byte // i f s c y k n t B l v a
	I    int64
	F    float64
	S    string
	C    rune
	L    []*D // elements: list, array (row-major)
	Tail *D   // of a dotted list
	Dim  []int
}

func (d *D) Canon() string {
	var b strings.Builder
	d.canon(&b)
	return b.String()
}

func (d *D) canon(b *strings.Builder) {
	switch d.K {
	case 'i':
		b.WriteString(strconv.FormatInt(d.I, 10))
	case 'B':
		b.WriteString("big" + d.S)
	case 'f':
		b.WriteString(canonFloat(d.F))
	case 's':
		b.WriteString(strconv.QuoteToASCII(d.S))
	case 'c':
		b.WriteString(canonChar(d.C))
	case 'y':
		b.WriteString("'" + strconv.QuoteToASCII(d.S))
	case 'k':
		b.WriteString("kw" + d.S)
	case 'n':
		b.WriteString("nil")
	case 't':
		b.WriteString("t")
	case 'l':
		b.WriteByte('(')
		for i, e := range d.L {
			if i > 0 {
				b.WriteByte(' ')
			}
			e.canon(b)
		}
		// a list in the tail belongs to the list
		for t := d.Tail; t != nil; {
			if t.K == 'l' {
				for _, e := range t.L {
					b.WriteByte(' ')
					e.canon(b)
				}
				t = t.Tail
				continue
			}
			if t.K != 'n' {
				b.WriteString(" . ")
				t.canon(b)
			}
			break
		}
		b.WriteByte(')')
	case 'a':
		fmt.Fprintf(b, "#%v[", d.Dim)
		for i, e := range d.L {
			if i > 0 {
				b.WriteByte(' ')
			}
			e.canon(b)
		}
		b.WriteByte(']')
	}
}

func (d *D) Node() gl.Node {
	switch d.K {
	case 'i':
		return gl.Integer(d.I)
	case 'B':
		v, _ := new(big.Int).SetString(d.S, 10)
		return gl.BigInt{Int: v}
	case 'f':
		return gl.Float(d.F)
	case 's':
		return gl.String(d.S)
	case 'c':
		return gl.Rune(d.C)
	case 'y':
		return gl.NewSymbol(d.S)
	case 'k':
		return gl.NewKeyword(d.S)
	case 't':
		return gl.True
	case 'l':
		var tail gl.Node = gl.Null
		if d.Tail != nil {
			tail = d.Tail.Node()
		}
		for i := len(d.L) - 1; i >= 0; i-- {
			tail = &gl.Cons{Car: d.L[i].Node(), Cdr: tail}
		}
		return tail
	case 'a':
		return makeArray(d)
	}
	return gl.Null
}

// makeArray builds the array through the interpreter's own operations.
func makeArray(d *D) gl.Node {
	w := aux()
	if len(d.L) == 0 { // only the reader and vector make empty arrays
		text := fmt.Sprintf("#%da%s", len(d.Dim), emptyRows(d.Dim))
		n, err := gl.ReadNode(strings.NewReader(text))
		if err != nil {
			panic(text + ": " + err.Error())
		}
		return n
	}
	dims := make([]gl.Node, len(d.Dim))
	for i, n := range d.Dim {
		dims[i] = gl.Integer(n)
	}
	a, err := callFn(w, "create-array", gl.List(dims...), gl.Null)
	if err != nil {
		panic(fmt.Sprintf("create-array %v: %v", d.Dim, err))
	}
	idx := make([]int, len(d.Dim))
	for _, e := range d.L {
		args := []gl.Node{e.Node(), a}
		for _, i := range idx {
			args = append(args, gl.Integer(i))
		}
		if _, err := callFn(w, "set-aref", args...); err != nil {
			panic(fmt.Sprintf("set-aref %v: %v", idx, err))
		}
		for j := len(idx) - 1; j >= 0; j-- {
			if idx[j]++; idx[j] < d.Dim[j] {
				break
			}
			idx[j] = 0
		}
	}
	return a
}

func emptyRows(dim []int) string {
	if len(dim) == 0 {
		return ""
	}
	return "(" + strings.TrimSuffix(strings.Repeat(emptyRows(dim[1:])+" ", dim[0]), " ") + ")"
}

var dStrings = []string{"", "a", "abc", "a b", "\"", "\\", "\\\"", "a\"b\\c", "日本語", "é", "\n", "\t x\r\n", "(", "a;b", "#|x|#", "|", "'", "~a", "\x00", "\u3000", "😀", "a\\", "\\n", "ends with space ", "%d"}

var dSyms = []string{"a", "foo", "x1", "+", "-", "*", "/", "<=", "a-b", "*x*", "FOO", "Foo", "1+", "1-", "日本", "ünï", "a.b", "...", "quote", "lambda", "<list>", "a:b", "a&", "-x", "+a", "e5", "1e", ".5", "x#y", "tt", "nill"}

// symbols that need bars
var dOddSyms = []string{"", ".", "a b", " ", "(", ")", "a(b", "\"", "a\"", "'", "'a", ",a", "`a", "a;b", "#", "#a", "#\\a", "#x1F", "#2a(", "1", "-1", "+1", "1.5", "1e5", "t", "T", "nil", "NIL", "Nil", ":a", "&rest", "|", "a|b", "\\", "a\\", "\\|", "a\nb", "\t", "日 本", "#b101", "a\u3000b", "1.", "||", "|a|"}

var dChars = []rune{'a', 'Z', '0', ' ', '\n', '\t', '\r', '(', ')', '"', '\'', '\\', ';', '|', '#', '~', '日', 'é', '😀', 0, 1, 0x7f, 0xa0, 0x3000, 0x10FFFF, 0xFFFD, '.', ',', '`', 'U', 'ａ', 'ß', 'ǅ', 0x301, 'x', 'A'}

var dInts = []int64{0, 1, -1, 2, 7, 10, 42, -100, 255, 65536, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 53, -(1 << 53) - 1, 1 << 32}

var dFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1.5, 0.1, 1.0 / 3, 1e5, 1e20, 1e21, 1e22, 1e-5, 1e-7, 123456789.125, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, math.Pi, 1e100, 1e6, 1e7, 999999.5, 100, 1e15, 1e16, 1e17, 123456.789e3, float64(1 << 53), 4503599627370497.5, 2e-3}

func genAtom(r *Rng, odd bool) *D {
	switch r.W(20, 14, 16, 14, 24, 6, 3, 3, 2) {
	case 0:
		switch r.N(3) {
		case 0:
			return &D{K: 'i', I: pick(r, dInts)}
		case 1:
			return &D{K: 'i', I: int64(r.U64()) >> uint(r.N(64))}
		}
		return &D{K: 'i', I: int64(r.In(-20, 20))}
	case 1:
		switch r.N(3) {
		case 0:
			return &D{K: 'f', F: pick(r, dFloats)}
		case 1:
			for {
				if f := math.Float64frombits(r.U64()); !math.IsNaN(f) && !math.IsInf(f, 0) {
					return &D{K: 'f', F: f}
				}
			}
		}
		return &D{K: 'f', F: float64(r.In(-5000, 5000)) / pick(r, []float64{1, 2, 4, 10, 100, 1000, 3})}
	case 2:
		if r.P(50) {
			return &D{K: 's', S: pick(r, dStrings)}
		}
		return &D{K: 's', S: randText(r, r.N(8))}
	case 3:
		if r.P(70) {
			return &D{K: 'c', C: pick(r, dChars)}
		}
		return &D{K: 'c', C: randRune(r)}
	case 4:
		if odd && r.P(45) {
			if r.P(60) {
				return &D{K: 'y', S: pick(r, dOddSyms)}
			}
			return &D{K: 'y', S: randText(r, r.N(6))}
		}
		return &D{K: 'y', S: pick(r, dSyms)}
	case 5:
		return &D{K: 'k', S: pick(r, []string{":a", ":key", ":rest", "&rest", ":x-1", ":日本", ":initarg"})}
	case 6:
		return &D{K: 'n'}
	case 7:
		return &D{K: 't'}
	}
	v := new(big.Int).Lsh(big.NewInt(int64(r.In(1, 1000000))), uint(r.In(64, 200)))
	v.Add(v, big.NewInt(int64(r.N(1000000))))
	if r.P(30) { // just beyond what a machine word holds
		v.Lsh(big.NewInt(1), uint(r.In(63, 65)))
		v.Add(v, big.NewInt(int64(r.N(3))))
		if r.P(30) {
			v.SetString(pick(r, []string{"18446744073709551615", "9223372036854775808", "99999999999999999999", "9223372036854775809"}), 10)
		}
	}
	if r.P(50) {
		v.Neg(v)
		if v.IsInt64() {
			v.Sub(v, big.NewInt(1))
		}
	}
	return &D{K: 'B', S: v.String()}
}

func randRune(r *Rng) rune {
	for {
		var c rune
		switch r.N(4) {
		case 0:
			c = rune(r.N(128))
		case 1:
			c = rune(r.N(0x3000))
		case 2:
			c = rune(r.N(0x10000))
		default:
			c = rune(r.N(0x110000))
		}
		if c < 0xD800 || c > 0xDFFF {
			return c
		}
	}
}

func randText(r *Rng, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if r.P(60) {
			b.WriteRune(pick(r, dChars))
		} else {
			b.WriteRune(randRune(r))
		}
	}
	return b.String()
}

func genD(r *Rng, depth int, odd bool) *D {
	if depth <= 0 || r.P(35) {
		return genAtom(r, odd)
	}
	switch r.W(50, 12, 16, 14, 8) {
	case 0:
		d := &D{K: 'l'}
		for n := r.In(1, 5); n > 0; n-- {
			d.L = append(d.L, genD(r, depth-1, odd))
		}
		return d
	case 1:
		d := &D{K: 'l'}
		for n := r.In(1, 3); n > 0; n-- {
			d.L = append(d.L, genD(r, depth-1, odd))
		}
		d.Tail = genAtom(r, odd)
		if r.P(20) {
			d.Tail = genD(r, depth-1, odd)
		}
		return d
	case 2:
		d := &D{K: 'a', Dim: []int{r.N(5)}}
		for i := 0; i < d.Dim[0]; i++ {
			d.L = append(d.L, genD(r, depth-1, odd))
		}
		return d
	case 3:
		d := &D{K: 'a'}
		total := 1
		for n := r.In(2, 4); n > 0; n-- {
			k := r.In(1, 3)
			if r.P(4) {
				k = 0
			}
			d.Dim = append(d.Dim, k)
			total *= k
		}
		if total == 0 {
			// an array without elements keeps its shape only up to its first empty dimension
			for i, k := range d.Dim {
				if k == 0 {
					for j := i; j < len(d.Dim); j++ {
						d.Dim[j] = 0
					}
					break
				}
			}
		}
		for i := 0; i < total; i++ {
			d.L = append(d.L, genD(r, depth-2, odd))
		}
		return d
	}
	q := pick(r, []string{"quote", "function", "quasiquote", "unquote"})
	if r.P(35) {
		// not what the abbreviations stand for: no operand, several, or a dotted one
		d := &D{K: 'l', L: []*D{{K: 'y', S: q}}}
		for n := r.N(4); n > 0; n-- {
			d.L = append(d.L, genD(r, depth-1, odd))
		}
		if r.P(30) {
			d.Tail = genD(r, depth-1, odd)
		}
		if r.P(20) {
			d.L = append([]*D{genD(r, 0, odd)}, d.L...)
		}
		return d
	}
	return &D{K: 'l', L: []*D{{K: 'y', S: q}, genD(r, depth-1, odd)}}
}

// glNode lets a test value be used in a program under a name.
func letVar(w *gl.World, name string, n gl.Node) *gl.World {
	return w.Let(gl.Variables{gl.NewSymbol(name): n})
}

func quietWorld() (*gl.World, *bytes.Buffer) {
	w := gl.New()
	var out bytes.Buffer
	w.SetStdout(&out)
	w.SetErrout(&bytes.Buffer{})
	return w, &out
}

// genBig makes a datum with one thing large: text, digits, length, rank or nesting.
func genBig(r *Rng, odd bool) *D {
	size := func(hi int) int {
		n := hi
		for k := r.N(4); k > 0; k-- {
			n = n/4 + 1
		}
		return r.In(1, n)
	}
	small := func() *D { return genD(r, r.N(2), odd) }
	switch r.N(8) {
	case 0:
		return &D{K: 's', S: randText(r, size(20000))}
	case 1:
		if odd {
			return &D{K: 'y', S: randText(r, size(1000))}
		}
		return &D{K: 'y', S: strings.Repeat("long-name", size(200))}
	case 2:
		v := new(big.Int).Lsh(big.NewInt(int64(r.In(1, 1000000))), uint(64+size(4000)))
		v.Add(v, big.NewInt(int64(r.N(1000000))))
		if r.P(50) {
			v.Neg(v)
		}
		return &D{K: 'B', S: v.String()}
	case 3:
		d := &D{K: 'l'}
		for n := size(3000); n > 0; n-- {
			d.L = append(d.L, small())
		}
		if r.P(30) {
			d.Tail = genAtom(r, odd)
		}
		return d
	case 4:
		d := &D{K: 'a', Dim: []int{size(3000)}}
		for i := 0; i < d.Dim[0]; i++ {
			d.L = append(d.L, small())
		}
		return d
	case 5:
		d := &D{K: 'a'}
		total := 1
		for n := size(40); n > 0; n-- {
			k := 1
			if total < 200 && r.P(25) {
				k = r.In(2, 3)
			}
			d.Dim = append(d.Dim, k)
			total *= k
		}
		for i := 0; i < total; i++ {
			d.L = append(d.L, genAtom(r, odd))
		}
		return d
	case 6:
		d := &D{K: 'a'}
		d.Dim = []int{r.In(1, 30), r.In(1, 30)}
		for i := 0; i < d.Dim[0]*d.Dim[1]; i++ {
			d.L = append(d.L, genAtom(r, odd))
		}
		return d
	}
	d := small()
	for n := size(200); n > 0; n-- {
		switch r.N(6) {
		case 0:
			d = &D{K: 'l', L: []*D{{K: 'y', S: "quote"}, d}}
		case 1:
			d = &D{K: 'a', Dim: []int{2}, L: []*D{d, genAtom(r, odd)}}
		case 2:
			d = &D{K: 'l', L: []*D{genAtom(r, odd)}, Tail: d}
		case 3:
			d = &D{K: 'l', L: []*D{genAtom(r, odd), d, genAtom(r, odd)}}
		default:
			d = &D{K: 'l', L: []*D{d}}
		}
	}
	return d
}
