package main

import (
	"strconv"
	"strings"
)

// T reads Lisp text into reference data; $1, $2 ... stand for the arguments, and $$ for all of
// them spliced.
func T(text string, args ...V) V {
	fs := TT(text, args...)
	if len(fs) != 1 {
		bug("T: %d forms in %q", len(fs), text)
	}
	return fs[0]
}

// TT reads several forms.
func TT(text string, args ...V) []V {
	r := &tReader{s: text, args: args}
	out := []V{}
	for {
		r.ws()
		if r.p >= len(r.s) {
			return out
		}
		out = append(out, r.read())
	}
}

type tReader struct {
	s    string
	p    int
	args []V
}

func (r *tReader) ws() {
	for r.p < len(r.s) && strings.IndexByte(" \t\n", r.s[r.p]) >= 0 {
		r.p++
	}
}

func (r *tReader) read() V {
	r.ws()
	if r.p >= len(r.s) {
		bug("T: end of %q", r.s)
	}
	switch c := r.s[r.p]; c {
	case '(':
		r.p++
		items := []V{}
		var tail V = rNil
		for {
			r.ws()
			if r.p >= len(r.s) {
				bug("T: unclosed in %q", r.s)
			}
			if r.s[r.p] == ')' {
				r.p++
				break
			}
			if strings.HasPrefix(r.s[r.p:], "$$") {
				r.p += 2
				items = append(items, r.args...)
				continue
			}
			if strings.HasPrefix(r.s[r.p:], ". ") {
				r.p += 2
				tail = r.read()
				continue
			}
			items = append(items, r.read())
		}
		for i := len(items) - 1; i >= 0; i-- {
			tail = &Pair{items[i], tail}
		}
		return tail
	case '\'':
		r.p++
		return Q(r.read())
	case '`':
		r.p++
		return LS("quasiquote", r.read())
	case ',':
		r.p++
		return LS("unquote", r.read())
	case '$':
		i := r.p + 1
		for i < len(r.s) && r.s[i] >= '0' && r.s[i] <= '9' {
			i++
		}
		n, _ := strconv.Atoi(r.s[r.p+1 : i])
		r.p = i
		return r.args[n-1]
	case '"':
		i := strings.IndexByte(r.s[r.p+1:], '"')
		v := r.s[r.p+1 : r.p+1+i]
		r.p += i + 2
		return v
	case '#':
		if strings.HasPrefix(r.s[r.p:], "#'") {
			r.p += 2
			return LS("function", r.read())
		}
		if strings.HasPrefix(r.s[r.p:], `#\`) {
			c := []rune(r.s[r.p+2:])[0]
			r.p += 2 + len(string(c))
			return Chr(c)
		}
	}
	i := r.p
	for i < len(r.s) && strings.IndexByte(" \t\n()", r.s[i]) < 0 {
		i++
	}
	tok := r.s[r.p:i]
	r.p = i
	if n, err := strconv.ParseInt(tok, 10, 64); err == nil {
		return n
	}
	if strings.ContainsAny(tok, "0123456789") && strings.Contains(tok, ".") {
		if f, err := strconv.ParseFloat(tok, 64); err == nil {
			return f
		}
	}
	switch {
	case tok == "nil":
		return rNil
	case tok == "t":
		return rT
	case tok[0] == '&' || tok[0] == ':':
		return &Kw{tok}
	}
	return S(tok)
}
