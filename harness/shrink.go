package main

import "strings"

// mismatch runs the program in fresh interpreters on both sides; want and got are empty when
// they agree or the reference gives up.
func mismatch(forms []V) (want, got, how string) {
	defer func() {
		if r := recover(); r != nil {
			want, got, how = "", "", ""
		}
	}()
	if len(forms) == 0 {
		return "", "", ""
	}
	in := newRef()
	in.Limit = 60000
	ro := in.Run(forms)
	if ro.Kind == "limit" {
		return "", "", ""
	}
	m := newMon()
	o := interpFuel(m.W, srcs(forms), 200000)
	if agrees(o, ro) && strings.Join(m.Events, "\x00") == strings.Join(in.Events, "\x00") {
		return "", "", ""
	}
	return trace(in.Events, Outcome{Kind: "value", Val: ro.String()}), trace(m.Events, Outcome{Kind: "value", Val: o.String()}) + "\n" + o.Full(), ro.Kind + " " + ro.Class + " " + o.Kind + " " + o.Class + " " + at(o.Msg)
}

// at is the innermost function of an error's trace.
func at(msg string) string {
	for _, l := range strings.Split(msg, "\n") {
		if strings.HasPrefix(l, "\tat ") {
			return l
		}
	}
	return ""
}

// shrink makes a failing program smaller, for the report only.
func shrink(forms []V, budget int) []V {
	_, _, how0 := mismatch(forms)
	fails := func(fs []V) bool {
		if budget <= 0 {
			return false
		}
		budget--
		_, _, how := mismatch(fs)
		return how != "" && how == how0
	}
	if !fails(forms) {
		return forms
	}
	for again := true; again && budget > 0; {
		again = false
		for i := len(forms) - 1; i >= 0; i-- {
			c := append(append([]V{}, forms[:i]...), forms[i+1:]...)
			if fails(c) {
				forms, again = c, true
			}
		}
		for i := range forms {
			set := func(v V) []V {
				c := append([]V{}, forms...)
				c[i] = v
				return c
			}
			for progress := true; progress && budget > 0; {
				progress = false
				for _, v := range reductions(forms[i]) {
					if fails(set(v)) {
						forms, progress, again = set(v), true, true
						break
					}
				}
			}
		}
	}
	return forms
}

// reductions lists the forms one step smaller, the boldest first.
func reductions(v V) []V {
	p, ok := v.(*Pair)
	if !ok {
		return nil
	}
	items := []V{}
	var tail V = p
	for {
		q, ok := tail.(*Pair)
		if !ok {
			break
		}
		items = append(items, q.a)
		tail = q.d
	}
	build := func(xs []V) V {
		r := tail
		for i := len(xs) - 1; i >= 0; i-- {
			r = &Pair{xs[i], r}
		}
		return r
	}
	out := []V{int64(0), rNil}
	for _, x := range items {
		if _, ok := x.(*Pair); ok {
			out = append(out, x)
		}
	}
	for i := len(items) - 1; i >= 1; i-- {
		out = append(out, build(append(append([]V{}, items[:i]...), items[i+1:]...)))
	}
	for i, x := range items {
		for _, y := range reductions(x) {
			xs := append([]V{}, items...)
			xs[i] = y
			out = append(out, build(xs))
		}
	}
	return out
}
