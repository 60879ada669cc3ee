package main

import (
	"context"
	"fmt"
	"runtime"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// goDepth is the number of Go frames below the caller.
func goDepth() int {
	pcs := make([]uintptr, 1<<16)
	return runtime.Callers(0, pcs)
}

// tailPath nests the call in forms whose last part is in tail position.
func tailPath(r *Rng, call string, depth int) string {
	if depth == 0 {
		return call
	}
	in := tailPath(r, call, depth-1)
	switch r.N(12) {
	case 0:
		return "(if (< -1 n) " + in + " 0)"
	case 1:
		return "(if (< n -1) 0 " + in + ")"
	case 2:
		return "(cond ((< n -5) 1) (t " + in + "))"
	case 3:
		return "(cond ((> n -5) 1 " + in + ") (t 0))"
	case 4:
		return "(cond (nil 1) ((= n -7) 2) ((> n -1) n " + in + "))"
	case 5:
		return "(progn n acc " + in + ")"
	case 6:
		return "(let ((q n) (w acc)) " + in + ")"
	case 7:
		return "(let* ((q n) (w q)) w " + in + ")"
	case 8:
		return "(let ((k (lambda () acc))) (if (funcall k) " + in + " 0))"
	case 9:
		return "(progn " + in + ")"
	case 10:
		return "(let () " + in + ")"
	default:
		return "(let* () n " + in + ")"
	}
}

func c05Deep(c *Case, total int64) {
	m := newMon()
	var depths []int
	pr := &gl.Function{C: 1, F: func(ctx context.Context, _ *gl.World, args []gl.Node) (gl.Node, error) {
		depths = append(depths, goDepth())
		return gl.Null, nil
	}}
	w := m.W.Flet(gl.Functions{gl.NewSymbol("pr"): pr})
	names := []string{"lp", "loop1", "a-loop"}
	f := pick(c.R, names)
	call := pick(c.R, []string{"(%s (- n 1) (+ acc 1))", "(%s (1- n) (1+ acc))", "(%s (- n 1) (let ((z acc)) (+ z 1)))", "(%s (progn (- n 1)) (if t (+ acc 1) 0))"})
	call = fmt.Sprintf(call, f)
	more, first := "", "0"
	if c.R.P(40) {
		for i := c.R.In(1, 9); i > 0; i-- {
			more += fmt.Sprintf(" p%d", i)
			call = call[:len(call)-1] + pick(c.R, []string{fmt.Sprintf(" p%d)", i), " n)", " (+ p1 1))"})
			first += fmt.Sprintf(" %d", i)
		}
	}
	rest := ""
	switch c.R.N(4) {
	case 0:
		rest = pick(c.R, []string{" &rest r", " :rest r"})
		call = call[:len(call)-1] + strings.Repeat(" 1", c.R.N(8)) + " 2 n)"
	case 1:
		rest = " / tmp"
	}
	rest = more + rest
	end := pick(c.R, []string{"(if (< n 1) (progn (pr n) acc) %s)", "(cond ((< n 1) (pr n) acc) (t %s))", "(let ((stop (< n 1))) (if stop (progn (pr 0) acc) %s))", "(if (>= n 1) %s (progn (pr 0) acc))"})
	probe := fmt.Sprintf("(if (or (= n %d) (= n %d) (= n %d)) (pr n))", total, total/2, total/3)
	body := probe + " " + fmt.Sprintf(end, tailPath(c.R, call, pick(c.R, []int{0, 1, 2, 3, 4, 5, 12, 30})))
	var src string
	switch c.R.N(5) {
	case 0:
		src = fmt.Sprintf("(labels ((%s (n acc%s) %s)) (%s %d %s))", f, rest, body, f, total, first)
	case 1:
		src = fmt.Sprintf("(let ((k 5)) (labels ((other (x) x) (%s (n acc%s) (other k) %s)) (%s %d %s)))", f, rest, body, f, total, first)
	case 2:
		src = fmt.Sprintf("(defun %s (n acc%s) %s) (funcall #'%s %d %s)", f, rest, body, f, total, first)
	case 3:
		src = fmt.Sprintf("(let ((k 5)) (defun %s (n acc%s) k %s)) (apply #'%s (list %d %s))", f, rest, body, f, total, first)
	default:
		src = fmt.Sprintf("(defun %s (n acc%s) %s) (%s %d %s)", f, rest, body, f, total, first)
	}
	o := interpFuel(w, src, 1<<40)
	c.Eval()
	c.Distinct(src)
	c.Sample(src)
	c.Count("deep.iterations", int(total))
	if o.Kind != "value" || o.Val != fmt.Sprint(total) {
		c.Fail("tail-result", src, fmt.Sprint(total), o.Full())
		return
	}
	if len(depths) != 4 {
		c.Fail("tail-iterations", src, "4 probes", fmt.Sprint(depths))
		return
	}
	c.Count("deep.probes", len(depths))
	lo, hi := depths[0], depths[0]
	for _, d := range depths {
		if d < lo {
			lo = d
		}
		if d > hi {
			hi = d
		}
	}
	// the probe before and the one at the end stand in different forms
	if hi-lo > 60 {
		c.Fail("stack-grows", src, "the same stack depth in every iteration", fmt.Sprint(depths))
	}
}
