package main

import (
	"os"
	"strings"
)

// diffRun runs the program on both sides and compares events and result.
// It returns false when the reference gave up (the case is discarded).
func (c *Case) diffRun(kindName string, forms []V) bool {
	return c.diffRunOn(kindName, newMon(), newRef(), forms)
}

func (c *Case) diffRunOn(kindName string, m *Mon, in *Ref, forms []V) bool {
	return c.diffStepK(kindName, m, in, forms, forms)
}

// diffStep evaluates forms in interpreters which have evaluated the rest of all before.
func (c *Case) diffStep(m *Mon, in *Ref, forms, all []V) bool {
	return c.diffStepK("differs", m, in, forms, all)
}

func (c *Case) diffStepK(kindName string, m *Mon, in *Ref, forms, all []V) bool {
	in.Events = nil
	in.Limit = in.steps + 60000
	ro := in.Run(forms)
	if ro.Kind == "limit" {
		c.Count("discarded", 1)
		return false
	}
	text := srcs(forms)
	m.Events = nil
	o := m.Run(text)
	c.Eval()
	want := trace(in.Events, Outcome{Kind: "value", Val: ro.String()})
	got := trace(m.Events, Outcome{Kind: "value", Val: o.String()})
	same := agrees(o, ro) && strings.Join(m.Events, "\x00") == strings.Join(in.Events, "\x00")
	c.Count("events", len(in.Events))
	c.Count("outcome."+ro.Kind, 1)
	if len(in.Events) > 0 || ro.Kind == "error" {
		c.Distinct(text)
	}
	if !same {
		input, got := srcs(all), got+"\n"+o.Full()
		if c.w.fails < 3 && os.Getenv("VMON_NOSHRINK") == "" {
			small := shrink(all, 3000)
			if w, g, _ := mismatch(small); w != "" {
				got = g + "\n;; shrunk from\n" + input
				input, want = srcs(small), w
			}
		}
		c.Fail(kindName, input, want, got)
		return false
	}
	if len(in.Events) >= 3 {
		c.Sample(text + " ;; " + trace(in.Events, o))
	}
	in.Events = nil
	return true
}

// idle checks that a finished evaluation left no handler, catcher or block behind.
func (c *Case) idle(m *Mon, after string) {
	m.Events = nil
	o := m.Run(`(list (catch 'vmon-idle (throw 'vmon-idle 1)) (with-handler (lambda (c) (ev 'idle) (throw 'x (ev (continue-condition c '(5 6))))) (+ 1 (car 2))))`)
	c.Eval()
	if o.Kind != "value" || o.Val != "(1 6)" || len(m.Events) != 1 {
		c.Fail("not-idle", after, "(1 6)", trace(m.Events, o)+o.Full())
	}
	for _, tag := range []string{"'t1", "'t2", "7", `"tag"`, `#\c`} {
		m.Events = nil
		o := m.Run("(throw " + tag + " 0)")
		if o.Kind != "error" || o.Class != "<control-error>" || len(m.Events) != 0 {
			c.Fail("stale-catch", after+"\n(throw "+tag+" 0)", "<control-error> without any handler call", trace(m.Events, o)+o.Full())
		}
	}
}
