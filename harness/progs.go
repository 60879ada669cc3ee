package main

// Properties decided by running random programs against the reference evaluator.

var featAll = Feat{Closures: 3, Assign: 3, Calls: 3, Exits: 3, Unwind: 3, Dyn: 3, Handlers: 3, Errors: 2, Macros: 3, Setf: 3, Loops: 3, Select: 3, Lists: 3, Quasi: 2, Idiom: 2}

func (c *Case) genProg(f Feat, nTop, depth, budget int, idioms []idiom) ([]V, *Gen) {
	g := newGen(c.R, f, budget)
	g.idioms, g.suffix = idioms, c.suffix
	return g.program(nTop, depth), g
}

// diffCase is one differential case: a program, evaluated at once or one top-level form after
// the other by the same interpreter.
func (c *Case) diffCase(f Feat, idioms []idiom) {
	forms, g := c.genProg(f, c.R.In(1, 3), c.R.In(2, 6), c.R.In(40, 160), idioms)
	for k := range g.used {
		c.Count("form."+k, 1)
	}
	m := newMon()
	in := newRef()
	if c.R.P(60) {
		if !c.diffRunOn("differs", m, in, forms) {
			return
		}
	} else {
		done := []V{}
		for _, f := range forms {
			done = append(done, f)
			if !c.diffStep(m, in, []V{f}, done) {
				return
			}
		}
	}
	if c.R.P(30) {
		c.idle(m, srcs(forms))
	}
}

func registerDiff(id string, f Feat, quick, thorough int, rule string, need []string, idioms []idiom, extra func(c *Case) bool) {
	register(&Prop{
		ID: id, Quick: quick, Thorough: thorough,
		Rule: rule,
		Need: append([]string{"events", "outcome.value"}, need...),
		Run: func(c *Case) {
			if extra != nil && extra(c) {
				return
			}
			c.diffCase(f, idioms)
		},
		Assume: []string{"the reference evaluator (harness/ref.go) states the intended meaning of the forms it knows"},
	})
}

const diffRule = "random programs from a weighted grammar plus directed shapes; each runs in a fresh interpreter and in the reference evaluator, whose event traces and results must be the same; a case counts when it emitted events or failed, distinct by program text"

func init() {
	all := append(append(append(append(append([]idiom{}, idiomsScope...), idiomsTail...), idiomsExit...), idiomsDyn...), idiomsCond...)
	all = append(append(all, idiomsMacro...), idiomsOrder...)
	c01Idioms = all
	registerDiff("X00", featAll, 4000, 40000, diffRule, nil, all, nil)
	registerDiff("C04", Feat{Closures: 6, Assign: 5, Calls: 5, Exits: 1, Dyn: 1, Errors: 1, Macros: 1, Setf: 2, Loops: 4, Select: 2, Lists: 3, Quasi: 1, Idiom: 8},
		60000, 2000000, diffRule+"; every tenth case binds or assigns up to 40 variables in one form", []string{"form.loop", "form.closure", "many at once"}, idiomsScope, func(c *Case) bool {
			if c.Idx%10 != 4 {
				return false
			}
			c04Many(c)
			return true
		})
	registerDiff("C06", Feat{Closures: 3, Assign: 3, Calls: 2, Exits: 7, Unwind: 6, Dyn: 1, Handlers: 1, Errors: 2, Macros: 1, Loops: 3, Select: 2, Lists: 2, Idiom: 8},
		60000, 2000000, diffRule, []string{"form.block", "form.catch", "form.tagbody", "form.unwind-protect", "form.throw", "form.go"}, idiomsExit, nil)
	registerDiff("C07", Feat{Closures: 3, Assign: 2, Calls: 4, Exits: 5, Unwind: 4, Dyn: 9, Handlers: 3, Errors: 4, Macros: 1, Loops: 2, Select: 1, Lists: 2, Idiom: 12},
		90000, 2000000, diffRule+" (with-standard-input nests, reads, exits and errors included)", []string{"form.dynamic-let", "form.with-standard-input"}, idiomsDyn, nil)
	registerDiff("C08", Feat{Closures: 2, Assign: 2, Calls: 2, Exits: 3, Unwind: 3, Dyn: 1, Handlers: 9, Errors: 8, Loops: 1, Select: 1, Lists: 2, Idiom: 8},
		60000, 2000000, diffRule+"; every eighth case runs rows of a table of error-raising forms, in random contexts, and compares what their condition tells with the table, who sees it, and whether it can be resumed", []string{"form.with-handler", "form.raise", "table.taken", "table.passed-on", "table.handler-error", "table.resumed", "table.resignalled", "table.declined"}, idiomsCond, func(c *Case) bool {
			if c.Idx%8 != 3 {
				return false
			}
			c.c08Row()
			return true
		})
	registerDiff("C17", Feat{Closures: 3, Assign: 3, Calls: 3, Exits: 1, Unwind: 1, Dyn: 1, Handlers: 1, Errors: 2, Macros: 9, Setf: 4, Loops: 5, Select: 4, Lists: 3, Quasi: 7, Idiom: 12},
		90000, 2000000, diffRule+"; every twentieth case draws gensyms in two interpreters and looks for repetitions, every twentieth uses macros again while they are being expanded, every twentieth compares a macro with the same one without a name", []string{"form.macro", "form.template", "form.macroexpand", "gensyms", "reentrant expansion", "macro without a name"}, idiomsMacro, func(c *Case) bool {
			if c.Idx%20 == 7 {
				c17Gensym(c)
				return true
			}
			if c.Idx%20 == 13 {
				c17Reentry(c)
				return true
			}
			if c.Idx%20 == 17 {
				c17Anon(c)
				return true
			}
			return false
		})
	registerDiff("C23", Feat{Closures: 3, Assign: 4, Calls: 4, Exits: 2, Unwind: 1, Dyn: 1, Handlers: 1, Errors: 4, Macros: 2, Setf: 2, Loops: 4, Select: 9, Lists: 4, Quasi: 2, Idiom: 6},
		60000, 2000000, diffRule, []string{"outcome.error", "form.loop"}, idiomsOrder, nil)
}

func init() {
	registerDiff("C05", Feat{Closures: 4, Assign: 3, Calls: 6, Exits: 2, Unwind: 2, Dyn: 1, Handlers: 2, Errors: 2, Macros: 1, Loops: 2, Select: 2, Lists: 3, Idiom: 12},
		60000, 1500000, diffRule+"; every tenth case iterates a self-call through a random nest of tail positions thousands of times (the first ones 300 000 times) while a host function records the Go stack depth, which must stay the same",
		[]string{"deep.probes", "form.tail-closure", "form.tail-rest", "form.tail-arity", "form.tail-not", "form.tail-hidden"}, idiomsTail, func(c *Case) bool {
			switch {
			case c.Idx < 16:
				c05Deep(c, 300000)
			case c.Idx%10 == 0:
				c05Deep(c, int64(c.R.In(300, 1500)))
			default:
				return false
			}
			return true
		})
}
