package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verif/mc/core"
	"verif/mc/vsched"
)

// C07: schedule, abandon and reset-timeout in virtual time.

func init() {
	core.Register(&core.Check{
		ID: "C07", Level: "model_checking", SelfConfirm: true, Stall: 120 * time.Second,
		Rule:        "every schedule (up to the stated preemptions, the clock overtaking threads included) of a scheduled process and 1 to 3 threads that abandon it, reset it and join it at every combination of times around its due time; the process runs at most once, not before it is due (resets counted), not at all if abandoned before it is due, exactly once if never abandoned, in time if no thread was held up, and join gives its value; under both the old and the new behaviour of Go's timers",
		Assumptions: []string{"time is virtual: delays are those asked for, computation takes none unless the explorer lets the clock overtake a thread"},
		Gen:         c07, Quick: 400 * time.Second, Thorough: 3000 * time.Second,
	})
}

const notDone = `"task was already completed or abandoned"`

type schedCase struct {
	delay   int64
	threads [][]string
	value   string // what a run returns, as printed
	self    bool   // the function resets or abandons its own process
}

func atoi64(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic("harness: not a number: " + s)
	}
	return n
}

func (c *schedCase) check(o *Obs) string {
	n, started, s0, s1 := atoi64(o.Post[0]), atoi64(o.Post[1]), atoi64(o.Post[2]), atoi64(o.Post[3])
	delay := c.delay
	if delay < 0 {
		delay = 0
	}
	if n > 1 {
		return "the function ran more than once"
	}
	var resets, abandons []opRes
	joined := 0
	for i, th := range c.threads {
		for k, src := range th {
			if k >= len(o.ops[i]) {
				if k == len(o.Res[i])-1 && o.Res[i][k] == "blocked" {
					return fmt.Sprintf("%s never returned", src)
				}
				continue
			}
			r := o.ops[i][k]
			switch src {
			case "(reset-timeout s)":
				if r.val != `"OK"` && r.val != notDone {
					return "reset-timeout gave " + r.val
				}
				resets = append(resets, r)
			case "(abandon s)":
				if r.val != `"OK"` {
					return "abandon gave " + r.val
				}
				abandons = append(abandons, r)
			case "(join s)":
				if r.val == "E" {
					break
				}
				joined++
				if joined > 1 {
					return "two joins succeeded"
				}
				w := c.value
				if n == 0 {
					w = "()"
				}
				if r.val != w {
					return fmt.Sprintf("join gave %s and not %s", r.val, w)
				}
				if n == 1 && r.t1 < started {
					return "join returned before the function started"
				}
			}
		}
	}
	// the earliest moment it can be due
	due := s0 + delay
	for again := true; again; {
		again = false
		for _, r := range resets {
			if r.t1 < due && r.t0+delay > due {
				due, again = r.t0+delay, true
			}
		}
	}
	if n == 1 && started < due {
		return fmt.Sprintf("it ran at %dms, and was due at %dms", started-s0, due-s0)
	}
	for _, a := range abandons {
		if a.t1 < due && n == 1 {
			return fmt.Sprintf("it was abandoned at %dms, was due at %dms, and ran", a.t1-s0, due-s0)
		}
	}
	if len(abandons) == 0 && n != 1 && !c.self {
		return "it never ran although nobody abandoned it"
	}
	if n == 0 {
		ok := c.self
		for range abandons {
			ok = true
		}
		if !ok {
			return "it never ran"
		}
	}
	for _, r := range resets {
		early := r.t1 < due
		for _, a := range abandons {
			if a.inv < r.res {
				early = false
			}
		}
		if early && r.val != `"OK"` {
			return "a reset before the due time claims that the task was completed or abandoned"
		}
		if n == 1 && r.t0 > started && r.val != notDone {
			return "a reset after the function started claims to have reset it"
		}
	}
	if n == 1 && vsched.Forced() == 0 {
		last := s1
		for _, r := range resets {
			if r.t1 > last && r.t1 <= started {
				last = r.t1
			}
		}
		if started > last+delay {
			return fmt.Sprintf("it ran at %dms, and should have at %dms", started-s0, last+delay-s0)
		}
	}
	return ""
}

// sched registers one program under both kinds of timers.
func sched(G *core.G, name string, delay int64, fn, args, value string, threads [][]string, bound int) {
	for _, old := range []bool{false, true} {
		old := old
		nm := name
		if old {
			nm += " (old timers)"
		}
		c := &schedCase{delay: delay, threads: threads, value: value, self: strings.Contains(fn, "abandon")}
		p := &Prog{Name: nm, RunSetup: true, Bound: bound, Threads: threads,
			Setup: []string{"(define n (atomic))", "(define started 0)", "(define s0 (millis))", fmt.Sprintf("(define s (schedule %d %s %s))", delay, fn, args), "(define s1 (millis))"},
			Post:  []string{"(atomic-load n)", "started", "s0", "s1"},
			Check: c.check, Prep: panicPrim}
		p.Before = func() { vsched.OldTimers = old }
		prog(G, p)
	}
}

func c07(G *core.G) {
	q := !G.Thorough()
	bd := func(quick, deep int) int {
		if q {
			return quick
		}
		return deep
	}
	const mark = "(set! started (millis)) (atomic-add! n 1) "
	f := "(lambda (p) " + mark + "7)"
	// what it runs and returns
	for _, v := range [][4]string{
		{f, "", "7"}, {"(lambda (p) " + mark + "())", "", "()"}, {"(lambda (p) " + mark + "(car 1))", "", "()"}, {"(lambda (p) " + mark + "(mc-panic))", "", "()"},
		{"(lambda (p a b) " + mark + "(list a b))", "1 '(2)", "(1 (2))"}, {"(lambda (p . r) " + mark + "r)", "", "()"}, {"(lambda (p . r) " + mark + "r)", "1 2", "(1 2)"}, {"(lambda (p a . r) " + mark + "(list a r))", "1 2", "(1 (2))"},
		{"(lambda (p) " + mark + "(join p) 3)", "", "3"}, {"(lambda (p) " + mark + "(list (reset-timeout p)))", "", "(" + notDone + ")"}, {"(lambda (p) " + mark + "(list (abandon p)))", "", `("OK")`},
		{"(lambda (p) " + mark + "(sleep 30) 8)", "", "8"}, {"(lambda (p) " + mark + "(list (proc-sleep p 5)))", "", "(#f)"}, {"(let ((y 5)) (lambda (p) " + mark + "y))", "", "5"},
	} {
		for _, d := range []int64{0, 1, 20, -5} {
			sched(G, fmt.Sprintf("runs %d %s %s", d, v[0], v[1]), d, v[0], v[1], v[2], [][]string{{"(join s)", "(join s)"}}, bd(1, 2))
		}
		sched(G, fmt.Sprintf("abandoned %s %s", v[0], v[1]), 20, v[0], v[1], v[2], [][]string{{"(sleep 10)", "(abandon s)", "(join s)"}}, bd(1, 2))
		sched(G, fmt.Sprintf("reset %s %s", v[0], v[1]), 20, v[0], v[1], v[2], [][]string{{"(sleep 10)", "(reset-timeout s)", "(join s)"}}, bd(1, 2))
		sched(G, fmt.Sprintf("reset when done %s %s", v[0], v[1]), 20, v[0], v[1], v[2], [][]string{{"(sleep 60)", "(reset-timeout s)", "(reset-timeout s)", "(abandon s)", "(join s)"}}, bd(1, 2))
	}
	// one thread: every sequence of (wait, operation)
	type step struct {
		wait int
		op   string
	}
	var steps []step
	for _, w := range []int{0, 10, 20, 25} {
		for _, op := range []string{"(reset-timeout s)", "(abandon s)"} {
			steps = append(steps, step{w, op})
		}
	}
	code := func(ss ...step) []string {
		var l []string
		for _, s := range ss {
			if s.wait > 0 {
				l = append(l, fmt.Sprintf("(sleep %d)", s.wait))
			}
			l = append(l, s.op)
		}
		return l
	}
	name := func(ths [][]string) string {
		return strings.NewReplacer("(reset-timeout s)", "reset", "(abandon s)", "abandon", "(join s)", "join", "(sleep ", "+", ")", "").Replace(thName(ths))
	}
	run := func(d int64, bound int, ths ...[]string) {
		sched(G, fmt.Sprintf("delay %d: %s", d, name(ths)), d, f, "", "7", ths, bound)
	}
	for _, d := range []int64{0, 20} {
		for _, a := range steps {
			run(d, bd(2, 4), append(code(a), "(join s)"))
			run(d, bd(1, 3), code(a), []string{"(join s)"})
			if d == 0 && a.wait > 10 {
				continue
			}
			for _, b := range steps {
				run(d, bd(1, 3), append(code(a, b), "(join s)"))
				if d == 0 {
					continue
				}
				for _, c := range steps {
					if c.wait == 25 {
						continue
					}
					run(d, bd(1, 2), append(code(a, b, c), "(join s)"))
				}
			}
		}
	}
	// two and three threads
	for _, d := range []int64{0, 20} {
		for i, a := range steps {
			for j := i; j < len(steps); j++ {
				if d == 0 && (a.wait > 10 || steps[j].wait > 10) {
					continue
				}
				b := steps[j]
				run(d, bd(1, 2), append(code(a), "(join s)"), code(b))
				if a.wait == b.wait {
					for _, c := range steps {
						if c.wait <= 10 {
							run(d, bd(1, 2), code(a, c), code(b), []string{"(join s)"})
						}
					}
				}
			}
		}
	}
	// long chains of resets
	for _, k := range []int{4, 6} {
		var l []string
		for i := 0; i < k; i++ {
			l = append(l, "(sleep 15)", "(reset-timeout s)")
		}
		run(20, bd(1, 2), append(append([]string{}, l...), "(join s)"))
		run(20, bd(1, 2), append(append([]string{}, l...), "(sleep 15)", "(abandon s)", "(join s)"))
		run(20, bd(1, 2), append(append([]string{}, l...), "(sleep 25)", "(abandon s)", "(join s)"))
	}
	// several scheduled processes of one function
	allow(G, "one function scheduled twice", []string{"(define (w p n) (list n (join p)))", "(define a (schedule 5 w 1))", "(define b (schedule 5 w 2))"}, [][]string{{"(join a)", "(join b)"}}, nil, bd(1, 2), "(1 ()),(2 ())")
	allow(G, "one abandoned, the other not", []string{"(define (w p n) n)", "(define a (schedule 50 w 1))", "(define b (schedule 50 w 2))"}, [][]string{{"(abandon a)", "(join a)", "(join b)"}}, nil, bd(1, 2), `"OK",(),2`, `"OK",1,2`)
	allow(G, "the earlier one first", []string{"(define c (make-channel 2))", "(define a (schedule 50 (lambda (p) (c<- 1))))", "(define b (schedule 10 (lambda (p) (c<- 2))))"}, [][]string{{"(list (car (<-c)) (car (<-c)))"}}, nil, 0, "(2 1)")
	allow(G, "fork and schedule one function", []string{"(define (w p n) (list n (join p)))", "(define a (schedule 5 w 1))", "(define b (fork w 2))"}, [][]string{{"(join a)"}, {"(join b)"}}, nil, bd(1, 2), "(1 ()) | (2 ())")
	allow(G, "a process abandons another", []string{"(define n (atomic))", "(define a (schedule 50 (lambda (p) (atomic-add! n 1))))", "(define b (fork (lambda (p) (abandon a))))"}, [][]string{{"(join b)", "(join a)"}}, []string{"(atomic-load n)"}, 0, `"OK",() => 0`)
	wrongKinds(G, "schedule", "int", "proc1")
	wrongKinds(G, "abandon", "none")
	wrongKinds(G, "reset-timeout", "none")
	for _, bad := range []string{"(schedule 5)", "(schedule 'a (lambda (p) 1))", "(schedule 1.5 (lambda (p) 1))", `(schedule "5" (lambda (p) 1))`, "(schedule 5 6)", "(schedule 5 (lambda () 1))", "(schedule 5 (lambda (p) 1) 2)", "(schedule 5 (lambda (p a) 1))", "(schedule 5 (lambda (p a . r) 1))", "(abandon 5)", "(reset-timeout 5)", "(abandon (atomic))", "(reset-timeout (make-channel))", "(abandon)", "(reset-timeout)", "(abandon (fork (lambda (p) 1)))", "(reset-timeout (fork (lambda (p) 1)))", "(schedule '() (lambda (p) 1))", "(schedule 5 '())"} {
		allow(G, "bad "+bad, nil, [][]string{{"(on-error " + bad + " (lambda (e) 'err))", "(join (schedule 1 (lambda (p) 8)))"}}, nil, 1, "err,8")
	}
}
