package main

import (
	"fmt"
	"time"

	"verif/mc/core"
	"verif/mc/vsched"
)

// C08: proc-sleep, wake and sleep in virtual time.

func init() {
	core.Register(&core.Check{
		ID: "C08", Level: "model_checking", SelfConfirm: true, Stall: 120 * time.Second,
		Rule:        "every sequence of up to 4 wakes and sleeps by one thread, and every schedule (up to the stated preemptions, the clock overtaking threads included) of 2 to 4 threads with 1 to 3 of them each; results, what is left of the wakes and all elapsed times must be an outcome of a timed one-token model whose runs are all enumerated",
		Assumptions: []string{"time is virtual: delays are those asked for"},
		Gen:         c08, Quick: 400 * time.Second, Thorough: 3000 * time.Second,
	})
}

type slOp struct {
	kind string // wake ps sleep
	ms   int
}

func (o slOp) lisp() string {
	switch o.kind {
	case "wake":
		return "(wake p)"
	case "ps":
		return fmt.Sprintf("(proc-sleep p %d)", o.ms)
	}
	return fmt.Sprintf("(sleep %d)", o.ms)
}

// sleepModel: timed if exact, otherwise a sleep may end at any moment.
func sleepModel(ths [][]slOp, exact bool) func(c *Chooser) string {
	return func(c *Chooser) string {
		n := len(ths)
		pc := make([]int, n)
		wait := make([]int, n) // deadline, -1 when not waiting
		res := make([][]string, n)
		token := false
		now := 0
		for i := range wait {
			wait[i] = -1
		}
		done := func(i int, v string) {
			res[i] = append(res[i], v)
			wait[i] = -1
			pc[i]++
		}
		timeout := func(i int) {
			if ths[i][pc[i]].kind == "sleep" {
				done(i, "()")
			} else {
				done(i, "#f")
			}
		}
		for {
			var en []int // thread, or n+thread for its timeout
			min := -1
			for i := range ths {
				if pc[i] < len(ths[i]) {
					if wait[i] < 0 {
						en = append(en, i)
					} else if min < 0 || wait[i] < min {
						min = wait[i]
					}
				}
			}
			if exact && len(en) == 0 || !exact {
				for i := range ths {
					if wait[i] >= 0 && (!exact || wait[i] == min) {
						en = append(en, n+i)
					}
				}
			}
			if len(en) == 0 {
				break
			}
			i := en[c.Pick(len(en))]
			if i >= n {
				if exact {
					now = min
				}
				timeout(i - n)
				continue
			}
			o := ths[i][pc[i]]
			ms := o.ms
			if ms < 0 {
				ms = 0
			}
			switch o.kind {
			case "wake":
				var w []int
				for j := range ths {
					if wait[j] >= 0 && ths[j][pc[j]].kind == "ps" {
						w = append(w, j)
					}
				}
				if len(w) > 0 {
					if j := c.Pick(len(w)); true {
						done(w[j], "#t")
					}
				} else {
					token = true
				}
				done(i, `"OK"`)
			case "ps":
				if token {
					// when the timer is ready as well either may be taken
					if !exact && c.Pick(2) == 1 {
						done(i, "#f")
						break
					}
					token = false
					done(i, "#t")
				} else {
					wait[i] = now + ms
				}
			case "sleep":
				if ms == 0 {
					done(i, "()")
				} else {
					wait[i] = now + ms
				}
			}
		}
		post := []string{"#f", "#f"}
		if token {
			post[0] = "#t"
		}
		return key(res, post)
	}
}

func slProg(G *core.G, name string, ths [][]slOp, bound int) {
	p := &Prog{Name: name, Bound: bound, Setup: []string{}, Post: []string{"(proc-sleep p 3)", "(proc-sleep p 3)"}}
	p.RunSetup = true
	p.Setup = []string{"(define p (fork (lambda (p) 1)))", "(join p)"}
	for _, th := range ths {
		var l []string
		for _, o := range th {
			l = append(l, o.lisp())
		}
		p.Threads = append(p.Threads, l)
	}
	if name == "" {
		p.Name = thName(p.Threads)
	}
	G.Case(p.Name, func(t *core.T) {
		timed, r1 := outcomes(sleepModel(ths, true))
		free, r2 := outcomes(sleepModel(ths, false))
		t.Add("model_runs", int64(r1+r2))
		t.Add("model_outcomes", int64(len(free)))
		p.Budget = 60 * time.Second
		p.Check = func(o *Obs) string {
			s := o.String()
			forced := vsched.Forced()
			if !free[s] {
				return "not an outcome the model allows (allowed: " + keysOf(free) + ")"
			}
			if forced == 0 && !timed[s] {
				return "nothing was held up, and this is not an outcome the timed model allows (allowed: " + keysOf(timed) + ")"
			}
			for i, th := range ths {
				for k, op := range th {
					if k >= len(o.ops[i]) {
						break
					}
					r := o.ops[i][k]
					el := r.t1 - r.t0
					ms := int64(op.ms)
					if ms < 0 {
						ms = 0
					}
					switch {
					case op.kind == "wake" && el > 0 && forced == 0:
						return fmt.Sprintf("a wake took %dms", el)
					case op.kind == "ps" && r.val == "#f" && el < ms, op.kind == "sleep" && el < ms:
						return fmt.Sprintf("%s came back after %dms without having been woken", op.lisp(), el)
					case forced == 0 && op.kind != "wake" && el > ms:
						return fmt.Sprintf("%s took %dms", op.lisp(), el)
					}
				}
			}
			return ""
		}
		p.Run(t)
	})
}

func c08(G *core.G) {
	q := !G.Thorough()
	bd := func(quick, deep int) int {
		if q {
			return quick
		}
		return deep
	}
	w, s5, s9, s0, sl := slOp{"wake", 0}, slOp{"ps", 5}, slOp{"ps", 9}, slOp{"ps", 0}, slOp{"sleep", 5}
	all := []slOp{w, s5, s0, sl, {"sleep", 9}}
	// one thread
	var seqs [][]slOp
	var rec func(p []slOp)
	depth := 4
	if !q {
		depth = 5
	}
	rec = func(p []slOp) {
		if len(p) > 0 {
			seqs = append(seqs, append([]slOp{}, p...))
		}
		if len(p) == depth {
			return
		}
		for _, o := range all {
			rec(append(p, o))
		}
	}
	rec(nil)
	for lo := 0; lo < len(seqs); lo += 200 {
		hi := min(lo+200, len(seqs))
		lo := lo
		G.Case(fmt.Sprintf("sequences #%d", lo), func(t *core.T) {
			for _, s := range seqs[lo:hi] {
				core.Inline(func(g2 *core.G) { slProg(g2, "", [][]slOp{s}, 0) }, t)
				if t.Failed() {
					return
				}
			}
		})
	}
	for _, o := range []slOp{{"ps", 1}, {"ps", 999}, {"ps", 1000}, {"ps", 65536}, {"ps", 86400000}, {"ps", 5000000000}, {"ps", -1}, {"sleep", 1}, {"sleep", 1000}, {"sleep", 65537}, {"sleep", 5000000000}, {"sleep", 0}} {
		slProg(G, "length "+o.lisp(), [][]slOp{{o}}, 0)
		slProg(G, "length woken "+o.lisp(), [][]slOp{{o}, {sl, w}}, 0)
	}
	var one, two [][]slOp
	ops := []slOp{w, s5, s9, sl}
	for _, a := range ops {
		one = append(one, []slOp{a})
		for _, b := range ops {
			two = append(two, []slOp{a, b})
		}
	}
	for i, a := range two {
		for j := i; j < len(two); j++ {
			slProg(G, "", [][]slOp{a, two[j]}, bd(2, 4))
		}
	}
	for i, a := range one {
		for j := i; j < len(one); j++ {
			for _, c := range two {
				slProg(G, "", [][]slOp{a, one[j], c}, bd(1, 3))
			}
		}
	}
	slProg(G, "", [][]slOp{{w}, {w}, {s5}, {s9}}, bd(1, 3))
	slProg(G, "", [][]slOp{{w, w}, {s5, s5}, {s9, s0}}, bd(1, 3))
	slProg(G, "", [][]slOp{{w, w, w}, {s5, s5, s5}}, bd(2, 4))
	slProg(G, "", [][]slOp{{w, w, w}, {s9, sl, s0}}, bd(2, 4))
	slProg(G, "", [][]slOp{{sl, w, sl, w}, {s9, s9}}, bd(2, 4))
	slProg(G, "", [][]slOp{{{"sleep", 3}, w}, {s5, s5}}, bd(2, 4))
	slProg(G, "", [][]slOp{{{"sleep", 7}, w}, {s5, s5}}, bd(2, 4))
	// tokens are per process
	two2 := []string{"(define c (make-channel))", "(define p (fork (lambda (p) (<-c))))", "(define q (fork (lambda (p) (<-c))))"}
	allow(G, "one process is not another", two2, [][]string{{"(wake p)", "(proc-sleep q 5)", "(proc-sleep p 0)"}}, []string{"(proc-sleep p 1)", "(c<- 1)", "(c<- 1)"}, 0, `"OK",#f,#t => #f,(),() [2 processes blocked]`)
	allow(G, "one process is not another, concurrently", two2, [][]string{{"(wake p)"}, {"(proc-sleep q 5)"}}, []string{"(proc-sleep p 1)", "(proc-sleep q 1)", "(c<- 1)", "(c<- 1)"}, bd(1, 2), `"OK"|#f => #t,#f,(),() [2 processes blocked]`)
	allow(G, "a finished process keeps its wake", []string{"(define p (fork (lambda (p) 1)))", "(join p)"}, [][]string{{"(wake p)", "(wake p)", "(proc-sleep p 5)", "(proc-sleep p 5)"}}, nil, 0, `"OK","OK",#t,#f`)
	allow(G, "a process sleeps until woken", []string{"(define p (fork (lambda (p) (list (proc-sleep p 50) (proc-sleep p 50)))))"}, [][]string{{"(sleep 20)", "(wake p)", "(join p)"}}, nil, 0, `(),"OK",(#t #f)`)
	allow(G, "two processes wake each other", []string{"(define c (make-channel 1))", "(define p (fork (lambda (p) (let ((q (car (<-c)))) (wake q) (proc-sleep p 50)))))", "(define q (fork (lambda (q) (let ((r (proc-sleep q 50))) (wake p) r))))", "(c<- q)"}, [][]string{{"(list (join p) (join q))"}}, nil, 0, "(#t #t)")
	allow(G, "a scheduled process sleeps", []string{"(define p (schedule 5 (lambda (p) (proc-sleep p 50))))"}, [][]string{{"(sleep 20)", "(wake p)", "(join p)"}}, nil, 0, `(),"OK",#t`)
	wrongKinds(G, "proc-sleep", "process", "int")
	wrongKinds(G, "wake", "process")
	wrongKinds(G, "sleep", "int")
	for _, bad := range []string{"(proc-sleep 5 5)", "(proc-sleep (atomic) 5)", "(proc-sleep p 1.5)", "(proc-sleep p 'a)", "(proc-sleep p '())", `(proc-sleep p "5")`, "(wake 5)", "(wake (atomic))", "(wake '())", "(proc-sleep p)", "(wake)", "(sleep 'a)", `(sleep "5")`, "(sleep '())"} {
		allow(G, "bad "+bad, []string{"(define p (fork (lambda (p) 1)))", "(join p)", "(wake p)"}, [][]string{{bad}}, []string{"(proc-sleep p 1)", "(proc-sleep p 1)"}, 0, "E => #t,#f")
	}
}
