package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/core"
)

// C05: channels against a model of bounded FIFO channels with rendezvous.

type chOp struct {
	kind string // w r tw tr close
	val  string // literal as printed
}

// lisp is the source of the operation; variant selects the spelling.
func (o chOp) lisp(short bool) string {
	switch o.kind {
	case "w":
		if short {
			return "(c<- " + quoteVal(o.val) + ")"
		}
		return "(channel-write c " + quoteVal(o.val) + ")"
	case "r":
		if short {
			return "(<-c)"
		}
		return "(channel-read c)"
	case "tw":
		return "(channel-try-write c " + quoteVal(o.val) + ")"
	case "tr":
		return "(channel-try-read c)"
	}
	return "(close-channel c)"
}

func quoteVal(v string) string {
	if strings.HasPrefix(v, "(") {
		return "'" + v
	}
	return v
}

type chWaiter struct {
	th  int
	val string
}

// chanModel runs the threads over a channel of the capacity (-1: unbuffered).
func chanModel(capacity int, ths [][]chOp) func(c *Chooser) string {
	if capacity < 0 {
		capacity = 0
	}
	return func(c *Chooser) string {
		n := len(ths)
		pc := make([]int, n)
		wait := make([]bool, n)
		res := make([][]string, n)
		var buf []string
		var snd, rcv []chWaiter
		closed := false
		done := func(i int, v string) {
			res[i] = append(res[i], v)
			wait[i] = false
			pc[i]++
		}
		take := func() (string, bool) { // a value is available
			if len(buf) > 0 {
				v := buf[0]
				buf = buf[1:]
				if len(snd) > 0 {
					buf = append(buf, snd[0].val)
					done(snd[0].th, "()")
					snd = snd[1:]
				}
				return v, true
			}
			if len(snd) > 0 {
				v := snd[0].val
				done(snd[0].th, "()")
				snd = snd[1:]
				return v, true
			}
			return "", false
		}
		give := func(v string) bool {
			if len(rcv) > 0 {
				r := rcv[0]
				rcv = rcv[1:]
				done(r.th, "("+v+" #t)")
				return true
			}
			if len(buf) < capacity {
				buf = append(buf, v)
				return true
			}
			return false
		}
		for {
			var en []int
			for i := range ths {
				if !wait[i] && pc[i] < len(ths[i]) {
					en = append(en, i)
				}
			}
			if len(en) == 0 {
				break
			}
			i := en[c.Pick(len(en))]
			o := ths[i][pc[i]]
			switch o.kind {
			case "w", "tw":
				if closed {
					done(i, "E")
				} else if give(o.val) {
					if o.kind == "w" {
						done(i, "()")
					} else {
						done(i, "#t")
					}
				} else if o.kind == "tw" {
					done(i, "#f")
				} else {
					wait[i] = true
					snd = append(snd, chWaiter{i, o.val})
				}
			case "r", "tr":
				if v, ok := take(); ok {
					if o.kind == "r" {
						done(i, "("+v+" #t)")
					} else {
						done(i, "(#t "+v+" #t)")
					}
				} else if closed {
					if o.kind == "r" {
						done(i, "(() #f)")
					} else {
						done(i, "(#t () #f)")
					}
				} else if o.kind == "tr" {
					done(i, "(#f () #t)")
				} else {
					wait[i] = true
					rcv = append(rcv, chWaiter{i, ""})
				}
			case "close":
				if closed {
					done(i, "E")
				} else {
					closed = true
					for _, r := range rcv {
						done(r.th, "(() #f)")
					}
					for _, s := range snd {
						done(s.th, "E")
					}
					rcv, snd = nil, nil
					done(i, "()")
				}
			}
		}
		for i := range ths {
			if pc[i] < len(ths[i]) {
				res[i] = append(res[i], "blocked")
			}
		}
		final := append([][]string{}, res...)
		// what is left in the channel afterwards
		var post []string
		for k := 0; k < 3; k++ {
			if v, ok := take(); ok {
				post = append(post, "(#t "+v+" #t)")
			} else if closed {
				post = append(post, "(#t () #f)")
			} else {
				post = append(post, "(#f () #t)")
			}
		}
		return key(final, post)
	}
}

func init() {
	core.Register(&core.Check{
		ID: "C05", Level: "model_checking", SelfConfirm: true, Stall: 120 * time.Second,
		Rule:        "every sequence of up to 5 (thorough: 6) channel operations by one thread on channels of capacity none, 0, 1, 2, 3, and every schedule (up to the stated preemptions) of 2 to 3 threads with 1 to 3 operations each; the results, which operations block and what is left in the channel must be an outcome of a FIFO channel model whose interleavings are all enumerated",
		Assumptions: []string{"Go channels behave as the scheduler models them (FIFO wait queues)"},
		Gen:         c05, Quick: 400 * time.Second, Thorough: 3000 * time.Second,
	})
}

func chProg(G *core.G, name string, capacity int, ths [][]chOp, bound int, short bool) {
	mk := "(make-channel " + itoa(capacity) + ")"
	if capacity < 0 {
		mk = "(make-channel)"
	}
	p := &Prog{Name: name, Bound: bound, Setup: []string{"(define c " + mk + ")"}, Post: []string{"(channel-try-read c)", "(channel-try-read c)", "(channel-try-read c)"}}
	for i, th := range ths {
		var l []string
		for k, o := range th {
			l = append(l, o.lisp(short != ((i+k)%2 == 1)))
		}
		p.Threads = append(p.Threads, l)
	}
	if name == "" {
		p.Name = fmt.Sprintf("cap %d: %s", capacity, thName(p.Threads))
	}
	G.Case(p.Name, func(t *core.T) {
		m, runs := outcomes(chanModel(capacity, ths))
		t.Add("model_runs", int64(runs))
		t.Add("model_outcomes", int64(len(m)))
		p.Check = oneOf(m)
		p.Budget = 60 * time.Second
		p.Run(t)
	})
}

func c05(G *core.G) {
	q := !G.Thorough()
	kinds := []string{"w", "r", "tw", "tr", "close"}
	caps := []int{-1, 0, 1, 2, 3}
	// one thread, every sequence; grouped so that a case is a batch
	depth := 5
	if !q {
		depth = 6
	}
	var seqs [][]string
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) > 0 {
			seqs = append(seqs, append([]string{}, p...))
		}
		if len(p) == depth {
			return
		}
		for _, k := range kinds {
			rec(append(p, k))
		}
	}
	rec(nil)
	vals := []string{"1", "()", "#f", `"s"`, "(7 8)", "2.5"}
	for _, cp := range caps {
		for lo := 0; lo < len(seqs); lo += 400 {
			hi := min(lo+400, len(seqs))
			cp, lo := cp, lo
			G.Case(fmt.Sprintf("sequences cap %d #%d", cp, lo), func(t *core.T) {
				for i, s := range seqs[lo:hi] {
					var th []chOp
					for k, kd := range s {
						th = append(th, chOp{kd, vals[(k+i)%len(vals)]})
					}
					grab(func(g2 *core.G) { chProg(g2, "", cp, [][]chOp{th}, 0, i%2 == 0) }, t)
					if t.Failed() {
						return
					}
				}
			})
		}
	}
	// large capacities
	for _, n := range []int{17, 64, 65, 100} {
		var th []chOp
		for i := 0; i < n+2; i++ {
			th = append(th, chOp{"tw", itoa(i)})
		}
		for i := 0; i < n+1; i++ {
			th = append(th, chOp{"tr", ""})
		}
		chProg(G, fmt.Sprintf("large capacity %d", n), n, [][]chOp{th}, 0, false)
	}
	// two threads
	b2 := 3
	if !q {
		b2 = 6
	}
	var one, two [][]chOp
	for _, k := range kinds {
		one = append(one, []chOp{{k, "1"}})
		for _, k2 := range kinds {
			two = append(two, []chOp{{k, "1"}, {k2, "2"}})
		}
	}
	renum := func(th []chOp, base int) []chOp {
		var o []chOp
		for i, x := range th {
			o = append(o, chOp{x.kind, itoa(base + i)})
		}
		return o
	}
	for _, cp := range []int{-1, 1, 2} {
		for i, a := range two {
			for j, b := range two {
				if j < i {
					continue
				}
				chProg(G, "", cp, [][]chOp{renum(a, 1), renum(b, 11)}, b2, (i+j)%2 == 0)
			}
		}
	}
	// three threads
	b3 := 2
	if !q {
		b3 = 3
	}
	for _, cp := range []int{-1, 1} {
		for i, a := range one {
			for j := i; j < len(one); j++ {
				for k, c := range two {
					if q && (i+j+k)%3 != 0 && cp == 1 {
						continue
					}
					chProg(G, "", cp, [][]chOp{renum(a, 1), renum(one[j], 11), renum(c, 21)}, b3, k%2 == 0)
				}
			}
		}
	}
	// order and no loss with longer runs
	mk := func(k string, n, base int) []chOp {
		var o []chOp
		for i := 0; i < n; i++ {
			o = append(o, chOp{k, itoa(base + i)})
		}
		return o
	}
	for _, cp := range []int{-1, 1, 2, 3} {
		chProg(G, "", cp, [][]chOp{mk("w", 3, 1), mk("r", 3, 0)}, b2, false)
		chProg(G, "", cp, [][]chOp{append(mk("w", 3, 1), chOp{"close", ""}), mk("r", 4, 0)}, b2, true)
		chProg(G, "", cp, [][]chOp{mk("w", 2, 1), mk("w", 2, 11), mk("r", 4, 0)}, b3, false)
		chProg(G, "", cp, [][]chOp{mk("r", 2, 1), mk("r", 2, 11), mk("w", 3, 1)}, b3, false)
		chProg(G, "", cp, [][]chOp{mk("tw", 3, 1), mk("tr", 2, 1), mk("r", 1, 0)}, b3, false)
	}
	// arguments
	wrongKinds(G, "make-channel", "int")
	wrongKinds(G, "channel-write", "channel", "*")
	wrongKinds(G, "channel-read", "channel")
	wrongKinds(G, "channel-try-write", "channel", "*")
	wrongKinds(G, "channel-try-read", "channel")
	wrongKinds(G, "close-channel", "channel")
	bad := []string{"(make-channel -1)", "(make-channel 1.5)", `(make-channel "1")`, "(channel-write 1 2)", "(channel-read '())", "(channel-try-read 3)", "(channel-try-write (atomic) 1)", "(close-channel (atomic))", "(channel-read (atomic))", "(make-channel 9223372036854775807 1)"}
	for _, s := range bad {
		prog(G, &Prog{Name: "bad " + s, Threads: [][]string{{s}}, Check: func(o *Obs) string {
			if o.String() != key([][]string{{"E"}}, nil) {
				return "an error was expected"
			}
			return ""
		}})
	}
}

// grab runs the cases gen emits inside t.
func grab(gen func(*core.G), t *core.T) {
	core.Inline(gen, t)
}
