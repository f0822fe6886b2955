package main

import (
	"fmt"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C04", Level: "model_checking", SelfConfirm: true, Stall: 120 * time.Second,
		Rule:        "every sequence of 3 atomic operations over boundary integers against a 64-bit cell, argument errors, and every schedule (up to the stated preemptions) of 2 to 4 threads with 1 to 3 atomic operations each, compared with all sequential orders that respect real time",
		Assumptions: []string{"hardware atomics are atomic"},
		Gen:         c04, Quick: 300 * time.Second, Thorough: 3000 * time.Second,
	})
}

type atomOp struct {
	src string
	f   func(c *int64) string
}

func tf(b bool) string {
	if b {
		return "#t"
	}
	return "#f"
}

func atomOps(vals []int64) []atomOp {
	var l []atomOp
	l = append(l, atomOp{"(atomic-load a)", func(c *int64) string { return fmt.Sprint(*c) }})
	for _, v := range vals {
		v := v
		l = append(l, atomOp{fmt.Sprintf("(atomic-store! a %d)", v), func(c *int64) string { *c = v; return "()" }})
		l = append(l, atomOp{fmt.Sprintf("(atomic-add! a %d)", v), func(c *int64) string { *c += v; return fmt.Sprint(*c) }})
		l = append(l, atomOp{fmt.Sprintf("(atomic-swap! a %d)", v), func(c *int64) string { o := *c; *c = v; return fmt.Sprint(o) }})
		for _, w := range vals {
			w := w
			l = append(l, atomOp{fmt.Sprintf("(atomic-compare-and-swap! a %d %d)", v, w), func(c *int64) string {
				if *c == v {
					*c = w
					return "#t"
				}
				return "#f"
			}})
		}
	}
	return l
}

func c04(G *core.G) {
	q := !G.Thorough()
	// sequential
	vals := []int64{0, 1, -1, 2, 255, 256, 16777217, 2147483648, -2147483649, 4294967296, 9007199254740993, 9223372036854775807, -9223372036854775807}
	ops := atomOps(vals)
	for i := range ops {
		i := i
		G.Case("sequential from "+ops[i].src, func(t *core.T) {
			for _, ini := range []int64{0, 5, 9223372036854775807, -9223372036854775807} {
				for j := range ops {
					third := []int{0, (i + j) % len(ops), (i*7 + j*3 + 1) % len(ops)}
					for _, k := range third {
						env := newEnv()
						evalAll(env, []string{fmt.Sprintf("(define a (atomic %d))", ini), "(define b (atomic 3))"})
						c := ini
						for _, x := range []atomOp{ops[i], ops[j], ops[k], ops[0]} {
							v, err := g.Eval(parse(x.src), env)
							want := x.f(&c)
							t.Steps(1)
							if got := show(v, err); got != want {
								t.Fail("oracle", "after atomic %d, %s, %s: %s gave %s, not %s", ini, ops[i].src, ops[j].src, x.src, got, want)
								return
							}
						}
						t.State(fmt.Sprint(c))
						t.Trace(1)
						if v, err := g.Eval(parse("(atomic-load b)"), env); show(v, err) != "3" {
							t.Fail("oracle", "another atomic changed after %s, %s", ops[i].src, ops[j].src)
						}
					}
				}
				t.Progress()
			}
		})
	}
	for _, s := range []string{"(atomic 1.0)", `(atomic "1")`, "(atomic '(1))", "(atomic-load 1)", "(atomic-load (make-channel))", "(atomic-store! a 1.5)", "(atomic-store! a '())", "(atomic-store! 1 1)", "(atomic-add! a \"1\")", "(atomic-add! a 1.0)", "(atomic-add! 'a 1)", "(atomic-swap! a #t)", "(atomic-swap! {a: 1} 2)", "(atomic-compare-and-swap! a 5 1.0)", "(atomic-compare-and-swap! a 5.0 1)", "(atomic-compare-and-swap! 5 5 1)", "(atomic-compare-and-swap! a 5 '())"} {
		s := s
		G.Case("argument error "+s, func(t *core.T) {
			env := newEnv()
			evalAll(env, []string{"(define a (atomic 5))"})
			v, err := g.Eval(parse(s), env)
			if show(v, err) != "E" {
				t.Fail("oracle", "%s gave %s, not an error", s, show(v, err))
			}
			v, err = g.Eval(parse("(atomic-load a)"), env)
			if show(v, err) != "5" {
				t.Fail("oracle", "%s failed and changed the atomic to %s", s, show(v, err))
			}
			t.Trace(1)
			t.Steps(2)
			t.State(s)
		})
	}
	wrongKinds(G, "atomic", "int")
	wrongKinds(G, "atomic-load", "atomic")
	wrongKinds(G, "atomic-store!", "atomic", "int")
	wrongKinds(G, "atomic-add!", "atomic", "int")
	wrongKinds(G, "atomic-swap!", "atomic", "int")
	wrongKinds(G, "atomic-compare-and-swap!", "atomic", "int", "int")
	G.Case("initial values", func(t *core.T) {
		for _, c := range [][2]string{{"(atomic-load (atomic))", "0"}, {"(atomic-load (atomic 0))", "0"}, {"(atomic-load (atomic -7))", "-7"}, {"(atomic-load (atomic 9223372036854775807))", "9223372036854775807"}, {"(begin (define x 4) (define a (atomic x)) (atomic-add! a 1) x)", "4"}} {
			v, err := g.Eval(parse(c[0]), newEnv())
			if show(v, err) != c[1] {
				t.Fail("oracle", "%s gave %s, not %s", c[0], show(v, err), c[1])
			}
			t.Trace(1)
			t.Steps(1)
			t.State(c[0])
		}
	})
	// concurrent
	small := []string{"(atomic-load a)", "(atomic-store! a 1)", "(atomic-add! a 1)", "(atomic-swap! a 2)", "(atomic-compare-and-swap! a 0 1)", "(atomic-compare-and-swap! a 1 2)"}
	big := strings.NewReplacer(" 1)", " 4294967297)", " 2)", " -5)", " 0 ", " 0 ", " 1 ", " 4294967297 ")
	setup := []string{"(define a (atomic 0))"}
	post := []string{"(atomic-load a)"}
	b2, b3 := 4, 3
	if !q {
		b2, b3 = 8, 5
	}
	var pairs [][]string
	for _, x := range small {
		for _, y := range small {
			pairs = append(pairs, []string{x, y})
		}
	}
	for i, a := range pairs {
		for j := i; j < len(pairs); j++ {
			ths := [][]string{a, pairs[j]}
			if (i+j)%2 == 1 {
				ths = [][]string{{a[0], a[1]}, {big.Replace(pairs[j][0]), big.Replace(pairs[j][1])}}
			}
			lin(G, "pairs "+thName(ths), setup, ths, post, b2)
		}
	}
	for i, x := range small {
		for j := i; j < len(small); j++ {
			for _, p := range pairs {
				ths := [][]string{{x}, {small[j]}, p}
				lin(G, "three "+thName(ths), setup, ths, post, b3)
			}
		}
	}
	for i, x := range small[1:] {
		for j, y := range small[1:] {
			ths := [][]string{{x}, {y}, {small[1+(i+j)%5]}, {"(atomic-add! a 3)"}}
			lin(G, "four "+thName(ths), setup, ths, post, 2)
		}
	}
	// counting and spin-free mutual exclusion by processes
	for _, n := range []int{1, 2, 3} {
		n := n
		var inc []string
		for i := 0; i < n; i++ {
			inc = append(inc, "(atomic-add! a 1)")
		}
		work := "(lambda (p) " + strings.Join(inc, " ") + ")"
		bb := 1
		if !q {
			bb = 2
		}
		prog(G, &Prog{Name: fmt.Sprintf("processes count to %d", 2*n), RunSetup: true, Bound: bb,
			Setup:   []string{"(define a (atomic))", "(define p (fork " + work + "))", "(define q (fork " + work + "))"},
			Threads: [][]string{{"(begin (join p) (join q) (atomic-load a))"}},
			Check: func(o *Obs) string {
				if o.Res[0][0] != itoa(2*n) {
					return "increments were lost"
				}
				return ""
			}})
		prog(G, &Prog{Name: fmt.Sprintf("one winner of %d", n+1), Bound: 3, Setup: setup,
			Threads: func() [][]string {
				var l [][]string
				for i := 0; i <= n; i++ {
					l = append(l, []string{fmt.Sprintf("(atomic-compare-and-swap! a 0 %d)", i+1)})
				}
				return l
			}(), Post: post,
			Check: func(o *Obs) string {
				w := 0
				for i, r := range o.Res {
					if r[0] == "#t" {
						w++
						if o.Post[0] != itoa(i+1) {
							return "the winner's value is not there"
						}
					}
				}
				if w != 1 {
					return "not exactly one compare-and-swap succeeded"
				}
				return ""
			}})
	}
}
