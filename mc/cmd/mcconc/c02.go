package main

import (
	"strings"
	"time"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C02", Level: "model_checking", SelfConfirm: true, Stall: 120 * time.Second,
		Rule:        "every schedule (up to the stated preemptions) of 2 to 3 threads with 1 to 3 operations that define, assign, look up or list variables of an environment they share (directly, through closures, through macros, through nested environments and the environment-* primitives), compared with all sequential orders that respect real time; map races, panics and deadlocks are violations",
		Assumptions: []string{"the instrumented copy of golisp behaves like golisp under sequentially consistent memory"},
		Gen:         c02, Quick: 400 * time.Second, Thorough: 3000 * time.Second,
	})
}

func c02(G *core.G) {
	q := !G.Thorough()
	bound := func(a, b int) int {
		if q {
			return a
		}
		return b
	}
	setup := []string{"(define x 0)", "(define (getx) x)", "(define (putx v) (set! x v))", "(define e (the-environment))",
		"(define up (let ((n 0)) (lambda (d) (set! n d) n)))", "(defmacro (twice m) `(list ,m ,m))"}
	muts := []string{"(set! x 1)", "(define x 2)", "(define y 3)", "(putx 4)", "(environment-assign! e 'x 5)", "(environment-define e 'y 6)", "(begin (define (fy) 7) 0)", "(begin (defmacro (my a) a) 0)"}
	obs := []string{"x", "(getx)", "y", "(environment-bound? e 'y)", "(environment-lookup e 'x)", "(environment-bound-names e)", "(environment-macro-names e)", "(environment-reference-type e 'y)", "(environment-assigned? e 'x)", "(length (environment-bindings e))", "(environment-lookup-macro e 'nomac)", "(fy)", "(let ((x 9)) x)", "(let ((y 8)) (getx))", "(eval 'x e)", "(environment-lookup e 'y)"}
	second := func(s string, k int) string {
		for i := 1; i <= 7; i++ {
			s = strings.Replace(s, " "+itoa(i)+")", " "+itoa(10*k+i)+")", 1)
		}
		return s
	}
	post := []string{"x", "y"}
	for i, m := range muts {
		for j, o := range append(append([]string{}, muts...), obs...) {
			if j < i {
				continue
			}
			ths := [][]string{{m}, {second(o, 2)}}
			lin(G, "one "+thName(ths), setup, ths, post, bound(3, 5))
			ths = [][]string{{m, "x"}, {second(o, 2), "(getx)"}}
			lin(G, "two "+thName(ths), setup, ths, post, bound(2, 4))
		}
	}
	for i, m := range muts[:6] {
		for j, m2 := range muts[:6] {
			for k, o := range []string{"x", "(getx)", "(environment-bound-names e)", "(environment-bound? e 'y)"} {
				if q && (i+j+k)%2 == 0 {
					continue
				}
				ths := [][]string{{m}, {second(m2, 2)}, {o}}
				lin(G, "three "+thName(ths), setup, ths, post, bound(2, 3))
			}
		}
	}
	// a definition becomes visible whole
	for _, o := range []string{"z", "(environment-bound? e 'z)", "(environment-reference-type e 'z)", "(eval 'z e)"} {
		ths := [][]string{{"(define z '(1 2 3))"}, {o, o}}
		lin(G, "appears "+thName(ths), setup, ths, []string{"z"}, bound(3, 5))
	}
	// many new names from several threads
	for _, n := range []int{2, 8, 9, 20} {
		var a, b []string
		for i := 0; i < n; i++ {
			a = append(a, "(define a"+itoa(i)+" "+itoa(i)+")")
			b = append(b, "(define b"+itoa(i)+" "+itoa(i)+")")
		}
		n := n
		prog(G, &Prog{Name: "many definitions " + itoa(n), Setup: setup, Bound: map[bool]int{true: 2, false: 1}[n < 3 || !q],
			Threads: [][]string{{"(begin " + strings.Join(a, " ") + ")"}, {"(begin " + strings.Join(b, " ") + ")"}, {"(length (environment-bound-names e))"}},
			Post:    []string{"(length (environment-bound-names e))", "a" + itoa(n-1), "b" + itoa(n-1), "a0", "b0"},
			Check: func(o *Obs) string {
				if len(o.Res[0]) != 1 || len(o.Res[1]) != 1 || o.Res[0][0] == "blocked" || o.Res[1][0] == "blocked" {
					return "a thread did not end"
				}
				want := []string{itoa(6 + 2*n), itoa(n - 1), itoa(n - 1), "0", "0"}
				for i := range want {
					if o.Post[i] != want[i] {
						return "definitions were lost"
					}
				}
				return ""
			}})
	}
	// private variables stay private: two calls of one function at once
	fn := []string{"(define (f a) (let ((b (+ a 1))) (set! a (* 10 b)) (list a b)))", "(define (g n) (if (== n 0) '() (cons n (g (- n 1)))))",
		"(define (mk v) (lambda () (set! v (+ v 1)) v))", "(define c1 (mk 10))", "(define c2 (mk 20))", "(define (h . r) (do ((i 0 (+ i 1)) (s 0 (+ s i))) ((== i 3) (list s r))))", "(defmacro (sw a b) `(list ,b ,a))"}
	calls := []string{"(f 1)", "(f 5)", "(g 3)", "(g 2)", "(c1)", "(c2)", "(h 1 2)", "(h)", "(sw 1 2)", "(map f '(1 2))", "(let loop-free ((a 1)) a)", "(apply f '(3))"}
	for i, a := range calls {
		for j := i; j < len(calls); j++ {
			if strings.HasPrefix(a, "(let loop") || strings.HasPrefix(calls[j], "(let loop") {
				continue
			}
			if a == "(c1)" && calls[j] == "(c1)" || a == "(c2)" && calls[j] == "(c2)" {
				continue // a read-modify-write by two threads: not promised to be atomic
			}
			ths := [][]string{{a}, {calls[j]}}
			lin(G, "calls "+thName(ths), fn, ths, nil, bound(2, 4))
		}
	}
	// top-level environments by name
	for _, p := range [][2]string{{`(begin (make-top-level-environment "mcA" '(u) '(1)) 0)`, `(nil? (find-top-level-environment "mcA"))`},
		{`(environment-lookup (make-top-level-environment "mcB" '(u) '(1)) 'u)`, `(environment-lookup (make-top-level-environment "mcC" '(u) '(2)) 'u)`},
		{`(begin (make-top-level-environment "mcD") 0)`, `(begin (make-top-level-environment "mcD") 0)`}} {
		ths := [][]string{{p[0]}, {p[1]}}
		pr := &Prog{Name: "top-level " + thName(ths), Threads: ths, Bound: bound(2, 3), Check: func(o *Obs) string {
			for _, r := range o.Res {
				if r[0] == "blocked" || r[0] == "E" {
					return "failed"
				}
			}
			return ""
		}}
		prog(G, pr)
	}
}
