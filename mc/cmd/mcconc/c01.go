package main

import (
	"strings"
	"time"

	"verif/mc/core"
	"verif/mc/vsched"
)

func init() {
	core.Register(&core.Check{
		ID: "C01", Level: "model_checking", SelfConfirm: true, Stall: 120 * time.Second,
		Rule: "every schedule, up to the stated number of preemptions, of 2 to 4 threads running 1 to 3 frame operations each on frames they share (flat, inheriting, cyclic and nested frames; the primitives, the a: a:! a:? a:> shortcuts, slot access from methods, whole-frame readers); each outcome is compared with all sequential orders that respect real time; map races, torn values, Go panics and deadlocks are violations",
		Assumptions: []string{
			"the instrumented copy of golisp behaves like golisp under sequentially consistent memory",
			"sequential behaviour of the frame operations is decided by C15",
		},
		Gen: c01, Quick: 400 * time.Second, Thorough: 3000 * time.Second,
	})
}

// lin is shorthand for one linearizability case.
func lin(G *core.G, name string, setup []string, threads [][]string, post []string, bound int) {
	G.Case(name, func(t *core.T) {
		(&Lin{Name: name, Setup: setup, Threads: threads, Post: post, Bound: bound, Sorted: true, Budget: 60 * time.Second}).Run(t)
	})
}

func thName(ths [][]string) string {
	var l []string
	for _, t := range ths {
		l = append(l, strings.Join(t, "; "))
	}
	return strings.Join(l, "  ||  ")
}

func c01(G *core.G) {
	q := !G.Thorough()
	bound := func(quick, deep int) int {
		if q {
			return quick
		}
		return deep
	}
	// A: every pair of operations on one frame, each thread does two
	muts := []string{"(set-slot! f a: 1)", "(remove-slot! f a:)", "(a:! f 7)", "(set-slot! f b: 3)", "(remove-slot! f b:)"}
	obs := []string{"(get-slot f a:)", "(get-slot-or-nil f a:)", "(has-slot? f a:)", "(a: f)", "(a:? f)", "(frame-keys f)", "(frame-values f)", "(length f)", "(clone f)", "(copy f)", "(lisp->json f)", "(equal? f g)", "(equal? g f)", "(list f)"}
	all := append(append([]string{}, muts...), obs...)
	fg := []string{"(define f {a: 0})", "(define g {a: 1})"}
	second := func(op string) string {
		op = strings.Replace(op, " 1)", " 2)", 1)
		op = strings.Replace(op, " 7)", " 8)", 1)
		return strings.Replace(op, " 3)", " 4)", 1)
	}
	for _, m := range muts {
		for _, o := range all {
			ths := [][]string{{m}, {second(o)}}
			lin(G, "flat1 "+thName(ths), fg, ths, []string{"f", "g"}, bound(4, 6))
		}
	}
	// two operations against two
	for _, m1 := range muts {
		for _, m2 := range muts {
			for _, o := range all {
				ths := [][]string{{m1, m2}, {second(o), "(get-slot-or-nil f a:)"}}
				lin(G, "flat2 "+thName(ths), fg, ths, []string{"f"}, bound(2, 4))
			}
		}
	}
	// toggling: the slot goes away and comes back under an observer
	for _, o := range obs {
		for _, tg := range [][]string{{"(remove-slot! f a:)", "(set-slot! f a: 5)"}, {"(set-slot! f b: 5)", "(remove-slot! f b:)"}, {"(remove-slot! f a:)", "(set-slot! f b: 5)"}, {"(set-slot! f a: 1)", "(set-slot! g a: 1)"}} {
			ths := [][]string{tg, {o, o}}
			lin(G, "toggle "+thName(ths), fg, ths, []string{"f"}, bound(3, 5))
		}
	}
	// B: three threads, one operation each
	tri := []string{"(set-slot! f a: 1)", "(set-slot! f a: 2)", "(remove-slot! f a:)", "(get-slot f a:)", "(frame-keys f)", "(set-slot! f b: 3)", "(clone f)", "(equal? f g)"}
	for i, x := range tri {
		for j := i; j < len(tri); j++ {
			for k := j; k < len(tri); k++ {
				ths := [][]string{{x}, {tri[j]}, {tri[k]}}
				lin(G, "tri "+thName(ths), fg, ths, []string{"f"}, bound(2, 3))
			}
		}
	}
	// C: inheritance
	chain := []string{"(define p {a: 0 c: 9})", "(define f {p*: p b: 1})", "(define q {a: 4})"}
	cm := []string{"(set-slot! p a: 1)", "(remove-slot! p a:)", "(set-slot! f a: 2)", "(remove-slot! f a:)", "(set-slot! f p*: q)", "(remove-slot! f p*:)", "(set-slot! p d: 6)"}
	co := []string{"(get-slot f a:)", "(get-slot-or-nil f a:)", "(has-slot? f a:)", "(a: f)", "(has-slot? f c:)", "(frame-keys f)", "(clone f)", "(lisp->json f)", "(get-slot f d:)"}
	for _, m := range cm {
		for _, o := range append(append([]string{}, cm...), co...) {
			ths := [][]string{{m}, {second(o), "(get-slot-or-nil f a:)"}}
			lin(G, "chain "+thName(ths), chain, ths, []string{"f", "p"}, bound(3, 4))
		}
	}
	for _, o := range co {
		ths := [][]string{{"(set-slot! f a: 2)", "(remove-slot! p a:)"}, {o}}
		lin(G, "chain-move "+thName(ths), chain, ths, []string{"f", "p"}, bound(4, 6))
	}
	chain3 := []string{"(define r {a: 0 m: 8})", "(define p {r*: r})", "(define f {p*: p})"}
	for _, m := range []string{"(set-slot! r a: 1)", "(remove-slot! r a:)", "(set-slot! p a: 2)", "(remove-slot! p r*:)"} {
		for _, o := range []string{"(get-slot f a:)", "(has-slot? f a:)", "(get-slot f m:)", "(set-slot! f a: 3)", "(remove-slot! r a:)"} {
			ths := [][]string{{m}, {o, "(get-slot-or-nil f a:)"}}
			lin(G, "chain3 "+thName(ths), chain3, ths, []string{"f"}, bound(2, 3))
		}
	}
	// D: methods reading and writing slots of the frame they run on
	meth := []string{"(define a 77)", "(define f {a: 0 get: (lambda () a) two: (lambda () (list a)) put: (lambda (x) (set! a x)) me: (lambda () (equal? self f))})"}
	for _, m := range []string{"(set-slot! f a: 1)", "(remove-slot! f a:)", "(put:> f 5)"} {
		for _, o := range []string{"(get:> f)", "(send f two:)", "(send f me:)", "(apply-slot f get: '())", "(put:> f 6)", "(get-slot f a:)"} {
			if m == "(remove-slot! f a:)" && strings.HasPrefix(o, "(put") {
				continue
			}
			ths := [][]string{{m}, {o, "(has-slot? f a:)"}}
			lin(G, "method "+thName(ths), meth, ths, []string{"(has-slot? f a:)", "(get-slot-or-nil f a:)"}, bound(3, 4))
		}
	}
	// a method slot replaced or removed while it is being called
	disp := []string{"(define p {m: (lambda () 1)})", "(define f {p*: p m: (lambda () 2) s: (lambda () (send-super m:)) s2: (lambda () (m:^)) as: (lambda () (apply-slot-super m: '()))})"}
	for _, m := range []string{"(begin (set-slot! f m: (lambda () 3)) 0)", "(remove-slot! f m:)", "(begin (set-slot! p m: (lambda () 4)) 0)", "(remove-slot! p m:)"} {
		for _, o := range []string{"(send f m:)", "(m:> f)", "(send f s:)", "(send f s2:)", "(send f as:)", "(apply-slot f m: '())"} {
			ths := [][]string{{m}, {o}}
			lin(G, "dispatch "+thName(ths), disp, ths, []string{"(has-slot? f m:)"}, bound(2, 4))
		}
	}
	// E: no combination of readers and writers stops for ever
	dead := func(name string, setup []string, ths [][]string, b int) {
		name = "alive " + name + " " + thName(ths)
		G.Case(name, func(t *core.T) {
			(&Lin{Name: name, Setup: setup, Threads: ths, Bound: b, Budget: 100 * time.Second,
				Accept: func([][]string, []string) string { return "" }}).Run(t)
		})
	}
	self := []string{"(define f {a: 0 m: (lambda (x) (equal? self x)) k: (lambda () (frame-keys self))})"}
	dead("self-equality", self, [][]string{{"(send f m: f)"}, {"(set-slot! f a: 1)"}}, 3)
	dead("self-equality", self, [][]string{{"(send f m: f)"}, {"(remove-slot! f a:)"}, {"(send f m: f)"}}, 2)
	cyc1 := []string{"(define f {a: 0})", "(set-slot! f p*: f)"}
	for _, o := range []string{"(get-slot f a:)", "(has-slot? f z:)", "(get-slot-or-nil f z:)"} {
		dead("self-parent", cyc1, [][]string{{o}, {"(set-slot! f a: 1)"}}, 3)
	}
	cyc2 := []string{"(define f {a: 0})", "(define g {b: 0 f*: f})", "(set-slot! f g*: g)"}
	for _, o := range []string{"(get-slot f b:)", "(has-slot? f z:)", "(get-slot-or-nil f z:)", "(has-slot? g z:)"} {
		for _, w := range []string{"(set-slot! f a: 1)", "(remove-slot! g b:)", "(set-slot! g c: 1)"} {
			dead("cyclic-parents", cyc2, [][]string{{o}, {w}}, 3)
		}
	}
	dead("cyclic-parents", cyc2, [][]string{{"(has-slot? f z:)"}, {"(has-slot? g z:)"}, {"(set-slot! f a: 1)"}, {"(set-slot! g c: 1)"}}, 2)
	dia := []string{"(define r {z: 1})", "(define a {r*: r})", "(define b {r*: r})", "(define f {a*: a b*: b})"}
	dead("diamond", dia, [][]string{{"(has-slot? f y:)"}, {"(set-slot! r z: 2)"}, {"(get-slot-or-nil a z:)"}}, 2)
	two := []string{"(define f {a: 0})", "(define g {a: 0})"}
	dead("crossed-equality", two, [][]string{{"(equal? f g)"}, {"(equal? g f)"}, {"(set-slot! f a: 1)"}, {"(set-slot! g a: 1)"}}, bound(2, 3))
	// several frames read in one operation, in every order, with a writer waiting on each
	next := []string{"(define n3 {v: 1})", "(define n2 {v: 1 next: n3})", "(define n1 {v: 1 next: n2})"}
	for _, o := range []string{"(equal? n1 n2)", "(equal? n2 n1)"} {
		for _, w := range []string{"(set-slot! n2 v: 1)", "(set-slot! n3 v: 1)", "(remove-slot! n2 z:)"} {
			dead("successor", next, [][]string{{o}, {w}}, 3)
		}
	}
	par := []string{"(define g {a: 0})", "(define f {p*: g})"}
	for _, o := range []string{"(get-slot f a:)", "(has-slot? f z:)", "(lisp->json f)", "(copy f)", "(equal? f {p*: {a: 0}})", "(equal? f {p*: {a: 1}})"} {
		for _, o2 := range []string{"(equal? f g)", "(equal? g f)"} {
			dead("crossed-levels", par, [][]string{{o}, {o2}, {"(set-slot! f b: 1)"}, {"(set-slot! g b: 1)"}}, bound(1, 2))
		}
	}
	nest := []string{"(define g {x: 1})", "(define f {g: g l: (list 1)})"}
	for _, o := range []string{"(copy f)", "(equal? f {g: {x: 1} l: (list 1)})", "(lisp->json f)", "(clone f)", "(list f)"} {
		for _, w := range []string{"(set-slot! g x: 2)", "(set-slot! f g: 5)", "(remove-slot! f l:)"} {
			dead("nested", nest, [][]string{{o}, {w}, {"(get-slot f g:)"}}, 2)
		}
	}
	// F: growth: new slots from several threads all arrive
	for _, n := range []int{3, 9, 17} {
		var a, b []string
		for i := 0; i < n; i++ {
			a = append(a, "(set-slot! f x"+itoa(i)+": "+itoa(i)+")")
			b = append(b, "(set-slot! f y"+itoa(i)+": "+itoa(i)+")")
		}
		ths := [][]string{{"(begin " + strings.Join(a, " ") + ")"}, {"(begin " + strings.Join(b, " ") + ")"}, {"(length f)"}}
		name := "grow " + itoa(n)
		G.Case(name, func(t *core.T) {
			(&Lin{Name: name, Setup: []string{"(define f {a: 0})"}, Threads: ths, Post: []string{"(length f)", "(get-slot f x" + itoa(n-1) + ":)", "(get-slot f y0:)"}, Bound: map[bool]int{true: 1, false: 2}[q && n > 3], Budget: 60 * time.Second,
				Accept: func(res [][]string, post []string) string {
					if post[0] != itoa(2*n+1) || post[1] != itoa(n-1) || post[2] != "0" {
						return "slots set by different threads were lost: afterwards " + strings.Join(post, " ")
					}
					return ""
				}}).Run(t)
		})
	}
	_ = vsched.Yield
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}
