package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"sort"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C34", Level: "model_checking", Chunk: 4, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "for every bounded stream and every bounded sequence of uses, the elements are those of the defined sequence and every delayed expression is evaluated exactly when it is first needed, and once",
		Assumptions: []string{"the sequences computed by the harness state the intended elements"},
		Gen:         genC34, Init: inScratch,
	})
	core.Register(&core.Check{
		ID: "C35", Level: "model_checking", Chunk: 4, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every bounded sequence of test clauses and assertions leaves exactly the numbers of passes, failures and errors that its parts have",
		Assumptions: []string{"each assertion's outcome is stated in the harness"},
		Gen:         genC35, Init: inScratch,
	})
}

func repoFile(f string) string {
	d := os.Getenv("MC_SRC")
	if d == "" {
		d = "/repo"
	}
	return d + "/" + f
}

// libEnv gives an environment in which a lisp library is loaded.
func libEnv(t *core.T, files ...string) *g.SymbolTableFrame {
	env := freshEnv()
	for _, f := range files {
		if _, err := g.ProcessFileInEnvironment(repoFile(f), env); err != nil {
			t.Fail("load", "%s does not load: %s", f, err)
		}
	}
	return env
}

// expect evaluates src and compares result and logged effects.
func expect(t *core.T, env *g.SymbolTableFrame, src, want, log string) bool {
	t.Progress()
	effects = effects[:0]
	o := evalIn(env, src)
	t.Trace(1)
	t.Steps(1)
	got := o.val
	if o.err {
		got = "!"
	}
	if o.panic != "" {
		got = o.String()
	}
	if got != want {
		t.Fail("differs", "%s gives %s, should give %s", src, clip(o.String()), clip(want))
		return false
	}
	if l := strings.Join(effects, " "); l != log {
		t.Fail("evaluated", "%s evaluated %q, should evaluate %q", src, clip(l), clip(log))
		return false
	}
	t.State(src + got)
	return true
}

// logged is a stream expression whose element i logs i and whose tail logs -i.
func logged(vals []int, at int) string {
	if at == len(vals) {
		return "the-empty-stream"
	}
	return fmt.Sprintf("(stream-cons (mc-log %d) (begin (mc-log 't%d) %s))", vals[at], at, logged(vals, at+1))
}

func plain(vals []int) string {
	r := "the-empty-stream"
	for i := len(vals) - 1; i >= 0; i-- {
		r = fmt.Sprintf("(stream-cons %d %s)", vals[i], r)
	}
	return r
}

func canonInts(v []int) string {
	if len(v) == 0 {
		return "()"
	}
	s := make([]string, len(v))
	for i, x := range v {
		s[i] = fmt.Sprint(x)
	}
	return "(" + strings.Join(s, " ") + ")"
}

func intWords(al []int, n int, f func(v []int)) {
	var rec func(v []int)
	rec = func(v []int) {
		f(append([]int{}, v...))
		if len(v) < n {
			for _, x := range al {
				rec(append(v, x))
			}
		}
	}
	rec(nil)
}

// all elements of a finite stream; the first n of any
const streamHelpers = `(define (all-of s) (if (stream-null? s) '() (cons (stream-car s) (all-of (stream-cdr s)))))
(define (some-of s n) (if (or (== n 0) (stream-null? s)) '() (cons (stream-car s) (some-of (stream-cdr s) (- n 1)))))`

func genC34(gg *core.G) {
	deep := gg.Thorough()
	open := func(t *core.T) *g.SymbolTableFrame {
		env := libEnv(t, "lisp/streams.lsp")
		if _, err := g.ParseAndEvalAllInEnvironment(streamHelpers, env); err != nil {
			t.Fail("load", "%s", err)
		}
		return env
	}
	// every sequence of uses of a logged stream
	ops := []string{"(stream-car s)", "(stream-car (stream-cdr s))", "(stream-ref s 0)", "(stream-ref s 1)", "(stream-ref s 2)", "(stream-ref s 5)", "(stream-null? s)", "(stream-null? (stream-cdr s))", "(all-of s)"}
	for n := 0; n <= 3; n++ {
		n := n
		depth := 3
		if deep {
			depth = 4
		}
		for _, first := range ops {
			first := first
			gg.Case(fmt.Sprintf("uses of %d elements from %s", n, first), func(t *core.T) {
				vals := []int{1, 2, 3}[:n]
				env := open(t)
				words(ops, depth-1, func(rest []string) {
					if t.Expired() || t.Failed() || n == 0 && (strings.Contains(strings.Join(rest, ""), "-cdr") || strings.Contains(first, "-cdr")) {
						return
					}
					log := ""
					if n > 0 {
						log = "1"
					}
					if effects = effects[:0]; evalIn(env, "(define s "+logged(vals, 0)+")").err || strings.Join(effects, " ") != log {
						t.Fail("evaluated", "making %s logs %v", logged(vals, 0), effects)
						return
					}
					forced := 0 // tails evaluated
					force := func(k int) string {
						var l []string
						for ; forced < k; forced++ {
							l = append(l, fmt.Sprintf("t%d", forced))
							if forced+1 < n {
								l = append(l, fmt.Sprint(vals[forced+1]))
							}
						}
						return strings.Join(l, " ")
					}
					for _, op := range append([]string{first}, rest...) {
						want, k := "", 0
						switch op {
						case "(stream-car s)":
							want = at(vals, 0)
						case "(stream-car (stream-cdr s))":
							k, want = 1, at(vals, 1)
						case "(stream-null? s)":
							want = map[bool]string{true: "#t", false: "#f"}[n == 0]
						case "(stream-null? (stream-cdr s))":
							k, want = 1, map[bool]string{true: "#t", false: "#f"}[n <= 1]
						case "(all-of s)":
							k, want = n, canonInts(vals)
						default:
							fmt.Sscanf(op, "(stream-ref s %d)", &k)
							want = at(vals, k)
						}
						if k > n {
							k = n
						}
						if !expect(t, env, op, want, force(k)) {
							return
						}
					}
				})
			})
		}
	}
	// streams made from streams
	al := []int{0, 1, 2, 3}
	max := 3
	if deep {
		max = 5
	}
	gg.Case("made from one", func(t *core.T) {
		env := open(t)
		intWords(al, max, func(v []int) {
			if t.Expired() || t.Failed() {
				return
			}
			s := plain(v)
			var odd, sq, small []int
			for _, x := range v {
				if x%2 == 1 {
					odd = append(odd, x)
				}
				if x < 2 {
					small = append(small, x)
				}
				sq = append(sq, x*x+1)
			}
			expect(t, env, "(all-of "+s+")", canonInts(v), "")
			expect(t, env, "(all-of (stream-filter odd? "+s+"))", canonInts(odd), "")
			expect(t, env, "(all-of (stream-filter (lambda (x) (< x 2)) "+s+"))", canonInts(small), "")
			expect(t, env, "(all-of (stream-map (lambda (x) (+ 1 (* x x))) "+s+"))", canonInts(sq), "")
			log := strings.Trim(canonInts(v), "()")
			expect(t, env, "(stream-for-each mc-log "+s+")", "done", log)
			expect(t, env, "(stream-for-each (lambda (x) (mc-log x)) (stream-map mc-id "+s+"))", "done", log)
			if len(v) > 0 {
				sum, sums := 0, []int{}
				for _, x := range v {
					sum += x
					sums = append(sums, sum)
				}
				expect(t, env, "(all-of (partial-sums "+s+"))", canonInts(sums), "")
			}
			for k := 0; k <= len(v)+1; k++ {
				want := "()"
				if k < len(v) {
					want = fmt.Sprint(v[k])
				}
				expect(t, env, fmt.Sprintf("(stream-ref %s %d)", s, k), want, "")
			}
			// map and filter call their function once for an element, when it is needed
			expect(t, env, "(begin (define m (stream-map mc-log "+s+")) 0)", "0", upTo(v, 1))
			if len(v) > 0 {
				expect(t, env, "(stream-car m)", fmt.Sprint(v[0]), "")
				want := "()"
				if len(v) > 1 {
					want = fmt.Sprint(v[1])
				}
				rest := ""
				if len(v) > 1 {
					rest = fmt.Sprint(v[1])
				}
				expect(t, env, "(stream-ref m 1)", want, rest)
				expect(t, env, "(stream-ref m 1)", want, "")
			}
			// filter looks no further than the next element that passes
			seen := 0
			for seen < len(v) {
				seen++
				if v[seen-1] >= 2 {
					break
				}
			}
			expect(t, env, "(begin (define m (stream-filter (lambda (x) (mc-log x) (>= x 2)) "+s+")) 0)", "0", upTo(v, seen))
		})
	})
	// a made stream computes no more of its source than an element needs
	gg.Case("needs", func(t *core.T) {
		env := open(t)
		// tails logs t0, t1 … as the tails of the source are computed
		tails := func(v []int) string {
			r := "the-empty-stream"
			for i := len(v) - 1; i >= 0; i-- {
				r = fmt.Sprintf("(stream-cons %d (begin (mc-log 't%d) %s))", v[i], i, r)
			}
			return r
		}
		// need[i] is the number of source tails that element i of m needs
		check := func(src string, els, need []int) {
			done := 0
			fresh := func(n int) string {
				var l []string
				for ; done < n; done++ {
					l = append(l, fmt.Sprintf("t%d", done))
				}
				return strings.Join(l, " ")
			}
			if !expect(t, env, "(begin (define m "+src+") 0)", "0", fresh(need[0])) {
				return
			}
			for i := range need {
				want := "()"
				if i < len(els) {
					want = fmt.Sprint(els[i])
				}
				if !expect(t, env, fmt.Sprintf("(stream-ref m %d)", i), want, fresh(need[i])) || !expect(t, env, fmt.Sprintf("(stream-ref m %d)", i), want, "") {
					return
				}
			}
		}
		upto := func(lim ...int) []int {
			m := lim[0]
			for _, x := range lim {
				if x < m {
					m = x
				}
			}
			need := []int{}
			for i := 0; i <= m+1; i++ {
				need = append(need, i)
			}
			need[m+1] = m
			return need
		}
		intWords(al, max, func(v []int) {
			if t.Expired() || t.Failed() {
				return
			}
			n := len(v)
			s := tails(v)
			check(s, v, upto(n))
			var sq, sums, pass, need []int
			sum := 0
			for i, x := range v {
				sq = append(sq, x*x)
				sum += x
				sums = append(sums, sum)
				if x%2 == 1 {
					pass, need = append(pass, x), append(need, i)
				}
			}
			check("(stream-map (lambda (x) (* x x)) "+s+")", sq, upto(n))
			check("(stream-filter odd? "+s+")", pass, append(need, n))
			check("(stream-map mc-id (stream-filter odd? "+s+"))", pass, append(need, n))
			if n > 0 {
				// adding up has no end of its own to find
				check("(partial-sums "+s+")", sums, upto(n)[:n])
				check("(scale-stream "+s+" 1)", v, upto(n)[:n])
			}
			for m := 0; m <= n+1; m++ {
				other := make([]int, m)
				els := []int{}
				for i := 0; i < m && i < n; i++ {
					els = append(els, v[i])
				}
				check("(add-streams "+s+" "+plain(other)+")", els, upto(n, m))
				check("(add-streams "+plain(other)+" "+s+")", els, upto(n, m))
			}
		})
		for bitsA := 0; bitsA < 32; bitsA++ {
			for bitsB := 0; bitsB < 32; bitsB++ {
				if t.Expired() || t.Failed() {
					return
				}
				var a, b, els, need []int
				for i := 0; i < 5; i++ {
					if bitsA>>uint(i)&1 == 1 {
						a = append(a, i)
					}
					if bitsB>>uint(i)&1 == 1 {
						b = append(b, i)
					}
				}
				i, j := 0, 0
				for i < len(a) || j < len(b) {
					need = append(need, i)
					switch {
					case j == len(b) || i < len(a) && a[i] < b[j]:
						els = append(els, a[i])
						i++
					case i == len(a) || b[j] < a[i]:
						els = append(els, b[j])
						j++
					default:
						els = append(els, a[i])
						i, j = i+1, j+1
					}
				}
				need = append(need, i)
				check("(merge "+tails(a)+" "+plain(b)+")", els, need)
				check("(merge "+plain(b)+" "+tails(a)+")", els, need)
			}
		}
	})
	gg.Case("made from two", func(t *core.T) {
		env := open(t)
		var all [][]int
		intWords([]int{0, 1, 2}, max-1, func(v []int) { all = append(all, v) })
		for _, a := range all {
			for _, b := range all {
				if t.Expired() || t.Failed() {
					return
				}
				n := len(a)
				if len(b) < n {
					n = len(b)
				}
				var sum, sub []int
				for i := 0; i < n; i++ {
					sum = append(sum, a[i]+b[i])
					sub = append(sub, 10*a[i]-b[i])
				}
				expect(t, env, fmt.Sprintf("(all-of (add-streams %s %s))", plain(a), plain(b)), canonInts(sum), "")
				if len(a) == len(b) {
					expect(t, env, fmt.Sprintf("(all-of (stream-map (lambda (x y) (- (* 10 x) y)) %s %s))", plain(a), plain(b)), canonInts(sub), "")
					expect(t, env, fmt.Sprintf("(all-of (stream-map + %s %s %s))", plain(a), plain(b), plain(a)), canonInts(addTo(sum, a)), "")
				}
			}
		}
	})
	gg.Case("merge", func(t *core.T) {
		env := open(t)
		var all [][]int
		var rec func(v []int, from int)
		rec = func(v []int, from int) {
			all = append(all, append([]int{}, v...))
			if len(v) < max+1 {
				for x := from; x <= 5; x++ {
					rec(append(v, x), x+1)
				}
			}
		}
		rec(nil, 1)
		for _, a := range all {
			for _, b := range all {
				if t.Expired() || t.Failed() {
					return
				}
				in := map[int]bool{}
				var want []int
				for _, x := range append(append([]int{}, a...), b...) {
					if !in[x] {
						in[x] = true
						want = append(want, x)
					}
				}
				sort.Ints(want)
				expect(t, env, fmt.Sprintf("(all-of (merge %s %s))", plain(a), plain(b)), canonInts(want), "")
			}
		}
	})
	gg.Case("intervals", func(t *core.T) {
		env := open(t)
		for lo := -3; lo <= 6; lo++ {
			for hi := -3; hi <= 6; hi++ {
				var v []int
				for x := lo; x <= hi; x++ {
					v = append(v, x)
				}
				expect(t, env, fmt.Sprintf("(all-of (stream-enumerate-interval %d %d))", lo, hi), canonInts(v), "")
			}
		}
		var v []int
		for x := 1; x <= 1000; x++ {
			v = append(v, x)
		}
		expect(t, env, "(all-of stream-1-to-1000)", canonInts(v), "")
		expect(t, env, "(list (all-of a) (all-of b))", "((1 2) (3 4 5))", "")
	})
	gg.Case("infinite", func(t *core.T) {
		env := open(t)
		n := 40
		if deep {
			n = 85
		}
		fib := []int{1, 1}
		var zeros, ones, twos, odds, ints, psums, tens, ham []int
		for i := 0; i < n; i++ {
			if i > 1 {
				fib = append(fib, fib[i-1]+fib[i-2])
			}
			zeros, ones, twos = append(zeros, 0), append(ones, 1), append(twos, 2)
			odds, ints, tens = append(odds, 2*i+1), append(ints, i+1), append(tens, 10*(i+1))
			psums = append(psums, (i+1)*(i+2)/2)
		}
		for x := 1; len(ham) < n; x++ {
			y := x
			for _, p := range []int{2, 3, 5} {
				for y%p == 0 {
					y /= p
				}
			}
			if y == 1 {
				ham = append(ham, x)
			}
		}
		for _, c := range []struct {
			name string
			v    []int
		}{{"zeros", zeros}, {"ones", ones}, {"twos", twos}, {"odds", odds}, {"integers", ints}, {"fib", fib}, {"h", ham}, {"(scale-stream integers 10)", tens}} {
			for _, k := range []int{0, 1, 2, 3, 7, n} {
				expect(t, env, fmt.Sprintf("(some-of %s %d)", c.name, k), canonInts(c.v[:k]), "")
			}
			expect(t, env, fmt.Sprintf("(stream-ref %s %d)", c.name, n-1), fmt.Sprint(c.v[n-1]), "")
		}
		for _, k := range []int{0, 1, 2, 3, 10} { // quadratic
			expect(t, env, fmt.Sprintf("(some-of (partial-sums integers) %d)", k), canonInts(psums[:k]), "")
		}
		expect(t, env, "(some-of (stream-filter even? fib) 5)", "(2 8 34 144 610)", "")
		expect(t, env, "(begin (define (from n) (stream-cons (mc-log n) (from (+ n 1)))) (define nat (from 0)) 0)", "0", "0")
		expect(t, env, "(stream-ref nat 3)", "3", "1 2 3")
		expect(t, env, "(stream-ref nat 4)", "4", "4")
		expect(t, env, "(some-of nat 3)", "(0 1 2)", "")
	})
	gg.Case("failing tails", func(t *core.T) {
		env := open(t)
		for k := 0; k <= 3; k++ {
			evalIn(env, fmt.Sprintf("(define left %d)", k))
			expect(t, env, "(begin (define s (stream-cons 1 (begin (mc-log left) (if (> left 0) (begin (set! left (- left 1)) (error 'no)) (stream-cons 2 '()))))) 0)", "0", "")
			for i := k; i > 0; i-- {
				expect(t, env, "(stream-cdr s)", "!", fmt.Sprint(i))
			}
			expect(t, env, "(all-of s)", "(1 2)", "0")
			expect(t, env, "(all-of s)", "(1 2)", "")
		}
	})
	gg.Case("delay and force", func(t *core.T) {
		env := open(t)
		for _, v := range []string{"1", "#f", "'()", "'x", "(list 1 2)", "(lambda () 1)", "\"s\""} {
			want := evalIn(env, v).val
			expect(t, env, fmt.Sprintf("(begin (define p (delay (begin (mc-log 1) %s))) 0)", v), "0", "")
			expect(t, env, "(force p)", want, "1")
			expect(t, env, "(force p)", want, "")
			expect(t, env, "(force p)", want, "")
		}
		expect(t, env, "(let ((x 1)) (let ((p (delay x))) (set! x 2) (list (force p) (begin (set! x 3) (force p)))))", "(2 2)", "")
		expect(t, env, "(let ((x 1)) (let ((p (let ((x 5)) (delay x)))) (list x (force p))))", "(1 5)", "")
	})
}

func at(v []int, k int) string {
	if k < len(v) {
		return fmt.Sprint(v[k])
	}
	return "()"
}

func upTo(v []int, k int) string {
	if k > len(v) {
		k = len(v)
	}
	return strings.Trim(canonInts(v[:k]), "()")
}

func addTo(a, b []int) []int {
	r := make([]int, len(a))
	for i := range a {
		r[i] = a[i] + b[i]
	}
	return r
}

// assertions with their outcomes: pass, fail or error
var assertions = []struct{ src, out string }{
	{"(assert-true (== n 0))", "p"}, {"(assert-true #f)", "f"}, {"(assert-true (error 'x))", "e"}, {"(assert-true '())", "f"},
	{"(assert-false (== n 1))", "p"}, {"(assert-false 5)", "f"},
	{"(assert-nil '())", "p"}, {"(assert-nil n)", "f"}, {"(assert-not-nil 0)", "p"}, {"(assert-not-nil '())", "f"},
	{"(assert-eq n 0)", "p"}, {"(assert-eq (list 1 n) '(1 0))", "p"}, {"(assert-eq (car '(2)) 1)", "f"}, {"(assert-eq (+ 1 'a) 1)", "e"}, {"(assert-eq 1 (+ 1 'a))", "e"},
	{"(assert-neq n 1)", "p"}, {"(assert-neq '(1) '(1))", "f"},
	{"(assert-error (+ 1 'a))", "p"}, {"(assert-error (car 5))", "f"}, {"(assert-nerror (set! n 0))", "p"}, {"(assert-nerror (error 'x))", "f"},
	{"(assert-memq '(1 0) n)", "p"}, {"(assert-memq '(1 2) n)", "f"},
	{"(mc-log n)", ""}, {"(error \"a. b. c\")", "e"}, {"(error 'x)", "e"}, {"(set! n 7)", ""},
}

func genC35(gg *core.G) {
	deep := gg.Thorough()
	open := func(t *core.T) *g.SymbolTableFrame { return libEnv(t, "lisp/testing.lsp") }
	// load works in the global environment
	inGlobal := func(t *core.T) *g.SymbolTableFrame {
		freshEnv()
		if _, err := g.ProcessFile(repoFile("lisp/testing.lsp")); err != nil {
			t.Fail("load", "lisp/testing.lsp does not load: %s", err)
		}
		return g.Global
	}
	run := func(t *core.T, env *g.SymbolTableFrame, its [][]int, verbose bool) {
		if t.Expired() || t.Failed() {
			return
		}
		t.Progress()
		p, f, e := 0, 0, 0
		var fm, em []string
		n7 := false
		src := "(context \"c\" ((define n 0))"
		for i, it := range its {
			src += fmt.Sprintf(" (it \"i%d\"", i)
			n7 = false
			stopped := false
			for _, a := range it {
				src += " " + assertions[a].src
				if stopped {
					continue
				}
				out := assertions[a].out
				if assertions[a].src == "(set! n 7)" {
					n7 = true
				}
				if assertions[a].src == "(assert-nerror (set! n 0))" {
					n7 = false
				}
				if n7 { // n is 7 here
					switch assertions[a].src {
					case "(assert-true (== n 0))", "(assert-eq n 0)", "(assert-eq (list 1 n) '(1 0))", "(assert-memq '(1 0) n)":
						out = "f"
					}
				}
				switch out {
				case "p":
					p++
				case "f":
					f++
					fm = append([]string{fmt.Sprintf("c i%d:", i)}, fm...)
				case "e":
					e++
					em = append([]string{fmt.Sprintf("c i%d:", i)}, em...)
					stopped = true
				}
			}
			src += ")"
		}
		src += ")"
		var o, c, ms outcome
		silent(func() {
			evalIn(env, "(reset-testing)")
			if verbose {
				evalIn(env, "(set! verbose-tests #t)")
			}
			o = evalIn(env, src)
			c = evalIn(env, "(list number-of-passes number-of-failures number-of-errors (length failure-messages) (length error-messages) (dump-summary 5))")
			ms = evalIn(env, `(list (map (lambda (m) (car (string-split m "\n"))) failure-messages) (map (lambda (m) (car (string-split m "\n"))) error-messages))`)
		})
		ok := "#t"
		if f+e > 0 {
			ok = "#f"
		}
		want := fmt.Sprintf("(%d %d %d %d %d %s)", p, f, e, f, e, ok)
		t.Trace(1)
		t.Steps(len(its) + 1)
		t.State(src + want)
		if o.err || o.panic != "" || c.val != want {
			t.Fail("counts", "%s: %s; passes, failures, errors, messages, all passed: %s, should be %s", src, clip(o.String()), c, want)
		}
		names := func(l []string) string {
			if len(l) == 0 {
				return "()"
			}
			return "(\"" + strings.Join(l, "\" \"") + "\")"
		}
		if w := "(" + names(fm) + " " + names(em) + ")"; ms.val != w {
			t.Fail("messages", "%s: the messages are for %s, should be for %s", src, clip(ms.String()), clip(w))
		}
	}
	// test files and directories of them
	files := func(t *core.T, env *g.SymbolTableFrame, its []int, verbose string) {
		if t.Expired() || t.Failed() {
			return
		}
		t.Progress()
		os.MkdirAll("tests", 0755)
		defer os.RemoveAll("tests")
		ioutil.WriteFile("tests/helper.lsp", []byte("(context \"h\" () (it \"h\" (assert-true #f)))"), 0644)
		p, f, e := 0, 0, 0
		for i, a := range its {
			pp, ff, ee := 0, 0, 0
			switch assertions[a].out {
			case "p":
				pp++
			case "f":
				ff++
			case "e":
				ee++
			}
			name := fmt.Sprintf("tests/t%d_test.lsp", i)
			ioutil.WriteFile(name, []byte(fmt.Sprintf("; test %d\n(context \"c%d\" ((define n 0))\n  (it \"i\"\n   %s))\n", i, i, assertions[a].src)), 0644)
			p, f, e = p+pp, f+ff, e+ee
			var o outcome
			silent(func() {
				o = evalIn(env, fmt.Sprintf("(let ((r (run-test %q%s))) (list r number-of-passes number-of-failures number-of-errors))", name, verbose))
			})
			t.Trace(1)
			if w := fmt.Sprintf("(%s %d %d %d)", map[bool]string{true: "#t", false: "#f"}[ff+ee == 0], pp, ff, ee); o.val != w {
				t.Fail("counts", "run-test of %s gives %s, should give %s", assertions[a].src, o, w)
				return
			}
		}
		var o outcome
		silent(func() {
			o = evalIn(env, fmt.Sprintf("(let ((r (run-all-tests \"tests\"%s))) (list r number-of-passes number-of-failures number-of-errors))", verbose))
		})
		t.Trace(1)
		t.Steps(len(its) + 1)
		w := fmt.Sprintf("(%s %d %d %d)", map[bool]string{true: "#t", false: "#f"}[f+e == 0], p, f, e)
		t.State(fmt.Sprint(its) + w)
		if o.val != w {
			var l []string
			for _, a := range its {
				l = append(l, assertions[a].src)
			}
			t.Fail("counts", "run-all-tests of files with %s gives %s, should give %s", strings.Join(l, ", "), o, w)
		}
	}
	var idx []int
	for i := range assertions {
		idx = append(idx, i)
	}
	for _, i := range idx {
		i := i
		gg.Case("from "+assertions[i].src, func(t *core.T) {
			env := open(t)
			run(t, env, nil, false)
			run(t, env, [][]int{{}}, false)
			run(t, env, [][]int{{i}}, false)
			run(t, env, [][]int{{i}}, true)
			for _, j := range idx {
				run(t, env, [][]int{{i, j}}, j%2 == 0)
				run(t, env, [][]int{{i}, {j}}, j%2 == 1)
				for _, k := range idx {
					if !deep && (i+j+k)%3 != 0 {
						run(t, env, [][]int{{i, j}, {k}}, false)
						continue
					}
					run(t, env, [][]int{{i, j, k}}, false)
					run(t, env, [][]int{{i, j}, {k}}, false)
					run(t, env, [][]int{{i}, {j, k}}, false)
					run(t, env, [][]int{{i}, {j}, {k}}, false)
				}
			}
		})
	}
	for _, i := range idx {
		i := i
		gg.Case("files from "+assertions[i].src, func(t *core.T) {
			env := inGlobal(t)
			files(t, env, []int{i}, "")
			files(t, env, []int{i}, " #t")
			for _, j := range idx {
				files(t, env, []int{i, j}, "")
				files(t, env, []int{i, j, (i + j + 3) % len(idx)}, " #t")
			}
		})
	}
	for _, n := range []int{20, 100} {
		n := n
		gg.Case(fmt.Sprintf("many %d", n), func(t *core.T) {
			env := open(t)
			for _, a := range []int{0, 1, 2} {
				var its [][]int
				for i := 0; i < n; i++ {
					its = append(its, []int{0, 1, a})
				}
				run(t, env, its, false)
				var it []int
				for i := 0; i < n; i++ {
					it = append(it, 0, 1)
				}
				run(t, env, [][]int{append(it, a)}, true)
			}
		})
	}
}
