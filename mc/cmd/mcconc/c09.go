package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/core"
)

// C09: programs that share only code do not influence each other.

func init() {
	core.Register(&core.Check{
		ID: "C09", Level: "model_checking", SelfConfirm: true, Stall: 120 * time.Second,
		Rule:        "every schedule (up to the stated preemptions) of every pair, and chosen triples, of programs that evaluate in their own environments below a common one and share its functions, closures, macros, frames used as parents and constants, but no data that is written; each result must be what the program gives when it runs alone, with no race, panic or deadlock",
		Assumptions: []string{"the instrumented copy of golisp behaves like golisp under sequentially consistent memory"},
		Gen:         c09, Quick: 400 * time.Second, Thorough: 3000 * time.Second,
	})
}

func c09(G *core.G) {
	q := !G.Thorough()
	setup := []string{
		"(define (fact n) (if (< n 2) 1 (* n (fact (- n 1)))))",
		"(define (add3 a b c) (+ a b c))",
		"(define (opt a . r) (list a r))",
		"(define (compose f g) (lambda (x) (f (g x))))",
		"(define inc (lambda (x) (+ x 1)))",
		"(define k10 (let ((k 10)) (lambda (x) (+ x k))))",
		"(defmacro (swap a b) `(list ,b ,a))",
		"(defmacro (unless2 c . body) `(if ,c '() (begin ,@body)))",
		"(define proto {base: 5 get: (lambda () (+ base own)) twice: (lambda (n) (* 2 n)) self-own: (lambda () (own: self))})",
		"(define data '(3 1 2))",
		"(define al '((a . 1) (b . 2)))",
		"(define js \"{\\\"a\\\": [1, 2]}\")",
		"(define (even2 n) (if (== n 0) #t (odd2 (- n 1))))",
		"(define (odd2 n) (if (== n 0) #f (even2 (- n 1))))",
	}
	progs := []string{
		"(fact 3)",
		"(list (add3 1 2 3) (opt 1 2 3))",
		"((compose inc k10) 4)",
		"(swap 1 2)",
		"(begin (define z 4) (unless2 (> z 5) (set! z (+ z 1)) z))",
		"(let ((f {proto*: proto own: 7})) (list (send f get:) (get: f) (send f twice: 4)))",
		"(let ((f {proto*: proto own: 9})) (list (send f get:) (self-own: f)))",
		"(map inc data)",
		"(sort data <)",
		"(reduce + 0 (filter (lambda (x) (> x 1)) data))",
		"(list (assoc 'a al) (dissoc 'a al))",
		"(json->lisp js)",
		"(lisp->json {a: data})",
		"(on-error (car 5) (lambda (e) 'caught) (lambda () 1))",
		"(let loop ((i 0) (acc '())) (if (== i 2) acc (loop (+ i 1) (cons i acc))))",
		"(do ((i 0 (+ i 1)) (s 0 (+ s i))) ((== i 3) s))",
		"(even2 2)",
		`(format #f "~A-~S" 1 "x")`,
		"(eval '(inc 3) (procedure-environment inc))",
		"(apply add3 '(1 2 3))",
		"(begin (define x 1) (define (g y) (set! x (+ x y)) x) (g 2) (g 3))",
		"(list (str \"a\" \"b\") (string->number \"12\") (intern \"fresh-name\"))",
		"(begin (define c (cons 1 2)) (set-car! c 5) c)",
		"(bytearray->list (append-bytes (list->bytearray '(1 2)) 3))",
		"(case 3 ((1 2) 'a) ((3) 'b) (else 'c))",
		"(cond ((assoc 'z al) 1) (else (cdr (assoc 'b al))))",
		"(let* ((a 1) (b (+ a 1))) (list a b))",
		"(begin (define v 1) (environment-assign! (the-environment) 'v 6) v)",
		"(atomic-add! (atomic 4) 1)",
		"(join (fork (lambda (p) (fact 2))))",
	}
	b := 3
	if !q {
		b = 5
	}
	iso := func(name string, ths [][]string, bound int) {
		if n := strings.Count(name, "fork"); n > 0 {
			bound = max(1, bound-n)
			if strings.HasPrefix(name, "three times") {
				bound = b - 3
			}
		}
		// inherited slots take many steps, each of them a lock
		big := 0
		for _, th := range ths {
			for _, p := range th {
				if strings.Contains(p, "(send f") || strings.Contains(p, "(fact 3)") || strings.Contains(p, "unless2") && len(ths) > 2 {
					big++
				}
			}
		}
		if big > 1 || big > 0 && (len(ths) > 2 || len(ths[0]) > 1) {
			bound = max(1, bound-1)
		}
		G.Case(name, func(t *core.T) {
			(&Lin{Name: name, Setup: setup, Threads: ths, Bound: bound, EnvPer: true, Budget: 60 * time.Second}).Run(t)
		})
	}
	G.Case("every program works alone", func(t *core.T) {
		for _, p := range progs {
			env := newEnv()
			evalAll(env, setup)
			evalAll(env, []string{p})
			t.Trace(1)
			t.State(p)
		}
	})
	for i, a := range progs {
		for j := i; j < len(progs); j++ {
			iso(fmt.Sprintf("%s  ||  %s", a, progs[j]), [][]string{{a}, {progs[j]}}, b)
		}
	}
	for i, a := range progs {
		iso(fmt.Sprintf("three times %s", a), [][]string{{a}, {a}, {a}}, b-1)
		iso(fmt.Sprintf("%s with the next two", a), [][]string{{a}, {progs[(i+1)%len(progs)]}, {progs[(i+2)%len(progs)]}}, b-1)
		iso(fmt.Sprintf("twice each %s", a), [][]string{{a, progs[(i+5)%len(progs)]}, {progs[(i+5)%len(progs)], a}}, b-1)
	}
	// the shared code is that of the global environment, and the threads read
	// their programs, too
	for i, a := range progs {
		for j := i; j < len(progs); j++ {
			bb := 1
			if i == j || j == i+1 {
				bb = 2
			}
			if !q {
				bb += 2
			}
			for _, src := range []bool{false, true} {
				if src && q && i != j {
					continue
				}
				nm := fmt.Sprintf("global (source %v) %s  ||  %s", src, a, progs[j])
				ths := [][]string{{a}, {progs[j]}}
				bb := bb
				if strings.Contains(nm, "fork") {
					bb = 1
				}
				G.Case(nm, func(t *core.T) {
					(&Lin{Name: nm, Setup: setup, Threads: ths, Bound: bb, EnvPer: true, Top: true, Src: src, Budget: 60 * time.Second}).Run(t)
				})
			}
		}
	}
	// each of the other primitives used by two threads at once on different
	// arguments: scratch space they share would show
	lib := [][2]string{
		{`(string-upcase "ab")`, `(string-upcase "cd")`},
		{`(string-downcase "AB")`, `(string-downcase "CD")`},
		{`(string-capitalize "ab")`, `(string-capitalize "cd")`},
		{`(let ((s (str "a" "b"))) (string-upcase! s) s)`, `(let ((s (str "c" "d"))) (string-upcase! s) s)`},
		{`(let ((s (str "A" "B"))) (string-downcase! s) s)`, `(let ((s (str "C" "D"))) (string-downcase! s) s)`},
		{`(let ((s (str "a" "b"))) (string-capitalize! s) s)`, `(let ((s (str "c" "d"))) (string-capitalize! s) s)`},
		{`(string-trim "  a ")`, `(string-trim " b  ")`},
		{`(string-trim-left "xa" "x")`, `(string-trim-left "yb" "y")`},
		{`(string-trim-right "ax" "x")`, `(string-trim-right "by" "y")`},
		{`(string-split "a,b" ",")`, `(string-split "c;d" ";")`},
		{`(string-join '("a" "b") ",")`, `(string-join '("c" "d") ";")`},
		{`(substring "abcd" 1 3)`, `(substring "efgh" 0 2)`},
		{`(substring? "b" "abc")`, `(substring? "z" "abc")`},
		{`(string-prefix? "a" "abc")`, `(string-prefix? "z" "abc")`},
		{`(string-suffix? "c" "abc")`, `(string-suffix? "z" "abc")`},
		{`(number->string 12 2)`, `(number->string 34 16)`},
		{`(string->number "101" 2)`, `(string->number "ff" 16)`},
		{`(parse "(a b)")`, `(parse "(c d)")`},
		{`(list (quotient 7 2) (modulo 7 2) (floor 2.5))`, `(list (quotient 9 4) (modulo 9 4) (floor 3.5))`},
		{`(list (max '(1 2)) (min '(1 2)) (abs -1))`, `(list (max '(3 4)) (min '(3 4)) (abs -2))`},
		{`(list (sqrt 4) (pow 2 3) (sign -3))`, `(list (sqrt 9) (pow 3 2) (sign 3))`},
		{`(list (+ 1 2) (- 5 1) (* 2 3) (/ 8 2) (% 7 4))`, `(list (+ 3 4.5) (- 9 1) (* 5 6.5) (/ 9 3) (% 9 5))`},
		{`(list (binary-and 6 3) (binary-or 6 3) (binary-not 1) (left-shift 1 2) (right-shift 8 1))`, `(list (binary-and 5 4) (binary-or 5 2) (binary-not 2) (left-shift 1 4) (right-shift 16 2))`},
		{`(list (number->string 5) (integer 5.5) (float 5))`, `(list (number->string 6) (integer 6.5) (float 6))`},
		{`(append '(1 2) '(3))`, `(append '(4) '(5 6))`},
		{`(let ((l (list 1 2))) (append! l '(3)) l)`, `(let ((l (list 4))) (append! l '(5 6)) l)`},
		{`(reverse '(1 2 3))`, `(reverse '(4 5))`},
		{`(flatten '(1 (2 3)))`, `(flatten '((4) 5))`},
		{`(flatten* '(1 (2 (3))))`, `(flatten* '(((4)) 5))`},
		{`(list (union '(1 2) '(2 3)) (intersection '(1 2) '(2 3)) (complement '(1 2) '(2 3)))`, `(list (union '(4 5) '(5 6)) (intersection '(4 5) '(5 6)) (complement '(4 5) '(5 6)))`},
		{`(list (partition 2 '(1 2 3)) (partition odd? '(1 2 3)))`, `(list (partition 3 '(4 5 6 7)) (partition even? '(4 5 6)))`},
		{`(list (list-head '(1 2 3) 2) (list-tail '(1 2 3) 2) (sublist '(1 2 3 4) 1 3))`, `(list (list-head '(4 5 6) 1) (list-tail '(4 5 6) 1) (sublist '(4 5 6 7) 1 2))`},
		{`(list (take 2 '(1 2 3)) (drop 1 '(1 2 3)) (nth '(1 2) 1))`, `(list (take 1 '(4 5 6)) (drop 2 '(4 5 6)) (nth '(4 5) 2))`},
		{`(list (last-pair '(1 2)) (interval 1 3) (make-list 2 'a))`, `(list (last-pair '(3 4)) (interval 4 6) (make-list 3 'b))`},
		{`(list (memq 2 '(1 2 3)) (find odd? '(2 3)) (remove odd? '(1 2)))`, `(list (memq 5 '(4 5 6)) (find even? '(5 6)) (remove even? '(3 4)))`},
		{`(list (any odd? '(2 3)) (every odd? '(1 3)) (filter odd? '(1 2 3)))`, `(list (any odd? '(2 4)) (every odd? '(1 2)) (filter odd? '(5 6 7)))`},
		{`(list (map + '(1 2) '(3 4)) (reduce-left - 0 '(5 2 1)) (fold-left - 0 '(1 2)) (fold-right - 0 '(1 2)))`, `(list (map * '(1 2) '(3 4)) (reduce-left - 0 '(9 2 1)) (fold-left - 0 '(3 4)) (fold-right - 0 '(3 4)))`},
		{`(list (acons 'a 1 '()) (alist '((a . 1))) (pairlis '(a b) '(1 2)))`, `(list (acons 'b 2 '()) (alist '((b . 2))) (pairlis '(c d) '(3 4)))`},
		{`(list (rassoc 1 '((a . 1))) (assoc 'a '((a . 1))))`, `(list (rassoc 2 '((b . 2))) (assoc 'b '((b . 2))))`},
		{`(list (equal? '(1 2) '(1 2)) (eqv? 1 1) (copy '(1 (2))))`, `(list (equal? '(3 4) '(3 5)) (eqv? 3 4) (copy '(3 (4))))`},
		{`(list {a: 1} (clone {a: 1}) (frame-keys {a: 1}) (frame-values {a: 1}))`, `(list {b: 2} (clone {b: 2}) (frame-keys {b: 2}) (frame-values {b: 2}))`},
		{`(let ((f {a: 1})) (set-slot! f b: 2) (remove-slot! f a:) f)`, `(let ((f {c: 1})) (set-slot! f d: 2) (remove-slot! f c:) f)`},
		{`(list (json->lisp "{\"a\": 1}") (lisp->json '(1 "x")))`, `(list (json->lisp "{\"b\": 2.5}") (lisp->json '(2 "y")))`},
		{`(list [1 2] (replace-byte [1 2] 0 9) (extract-bytes [1 2 3] 0 2) (extract-byte [1 2] 1))`, `(list [3 4] (replace-byte [3 4] 0 8) (extract-bytes [4 5 6] 1 2) (extract-byte [3 4] 1))`},
		{`(let ((b (list->bytearray '(1 2)))) (replace-byte! b 0 9) (append-bytes! b 3) b)`, `(let ((b (list->bytearray '(4 5)))) (replace-byte! b 1 8) (append-bytes! b 6) b)`},
		{"(let ((x 1)) `(a ,x ,@(list 2 3)))", "(let ((x 4)) `(b ,x ,@(list 5 6)))"},
		{`(expand (unless2 #t 1))`, `(expand (swap 1 2))`},
		{`(letrec ((f (lambda (n) (if (== n 0) 'a (f (- n 1)))))) (f 2))`, `(letrec ((f (lambda (n) (if (== n 0) 'b (f (- n 1)))))) (f 1))`},
		{`(-> 1 (+ 2) (* 3))`, `(-> 4 (+ 5) (* 6))`},
		{`(=> 1 (+ 2) (* 3))`, `(=> 4 (+ 5) (* 6))`},
		{`(list (when #t 1 2) (unless #f 3))`, `(list (when #t 4 5) (unless #f 6))`},
		{`(list (string-ci=? "Ab" "aB") (string-ci<? "a" "B") (string<? "a" "b"))`, `(list (string-ci=? "Ab" "cB") (string-ci<? "C" "b") (string<? "d" "c"))`},
		{`(format #f "~5A|~3S" 1 2)`, `(format #f "~6A|~4S" 5 "b")`},
		{`(list (pred 3) (succ 3) (interval 1 3) (make-list 2 'a) (cons* 1 2 '(3)))`, `(list (pred 5) (succ 5) (interval 4 6) (make-list 1 'b) (cons* 4 5 '(6)))`},
		{`(list (fold-left cons 0 '(1 2)) (assq 'a '((a . 1))) (assv 2 '((2 . 3))) (find-tail odd? '(2 3 4)))`, `(list (fold-left cons 0 '(3 4)) (assq 'b '((b . 1))) (assv 3 '((3 . 4))) (find-tail odd? '(4 5 6)))`},
		{`(list (float->bits 1.5) (memv 2 '(1 2)) (member '(1) '((1) 2)))`, `(list (float->bits 2.5) (memv 4 '(3 4)) (member '(3) '((3) 4)))`},
		{`(let ((l (list 1 2 3))) (set-nth! l 1 9) (set-cdr! (cdr l) '(7)) l)`, `(let ((l (list 4 5 6))) (set-nth! l 1 8) (set-cdr! (cdr l) '(6)) l)`},
		{`(on-error (error "e1") (lambda (e) e))`, `(on-error (error "e2") (lambda (e) e))`},
		{`(global-eval '(+ 1 2))`, `(global-eval '(+ 3 4))`},
		{`(list (clone {a: {b: 1}}) (get-slot-or-nil {a: 1} b:) (apply-slot {m: (lambda (x) x)} m: '(3)))`, `(list (clone {c: {d: 2}}) (get-slot-or-nil {d: 1} d:) (apply-slot {m: (lambda (x) (* 2 x))} m: '(4)))`},
		{`(let ((p (open-output-file "/dev/null"))) (write '(1 "a") p) (write-bytes [1 2] p) (close-port p))`, `(let ((p (open-output-file "/dev/null"))) (write '(2 "b") p) (write-bytes [3 4] p) (close-port p))`},
		{`(str 1 'a "b" 2.5)`, `(str 3 'c "d" 4.5)`},
		{`(environment-bound-names (the-environment))`, `(begin (define q1 1) (environment-assigned? (the-environment) 'q1))`},
		{`(begin (define (f1 x) x) (f1 3))`, `(begin (define (g1 x) (list x)) (g1 2))`},
	}
	for i, l := range lib {
		x := b - 2
		iso("library "+l[0]+"  ||  "+l[1], [][]string{{l[0]}, {l[1]}}, x)
		n := lib[(i+1)%len(lib)]
		iso("library "+l[0]+"  ||  "+n[0]+"; "+n[1], [][]string{{l[0]}, {n[0], n[1]}}, x)
	}
	// the same function seen as a method by one and as a plain function by another
	slot := []string{
		"(define x 1)", "(define (getx) x)",
		"(define meth {m: (lambda () (getx))})",
	}
	viaFrame := "(let ((a {p*: meth x: 5})) (send a m:))"
	for _, other := range []string{"(getx)", "(let ((g getx)) (g))", "(map (lambda (f) (f)) (list getx))"} {
		other := other
		nm := "plain or method: " + viaFrame + "  ||  " + other
		G.Case(nm, func(t *core.T) {
			(&Lin{Name: nm, Setup: slot, Threads: [][]string{{viaFrame}, {other}}, Bound: b, EnvPer: true, Budget: 60 * time.Second}).Run(t)
		})
	}
}
