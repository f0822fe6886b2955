package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C20", Level: "model_checking", Chunk: 1, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule: "after every bounded history of copies, library calls and in-place changes, every variable shows what the reference heap model shows", Assumptions: libAssume, Gen: genC20,
	})
}

func genC20(gg *core.G) {
	largeCopies(gg)
	deep := gg.Thorough()
	// copies of nested structures, changed on either side
	vals := []string{"(list 1 2 3)", "(list (list 1 2) (list 3))", "(list 1 (list 2 (list 3 (list 4))))", "(list (list (list (list 1))))", "(cons 1 2)", "(list (cons 'a 1) (cons 'b 2))", "(alist (list (cons 'a 1) (cons 'b 2)))", "(alist (list (cons 'a (list 1)) (cons 'b (list 2))))",
		"{a: 1 b: 2}", "{a: {b: {c: 1}}}", "{a: (1 2) b: [1 2]}", "(list {a: 1} 2)", "(list [1 2] [3])", "[1 2 3]", "(list \"ab\" (list \"cd\"))", "{a: \"xy\"}", "(list (alist (list (cons 'a [1]))) 2)", "{p*: {q: 1} a: 2}", "(cons (list 1) (list 2))", "(list {a: {b: (1 2)}})", "(copy (list 1 (list 2)))", "(list (list))", "(list 1 [5 6] {a: [7 8]} (list [9]))"}
	muts := func(v string) []string {
		return []string{"(set-car! " + v + " 'm)", "(set-cdr! " + v + " 'n)", "(set-car! (car " + v + ") 'o)", "(set-cdr! (car " + v + ") 'p)", "(set-car! (cadr " + v + ") 'q)", "(set-car! (cdr " + v + ") 'r)", "(set-nth! " + v + " 1 's)", "(append! " + v + " (list 't))", "(append! (car " + v + ") (list 'u))",
			"(set-slot! " + v + " a: 'v)", "(remove-slot! " + v + " a:)", "(set-slot! (a: " + v + ") b: 'w)", "(set-slot! (car " + v + ") a: 'x)", "(set-car! (a: " + v + ") 'y)", "(replace-byte! " + v + " 0 77)", "(append-bytes! " + v + " 78)", "(replace-byte! (car " + v + ") 0 79)", "(replace-byte! (b: " + v + ") 0 80)", "(replace-byte! (a: " + v + ") 0 81)", "(append-bytes! (cadr " + v + ") 82)",
			"(string-upcase! (car " + v + "))", "(string-upcase! (a: " + v + "))", "(set-cdr! (assoc 'a " + v + ") 'k)", "(set-slot! (p*: " + v + ") q: 'l)", "(replace-byte! (cdr (assoc 'a (car " + v + "))) 0 83)", "(set-car! (cadr (cadr " + v + ")) 84)", "(set-slot! (b: (a: " + v + ")) c: 85)", "(set-car! (b: (a: (car " + v + "))) 86)", "(set-car! (cdr (assoc 'b " + v + ")) 87)", "(acons 'a 88 " + v + ")", "(set-car! (caaar " + v + ") 89)", "(replace-byte! (a: (caddr " + v + ")) 0 90)"}
	}
	ms := append(muts("s"), muts("c")...)
	ms = append(ms, muts("d")...)
	cps := []string{"(copy s)", "s", "(copy (copy s))", "(car (list (copy s)))", "((lambda (x) (copy x)) s)", "(clone s)"}
	for _, v := range vals {
		watch := "s|c|d|(== s c)|(== c d)"
		if strings.Contains(v, "alist") {
			watch = "s|c|d" // comparing improper association lists is left open
		}
		progs(gg, "copy", "(define s "+v+")|(define c _)|(define d (copy c))|_|_", watch, cps, ms, ms)
		if deep {
			progs(gg, "copy3", "(define s "+v+")|(define c (copy s))|(define d c)|_|_|_", watch, ms, ms, ms)
		}
	}
	for _, n := range sizes {
		n := n
		if n == 0 {
			continue
		}
		gg.Case(fmt.Sprintf("long copy %d", n), func(t *core.T) {
			for at := 0; at < n; at++ {
				for _, f := range []string{
					"(define s (list %[1]s))|(define c (copy s))|(set-nth! s %[2]d 'new)|(set-nth! c %[3]d 'other)",
					"(define s [%[1]s])|(define c (copy s))|(replace-byte! s %[2]d 250)|(replace-byte! c %[3]d 251)",
					"(define s [%[1]s])|(define c (replace-byte s %[2]d 250))|(replace-byte! c %[3]d 251)",
					"(define s (map (lambda (x) (list x)) (list %[1]s)))|(define c (copy s))|(set-car! (nth %[2]d s) 'new)|(set-car! (nth %[3]d c) 'other)",
					"(define s {%[4]s})|(define c (copy s))|(set-slot! s s%[2]d: 'new)|(set-slot! c s%[3]d: 'other)",
					"(define s {%[4]s})|(define c (clone s))|(set-slot! s s%[2]d: 'new)|(set-slot! c s%[3]d: 'other)|(remove-slot! s s%[3]d:)",
					"(define s (alist '(%[5]s)))|(define c (copy s))|(set-cdr! (assoc 'k%[2]d s) 'new)|(set-cdr! (assoc 'k%[3]d c) 'other)",
				} {
					src := fmt.Sprintf(f, rep(n, num), at, n-1-at, rep(n, func(i int) string { return fmt.Sprintf("s%d: %d", i, i) }), rep(n, func(i int) string { return fmt.Sprintf("(k%d . %d)", i, i) }))
					if k := strings.Index(src, "%!(EXTRA"); k >= 0 {
						src = src[:k]
					}
					diff(t, Prog{Src: strings.Split(src, "|"), Watch: []string{"s", "c"}})
				}
			}
		})
		gg.Case(fmt.Sprintf("deep copy %d", n), func(t *core.T) {
			x := "1"
			get := "c"
			for i := 0; i < n; i++ {
				x = "(list " + x + ")"
				if i > 0 {
					get = "(car " + get + ")"
				}
			}
			diff(t, Prog{Src: []string{"(define s " + x + ")", "(define c (copy s))", "(set-car! " + get + " 'm)"}, Watch: []string{"s", "c"}})
		})
	}
	// what a library function returns, changed: which arguments change with it
	l2 := []string{"(list 1 2 3)", "(list 3 1 2)", "(list (list 1) (list 2))", "(list 1)", "()"}
	un := []string{"(reverse a)", "(cdr a)", "(copy a)", "(append a)", "(append a ())", "(append () a)", "(append a (list 9))", "(append (list 9) a)", "(list-tail a 1)", "(list-head a 2)", "(take 2 a)", "(drop 1 a)", "(sublist a 0 2)", "(filter number? a)", "(remove null? a)", "(map mc-id a)", "(sort a <)", "(flatten a)", "(flatten* a)", "(intersection a a)", "(complement a)", "(complement a (list 7))", "(cons 8 a)", "(cons* 8 a)", "(last-pair a)", "(memq 2 a)", "(partition 2 a)", "(list a)", "(apply list a)", "(mc-id a)", "(begin a)", "(fold-right cons () a)", "(fold-left (lambda (x y) (cons y x)) () a)", "(reduce-left append () (list a a))", "(let ((q a)) q)", "((lambda (. r) (car r)) a)", "(apply (lambda (. r) r) a)", "(apply (lambda (x . r) r) a)", "(find-tail number? a)", "(find list? a)", "`(,@a)", "`(0 ,@a)", "`(,a)", "`(,@a 9)", "(eval 'a)", "(car (list a))", "(interval 3)", "'(1 2 3)", "(apply list 5 a)", "(car (map (lambda (x) a) '(1)))", "(first a)", "(nth 0 a)", "(list-ref a 0)", "(append! a (list 5))", "(cdr (acons 1 2 (list a)))", "(alist (list (cons 1 a)))", "(get-slot {z: ()} z:)", "(-> a cdr)", "(partition list? a)", "(memp number? a)", "(any mc-id (list #f a))", "(every mc-id (list #t a))", "(sublist a 0 (length a))", "(list-head a (length a))", "(list-tail a 0)", "(take (length a) a)", "(take 9 a)", "(drop 0 a)", "(filter (lambda (x) #t) a)", "(remove (lambda (x) #f) a)", "(sort a (lambda (x y) #f))", "(partition 9 a)", "(partition (lambda (x) #t) a)", "(map (lambda (x) x) a)", "(append a () ())", "(append () () a)", "(append! a ())", "(append! () a)", "(complement a ())", "(reverse (reverse a))", "(cons* a)", "(reduce-right append () (list a ()))", "(fold-left append () (list a))", "(apply append (list a))", "(cddr (cons* 1 2 a))"}
	mu := []string{"(set-car! r 'm)", "(set-cdr! r (list 'n))", "(set-car! (cdr r) 'o)", "(set-car! (car r) 'p)", "(append! r (list 'q))", "(set-car! a 'r)", "(set-car! (cdr a) 's)", "(append! a (list 't))", "(set-car! (car a) 'u)"}
	for _, f := range un {
		progs(gg, "alias", "(define a _)|(define r "+f+")|_|_", "a|r", l2, mu, mu)
	}
	// strings: what a function gives for one it need not change
	sfs := []string{"(str a)", "(string-upcase a)", "(string-downcase a)", "(string-capitalize a)", "(string-trim a)", "(string-trim-left a)", "(string-trim-right a)", "(substring a 0 (string-length a))", "(string-join (list a))", "(string-join (list a) \",\")", "(string-join (list a \"\") \"\")", "(car (string-split a \",\"))", "(copy a)", "a", "(intern a)", "(str a \"\")", "(str 'x a)", "(car (list a))", "(string-upcase! a)", "(string-trim a \"z\")", "(car (copy (list a)))", "(s: {s: a})", "(s: (clone {s: a}))", "(cdr (assoc 1 (list (cons 1 a))))"}
	sms := []string{"(string-upcase! a)", "(string-downcase! a)", "(string-capitalize! a)", "(string-upcase! r)", "(string-downcase! r)", "(string-capitalize! r)", "(string-upcase! b)"}
	for _, f := range sfs {
		progs(gg, "alias strings", "(define a (str _))|(define b a)|(define r "+f+")|_|_", "a|b|r|(list a b r)", []string{"\"ab\"", "\"AB\"", "\"Ab cd\"", "\"\"", "\"é\""}, sms, sms)
	}
	// byte arrays likewise
	for _, f := range []string{"(take 3 a)", "(take 2 a)", "(drop 0 a)", "(drop 1 a)", "(extract-bytes a 0 3)", "(extract-bytes a 1 2)", "(append-bytes a)", "(append-bytes a [])", "(append-bytes [] a)", "(append-bytes a 1)", "(replace-byte a 0 1)", "(copy a)", "(list->bytearray (bytearray->list a))", "(list->bytearray (list a))", "(list->bytearray (list a 4))", "(append-bytes! a [])", "(replace-byte! a 0 1)", "(car (copy (list a)))", "(y: (copy {y: a}))", "(y: (clone {y: a}))"} {
		progs(gg, "alias bytes", "(define a [1 2 3])|(define b a)|(define r "+f+")|_|_", "a|b|r", []string{"(replace-byte! a 0 77)", "(replace-byte! r 0 78)", "(replace-byte! r 1 79)", "(append-bytes! a 80)", "(append-bytes! r 81)", "(append-bytes! b [82 83])"}, []string{"(replace-byte! a 0 87)", "(replace-byte! r 0 88)", "(replace-byte! r 1 89)", "(append-bytes! a 90)", "(append-bytes! r 91)", "(append-bytes! b [92 93])"})
	}
	// two arguments
	for _, f := range []string{"(append a b)", "(append! a b)", "(intersection a b)", "(complement a b)", "(cons a b)", "(list a b)", "(map list a b)", "(cons* a b)", "(append a b a)", "(pairlis a b)", "(append () a b)", "(append a () b)", "(append a b ())"} {
		progs(gg, "alias2", "(define a _)|(define b _)|(define r "+f+")|_|_", "a|b|r", l2[:3], l2, append(mu, "(set-car! b 'x)", "(append! b (list 'y))"), append(mu, "(set-car! b 'x)", "(append! b (list 'y))"))
	}
	// union may copy the elements of its first list
	for _, f := range []string{"(union a)", "(union a a)", "(union a b)", "(union () a)"} {
		flat := []string{"(list 1 2 3)", "(list 3 1)", "()"}
		progs(gg, "alias union", "(define a _)|(define b _)|(define r "+f+")|_|_", "a|b|r", flat, flat, mu, append(mu, "(set-car! b 'x)", "(append! b (list 'y))"))
	}
	// a function sees its own list of arguments, frames and constants
	progs(gg, "arguments", "(define l (list 1 2 3))|(define (f . r) _ r)|(define r1 (_))|(define r2 (_))", "l|r1|r2", []string{"(set-car! r 'm)", "(append! r (list 'n))", "(set! r ())"}, []string{"apply f l", "f 1 2 3", "apply f 1 (cdr l)", "f l", "map f l", "map f l l"}, []string{"apply f l", "f 1 2 3", "apply f 1 (cdr l)", "f l"})
	progs(gg, "constants", "(define (f) _)|(define r1 (f))|_|(define r2 (f))|_|(define r3 (f))", "r1|r2|r3", []string{"(list 1 2)", "(cons 1 (list 2))", "(copy '(1 2))", "(append '(1 2) (list 3))", "(append '(1 2) ())", "'(1 2)", "`(1 2)", "`(1 ,(+ 1 1))", "[1 2]", "(list->bytearray '(1 2))", "{a: 1}", "(make-frame a: 1)", "(str \"ab\")", "\"ab\"", "(map mc-id '(1 2))"}, []string{"(set-car! r1 'm)", "(append! r1 (list 'n))", "(replace-byte! r1 0 9)", "(append-bytes! r1 9)", "(set-slot! r1 a: 9)", "(string-upcase! r1)"}, []string{"(set-car! r2 'm)", "(append! r2 (list 'n))", "(replace-byte! r2 0 8)", "(append-bytes! r2 8)", "(set-slot! r2 a: 8)", "(string-upcase! r2)"})
	// frames
	fo := []string{"(set! g (copy f))", "(set! g (clone f))", "(set! g f)", "(set-slot! f a: 9)", "(set-slot! g a: 8)", "(set-slot! f b: g)", "(set-slot! (b: f) x: 7)", "(remove-slot! f a:)", "(remove-slot! g a:)", "(set-car! (l: f) 6)", "(set-car! (l: g) 5)", "(set! h (copy g))", "(set-slot! h n: 1)", "(a:! f 4)", "(set-slot! (p*: f) i: 3)", "(set-slot! g i: 2)", "(replace-byte! (y: f) 0 1)", "(replace-byte! (y: h) 0 2)"}
	for _, o := range fo {
		progs(gg, "frames", "(define f {a: 1 l: (1 2) y: [1 2] b: {x: 1} p*: {i: 0}})|(define g f)|(define h {})|"+o+"|_|_", "f|g|h|(i: f)|(i: g)", fo, fo)
		if deep {
			progs(gg, "frames4", "(define f {a: 1 l: (1 2) y: [1 2] b: {x: 1} p*: {i: 0}})|(define g f)|(define h {})|"+o+"|_|_|_", "f|g|h|(i: f)|(i: g)", fo, fo, fo)
		}
	}
}
