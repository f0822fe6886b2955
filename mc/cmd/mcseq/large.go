package main

import (
	"fmt"
	"strconv"
	"strings"

	"verif/mc/core"
)

// large values: sizes around the usual boundaries
var (
	farSizes  = []int{200, 250, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 777, 999, 1000, 1001, 1023, 1024, 1025, 1500, 1999, 2000, 2001, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000}
	hugeSizes = []int{8191, 8193, 9999, 10000, 10001, 16383, 16385, 20000, 32767, 32769, 50000, 65535, 65536, 65537, 99999, 100001, 131073}
	quadSizes = []int{200, 255, 256, 257, 500, 511, 513, 999, 1000, 1001, 1023, 1025}
)

// sized fills a template for a size: {n} and sums of it, {l} numbers, {s} a
// string, {b} bytes, {f} slots, {p} pairs, {q} strings, {d} numbers that occur
// more than once, {u} text with letters and spaces.
func sized(tpl string, n int) []string {
	var r []string
	for _, s := range strings.Split(tpl, "|") {
		for _, k := range []string{"l", "s", "b", "f", "p", "q", "d", "u", "("} {
			if !strings.Contains(s, "{"+k+"}") {
				continue
			}
			var v string
			switch k {
			case "l":
				v = rep(n, num)
			case "s":
				v = `"` + rept(n, func(i int) string { return string(rune('a' + i%26)) }) + `"`
			case "b":
				v = "[" + rep(n, func(i int) string { return num(i % 256) }) + "]"
			case "f":
				v = "{" + rep(n, func(i int) string { return fmt.Sprintf("s%d: %d", i, i) }) + "}"
			case "p":
				v = rep(n, func(i int) string { return fmt.Sprintf("(k%d . %d)", i, i) })
			case "q":
				v = rep(n, func(i int) string { return fmt.Sprintf("\"w%d\"", i) })
			case "d":
				v = rep(n, func(i int) string { return num(i * 7 % (n/2 + 1)) })
			case "u":
				v = `"` + rept(n, func(i int) string { return []string{"b", "A", " ", "é", ",", "z"}[i*i%6] }) + `"`
			}
			s = strings.ReplaceAll(s, "{"+k+"}", v)
		}
		for {
			i := strings.Index(s, "{n")
			if i < 0 {
				break
			}
			j := i + strings.IndexByte(s[i:], '}')
			v := n
			if e := s[i+2 : j]; e != "" {
				k, err := strconv.Atoi(e[1:])
				if err != nil {
					panic(tpl)
				}
				switch e[0] {
				case '+':
					v = n + k
				case '-':
					v = n - k
				case '/':
					v = n / k
				}
			}
			s = s[:i] + num(v) + s[j+1:]
		}
		r = append(r, s)
	}
	return r
}

func rept(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

// large is a case per template: the program at every size.
func large(gg *core.G, ns []int, watch string, tpls ...string) {
	for _, tpl := range tpls {
		tpl := tpl
		gg.Case("large "+num(ns[len(ns)-1])+" "+tpl, func(t *core.T) {
			for _, n := range ns {
				if t.Expired() || t.Failed() {
					return
				}
				p := Prog{Src: sized(tpl, n)}
				if watch != "" {
					p.Watch = strings.Split(watch, "|")
				}
				diffOpt(t, p, 2000*n+2000000, "")
			}
		})
	}
}

func largeLists(gg *core.G) {
	one := []string{"(length l)", "(reverse l)", "(copy l)", "(last-pair l)", "(flatten l)", "(flatten* l)", "(list-head l {n-1})", "(list-head l {n})", "(list-tail l {n-1})", "(list-tail l {n/2})", "(take {n-1} l)", "(take {n+1} l)", "(drop {n-1} l)", "(drop {n/2} l)",
		"(sublist l 1 {n-1})", "(sublist l {n/2} {n})", "(nth {n-1} l)", "(nth {n} l)", "(list-ref l {n-1})", "(list-ref l {n/2})", "(append l l)", "(append l '(1))", "(append '(1) l)", "(append! (copy l) l)", "(cons 1 l)", "(apply list l)", "(apply cons* l)", "(apply + l)", "(apply max l)",
		"(memq {n-1} l)", "(member {n/2} l)", "(memv {n} l)", "(memp (lambda (x) (>= x {n-1})) l)", "(find (lambda (x) (== x {n-1})) l)", "(find-tail (lambda (x) (== x {n/2})) l)", "(filter odd? l)", "(remove odd? l)", "(partition 7 l)", "(partition {n-1} l)", "(map succ l)", "(map + l l)", "(begin (for-each mc-log l) (mc-tick))", "(any (lambda (x) (== x {n-1})) l)", "(every number? l)",
		"(reduce-left + 0 l)", "(reduce + 0 l)", "(reduce-right - 0 l)", "(fold-left (lambda (a x) (+ (* a 3) x)) 1 l)", "(fold-right cons () l)", "(fold-right - 5 l)", "(sort l >)", "(sort l <)", "(interval {n})", "(interval 1 {n} 3)", "(make-list {n} 'x)", "(length (make-list {n} 5))", "(set-nth! l {n} 'z)", "(set-nth! l {n/2} 'z)", "(set-cdr! (list-tail l {n/2}) ())", "(set-car! (list-tail l {n-1}) 'q)", "(== l (copy l))", "(== l (reverse l))", "(list? l)", "(map (lambda (x) (if (== x {n-1}) (error \"e\") x)) l)", "(map list l (cdr l))"}
	for _, f := range one {
		large(gg, farSizes, "l", "(define l (list {l}))|"+f)
		if !strings.Contains(f, "sort") {
			large(gg, hugeSizes, "(length l)", "(define l (interval 0 {n-1}))|(define r "+f+")|(if (list? r) (length r) r)|(if (pair? r) (car r) r)|(if (pair? r) (last-pair r) 0)|(if (pair? r) (list-ref r (quotient (length r) 2)))")
		}
	}
	for _, f := range []string{"(union d)", "(union d d)", "(union l d)", "(union d l)", "(intersection d l)", "(intersection l d)", "(complement l d)", "(complement d l)", "(complement d d)", "(intersection d d)", "(sort d <)", "(sort d >)", "(flatten (list d (list l (list d))))", "(flatten* (list d (list l (list d))))", "(append d l d)", "(union l (list {n} {n+1} 1))"} {
		large(gg, quadSizes, "l|d", "(define l (list {l}))|(define d (list {d}))|"+f)
	}
	// lists of many lists
	large(gg, quadSizes, "", "(apply append (map list (list {l})))", "(apply union (map list (list {d})))", "(apply map list (map list (list {l})))", "(apply append! (map list (list {l})))", "(apply list (list {l}))", "(apply cons* (list {l}))", "(flatten (map list (list {l})))", "(flatten* (map (lambda (x) (list x (list x))) (list {l})))",
		"(define (nest n) (if (== n 0) 1 (list (nest (- n 1)))))|(flatten* (list 0 (nest {n}) 2))|(define c (copy (nest {n})))|(== c (nest {n}))|(== c (nest {n-1}))")
	// long lists of lists
	for _, f := range one {
		if strings.Contains(f, "+") || strings.Contains(f, "max") || strings.Contains(f, "succ") || strings.Contains(f, "odd") || strings.Contains(f, "(- ") || strings.Contains(f, "reduce-right") || strings.Contains(f, "fold-right -") || strings.Contains(f, "sort") || strings.Contains(f, "x {") {
			continue
		}
		large(gg, farSizes, "l", "(define l (map (lambda (x) (if (even? x) (list x (list x (list 'x))) (list (list) x))) (list {l})))|"+f)
	}
	for _, f := range []string{"(sort l (lambda (x y) (< (cadr x) (cadr y))))", "(map cadr l)", "(apply append l)", "(map reverse l)", "(assoc {n-1} l)", "(flatten (flatten l))", "(apply union l)", "(member (list {n-1} {n}) l)", "(length (flatten* l))"} {
		large(gg, quadSizes, "l", "(define l (map (lambda (x) (list x (+ x 1))) (list {l})))|"+f)
	}
	for _, f := range []string{"(+ {l})", "(list {l})", "(cons* {l})", "(max {l})", "(begin {l})", "(and {l})", "(or #f {l})", "(str {l})", "(< {n} 1)", "(append {l})", "(- {l})", "(* 1 {l})", "(apply + 1 2 (list {l}))"} {
		large(gg, farSizes, "", f)
	}
}

func largeStrings(gg *core.G) {
	one := []string{"(string-length s)", "(string-upcase s)", "(string-downcase s)", "(string-capitalize s)", "(substring s 0 {n})", "(substring s 1 {n-1})", "(substring s {n-1} {n})", "(substring s 0 {n+1})", "(substring s {n/2} {n})", "(string-trim s)", "(string-trim s \"abz\")", "(string-trim-left s \"ab\")", "(string-trim-right s \"z\")", "(string-split s \"e\")", "(string-split s \"\")", "(string-join (string-split s \"\") \"-\")", "(string-prefix? s s)", "(string-suffix? (substring s 1 {n}) s)", "(string-prefix? (str s \"x\") s)", "(substring? (substring s 1 {n-1}) s)", "(substring? (str s \"!\") s)",
		"(string=? s (str s))", "(string=? s (str s \"a\"))", "(string<? s (str s \"a\"))", "(string>? s (str s \"a\"))", "(string<=? (string-upcase s) s)", "(string-ci=? (string-upcase s) s)", "(string-ci<? (string-upcase s) (str s \"b\"))", "(string-ci=? s (str s \"A\"))", "(string-upcase! s)", "(string-downcase! s)", "(string-capitalize! s)", "(str s s)", "(string-null? s)", "(intern s)", "(== s (str (intern s)))", "(eq? (intern s) (intern (str s)))", "(== s (copy s))", "(parse (str \"(a \" s \" b)\"))", "(string-length (str s 1 'x s))", "(string-trim (str \"  \" s \" \"))"}
	for _, f := range one {
		ns := farSizes
		large(gg, ns, "s", "(define s {s})|"+f)
		large(gg, []int{9999, 10001, 16385, 32769, 65535, 65537, 131073}, "s", "(define s {s})|"+f)
		if !strings.Contains(f, "parse") && !strings.Contains(f, "substring s") && !strings.Contains(f, "(string-split s \"\")") {
			large(gg, ns, "s", "(define s {u})|"+f)
		}
	}
	large(gg, append(append([]int{}, farSizes...), hugeSizes[:9]...), "", "(string-join (list {q}) \",\")", "(string-join (list {q}))", "(length (string-split (string-join (list {q}) \",\") \",\"))", "(string-split (string-join (list {q}) \"--\") \"--\")", "(string-length (apply str (list {q})))", "(apply str (list {l}))", "(== (list {q}) (string-split (string-join (list {q}) \"/\") \"/\"))")
}

func largeAlists(gg *core.G) {
	for _, mk := range []string{"'({p})", "(alist '({p}))"} {
		for _, f := range []string{"(assoc 'k{n-1} a)", "(assq 'k{n/2} a)", "(assv 'k{n} a)", "(assoc 'k0 a)", "(rassoc {n-1} a)", "(rassoc {n/2} a)", "(rassoc {n} a)", "(set-cdr! (assoc 'k{n-1} a) 'new)", "(set-cdr! (assoc 'k{n/2} a) 'new)", "(acons 'k{n-1} 'x a)", "(acons 'new 'x a)", "(length (dissoc 'k{n/2} a))", "(assoc 'k{n-1} (dissoc 'k{n-1} a))", "(assoc 'k{n/2} (dissoc 'k{n-1} a))", "(length a)"} {
			ns := quadSizes
			if mk[0] == '\'' && !strings.Contains(f, "dissoc") {
				ns = append(append([]int{}, farSizes...), 9999, 10001, 16385, 65537)
			}
			large(gg, ns, "(assoc 'k{n} a)|(length a)", "(define a "+mk+")|"+f+"|(assoc 'k{n-1} a)|(assoc 'k{n/2} a)|(assoc 'k1 a)|(length a)")
		}
	}
	large(gg, farSizes, "", "(pairlis (list {l}) (list {q}))", "(pairlis (list {l}) (list {q}) '((a . 1)))", "(pairlis (list {l}) (list {n} {l}))", "(length (alist '({p})))", "(assoc {n-1} (pairlis (list {l}) (list {q})))", "(assoc (list {l}) (list (cons (list 1 {l}) 1) (cons (list {l}) 2)))", "(assoc {s} (list (cons (str {s} \"x\") 1) (cons {s} 2)))")
}

func largeBytes(gg *core.G) {
	one := []string{"(bytearray->list b)", "(length b)", "(extract-byte b {n-1})", "(extract-byte b {n})", "(extract-byte b {n/2})", "(extract-bytes b 0 {n})", "(extract-bytes b 1 {n-1})", "(extract-bytes b {n/2} 3)", "(extract-bytes b {n-1} 1)", "(extract-bytes b {n-1} 2)", "(replace-byte b {n-1} 77)", "(replace-byte! b {n-1} 77)", "(replace-byte! b {n/2} 255)", "(replace-byte! b {n} 1)", "(append-bytes b b)", "(append-bytes b 1 2)", "(append-bytes! b b)", "(append-bytes! b '(9 8))", "(append-bytes [1] b)", "(append-bytes [1] (bytearray->list b))", "(apply append-bytes [1] (bytearray->list b))", "(copy b)", "(== b (copy b))", "(== b (replace-byte b {n-1} 100))", "(== b (append-bytes b 0))", "(list->bytearray (bytearray->list b))", "(list->bytearray (list {l}))", "(list->bytearray (list b b 1))", "(take {n-1} b)", "(drop {n-1} b)", "(str b)", "(parse (str b))"}
	for _, f := range one {
		large(gg, append(append([]int{}, farSizes...), 8193, 10001, 16385, 65537), "b|c", "(define b {b})|(define c b)|"+f)
	}
}

func largeEqual(gg *core.G) {
	for _, f := range []string{"==", "eq?", "equal?", "!="} {
		large(gg, append(append([]int{}, farSizes...), 10001, 16385, 65537), "", "("+f+" (list {l}) (list {l}))", "("+f+" (list {l} 1) (list {l} 2))", "("+f+" (list {l}) (list {l} 2))", "(define l (list {l}))|(define m (copy l))|("+f+" l m)|(set-car! (list-tail m {n/2}) 'x)|("+f+" l m)|("+f+" m l)",
			"("+f+" {s} {s})", "("+f+" (str {s} \"a\") (str {s} \"b\"))", "("+f+" {b} {b})", "(define b {b})|("+f+" b (replace-byte b {n-1} (% (+ 1 (extract-byte b {n-1})) 256)))|("+f+" b (append-bytes b 0))", "("+f+" '({p}) '({p}))", "("+f+" '({p} (q . 1)) '({p} (q . 2)))")
		large(gg, farSizes, "", "("+f+" {f} {f})", "(define f {f})|(define g (copy f))|("+f+" f g)|(set-slot! g s{n-1}: 'x)|("+f+" f g)|("+f+" g f)|(remove-slot! g s{n-1}:)|("+f+" f g)|("+f+" g f)|(remove-slot! f s{n-1}:)|("+f+" f g)")
		large(gg, quadSizes[:8], "", "("+f+" (alist '({p})) (reverse '({p})))", "(define a (alist '({p})))|(define b (alist '({p})))|("+f+" a b)|(set-cdr! (assoc 'k{n/2} b) 'x)|("+f+" a b)|("+f+" b a)")
		large(gg, quadSizes, "", "(define (nest n x) (if (== n 0) x (list (nest (- n 1) x))))|("+f+" (nest {n} 1) (nest {n} 1))|("+f+" (nest {n} 1) (nest {n} 2))|("+f+" (nest {n} 1) (nest {n-1} 1))")
	}
	for _, f := range []string{"(member (list {l}) (list 1 (list {l} 0) (list {l})))", "(memq {s} (list (str {s} 1) {s}))", "(case {n} (({l}) 'in) (else 'out))", "(case {n-1} (({l}) 'in) (else 'out))", "(union (list {s}) (list {s} (str {s} 1)))"} {
		large(gg, farSizes, "", f)
	}
}

func largeCopies(gg *core.G) {
	// a change at either end or in the middle of a large structure shows in no copy
	for _, at := range []string{"0", "{n/2}", "{n-1}"} {
		large(gg, append(append([]int{}, farSizes...), 10001, 16385, 65537), "s|c|d",
			"(define s (list {l}))|(define c (copy s))|(define d (copy c))|(set-car! (list-tail s "+at+") 'new)|(set-car! (list-tail c "+at+") 'other)",
			"(define s {b})|(define c (copy s))|(define d (append-bytes c))|(replace-byte! s "+at+" 200)|(replace-byte! c "+at+" 201)|(replace-byte! d "+at+" 202)",
			"(define s (map list (list {l})))|(define c (copy s))|(define d s)|(set-car! (list-ref s "+at+") 'new)|(set-car! (list-ref c "+at+") 'other)",
			"(define s (list {l}))|(define c (reverse s))|(define d (map (lambda (x) x) s))|(set-car! (list-tail s "+at+") 'new)|(set-car! (list-tail c "+at+") 'other)",
			"(define s (list {l}))|(define c (append s '(9)))|(define d (sublist s 0 {n}))|(set-car! (list-tail s "+at+") 'new)|(set-car! (list-tail c "+at+") 'other)",
			"(define s (list {l}))|(define c (filter number? s))|(define d (list-head s {n}))|(set-car! (list-tail s "+at+") 'new)|(set-car! (list-tail c "+at+") 'other)",
			"(define s (list {l}))|(define c (remove list? s))|(define d (take {n} s))|(set-car! (list-tail s "+at+") 'new)|(set-car! (list-tail c "+at+") 'other)",
			"(define s (list {l}))|(define c (apply list s))|(define d ((lambda r r) 1))|(set! d (apply (lambda r r) s))|(set-car! (list-tail s "+at+") 'new)|(set-car! (list-tail d "+at+") 'other)",
			"(define s (list {l}))|(define c (flatten s))|(define d (sort s <))|(set-car! (list-tail s "+at+") 9)|(set-car! (list-tail c "+at+") 8)|(set-car! (list-tail d "+at+") 7)",
			"(define s '({l}))|(define c `(,@s))|(define d `(0 ,@s 1))|(set-car! (list-tail d "+at+") 'new)")
		large(gg, farSizes, "s|c|d", "(define s {f})|(define c (copy s))|(define d (clone s))|(set-slot! s (intern (str 's "+at+" \":\")) 'new)|(set-slot! c (intern (str 's "+at+" \":\")) 'other)|(set-slot! s extra: 1)")
		large(gg, quadSizes, "s|c|d",
			"(define s (alist '({p})))|(define c (copy s))|(define d s)|(set-cdr! (assoc (intern (str 'k "+at+")) s) 'new)|(set-cdr! (assoc (intern (str 'k "+at+")) c) 'other)")
	}
}

func largeFrames(gg *core.G) {
	large(gg, append(append([]int{}, farSizes...), 10001), "(length f)|(has-slot? f s0:)|(s0: f)", "(define f {f})|(s{n-1}: f)|(s{n/2}: f)|(has-slot? f s{n}:)|(get-slot-or-nil f s{n}:)|(set-slot! f s{n-1}: 'x)|(s{n-1}: f)|(remove-slot! f s{n/2}:)|(has-slot? f s{n/2}:)|(length f)|(length (frame-keys f))|(length (frame-values f))|f",
		"(define f (copy {f}))|(set-slot! f s{n}: 1)|(s{n}: f)|(length f)", "(define p {f})|(define f {p*: p s0: 'own})|(s{n-1}: f)|(s0: f)|(set-slot! f s{n-1}: 'x)|(s{n-1}: p)|(s{n-1}: f)|(remove-slot! f s{n-1}:)|(s{n-1}: f)", "(define f {f})|(set-slot! f m: (lambda (x) (set! s{n-1} x) (list s0 s{n-1})))|(send f m: 5)|(s{n-1}: f)")
	// chains of parents and rows of parents
	large(gg, quadSizes, "(a: f)|(has-slot? f a:)|(has-slot? f zz:)", "(define f {a: 1 m: (lambda () (list a b))})|(define top f)|(do ((i 0 (+ i 1))) ((== i {n})) (set! f (make-frame p*: f b: i)))|(a: f)|(b: f)|(send f m:)|(set-slot! top a: 2)|(a: f)|(send f m:)|(set-slot! f a: 3)|(a: top)|(send f m:)|(remove-slot! f a:)|(remove-slot! top a:)|(has-slot? f a:)|(get-slot-or-nil f a:)|(set-slot! top a: 7)")
	large(gg, quadSizes, "(a: f)|(has-slot? f a:)", "(define f (make-frame own: 1))|(do ((i 0 (+ i 1))) ((== i {n})) (set-slot! f (intern (str \"p\" i \"*:\")) (make-frame)))|(has-slot? f a:)|(set-slot! (get-slot f p{n-1}*:) a: 4)|(a: f)|(has-slot? f a:)|(set-slot! (get-slot f p{n/2}*:) c: 4)|(c: f)")
}

func cati(l ...[]int) []int {
	var r []int
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}
