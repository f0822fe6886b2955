package main

import (
	"fmt"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C11", Level: "model_checking", Chunk: 2, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "an error raised at any place of any bounded program stops exactly what the reference stops, reaches the innermost on-error around it once, with its message, and leaves bindings and structures as the reference leaves them",
		Assumptions: libAssume, Gen: genC11,
	})
	core.Register(&core.Check{
		ID: "C14", Level: "model_checking", Chunk: 2, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every bounded quasiquote template and every bounded macro definition and call gives the expansion, the result and the order of effects of the reference",
		Assumptions: libAssume, Gen: genC14,
	})
}

// contexts in which something may fail, beyond the expression templates
var errContexts = []string{
	"(sort (list 3 _ 1) <)", "(map (lambda (i) (mc-log i) _) '(1 2))", "(for-each (lambda (i) (mc-log i) _) '(1 2))", "(filter (lambda (i) (mc-log i) _) '(1 2))", "(fold-left (lambda (a i) (mc-log i) _) 0 '(1 2))", "(reduce-right (lambda (a i) (mc-log i) _) 0 '(1 2 3))",
	"(any (lambda (i) (mc-log i) _) '(1 2))", "(every (lambda (i) (mc-log i) _) '(1 2))", "(find (lambda (i) (mc-log i) _) '(1 2))", "(apply (lambda (p q) (mc-log p) _) '(1 2))",
	"(make-frame s: _ t: _)", "(set-slot! fr s: _)", "(s:! fr _)", "(get-slot fr _)", "(send {m: (lambda (v) (mc-log v) _)} m: _)", "(apply-slot {m: (lambda (v) _)} m: (list _))", "(let ((o {m: (lambda () _)})) (m:> o))",
	"`(1 ,_ ,@(list _))", "(mac _ _)", "(let loop ((i 0)) (if (> i 1) _ (begin _ (loop (+ i 1)))))", "(on-error _ (lambda (m) (mc-log 'inner) _))", "(on-error (mc-log 1) (lambda (m) _) (lambda () _))", "(on-error _ (lambda (m) (mc-log 'inner)) (lambda () _))",
	"(set-car! ls _)", "(set-cdr! ls _)", "(set-nth! ls 1 _)", "(append! ls _)", "(eval '(begin (mc-log 7) _))", "(global-eval _)", "(let ((k (lambda () _))) (mc-log (k)))", "(string-join (list \"a\" _))", "(acons 'k _ (list (cons 'j 1)))", "(str 1 _)", "((lambda (x) (define y _) (mc-log x)) _)",
}

func genC11(gg *core.G) {
	ctxs := append(append([]string{}, exprTemplates...), errContexts...)
	errs := []string{"(error (str \"e\" \"1\"))", "(f 1 2 3)", "(undef-f 1)"}
	prelude := strings.Split(evalPrelude, "|")
	prelude = append(prelude, "(define fr {s: 1})", "(define ls (list 1 2 3))", "(defmacro (mac a b) (list 'list a 1 b))")
	handler := "(lambda (m) (mc-log (list 'h (string? m) (== (substring? (str \"e\" \"1\") m) KIND))) 'handled)"
	watch := []string{"x", "y", "z", "fr", "ls", "(f 0)", "(mac 1 2)"}
	put := func(tpl string, h int, e string, n *int) string {
		v := make([]string, holes(tpl))
		for i := range v {
			if i == h {
				v[i] = e
			} else {
				*n++
				v[i] = fmt.Sprintf("(mc-log %d)", *n)
			}
		}
		return fill(tpl, v)
	}
	type hole struct {
		tpl string
		h   int
	}
	var hs []hole
	for _, c := range ctxs {
		if strings.Contains(c, "'_") || c == "(quote _)" {
			continue
		}
		for h := 0; h < holes(c); h++ {
			hs = append(hs, hole{c, h})
		}
	}
	run := func(t *core.T, e, body string) {
		kind := "#f"
		if e == errs[0] {
			kind = "#t"
		}
		hd := strings.Replace(handler, "KIND", kind, 1)
		for _, w := range []string{"(on-error " + body + " " + hd + ")", body, "(list (mc-log 'p) (on-error (begin " + body + ") " + hd + ") (mc-log 'q))", "(on-error " + body + " " + hd + " (lambda () (mc-log 'no) 'fine))"} {
			diff(t, Prog{Src: append(append([]string{}, prelude...), w), Watch: watch})
		}
	}
	for _, o := range hs {
		o := o
		gg.Case(fmt.Sprintf("one %s %d", o.tpl, o.h), func(t *core.T) {
			for _, e := range errs {
				n := 0
				run(t, e, put(o.tpl, o.h, e, &n))
			}
		})
		gg.Case(fmt.Sprintf("two %s %d", o.tpl, o.h), func(t *core.T) {
			for _, i := range hs {
				for _, e := range errs[:2] {
					if t.Expired() || t.Failed() {
						return
					}
					n := 0
					in := put(i.tpl, i.h, e, &n)
					run(t, e, put(o.tpl, o.h, in, &n))
				}
			}
		})
	}
	if gg.Thorough() {
		for _, o := range hs {
			for _, i := range hs {
				o, i := o, i
				gg.Case(fmt.Sprintf("three %s %d %s %d", o.tpl, o.h, i.tpl, i.h), func(t *core.T) {
					for _, j := range hs {
						if t.Expired() || t.Failed() {
							return
						}
						n := 0
						in := put(i.tpl, i.h, put(j.tpl, j.h, errs[0], &n), &n)
						diff(t, Prog{Src: append(append([]string{}, prelude...), "(on-error "+put(o.tpl, o.h, in, &n)+" "+strings.Replace(handler, "KIND", "#t", 1)+")"), Watch: watch})
					}
				})
			}
		}
	}
	// handlers nested in handlers: which message reaches which handler
	m := func(i int) string { return fmt.Sprintf("(error (str \"e\" \"%d\"))", i) }
	seen := "(lambda (m) (mc-log (list '%d (substring? (str \"e\" \"1\") m) (substring? (str \"e\" \"2\") m) (substring? (str \"e\" \"3\") m))) %s)"
	bodies := []string{m(1), "'ok", "(begin (mc-log 'b) " + m(1) + " (mc-log 'never))"}
	rets := []string{"'r", m(2), m(3), "(on-error " + m(2) + " (lambda (n) (mc-log 'n) " + m(3) + "))"}
	gg.Case("nested handlers", func(t *core.T) {
		for _, b := range bodies {
			for _, r1 := range rets {
				for _, r2 := range rets {
					for _, r3 := range rets {
						h1, h2, h3 := fmt.Sprintf(seen, 1, r1), fmt.Sprintf(seen, 2, r2), fmt.Sprintf(seen, 3, r3)
						diff(t, Prog{Src: []string{"(on-error (on-error (on-error " + b + " " + h1 + ") " + h2 + ") " + h3 + ")", "(mc-log 'after)"}})
						diff(t, Prog{Src: []string{"(on-error (list (on-error " + b + " " + h1 + ") (on-error " + m(2) + " " + h2 + ")) " + h3 + ")"}})
						diff(t, Prog{Src: []string{"(define (lv n) (on-error (if (== n 0) " + b + " (lv (- n 1))) " + h1 + "))", "(lv 0)", "(lv 1)", "(lv 2)", "(on-error (lv 3) " + h2 + ")"}})
					}
				}
			}
		}
	})
	for _, h := range []string{"5", "()", "car", "undef", "(error \"x\")", "(lambda () 1)", "(lambda (a b) 1)", "(lambda (. r) (length r))", "(mc-log 'h)", "'h", "\"s\""} {
		h := h
		gg.Case("handler "+h, func(t *core.T) {
			for _, b := range []string{m(1), "'ok"} {
				diff(t, Prog{Src: []string{"(on-error " + b + " " + h + ")", "(on-error (on-error " + b + " " + h + ") (lambda (m) 'outer))", "(on-error " + b + " (lambda (m) 'first) " + h + ")", "(on-error (on-error " + b + " (lambda (m) 'first) " + h + ") (lambda (m) 'outer))"}})
			}
		})
	}
	// the message of any length, from any depth, holds the text
	holds := func(t *core.T, text, pre, expr string) {
		e := freshEnv()
		if pre != "" {
			if o := evalIn(e, pre); o.err || o.panic != "" {
				panic(o.String())
			}
		}
		e.BindTo(g.Intern("text"), g.StringWithValue(text))
		for _, h := range []string{"(substring? text m)", "(and (string? m) (substring? text m))", "(substring? text (on-error (error m) (lambda (m2) m2)))"} {
			if len(h) > 30 && strings.HasPrefix(pre, "(define (deep") && strings.Contains(expr, "000)") {
				continue
			}
			if h == "(substring? text (on-error (error m) (lambda (m2) m2)))" && (len(text) > 300 || pre != "" || strings.ContainsAny(text, "\"\\")) {
				continue // the message of (error m) quotes m
			}
			if o := evalIn(e, "(on-error "+expr+" (lambda (m) "+h+"))"); o.val != "#t" {
				t.Fail("message", "text of %d characters (%s), %s: the handler (lambda (m) %s) gives %s", len(text), clip(text), expr, h, o)
			}
			t.Trace(1)
		}
	}
	for _, n := range append(append([]int{}, sizes...), 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8193, 10000, 16383, 16385, 32767, 32769, 65535, 65537, 100001) {
		n := n
		gg.Case(fmt.Sprintf("message %d", n), func(t *core.T) {
			for _, pat := range []string{"a", "word ", "é", "(x) "} {
				txt := strings.Repeat(pat, n/len(pat)+1)
				holds(t, txt, "", "(error text)")
				holds(t, txt, "(define (f x) (error x))", "(f text)")
				holds(t, txt, "(define (f x) (map (lambda (y) (error y)) (list x)))", "(car (f text))")
			}
		})
	}
	for _, n := range append(append([]int{}, sizes...), 200, 300, 500, 1000, 2000, 3000) {
		n := n
		gg.Case(fmt.Sprintf("message from depth %d", n), func(t *core.T) {
			holds(t, "thecause", "(define (deep n) (if (== n 0) (error (str \"the\" \"cause\")) (begin (deep (- n 1)))))", fmt.Sprintf("(deep %d)", n))
			holds(t, "thecause", "(define (deep n) (let ((k (- n 1))) (cond ((== n 0) (error (str \"the\" \"cause\"))) (else (+ 1 (deep k))))))", fmt.Sprintf("(deep %d)", n))
			holds(t, "thecause", "", strings.Repeat("(begin ", n%700)+"(error (str \"the\" \"cause\"))"+strings.Repeat(")", n%700))
		})
	}
	// deep unwinding
	gg.Case("deep", func(t *core.T) {
		for _, n := range sizes {
			diff(t, Prog{Src: []string{"(define x 0)", "(define (dn k) (set! x (+ x 1)) (if (== k 0) (error \"e\") (+ 1 (dn (- k 1)))))", fmt.Sprintf("(on-error (dn %d) (lambda (m) (mc-log x) 'caught))", n), "x", fmt.Sprintf("(dn %d)", n), "x"}})
			diff(t, Prog{Src: []string{fmt.Sprintf("(define l (map (lambda (k) (on-error (if (odd? k) (error \"odd\") k) (lambda (m) 'o))) (interval %d)))", n), "l"}})
			if n > 6 {
				continue // the message of (error m) quotes m, so it doubles with every level
			}
			diff(t, Prog{Src: []string{"(define (dn k) (if (== k 0) (error \"e\") (on-error (dn (- k 1)) (lambda (m) (mc-log k) (error m)))))", fmt.Sprintf("(on-error (dn %d) (lambda (m) 'caught))", n)}})
		}
	})
}

func genC14(gg *core.G) {
	deep := gg.Thorough()
	leaves := []string{"1", "x", "()", "\"s\"", ",x", ",l", ",@l", ",(mc-tick)", ",@(list x (mc-tick))", ",@()", ",@e", "'x", "',x", "[1]", ",q"}
	var items []string
	items = append(items, leaves...)
	words(leaves, 2, func(v []string) { items = append(items, "("+strings.Join(v, " ")+")") })
	pre := []string{"(define x 5)", "(define l (list 7 8))", "(define e ())"}
	run := func(t *core.T, tpl string) {
		diff(t, Prog{Src: append(append([]string{}, pre...), "`"+tpl), Watch: []string{"x", "l"}})
	}
	for _, a := range items {
		a := a
		gg.Case("qq "+a, func(t *core.T) {
			run(t, a)
			run(t, "("+a+")")
			run(t, "(("+a+"))")
			run(t, "(0 ("+a+" 1) 2)")
			for _, b := range items {
				if t.Failed() || t.Expired() {
					return
				}
				run(t, "("+a+" "+b+")")
			}
			for _, b := range leaves {
				for _, c := range leaves {
					run(t, "("+a+" "+b+" "+c+")")
					run(t, "("+b+" "+a+" "+c+")")
					run(t, "(("+b+" "+a+") "+c+")")
					if deep {
						for _, d := range leaves {
							run(t, "("+a+" "+b+" "+c+" "+d+")")
							run(t, "("+b+" ("+a+" "+c+") "+d+")")
						}
					}
				}
			}
		})
	}
	// nested quasiquotation
	inner := []string{",@(list ,x)", ",@(list ,@l)", ",(list ,x ,@l)", "(,@(a ,x) ,@(b ,,x))", ",@,l", "1", "x", ",x", ",,x", ",(a ,x)", ",@l", ",(list ,@l)", ",'x", ",',x", "(,x)", "(,,x)", ",(quasiquote (b ,x))", "`,x", "`(,,x)"}
	gg.Case("qq nested", func(t *core.T) {
		for _, a := range inner {
			for _, b := range inner {
				run(t, "`"+a)
				run(t, "(1 `("+a+" "+b+"))")
				run(t, "(`"+a+" "+b+")")
				run(t, "(`("+a+") ,(list `(x "+b+")))")
			}
		}
	})
	// every chain of quasiquotes, unquotes, splicings and lists
	steps := []string{"`_", ",_", ",@_", "(_)", "(b _)", "(_ c)", "(list _)", "'_", "(b `_ ,@l)", "(b . _)"}
	// dotted templates
	gg.Case("qq dotted", func(t *core.T) {
		tails := []string{"x", "1", ",x", ",l", ",nl", "(a . ,l)", "(,x ,@l . ,l)", "(,@l . z)", ",(if #t '(1 . 2) 3)", ",(cons 1 2)", ",'(p . q)", ",(mc-tick)", "()", ",(list)", ",undefd", ",(error \"t\")", "`(a . ,b)", "`(a . ,,x)", ",((lambda (y . r) (list y r)) 1 2)", ",`(a . ,x)", ",(let (((p) 1)) p)", "\"s\"", "{a: 1}", ",@l", "(unquote x y)", "(unquote)"}
		for _, a := range tails {
			for _, b := range append(tails, inner...) {
				run(t, "("+b+" . "+a+")")
				run(t, "(0 "+b+" . "+a+")")
				run(t, "(("+b+" . "+a+") "+a+")")
				run(t, "(,@l "+b+" . ("+b+" . "+a+"))")
				run(t, "(1 `("+b+" . "+a+"))")
			}
		}
	})

	nsteps := 4
	if deep {
		nsteps = 6
	}
	for _, first := range steps {
		first := first
		gg.Case("qq chain "+first, func(t *core.T) {
			words(steps, nsteps-1, func(v []string) {
				if t.Failed() || t.Expired() {
					return
				}
				s := first
				for _, w := range v {
					s = strings.Replace(s, "_", w, 1)
				}
				for _, leaf := range []string{"x", "l"} {
					run(t, "("+strings.Replace(s, "_", leaf, 1)+")")
				}
				run(t, "(`("+strings.Replace(s, "_", "x", 1)+"))")
				run(t, "`(1 `("+strings.Replace(s, "_", ",x", 1)+" ,,l))")
			})
		})
	}
	gg.Case("qq long", func(t *core.T) {
		for _, n := range sizes {
			run(t, "("+rep(n, func(i int) string { return fmt.Sprintf("a%d", i) })+")")
			run(t, "("+rep(n, func(i int) string { return ",(mc-tick)" })+")")
			run(t, "("+rep(n, func(i int) string { return ",@l" })+")")
			run(t, "(0 ,@(interval "+num(n)+") 0)")
			run(t, strings.Repeat("(", n)+",x"+strings.Repeat(")", n))
			for at := 0; at < n; at += 1 + n/9 {
				run(t, "("+rep(n, func(i int) string {
					if i == at {
						return ",@l"
					}
					return fmt.Sprint(i)
				})+")")
			}
		}
	})
	// macros: what the parameters are bound to, how often arguments run, whose variables
	defs := []string{"(m a)", "(m a b)", "(m a . b)", "(m)", "(m . a)"}
	bodies := []string{"a", "'a", "(list 'quote a)", "`(list ,a ,a)", "`(list ',a ,a)", "`(begin ,a)", "`(let ((x 100)) ,a)", "`(list x ,a)", "`(set! x ,a)", "`(define z ,a)", "`(lambda (p) (list p ,a))", "(list 'list a 'x)", "`(if ,a 'yes 'no)", "(begin (mc-log 'expanding) (list 'quote a))", "`(quote (,a ,@b))", "`(list ,a ,@b)", "`(list ,a ,b)", "(cons 'list (cons a b))", "(mc-tick)", "`(quote ,(mc-tick))", "(error \"in macro\")", "`(error \"from macro\")", "`(list ,x)", "(if (list? a) (list 'quote (reverse a)) a)", "`(m2 ,a)", "`(let ((y ,a)) (list y y))", "`(begin (mc-log 'one) ,a (mc-log 'two))", "`(cond (,a ,a) (else 'none))", "`(do ((i 0 (+ i 1))) ((> i 1) ,a) (mc-log ,a))", "`(on-error ,a (lambda (e) 'caught))"}
	cargs := []string{"1", "x", "(mc-tick)", "(mc-log 'arg)", "(list x y)", "'sym", "(error \"arg\")", "undefd", "()", "(m2 x)", "y", "(set! x (+ x 1))"}
	cpre := []string{"(define x 5)", "(define y 6)", "(defmacro (m2 q) `(list 'm2 ,q))"}
	wr := []string{"_", "(list _ x)", "(let ((x 'lx) (list2 list)) (list _ x))", "(define (fn x) _)|(fn 'fx)|(fn 'gx)", "((lambda (y) _) 'ly)", "(if _ 'tr 'fa)", "(map (lambda (x) _) '(1 2))", "(define v _)", "(eval '_)", "(begin _ _)", "(expand _)", "(let loop ((i 0)) (if (< i 2) (begin _ (loop (+ i 1))) x))"}
	for _, d := range defs {
		for _, b := range bodies {
			d, b := d, b
			gg.Case("macro "+d+" "+b, func(t *core.T) {
				for n := 0; n <= 3; n++ {
					al := cargs
					if n == 2 {
						al = cargs[:9]
					}
					if n == 3 {
						al = []string{"1", "(mc-tick)", "x"}
					}
					power(al, n, func(v []string) {
						for i, w := range wr {
							if n >= 2 && i > 3 && !deep {
								break
							}
							if t.Failed() || t.Expired() {
								return
							}
							call := "(m " + strings.Join(v, " ") + ")"
							src := append(append([]string{}, cpre...), "(defmacro "+d+" "+b+")")
							src = append(src, strings.Split(strings.ReplaceAll(w, "_", call), "|")...)
							if n == 1 {
								src = append(src, "(expand "+call+")")
							}
							diff(t, Prog{Src: src, Watch: []string{"x", "y", "z", "v"}})
						}
					})
				}
			})
		}
	}
	// expand: once, then evaluated it gives what the call gives
	gg.Case("expand", func(t *core.T) {
		for _, b := range bodies {
			for _, a := range cargs {
				diff(t, Prog{Src: append(append([]string{}, cpre...), "(defmacro (m a) "+b+")", "(expand m "+a+")", "(expand (m "+a+"))", "(m "+a+")", "(eval (expand m "+a+"))")})
			}
		}
		for _, a := range []string{"5", "car", "(lambda (x) x)", "undefd", "()", "(car '(1))", "m2", "(f 1)", "\"s\""} {
			diff(t, Prog{Src: append(append([]string{}, cpre...), "(expand "+a+")", "(expand "+a+" 1)")})
		}
	})
	// recursive and mutually recursive macros, macros defining macros, local macros
	gg.Case("macro programs", func(t *core.T) {
		for _, p := range []string{
			"(defmacro (rev . l) (if (null? l) ''() `(append (rev ,@(cdr l)) (list ,(car l)))))|(rev 1 2 3)|(rev)|(rev (mc-tick) (mc-tick))",
			"(defmacro (my-or . l) (if (null? l) #f `(let ((t ,(car l))) (if t t (my-or ,@(cdr l))))))|(my-or)|(my-or #f 2)|(my-or #f #f)|(my-or (mc-log #f) (mc-log 3) (mc-log 4))",
			"(defmacro (my-let b . body) `((lambda ,(map car b) ,@body) ,@(map cadr b)))|(my-let ((a 1) (b 2)) (list a b))|(my-let () 5)",
			"(defmacro (defm n v) `(defmacro (,n) ,v))|(defm five 5)|(five)|(defm six (+ 3 3))|(six)",
			"(defmacro (def n . b) `(define (,n x . r) ,@b))|(def f1 (list x r))|(f1 1 2 3)|(def f2 (mc-log r) r)|(f2 1)|(f2 1 2)",
			"(defmacro (def n args . b) `(define (,n . ,args) . ,b))|(def f1 (x y) (list x y))|(f1 1 2)|(def f2 (x . r) (list x r))|(f2 1 2 3)|(def f3 () 'none)|(f3)|(def f4 all all)|(f4 1 2)|(f4)",
			"(defmacro (lam args . b) `(lambda ,args ,@b))|((lam (x . r) (list r x)) 1 2 3)|(map (lam (x . r) (cons x r)) '(1 2) '(3 4))",
			"(defmacro (pr a b) `'(,a . ,b))|(pr 1 2)|(pr (x y) (z))|(pr 1 ())|(pr (mc-tick) (mc-tick))",
			"(defmacro (dm n . ps) `(defmacro (,n . ,ps) (list 'quote (list . ,ps))))|(dm m3 a b)|(m3 1 2)|(m3 x (y))",
			"(define (outer x) (defmacro (loc a) `(list x ,a)) (loc 1))|(outer 'o)|(loc 2)",
			"(defmacro (m a) `(list ,a))|(define (f x) (m x))|(f 1)|(defmacro (m a) `(vector2 ,a))|(defmacro (m a) `(list 'new ,a))|(f 1)",
			"(defmacro (while c . b) `(let lp () (when ,c ,@b (lp))))|(define i 0)|(while (< i 3) (mc-log i) (set! i (+ i 1)))|i",
			"(defmacro (swap a b) `(let ((tmp ,a)) (set! ,a ,b) (set! ,b tmp)))|(define p 1)|(define q 2)|(swap p q)|(list p q)|(define tmp 3)|(swap tmp p)|(list tmp p)",
			"(define x 1)|(let ((x 2)) (defmacro (gx) 'x) (let ((x 3)) (gx)))",
			"(define x 1)|(let ((x 2)) (defmacro (gx) x) (let ((x 3)) (gx)))",
			"(defmacro (m) '(begin (define made 9) made))|(m)|made|(let () (m) (set! made 10) made)|made",
			"(defmacro (q x) `',x)|(q a)|(q (a b))|(q (q a))|(map (lambda (v) (q v)) '(1 2))",
			"(defmacro (m a) a)|(macro? m)|(function? m)|(apply m '(1))|(map m '(1 2))|(m (m 1))|(list m)",
			"(defmacro (k . r) `(list ,@r))|(k)|(k 1)|(k 1 2 3)|(k (k) (k 1))",
		} {
			diff(t, Prog{Src: strings.Split(p, "|")})
		}
	})
	for _, n := range sizes {
		n := n
		gg.Case(fmt.Sprintf("macro size %d", n), func(t *core.T) {
			args := rep(n, func(i int) string { return "(mc-tick)" })
			diff(t, Prog{Src: []string{"(defmacro (k . r) `(list ,@r))", "(k " + args + ")", "(defmacro (cnt . r) (length r))", "(cnt " + args + ")", "(defmacro (nest n) (if (== n 0) ''end `(list ,n (nest ,(- n 1)))))", fmt.Sprintf("(nest %d)", n)}})
			ps := rep(n, func(i int) string { return fmt.Sprintf("p%d", i) })
			diff(t, Prog{Src: []string{"(defmacro (k " + ps + ") `(list " + rep(n, func(i int) string { return fmt.Sprintf(",p%d", n-1-i) }) + "))", "(k " + args + ")"}})
		})
	}
}
