package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/core"
)

// Expressions of the evaluator: every template has holes _ for expressions.
var exprTemplates = []string{
	"(if _ _ _)", "(if _ _)", "(begin _ _)", "(begin _ _ _)", "(and _ _)", "(or _ _)", "(and _ _ _)", "(or _ _ _)",
	"(when _ _ _)", "(unless _ _ _)", "(when _ _)", "(unless _ _)", "(not _)",
	"(cond (_ _) (_ _))", "(cond (_ _) (else _ _))", "(cond (_) (else _))", "(cond (_ _ _) (_ _))",
	"(case _ ((1 x) _) ((#f 2) _) (else _))", "(case _ ((else 1) _) ((2) _))", "(case _ ((2 else) _) (else _))", "(case 'else ((_ 1) _) ((else) _))", "(case _ ((lambda if) 7) (((else) (1)) _) (else _))", "(cond (_ _) ((else) _) (else _))", "(case _ ((5) _ _) ((()) _))", "(case _ (else _) ((1) _))",
	"(let ((x _)) _)", "(let ((x _) (y _)) _)", "(let ((x _) (y _)) (set! x _) (list x y))", "(let () _ _)", "(let ((x _)) (define y _) _)",
	"(let* ((x _) (y _)) _)", "(let* ((x _) (x _)) _)", "(let* ((x _) (y x)) (set! x _) (list x y))",
	"(letrec ((x _) (y _)) _)", "(letrec ((f (lambda (n) (if (== n 0) _ (f (- n 1)))))) (f _))",
	"((lambda (x) _) _)", "((lambda (x y) _) _ _)", "((lambda (x . y) _) _ _)", "((lambda () _ _))", "((lambda (x) (set! x _) (list x _)) _)",
	"((lambda (x . y) _))", "((lambda (x) _) _ _)", "((lambda (x y) _ _) _)",
	"(list _ _)", "(cons _ _)", "(+ _ _)", "(- _ _)", "(< _ _)", "(== _ _)", "(f _)", "(g _ _)", "(h _ _ _)", "(list _ _ _)",
	"(set! x _)", "(set! y _)", "(define x _)", "(define z _)", "(begin (set! x _) (list x _ y))", "(begin (define x _) (list x _ (f x)))",
	"(begin (define (f a) _) (f _))", "(begin (define (k . a) (cons _ a)) (k _ _))",
	"(let loop ((x _) (i 0)) (if (< i 2) (loop _ (+ i 1)) x))", "(let loop ((x _)) (if (number? x) x _))",
	"(do ((x _ _) (i 0 (+ i 1))) ((> i 2) x) _)", "(do ((i 0 (+ i 1)) (x _ _)) ((> i 1) _ x))", "(do ((x _) (i 2 (- i 1))) ((== i 0)) (mc-log _))",
	"(apply f (list _))", "(apply g _ (list _))", "(apply + (list _ _))", "(apply list _ _ '())", "(map f (list _ _))", "(map g (list _ _) (list _ _))",
	"(for-each (lambda (x) (mc-log _)) (list _ _))",
	"(let ((k (lambda () x))) (set! x _) (list (k) _))", "(let ((k (let ((x _)) (lambda () (set! x (list x)) x)))) (k) (list (k) x _))",
	"(let ((k (lambda (x) (lambda (y) (list x y _))))) ((k _) _))", "(let ((x _)) (f _))", "(let ((y _)) (f y) (list x y _))",
	"(named-lambda (q x) _)", "((named-lambda (q x) (if (number? x) (q _) x)) _)", "(mc-log _)", "(mc-log (list _ (mc-tick)))",
	"(eval _)", "(eval '_)", "(eval (list 'list '_ _))", "(eval (list 'set! 'x _))",
	"(-> _ f list)", "(-> _ (g _) (list _))", "(=> _ f (g _))", "(-> _ (mc-id) (list 1 _))",
	"(_ _)", "(_ _ _)", "(quote _)", "(list '_ _)", "(let ((car _)) (list car (cdr (list _ _))))", "(let ((f (lambda (a) _))) (f _))",
	"(let ((f _)) (f _))", "((if _ f car) (list _))", "((begin _ list) _ _)",
}

var exprLeaves = []string{"x", "y", "1", "#f", "()", "(mc-tick)", "q"}
var exprFew = []string{"x", "(mc-tick)", "#f"}

const evalPrelude = "(define x 5)|(define y '(7))|(define (f a) (mc-log (list a x)))|(define (g a b) (list b (mc-tick) a y))|(define (h a b . c) (list a b c))"

func evalProg(src string) Prog {
	return Prog{Src: append(strings.Split(evalPrelude, "|"), src), Watch: []string{"x", "y", "z", "(f 0)"}}
}

func init() {
	core.Register(&core.Check{
		ID: "C10", Level: "model_checking", Chunk: 4, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every program of the bounded families gives the result, the order of effects and the final bindings of the reference evaluator",
		Assumptions: []string{"the reference evaluator in mc/ref states the intended semantics", "programs whose meaning the property leaves open are skipped and counted"},
		Gen:         genC10,
	})
}

func genC10(gg *core.G) {
	scaleC10(gg)
	// depth 1: all leaves in all holes
	for _, tpl := range exprTemplates {
		tpl := tpl
		n := holes(tpl)
		gg.Case("d1 "+tpl, func(t *core.T) {
			al := exprLeaves
			if n > 4 {
				al = exprLeaves[:5]
				al = append([]string{"(mc-tick)"}, al...)
			}
			power(al, n, func(v []string) { diff(t, evalProg(fill(tpl, v))) })
		})
	}
	// depth 2: one hole holds every template, the others a few leaves
	for _, tpl := range exprTemplates {
		for h := 0; h < holes(tpl); h++ {
			for _, in := range exprTemplates {
				tpl, h, in := tpl, h, in
				if !gg.Thorough() && holes(tpl)+holes(in) > 7 {
					continue
				}
				gg.Case(fmt.Sprintf("d2 %s %d %s", tpl, h, in), func(t *core.T) {
					few, few2 := exprFew, exprFew
					if gg.Thorough() {
						few = []string{"x", "(mc-tick)", "#f", "y"}
						few2 = few
					} else if holes(tpl)+holes(in) > 5 {
						few2 = exprFew[:2]
					}
					power(few2, holes(tpl)-1, func(o []string) {
						power(few, holes(in), func(v []string) {
							if t.Expired() || t.Failed() {
								return
							}
							vals := append([]string{}, o[:h]...)
							vals = append(vals, fill(in, v))
							vals = append(vals, o[h:]...)
							diff(t, evalProg(fill(tpl, vals)))
						})
					})
				})
			}
		}
	}
	if gg.Thorough() {
		// depth 3 along one path
		for _, tpl := range exprTemplates {
			for h := 0; h < holes(tpl); h++ {
				for _, in := range exprTemplates {
					tpl, h, in := tpl, h, in
					gg.Case(fmt.Sprintf("d3 %s %d %s", tpl, h, in), func(t *core.T) {
						for _, in2 := range exprTemplates {
							for h2 := 0; h2 < holes(in); h2++ {
								for rot := 0; rot < 3; rot++ {
									if t.Expired() || t.Failed() {
										return
									}
									c := rot
									leaf := func(n int) []string {
										r := make([]string, n)
										for i := range r {
											r[i] = exprLeaves[(c*5+i*3)%len(exprLeaves)]
											c++
										}
										return r
									}
									v2 := leaf(holes(in) - 1)
									mid := append(append(append([]string{}, v2[:h2]...), fill(in2, leaf(holes(in2)))), v2[h2:]...)
									o := leaf(holes(tpl) - 1)
									top := append(append(append([]string{}, o[:h]...), fill(in, mid)), o[h:]...)
									diff(t, evalProg(fill(tpl, top)))
								}
							}
						}
					})
				}
			}
		}
	}
}

func rep(n int, f func(i int) string) string {
	s := make([]string, n)
	for i := range s {
		s[i] = f(i)
	}
	return strings.Join(s, " ")
}

func num(i int) string { return fmt.Sprint(i) }

// scaleC10: families that grow in one dimension.
func scaleC10(gg *core.G) {
	p := func(i int) string { return fmt.Sprintf("p%d", i) }
	for n := 0; n <= 12; n++ {
		n := n
		gg.Case(fmt.Sprintf("call %d parameters", n), func(t *core.T) {
			for k := 0; k <= n+2; k++ {
				args := rep(k, func(i int) string { return "(mc-tick)" })
				ps := rep(n, p)
				for _, rest := range []string{"", " . r"} {
					if rest != "" && n == 0 {
						continue
					}
					body := "(list " + ps + ")"
					if rest != "" {
						body = "(list " + ps + " r)"
					}
					diff(t, Prog{Src: []string{fmt.Sprintf("((lambda (%s%s) %s) %s)", ps, rest, body, args)}})
					diff(t, Prog{Src: []string{fmt.Sprintf("(define (fn %s%s) %s)", ps, rest, body), fmt.Sprintf("(fn %s)", args), fmt.Sprintf("(apply fn (list %s))", args), "(mc-tick)"}})
					diff(t, Prog{Src: []string{fmt.Sprintf("(let ((fn (named-lambda (nm %s%s) %s))) (fn %s))", ps, rest, body, args), "(mc-tick)"}})
					diff(t, Prog{Src: []string{fmt.Sprintf("(defmacro (m %s%s) (list 'quote %s))", ps, rest, body), fmt.Sprintf("(m %s)", args), "(mc-tick)"}})
				}
				diff(t, Prog{Src: []string{fmt.Sprintf("(define (fn . r) r)"), fmt.Sprintf("(fn %s)", args), fmt.Sprintf("(apply fn %s '(1 2))", args), "(mc-tick)"}})
				// an argument that fails in position k
				if k > 0 && k == n {
					for bad := 0; bad < k; bad++ {
						a := rep(k, func(i int) string {
							if i == bad {
								return "(error 'bad)"
							}
							return "(mc-tick)"
						})
						diff(t, Prog{Src: []string{fmt.Sprintf("(define (fn %s) (mc-log 'in))", ps), fmt.Sprintf("(fn %s)", a), "(mc-tick)", fmt.Sprintf("(list %s)", a), "(mc-tick)"}})
					}
				}
			}
		})
		gg.Case(fmt.Sprintf("let %d bindings", n), func(t *core.T) {
			for _, kw := range []string{"let", "let*", "letrec"} {
				b := rep(n, func(i int) string { return fmt.Sprintf("(p%d (mc-log (list %d p%d)))", i, i, (i+n-1)%(n+1)) })
				diff(t, Prog{Src: []string{"(define p0 'outer)", fmt.Sprintf("(%s (%s) (list %s))", kw, b, rep(n, p)), "p0"}})
				b = rep(n, func(i int) string { return fmt.Sprintf("(p%d (mc-tick))", i) })
				for k := 0; k < n; k++ {
					diff(t, Prog{Src: []string{fmt.Sprintf("(%s (%s) (set! p%d 'new) (list %s))", kw, b, k, rep(n, p)), fmt.Sprintf("p%d", k)}})
				}
			}
			b := rep(n, func(i int) string { return fmt.Sprintf("(p%d (mc-tick) (list p%d))", i, (i+1)%(n+1)) })
			diff(t, Prog{Src: []string{fmt.Sprintf("(define p%d 'o)", n), fmt.Sprintf("(do ((cnt 0 (+ cnt 1)) %s) ((== cnt 3) (list %s)) (mc-log (list %s)))", b, rep(n, p), rep(n, p))}})
			b = rep(n, func(i int) string { return fmt.Sprintf("(p%d (mc-tick))", i) })
			diff(t, Prog{Src: []string{fmt.Sprintf("(let lp ((cnt 0) %s) (if (== cnt 3) (list %s) (lp (+ cnt 1) %s)))", b, rep(n, p), rep(n, func(i int) string { return p((i + 1) % n) }))}})
		})
		gg.Case(fmt.Sprintf("clauses %d", n), func(t *core.T) {
			for k := 0; k <= n; k++ {
				cl := rep(n, func(i int) string {
					v := "#f"
					if i == k {
						v = "(mc-id 'yes)"
					}
					return fmt.Sprintf("((begin (mc-log %d) %s) (mc-log 'b%d) %d)", i, v, i, i*10)
				})
				diff(t, Prog{Src: []string{"(cond " + cl + ")"}})
				diff(t, Prog{Src: []string{"(cond " + cl + " (else (mc-log 'else) 99))"}})
				cs := rep(n, func(i int) string {
					return fmt.Sprintf("((%d %d k%d \"s%d\") (mc-log %d) %d)", i, i+100, i, i, i, i*10)
				})
				for _, key := range []string{num(k), num(k + 100), fmt.Sprintf("'k%d", k), fmt.Sprintf("\"s%d\"", k)} {
					diff(t, Prog{Src: []string{fmt.Sprintf("(case %s %s)", key, cs), fmt.Sprintf("(case %s %s (else 'none))", key, cs)}})
				}
				ao := rep(n, func(i int) string {
					if i == k {
						return fmt.Sprintf("(begin (mc-log %d) #f)", i)
					}
					return fmt.Sprintf("(mc-log %d)", i)
				})
				oo := rep(n, func(i int) string {
					if i == k {
						return fmt.Sprintf("(mc-log %d)", i)
					}
					return fmt.Sprintf("(begin (mc-log %d) #f)", i)
				})
				diff(t, Prog{Src: []string{"(and " + ao + ")", "(or " + oo + ")", "(begin " + ao + ")", "(when #t " + ao + ")", "(unless #f " + ao + ")"}})
			}
		})
	}
	for _, n := range []int{1, 2, 3, 5, 17, 33, 64, 65, 70, 100, 130, 200} {
		n := n
		gg.Case(fmt.Sprintf("long %d", n), func(t *core.T) {
			args := rep(n, func(i int) string { return "(mc-tick)" })
			ps := rep(n, p)
			diff(t, Prog{Src: []string{"(list " + args + ")", "(+ " + args + ")", "(apply + (list " + args + "))", "(apply list (list " + args + "))"}})
			diff(t, Prog{Src: []string{fmt.Sprintf("((lambda (%s) (list p0 p%d)) %s)", ps, n-1, args), fmt.Sprintf("((lambda r r) %s)", args), fmt.Sprintf("((lambda (a . r) (cons a r)) %s)", args)}})
			diff(t, Prog{Src: []string{"(begin " + args + ")", "(let (" + rep(n, func(i int) string { return fmt.Sprintf("(p%d (mc-tick))", i) }) + ") (list " + ps + "))"}})
			diff(t, Prog{Src: []string{"(map (lambda (a) (mc-log a) (* a a)) (interval " + num(n) + "))", "(fold-left (lambda (a b) (- b a)) 0 (interval " + num(n) + "))"}})
			diff(t, Prog{Src: []string{"(define (count n acc) (if (== n 0) acc (count (- n 1) (cons n acc))))", "(count " + num(n) + " '())"}})
			diff(t, Prog{Src: []string{"(define (sum n) (if (== n 0) 0 (+ n (sum (- n 1)))))", "(sum " + num(n) + ")"}})
			diff(t, Prog{Src: []string{"(letrec ((ev (lambda (n) (if (== n 0) #t (od (- n 1))))) (od (lambda (n) (if (== n 0) #f (ev (- n 1)))))) (list (ev " + num(n) + ") (od " + num(n) + ")))"}})
			diff(t, Prog{Src: []string{"(do ((i 0 (+ i 1)) (acc '() (cons i acc))) ((== i " + num(n) + ") acc))", "(let lp ((i 0) (acc '())) (if (== i " + num(n) + ") acc (lp (+ i 1) (cons i acc))))"}})
			// nested scopes: each level sees the ones around it
			nest := "(list x0 x1 x" + num(n-1) + ")"
			for i := n - 1; i >= 0; i-- {
				nest = fmt.Sprintf("(let ((x%d (mc-tick))) %s)", i, nest)
			}
			diff(t, Prog{Src: []string{nest}})
			nest = "(begin (set! x0 'new) (list x0 y))"
			for i := n - 1; i >= 0; i-- {
				nest = fmt.Sprintf("(let ((y %d)) %s)", i, nest)
			}
			diff(t, Prog{Src: []string{"(define x0 'old)", "(define y 'outer)", nest, "x0", "y"}})
			nest = "x"
			for i := 0; i < n; i++ {
				nest = fmt.Sprintf("((lambda (x) %s) (+ x 1))", nest)
			}
			diff(t, Prog{Src: []string{"(define x 0)", nest, "x"}})
			// closures keep their own variables
			diff(t, Prog{Src: []string{"(define (mk k) (lambda () (set! k (+ k 1)) k))", "(define ks (map mk (interval " + num(n) + ")))", "(map (lambda (k) (k)) ks)", "(map (lambda (k) (k) (k)) ks)"}})
			var defs []string
			for i := 0; i < n; i++ {
				defs = append(defs, fmt.Sprintf("(define v%d (mc-tick))", i))
			}
			defs = append(defs, fmt.Sprintf("(set! v%d 'x)", n/2), "(list "+rep(n, func(i int) string { return fmt.Sprintf("v%d", i) })+")")
			diff(t, Prog{Src: defs})
		})
	}
	// very many iterations, and values kept from each of them
	for _, n := range []int{255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1025, 2049, 4095, 4097, 5000, 8193, 10000, 10001, 16385, 32769, 65537, 100001} {
		n := n
		gg.Case(fmt.Sprintf("iterations %d", n), func(t *core.T) {
			many := func(src ...string) { diffOpt(t, Prog{Src: src}, 60*n+5000, "") }
			N := num(n)
			many("(define c 0)", "(do ((i 0 (+ i 1)) (s 0 (+ s i))) ((== i "+N+") (list i s c)) (set! c (+ c 1)))", "c")
			many("(define c 0)", "(do ((i 0 (+ i 1)) (k 'const) (s 1 (- 0 s))) ((>= i "+N+") (list k s)) (when (even? i) (set! c (+ c i))))", "c")
			many("(define l (interval "+N+"))", "(length (map (lambda (k) (+ k 1)) l))", "(reduce + 0 l)", "(fold-left (lambda (a b) (- b a)) 0 l)", "(define c 0)", "(for-each (lambda (k) (set! c (+ c k))) l)", "c", "(apply + l)")
			if n <= 10001 {
				many("(let lp ((i 0) (s 0)) (if (== i " + N + ") (list i s) (lp (+ i 1) (+ s i))))")
				many("(define (f n) (if (== n 0) 0 (+ 1 (f (- n 1)))))", "(f "+N+")", "(define (g n) (cond ((== n 0) 'z) (else (let ((m (- n 1))) (g m)))))", "(g "+N+")")
				many("(define (tick-maker) (let ((n 0)) (lambda () (set! n (+ n 1)) n)))", "(define a (tick-maker))", "(define b (tick-maker))", "(do ((i 0 (+ i 1))) ((== i "+N+") (list (a) (b))) (a))")
				many("(define ks (map (lambda (k) (lambda () k)) (interval "+N+")))", "(reduce + 0 (map (lambda (k) (k)) ks))")
				many("(define (ev n) (if (== n 0) #t (od (- n 1))))", "(define (od n) (if (== n 0) #f (ev (- n 1))))", "(ev "+N+")")
			}
			if n <= 2049 {
				var d []string
				for i := 0; i < n; i++ {
					d = append(d, fmt.Sprintf("(define w%d %d)", i, i))
				}
				many("(begin "+strings.Join(d, " ")+")", "(list w0 w"+num(n/2)+" w"+num(n-1)+")", "(begin (set! w"+num(n/2)+" 'x) (list w0 w"+num(n/2)+" w"+num(n-1)+"))")
			}
		})
	}
	// scoping: which variable a closure sees, over all ways to nest definitions
	names := []string{"x", "y"}
	binders := []string{"(let ((%[1]s (list '%[2]d %[1]s))) _)", "((lambda (%[1]s) _) '%[2]d)", "(let* ((%[1]s '%[2]d)) _)", "(letrec ((%[1]s '%[2]d)) _)", "(begin (define %[1]s '%[2]d) _)", "(begin (set! %[1]s '%[2]d) _)", "(let () (define %[1]s '%[2]d) _)", "(let () (set! %[1]s (list '%[2]d %[1]s)) _)", "(do ((%[1]s '%[2]d)) (#t _))", "(let nm ((%[1]s '%[2]d)) _)", "(dyn (lambda () _))", "((lambda (. %[1]s) _) '%[2]d)"}
	depth := 3
	if gg.Thorough() {
		depth = 4
	}
	var bs []string
	for _, b := range binders {
		for _, n := range names {
			if strings.Contains(b, "%[1]s") {
				bs = append(bs, b+"\x00"+n)
			} else if n == "x" {
				bs = append(bs, b+"\x00"+n)
			}
		}
	}
	for _, first := range bs {
		first := first
		gg.Case("scopes "+strings.ReplaceAll(first, "\x00", " "), func(t *core.T) {
			words(bs, depth-1, func(v []string) {
				if t.Expired() || t.Failed() {
					return
				}
				s := "_"
				for i, b := range append([]string{first}, v...) {
					f := strings.SplitN(b, "\x00", 2)
					x := f[0]
					if strings.Contains(x, "%[") {
						if strings.Contains(x, "%[2]d") {
							x = fmt.Sprintf(x, f[1], i+1)
						} else {
							x = fmt.Sprintf(x, f[1])
						}
					}
					s = strings.Replace(s, "_", x, 1)
				}
				for _, core := range []string{"(list x y (get))", "((lambda () (set! x 'n) (list x y (get))))"} {
					diff(t, Prog{Src: []string{"(define x 'gx)", "(define y 'gy)", "(define (get) (list x y))", "(define (dyn th) (let ((x 'dx) (y 'dy)) (th)))", strings.Replace(s, "_", core, 1)}, Watch: []string{"x", "y"}})
				}
			})
		})
	}
}
