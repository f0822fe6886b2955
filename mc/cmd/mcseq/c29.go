package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C29", Level: "model_checking", Chunk: 2, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every bounded history of environment operations gives the results and the final bindings of the reference",
		Assumptions: libAssume, Gen: genC29,
	})
}

func genC29(gg *core.G) {
	deep := gg.Thorough()
	envs := []string{"(the-environment)", "e1", "e2", "e3", "(procedure-environment fn)", "(procedure-environment cl)", "(system-global-environment)", "(environment-parent (the-environment))", "(environment-parent (procedure-environment cl))"}
	safe := []string{"(the-environment)", "e1", "e2", "e3", "(procedure-environment fn)", "(procedure-environment cl)"}
	syms := []string{"'x", "'y", "'car", "'mac", "'un", "'e1", "'zz", "'k:", "'cdr", "'w"}
	vals := []string{"7", "'(1 2)", "()", "(lambda (q) (list q x))", "#f", "car"}
	pre := []string{"(define x 'tx)", "(define (fn a) (list a x))", "(define cl (let ((x 'lx) (w 'lw)) (lambda () (list x w))))", "(defmacro (mac a) `(list 'mac ,a))", "(define e1 (make-top-level-environment \"e1\" '(un)))", "(define e2 (make-top-level-environment \"e2\" '(x y) '(e2x (5))))", "(define e3 (make-top-level-environment \"e3\" '(car x cdr)))", "(environment-define e3 'cdr (lambda (z) z))"}
	watch := []string{"x", "y", "(fn 1)", "(cl)", "(mac 2)", "(eval 'x e1)", "(eval 'x e2)", "(eval 'y e2)", "(eval '(list un) e1)", "(car '(9))"}
	run := func(t *core.T, src ...string) {
		ref.KeyOrder = true
		diff(t, Prog{Src: append(append([]string{}, pre...), src...), Watch: watch})
		ref.KeyOrder = false
	}
	srt := func(s string) string { return "(sort (map str " + s + ") string<?)" }
	for _, q := range []string{"environment-bound?", "environment-assigned?", "environment-lookup", "environment-lookup-macro", "environment-assignable?", "environment-definable?", "environment-reference-type"} {
		q := q
		gg.Case("query "+q, func(t *core.T) {
			for _, e := range envs {
				for _, s := range syms {
					run(t, fmt.Sprintf("(%s %s %s)", q, e, s))
				}
			}
			for _, e := range append(anyValues, "e1") {
				for _, s := range append(anyValues, "'x") {
					run(t, fmt.Sprintf("(%s %s %s)", q, e, s))
				}
			}
		})
	}
	// the same name bound at two levels, in every way
	gg.Case("shadowing", func(t *core.T) {
		kinds := []string{"7", "'()", "#f", "(lambda () 1)", "mac", "car", "'sym"}
		for _, outer := range kinds {
			for _, inner := range kinds {
				for _, q := range []string{"(environment-bound? _ 'sh)", "(environment-assigned? _ 'sh)", "(environment-lookup _ 'sh)", "(environment-lookup-macro _ 'sh)", "(environment-assignable? _ 'sh)", "(environment-definable? _ 'sh)", "(environment-reference-type _ 'sh)", "(environment-assign! _ 'sh 'as)", "(environment-define _ 'sh 'de)", "(eval 'sh _)", "(eval '(set! sh 'se) _)", srt("(environment-bound-names _)"), srt("(environment-macro-names _)"), "(length (environment-bindings _))"} {
					run(t, "(define sh "+outer+")", "(define cs (let ((sh "+inner+")) (lambda () sh)))", strings.ReplaceAll(q, "_", "(procedure-environment cs)"), "(cs)", "sh", "(environment-reference-type (procedure-environment cs) 'sh)", "(environment-reference-type (the-environment) 'sh)")
					run(t, "(define sh "+outer+")", "(define cs (let ((other "+inner+")) (lambda () sh)))", strings.ReplaceAll(q, "_", "(procedure-environment cs)"), "(cs)", "sh")
				}
			}
		}
	})
	var mut []string
	for _, e := range safe {
		for _, s := range syms[:7] {
			mut = append(mut, fmt.Sprintf("(environment-assign! %s %s _)", e, s), fmt.Sprintf("(environment-define %s %s _)", e, s))
		}
		mut = append(mut, "(eval '(define y _) "+e+")", "(eval '(set! x _) "+e+")", "(eval (list 'define 'nw _) "+e+")", "(eval '(define (fn2 p) (list p x _)) "+e+")", "(eval '(defmacro (mac p) `(list 'mac2 ,p _)) "+e+")", "(eval '(let ((x 5)) (set! x _) (define y 6) x) "+e+")")
	}
	gg.Case("mutate any", func(t *core.T) {
		for _, m := range []string{"environment-assign!", "environment-define"} {
			for _, e := range append(anyValues, "e1") {
				for _, s := range append(anyValues, "'x") {
					run(t, fmt.Sprintf("(%s %s %s 1)", m, e, s))
				}
			}
		}
	})
	look := []string{"(environment-lookup _ 'x)", "(environment-reference-type _ 'y)", "(environment-bound? _ 'nw)", srt("(environment-bound-names _)"), srt("(environment-macro-names _)"), "(length (environment-bindings _))", "(sort (map (lambda (b) (str (car b))) (environment-bindings _)) string<?)", "(environment-has-parent? _)", "(eval '(list x y) _)", "(environment-lookup-macro _ 'mac)", "(assoc 'x (environment-bindings _))", "(environment? _)", "(eval '(fn2 1) _)"}
	for _, m := range mut {
		m := m
		gg.Case("mutate "+m, func(t *core.T) {
			for _, v := range vals {
				op := fill(m, []string{v})
				for _, e := range safe {
					for _, l := range look {
						if strings.Contains(l, "_") && t.Failed() {
							return
						}
						run(t, op, strings.ReplaceAll(l, "_", e))
					}
				}
			}
			for _, m2 := range mut {
				run(t, fill(m, []string{"11"}), fill(m2, []string{"'(22)"}), "(environment-lookup e2 'x)", "(environment-reference-type e1 'x)", srt("(environment-bound-names e1)"), srt("(environment-bound-names (the-environment))"))
				if deep {
					for _, m3 := range mut {
						if t.Failed() || t.Expired() {
							return
						}
						run(t, fill(m, []string{"11"}), fill(m2, []string{"'(22)"}), fill(m3, []string{"\"33\""}))
					}
				}
			}
		})
	}
	gg.Case("listing", func(t *core.T) {
		for _, e := range envs {
			if strings.Contains(e, "system-global") || strings.Contains(e, "parent (the") {
				continue
			}
			for _, l := range look {
				run(t, strings.ReplaceAll(l, "_", e))
			}
		}
		for _, l := range []string{"environment-bound-names", "environment-macro-names", "environment-bindings", "environment-has-parent?", "environment-parent", "environment?", "procedure-environment", "find-top-level-environment"} {
			for _, v := range anyValues {
				if l == "find-top-level-environment" && (v[0] == '"' || v[0] == '\'') {
					continue
				}
				run(t, "("+l+" "+v+")")
			}
		}
		run(t, "(environment-has-parent? (system-global-environment))", "(environment-parent (system-global-environment))", "(environment-has-parent? (the-environment))", "(environment-bound? (system-global-environment) 'car)", "(environment-bound? (system-global-environment) 'x)")
	})
	names := []string{"'()", "'(a)", "'(a b)", "'(a b c)", "'(a 5)", "'(car)", "'(a a)", "5", "'a"}
	values := []string{"'()", "'(1)", "'(1 2)", "'(1 (2) x)", "5", "'(())"}
	gg.Case("make", func(t *core.T) {
		for _, n := range names {
			run(t, "(define e (make-top-level-environment "+n+"))", "(environment-reference-type e 'a)", "(eval '(list a b) e)", "(length (environment-bound-names e))")
			run(t, "(define e (make-top-level-environment \"nm\" "+n+"))", "(environment-reference-type e 'a)", "(eval '(list a b) e)", "(length (environment-bound-names e))", "(eval '(begin (define a 4) a) (find-top-level-environment \"nm\"))", "(eval 'a e)", "(eval 'a (find-top-level-environment 'nm))")
			for _, v := range values {
				run(t, "(define e (make-top-level-environment "+n+" "+v+"))", "(environment-bound? e 'a)", "(eval '(list a b) e)", "(length (environment-bound-names e))", "(eval '(set! a 9) e)", "(eval 'a e)", "a")
				run(t, "(define e (make-top-level-environment \"nm\" "+n+" "+v+"))", "(environment-bound? e 'b)", "(eval '(list a b c) e)", "(eval 'x e)", "(eval '(define x 1) (find-top-level-environment 'nm))", "(eval 'x e)")
			}
		}
		run(t, "(define e (make-top-level-environment \"nm\"))", "(length (environment-bound-names e))", "(eval '(define q 1) e)", "(eval 'q (find-top-level-environment \"nm\"))", "(define e3 (make-top-level-environment \"nm\"))", "(eval 'q (find-top-level-environment \"nm\"))", "(eval 'q e)", "q")
	})
	// where the-environment may be asked for, and what eval and closures see
	gg.Case("places", func(t *core.T) {
		for _, p := range []string{"(the-environment)", "(let ((a 1)) (the-environment))", "((lambda () (the-environment)))", "(begin (the-environment))", "(if #t (the-environment) 1)", "(fn (the-environment))", "(list (the-environment))", "(eval '(the-environment))", "(eval '(the-environment) e1)", "(eval '(let () (the-environment)) e1)", "(map (lambda (z) (the-environment)) '(1))", "(mac (the-environment))", "(apply the-environment '())", "(environment? (the-environment))", "(let ((x 'in)) (eval 'x))", "(let ((x 'in)) (eval 'x e1))", "(let ((x 'in)) (eval '(set! x 'set)) x)", "(let ((x 'in)) (eval '(define x2 'def)) (list x x2))", "(let ((x 'in)) (eval '(set! x 'set) e2) x)", "(eval '(lambda (p) (list p x)) e2)", "((eval '(lambda (p) (list p x)) e2) 1)", "((eval '(lambda (p) (set! x p) x) e2) 1)", "(eval 'x 5)", "(eval 'x ())", "(eval '(mac 1) e1)", "(eval '(fn 1) e1)", "(eval (list fn 1) e1)", "(eval '(global-eval '(list 1 2)) e1)", "(global-eval 'x)", "(let ((g 1)) (global-eval '(let ((g 2)) g)))", "(procedure-environment car)", "(eval 'w (procedure-environment cl))", "(begin (eval '(set! w 'new) (procedure-environment cl)) (cl))", "(begin (environment-define (procedure-environment cl) 'w 8) (cl))", "(begin (environment-assign! (procedure-environment cl) 'x 8) (list x (cl)))", "(begin (eval '(define x 8) (procedure-environment cl)) (list x (cl)))"} {
			run(t, p)
			run(t, "(define res "+p+")", "(environment? res)")
			run(t, "(on-error "+p+" (lambda (m) 'err))")
		}
	})
	// many bindings
	for _, n := range sizes {
		n := n
		gg.Case(fmt.Sprintf("size %d", n), func(t *core.T) {
			nm := rep(n, func(i int) string { return fmt.Sprintf("v%d", i) })
			vl := rep(n, num)
			run(t, "(define e (make-top-level-environment '("+nm+") '("+vl+")))", "(length (environment-bound-names e))", srt("(environment-bound-names e)"), fmt.Sprintf("(eval '(list v0 v%d v%d) e)", n/2, n), "(length (environment-bindings e))", "(sort (map cadr (environment-bindings e)) <)", fmt.Sprintf("(environment-assign! e 'v%d 'as)", n-1), fmt.Sprintf("(eval 'v%d e)", n-1), fmt.Sprintf("(environment-define e 'v%d 'df)", n), fmt.Sprintf("(eval 'v%d e)", n), "(length (environment-bound-names e))")
		})
	}
}
