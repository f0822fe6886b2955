package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C21", Level: "model_checking", Chunk: 1, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every call of a list primitive over the bounded argument sets gives the result of the reference model, calls its function argument as the model does, and leaves its arguments as the model does",
		Assumptions: []string{"the reference model in mc/ref states the intended semantics", "calls whose meaning the property leaves open (improper lists given to the library) are skipped and counted"},
		Gen:         genC21,
	})
}

func cxrs() []string {
	var r []string
	for n := 1; n <= 4; n++ {
		power([]string{"a", "d"}, n, func(v []string) { r = append(r, "c"+strings.Join(v, "")+"r") })
	}
	return r
}

// full binary trees of the given depth, with leaves numbered
func tree(d int, n *int) string {
	if d == 0 {
		*n++
		return fmt.Sprint(*n)
	}
	l := tree(d-1, n)
	r := tree(d-1, n)
	return "(" + l + " . " + r + ")"
}

func genC21(gg *core.G) {
	deep := gg.Thorough()
	elems := []string{"1", "2", "a", "\"s\"", "(3 4)", "()"}
	small := []string{"1", "2", "(3)"}
	k := 3
	if deep {
		k = 4
	}
	all := lists(elems, 0, k)
	sm := lists(small, 0, k)
	big := distincts(sizes...)
	one := cat(all, big, anyValues)
	n := 0
	var trees []string
	for d := 0; d <= 5; d++ {
		trees = append(trees, "'"+tree(d, &n))
	}
	trees = append(trees, "'((((1 . 2) . 3) . 4) . 5)", "'(1 2 3 4 5)", "'((1 2) (3 4) (5 (6 (7 8))))", "'(((((1))))) ", "'(1 . 2)", "'(1 2 . 3)")
	for _, f := range cat(cxrs(), []string{"head", "rest", "tail"}) {
		calls(gg, "access", f, cat(trees, lists([]string{"1", "()", "(2 (3) ((4)))"}, 0, 4), anyValues))
	}
	for _, f := range []string{"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"} {
		calls(gg, "access", f, one)
	}
	for _, f := range []string{"reverse", "flatten", "flatten*", "length", "last-pair", "copy", "list?", "pair?", "null?", "nil?", "notnil?", "notnull?", "atom?", "list", "append", "cons*", "union", "intersection", "complement"} {
		calls(gg, "unary", f, one)
	}
	nest := lists([]string{"1", "()", "(2)", "((3) 4)", "(() (()))", "(5 (6 (7)))"}, 0, k)
	for _, f := range []string{"flatten", "flatten*", "length", "reverse", "copy"} {
		calls(gg, "nested", f, nest)
	}
	idx := cat(ints(-3, 12), []string{"31", "32", "33", "64", "65", "99", "100", "101", "129", "130", "131", "255", "256", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "-9223372036854775808", "1.5", "'x", "()", "#f"})
	for _, f := range []string{"list-ref", "list-head", "list-tail"} {
		calls(gg, "index", f, cat(big, lists(small, 0, 3), anyValues), idx)
	}
	for _, f := range []string{"nth", "take", "drop"} {
		calls(gg, "index", f, idx, cat(big, lists(small, 0, 3), anyValues))
	}
	calls(gg, "index", "sublist", distincts(0, 1, 2, 3, 4, 5, 6, 7), ints(-2, 9), ints(-2, 9))
	calls(gg, "index", "sublist", distincts(64, 65, 100), []string{"0", "1", "63", "64", "65", "99"}, []string{"0", "1", "63", "64", "65", "66", "99", "100", "101", "4294967297"})
	calls(gg, "index", "sublist", anyValues, []string{"0", "1", "'x"}, []string{"0", "1", "2", "'x"})
	calls(gg, "index", "make-list", ints(-1, 12), anyValues)
	calls(gg, "index", "make-list", []string{"0", "1", "2", "64", "65", "100", "'x", "1.5", "-5"})
	calls(gg, "index", "partition", ints(1, 8), cat(big, sm))
	calls(gg, "index", "interval", cat(ints(-4, 6), []string{"20", "64", "65", "100"}))
	calls(gg, "index", "interval", ints(-4, 6), ints(-4, 6))
	calls(gg, "index", "interval", ints(-4, 6), ints(-4, 6), ints(-4, 4))
	calls(gg, "index", "interval", []string{"0", "50", "100"}, []string{"0", "64", "65", "100", "101"}, []string{"1", "2", "3", "7", "-1", "-3", "50", "0"})
	calls(gg, "index", "interval", []string{"9223372036854775800", "9223372036854775807", "-9223372036854775808", "-9223372036854775800"}, []string{"9223372036854775807", "9223372036854775803", "-9223372036854775808", "-9223372036854775805"}, []string{"1", "-1", "3", "-3", "5"})

	calls(gg, "two", "cons", cat(anyValues, sm), cat(anyValues, sm))
	for _, f := range []string{"append", "union", "intersection", "complement", "append!", "list"} {
		calls(gg, "two", f, cat(sm, anyValues), cat(sm, anyValues))
		calls(gg, "big", f, distincts(sizes...), []string{"'()", "'(10)", "'(75 10 600)", distinct(65), distinct(100), "'(10 10 11 11 600 600)"})
		calls(gg, "big2", f, []string{"'()", "'(10)", "'(75 10 600)", distinct(65), "'(10 10 11 11 600 600)"}, distincts(sizes...))
	}
	// functions that print alike
	fg := []string{"f", "g", "h"}
	for _, e := range []string{"(union (list _ _) (list _ _))", "(intersection (list _ _) (list _ _))", "(complement (list _ _) (list _ _))"} {
		progs(gg, "functions", "(define f (lambda (x) 1))|(define g (lambda (x) 2))|(define h car)|(define r "+e+")|(length r)|(map (lambda (k) (list (eq? k f) (eq? k g) (eq? k h))) r)", "", fg, fg, fg, fg)
	}
	for _, e := range []string{"(member _ l)", "(memq _ l)", "(filter (lambda (k) (eq? k _)) l)", "(remove (lambda (k) (eq? k _)) l)", "(find (lambda (k) (eqv? k _)) l)", "(list _)"} {
		progs(gg, "functions", "(define f (lambda (x) 1))|(define g (lambda (x) 2))|(define h car)|(define l (list _ _ _))|(define r "+e+")|(if r (map (lambda (k) (list (eq? k f) (eq? k g) (eq? k h))) (if (list? r) r (list r))))", "", fg, fg, fg, fg)
	}
	tw := lists([]string{"1", "2"}, 0, 3)
	for _, f := range []string{"append", "union", "intersection", "complement", "cons*"} {
		calls(gg, "three", f, tw, tw, tw)
		calls(gg, "three mixed", f, cat([]string{"'(1 a)", "()"}, anyValues), []string{"'(1)", "()", "5", "'(a (3))"}, cat([]string{"'(a 1)", "()"}, anyValues))
		few := []string{"'()", "'(1)", "'(2 1)"}
		calls(gg, "four", f, few, few, few, few)
		calls(gg, "five", f, few, few, few, few, few)
		calls(gg, "none", f)
	}
	// membership, search
	keys := []string{"1", "2", "'a", "\"s\"", "'(3 4)", "()", "3", "1.0", "'(3)", "#f", "10", "11", "73", "74", "109", "139", "140"}
	for _, f := range []string{"memq", "memv", "member"} {
		calls(gg, "search", f, keys, cat(all, big, anyValues))
	}
	preds := []string{"number?", "(lambda (x) (mc-log x) #f)", "(lambda (x) (mc-log x))", "(lambda (x) (> (mc-tick) 2))", "(lambda (x) (< (mc-tick) 3))", "(lambda (x) (== x 2))", "(lambda (x) (if (== x 2) (error \"e\") (mc-log #f)))", "(lambda (x) (if (== x 2) (error \"e\") (mc-log #t)))", "null?", "(lambda (x) ())", "(lambda (x y) #t)", "(lambda () #t)", "(lambda (. r) (mc-log r))", "not", "list?", "odd?", "(lambda (x) (> x 72))", "mc-id"}
	badf := []string{"5", "'car", "()", "\"f\"", "'(lambda (x) x)", "{a: 1}", "undefd", "cons", "if", "quote"}
	ls := cat(sm, lists(elems, 0, 2), big)
	for _, f := range []string{"filter", "remove", "find", "find-tail", "memp", "any", "every", "map", "for-each", "partition"} {
		calls(gg, "pred", f, preds, ls)
		calls(gg, "bad", f, cat(badf, anyValues), cat(lists(small, 0, 2), anyValues))
		calls(gg, "pred any", f, preds, anyValues)
	}
	bin := []string{"cons", "list", "+", "-", "(lambda (x y) (mc-log (list x y)))", "(lambda (x y) (mc-log x) y)", "(lambda (x y) (mc-log y) x)", "(lambda (x y) (if (== (mc-tick) 2) (error \"e\") x))", "(lambda (x) x)", "(lambda (. r) (mc-log r))", "(lambda (x y z) x)"}
	for _, f := range []string{"reduce", "reduce-left", "reduce-right", "fold-left", "fold-right"} {
		calls(gg, "fold", f, bin, []string{"0", "'z", "()", "'(9)", "#f"}, cat(lists([]string{"1", "2", "()"}, 0, 4), big))
		calls(gg, "fold bad", f, cat(badf, anyValues), []string{"0", "()"}, cat(lists(small, 0, 2), anyValues))
		calls(gg, "fold any", f, bin, anyValues, anyValues)
	}
	mf := []string{"list", "+", "cons", "(lambda (x y) (mc-log (list x y)))", "(lambda (x y) (> x y))", "(lambda (x y) (mc-log x) #f)", "(lambda (x) x)", "(lambda (. r) (mc-log r))", "(lambda (x y) (if (== (mc-tick) 2) (error \"e\") #t))", "(lambda (x y) (mc-log y) (!= x 2))"}
	for _, f := range []string{"map", "for-each", "any", "every"} {
		l2 := cat(lists([]string{"1", "2", "()"}, 0, 3), distincts(5, 64, 65, 100))
		calls(gg, "multi", f, mf, l2, l2)
		l3 := lists([]string{"1", "2"}, 0, 2)
		calls(gg, "multi3", f, []string{"list", "+", "(lambda (x y z) (mc-log (list x y z)))", "(lambda (x y) x)"}, l3, l3, l3)
		calls(gg, "multi4", f, []string{"list", "(lambda (w x y z) (mc-log (list w x y z)) #f)"}, l3, l3, l3, l3)
		calls(gg, "multi bad", f, []string{"list", "5"}, anyValues, cat(anyValues, tw))
	}
	// sort
	cmp := []string{"<", ">", "<=", ">=", "(lambda (x y) (< x y))", "(lambda (x y) (> x y))", "(lambda (x y) (< (% x 3) (% y 3)))", "(lambda (x y) #f)", "(lambda (x) #t)", "(lambda (x y) (error \"e\"))"}
	perm := 6
	if deep {
		perm = 8
	}
	for _, c := range cmp {
		c := c
		gg.Case("sort "+c, func(t *core.T) {
			for n := 0; n <= perm; n++ {
				permutations(n, func(p []int) {
					if t.Expired() || t.Failed() {
						return
					}
					s := make([]string, n)
					for i, x := range p {
						s[i] = fmt.Sprint(x)
					}
					diff(t, callProg("sort", []string{"'(" + strings.Join(s, " ") + ")", c}))
				})
			}
			words([]string{"1", "2", "3"}, 5, func(v []string) { diff(t, callProg("sort", []string{"'(" + strings.Join(v, " ") + ")", c})) })
			words([]string{"-1", "2.5", "2"}, 4, func(v []string) { diff(t, callProg("sort", []string{"'(" + strings.Join(v, " ") + ")", c})) })
			for _, n := range sizes {
				for _, m := range []int{1, 3, 7, 11, 13} {
					diff(t, callProg("sort", []string{"'(" + rep(n, func(i int) string { return fmt.Sprint((i*m + 5) % (n + 1)) }) + ")", c}))
				}
				diff(t, callProg("sort", []string{"'(" + rep(n, func(i int) string { return fmt.Sprint(n - i) }) + ")", c}))
			}
		})
	}
	// equal elements stay in order
	for _, n := range append(append([]int{}, sizes...), 200, 255, 257, 500, 1000, 1025) {
		n := n
		gg.Case(fmt.Sprintf("sort stable %d", n), func(t *core.T) {
			for _, m := range []int{1, 2, 3, 5, 16} {
				l := "'(" + rep(n, func(i int) string { return fmt.Sprintf("(%d %d)", i*7%m, i) }) + ")"
				for _, c := range []string{"(lambda (x y) (< (car x) (car y)))", "(lambda (x y) (> (car x) (car y)))", "(lambda (x y) (let ((p (car x)) (q (car y))) (and (< p q) (!= p 2))))", "(lambda (x y) #f)", "(lambda (x y) (< (% (cadr x) 4) (% (cadr y) 4)))"} {
					if strings.Contains(c, "!= p 2") && m > 3 {
						continue // no order
					}
					diffOpt(t, Prog{Src: []string{"(define l " + l + ")", "(sort l " + c + ")", "(sort (reverse l) " + c + ")", "l"}}, 400000, "")
				}
			}
		})
	}
	progs(gg, "sort strings", "(define l '(_ _ _ _))|(define r (sort l _))", "l|r", []string{"\"a\"", "\"b\"", "\"ab\"", "\"\""}, []string{"\"a\"", "\"b\"", "\"B\""}, []string{"\"a\"", "\"c\""}, []string{"\"a\"", "\"b\"", "\"Ab\""}, []string{"string<?", "string>?", "string-ci<?", "string<=?"})
	calls(gg, "sort bad", "sort", cat(tw, anyValues), cat(badf, anyValues))
	calls(gg, "sort elements", "sort", lists(elems, 0, 3), []string{"<", "string<?", "(lambda (x y) (< x y))"})
	// mutation
	progs(gg, "mutate", "(define l (list _ _ _))|(define m l)|(set-car! _ _)", "l|m", []string{"1", "'(2)"}, []string{"'b", "()"}, []string{"3"}, []string{"l", "(cdr l)", "(cddr l)", "(cdddr l)", "m", "(car l)"}, anyValues)
	progs(gg, "mutate", "(define l (list _ _ _))|(define m l)|(set-cdr! _ _)", "l|m", []string{"1", "'(2)"}, []string{"'b", "()"}, []string{"3"}, []string{"l", "(cdr l)", "(cddr l)", "(cdddr l)", "m", "(car l)"}, anyValues)
	progs(gg, "mutate", "(define l (list _ _ _))|(define m (cdr l))|(set-nth! l _ _)", "l|m", []string{"1", "'(2)"}, []string{"'b", "()"}, []string{"3"}, ints(-2, 6), anyValues)
	progs(gg, "mutate big", "(define l (copy _))|(define m (cdr l))|(set-nth! l _ 'new)", "l|m", distincts(5, 32, 64, 65, 100), []string{"0", "1", "2", "4", "5", "31", "32", "33", "63", "64", "65", "66", "99", "100"})
	ml := []string{"()", "(list 1)", "(list 2 3)", "(list 4 5 6)"}
	progs(gg, "mutate", "(define l _)|(define m _)|(define n (append! l m))|(append! _ _)", "l|m|n", ml, ml, []string{"l", "n"}, []string{"(list 7)", "()", "(list 8 9)"})
	progs(gg, "mutate", "(define l _)|(append! l _)|(append! l _)|(append! l _)", "l", ml, ml, ml, ml)
	largeLists(gg)
	// operations after operations, on shared structure
	op := []string{"(set! l (cons 1 l))", "(set! l (cdr l))", "(set! l (append l m))", "(set! m (reverse l))", "(set! m (append m (list 8 9)))", "(set! l (filter odd? l))", "(set! m (map succ l))", "(set! l (sort l <))", "(append! m (list 7))", "(set! m (list-tail l 1))", "(set! m (copy l))", "(set-car! m 5)", "(set! l (union l m))", "(set! m (take 2 l))", "(set! m (sublist l 0 2))", "(set! l (flatten (list l m)))", "(set-nth! l 1 6)", "(set! n l)"}
	for _, o := range op {
		progs(gg, "history", "(define l (list 3 4))|(define m (list 2))|(define n ())|"+o+"|_|_", "l|m|n", op, op)
		if deep {
			progs(gg, "history4", "(define l (list 3 4))|(define m (list 2))|(define n ())|"+o+"|_|_|_", "l|m|n", op, op, op)
		}
	}
}

func permutations(n int, f func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for x := 0; x < n; x++ {
			if !used[x] {
				used[x] = true
				p[i] = x
				rec(i + 1)
				used[x] = false
			}
		}
	}
	rec(0)
}
