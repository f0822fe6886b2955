package main

import (
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
)

// C06: fork and join.

func init() {
	core.Register(&core.Check{
		ID: "C06", Level: "model_checking", SelfConfirm: true, Stall: 120 * time.Second,
		Rule:        "every schedule (up to the stated preemptions) of programs that fork 1 to 4 processes, in every arrangement of who joins whom (the forker, other threads, other processes, the process itself directly, from helpers, recursion and closures), for every kind of result (values, nothing, errors, panics), argument list and arity; every outcome must be one the fork/join contract allows",
		Assumptions: []string{"the instrumented copy of golisp behaves like golisp under sequentially consistent memory"},
		Gen:         c06, Quick: 400 * time.Second, Thorough: 3000 * time.Second,
	})
}

// want turns "1,2 | 3 => 4" into what Obs.String gives.
func want(s string) string {
	tail := ""
	if i := strings.Index(s, " ["); i >= 0 && strings.HasSuffix(s, "blocked]") {
		s, tail = s[:i], s[i:]
	}
	head, post, _ := strings.Cut(s, "=>")
	var b strings.Builder
	for _, p := range strings.Split(head, "|") {
		b.WriteString(strings.TrimSpace(p) + " | ")
	}
	return b.String() + "=> " + strings.TrimSpace(post) + tail
}

// allow is a program with the outcomes it may have.
func allow(G *core.G, name string, setup []string, threads [][]string, post []string, bound int, outs ...string) {
	m := map[string]bool{}
	for _, o := range outs {
		m[want(o)] = true
	}
	prog(G, &Prog{Name: name, Setup: setup, RunSetup: true, Threads: threads, Post: post, Bound: bound, Check: oneOf(m), Prep: panicPrim})
}

func panicPrim(env *g.SymbolTableFrame) {
	g.MakePrimitiveFunction("mc-panic", "0", func(args *g.Data, env *g.SymbolTableFrame) (*g.Data, error) {
		panic("a primitive of the host panics")
	})
	g.MakePrimitiveFunction("mc-nilpanic", "0", func(args *g.Data, env *g.SymbolTableFrame) (*g.Data, error) {
		var m map[string]int
		m["x"] = 1
		return nil, nil
	})
}

func c06(G *core.G) {
	q := !G.Thorough()
	bd := func(quick, deep int) int {
		if q {
			return quick
		}
		return deep
	}
	b1, b2 := bd(2, 4), bd(1, 2)
	th := func(l ...string) [][]string { return [][]string{l} }

	// what join gives
	for _, v := range [][2]string{{"3", "3"}, {"()", "()"}, {"#f", "#f"}, {"#t", "#t"}, {`"s"`, `"s"`}, {"'(1 2)", "(1 2)"}, {"{a: 1}", "{a: 1}"}, {"'sym", "sym"}, {"(list)", "()"}, {"2.5", "2.5"}, {"(+ 1 2)", "3"}, {"(begin 1 2)", "2"}, {"(if #f 1)", "()"}, {`(error "no")`, "()"}, {"(car 5)", "()"}, {"unbound-thing", "()"}, {"(unbound-thing)", "()"}, {"(mc-panic)", "()"}, {"(mc-nilpanic)", "()"}, {`(begin 4 (error "no") 5)`, "()"}, {"(list 1 (mc-panic))", "()"}} {
		allow(G, "value "+v[0], nil, th("(define p (fork (lambda (p) "+v[0]+")))", "(join p)", "(join p)"), nil, b1, "<object>,"+v[1]+",E")
		allow(G, "value twice "+v[0], []string{"(define p (fork (lambda (p) " + v[0] + ")))"}, [][]string{{"(join p)"}, {"(join p)"}}, nil, b1, v[1]+" | E", "E | "+v[1])
	}
	allow(G, "three joiners", []string{"(define p (fork (lambda (p) 3)))"}, [][]string{{"(join p)"}, {"(join p)"}, {"(join p)"}}, nil, bd(1, 3), "3|E|E", "E|3|E", "E|E|3")
	allow(G, "three joiners, errors", []string{"(define p (fork (lambda (p) (car 1))))"}, [][]string{{"(join p)"}, {"(join p)"}, {"(join p)"}}, nil, bd(1, 3), "()|E|E", "E|()|E", "E|E|()")
	allow(G, "two joiners twice each", []string{"(define p (fork (lambda (p) 3)))"}, [][]string{{"(join p)", "(join p)"}, {"(join p)", "(join p)"}}, nil, bd(1, 3), "3,E|E,E", "E,E|3,E")

	// runs once, and what it did is seen after the join
	for i, e := range [][3]string{
		{"(set! x 2)", "x", "2"}, {"(begin (set! x 1) (set! x 5))", "x", "5"}, {"(set-slot! fr a: 4)", "(get-slot fr a:)", "4"}, {"(a:! fr 6)", "(a: fr)", "6"},
		{"(set-car! l 9)", "l", "(9 2)"}, {"(atomic-add! n 1)", "(atomic-load n)", "1"}, {"(set! x (+ x 1))", "x", "1"}, {"(define x 7)", "x", "0"},
		{"(append-bytes! ba 7)", "(bytearray->list ba)", "(1 7)"}, {"(set-slot! fr b: (list 1 2))", "(get-slot fr b:)", "(1 2)"},
	} {
		setup := []string{"(define x 0)", "(define fr {a: 0})", "(define l (list 1 2))", "(define n (atomic))", "(define ba (list->bytearray (list 1)))"}
		allow(G, "effect "+e[0], setup, th("(define p (fork (lambda (p) "+e[0]+" "+itoa(i)+")))", "(join p)", e[1]), nil, b1, "<object>,"+itoa(i)+","+e[2])
		allow(G, "effect before an error "+e[0], setup, th("(define p (fork (lambda (p) "+e[0]+" (car 1))))", "(join p)", e[1]), nil, b2, "<object>,(),"+e[2])
		allow(G, "effect before a panic "+e[0], setup, th("(define p (fork (lambda (p) "+e[0]+" (mc-panic))))", "(join p)", e[1]), nil, b2, "<object>,(),"+e[2])
		allow(G, "effect unjoined "+e[0], setup, th("(begin (fork (lambda (p) "+e[0]+")) 1)"), []string{e[1]}, b2, "1 => "+e[2])
	}

	// arguments
	for _, a := range [][3]string{
		{"(lambda (p) 1)", "", "1"}, {"(lambda (p a) a)", "4", "4"}, {"(lambda (p a b) (list a b))", "4 5", "(4 5)"}, {"(lambda (p a b c) (list c b a))", "4 '(5) \"x\"", "(\"x\" (5) 4)"},
		{"(lambda (p . r) r)", "", "()"}, {"(lambda (p . r) r)", "1", "(1)"}, {"(lambda (p . r) r)", "1 2 3", "(1 2 3)"}, {"(lambda (p a . r) (list a r))", "1", "(1 ())"}, {"(lambda (p a . r) (list a r))", "1 2 3", "(1 (2 3))"},
		{"(lambda (p a) a)", "()", "()"}, {"(lambda (p a) a)", "'(1 2)", "(1 2)"}, {"(lambda (p a) a)", "'foo", "foo"}, {"(lambda (p a) a)", "x", "10"}, {"(lambda (p a) (+ a x))", "(+ x 1)", "21"},
	} {
		allow(G, "args "+a[0]+" "+a[1], []string{"(define x 10)"}, th("(define p (fork "+a[0]+" "+a[1]+"))", "(join p)"), nil, b2, "<object>,"+a[2])
	}
	allow(G, "arguments are taken when forking", []string{"(define x 10)"}, th("(define p (fork (lambda (p a) a) x))", "(set! x 11)", "(join p)"), nil, b1, "<object>,11,10")
	allow(G, "the environment is the function's", []string{"(define y 1)"}, th("(define p (let ((y 3)) (fork (lambda (p) (set! y (+ y 1)) y))))", "y", "(join p)"), nil, b1, "<object>,1,4")
	allow(G, "process argument", nil, th("(define q (fork (lambda (p) (proc-sleep p 10000))))", "(wake q)", "(join q)"), nil, b1, `<object>,"OK",#t`, `<object>,"OK",#f`)
	wrongKinds(G, "fork", "proc1")
	wrongKinds(G, "join", "process")
	for _, bad := range []string{"(fork (lambda () 1))", "(fork (lambda (p) 1) 2)", "(fork (lambda (p a) 1))", "(fork (lambda (p a) 1) 1 2)", "(fork (lambda (p a . r) 1))", "(fork 5)", "(fork '())", "(fork 'car)", "(fork)", "(join 5)", "(join '())", "(join (atomic))", "(join (make-channel))", `(join "p")`, "(join)", "(fork {a: 1})", "(fork (unbound-thing))", "(abandon (fork (lambda (p) 1)))", "(reset-timeout (fork (lambda (p) 1)))"} {
		allow(G, "bad "+bad, nil, th("(on-error "+bad+" (lambda (e) 'err))", "(join (fork (lambda (p) 8)))"), nil, 1, "err,8")
	}

	// forking does not wait; joining does
	allow(G, "fork does not wait", []string{"(define c (make-channel))"}, th("(define p (fork (lambda (p) (car (<-c)))))", "(c<- 5)", "(join p)"), nil, b1, "<object>,(),5")
	allow(G, "join waits", []string{"(define c (make-channel))", "(define p (fork (lambda (p) (car (<-c)))))"}, [][]string{{"(join p)"}, {"(c<- 5)"}}, nil, b1, "5 | ()")
	allow(G, "join waits for ever", []string{"(define c (make-channel))", "(define p (fork (lambda (p) (<-c))))"}, [][]string{{"(join p)"}, {"(join p)"}, {"7"}}, nil, b2, "blocked|E|7 [1 processes blocked]", "E|blocked|7 [1 processes blocked]")
	allow(G, "a sleeping process is joined", []string{"(define t (millis))"}, th("(define p (fork (lambda (p) (proc-sleep p 50) (>= (- (millis) t) 50))))", "(join p)"), nil, b1, "<object>,#t")

	// joining yourself
	for _, s := range [][2]string{
		{"(lambda (p) (join p) 7)", "7"}, {"(lambda (p) (list (join p) 7))", "(() 7)"}, {"(lambda (p) (let ((x 1)) (list x (join p))))", "(1 ())"}, {"(lambda (p) ((lambda () (list (join p)))))", "(())"},
		{"(lambda (p) (helper p))", "(1 ())"}, {"(lambda (p) (rec p 3))", "(3 ())"}, {"(lambda (p) (map (lambda (x) (join p)) '(1 2)))", "(() ())"}, {"(lambda (p) (do ((i 0 (+ i 1))) ((== i 2) 4) (join p)))", "4"},
		{"(lambda (p) (apply join (list p)) 5)", "5"}, {"(lambda (p) (join p) (join p) 6)", "6"}, {"(lambda (p . r) (list (join p) r))", "(() ())"}, {"(lambda (p) (let loop ((i 2)) (if (== i 0) (list (join p)) (loop (- i 1)))))", "(())"},
		{"recw", "(0 ())"},
	} {
		setup := []string{"(define (helper q) (list 1 (join q)))", "(define (rec q n) (if (== n 0) (list 3 (join q)) (rec q (- n 1))))", "(define (recw p . n) (if (== (length n) 2) (list 0 (join p)) (apply recw (cons p (cons 1 n)))))"}
		allow(G, "self-join "+s[0], setup, th("(define p (fork "+s[0]+"))", "(join p)"), nil, b2, "<object>,"+s[1])
	}
	// one function forked twice
	for _, s := range [][4]string{
		{"(lambda (p n) (list n (join p)))", "1", "2", "(1 ()),(2 ())"},
		{"(lambda (p n) (helper p n))", "1", "2", "(1 ()),(2 ())"},
		{"(lambda (p n) n)", "1", "2", "1,2"},
		{"(lambda (p n) (if (nil? n) (car 1) n))", "'()", "2", "(),2"},
		{"(lambda (p n) (if (nil? n) (mc-panic) n))", "1", "'()", "1,()"},
	} {
		setup := []string{"(define (helper q n) (list n (join q)))", "(define w " + s[0] + ")", "(define a (fork w " + s[1] + "))", "(define b (fork w " + s[2] + "))"}
		x, y, _ := strings.Cut(s[3], "),")
		if y == "" {
			x, y, _ = strings.Cut(s[3], ",")
		} else {
			x += ")"
		}
		allow(G, "forked twice "+s[0], setup, [][]string{{"(join a)", "(join b)"}}, nil, b2, s[3])
		allow(G, "forked twice, two joiners "+s[0], setup, [][]string{{"(join a)"}, {"(join b)"}}, nil, b2, x+" | "+y)
		allow(G, "forked twice, joined backwards "+s[0], setup, [][]string{{"(join b)", "(join a)"}}, nil, b2, y+","+x)
	}
	allow(G, "second joins first", []string{"(define (w p q) (if (nil? q) 5 (list (join q))))", "(define a (fork w '()))", "(define b (fork w a))"}, th("(join b)", "(join a)"), nil, b2, "(5),E")
	allow(G, "first joins second", []string{"(define c (make-channel 1))", "(define (w p n) (if (== n 1) (list (join (car (<-c)))) 5))", "(define a (fork w 1))", "(define b (fork w 2))", "(c<- b)"}, th("(join a)", "(join b)"), nil, b2, "(5),E")
	allow(G, "called directly after being forked", []string{"(define (w p) (list (join p)))", "(define a (fork (lambda (p) 3)))", "(define b (fork w))"}, th("(w a)", "(join b)"), nil, b2, "(3),(())")
	allow(G, "a closure from a process", []string{"(define a (fork (lambda (p) (lambda (q) (join q)))))", "(define b (fork (lambda (p) 3)))"}, th("((join a) b)", "(join b)"), nil, b2, "3,E")
	allow(G, "a closure from a process joins its process", []string{"(define a (fork (lambda (p) (lambda () (join p)))))"}, th("((join a))"), nil, b2, "E")

	// processes that fork
	allow(G, "fork in fork", nil, th("(define a (fork (lambda (p) (join (fork (lambda (p2) (list 1 (join p2))))))))", "(join a)"), nil, b2, "<object>,(1 ())")
	allow(G, "join the inner process outside", nil, th("(define a (fork (lambda (p) (fork (lambda (p2) 4)))))", "(join (join a))"), nil, b2, "<object>,4")
	allow(G, "the inner process joins the outer", []string{"(define c (make-channel 1))"}, th("(define a (fork (lambda (p) (c<- (fork (lambda (p2 o) (list (join o) 2)) p)) 9)))", "(join (car (<-c)))", "(join a)"), nil, b2, "<object>,(9 2),E")
	allow(G, "inner and outer use one function", []string{"(define (w p n) (if (== n 0) (list (join p)) (list n (join (fork w (- n 1))) (join p))))"}, th("(define a (fork w 1))", "(join a)"), nil, b2, "<object>,(1 (()) ())")
	allow(G, "inner fails, outer goes on", nil, th("(define a (fork (lambda (p) (list (join (fork (lambda (q) (car 1)))) 2))))", "(join a)"), nil, b2, "<object>,(() 2)")
	allow(G, "inner panics, outer goes on", nil, th("(define a (fork (lambda (p) (list (join (fork (lambda (q) (mc-panic)))) 2))))", "(join a)"), nil, b2, "<object>,(() 2)")
	for _, n := range []int{3, 4} {
		b := b2
		if n == 4 && q {
			b = 0
		}
		var l, r []string
		for i := 1; i <= n; i++ {
			l = append(l, itoa(i))
			r = append(r, itoa(i*i))
		}
		allow(G, "map fork, map join "+itoa(n), nil, th("(map join (map (lambda (n) (fork (lambda (p m) (* m m)) n)) '("+strings.Join(l, " ")+")))"), nil, b, "("+strings.Join(r, " ")+")")
	}
	// a process that fails leaves the others alone
	for _, f := range []string{"(car 1)", "(mc-panic)", `(error "x")`, "(unbound-thing)"} {
		allow(G, "others go on after "+f, []string{"(define x 0)", "(define a (fork (lambda (p) " + f + ")))", "(define b (fork (lambda (p) (set! x 1) 2)))"}, [][]string{{"(join b)"}, {"(join a)", "(+ 1 1)"}}, []string{"x"}, b2, "2 | (),2 => 1")
	}
	// two threads fork and join each other's
	allow(G, "exchange", []string{"(define c (make-channel 1))", "(define d (make-channel 1))"}, [][]string{{"(channel-write c (fork (lambda (p) 1)))", "(join (car (channel-read d)))"}, {"(channel-write d (fork (lambda (p) 2)))", "(join (car (channel-read c)))"}}, nil, b2, "(),2 | (),1")
	allow(G, "two threads fork one function", []string{"(define (w p n) (list n (join p)))"}, [][]string{{"(join (fork w 1))"}, {"(join (fork w 2))"}}, nil, b2, "(1 ()) | (2 ())")
}
