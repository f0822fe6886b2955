package main

import (
	"fmt"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C15", Level: "model_checking", Chunk: 1, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every bounded program over frames gives the results, the order of effects and the final slots of the reference",
		Assumptions: libAssume, Gen: genC15,
	})
}

func genC15(gg *core.G) {
	largeFrames(gg)
	deep := gg.Thorough()
	// who has slot x: every subset of a chain and a second parent
	reads := []string{"(get-slot _ x:)", "(x: _)", "(has-slot? _ x:)", "(x:? _)", "(get-slot-or-nil _ x:)", "(x:! _ 'new)", "(set-slot! _ x: 'new)", "(remove-slot! _ x:)", "(send _ x: 1 2)", "(x:> _ 1)", "(apply-slot _ x: '(1))", "(let ((k x:)) (get-slot _ k))", "(clone _)", "(copy _)", "(length _)", "(== _ b)", "(get-slot _ zz:)", "(zz: _)", "(zz:? _)", "(set-slot! _ y: 5)"}
	vals := []string{"", "x: 1", "x: ()", "x: #f", "x: (lambda (n) (list 'm n x))", "x: {x: 7}", "x: (1 2)"}
	watch := "a|b|c|d|(get-slot-or-nil c x:)|(get-slot-or-nil b x:)|(x:? d)"
	for _, r := range reads {
		r := r
		gg.Case("chain "+r, func(t *core.T) {
			for _, va := range vals {
				for _, vb := range vals {
					for _, vc := range vals {
						for _, f := range []string{"a", "b", "c", "d"} {
							pre := []string{"(define a {" + va + " n: 'a})", "(define b {" + vb + " p*: a})", "(define c {" + vc + " p*: b})", "(define d {q*: {u: 1} p*: c})"}
							diff(t, Prog{Src: append(pre, strings.ReplaceAll(r, "_", f)), Watch: strings.Split(watch, "|")})
						}
					}
				}
			}
		})
	}
	parentGraphs(gg)
	// histories
	ops := []string{"(set-slot! a x: 1)", "(set-slot! b x: 2)", "(set-slot! c x: 3)", "(x:! c 4)", "(remove-slot! a x:)", "(remove-slot! b x:)", "(remove-slot! c x:)", "(set-slot! c p*: a)", "(set-slot! a p*: {z: 5 x: 'rz})", "(remove-slot! c p*:)", "(set-slot! a y: x:)", "(mc-log (x: c))", "(mc-log (x:? c))", "(set! c (clone b))", "(set! a (copy c))", "(send a m: 8)", "(send c m: 9)", "(set-slot! b m: (lambda (v) (set! x v) x))", "(set-slot! c p*: 5)", "(set! b {p*: a})", "(mc-log (get-slot-or-nil c y:))"}
	pre := "(define a {x: 0 m: (lambda (v) (list 'am x v (self? self)))})|(define (self? s) (list (== s a) (x: s)))|(define b {p*: a})|(define c {p*: b})|"
	for _, o := range ops {
		progs(gg, "history", pre+o+"|_|_", "a|b|c|(get-slot-or-nil c x:)", ops, ops)
		if deep {
			progs(gg, "history4", pre+o+"|_|_|_", "a|b|c|(get-slot-or-nil c x:)", ops, ops, ops)
		}
	}
	// method bodies: what names mean inside a method
	bodies := []string{"x", "(list x y z)", "(x: self)", "(set! x 9)", "(set! y 9)", "(set! z 9)", "(set! w 9)", "(begin (set! x (list v x)) x)", "(let ((q x)) (set! x v) (list q x))", "(let ((x 'loc)) (list x v))", "((lambda (q) (list q x)) v)", "(map (lambda (q) (list q x)) (list v 2))", "(other v)", "(other (other v))", "(send self other: v)", "(other:> self v)", "(other: self)", "(begin (set-slot! self x: v) x)", "(begin (define x 'dx) x)", "(begin (define nw v) nw)", "(lambda () x)", "(lambda (q) (set! x q) x)", "(helper v)", "(list (helper x) (helper (other x)))", "self", "(clone self)", "(has-slot? self x:)", "(remove-slot! self x:)", "(if (== v 0) 'end (m (- v 1)))", "(if (== v 0) x (send self m: (- v 1)))", "(error \"in method\")", "(on-error (error \"e\") (lambda (e) (list 'h v)))", "(begin (mc-log x) (mc-log v) (mc-log y) 'ok)", "((lambda () (set! x v) (x: self)))", "(let* ((p x) (q p)) (list p q))", "(do ((i 0 (+ i 1))) ((== i 2) x) (set! x (list x)))", "(cond ((== x 1) 'one) (else x))", "(apply other (list v))", "(list car x)", "(eval 'x)", "(eval '(set! x 5))", "`(,x ,@(list v))", "(send p1 other: x)", "(send {other: (lambda (n) (list 'anon n))} other: v)", "(begin (set-slot! p1 x: 'px) x)", "(mac x)", "(let lp ((i 0)) (if (< i 2) (lp (+ i 1)) (list i x)))", "(case x ((1) 'k1) (else x))", "(and x v)", "(-> x list)", "(set! v (list v)) ", "(get-slot self y:)", "(begin (set! other (lambda (n) 'replaced)) (other 1))"}
	objs := []string{"{x: 1 y: 2 m: METH other: (lambda (n) (list 'o n x))}", "{x: 1 p*: p1 m: METH}", "{p*: p1 m: METH}", "{p*: {y: 22 p*: p1} x: 1 m: METH}", "{p*: {m: METH w1: 1} q*: p1}"}
	calls2 := []string{"(send o m: 3)", "(m:> o 3)", "(apply-slot o m: '(3))", "(send o m:)", "(send o m: 1 2)", "(let ((x 'callerx)) (send o m: x))", "((get-slot o m:) 3)", "((m: o) 3)", "(send {p*: o} m: 3)", "(send {p*: o x: 'childx} m: 3)", "(let ((k m:)) (send o k 3))", "(begin (send o m: 1) (send o m: 2))", "(apply-slot o m: 3 '())", "(map (lambda (f) (send f m: 3)) (list o o))", "(send (clone o) m: 4)"}
	for _, b := range bodies {
		b := b
		gg.Case("method "+b, func(t *core.T) {
			for _, o := range objs {
				for _, c := range calls2 {
					diff(t, Prog{Src: []string{"(define x 'gx)", "(define z 'gz)", "(define (helper n) (list 'hp n x z))", "(defmacro (mac n) `(list 'mac ,n))", "(define p1 {y: 20 x: 10 other: (lambda (n) (list 'p1 n x))})",
						"(define o " + strings.Replace(o, "METH", "(lambda (v) "+b+")", 1) + ")", "(define r " + c + ")", "(if (function? r) (list (r) (r 1)) r)"}, Watch: []string{"(get-slot-or-nil o x:)", "(get-slot-or-nil o y:)", "p1", "x", "y", "z", "w", "nw", "(length o)"}})
				}
			}
		})
		if deep {
			gg.Case("method2 "+b, func(t *core.T) {
				for _, b2 := range bodies {
					for _, o := range objs {
						for _, c := range calls2 {
							if t.Expired() || t.Failed() {
								return
							}
							diff(t, Prog{Src: []string{"(define x 'gx)", "(define z 'gz)", "(define (helper n) (list 'hp n x z))", "(defmacro (mac n) `(list 'mac ,n))", "(define p1 {y: 20 x: 10 other: (lambda (n) (list 'p1 n x))})",
								"(define o " + strings.Replace(o, "METH", "(lambda (v) "+b+" "+b2+")", 1) + ")", "(define r " + c + ")", "(if (function? r) (list (r) (r 1)) r)"}, Watch: []string{"(get-slot-or-nil o x:)", "(get-slot-or-nil o y:)", "p1", "x", "y", "z", "w", "nw"}})
						}
					}
				}
			})
		}
	}
	// send-super and apply-slot-super: the next method up, with the arguments
	supers := []string{"(send-super m: v)", "(m:^ v)", "(apply-slot-super m: (list v))", "(apply-slot-super m: v '())", "(send-super m:)", "(send-super m: v v)", "(send-super nope: v)", "(send-super x: v)", "(list x (send-super m: x))", "(let ((q v)) (send-super m: q))", "(begin (set! x 5) (send-super m: x))", "(send-super 'm v)", "(on-error (send-super m: v v v) (lambda (e) 'bad))", "(send-super k: v)"}
	plain := []string{"(list 'up v)", "(helper v)", "(mc-log v)", "(error \"up\")", "(if (== v 0) 'z (list v))", "(lambda () v)"}
	for _, s := range supers {
		s := s
		gg.Case("super "+s, func(t *core.T) {
			for _, b := range plain {
				for _, shape := range []string{"(define o {p*: {m: UP x: 3} m: DOWN x: 1})", "(define o {p*: {q*: {m: UP x: 3}} m: DOWN x: 1})", "(define o {p*: {m: UP m2: 4} q*: {n: 1 x: 3} m: DOWN x: 1})", "(define o {m: DOWN x: 1})", "(define o {p*: {m: 5 x: 3} m: DOWN x: 1})", "(define o {p*: {p*: {m: DOWN x: 1} q*: {k: UP}} z: 1})"} {
					for _, c := range []string{"(send o m: 7)", "(m:> o 0)", "(let ((v 'cv)) (send o m: v))", "(begin (send o m: 1) (send o m: 2))"} {
						d := strings.Replace(strings.Replace(shape, "UP", "(lambda (v) "+b+")", 1), "DOWN", "(lambda (v) "+s+")", 1)
						diff(t, Prog{Src: []string{"(define (helper n) (list 'hp n))", d, "(define r " + c + ")", "(if (function? r) (r) r)"}, Watch: []string{"(get-slot-or-nil o x:)"}})
					}
				}
			}
		})
	}
	gg.Case("super outside", func(t *core.T) {
		for _, s := range supers {
			diff(t, Prog{Src: []string{"(define v 1)", s, "(let ((x 1)) " + s + ")"}})
		}
	})
	// the known defect: methods reached by send-super have no self and no slots
	for _, k := range [][2]string{{"(x: self)", "1"}, {"x", "1"}, {"(send-super m:)", "top"}} {
		k := k
		gg.Case("super-called method uses "+k[0], func(t *core.T) {
			env := freshEnv()
			evalIn(env, "(define o {p*: {p*: {m: (lambda () 'top)} m: (lambda () "+k[0]+")} m: (lambda () (send-super m:)) x: 1})")
			if got := evalIn(env, "(send o m:)"); got.val != k[1] {
				t.Fail("differs", "the method that send-super calls evaluates %s: gives %s, should give %s", k[0], got, k[1])
			}
			t.Trace(1)
		})
	}
	// keys and values, in any order
	for _, n := range []int{0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 64, 65, 100} {
		n := n
		gg.Case(fmt.Sprintf("keys %d", n), func(t *core.T) {
			ref.KeyOrder = true
			defer func() { ref.KeyOrder = false }()
			slots := rep(n, func(i int) string { return fmt.Sprintf("s%d: %d", i, i) })
			for _, op := range []string{"1", "(set-slot! f new: 1000)", "(remove-slot! f s0:)", "(set-slot! f s1: 999)", "(set! f (clone f))", "(set! f (copy f))", "(set! f {p*: f mine: 5})", "(remove-slot! f zz:)"} {
				if n == 0 && strings.Contains(op, "p*") {
					continue
				}
				vals := "(sort (frame-values f) <)"
				if strings.Contains(op, "p*") {
					vals = "(length (frame-values f))"
				}
				diff(t, Prog{Src: []string{"(define f {" + slots + "})", op, "(sort (map str (frame-keys f)) string<?)", vals, "(length (frame-keys f))", "(every (lambda (k) (has-slot? f k)) (frame-keys f))"}})
			}
		})
	}
	// sizes
	for _, n := range sizes {
		n := n
		if n == 0 {
			continue
		}
		gg.Case(fmt.Sprintf("size %d", n), func(t *core.T) {
			slots := rep(n, func(i int) string { return fmt.Sprintf("s%d: %d", i, i) })
			for at := 0; at < n; at += 1 + n/20 {
				diff(t, Prog{Src: []string{"(define f {" + slots + "})", fmt.Sprintf("(define g {p*: f s%d: 'mine})", at), fmt.Sprintf("(s%d: f)", at), fmt.Sprintf("(s%d: g)", at), fmt.Sprintf("(s%d:! f 'new)", (at+1)%n), fmt.Sprintf("(remove-slot! f s%d:)", at), fmt.Sprintf("(s%d:? f)", at), fmt.Sprintf("(s%d:? g)", (at+1)%n), fmt.Sprintf("(s%d: g)", (at+1)%n), "(length (frame-keys f))", "(length f)"}, Watch: []string{"f", "g"}})
				// chains
				src := []string{"(define f0 {x: 'root m: (lambda () (list 'm x d))})"}
				for i := 1; i <= n; i++ {
					ex := ""
					if i == at {
						ex = "x: 'mid"
					}
					src = append(src, fmt.Sprintf("(define f%d {p*: f%d d: %d %s})", i, i-1, i, ex))
				}
				src = append(src, fmt.Sprintf("(x: f%d)", n), fmt.Sprintf("(x: f%d)", at), fmt.Sprintf("(send f%d m:)", n), fmt.Sprintf("(send f%d m:)", at), fmt.Sprintf("(x:! f%d 'set)", n), fmt.Sprintf("(x: f%d)", n), fmt.Sprintf("(x: f%d)", n-1), "(x: f0)")
				diff(t, Prog{Src: src})
				// many parents, each with its own slots
				ps := rep(n, func(i int) string {
					return fmt.Sprintf("p%d*: {s%d: %d m%d: (lambda () (list s%d me))}", i, i, i, i, i)
				})
				diff(t, Prog{Src: []string{"(define f {me: 'me " + ps + "})", fmt.Sprintf("(s%d: f)", at), fmt.Sprintf("(send f m%d:)", at), "(zz:? f)", fmt.Sprintf("(s%d:? f)", at)}})
			}
			diff(t, Prog{Src: []string{"(define f (make-frame " + slots + "))", "(length (frame-keys f))", "(length (frame-values f))", "(sort (frame-values f) <)"}, Watch: []string{"f", "(clone f)", "(copy f)"}})
			diff(t, Prog{Src: []string{"(define f {n: 0 m: (lambda () (set! n (+ n 1)) n)})", "(do ((i 0 (+ i 1))) ((== i " + num(n) + ")) (send f m:))", "(n: f)"}})
		})
	}
	// making frames
	for _, n := range []int{0, 1, 2, 3, 4} {
		calls(gg, "make "+num(n), "make-frame", func() [][]string {
			r := make([][]string, n)
			for i := range r {
				r[i] = []string{"a:", "b:", "1", "'x", "()", "(mc-tick)"}
			}
			return r
		}()...)
	}
	progs(gg, "literal", "(define x 5)|(define f {a: _ b: _})|(a: f)|(b: f)", "f", []string{"1", "x", "(mc-tick)", "'(1)", "(list 1 2)", "(lambda (n) n)", "{c: x}", "[1]", "\"s\"", "q:", "()", "#f"}, []string{"1", "x", "(mc-tick)", "(list x)", "{c: {d: x}}"})
	for _, f := range []string{"has-slot?", "get-slot", "get-slot-or-nil", "remove-slot!", "send", "clone", "frame-keys", "frame-values", "frame?"} {
		if f == "clone" || strings.HasPrefix(f, "frame") {
			calls(gg, "any", f, cat(anyValues, []string{"{}"}))
			continue
		}
		calls(gg, "any", f, cat(anyValues, []string{"{}"}), cat(anyValues, []string{"a:", "zz:"}))
	}
	calls(gg, "any", "set-slot!", cat(anyValues, []string{"{}"}), cat(anyValues, []string{"a:"}), anyValues)
	progs(gg, "shortcut any", "_|(a: _)|(a:? _)|(a:> _)|(a:! _ 1)", "", anyValues, anyValues, anyValues, anyValues[:3], anyValues[:2])
	// cyclic and self parents end
	progs(gg, "cycles", "(define a {x: 1})|(define b {p*: a})|(begin (set-slot! a p*: _) 1)|(begin (set-slot! b q*: _) 1)|(get-slot-or-nil _ _)|(has-slot? a zz:)", "", []string{"a", "b"}, []string{"a", "b"}, []string{"a", "b"}, []string{"x:", "zz:"})
}

// parentGraphs: every graph of parents between four frames, each with a slot
// of its own: what a frame has is what the frames it reaches have.
func parentGraphs(gg *core.G) {
	const n = 4
	parse := func(f string, a ...any) *g.Data {
		d, err := g.Parse(fmt.Sprintf(f, a...))
		if err != nil {
			panic(err)
		}
		return d
	}
	var code [n][n][6]*g.Data
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for k, f := range []string{"(has-slot? f%d s%d:)", "(get-slot f%d s%d:)", "(get-slot-or-nil f%d s%d:)", "(s%[2]d: f%[1]d)", "(s%[2]d:? f%[1]d)", "(send f%d set%d: 'new)"} {
				code[i][j][k] = parse(f, i, j)
			}
		}
	}
	var all [n]*g.Data
	for i := range all {
		all[i] = parse("(send f%d m:)", i)
	}
	env0 := freshEnv()
	method := func(src string) *g.Data {
		d, err := g.ParseAndEvalInEnvironment(src, env0)
		if err != nil {
			panic(err)
		}
		return d
	}
	m := method("(lambda () (list s0 s1 s2 s3))")
	var setters [n]*g.Data
	for j := range setters {
		setters[j] = method(fmt.Sprintf("(lambda (v) (set! s%d v) s%d)", j, j))
	}
	self := 1
	if !gg.Thorough() {
		self = 0
	}
	type edge struct{ from, to int }
	var edges []edge
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j || self == 1 || i == 0 {
				edges = append(edges, edge{i, j})
			}
		}
	}
	total := 1 << len(edges)
	const parts = 64
	for part := 0; part < parts; part++ {
		part := part
		gg.Case(fmt.Sprintf("parent graphs %d", part), func(t *core.T) {
			for bits := part; bits < total; bits += parts {
				if t.Failed() || t.Expired() {
					return
				}
				if bits/parts%32 == 0 {
					t.Progress()
				}
				var fr [n]*g.FrameMap
				var reach [n][n]bool
				env := freshEnv()
				for i := range fr {
					fr[i] = &g.FrameMap{Data: g.FrameMapData{fmt.Sprintf("s%d:", i): g.IntegerWithValue(int64(i))}}
					env.BindTo(g.Intern(fmt.Sprintf("f%d", i)), g.FrameWithValue(fr[i]))
					reach[i][i] = true
				}
				fr[n-1].Data["m:"] = m
				var desc []string
				for k, e := range edges {
					if bits>>k&1 == 1 {
						fr[e.from].Data[fmt.Sprintf("p%d*:", e.to)] = g.FrameWithValue(fr[e.to])
						reach[e.from][e.to] = true
						desc = append(desc, fmt.Sprintf("f%d has parent f%d", e.from, e.to))
					}
				}
				for k := 0; k < n; k++ {
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							reach[i][j] = reach[i][j] || reach[i][k] && reach[k][j]
						}
					}
				}
				eval := func(c *g.Data) (o outcome) {
					v, err := g.Eval(c, env)
					t.Steps(1)
					if err != nil {
						return outcome{err: true, msg: err.Error()}
					}
					return outcome{val: canon(v)}
				}
				expect := func(c *g.Data, want outcome) {
					if got := eval(c); !got.same(want) {
						t.Fail("graph", "%s; s0: only in f0, s1: in f1 and so on, m: in f3: %s gives %s, should give %s", strings.Join(desc, ", "), g.String(c), got, want)
					}
				}
				for i := 0; i < n; i++ {
					seen := make([]string, n)
					for j := 0; j < n; j++ {
						has, val := outcome{val: "#f"}, outcome{val: "()"}
						if reach[i][j] {
							has.val, val.val = "#t", num(j)
						}
						seen[j] = val.val
						must := val
						if !reach[i][j] {
							must = outcome{err: true}
						}
						expect(code[i][j][0], has)
						expect(code[i][j][1], must)
						expect(code[i][j][2], val)
						expect(code[i][j][3], must)
						expect(code[i][j][4], has)
					}
					if want := (outcome{val: "(" + strings.Join(seen, " ") + ")"}); reach[i][n-1] {
						expect(all[i], want)
					} else {
						expect(all[i], outcome{err: true})
					}
				}
				// set! of a slot variable in a method: the slot of the receiver
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						key := fmt.Sprintf("s%d:", j)
						fr[i].Data[fmt.Sprintf("set%d:", j)] = setters[j]
						if reach[i][j] {
							expect(code[i][j][5], outcome{val: "new"})
						} else {
							expect(code[i][j][5], outcome{err: true})
						}
						for x := range fr {
							_, own := fr[x].Data[key]
							if should := x == j || x == i && reach[i][j]; own != should {
								t.Fail("graph", "%s: after %s frame f%d has its own %s: %v, should be %v", strings.Join(desc, ", "), g.String(code[i][j][5]), x, key, own, should)
							}
						}
						delete(fr[i].Data, key)
						fr[j].Data[key] = g.IntegerWithValue(int64(j))
						delete(fr[i].Data, fmt.Sprintf("set%d:", j))
					}
				}
				t.Trace(1)
				t.State(fmt.Sprint(reach))
			}
		})
	}
}
