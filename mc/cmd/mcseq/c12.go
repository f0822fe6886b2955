package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C12", Level: "model_checking", Chunk: 2, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "no bounded program changes a protected binding; each attempt is an error, and shadowing in an inner scope works and ends with it",
		Assumptions: libAssume, Gen: genC12,
	})
	core.Register(&core.Check{
		ID: "C13", Level: "model_checking", Chunk: 2, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "no bounded program gets a restricted primitive to run from restricted code, and everything else runs there as it does elsewhere",
		Assumptions: append([]string{"functions that unrestricted code defined run with the rights of where they were defined"}, libAssume...), Gen: genC13,
	})
}

type bindSnap struct {
	b *g.Binding
	v *g.Data
	p string
}

func snapshot(e *g.SymbolTableFrame) map[string]bindSnap {
	m := map[string]bindSnap{}
	for n, b := range e.Bindings {
		if b.Protected {
			s := bindSnap{b: b, v: b.Val}
			if g.PrimitiveP(b.Val) {
				s.p = g.PrimitiveValue(b.Val).Name
			}
			m[n] = s
		}
	}
	return m
}

func changed(e *g.SymbolTableFrame, m map[string]bindSnap) string {
	for n, s := range m {
		b := e.Bindings[n]
		switch {
		case b == nil:
			return n + " is gone"
		case b != s.b:
			return n + " has a new binding"
		case b.Val != s.v:
			return n + " is now " + canon(b.Val)
		case !b.Protected:
			return n + " is no longer protected"
		case s.p != "" && g.PrimitiveValue(b.Val).Name != s.p:
			return n + " is another primitive"
		}
	}
	return ""
}

// restore undoes what a violating program did, for the programs after it.
func restore(e *g.SymbolTableFrame, m map[string]bindSnap) {
	for n, s := range m {
		s.b.Val, s.b.Protected = s.v, true
		e.Bindings[n] = s.b
	}
}

func protectedNames() []string {
	var ns []string
	for n, b := range g.Global.Bindings {
		if b.Protected && n != "mc-tick" && n != "mc-log" && n != "mc-id" {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	return ns
}

var attempts = []string{
	"(define N 5)", "(define N (lambda (a) a))", "(define (N a) a)", "(define (N . a) a)", "(set! N 5)", "(set! N ())", "(defmacro (N a) a)", "(environment-assign! E 'N 5)", "(environment-assign! E 'N ())", "(environment-define E 'N 5)", "(eval '(set! N 5))", "(eval '(define N 5))", "(eval '(set! N 5) E)", "(eval '(define N 5) E)", "(append! N '(1))",
	"(let () (set! N 5))", "((lambda () (set! N 5)))", "(let loop ((i 0)) (set! N i))", "(map (lambda (z) (set! N z)) '(1))", "(apply (lambda () (set! N 1)) '())", "(let ((q 1)) (let ((r 2)) (set! N 5)))", "(begin (set! N 5))", "(if #t (define N 5))", "(on-error (set! N 5) (lambda (m) (set! N 6)))", "(send {m: (lambda () (set! N 5))} m:)", "(-> 5 (set! N))", "(do ((i 0 (+ i 1))) ((== i 1) (set! N 5)))", "(eval (list 'set! 'N 5))", "(environment-assign! E (intern \"N\") 5)", "(begin (defmacro (mm n) `(set! ,n 5)) (mm N))", "(begin (defmacro (mm n) `(define ,n 5)) (mm N))", "(expand N)", "(set-car! N 5)", "(set-cdr! N 5)", "(set-nth! N 0 5)", "(set! N N)", "(define N N)", "(set-slot! {a: 1} N: 5)",
}

var shadows = []string{
	"(let ((N 5)) N)", "(let ((N 5)) (set! N 6) N)", "((lambda (N) N) 5)", "((lambda (N) (set! N (list N)) N) 5)", "(let* ((N 5)) (define N 7) N)", "(do ((N 0 (+ 1 N))) ((> N 2) N))", "(let loop ((N 0)) (if (> N 1) N (loop (+ N 1))))", "(let () (define N 5) N)", "(let () (define N 5) (set! N 6) N)", "((lambda (. N) N) 1 2)", "(let ((N ())) (append! N '(1)) N)", "(map (lambda (N) N) '(1 2))", "(letrec ((N 5)) N)", "(let ((N (lambda (a) (list 'mine a)))) (N 1))", "((named-lambda (k N) N) 5)", "(send {m: (lambda (N) N)} m: 3)", "(let ((N 1)) (let ((N 2)) (set! N 3)) N)", "(on-error (error \"x\") (lambda (N) 5))",
}

func genC12(gg *core.G) {
	names := protectedNames()
	if len(names) < 250 {
		panic("few protected names")
	}
	for _, n := range names {
		n := n
		sub := func(s string) string {
			return strings.ReplaceAll(s, "N", n)
		}
		gg.Case("global "+n, func(t *core.T) {
			snap := snapshot(g.Global)
			for i, a := range attempts {
				if (n == "eval" || n == "send" || n == "let" || n == "quote") && i < 0 {
					continue
				}
				src := strings.ReplaceAll(sub(a), " E ", " (system-global-environment) ")
				src = strings.ReplaceAll(src, " E)", " (system-global-environment))")
				t.Progress()
				got := evalIn(g.Global, src)
				delete(g.Global.Bindings, "mm")
				t.Trace(1)
				t.Steps(1)
				t.State(n + a + got.val)
				if c := changed(g.Global, snap); c != "" {
					t.Fail("protected", "at top level, %s gives %s and %s", src, got, c)
					restore(g.Global, snap)
				}
				if got.panic != "" {
					t.Fail("panic", "at top level, %s: %s", src, got)
				}
				if !got.err && !strings.Contains(a, "on-error") && !strings.Contains(a, "set-slot") && !(n == "nil" && strings.Contains(a, "-nth!")) {
					t.Fail("silent", "at top level, %s is no error but gives %s", src, got)
				}
			}
			// shadowing in inner scopes of the global environment
			for _, s := range shadows {
				got := evalIn(g.Global, sub(s))
				t.Trace(1)
				if c := changed(g.Global, snap); c != "" {
					t.Fail("protected", "at top level, %s gives %s and %s", sub(s), got, c)
					restore(g.Global, snap)
				}
				it := ref.NewInterp(20000)
				want, err := it.EvalString(sub(s), ref.NewEnv(it.Global, nil, "mc"))
				if _, known := ref.Prims()[n]; known && it.Quirk == "" && err != ref.ErrBudget {
					w := outcome{err: err != nil}
					if err == nil {
						w.val = ref.Canon(want)
					}
					if !got.same(w) {
						t.Fail("shadow", "at top level, %s gives %s, should give %s", sub(s), got, w)
					}
				}
			}
		})
		gg.Case("below "+n, func(t *core.T) {
			snap := snapshot(g.Global)
			_, known := ref.Prims()[n]
			for _, l := range [][]string{attempts, shadows} {
				for _, a := range l {
					src := strings.ReplaceAll(strings.ReplaceAll(sub(a), " E ", " (the-environment) "), " E)", " (the-environment))")
					if known {
						ref.KeyOrder = true
						diff(t, Prog{Src: []string{src}, Watch: []string{n}})
						ref.KeyOrder = false
					} else {
						evalIn(freshEnv(), src)
					}
					if c := changed(g.Global, snap); c != "" {
						t.Fail("protected", "below the top level, %s: in the global environment %s", src, c)
						restore(g.Global, snap)
					}
				}
			}
		})
		gg.Case("host "+n, func(t *core.T) {
			snap := snapshot(g.Global)
			sym := g.Intern(n)
			five := g.IntegerWithValue(5)
			below := freshEnv()
			inner := g.NewSymbolTableFrameBelow(below, "inner")
			for _, e := range []*g.SymbolTableFrame{g.Global, below, inner} {
				for what, f := range map[string]func() (*g.Data, error){
					"BindTo": func() (*g.Data, error) { return e.BindTo(sym, five) },
					"SetTo":  func() (*g.Data, error) { return e.SetTo(sym, five) },
				} {
					if _, err := f(); err == nil {
						t.Fail("silent", "%s of %s gives no error", what, n)
					}
				}
				t.Trace(2)
			}
			if _, err := g.Global.BindLocallyTo(sym, five); err == nil {
				t.Fail("silent", "BindLocallyTo of %s in the global environment gives no error", n)
			}
			if _, err := inner.BindLocallyTo(sym, five); err != nil || inner.ValueOf(sym) != five || below.ValueOf(sym) == five {
				t.Fail("shadow", "BindLocallyTo of %s in an inner environment does not shadow", n)
			}
			if _, err := inner.SetTo(sym, g.IntegerWithValue(6)); err != nil || g.IntegerValue(inner.ValueOf(sym)) != 6 {
				t.Fail("shadow", "SetTo of a shadowed %s does not set it", n)
			}
			if c := changed(g.Global, snap); c != "" {
				t.Fail("protected", "%s", c)
				restore(g.Global, snap)
			}
		})
	}
	// bindings that the host protected, of any value, in any environment
	for _, v := range []string{"5", "\"s\"", "'(1 2)", "()", "#f", "{a: 1}", "(lambda (x) x)", "'sym", "[1 2]", "1.5", "Go nil", "Go nil list"} {
		v := v
		gg.Case("host-protected "+v, func(t *core.T) {
			for _, depth := range []int{0, 1, 2} {
				for _, a := range append(append([]string{}, attempts...), shadows...) {
					top := freshEnv()
					var val *g.Data
					if v == "Go nil list" {
						val = g.EmptyCons()
					} else if v != "Go nil" {
						var err error
						if val, err = g.ParseAndEvalInEnvironment(v, top); err != nil {
							panic(err)
						}
					}
					top.BindToProtected(g.Intern("pv"), val)
					snap := snapshot(top)
					shape := canon(val)
					e := top
					for i := 0; i < depth; i++ {
						e = g.NewSymbolTableFrameBelow(e, "in")
					}
					src := strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(a, "N", "pv"), " E ", " (the-environment) "), " E)", " (the-environment))")
					got := evalIn(e, src)
					t.Trace(1)
					t.State(v + a + num(depth) + got.val)
					if c := changed(top, snap); c != "" {
						t.Fail("protected", "pv protected as %s, %d scopes further in: %s gives %s and %s", v, depth, src, got, c)
					}
					if got.panic != "" {
						t.Fail("panic", "%s: %s", src, got)
					}
					isAssign := strings.Contains(src, "(set! pv") && !strings.Contains(src, "let ((pv") && !strings.Contains(src, "(define pv 5) (set!") && !strings.Contains(src, "lambda (pv)") && !strings.Contains(src, "on-error")
					if depth == 0 && (strings.HasPrefix(src, "(define pv") || strings.HasPrefix(src, "(define (pv") || strings.HasPrefix(src, "(environment-")) || isAssign {
						if !got.err {
							t.Fail("silent", "pv protected as %s, %d scopes further in: %s is no error but gives %s", v, depth, src, got)
						}
					}
					if !strings.Contains(src, "set-c") && !strings.Contains(src, "set-nth") && !strings.Contains(src, "append!") {
						if s := canon(top.ValueOf(g.Intern("pv"))); s != shape {
							t.Fail("protected", "pv protected as %s: after %s it shows %s", v, src, s)
						}
					}
				}
			}
		})
	}
	gg.Case("protect again", func(t *core.T) {
		top := freshEnv()
		a, b := g.IntegerWithValue(1), g.IntegerWithValue(2)
		s := g.Intern("pv")
		top.BindTo(s, a)
		if got := evalIn(top, "(set! pv 7)"); got.err {
			t.Fail("over", "an unprotected binding cannot be set: %s", got)
		}
		top.BindToProtected(s, b)
		if got := evalIn(top, "(set! pv 7)"); !got.err || top.ValueOf(s) != b {
			t.Fail("protected", "protecting an existing binding has no effect")
		}
		t.Trace(2)
	})
	bindingHistories(gg)
}

// bindingHistories: every history of binding operations on nested
// environments, against what bindings are said to be.
func bindingHistories(gg *core.G) {
	type mb struct {
		val       string
		has, prot bool
	}
	type model struct {
		e    [3]mb
		slot string
	}
	type op struct {
		name  string
		kind  int
		env   int
		value int
	}
	kinds := []string{"BindToProtected", "BindTo", "SetTo", "BindLocallyTo", "define", "set!", "environment-define", "environment-assign!"}
	values := []*g.Data{g.IntegerWithValue(5), nil, g.StringWithValue("s"), g.EmptyCons(), g.Global.ValueOf(g.Intern("car"))}
	valNames := []string{"5", "Go nil", "\"s\"", "()", "car"}
	for framed := 0; framed < 2; framed++ {
		for _, shape := range []struct{ vals, depth int }{{5, 2}, {3, 3 + map[bool]int{true: 1}[gg.Thorough()]}, {1, 4 + map[bool]int{true: 1}[gg.Thorough()]}} {
			framed, shape := framed, shape
			var ops []op
			for k, kn := range kinds {
				for e := 0; e < 3; e++ {
					for v := 0; v < shape.vals; v++ {
						ops = append(ops, op{fmt.Sprintf("%s in scope %d of %s", kn, e, valNames[v]), k, e, v})
					}
				}
			}
			pv := g.Intern("pv")
			parse := func(s string) *g.Data {
				d, err := g.Parse(s)
				if err != nil {
					panic(err)
				}
				return d
			}
			var codes [8][5][3]*g.Data
			for v := 0; v < 5; v++ {
				for e := 0; e < 3; e++ {
					for k, f := range map[int]string{4: "(define pv v%d)", 5: "(set! pv v%d)", 6: "(environment-define e%[2]d 'pv v%[1]d)", 7: "(environment-assign! e%[2]d 'pv v%[1]d)"} {
						if k < 6 {
							codes[k][v][e] = parse(fmt.Sprintf(f, v))
						} else {
							codes[k][v][e] = parse(fmt.Sprintf(f, v, e))
						}
					}
				}
			}
			for first := range ops {
				first := first
				gg.Case(fmt.Sprintf("bindings framed=%d values=%d %s", framed, shape.vals, ops[first].name), func(t *core.T) {
					idx := make([]int, shape.depth)
					idx[0] = first
					for {
						if t.Failed() || t.Expired() {
							return
						}
						// play the history
						outer := g.NewSymbolTableFrameBelow(g.Global, "mc")
						for v, d := range values {
							outer.BindToProtected(g.Intern(fmt.Sprintf("v%d", v)), d)
						}
						var envs [3]*g.SymbolTableFrame
						envs[0] = g.NewSymbolTableFrameBelow(outer, "a")
						m := model{}
						if framed == 1 {
							fr := &g.FrameMap{Data: map[string]*g.Data{"pv:": g.IntegerWithValue(77)}}
							envs[1] = g.NewSymbolTableFrameBelowWithFrame(envs[0], fr, "b")
							m.slot = "77"
						} else {
							envs[1] = g.NewSymbolTableFrameBelow(envs[0], "b")
						}
						envs[2] = g.NewSymbolTableFrameBelow(envs[1], "c")
						for e := range envs {
							outer.BindTo(g.Intern(fmt.Sprintf("e%d", e)), g.EnvironmentWithValue(envs[e]))
						}
						nearest := func(e int) int {
							for ; e >= 0; e-- {
								if m.e[e].has {
									return e
								}
							}
							return -1
						}
						for i, oi := range idx {
							o := ops[oi]
							val, want := values[o.value], canon(values[o.value])
							bad := false
							put := func(e int) {
								if bad = m.e[e].has && m.e[e].prot; !bad {
									m.e[e] = mb{val: want, has: true}
								}
							}
							switch near := nearest(o.env); o.kind {
							case 0:
								if near < 0 {
									near = o.env
								}
								m.e[near] = mb{want, true, true}
							case 1:
								if near < 0 {
									near = o.env
								}
								put(near)
							case 2, 5:
								switch {
								case m.e[o.env].has:
									put(o.env)
								case m.slot != "" && o.env > 0:
									m.slot = want
								case near >= 0:
									put(near)
								default:
									bad = true
								}
							case 3, 4, 6:
								put(o.env)
							case 7:
								if near >= 0 {
									put(near)
								}
							}
							var err error
							switch e := envs[o.env]; o.kind {
							case 0:
								e.BindToProtected(pv, val)
							case 1:
								_, err = e.BindTo(pv, val)
							case 2:
								_, err = e.SetTo(pv, val)
							case 3:
								_, err = e.BindLocallyTo(pv, val)
							default:
								_, err = g.Eval(codes[o.kind][o.value][o.env], e)
							}
							t.Steps(1)
							hist := func() string {
								var h []string
								for _, x := range idx[:i+1] {
									h = append(h, ops[x].name)
								}
								return strings.Join(h, "; ")
							}
							if bad != (err != nil) {
								t.Fail("binding", "%s: error %v, should be %v (%v)", hist(), err != nil, bad, err)
							}
							for e := range envs {
								b, has := envs[e].BindingNamed("pv")
								if has != m.e[e].has {
									t.Fail("binding", "%s: scope %d has its own binding: %v, should be %v", hist(), e, has, m.e[e].has)
								} else if has && (canon(b.Val) != m.e[e].val || b.Protected != m.e[e].prot) {
									t.Fail("binding", "%s: in scope %d the binding is %s, protected %v; should be %s, %v", hist(), e, canon(b.Val), b.Protected, m.e[e].val, m.e[e].prot)
								}
								sees := "()"
								if near := nearest(e); near >= 0 {
									sees = m.e[near].val
								}
								if m.slot != "" && e > 0 && !m.e[e].has {
									sees = m.slot
								}
								if got := canon(envs[e].ValueOf(pv)); got != sees {
									t.Fail("binding", "%s: scope %d sees %s, should see %s", hist(), e, got, sees)
								}
							}
						}
						t.Trace(1)
						t.State(fmt.Sprint(framed, m))
						// the next history
						k := len(idx) - 1
						for ; k > 0; k-- {
							if idx[k]++; idx[k] < len(ops) {
								break
							}
							idx[k] = 0
						}
						if k == 0 {
							return
						}
						if idx[k]%16 == 0 {
							t.Progress()
						}
					}
				})
			}
		}
	}
}

// restricted primitives, with arguments that work where they are allowed
type restrictedCall struct{ name, args string }

func scratchDir(t *core.T) string {
	d, err := os.MkdirTemp("", "mcseq")
	if err != nil {
		panic(err)
	}
	return d
}

var escapes = []restrictedCall{
	{"global-eval", "'(mc-log 'escaped)"}, {"load", "file"}, {"exec", "\"true\""}, {"open-input-file", "file"}, {"open-output-file", "ofile"}, {"open-output-file", "ofile #t"}, {"close-port", "port"}, {"write-bytes", "[1 2] port"},
	{"environment-parent", "uenv"}, {"system-global-environment", ""}, {"make-top-level-environment", "'(a)"}, {"make-top-level-environment", "\"nm\" '(a) '(1)"}, {"find-top-level-environment", "\"mc\""}, {"debug-on-error", "#f"}, {"debug-on-error", ""}, {"add-debug-on-entry", "ufn"}, {"panic!", "\"boom\""}, {"debug", ""},
}

var callForms = []string{"(N A)", "(apply N (list A))", "(apply N A '())", "((car (list N)) A)", "(let ((q N)) (q A))", "((lambda (q) (q A)) N)", "((lambda () (N A)))", "(eval '(N A))", "(eval (list 'N AQ))", "(eval '(N A) (the-environment))", "(begin (define q N) (q A))", "(begin (define (q2) (N A)) (q2))", "((if #t N car) A)", "(-> N (apply (list A)))", "(macN)", "(begin (define (q9 . r) (apply N r)) (q9 A))", "(send {m: (lambda () (N A))} m:)", "(begin (define f3 (let ((z 1)) (lambda () (N A)))) (f3))", "(call-it (lambda () (N A)))", "(car (map (lambda (z) (N A)) '(1)))", "((named-lambda (nm) (N A)))", "(join (fork (lambda (p) (mc-log (begin (N A) 'escaped)))))", "(let loop ((i 0)) (if (< i 1) (loop (+ i 1)) (N A)))", "(do ((i 0 (+ i 1))) ((== i 1) (N A)))", "((procedure-wrap N) A)", "(let ((N N)) (N A))", "((mc-id N) A)", "(macw (N A))", "(eval (parse \"(N A)\"))", "((get-slot {s: N} s:) A)", "(apply-slot {m: (lambda () (N A))} m: ())", "((eval 'N) A)", "((environment-lookup (the-environment) 'N) A)"}

// for one argument: handed over by the library
var oneForms = []string{"(map N (list A))", "(for-each N (list A))", "(filter N (list A))", "(remove N (list A))", "(any N (list A))", "(every N (list A))", "(find N (list A))", "(find-tail N (list A))", "(partition N (list A))", "(reduce (lambda (x y) (N A)) 0 (list A A))", "(fold-left (lambda (x y) (N y)) 0 (list A))", "(-> A N)", "(=> A N)", "(-> A (N))", "(sort (list 1 2) (lambda (x y) (N A) #t))", "(map (lambda (x) (N x)) (list A))"}

func genC13(gg *core.G) {
	deep := gg.Thorough()
	setup := func(dir string) (*g.SymbolTableFrame, *g.SymbolTableFrame) {
		u := g.NewSymbolTableFrameBelow(g.Global, "mc")
		os.WriteFile(filepath.Join(dir, "in.lsp"), []byte("(mc-log 'escaped)\n"), 0600)
		for _, s := range []string{
			fmt.Sprintf("(define file %q)", filepath.Join(dir, "in.lsp")), fmt.Sprintf("(define ofile %q)", filepath.Join(dir, "out")),
			fmt.Sprintf("(define port (open-output-file %q))", filepath.Join(dir, "port")), "(define uenv (the-environment))", "(define (ufn) 1)", "(define (call-it th) (th))", "(define (procedure-wrap f) f)", "(defmacro (macw e) e)", "(define hook ())",
		} {
			if o := evalIn(u, s); o.err || o.panic != "" {
				panic(s + o.String())
			}
		}
		r := g.NewSymbolTableFrameBelow(u, "r")
		return u, r
	}
	finish := func(u *g.SymbolTableFrame, dir string) {
		evalIn(u, "(close-port port)")
		g.DebugOnError = false
		os.RemoveAll(dir)
	}
	build := func(form string, c restrictedCall) string {
		s := strings.ReplaceAll(form, "macN", "mac-n")
		s = strings.ReplaceAll(s, "AQ", "A")
		s = strings.ReplaceAll(s, "N", c.name)
		s = strings.ReplaceAll(s, "A", c.args)
		if form == "(eval (parse \"(N A)\"))" {
			s = "(eval (parse \"(" + c.name + " " + strings.ReplaceAll(c.args, "\"", "\\\"") + ")\"))"
		}
		return s
	}
	// try evaluates body (which holds the call) in the environment; it tells
	// whether the call came back or did something.
	try := func(e *g.SymbolTableFrame, c restrictedCall, body string) (bool, outcome) {
		effects = effects[:0]
		evalIn(e, "(defmacro (mac-n) '("+c.name+" "+c.args+"))")
		o := evalIn(e, body)
		esc := strings.Contains(o.panic, "boom")
		for _, x := range effects {
			if x == "escaped" {
				esc = true
			}
		}
		return esc, o
	}
	mark := func(call string) string {
		if strings.Contains(call, "fork") {
			return call
		}
		return "(mc-log (begin " + call + " 'escaped))"
	}
	for _, c := range escapes {
		c := c
		forms := append([]string{}, callForms...)
		if strings.Count(c.args, " ") == 0 && c.args != "" || c.name == "global-eval" || c.args == "'(a)" {
			forms = append(forms, oneForms...)
		}
		gg.Case("forms "+c.name+" "+c.args, func(t *core.T) {
			for fi, f := range forms {
				if f == "(eval (list 'N AQ))" && strings.Contains(c.args, "'") {
					continue
				}
				call := build(f, c)
				t.Progress()
				for _, how := range []string{"restricted", "inside a let", "inside a function", "below"} {
					dir := scratchDir(t)
					u, r := setup(dir)
					esc := func(e *g.SymbolTableFrame, body string) (bool, outcome) { return try(e, c, body) }
					body := mark(call)
					var e = r
					switch how {
					case "restricted":
						evalIn(r, "(restrict-environment)")
					case "inside a let":
						body = "(let ((z 1)) (restrict-environment) " + body + ")"
					case "inside a function":
						body = "((lambda (z) (restrict-environment) " + body + ") 1)"
					case "below":
						evalIn(r, "(restrict-environment)")
						e = g.NewSymbolTableFrameBelow(r, "rr")
					}
					if strings.Contains(call, "the-environment") && how != "restricted" {
						finish(u, dir)
						continue
					}
					if got, o := esc(e, body); got {
						t.Fail("escape", "restricted code (%s): %s runs %s (%s)", how, call, c.name, o)
					}
					t.Trace(1)
					t.Steps(2)
					// the same is allowed where nothing is restricted
					if how == "restricted" && fi < len(callForms) && c.name != "debug" && c.name != "panic!" {
						fresh := g.NewSymbolTableFrameBelow(u, "v")
						if got, o := esc(fresh, mark(call)); !got && c.name != "close-port" {
							if !strings.Contains(call, "the-environment") && f != "(find N (list A))" && f != "(find-tail N (list A))" && f != "(join (fork (lambda (p) (mc-log (begin (N A) 'escaped)))))" && c.name != "write-bytes" {
								t.Fail("over", "unrestricted code beside restricted code: %s does not run %s (%s)", call, c.name, o)
							}
						}
					}
					t.State(c.name + f + how)
					finish(u, dir)
				}
			}
		})
		// handed out of the restricted code and called from outside
		gg.Case("hook "+c.name+" "+c.args, func(t *core.T) {
			for _, f := range forms {
				call := build(f, c)
				if strings.Contains(call, "the-environment") || f == "(eval (list 'N AQ))" {
					continue
				}
				dir := scratchDir(t)
				u, r := setup(dir)
				evalIn(r, "(restrict-environment)")
				evalIn(r, "(set! hook (lambda () "+mark(call)+"))")
				if got, o := try(u, c, "(hook)"); got && !strings.Contains(call, "mac-n") {
					t.Fail("escape", "a function made by restricted code, called from outside: %s runs %s (%s)", call, c.name, o)
				}
				evalIn(r, "(set! hook {p*: {z: 1} m: (lambda () "+mark(call)+")})")
				if got, o := try(u, c, "(send hook m:)"); got && !strings.Contains(call, "mac-n") {
					t.Fail("escape", "a method made by restricted code, called from outside: %s runs %s (%s)", call, c.name, o)
				}
				t.Trace(2)
				finish(u, dir)
			}
		})
	}
	// in every context of the language, and context in context
	ctxs := append(append([]string{}, exprTemplates...), errContexts...)
	few := []restrictedCall{{"global-eval", "'(mc-log 'escaped)"}, {"system-global-environment", ""}, {"load", "file"}, {"environment-parent", "uenv"}}
	pre := append(strings.Split(evalPrelude, "|"), "(define fr {s: 1})", "(define ls (list 1 2 3))", "(defmacro (mac a b) (list 'list a 1 b))")
	put := func(tpl string, h int, s string) string {
		v := make([]string, holes(tpl))
		for i := range v {
			v[i] = "1"
			if i == h {
				v[i] = s
			}
		}
		return fill(tpl, v)
	}
	for _, o := range ctxs {
		for h := 0; h < holes(o); h++ {
			o, h := o, h
			gg.Case(fmt.Sprintf("context %s %d", o, h), func(t *core.T) {
				dir := scratchDir(t)
				u, _ := setup(dir)
				defer finish(u, dir)
				for _, c := range few {
					for _, form := range []string{"(N A)", "(apply N (list A))", "((lambda () (N A)))"} {
						r := g.NewSymbolTableFrameBelow(u, "r")
						for _, p := range pre {
							evalIn(r, p)
						}
						evalIn(r, "(restrict-environment)")
						body := put(o, h, mark(build(form, c)))
						if got, out := try(r, c, body); got {
							t.Fail("escape", "restricted code: %s runs %s (%s)", body, c.name, out)
						}
						t.Trace(1)
						t.Steps(1)
					}
				}
				for _, in := range ctxs {
					for h2 := 0; h2 < holes(in); h2++ {
						if t.Failed() || t.Expired() {
							return
						}
						body := put(o, h, put(in, h2, mark("(global-eval '(mc-log 'escaped))")))
						diffOpt(t, Prog{Src: append(append([]string{}, pre...), "(restrict-environment)", body)}, 20000, "")
					}
				}
			})
		}
	}
	// everything else works in restricted code as it does elsewhere
	for _, tpl := range exprTemplates {
		tpl := tpl
		gg.Case("allowed "+tpl, func(t *core.T) {
			al := []string{"x", "(mc-tick)", "#f", "(f 1)"}
			if !deep {
				al = al[:3]
			}
			power(al, holes(tpl), func(v []string) {
				p := evalProg(fill(tpl, v))
				p.Src = append([]string{"(restrict-environment)"}, p.Src...)
				diff(t, p)
			})
		})
	}
	// how far a restriction reaches: all placements in nested scopes
	parts := []string{"(restrict-environment)", "(mc-log (on-error (environment? (system-global-environment)) (lambda (m) 'no)))", "(mc-log (on-error (global-eval '(list 7)) (lambda (m) 'no)))", "(set! k (lambda () (on-error (global-eval '(list 8)) (lambda (m) 'no))))", "(mc-log (k))", "(mc-log (on-error (environment? (procedure-environment top)) (lambda (m) 'no)))", "(mc-log (on-error (environment? (procedure-environment k)) (lambda (m) 'no)))"}
	shapes := []string{"_|_|_", "(let () _ _)|_", "_|(let () _ _)", "((lambda () _ _))|_", "(let () _ (let () _) _)", "(define (fn) _ _)|(fn)|_", "(let ((th (lambda () _))) _ (th) _)", "(let () (define (fn) _) _ (fn))|_", "(send {m: (lambda () _ _)} m:)|_", "(map (lambda (z) _ _) '(1 2))|_", "(begin _ _)|_", "(eval '(begin _ _))|_", "(on-error (begin _ (error \"x\")) (lambda (m) _))|_"}
	for _, s := range shapes {
		s := s
		gg.Case("reach "+s, func(t *core.T) {
			power(parts, holes(s), func(v []string) {
				src := []string{"(define k (lambda () (on-error (global-eval '(list 9)) (lambda (m) 'no))))", "(define (top) 1)"}
				src = append(src, strings.Split(fill(s, v), "|")...)
				src = append(src, parts[1], "(k)")
				diff(t, Prog{Src: src})
			})
		})
	}
}
