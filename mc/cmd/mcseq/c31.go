package main

import (
	"fmt"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C31", Level: "model_checking", Chunk: 1, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every function, macro and primitive called with every bounded number of arguments accepts exactly the numbers it is defined for, and evaluates each argument once, in order, or none, also when one expression object stands in several places",
		Assumptions: []string{"the table of argument numbers"}, Gen: genC31, Init: inScratch,
	})
}

// arityTable: name, number of arguments, S if the arguments are not evaluated.
const arityTable = `acons 2|3; pairlis 2|3; assq 2; assv 2; assoc 2; dissoc 2; rassoc 2; alist 1; binary-and 2; binary-or 2; binary-not 1; left-shift 2; right-shift 2; list-to-bytearray 1; list->bytearray 1; bytearray-to-list 1; bytearray->list 1; replace-byte 3; replace-byte! 3; extract-byte 2; append-bytes *; append-bytes! *; extract-bytes 3; make-channel 0|1; channel-write 2; channel-read 1; channel-try-write 2; channel-try-read 1; close-channel 1; fork >=1; proc-sleep 2; wake 1; schedule >=2; reset-timeout 1; abandon 1; join 1; atomic 0|1; atomic-load 1; atomic-store! 2; atomic-add! 2; atomic-swap! 2; atomic-compare-and-swap! 3; debug-trace 0|1; lisp-trace 0|1; debug-on-entry 0; remove-debug-on-entry 1; dump 0; debug 0; debug-on-error 0|1; add-debug-on-entry 1; environment? 1; environment-has-parent? 1; environment-bound-names 1; environment-macro-names 1; environment-bindings 1; environment-reference-type 2; environment-bound? 2; environment-assigned? 2; environment-lookup 2; environment-lookup-macro 2; environment-assignable? 2; environment-assign! 3; environment-definable? 2; environment-define 3; the-environment 0; procedure-environment 1; restrict-environment 0; environment-parent 1; system-global-environment 0; make-top-level-environment 1|2|3; find-top-level-environment 1; make-frame *; has-slot? 2; get-slot 2; get-slot-or-nil 2; remove-slot! 2; set-slot! 3; send >=2; send-super >=1; apply-slot >=3 S; apply-slot-super >=2 S; clone 1; json->lisp 1; lisp->json 1; frame-keys 1; frame-values 1; open-input-file 1; open-output-file 1|2; close-port 1; write-bytes 2; write-string 1|2; newline 0|1; write 1|2; read 1; eof-object? 1; list-directory 1|2; format >=2; car 1; head 1; cdr 1; rest 1; tail 1; caar 1; cadr 1; cdar 1; cddr 1; caaar 1; caadr 1; cadar 1; caddr 1; cdaar 1; cdadr 1; cddar 1; cdddr 1; caaaar 1; caaadr 1; caadar 1; caaddr 1; cadaar 1; cadadr 1; caddar 1; cadddr 1; cdaaar 1; cdaadr 1; cdadar 1; cdaddr 1; cddaar 1; cddadr 1; cdddar 1; cddddr 1; general-car-cdr 2; first 1; second 1; third 1; fourth 1; fifth 1; sixth 1; seventh 1; eighth 1; ninth 1; tenth 1; nth 2; take 2; drop 2; list-ref 2; list-head 2; list-tail 2; last-pair 1; map >=2; for-each >=2; any >=2; every >=2; reduce 3; reduce-left 3; reduce-right 3; fold-left 3; fold-right 3; filter 2; remove 2; memq 2; memv 2; member 2; memp 2; find-tail 2; find 2; list *; make-list 1|2; length 1; cons 2; cons* >=1; reverse 1; flatten 1; flatten* 1; append *; append! 2 S; copy 1; partition 2; sublist 3; sort 2; union *; intersection *; complement *; quote 1 S; quasiquote 1 S; unquote 1 S; unquote-splicing 1 S; expand >=1 S; + *; - *; * *; / *; succ 1; pred 1; quotient *; % 2; modulo 2; random-byte 0; interval 1|2|3; integer 1; float 1; number->string 1|2; string->number 1|2; min 1; max 1; floor 1; ceiling 1; abs 1; zero? 1; positive? 1; negative? 1; even? 1; odd? 1; sign 1; pow 2; inf? 1; nan? 1; float->bits 1; bits->float 1; set! 2 S; set-car! 2 S; set-cdr! 2 S; set-nth! 3 S; < 2; > 2; == 2; eqv? 2; eq? 2; equal? 2; != 2; neq? 2; <= 2; >= 2; ! 1; not 1; and * S; or * S; cond * S; case >=1 S; if 2|3 S; when >=2 S; unless >=2 S; lambda >=1 S; named-lambda >=1 S; define >=1 S; defmacro >=1 S; let >=1 S; let* >=1 S; letrec >=1 S; begin * S; do >=2 S; apply >=1; -> >=1 S; => >=1 S; definition-of 1 S; string-split 2; string-join 1|2; string-trim 1|2; string-trim-left 1|2; string-trim-right 1|2; string-upcase 1; string-upcase! 1; string-downcase 1; string-downcase! 1; string-capitalize 1; string-capitalize! 1; string-length 1; string-null? 1; substring 3; substring? 2; string-prefix? 2; string-suffix? 2; string=? 2; string-ci=? 2; string<? 2; string-ci<? 2; string>? 2; string-ci>? 2; string<=? 2; string-ci<=? 2; string>=? 2; string-ci>=? 2; parse 1; sleep 1; millis 0; write-line *; write-log *; str *; intern 1; quit 0; gensym 0|1; gensym-naked 0|1; eval 1|2; load 1; global-eval 1; panic! 1; error 1; on-error 2|3 S; time 1 S; profile 1|2 S; exec >=1; atom? 1; list? 1; pair? 1; alist? 1; nil? 1; null? 1; notnil? 1; notnull? 1; symbol? 1; string? 1; integer? 1; number? 1; float? 1; function? 1; macro? 1; frame? 1; bytearray? 1; port? 1; boolean? 1; `

var arityExtra = map[string]bool{}

func arityOf(spec string, n int) bool {
	for _, t := range strings.Split(spec, "|") {
		var a, b int
		switch {
		case t == "*":
			return true
		case strings.HasPrefix(t, ">="):
			fmt.Sscan(t[2:], &a)
			if n >= a {
				return true
			}
		case strings.HasPrefix(t, "("):
			fmt.Sscanf(t, "(%d,%d)", &a, &b)
			if a <= n && n <= b {
				return true
			}
		default:
			fmt.Sscan(t, &a)
			if n == a {
				return true
			}
		}
	}
	return false
}

var hostSeq int

func genC31(gg *core.G) {
	deep := gg.Thorough()
	max := 8
	if deep {
		max = 40
	}
	logs := func(n int) (src, log string) {
		return rep(n, func(i int) string { return fmt.Sprintf("(mc-log %d)", i+1) }), rep(n, func(i int) string { return num(i + 1) })
	}
	counts := func() []int {
		var r []int
		for i := 0; i <= max; i++ {
			r = append(r, i)
		}
		return append(r, 63, 64, 65, 127, 128, 129, 255, 256, 257)
	}
	try := func(t *core.T, src string) outcome {
		t.Progress()
		effects = effects[:0]
		t.Trace(1)
		t.Steps(1)
		o := evalIn(freshEnv(), src)
		t.State(src + o.val)
		return o
	}
	for _, e := range strings.Split(strings.TrimSuffix(strings.TrimSpace(arityTable), ";"), ";") {
		f := strings.Fields(e)
		name, spec, spc := f[0], f[1], len(f) > 2
		if name == "quit" || name == "debug" || name == "dump" {
			continue // they end or stop the program
		}
		arityExtra[name] = true
		gg.Case("primitive "+name, func(t *core.T) {
			for _, n := range counts() {
				src, log := logs(n)
				ok := arityOf(spec, n)
				if spc {
					if !ok {
						if o := try(t, "("+name+" "+src+")"); !o.err || len(effects) > 0 {
							t.Fail("accepted", "(%s ...) with %d arguments gives %s, log %v; it takes %s", name, n, o, effects, spec)
						}
					}
					continue
				}
				if ok && n > 40 && (name == "union" || name == "intersection") {
					continue
				}
				if strings.HasPrefix(name, "debug") || name == "lisp-trace" {
					if ok && n > 0 {
						continue
					}
				}
				o := try(t, "("+name+" "+src+")")
				got := strings.Join(effects, " ")
				switch {
				case ok && got != log:
					t.Fail("arguments", "(%s ...) with %d arguments, which it takes, evaluated %q, should evaluate %q; result %s", name, n, clip(got), clip(log), o)
				case !ok && (got != "" || !o.err):
					t.Fail("accepted", "(%s ...) with %d arguments gives %s, log %q; it takes %s", name, n, o, clip(got), spec)
				}
				if !ok && n < 12 {
					for _, a := range []string{"5", "()", "'(1 2)", "\"s\"", "{a: 1}", "'s", "car", "[1]"} {
						if o := try(t, "("+name+strings.Repeat(" "+a, n)+")"); !o.err {
							t.Fail("accepted", "(%s ...) with %d arguments %s gives %s", name, n, a, o)
						}
						if o := try(t, "(apply "+name+" (list"+strings.Repeat(" "+a, n)+"))"); !o.err {
							t.Fail("accepted", "(apply %s ...) with %d arguments %s gives %s", name, n, a, o)
						}
					}
				}
			}
			// one expression object in several places is evaluated for each of them
			if !spc {
				for n := 2; n <= 6; n++ {
					if !arityOf(spec, n) || strings.HasPrefix(name, "debug") || name == "lisp-trace" {
						continue
					}
					_, log := logs(n)
					for _, places := range []string{"e", "e o", "o e", "e e o", "e o o"} {
						pl := strings.Fields(places)
						src := "(let* ((k 0) (e '(begin (set! k (+ k 1)) (mc-log k))) (o '(mc-log (begin (set! k (+ k 1)) k)))) (eval (list '" + name + " " + rep(n, func(i int) string { return pl[i%len(pl)] }) + ")))"
						if o := try(t, src); strings.Join(effects, " ") != log {
							t.Fail("shared argument", "%s evaluated %v, should evaluate %s; result %s", src, effects, log, o)
						}
					}
				}
			}
			// an argument that fails stops the call and what follows it
			if !spc {
				for n := 1; n <= 6; n++ {
					if !arityOf(spec, n) {
						continue
					}
					for k := 0; k < n; k++ {
						src := rep(n, func(i int) string {
							if i == k {
								return "(error 1)"
							}
							return fmt.Sprintf("(mc-log %d)", i+1)
						})
						_, log := logs(k)
						if o := try(t, "("+name+" "+src+")"); !o.err || strings.Join(effects, " ") != log {
							t.Fail("arguments", "(%s %s) gives %s, log %v", name, src, o, effects)
						}
					}
				}
			}
		})
	}
	// functions and macros of the program
	for req := 0; req <= 5; req++ {
		for rest := 0; rest <= 1; rest++ {
			req, rest := req, rest
			gg.Case(fmt.Sprintf("function %d %d", req, rest), func(t *core.T) {
				ps := rep(req, func(i int) string { return "p" + num(i) })
				params := ps
				body := "(list " + ps + ")"
				if rest == 1 {
					params = ps + " . r"
					body = "(list " + ps + " r)"
					if req == 0 {
						params = ""
					}
				}
				for _, n := range counts() {
					if n > 140 {
						continue
					}
					src, _ := logs(n)
					plain := rep(n, func(i int) string { return num(i + 1) })
					lam := "(lambda (" + params + ") (mc-log 'in) " + body + ")"
					def := "(define (f " + params + ") (mc-log 'in) " + body + ")"
					mac := "(defmacro (m " + params + ") (mc-log 'in) (list 'quote " + body + "))"
					if rest == 1 && req == 0 {
						lam = "(lambda r (mc-log 'in) (list r))"
						def = "(define (f . r) (mc-log 'in) (list r))"
						mac = "(defmacro (m . r) (mc-log 'in) (list 'quote (list r)))"
					}
					progs := [][]string{
						{"(" + lam + " " + src + ")"}, {def, "(f " + src + ")"}, {def, "(apply f (list " + src + "))"}, {def, "(map f '(" + plain + "))"}, {def, "(on-error (f " + src + ") (lambda (e) (mc-log 'caught)))"},
						{mac, "(m " + src + ")"}, {mac, "(on-error (m " + src + ") (lambda (e) (mc-log 'caught)))"},
						{"(define fr {f: " + lam + "})", "(f: fr " + src + ")"}, {"(define fr {f: " + lam + "})", "(send fr f: " + src + ")"}, {"(define fr {f: " + lam + "})", "(apply-slot fr f: (list " + src + "))"},
						{def, "(-> 0 (f " + src + "))"}, {"(define f (named-lambda " + strings.Replace(def[len("(define "):], "", "", 1), "(f " + src + ")"},
					}
					if n > 1 && n < 7 {
						same := "(let* ((k 0) (e '(begin (set! k (+ k 1)) (mc-log k)))) (eval (list 'f" + strings.Repeat(" e", n) + ")))"
						progs = append(progs, []string{def, same}, []string{mac, strings.Replace(same, "'f", "'m", 1)})
					}
					for _, p := range progs {
						diff(t, Prog{Src: p})
					}
				}
			})
		}
	}
	// primitives of the host
	terms := []string{"0", "1", "2", "3", "10", "12", ">=0", ">=1", ">=3", ">=11", "(0,2)", "(2,4)", "(3,3)", "(1,10)", "(10,12)", "*"}
	for _, a := range terms {
		a := a
		gg.Case("host "+a, func(t *core.T) {
			words(terms, 2, func(v []string) {
				spec := strings.Join(append([]string{a}, v...), "|")
				hostSeq++
				name := fmt.Sprintf("mc-host-%d", hostSeq)
				sname := fmt.Sprintf("mc-form-%d", hostSeq)
				var seen []string
				var calls int
				var inEnv *g.SymbolTableFrame
				body := func(d *g.Data, env *g.SymbolTableFrame) (*g.Data, error) {
					calls++
					seen = nil
					for _, x := range g.ToArray(d) {
						seen = append(seen, canon(x))
					}
					inEnv = env
					return g.IntegerWithValue(77), nil
				}
				g.MakePrimitiveFunction(name, spec, body)
				g.MakeSpecialForm(sname, spec, body)
				for n := 0; n <= 14; n++ {
					src, log := logs(n)
					for _, form := range []bool{false, true} {
						ok := arityOf(spec, n)
						env := freshEnv()
						nm, wantSeen, wantLog := name, log, log
						if form {
							nm, wantSeen, wantLog = sname, src, ""
						}
						calls, seen, inEnv = 0, nil, nil
						effects = effects[:0]
						o := evalIn(env, "("+nm+" "+src+")")
						t.Progress()
						t.Trace(1)
						gotLog := strings.Join(effects, " ")
						if ok && (o.val != "77" || calls != 1 || strings.Join(seen, " ") != wantSeen || gotLog != wantLog || inEnv != env) {
							t.Fail("host", "a host function for %s arguments called with %d gives %s, called %d times with %v, log %q", spec, n, o, calls, seen, gotLog)
						}
						if !ok && (!o.err || calls > 0 || gotLog != "") {
							t.Fail("host", "a host function for %s arguments called with %d gives %s, called %d times, log %q", spec, n, o, calls, gotLog)
						}
						if !form {
							calls = 0
							o := evalIn(env, "(apply "+nm+" (list "+src+"))")
							if ok && (o.val != "77" || calls != 1 || strings.Join(seen, " ") != wantSeen) || !ok && (!o.err || calls > 0) {
								t.Fail("host", "a host function for %s arguments applied to %d gives %s, called %d times with %v", spec, n, o, calls, seen)
							}
						}
					}
				}
			})
		})
	}
	gg.Case("host errors", func(t *core.T) {
		g.MakePrimitiveFunction("mc-fails", "*", func(d *g.Data, env *g.SymbolTableFrame) (*g.Data, error) {
			return g.IntegerWithValue(1), fmt.Errorf("host error %s", canon(d))
		})
		for n := 0; n <= 4; n++ {
			src, log := logs(n)
			o := try(t, "(begin (mc-fails "+src+") (mc-log 9))")
			if !o.err || !strings.Contains(o.msg, "host error ("+log+")") && n > 0 || strings.Join(effects, " ") != log {
				t.Fail("host", "a failing host function gives %s, log %v", o, effects)
			}
			o = try(t, "(on-error (mc-fails "+src+") (lambda (e) 'caught))")
			if o.val != "caught" {
				t.Fail("host", "the error of a host function is not caught: %s", o)
			}
		}
	})
}

var _ = ref.Canon
