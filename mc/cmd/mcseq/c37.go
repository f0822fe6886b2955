package main

import (
	"os"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C37", Level: "model_checking", Chunk: 4, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every value of the pool, taken through every bounded composition of ways to hand a value on, satisfies exactly the predicates of its kind",
		Assumptions: []string{"the table of kinds states the intended answers"},
		Gen:         genC37, Init: inScratch,
	})
}

// kindTests are the predicates that hold for each kind, in lisp and in Go.
var kindTests = map[string]string{
	"integer":     "atom? integer? number? notnil? notnull? IntegerP NumberP NotNilP Integer",
	"float":       "atom? float? number? notnil? notnull? FloatP NumberP NotNilP Float",
	"string":      "atom? string? notnil? notnull? StringP NotNilP String",
	"symbol":      "atom? symbol? notnil? notnull? SymbolP NotNilP Symbol",
	"naked":       "atom? symbol? notnil? notnull? SymbolP NakedP NotNilP Symbol",
	"boolean":     "atom? boolean? notnil? notnull? BooleanP NotNilP Boolean",
	"nil":         "list? pair? nil? null? NilP PairP ListP",
	"list":        "list? pair? notnil? notnull? PairP ListP NotNilP List",
	"alist":       "alist? notnil? notnull? AlistP ListP NotNilP",
	"bytes":       "bytearray? notnil? notnull? ObjectP NotNilP",
	"frame":       "frame? notnil? notnull? FrameP NotNilP Frame",
	"function":    "function? notnil? notnull? FunctionP FunctionOrPrimitiveP NotNilP Function",
	"primitive":   "function? notnil? notnull? PrimitiveP FunctionOrPrimitiveP NotNilP Primitive",
	"macro":       "macro? notnil? notnull? MacroP NotNilP Macro",
	"environment": "environment? notnil? notnull? EnvironmentP NotNilP Environment",
	"port":        "port? notnil? notnull? PortP NotNilP Port",
	"object":      "notnil? notnull? ObjectP NotNilP",
	"eof":         "atom? symbol? eof-object? notnil? notnull? SymbolP NotNilP Symbol",
}

var kindPreds = strings.Fields("atom? list? pair? alist? nil? null? notnil? notnull? symbol? string? integer? number? float? function? macro? frame? bytearray? port? boolean? environment? eof-object?")

var goPreds = []struct {
	name string
	f    func(*g.Data) bool
}{{"NilP", g.NilP}, {"NotNilP", g.NotNilP}, {"PairP", g.PairP}, {"ListP", g.ListP}, {"AlistP", g.AlistP}, {"BooleanP", g.BooleanP}, {"SymbolP", g.SymbolP}, {"NakedP", g.NakedP},
	{"StringP", g.StringP}, {"IntegerP", g.IntegerP}, {"FloatP", g.FloatP}, {"NumberP", g.NumberP}, {"ObjectP", g.ObjectP}, {"FunctionOrPrimitiveP", g.FunctionOrPrimitiveP},
	{"FunctionP", g.FunctionP}, {"PrimitiveP", g.PrimitiveP}, {"MacroP", g.MacroP}, {"FrameP", g.FrameP}, {"EnvironmentP", g.EnvironmentP}, {"PortP", g.PortP}}

const kindPool = `integer 0|integer 5|integer -9223372036854775808|integer #xff|integer (+ 1 2)|integer (length '(1))|integer (string->number "12")
float 1.5|float (+ 1 0.5)|float 0.0|float nan|float +inf|float pi|float (float 3)|float (sqrt 4)
string ""|string "a"|string "5"|string "()"|string (str 1 2)|string (string-upcase "a")|string (number->string 5)|string (format #f "x")
symbol 'a|symbol '+|symbol (intern "x y")|symbol (gensym)|symbol 'quote|symbol '...|symbol (intern "")
naked 'a:|naked a:|naked 'parent*:|naked (gensym-naked)|naked (intern "q:")
boolean #t|boolean #f|boolean (not 1)|boolean (== 1 1)|boolean (null? 1)
nil ()|nil '()|nil nil|nil (list)|nil (cdr '(1))|nil (car '())|nil unbound-name|nil (if #f 1)|nil (json->lisp "null")|nil (when #f 1)
list '(1)|list (list 1 2 3)|list '(())|list (cons 1 2)|list '(1 2 . 3)|list '((a . 1))|list (list ())|list ''a|list (map succ '(1))|list (frame-keys {a: 1})|list (json->lisp "[1]")|list '(quote)|list '(lambda (x) x)
alist (acons 'a 1 ())|alist (alist '((a . 1)))|alist (acons 'b 2 (acons 'a 1 ()))|alist (pairlis '(a b) '(1 2))
bytes [1 2]|bytes []|bytes (list-to-bytearray '(1))|bytes (append-bytes [1] [2])
frame {}|frame {a: 1}|frame (make-frame a: 1)|frame {p*: {a: 1}}|frame (clone {a: 1})|frame (json->lisp "{}")
function (lambda () 1)|function (lambda (x . y) 1)|function f37|function (named-lambda (n) 1)
primitive car|primitive if|primitive lambda|primitive global-eval|primitive map|primitive quote
macro m37
environment (system-global-environment)|environment (make-top-level-environment '(a) '(1))
port (open-input-file "p37")|port (open-output-file "p37o")
object (make-channel)|object (make-channel 3)|object (atomic 4)|object (fork (lambda (p) 1))|object (mc-host)|object (schedule 10 (lambda (p) 1))
eof (let ((p (open-input-file "p37"))) (read p))|eof '__EOF__`

func genC37(gg *core.G) {
	deep := gg.Thorough()
	ways := []string{"_", "(car (list _))", "(cadr (list 1 _))", "(cdr (cons 1 _))", "(get-slot {s: _} s:)", "(s: {s: _})", "((lambda (x) x) _)", "((lambda (x . r) (car r)) 1 _)", "(let ((c (make-channel 1))) (channel-write c _) (car (channel-read c)))",
		"(join (fork (lambda (p x) x) _))", "(apply (lambda (x) x) (list _))", "(car (map (lambda (x) x) (list _)))", "(eval (list 'quote _))", "(car `(,_))", "(begin (define q _) q)", "(let ((x 1)) (set! x _) x)",
		"(on-error _ (lambda (e) 'failed))", "(let* ((f {s: 1})) (set-slot! f s: _) (get-slot f s:))", "(let ((l (list 1))) (set-car! l _) (car l))", "(cdr (assoc 'k (acons 'k _ ())))", "(let ((e (make-top-level-environment '(z) '(1)))) (environment-assign! e 'z _) (environment-lookup e 'z))", "(copy _)", "(do ((x _ x) (i 0 (+ i 1))) ((== i 2) x))", "(find (lambda (x) #t) (list _))", "(cond (#t _))"}
	for _, line := range strings.Split(kindPool, "\n") {
		kind := line[:strings.Index(line, " ")]
		for _, entry := range strings.Split(line, "|") {
			src := strings.TrimPrefix(entry, kind+" ")
			kind, src := kind, src
			gg.Case(kind+" "+src, func(t *core.T) {
				os.WriteFile("p37", nil, 0600)
				env := freshEnv()
				evalIn(env, "(define (f37 x) x)")
				evalIn(env, "(defmacro (m37 x) x)")
				holds := map[string]bool{}
				for _, p := range strings.Fields(kindTests[kind]) {
					holds[p] = true
				}
				test := func(e string) {
					if t.Failed() || t.Expired() {
						return
					}
					t.Progress()
					want := make([]string, len(kindPreds))
					for i, p := range kindPreds {
						want[i] = map[bool]string{true: "#t", false: "#f"}[holds[p]]
					}
					o := evalIn(env, "(let ((v37 "+e+")) (list ("+strings.Join(kindPreds, " v37) (")+" v37)))")
					t.Trace(1)
					t.Steps(len(kindPreds))
					if o.val != "("+strings.Join(want, " ")+")" {
						t.Fail("kind", "%s is a %s; %s for it give %s, should give (%s)", e, kind, strings.Join(kindPreds, " "), o, strings.Join(want, " "))
						return
					}
					d, err := g.ParseAndEvalInEnvironment(e, env)
					if err != nil {
						t.Fail("kind", "%s: %s", e, err)
						return
					}
					for _, p := range goPreds {
						if p.f(d) != holds[p.name] && !(kind == "nil" && p.name == "AlistP") { // () may be an empty list of any kind
							t.Fail("go", "%s is a %s; %s is %v for it", e, kind, p.name, p.f(d))
							return
						}
					}
					if n := g.TypeName(g.TypeOf(d)); kind != "nil" && kind != "alist" && kind != "bytes" && kind != "object" && !holds[n] {
						t.Fail("go", "%s is a %s; its type name is %s", e, kind, n)
						return
					}
					t.State(e)
				}
				for _, w := range ways {
					if skipWay(w, kind) {
						continue
					}
					e := strings.Replace(w, "_", src, 1)
					test(e)
					for _, w2 := range ways {
						if !deep && w2 != ways[1] && w2 != ways[4] && w2 != ways[6] && w2 != ways[8] || skipWay(w2, kind) {
							continue
						}
						test(strings.Replace(w2, "_", e, 1))
					}
				}
			})
		}
	}
}

// ways that are not open to values of a kind: objects are not copied, a macro
// is not looked up in an environment
func skipWay(w, kind string) bool {
	return strings.Contains(w, "(copy") && (kind == "object" || kind == "environment" || kind == "port") ||
		strings.Contains(w, "environment-lookup") && kind == "macro"
}
