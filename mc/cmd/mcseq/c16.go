package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C16", Level: "model_checking", Chunk: 1, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every bounded call, well-formed or not, ends with a value or an error: no Go panic, no crash, no endless loop",
		Assumptions: []string{"sizes that exhaust memory, recursion without end and cyclic structures are outside the property"}, Gen: genC16, Init: inScratch,
	})
}

// inScratch moves the process into a directory of its own.
func inScratch() {
	d, err := os.MkdirTemp("", "mcseq")
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(d); err != nil {
		panic(err)
	}
}

// what ends the process or waits on purpose, or talks to a terminal
var notTotal = map[string]bool{"quit": true, "panic!": true, "debug": true, "debug-on-error": true, "debug-on-entry": true, "add-debug-on-entry": true, "remove-debug-on-entry": true, "profile": true, "lisp-trace": true, "debug-trace": true}

var noBig = map[string]bool{"make-list": true, "interval": true, "make-channel": true, "sleep": true, "schedule": true, "proc-sleep": true}

func special(n string) bool {
	d := g.Global.Bindings[n].Val
	return g.PrimitiveP(d) && g.PrimitiveValue(d).Special
}

func genC16(gg *core.G) {
	deep := gg.Thorough()
	plain := []string{"0", "1", "-1", "5", "1.5", "\"\"", "\"a~a b\"", "'sym", "'key:", "#t", "()", "'(1 2)", "'(1 . 2)", "'((a . 1) (b . 2))", "[1 2]", "{a: 1}", "(lambda (x) x)", "(lambda () 1)", "car", "(the-environment)", "(list 'quote 'x)", "(list \"x\" \"y\")", "(alist '((a . 1)))", "(mc-host)", "(atomic 5)", "(fork (lambda (p) p))"}
	big := []string{"9223372036854775807", "-9223372036854775808", "4294967296", "(/ 1.0 0.0)"}
	few := []string{"0", "-1", "\"a~a\"", "'sym", "()", "'(1 2)", "{a: 1}", "(lambda (x) x)", "'key:", "1.5", "#f"}
	code := []string{"0", "x", "()", "(x)", "(x 1)", "((x 1))", "((x 1) (y 2))", "\"s\"", "x:", "(lambda (x) x)", "(1 . 2)", "((x) 1)", "[1]", "{a: 1}", "#f", "else", "(else 1)", "'x", "(else)", "(x . y)", "((1 2) 3)", "5.5", "=>", "(())", "((()))", "(5)", "((5 1))", "((x 1 2))", "((x . 1))", "(x (y 1))"}
	try := func(t *core.T, src string) {
		if t.Expired() || t.Failed() {
			return
		}
		t.Progress()
		env := freshEnv()
		evalIn(env, "(define x 5)")
		o := evalIn(env, src)
		if o.panic != "" {
			t.Fail("panic", "%s: %s", src, o)
		}
		t.Trace(1)
		t.Steps(1)
		t.State(src + o.val)
	}
	texts := []string{"\"~\"", "\"~v%\"", "\"~v~~\"", "\"~v~\"", "\"~va~v@s\"", "\"~1\"", "\"~#%~@\"", "\"~99999999999999999999a\"", "\"~\\n\"", "\"[\"", "\"*[\"", "\"{\\\"a\"", "\"[1e999, -1e999]\"", "\"{\\\"\\\": {}}\"", "\"(\"", "\"'\"", "\"0x\"", "\"-\"", "\"a\\n\"", "\"\u00e9\u00df\"", "(list->string* 0)", "(string-append* 0)", "(parse \"(1 . 2)\")", "(list \"a\" 'b 1.5 () #t)", "'(() . ())", "'((1 . 2) (3) 4)", "(alist '((a . 1) (b)))", "'(a . (b . c))", "'((a) . b)", "'a*:", "':", "(let ((c (make-channel 2))) (channel-write c 1) c)", "(atomic 1)", "[]", "{}", "{p*: {a: 1} b*: 5}", "(make-top-level-environment \"m\")", "(lambda x x)", "(lambda (a b) (error \"e\"))"}
	keep := texts[:0]
	for _, x := range texts {
		if evalIn(freshEnv(), x).panic == "" && !evalIn(freshEnv(), x).err {
			keep = append(keep, x)
		}
	}
	texts = keep
	for _, n := range protectedNames() {
		if notTotal[n] || !g.PrimitiveP(g.Global.Bindings[n].Val) {
			continue
		}
		n := n
		al := plain
		if !noBig[n] {
			al = cat(plain, big)
		}
		if n == "exec" {
			al = []string{"0", "'sym", "()", "'(1 2)", "{a: 1}", "1.5", "#t", "[1]"}
		}
		fw := few
		if n == "do" {
			// a loop whose test stays false does not end
			gg.Case("syntax do", func(t *core.T) {
				tests := []string{"(#t)", "(#t 1)", "(#t . 1)", "(5)", "5", "\"s\"", "(5 1 2)", "(1 . 2)", "((5 1))", "[1]", "{a: 1}", "((lambda (x) x))"}
				for _, a := range code {
					for _, b := range tests {
						try(t, "(do "+a+" "+b+")")
						try(t, "(do "+a+" "+b+" . 1)")
						for _, c := range code {
							try(t, "(do "+a+" "+b+" "+c+")")
						}
					}
					try(t, "(do "+a+")")
					try(t, "(do . "+a+")")
				}
				try(t, "(do)")
			})
			continue
		}
		if n == "exec" {
			fw = al
		}
		for _, p := range []string{"", "apply "} {
			p := p
			if p != "" && special(n) {
				continue
			}
			gg.Case(fmt.Sprintf("%s%s 0-2", p, n), func(t *core.T) {
				for k := 0; k <= 2; k++ {
					power(al, k, func(v []string) {
						if p == "" {
							try(t, "("+n+" "+strings.Join(v, " ")+")")
						} else {
							try(t, "(apply "+n+" (list "+strings.Join(v, " ")+"))")
						}
					})
				}
			})
		}
		gg.Case(n+" 3", func(t *core.T) {
			a := al
			if n == "exec" || noBig[n] && !deep {
				a = fw
			}
			power(a, 3, func(v []string) { try(t, "("+n+" "+strings.Join(v, " ")+")") })
		})
		gg.Case(n+" many", func(t *core.T) {
			k := 4
			if deep {
				k = 6
			}
			power(fw[:6], k, func(v []string) { try(t, "("+n+" "+strings.Join(v, " ")+")") })
			for _, k := range []int{6, 7, 64, 65} {
				for _, a := range fw {
					try(t, "("+n+rep(k, func(int) string { return " " + a })+")")
				}
			}
		})
		// text with a structure of its own
		if n != "exec" && !special(n) {
			gg.Case(n+" texts", func(t *core.T) {
				for _, x := range texts {
					try(t, "("+n+" "+x+")")
					for _, a := range few {
						try(t, "("+n+" "+x+" "+a+")")
						try(t, "("+n+" "+a+" "+x+")")
						for _, b := range few {
							try(t, "("+n+" "+x+" "+a+" "+b+")")
							try(t, "("+n+" "+a+" "+x+" "+b+")")
							try(t, "("+n+" "+a+" "+b+" "+x+")")
						}
					}
					for _, y := range texts {
						try(t, "("+n+" "+x+" "+y+")")
					}
				}
			})
		}
		// dotted calls
		gg.Case(n+" dotted", func(t *core.T) {
			for _, a := range fw {
				for _, b := range fw {
					try(t, "("+n+" . "+a+")")
					try(t, "("+n+" "+a+" . "+b+")")
				}
			}
			try(t, "(map "+n+" '(1 2))")
			try(t, "(map "+n+" '(() x))")
			try(t, "(-> 5 "+n+")")
			try(t, "(-> x ("+n+"))")
			try(t, "(=> 5 "+n+" "+n+")")
			try(t, n)
			try(t, "(str "+n+")")
			try(t, "(list "+n+" "+n+")")
		})
		if special(n) || n == "expand" {
			gg.Case("syntax "+n, func(t *core.T) {
				for k := 0; k <= 2; k++ {
					power(code, k, func(v []string) { try(t, "("+n+" "+strings.Join(v, " ")+")") })
				}
				power(code, 3, func(v []string) {
					if n == "let" && strings.Contains(v[2], "("+v[0]) {
						return // recursion without end
					}
					try(t, "("+n+" "+strings.Join(v, " ")+")")
				})
			})
		}
	}
	// arbitrary text: it reads and evaluates or is an error
	toks := []string{"(", ")", "[", "]", "{", "}", "'", "`", ",", ",@", " . ", "x", " 1", "\"", ";", "#", "a:", "\\", "if ", "\n", "#t", "-"}
	k := 5
	if deep {
		k = 6
	}
	for _, a := range toks {
		for _, b := range toks {
			a, b := a, b
			gg.Case("text "+a+b, func(t *core.T) {
				words(toks, k-2, func(v []string) { try(t, a+b+strings.Join(v, "")) })
			})
		}
	}
	// calls of anything
	gg.Case("call anything", func(t *core.T) {
		for _, f := range cat(plain, big, []string{"x", "undefd", "a:", "a:!", "a:?", "a:>", "a:^", "<-", "x<-", "<-x", "<-5", ":", ":!", "*:", "p*:", "a:b:", "->", "=>", ".", "..", "...", "+:", "'", "(quote)", "(quote 1 2)"}) {
			for kk := 0; kk <= 3; kk++ {
				power(few, kk, func(v []string) { try(t, "("+f+" "+strings.Join(v, " ")+")") })
			}
		}
	})
}
