package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C33", Level: "model_checking", Chunk: 4, Stall: 40 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every program of the bounded families gives the same result and effects under profile, time and lisp-trace as the reference evaluator gives without, and the profile is exactly the reference's sequence of calls and returns",
		Assumptions: []string{"the reference evaluator in mc/ref states the intended semantics", "quote records are left out of the comparison: applying a primitive to values may quote them"},
		Gen:         genC33, Init: inScratch,
	})
}

var profLine = regexp.MustCompile(`^\{time: (-?\d+) guid: (\d+) mode: '(enter|exit) type: '(func|prim|form) name: '(.*)\}$`)

// readProfile parses a profile; what is wrong with it by itself comes back as bad.
func readProfile(file string, ordered bool) (events []string, bad string) {
	raw, err := ioutil.ReadFile(file)
	if err != nil {
		return nil, "no profile: " + err.Error()
	}
	text := string(raw)
	if text == "" {
		return nil, ""
	}
	if !strings.HasSuffix(text, "\n") {
		return nil, "the profile ends in the middle of a line"
	}
	type open struct{ guid, kind, name string }
	var stack []open
	running := map[string]open{}
	seen := map[string]bool{}
	last := int64(-1)
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		m := profLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Sprintf("line %q is no record", clip(l))
		}
		o := open{m[2], m[4], m[5]}
		if m[3] == "enter" {
			if seen[o.guid] {
				return nil, "two calls have the number " + o.guid
			}
			seen[o.guid] = true
			n, _ := strconv.ParseInt(o.guid, 10, 64)
			if ordered && n <= last {
				return nil, fmt.Sprintf("call number %d comes after %d", n, last)
			}
			last = n
			stack = append(stack, o)
			running[o.guid] = o
			if o.kind != "form" || o.name != "quote" {
				events = append(events, "+"+o.kind+" "+o.name)
			}
			continue
		}
		if r, ok := running[o.guid]; !ok || r != o {
			return nil, fmt.Sprintf("%q ends a call that is not running", l)
		}
		delete(running, o.guid)
		if ordered {
			if stack[len(stack)-1] != o {
				return nil, fmt.Sprintf("%q ends before a call inside of it", l)
			}
			stack = stack[:len(stack)-1]
		}
		if o.kind != "form" || o.name != "quote" {
			events = append(events, "-"+o.kind+" "+o.name)
		}
	}
	if len(running) > 0 {
		return nil, fmt.Sprintf("%d calls have no end", len(running))
	}
	return events, ""
}

var profSeq int

// silent runs f with the standard output going nowhere.
func silent(f func()) {
	old := os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	f()
}

// profiled compares a program with and without observation.
func profiled(t *core.T, setup []string, src string, watch []string) {
	profiledOpt(t, setup, src, watch, true)
}

func profiledOpt(t *core.T, setup []string, src string, watch []string, records bool) {
	if t.Expired() || t.Failed() {
		return
	}
	it := ref.NewInterp(20000)
	env := ref.NewEnv(it.Global, nil, "mc")
	want := func(s string) (outcome, bool) {
		v, err := it.EvalString(s, env)
		if err == ref.ErrBudget || it.Quirk != "" {
			return outcome{}, false
		}
		if err != nil {
			return outcome{err: true}, true
		}
		return outcome{val: ref.Canon(v)}, true
	}
	for _, s := range setup {
		if _, ok := want(s); !ok {
			t.Count("skipped")
			return
		}
	}
	var calls []string
	it.Prof = func(mark, kind, name string) {
		if kind != "form" || name != "quote" {
			calls = append(calls, mark+kind+" "+name)
		}
	}
	res, ok := want(src)
	it.Prof = nil
	if !ok {
		t.Count("skipped")
		return
	}
	var after []outcome
	for _, s := range watch {
		o, ok := want(s)
		if !ok {
			t.Count("skipped")
			return
		}
		after = append(after, o)
	}
	t.Progress()
	profSeq++
	file := fmt.Sprintf("profile-%d", profSeq)
	defer os.Remove(file)
	for _, mode := range []string{"profile", "time", "trace", "profile-out"} {
		tick, effects = 0, effects[:0]
		genv := freshEnv()
		for _, s := range setup {
			evalIn(genv, s)
		}
		var got outcome
		switch mode {
		case "profile":
			got = evalIn(genv, fmt.Sprintf("(profile %s %q)", src, file))
		case "profile-out":
			silent(func() { got = evalIn(genv, fmt.Sprintf("(profile %s)", src)) })
		case "time":
			got = evalIn(genv, fmt.Sprintf("(time %s)", src))
		case "trace":
			silent(func() {
				g.LispTrace = true
				got = evalIn(genv, src)
				g.LispTrace = false
			})
		}
		if g.ProfileEnabled {
			g.EndProfiling()
			t.Fail("left on", "%s: profiling stays on after %s", src, mode)
			return
		}
		if mode == "time" {
			if got.panic != "" || got.err != res.err {
				t.Fail("time", "(time %s) gives %s, the expression gives %s", src, clip(got.String()), clip(res.String()))
				return
			}
			if n, err := strconv.ParseInt(got.val, 10, 64); !got.err && (err != nil || n < 0) {
				t.Fail("time", "(time %s) gives %s", src, clip(got.String()))
				return
			}
		} else if !got.same(res) {
			t.Fail("result", "%s gives %s under %s, should give %s", src, clip(got.String()), mode, clip(res.String()))
			return
		}
		for i, s := range watch {
			if o := evalIn(genv, s); !o.same(after[i]) {
				t.Fail("state", "after %s under %s: %s gives %s, should give %s", src, mode, s, clip(o.String()), clip(after[i].String()))
				return
			}
		}
		if a, b := strings.Join(effects, " "), strings.Join(it.Log, " "); a != b || tick != it.Tick {
			t.Fail("effects", "%s under %s logged %s (ticks %d), should be %s (%d)", src, mode, clip(a), tick, clip(b), it.Tick)
			return
		}
		t.Trace(1)
		if mode != "profile" || !records {
			continue
		}
		events, bad := readProfile(file, true)
		if bad != "" {
			t.Fail("profile", "(profile %s): %s", src, bad)
			return
		}
		for i := 0; i < len(calls) || i < len(events); i++ {
			a, b := "nothing", "nothing"
			if i < len(events) {
				a = events[i]
			}
			if i < len(calls) {
				b = calls[i]
			}
			if a != b {
				t.Fail("records", "(profile %s): record %d is %s, should be %s", src, i+1, a, b)
				return
			}
		}
	}
	t.Steps(it.Steps)
	t.State(src + strings.Join(calls, "|"))
	if t.Idx%61 == 0 {
		t.Sample(clip(src + " => " + res.String() + ": " + strings.Join(calls, ", ")))
	}
}

// callTree turns a sequence of records into trees: the calls inside a call
// sorted by their text.
func callTree(calls []string) (tree string, counts map[string]int) {
	counts = map[string]int{}
	type node struct {
		text string
		in   []string
	}
	st := []node{{}}
	for _, c := range calls {
		if c[0] == '+' {
			f := strings.SplitN(c[1:], " ", 2)
			st = append(st, node{text: f[0] + " " + f[1]})
			counts[f[1]]++
			continue
		}
		n := st[len(st)-1]
		st = st[:len(st)-1]
		sort.Strings(n.in)
		st[len(st)-1].in = append(st[len(st)-1].in, n.text+" {"+strings.Join(n.in, ", ")+"}")
	}
	sort.Strings(st[0].in)
	return strings.Join(st[0].in, ", "), counts
}

func slotOf(d *g.Data, name string) *g.Data {
	if d == nil || !g.FrameP(d) || !g.FrameValue(d).HasSlot(name) {
		return nil
	}
	return g.FrameValue(d).Get(name)
}

func foundTree(l *g.Data, counts map[string]int) string {
	var r []string
	for ; g.NotNilP(l); l = g.Cdr(l) {
		n := g.Car(l)
		ty, name, in := slotOf(n, "type:"), slotOf(n, "name:"), foundTree(slotOf(n, "children:"), counts)
		if g.String(ty) == "form" && g.String(name) == "quote" {
			continue
		}
		if tm := slotOf(n, "time:"); !g.IntegerP(tm) {
			return "a call without a time"
		}
		counts[g.String(name)]++
		r = append(r, g.String(ty)+" "+g.String(name)+" {"+in+"}")
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

// analysed compares what lisp/profiling.lsp makes of the profile of a program.
func analysed(t *core.T, lib *g.SymbolTableFrame, setup []string, src string) {
	if t.Expired() || t.Failed() {
		return
	}
	it := ref.NewInterp(20000)
	env := ref.NewEnv(it.Global, nil, "mc")
	for _, s := range setup {
		it.EvalString(s, env)
	}
	var calls []string
	it.Prof = func(mark, kind, name string) {
		if kind != "form" || name != "quote" {
			calls = append(calls, mark+kind+" "+name)
		}
	}
	_, err := it.EvalString(src, env)
	it.Prof = nil
	if err == ref.ErrBudget || it.Quirk != "" {
		t.Count("skipped")
		return
	}
	t.Progress()
	profSeq++
	file := fmt.Sprintf("profile-%d", profSeq)
	defer os.Remove(file)
	genv := freshEnv()
	for _, s := range setup {
		evalIn(genv, s)
	}
	evalIn(genv, fmt.Sprintf("(profile %s %q)", src, file))
	if o := evalIn(lib, fmt.Sprintf("(load-profile %q)", file)); o.err || o.panic != "" {
		t.Fail("analysis", "load-profile of (profile %s): %s", src, o)
		return
	}
	d, err := g.ParseAndEvalInEnvironment("call-trees", lib)
	if err != nil {
		t.Fail("analysis", "call-trees of (profile %s): %s", src, err)
		return
	}
	want, wc := callTree(calls)
	gc := map[string]int{}
	if got := foundTree(d, gc); got != want {
		t.Fail("analysis", "the call trees of (profile %s) are %s, should be %s", src, clip(got), clip(want))
		return
	}
	// the reports
	for _, rep := range []string{"(by-function 'all)", "(print-tree)"} {
		var o outcome
		text := captured(func() { o = evalIn(lib, rep) })
		if o.err || o.panic != "" {
			t.Fail("report", "%s of (profile %s): %s", rep, src, o)
			return
		}
		rc := map[string]int{}
		for _, l := range strings.Split(text, "\n") {
			if m := reportLine.FindStringSubmatch(l); rep != "(print-tree)" && m != nil && m[1] != "quote" {
				n, _ := strconv.Atoi(m[2])
				rc[m[1]] += n
			}
			if m := treeLine.FindStringSubmatch(l); rep == "(print-tree)" && m != nil && m[1] != "quote" {
				rc[m[1]]++
			}
		}
		if a, b := fmt.Sprint(rc), fmt.Sprint(wc); a != b {
			t.Fail("report", "%s of (profile %s) reports the calls %s, should be %s", rep, src, clip(a), clip(b))
			return
		}
	}
	t.Trace(1)
	t.Steps(it.Steps)
	t.State("analysed " + src)
}

var (
	reportLine = regexp.MustCompile(`^(\S+) +\| +(\d+) \| +-?\d+ \| \S+ *$`)
	treeLine   = regexp.MustCompile(`^ *(\S+) \(total: .*\)$`)
)

// captured gives what f writes to the standard output.
func captured(f func()) string {
	old := os.Stdout
	file, err := os.Create("captured")
	if err != nil {
		panic(err)
	}
	os.Stdout = file
	func() {
		defer func() { os.Stdout = old; file.Close() }()
		f()
	}()
	b, _ := ioutil.ReadFile("captured")
	os.Remove("captured")
	return string(b)
}

var profPrograms = []string{
	"(% 5 2)", "(list (% 7 2) (modulo 7 2) (!= 1 2))", "(begin)", "5", "x", "'x", "(undefined-function 1)", "((lambda () 1))",
	"(begin (define (%d a) a) (%d 5))", "(begin (define (%s%s a) a) (%s%s 5))", "(begin (define (a%20b a) (error a)) (a%20b 5))",
	"(begin (define (fib n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2))))) (fib 5))",
	"(begin (define (down n) (if (== n 0) (error 'bottom) (down (- n 1)))) (down 5))",
	"(begin (define (down n) (if (== n 0) (error 'bottom) (down (- n 1)))) (on-error (down 5) (lambda (e) (mc-log 1) 'caught)))",
	"(on-error (car 5) (lambda (e) 'caught))", "(on-error (+ 1 2) (lambda (e) 'caught) (lambda () 'fine))", "(error 'x)", "(car 5)", "(car)", "(f)", "(f 1 2)", "(g 1 (error 'x))",
	"(map (lambda (a) (f a)) '(1 2 3))", "(for-each (lambda (a) (mc-log a)) '(1 2 3))", "(reduce (lambda (a b) (g a b)) 0 '(1 2 3))", "(filter (lambda (a) (> a 1)) '(1 2 3))",
	"(map (lambda (a) (if (== a 2) (error a) a)) '(1 2 3))",
	"(begin (defmacro (twice e) `(begin ,e ,e)) (twice (mc-log x)))", "(begin (defmacro (bad e) (error 'x)) (bad 1))", "(begin (defmacro (m . r) (f 1) `(list ,@r)) (m 1 2))",
	"(begin (define o {v: 1 m: (lambda (d) (+ v d))}) (send o m: 5))", "(begin (define o {v: 1 m: (lambda (d) (set! v d) v)}) (m:> o 7))", "(send {m: (lambda () (error 'x))} m:)",
	"(apply f '(1))", "(apply (lambda a a) 1 '(2 3))", "(eval '(f 1))", "(eval '(error 1))",
	"(let loop ((i 0)) (if (< i 5) (loop (+ i 1)) i))", "(do ((i 0 (+ i 1))) ((> i 3) i) (f i))", "(do ((i 0 (+ i 1))) ((> i 3) (error i)) (f i))",
	"(-> 1 f list)", "(=> 1 f list)", "(case (f 1) ((1) 2) (else (f 3)))", "(cond ((f 1) (f 2)) (else 3))", "(and (f 1) #f (f 2))", "(or #f (f 1) (f 2))",
	"((if x f g) 1)", "((begin car) '(1))", "(let ((k f)) (k 1))", "(letrec ((ev (lambda (n) (if (== n 0) #t (od (- n 1))))) (od (lambda (n) (if (== n 0) #f (ev (- n 1)))))) (ev 7))",
	"(begin (define (v . r) (length r)) (v) (v 1 2 3))", "(begin (define x 6) (set! y x) (f 1))", "(begin (define q (lambda (n) (set! x n))) (q 8) (q 9))",
	"(str \"a\" 1)", "(string-append)", "(list 1 (list 2 (list 3)))", "(begin (f 1) (on-error (g 1) (lambda (e) (on-error (f) (lambda (e) (f 3))))) (f 2))",
}

func genC33(gg *core.G) {
	setup := strings.Split(evalPrelude, "|")
	watch := []string{"x", "y", "(f 0)"}
	for _, p := range profPrograms {
		p := p
		gg.Case("program "+p, func(t *core.T) { profiled(t, setup, p, watch) })
		for _, q := range profPrograms {
			q := q
			gg.Case("two programs "+p+" "+q, func(t *core.T) {
				profiled(t, setup, "(begin "+p+" "+q+")", watch)
				profiled(t, setup, "(on-error (list "+p+" "+q+") (lambda (e) (mc-log 0)))", watch)
			})
		}
	}
	for _, tpl := range exprTemplates {
		tpl := tpl
		gg.Case("d1 "+tpl, func(t *core.T) {
			al := []string{"x", "(mc-tick)", "#f", "(f 1)"}
			if holes(tpl) > 4 {
				al = al[1:3]
			} else if holes(tpl) > 3 && !gg.Thorough() {
				al = al[1:]
			}
			power(al, holes(tpl), func(v []string) { profiled(t, setup, fill(tpl, v), watch) })
		})
		for h := 0; h < holes(tpl); h++ {
			for _, in := range exprTemplates {
				tpl, h, in := tpl, h, in
				gg.Case(fmt.Sprintf("d2 %s %d %s", tpl, h, in), func(t *core.T) {
					al := []string{"x", "(mc-tick)", "#f"}
					n := 3
					if gg.Thorough() {
						n = 9
					}
					for rot := 0; rot < n; rot++ {
						leaf := func(k, off int) []string {
							r := make([]string, k)
							for i := range r {
								r[i] = al[(rot+i*(1+rot/3)+off)%3]
							}
							return r
						}
						o := leaf(holes(tpl)-1, 1)
						vals := append([]string{}, o[:h]...)
						vals = append(vals, fill(in, leaf(holes(in), 0)))
						vals = append(vals, o[h:]...)
						profiled(t, setup, fill(tpl, vals), watch)
					}
				})
			}
		}
	}
	// what lisp/profiling.lsp makes of a profile
	for _, p := range profPrograms {
		p := p
		gg.Case("analysis "+p, func(t *core.T) {
			freshEnv()
			lib := g.NewSymbolTableFrameBelow(g.Global, "lib")
			if _, err := g.ProcessFileInEnvironment(repoFile("lisp/profiling.lsp"), lib); err != nil {
				t.Fail("load", "lisp/profiling.lsp does not load: %s", err)
				return
			}
			analysed(t, lib, setup, p)
			for _, q := range profPrograms {
				analysed(t, lib, setup, "(list "+p+" "+q+")")
				analysed(t, lib, setup, "(on-error (map (lambda (a) "+p+" (apply (lambda () "+q+") '())) '(1 2)) (lambda (e) (g 1 2)))")
			}
		})
	}
	// profiles one after the other, inside one another and of many calls
	gg.Case("one after the other", func(t *core.T) {
		env := freshEnv()
		evalIn(env, "(define (f a) a)")
		evalIn(env, "(profile (begin (f 1) (f 2)) \"p-a\")")
		before, _ := ioutil.ReadFile("p-a")
		evalIn(env, "(begin (f 3) (car '(1)))")
		evalIn(env, "(profile (f 1) \"p-b\")")
		evalIn(env, "(f 3)")
		after, _ := ioutil.ReadFile("p-a")
		if string(before) != string(after) {
			t.Fail("profile", "a profile grows after its end")
		}
		ev, bad := readProfile("p-b", true)
		if bad != "" || strings.Join(ev, ",") != "+func f,-func f" {
			t.Fail("profile", "the second profile is %v %s", ev, bad)
		}
		evalIn(env, "(profile (f 1) \"p-a\")") // replaces the first
		ev, bad = readProfile("p-a", true)
		if bad != "" || strings.Join(ev, ",") != "+func f,-func f" {
			t.Fail("profile", "a profile written to a file again is %v %s", ev, bad)
		}
		evalIn(env, "(profile (error 'x) \"p-a\")")
		evalIn(env, "(f 3)")
		ev, bad = readProfile("p-a", true)
		if bad != "" || strings.Join(ev, ",") != "+prim error,-prim error" {
			t.Fail("profile", "the profile of an error is %v %s", ev, bad)
		}
		for _, f := range []string{"p-a", "p-b"} {
			os.Remove(f)
		}
	})
	for _, bad := range []string{"\"no-such-directory/p\"", "\".\"", "5", "'p", "()", "'(1)"} {
		bad := bad
		gg.Case("file "+bad, func(t *core.T) {
			env := freshEnv()
			effects = effects[:0]
			var o outcome
			silent(func() { o = evalIn(env, "(profile (mc-log 1) "+bad+")") })
			if g.ProfileEnabled {
				g.EndProfiling()
				t.Fail("left on", "profiling stays on after (profile ... %s)", bad)
			}
			if !o.err || len(effects) > 0 {
				t.Fail("file", "(profile (mc-log 1) %s) gives %s, log %v; should be an error", bad, o, effects)
			}
			t.Trace(1)
		})
	}
	max := 2000
	if gg.Thorough() {
		max = 20000
	}
	for _, n := range []int{10, 255, 256, 1000, max} {
		n := n
		gg.Case(fmt.Sprintf("many calls %d", n), func(t *core.T) {
			env := freshEnv()
			evalIn(env, "(define (f a) a)")
			o := evalIn(env, fmt.Sprintf("(profile (do ((i 0 (+ i 1))) ((== i %d) i) (f i)) \"p-m\")", n))
			ev, bad := readProfile("p-m", true)
			fs := 0
			for _, e := range ev {
				if e == "+func f" {
					fs++
				}
			}
			if o.val != strconv.Itoa(n) || bad != "" || fs != n {
				t.Fail("records", "the profile of %d calls: result %s, %d calls recorded %s", n, o, fs, bad)
			}
			t.Trace(1)
			t.Steps(n)
			os.Remove("p-m")
		})
		if n > 1000 {
			continue
		}
		gg.Case(fmt.Sprintf("deep calls %d", n), func(t *core.T) {
			for _, end := range []string{"0", "(error 'x)"} {
				env := freshEnv()
				evalIn(env, fmt.Sprintf("(define (d n) (if (== n 0) %s (d (- n 1))))", end))
				o := evalIn(env, fmt.Sprintf("(profile (d %d) \"p-m\")", n))
				ev, bad := readProfile("p-m", true)
				fs := 0
				for _, e := range ev {
					if e == "+func d" {
						fs++
					}
				}
				if o.err != (end != "0") || bad != "" || fs != n+1 {
					t.Fail("records", "the profile of %d calls inside each other ending in %s: result %s, %d calls recorded %s", n, end, clip(o.String()), fs, bad)
				}
				t.Trace(1)
				t.Steps(n)
			}
			os.Remove("p-m")
		})
	}
	for i, p := range []string{"(join (fork (lambda (p) (f 1))))", "(let ((a (fork (lambda (p) (map f '(1 2 3))))) (b (fork (lambda (p) (map f '(1 2 3)))))) (list (join a) (join b)))"} {
		p, calls := p, []int{1, 6}[i]
		gg.Case("processes "+p, func(t *core.T) {
			env := freshEnv()
			evalIn(env, "(define (f a) (list a a))")
			want := evalIn(env, p)
			got := evalIn(env, "(profile "+p+" \"p-p\")")
			ev, bad := readProfile("p-p", false)
			n := 0
			for _, e := range ev {
				if e == "+func f" {
					n++
				}
			}
			if !got.same(want) || bad != "" || n != calls {
				t.Fail("processes", "(profile %s) gives %s, should give %s; %d calls of f, should be %d; %s", p, got, want, n, calls, bad)
			}
			t.Trace(1)
			os.Remove("p-p")
		})
	}
	// the definition a function reports makes a function that does the same
	params := []string{"", "a", "a b", "a . r"}
	bodies := []string{"", "5", "'a", "a", "(list a 'x \"s\\\"t\" 1.5 #t nil)", "(mc-log a) (list 'b a)", "`(a ,a ,@(list a a))", "(if (nil? a) 'none (let ((z a)) (lambda (y) (list y z))))", "(error a)", "((lambda (x . y) (list x y)) a 1 2)", "(define k a) (set! k (list k k)) k", "(do ((i 0 (+ i 1)) (l '() (cons i l))) ((== i 3) l))", "(get-slot {s: 5} s:)", "(cond ((eq? a 1) 'one) (else [1 2 255]))", "(on-error (car* a) (lambda (e) 'bad))", "'(1 . 2)", "''a"}
	calls := []string{"", "1", "'(2)", "1 2", "'() \"x\" 'y"}
	for _, p := range params {
		p := p
		gg.Case("definition-of ("+p+")", func(t *core.T) {
			for _, b := range bodies {
				if p == "" {
					b = "(define a 7) " + b
				}
				named := strings.TrimSpace("(define (f " + p + ") " + b + ")")
				made := "(define g (lambda (" + p + ") " + b + "))"
				env := freshEnv()
				if evalIn(env, named).err || evalIn(env, made).err {
					continue
				}
				for i, def := range []string{"(definition-of f)", "(definition-of g)", "(begin (f-again) (definition-of f))"} {
					evalIn(env, "(define (f-again) (on-error (f 1) (lambda (e) e)))")
					want := "'" + named
					if i == 1 {
						want = "'" + made
					}
					// the same data as the source, by the reader
					if o, w := evalIn(env, def), evalIn(env, want); !o.same(w) {
						t.Fail("definition", "after %s %s: %s gives %s, should give %s", named, made, def, clip(o.String()), clip(w.String()))
						return
					}
					// evaluated elsewhere it makes a function that does what the first does, also from its printed text
					for _, how := range []string{"data", "text"} {
						other := freshEnv()
						d, err := g.ParseAndEvalInEnvironment(def, env)
						if err != nil {
							continue
						}
						src := "(eval d)"
						if how == "text" {
							src = g.String(d)
						}
						other.BindLocallyTo(g.Intern("d"), d)
						if o := evalIn(other, src); o.err || o.panic != "" {
							t.Fail("definition", "%s of %s does not evaluate: %s", def, named, o)
							return
						}
						f := []string{"f", "g", "f"}[i]
						for _, c := range calls {
							effects = effects[:0]
							w := evalIn(env, "("+f+" "+c+")")
							wlog := strings.Join(effects, " ")
							effects = effects[:0]
							o := evalIn(other, "("+f+" "+c+")")
							t.Trace(1)
							t.Steps(2)
							if !o.same(w) || strings.Join(effects, " ") != wlog {
								t.Fail("definition", "(%s %s) of %s gives %s with effects %s; by its definition %s with effects %s", f, c, named, w, wlog, o, strings.Join(effects, " "))
								return
							}
						}
					}
				}
				t.State(named)
			}
			for _, v := range anyValues {
				if o := evalIn(freshEnv(), "(definition-of "+v+")"); o.panic != "" || !o.err && !strings.Contains(v, "lambda") {
					t.Fail("definition", "(definition-of %s) gives %s", v, o)
				}
			}
		})
	}
	for _, ms := range []int{0, 5, 30} {
		ms := ms
		gg.Case(fmt.Sprintf("time of a sleep of %d", ms), func(t *core.T) {
			start := time.Now()
			o := evalIn(freshEnv(), fmt.Sprintf("(time (sleep %d))", ms))
			took := time.Since(start).Milliseconds()
			n, err := strconv.Atoi(o.val)
			if err != nil || n < ms || int64(n) > took+2 {
				t.Fail("time", "(time (sleep %d)) gives %s, it took %d ms", ms, o, took)
			}
			t.Trace(1)
		})
	}
}
