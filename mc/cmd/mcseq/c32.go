package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
	"unsafe"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C32", Level: "model_checking", Chunk: 1, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every bounded use of the Go functions on values, lists, frames and environments gives what the reference model gives",
		Assumptions: []string{"the reference library"}, Gen: genC32, Init: inScratch,
	})
}

// hostFn is a Go function of values and what it computes in the language.
type hostFn struct {
	name string
	f    func(a []*g.Data) (*g.Data, error)
	lisp string // of a b c
	alph [][]string
	skip func(v []string) bool
}

func hostCase(t *core.T, h hostFn, v []string) {
	if t.Failed() || h.skip != nil && h.skip(v) {
		return
	}
	t.Progress()
	it := ref.NewInterp(10000000)
	renv := ref.NewEnv(it.Global, nil, "mc")
	env := freshEnv()
	var args []*g.Data
	for i, s := range v {
		if _, err := it.EvalString(fmt.Sprintf("(define %s %s)", argNames[i], s), renv); err != nil {
			panic(s)
		}
		d, err := g.ParseAndEvalInEnvironment(s, env)
		if err != nil {
			panic(s)
		}
		args = append(args, d)
	}
	want := outcome{}
	rv, rerr := it.EvalString(h.lisp, renv)
	if it.Quirk != "" {
		t.Count("skipped: " + it.Quirk)
		return
	}
	if rerr != nil {
		want.err = true
	} else {
		want.val = ref.Canon(rv)
	}
	var got outcome
	var res *g.Data
	func() {
		defer func() {
			if p := recover(); p != nil {
				got = outcome{panic: fmt.Sprint(p)}
			}
		}()
		d, err := h.f(args)
		if err != nil {
			got.err = true
		} else {
			got.val = canon(d)
			res = d
		}
	}()
	if !got.same(want) {
		t.Fail("go", "%s of %s gives %s, should give %s", h.name, strings.Join(v, ", "), clip(got.String()), clip(want.String()))
		return
	}
	for i := range v {
		x, _ := it.EvalString(argNames[i], renv)
		if canon(args[i]) != ref.Canon(x) {
			t.Fail("go", "%s of %s leaves argument %d as %s, should be %s", h.name, strings.Join(v, ", "), i, clip(canon(args[i])), clip(ref.Canon(x)))
			return
		}
	}
	// the lists these make are new ones (AppendList ends in its second list)
	if freshResult[strings.Fields(h.name)[0]] && res != nil && g.ListP(res) {
		theirs := map[*g.ConsCell]bool{}
		if len(args) > 1 && g.ListP(args[1]) {
			for c := args[1]; g.NotNilP(c) && g.ListP(c); c = g.Cdr(c) {
				theirs[g.ConsValue(c)] = true
			}
		}
		for c := res; g.NotNilP(c) && g.ListP(c); c = g.Cdr(c) {
			if k := g.ConsValue(c); !theirs[k] {
				k.Car = g.Intern("changed")
			}
		}
		for i := range v {
			x, _ := it.EvalString(argNames[i], renv)
			if canon(args[i]) != ref.Canon(x) {
				t.Fail("go", "changing what %s of %s gave changes argument %d to %s", h.name, strings.Join(v, ", "), i, clip(canon(args[i])))
				return
			}
		}
	}
	t.Trace(1)
	t.Steps(1)
	t.State(want.String())
}

var freshResult = map[string]bool{"Reverse": true, "Append": true, "AppendList": true, "Copy": true, "QuoteAll": true, "Flatten": true, "RecursiveFlatten": true}

func genC32(gg *core.G) {
	deep := gg.Thorough()
	one := func(f func(d *g.Data) *g.Data) func(a []*g.Data) (*g.Data, error) {
		return func(a []*g.Data) (*g.Data, error) { return f(a[0]), nil }
	}
	k := 3
	if deep {
		k = 4
	}
	elems := []string{"1", "2", "\"s\"", "x", "(1)", "()", "(x (2))"}
	al := cat(lists(elems, 0, k))
	var big []string
	for _, n := range sizes {
		big = append(big, distinct(n))
	}
	al2 := cat(lists(elems, 0, 2))
	all := cat(al, big, []string{"'((1 2) (3 4) (5))", "'(((1) 2) ((3)))"})
	vals := anyValues
	pathFns := map[string]func(*g.Data) *g.Data{"aa": g.Caar, "ad": g.Cadr, "da": g.Cdar, "dd": g.Cddr, "aaa": g.Caaar, "aad": g.Caadr, "ada": g.Cadar, "add": g.Caddr, "daa": g.Cdaar, "dad": g.Cdadr, "dda": g.Cddar, "ddd": g.Cdddr, "a": g.Car, "d": g.Cdr}
	deepLists := cat(al, []string{"'(((1 . 2) . 3) . 4)", "'((1 2 3) (4 5 6) (7 8 9) 10)", "'(1 2 3 4 5 6)", "'((((1))))", "'(1 . (2 . (3 . 4)))", "'((1 . 2) (3 . 4) . 5)", "5", "\"s\"", "{a: 1}", "(alist '((a . 1) (b . (2 3))))"})
	add := func(name, lisp string, f func(a []*g.Data) (*g.Data, error), skip func(v []string) bool, alph ...[]string) {
		h := hostFn{name, f, lisp, alph, skip}
		gg.Case("go "+name, func(t *core.T) {
			product(alph, func(v []string) {
				if !t.Expired() {
					hostCase(t, h, v)
				}
			})
		})
	}
	add("Reverse", "(reverse a)", one(g.Reverse), nil, all)
	add("Flatten", "(flatten a)", func(a []*g.Data) (*g.Data, error) { return g.Flatten(a[0]) }, nil, all)
	add("RecursiveFlatten", "(flatten* a)", func(a []*g.Data) (*g.Data, error) { return g.RecursiveFlatten(a[0]) }, nil, all)
	add("Length", "(length a)", func(a []*g.Data) (*g.Data, error) { return g.IntegerWithValue(int64(g.Length(a[0]))), nil }, nil, cat(all, []string{"[]", "[1 2 3]", "{}", "{a: 1 b: 2}", "(alist '((a . 1) (b . 2)))"}))
	add("Copy", "(copy a)", one(g.Copy), nil, cat(all, vals))
	add("IsEqual", "(== a b)", func(a []*g.Data) (*g.Data, error) { return g.BooleanWithValue(g.IsEqual(a[0], a[1])), nil }, nil, cat(al2, vals), cat(al2, vals))
	add("Append", "(append a (list b))", func(a []*g.Data) (*g.Data, error) { return g.Append(a[0], nonNil(a[1])), nil }, nil, all, vals)
	add("AppendList", "(append a b)", func(a []*g.Data) (*g.Data, error) { return g.AppendList(a[0], a[1]), nil }, nil, cat(al2, big), cat(al2, big))
	add("AppendBang", "(if (nil? a) (list b) (begin (set-cdr! (last-pair a) (list b)) a))", func(a []*g.Data) (*g.Data, error) { return g.AppendBang(a[0], nonNil(a[1])), nil }, nil, fresh(all), vals)
	add("AppendBangList", "(cond ((nil? a) b) (else (set-cdr! (last-pair a) b) a))", func(a []*g.Data) (*g.Data, error) { return g.AppendBangList(a[0], a[1]), nil }, func(v []string) bool { return v[1] == "(list)" }, fresh(cat(al2, big)), fresh(cat(al2, big)))
	add("RemoveFromListBang", "(let loop ((l a) (prev ())) (cond ((nil? l) a) ((== (car l) b) (if (nil? prev) (cdr l) (begin (set-cdr! prev (cdr l)) a))) (else (loop (cdr l) l))))", func(a []*g.Data) (*g.Data, error) { return g.RemoveFromListBang(a[0], a[1]), nil }, nil, fresh(cat(al, []string{distinct(65), distinct(130)})), []string{"1", "2", "\"s\"", "'x", "'(1)", "()", "10", "11", "74", "139", "99"})
	// far along
	var far, ffar []string
	for _, n := range append(append([]int{}, farSizes...), 9999, 10001, 16385, 20000, 65537) {
		far = append(far, distinct(n))
		ffar = append(ffar, "(list "+rep(n, num)+")")
	}
	add("Reverse far", "(reverse a)", one(g.Reverse), nil, far)
	add("Flatten far", "(flatten a)", func(a []*g.Data) (*g.Data, error) { return g.Flatten(a[0]) }, nil, far)
	add("RecursiveFlatten far", "(flatten* a)", func(a []*g.Data) (*g.Data, error) { return g.RecursiveFlatten(a[0]) }, nil, far)
	add("Length far", "(length a)", func(a []*g.Data) (*g.Data, error) { return g.IntegerWithValue(int64(g.Length(a[0]))), nil }, nil, far)
	add("Copy far", "(copy a)", one(g.Copy), nil, far)
	add("IsEqual far", "(== a (append b '(1)))", func(a []*g.Data) (*g.Data, error) {
		return g.BooleanWithValue(g.IsEqual(a[0], g.Append(a[1], g.IntegerWithValue(1)))), nil
	}, nil, far[:12], far[:12])
	add("Append far", "(append a (list b))", func(a []*g.Data) (*g.Data, error) { return g.Append(a[0], nonNil(a[1])), nil }, nil, far, []string{"1", "'(1)"})
	add("AppendList far", "(append a b)", func(a []*g.Data) (*g.Data, error) { return g.AppendList(a[0], a[1]), nil }, nil, far, []string{"()", "'(1)", "'(1 2)", distinct(1000)})
	add("AppendList to far", "(append a b)", func(a []*g.Data) (*g.Data, error) { return g.AppendList(a[0], a[1]), nil }, nil, []string{"()", "'(1)", "'(1 2)", distinct(1000)}, far)
	add("AppendBang far", "(begin (set-cdr! (last-pair a) (list b)) a)", func(a []*g.Data) (*g.Data, error) { return g.AppendBang(a[0], a[1]), nil }, nil, ffar, []string{"1", "'(1)"})
	add("AppendBangList far", "(begin (set-cdr! (last-pair a) b) a)", func(a []*g.Data) (*g.Data, error) { return g.AppendBangList(a[0], a[1]), nil }, nil, ffar, []string{"(list 1)", "(list 1 2)", ffar[4]})
	add("RemoveFromListBang far", "(begin (if (== (+ b 1) (length a)) (set-cdr! (list-tail a (- b 1)) ()) (set-cdr! (list-tail a (- b 1)) (list-tail a (+ b 1)))) a)", func(a []*g.Data) (*g.Data, error) { return g.RemoveFromListBang(a[0], a[1]), nil }, func(v []string) bool { return strings.Count(v[0], " ") <= atoi(v[1]) }, ffar, []string{"1", "199", "255", "256", "999", "1000", "1024", "4095", "4999", "9999", "16384", "65536"})
	for i := range far {
		n := append(append([]int{}, farSizes...), 9999, 10001, 16385, 20000, 65537)[i]
		for _, k := range []int{1, 2, n / 2, n - 1, n} {
			k := k
			add(fmt.Sprintf("Nth far %d %d", n, k), fmt.Sprintf("(list-ref a %d)", k-1), func(a []*g.Data) (*g.Data, error) { return g.Nth(a[0], k), nil }, nil, far[i:i+1])
			add(fmt.Sprintf("SetNth far %d %d", n, k), fmt.Sprintf("(begin (set-car! (list-tail a %d) 'x) 'x)", k-1), func(a []*g.Data) (*g.Data, error) { return g.SetNth(a[0], k, g.Intern("x")), nil }, nil, ffar[i:i+1])
			add(fmt.Sprintf("Assoc far %d %d", n, k), "(assoc b a)", func(a []*g.Data) (*g.Data, error) { return g.Assoc(a[1], a[0]) }, nil, []string{"'(" + rep(n, func(i int) string { return fmt.Sprintf("(%d . %d)", i, i+1) }) + ")"}, []string{num(k - 1), num(n), "1.0"})
		}
	}
	add("QuoteAll far", "(map (lambda (x) (list 'quote x)) a)", one(g.QuoteAll), nil, far)
	als := []string{"()", "'((a . 1))", "'((a . 1) (b . 2))", "'((a . 1) (a . 2) (b . 3))", "'((\"s\" . 1) (1 . x))", "'((a 1 2) ((1 2) . y))", "(alist '((a . 1) (b . 2)))", "'(1)", "'((a . 1) 5)", "'((1.0 . 1) (2 . 2))", "'(" + rep(65, func(i int) string { return fmt.Sprintf("(%d . %d)", i, i) }) + ")"}
	add("Assoc", "(assoc a b)", func(a []*g.Data) (*g.Data, error) { return g.Assoc(a[0], a[1]) }, nil, []string{"'a", "'b", "'c", "1", "1.0", "2", "\"s\"", "'(1 2)", "64", "()"}, als)
	add("QuoteIt", "(list 'quote a)", one(g.QuoteIt), nil, vals)
	add("QuoteAll", "(map (lambda (x) (list 'quote x)) a)", one(g.QuoteAll), nil, all)
	add("Cons", "(cons a b)", func(a []*g.Data) (*g.Data, error) { return g.Cons(nonNil(a[0]), a[1]), nil }, nil, vals, cat(vals, al2))
	for i, f := range []func(*g.Data) *g.Data{g.First, g.Second, g.Third, g.Fourth, g.Fifth, g.Sixth, g.Seventh, g.Eighth, g.Ninth, g.Tenth} {
		n := []string{"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth"}[i]
		add(n, "("+n+" a)", one(f), nil, all)
	}
	// car and cdr paths: () of anything that is not a pair
	gg.Case("go paths", func(t *core.T) {
		for _, s := range deepLists {
			it := ref.NewInterp(20000)
			rv, err := it.EvalString(s, it.Global)
			if err != nil {
				panic(s)
			}
			d, _ := g.ParseAndEvalInEnvironment(s, freshEnv())
			words([]string{"a", "d"}, 6, func(v []string) {
				t.Progress()
				p := strings.Join(v, "")
				x := rv
				for i := len(p) - 1; i >= 0; i-- {
					if p[i] == 'a' {
						x = ref.Car(x)
					} else {
						x = ref.Cdr(x)
					}
				}
				if got := canon(g.WalkList(d, p)); got != ref.Canon(x) {
					t.Fail("go", "WalkList(%s, %q) gives %s, should give %s", s, p, got, ref.Canon(x))
				}
				if f := pathFns[p]; f != nil {
					if got := canon(f(d)); got != ref.Canon(x) {
						t.Fail("go", "c%sr of %s gives %s, should give %s", p, s, got, ref.Canon(x))
					}
				}
				t.Trace(1)
			})
		}
	})
	gg.Case("go Nth", func(t *core.T) {
		for _, s := range all {
			it := ref.NewInterp(20000)
			rv, _ := it.EvalString(s, it.Global)
			items := ref.Items(rv)
			for n := -2; n <= len(items)+2; n++ {
				t.Progress()
				d, _ := g.ParseAndEvalInEnvironment(s, freshEnv())
				want := "()"
				if n >= 1 && n <= len(items) {
					want = ref.Canon(items[n-1])
				}
				if got := canon(g.Nth(d, n)); got != want {
					t.Fail("go", "Nth(%s, %d) gives %s, should give %s", s, n, got, want)
				}
				if n >= 1 && n <= len(items) {
					d = g.Copy(d)
					l := append([]ref.Val{}, items...)
					l[n-1] = ref.Sym("new")
					if got := canon(g.SetNth(d, n, g.Intern("new"))); got != "new" || canon(d) != ref.Canon(ref.List(l...)) {
						t.Fail("go", "SetNth(%s, %d) gives %s and %s", s, n, got, canon(d))
					}
				}
				t.Trace(1)
			}
		}
	})
	// arrays and lists
	gg.Case("go arrays", func(t *core.T) {
		var vs []*g.Data
		for _, v := range anyValues {
			d, _ := g.ParseAndEvalInEnvironment(v, freshEnv())
			vs = append(vs, d)
		}
		check := func(arr []*g.Data) {
			t.Progress()
			w := make([]string, len(arr))
			for i, d := range arr {
				w[i] = canon(d)
			}
			want := "(" + strings.Join(w, " ") + ")"
			for i, l := range []*g.Data{g.ArrayToList(arr), g.InternalMakeList(arr...), g.ArrayToListWithTail(arr, nil), g.ArrayToListWithTail(arr, g.EmptyCons())} {
				if len(arr) < 5000 && canon(l) != want {
					t.Fail("go", "array %s becomes %s (%d)", clip(want), clip(canon(l)), i)
				}
				back := g.ToArray(l)
				if len(back) != len(arr) || g.Length(l) != len(arr) {
					t.Fail("go", "array %s comes back with %d elements", clip(want), len(back))
					return
				}
				for j := range back {
					if canon(back[j]) != w[j] || !g.NilP(arr[j]) && back[j] != arr[j] {
						t.Fail("go", "element %d of %s comes back as %s", j, clip(want), canon(back[j]))
					}
				}
			}
			if len(arr) >= 5000 {
				return
			}
			tail := g.InternalMakeList(g.IntegerWithValue(7), g.IntegerWithValue(8))
			l := g.ArrayToListWithTail(arr, tail)
			if got := canon(l); got != "("+strings.TrimSpace(strings.Join(w, " ")+" 7 8")+")" {
				t.Fail("go", "array %s with a tail becomes %s", clip(want), clip(got))
			}
			if len(arr) > 0 {
				if got := canon(g.ArrayToListWithTail(arr, g.Intern("x"))); got != "("+strings.Join(w, " ")+" . x)" {
					t.Fail("go", "array %s with tail x becomes %s", clip(want), clip(got))
				}
			}
			t.Trace(1)
		}
		check(nil)
		for _, a := range vs {
			check([]*g.Data{a})
			for _, b := range vs {
				check([]*g.Data{a, b})
				for _, c := range vs {
					check([]*g.Data{a, b, c})
				}
			}
		}
		for _, n := range cati(sizes, farSizes, hugeSizes) {
			var arr []*g.Data
			for i := 0; i < n; i++ {
				arr = append(arr, g.IntegerWithValue(int64(i)))
			}
			check(arr)
		}
	})
	gg.Case("go Acons", func(t *core.T) {
		keys := []string{"'a", "'b", "\"s\"", "1", "'(1 2)"}
		// the last value given to a key is the one found, and each key is there once
		kk := 5
		if deep {
			kk = 7
		}
		words(keys, kk, func(v []string) {
			t.Progress()
			var l *g.Data
			last := map[string]int{}
			for i, s := range v {
				d, _ := g.ParseAndEvalInEnvironment(s, freshEnv())
				l = g.Acons(d, g.IntegerWithValue(int64(i)), l)
				last[s] = i
			}
			if g.Length(l) != len(last) {
				t.Fail("go", "Acons of the keys %v gives %s", v, canon(l))
			}
			for _, s := range keys {
				d, _ := g.ParseAndEvalInEnvironment(s, freshEnv())
				p, err := g.Assoc(d, l)
				i, in := last[s]
				if err != nil || in == g.NilP(p) || in && g.IntegerValue(g.Cdr(p)) != int64(i) {
					t.Fail("go", "Assoc of %s after Acons of the keys %v gives %s", s, v, canon(p))
				}
				// without the key
				m, err := g.Dissoc(d, l)
				n := len(last)
				if in {
					n--
				}
				q, _ := g.Assoc(d, m)
				if err != nil || g.Length(m) != n || !g.NilP(q) {
					t.Fail("go", "Dissoc of %s from %s gives %s", s, canon(l), canon(m))
				}
			}
			t.Trace(1)
			t.Steps(len(v))
		})
	})
	// what a value is and holds
	gg.Case("go values", func(t *core.T) {
		var x int
		obj := g.ObjectWithTypeAndValue("thing", unsafe.Pointer(&x))
		prim := g.Global.Bindings["car"].Val
		env := freshEnv()
		lam, _ := g.ParseAndEvalInEnvironment("(lambda (x) x)", env)
		evalIn(env, "(defmacro (m x) x)")
		mac, _ := g.ParseAndEvalInEnvironment("m", env)
		al, _ := g.ParseAndEvalInEnvironment("(alist '((a . 1)))", env)
		fr := &g.FrameMap{Data: g.FrameMapData{}}
		type tv struct {
			d    *g.Data
			kind string
		}
		ts := []tv{{nil, "nil"}, {g.EmptyCons(), "empty"}, {g.Cons(g.IntegerWithValue(1), nil), "list"}, {g.Cons(g.IntegerWithValue(1), g.IntegerWithValue(2)), "list"}, {al, "alist"}, {g.Car(al), "alistcell"}, {g.IntegerWithValue(0), "integer"}, {g.IntegerWithValue(-3), "integer"}, {g.FloatWithValue(0), "float"}, {g.FloatWithValue(2.75), "float"}, {g.FloatWithValue(-2.75), "float"}, {g.StringWithValue(""), "string"}, {g.StringWithValue("a:"), "string"}, {g.Intern("sym"), "symbol"}, {g.Intern("k:"), "naked"}, {g.NakedSymbolWithName("k"), "naked"}, {g.NakedSymbolFrom(g.Intern("k")), "naked"}, {g.SymbolWithName("u"), "symbol"}, {g.BooleanWithValue(true), "true"}, {g.BooleanWithValue(false), "false"}, {lam, "function"}, {mac, "macro"}, {prim, "primitive"}, {obj, "object"}, {g.FrameWithValue(fr), "frame"}, {g.EnvironmentWithValue(env), "environment"}, {g.PortWithValue(nil), "port"}}
		for _, v := range ts {
			is := func(ks ...string) bool {
				for _, k := range ks {
					if v.kind == k {
						return true
					}
				}
				return false
			}
			d := v.d
			preds := []struct {
				n         string
				got, want bool
			}{
				{"NilP", g.NilP(d), is("nil", "empty")}, {"NotNilP", g.NotNilP(d), !is("nil", "empty")}, {"PairP", g.PairP(d), is("nil", "empty", "list")}, {"ListP", g.ListP(d), is("nil", "empty", "list", "alist")}, {"AlistP", g.AlistP(d), is("nil", "alist")}, {"DottedPairP", g.DottedPairP(d), is("nil", "alistcell")}, {"BooleanP", g.BooleanP(d), is("true", "false")}, {"SymbolP", g.SymbolP(d), is("symbol", "naked")}, {"NakedP", g.NakedP(d), is("naked")}, {"StringP", g.StringP(d), is("string")}, {"IntegerP", g.IntegerP(d), is("integer")}, {"FloatP", g.FloatP(d), is("float")}, {"NumberP", g.NumberP(d), is("integer", "float")}, {"ObjectP", g.ObjectP(d), is("object")}, {"FunctionOrPrimitiveP", g.FunctionOrPrimitiveP(d), is("function", "primitive")}, {"FunctionP", g.FunctionP(d), is("function")}, {"PrimitiveP", g.PrimitiveP(d), is("primitive")}, {"MacroP", g.MacroP(d), is("macro")}, {"FrameP", g.FrameP(d), is("frame")}, {"EnvironmentP", g.EnvironmentP(d), is("environment")}, {"PortP", g.PortP(d), is("port")}, {"BooleanValue", g.BooleanValue(d), !is("nil", "empty", "false")},
				{"FrameValue", g.FrameValue(d) != nil, is("frame")}, {"FunctionValue", g.FunctionValue(d) != nil, is("function")}, {"MacroValue", g.MacroValue(d) != nil, is("macro")}, {"PrimitiveValue", g.PrimitiveValue(d) != nil, is("primitive")}, {"EnvironmentValue", g.EnvironmentValue(d) != nil, is("environment")}, {"ObjectValue", g.ObjectValue(d) != nil, is("object")}, {"BoxedObjectValue", g.BoxedObjectValue(d) != nil, is("object")}, {"ObjectType", g.ObjectType(d) == "thing", is("object")}, {"ConsValue", g.ConsValue(d) != nil, is("empty", "list", "alist", "alistcell")}, {"PortValue", g.PortValue(d) == nil, true},
				{"IntegerValue", g.IntegerValue(d) == 0, !is("integer", "float") || d == ts[6].d || d == ts[8].d}, {"FloatValue", g.FloatValue(d) == 0, !is("integer", "float") || d == ts[6].d || d == ts[8].d}, {"StringValue", g.StringValue(d) == "", !is("string", "symbol", "naked") || d == ts[11].d},
				{"IsEqual", g.IsEqual(d, d), true}, {"Length", g.Length(d) == 0, !is("list", "alist")},
			}
			for _, p := range preds {
				if p.got != p.want {
					t.Fail("go", "%s of %s (%s) gives %v", p.n, canon(d), v.kind, p.got)
				}
				t.Trace(1)
			}
			if (g.SetStringValue(d, g.StringValue(d)) != nil) != is("string") {
				t.Fail("go", "SetStringValue of %s (%s)", canon(d), v.kind)
			}
		}
		for _, i := range []int64{0, 1, -1, 1 << 31, -(1 << 31), 1<<53 + 1, 1<<63 - 1, -1 << 63} {
			if g.IntegerValue(g.IntegerWithValue(i)) != i {
				t.Fail("go", "integer %d", i)
			}
			if g.FloatValue(g.IntegerWithValue(i)) != float32(i) {
				t.Fail("go", "float of integer %d", i)
			}
		}
		for _, f := range []float32{0, 1.5, -1.5, 2.999, -2.999, 16777216, 1e10, 1e-30, 3.4e38} {
			if g.FloatValue(g.FloatWithValue(f)) != f {
				t.Fail("go", "float %v", f)
			}
			if f < 1e18 && g.IntegerValue(g.FloatWithValue(f)) != int64(f) {
				t.Fail("go", "integer of float %v", f)
			}
		}
		for _, s := range []string{"", "a", "a b", "é", "\x00", "a:", "\"", "(", strings.Repeat("x", 5000)} {
			d := g.StringWithValue(s)
			sym := g.Intern(s)
			if g.StringValue(d) != s || g.StringValue(sym) != s || g.Intern(s) != sym || g.StringValue(g.NakedSymbolWithName(s)) != s+":" || g.NakedSymbolFrom(sym) != g.Intern(s+":") {
				t.Fail("go", "string or symbol %q", s)
			}
			if e := g.SetStringValue(d, s+"!"); e != d || g.StringValue(d) != s+"!" {
				t.Fail("go", "SetStringValue %q", s)
			}
		}
	})
	// calling functions from Go
	gg.Case("go calls", func(t *core.T) {
		fns := []string{"car", "+", "list", "(lambda (x) (mc-log x))", "(lambda (x y) (list y x))", "(lambda r r)", "(lambda (x . r) (cons r x))", "cons", "5", "\"s\"", "'sym", "(lambda () (error 1))"}
		args := []string{"1", "x", "(mc-log 5)", "(error 2)", "'(1 2)", "\"s\""}
		for _, fs := range fns {
			words(args, 3, func(v []string) {
				t.Progress()
				it := ref.NewInterp(20000)
				renv := ref.NewEnv(it.Global, nil, "mc")
				it.EvalString("(define x 10)", renv)
				it.EvalString("(define f "+fs+")", renv)
				rv, rerr := it.EvalString("(f "+strings.Join(v, " ")+")", renv)
				want := outcome{err: rerr != nil}
				if rerr == nil {
					want.val = ref.Canon(rv)
				}
				if it.Quirk != "" {
					return
				}
				env := freshEnv()
				evalIn(env, "(define x 10)")
				f, _ := g.ParseAndEvalInEnvironment(fs, env)
				forms, err := g.Parse("(" + strings.Join(v, " ") + ")")
				if err != nil {
					panic(err)
				}
				effects = effects[:0]
				got := callGo(func() (*g.Data, error) { return g.Apply(f, forms, env) })
				if !got.same(want) || strings.Join(effects, " ") != strings.Join(it.Log, " ") {
					t.Fail("go", "Apply of %s to %v gives %s, log %v; should give %s, %v", fs, v, got, effects, want, it.Log)
				}
				// the same on values
				vals := make([]string, len(v))
				for i, s := range v {
					vals[i] = "'" + s
				}
				it.Log = nil
				rv, rerr = it.EvalString("(f "+strings.Join(vals, " ")+")", renv)
				want = outcome{err: rerr != nil}
				if rerr == nil {
					want.val = ref.Canon(rv)
				}
				if it.Quirk != "" {
					return
				}
				effects = effects[:0]
				got = callGo(func() (*g.Data, error) { return g.ApplyWithoutEval(f, forms, env) })
				if !got.same(want) || strings.Join(effects, " ") != strings.Join(it.Log, " ") {
					t.Fail("go", "ApplyWithoutEval of %s to %v gives %s, log %v; should give %s, %v", fs, v, got, effects, want, it.Log)
				}
				t.Trace(2)
				t.Steps(2)
			})
		}
	})
	genHostEnv(gg, deep)
	genHostFrame(gg, deep)
}

func callGo(f func() (*g.Data, error)) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			o = outcome{panic: fmt.Sprint(p)}
		}
	}()
	d, err := f()
	if err != nil {
		return outcome{err: true}
	}
	return outcome{val: canon(d)}
}

func nonNil(d *g.Data) *g.Data {
	if d == nil {
		return g.EmptyCons()
	}
	return d
}

// fresh lists that may be changed
func fresh(l []string) []string {
	r := make([]string, len(l))
	for i, s := range l {
		r[i] = "(copy " + s + ")"
	}
	return r
}

// ---- environments from Go

type menv struct {
	parent *menv
	b      map[string]*mbind
	frame  map[string]int // shared with the environments below
}
type mbind struct {
	v    int
	prot bool
}

func (e *menv) find(s string) *mbind {
	for ; e != nil; e = e.parent {
		if b := e.b[s]; b != nil {
			return b
		}
	}
	return nil
}

func (e *menv) value(s string) int {
	if b := e.b[s]; b != nil {
		return b.v
	}
	if e.frame != nil {
		if v, ok := e.frame[s+":"]; ok {
			return v
		}
	}
	if b := e.find(s); b != nil {
		return b.v
	}
	return -1
}

func genHostEnv(gg *core.G, deep bool) {
	type op struct {
		kind string
		env  int
		sym  string
	}
	var ops []op
	for e := 0; e < 3; e++ {
		for _, s := range []string{"mca", "mcb"} {
			for _, k := range []string{"BindTo", "SetTo", "BindLocallyTo", "BindToProtected", "DeleteBinding"} {
				ops = append(ops, op{k, e, s})
			}
		}
	}
	depth := 4
	if deep {
		depth = 5
	}
	run := func(t *core.T, variant int, seq []int) {
		t.Progress()
		// three environments, one below the other; in variant 1 the second has a
		// frame, which the third shares; in 2 only the third has
		e0 := &menv{b: map[string]*mbind{}}
		e1 := &menv{parent: e0, b: map[string]*mbind{}}
		e2 := &menv{parent: e1, b: map[string]*mbind{}}
		g0 := g.NewSymbolTableFrameBelow(g.Global, "mc")
		fm := &g.FrameMap{Data: g.FrameMapData{"mca:": g.IntegerWithValue(900)}}
		var g1, g2 *g.SymbolTableFrame
		switch variant {
		case 0:
			g1 = g.NewSymbolTableFrameBelow(g0, "mc1")
			g2 = g.NewSymbolTableFrameBelow(g1, "mc2")
		case 1:
			g1 = g.NewSymbolTableFrameBelowWithFrame(g0, fm, "mc1")
			g2 = g.NewSymbolTableFrameBelow(g1, "mc2")
			e1.frame = map[string]int{"mca:": 900}
			e2.frame = e1.frame
		case 2:
			g1 = g.NewSymbolTableFrameBelow(g0, "mc1")
			g2 = g.NewSymbolTableFrameBelowWithFrame(g1, fm, "mc2")
			e2.frame = map[string]int{"mca:": 900}
		}
		me, ge := []*menv{e0, e1, e2}, []*g.SymbolTableFrame{g0, g1, g2}
		text := fmt.Sprintf("variant %d:", variant)
		for i, k := range seq {
			o := ops[k]
			m, e := me[o.env], ge[o.env]
			val, sym := g.IntegerWithValue(int64(i+1)), g.Intern(o.sym)
			text += fmt.Sprintf(" %s(e%d %s %d)", o.kind, o.env, o.sym, i+1)
			wantErr, gotErr := false, false
			var res *g.Data
			var err error
			set := func(b *mbind) {
				switch {
				case b == nil:
					m.b[o.sym] = &mbind{v: i + 1}
				case b.prot:
					wantErr = true
				default:
					b.v = i + 1
				}
			}
			switch o.kind {
			case "BindTo":
				set(m.find(o.sym))
				res, err = e.BindTo(sym, val)
			case "BindLocallyTo":
				set(m.b[o.sym])
				res, err = e.BindLocallyTo(sym, val)
			case "SetTo":
				b := m.b[o.sym]
				if b == nil && m.frame != nil {
					if _, ok := m.frame[o.sym+":"]; ok {
						m.frame[o.sym+":"] = i + 1
						res, err = e.SetTo(sym, val)
						break
					}
				}
				if b == nil {
					b = m.find(o.sym)
				}
				if b == nil {
					wantErr = true
				} else {
					set(b)
				}
				res, err = e.SetTo(sym, val)
			case "BindToProtected":
				b := m.find(o.sym)
				if b == nil {
					b = &mbind{}
					m.b[o.sym] = b
				}
				b.v, b.prot = i+1, true
				res = e.BindToProtected(sym, val)
			case "DeleteBinding":
				delete(m.b, o.sym)
				e.DeleteBinding(o.sym)
				res = val
			}
			gotErr = err != nil
			if gotErr != wantErr || !wantErr && g.IntegerValue(res) != int64(i+1) {
				t.Fail("environment", "%s gives %s, %v; should be an error: %v", text, canon(res), err, wantErr)
				return
			}
		}
		for j, e := range ge {
			for _, s := range []string{"mca", "mcb"} {
				sym := g.Intern(s)
				want := me[j].value(s)
				d := e.ValueOf(sym)
				got := -1
				if !g.NilP(d) {
					got = int(g.IntegerValue(d))
				}
				b, found := e.FindBindingFor(sym)
				mb := me[j].find(s)
				lb, local := e.BindingNamed(s)
				if got != want || found != (mb != nil) || found && (g.IntegerValue(b.Val) != int64(mb.v) || b.Protected != mb.prot || b.Sym != sym) || local != (me[j].b[s] != nil) || local && g.IntegerValue(lb.Val) != int64(me[j].b[s].v) {
					t.Fail("environment", "%s leaves %s in e%d as %d, found %v, local %v; should be %d, %v, %v", text, s, j, got, found, local, want, mb != nil, me[j].b[s] != nil)
					return
				}
				ev, err := g.Eval(sym, e)
				if err != nil || canon(ev) != canon(d) {
					t.Fail("environment", "%s: evaluating %s in e%d gives %s, %v, ValueOf gives %s", text, s, j, canon(ev), err, canon(d))
					return
				}
			}
		}
		t.Trace(1)
		t.Steps(len(seq))
		t.State(text)
	}
	for v := 0; v < 3; v++ {
		for a := range ops {
			v, a := v, a
			gg.Case(fmt.Sprintf("environments %d %d", v, a), func(t *core.T) {
				seq := []int{a}
				var rec func()
				rec = func() {
					if t.Expired() || t.Failed() {
						return
					}
					run(t, v, seq)
					if len(seq) == depth {
						return
					}
					for c := range ops {
						seq = append(seq, c)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			})
		}
	}
}

// ---- frames from Go

type mframe struct{ m map[string]any } // int or *mframe

// lookup is depth first; amb when two parents disagree.
func (f *mframe) lookup(key string) (v any, found, amb bool) {
	if v, ok := f.m[key]; ok {
		return v, true, false
	}
	// which parent comes first is open: all orders must agree
	ps := f.parents()
	if len(ps) > 1 {
		var vals []any
		for _, o := range perms(len(ps)) {
			seen := map[*mframe]bool{f: true}
			var r any
			ok := false
			for _, i := range o {
				if r, ok = ps[i].search(key, seen); ok {
					break
				}
			}
			if !ok {
				r = nil
			}
			vals = append(vals, r)
		}
		for _, x := range vals {
			if x != vals[0] {
				return nil, true, true
			}
		}
		return vals[0], vals[0] != nil, false
	}
	v, found = f.search(key, map[*mframe]bool{})
	return v, found, false
}

func (f *mframe) parents() []*mframe {
	var ks []string
	for k, v := range f.m {
		if _, ok := v.(*mframe); ok && strings.HasSuffix(k, "*:") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var r []*mframe
	for _, k := range ks {
		r = append(r, f.m[k].(*mframe))
	}
	return r
}

func (f *mframe) search(key string, seen map[*mframe]bool) (any, bool) {
	if seen[f] {
		return nil, false
	}
	seen[f] = true
	if v, ok := f.m[key]; ok {
		return v, true
	}
	for _, p := range f.parents() {
		if v, ok := p.search(key, seen); ok {
			return v, true
		}
	}
	return nil, false
}

func perms(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	return [][]int{{0, 1}, {1, 0}}
}

func genHostFrame(gg *core.G, deep bool) {
	type op struct {
		kind string
		f    int
		key  string
		to   int
	}
	var ops []op
	for f := 0; f < 3; f++ {
		for _, k := range []string{"a:", "b:"} {
			ops = append(ops, op{"set", f, k, -1}, op{"remove", f, k, 0})
		}
		for p := 0; p < 3; p++ {
			ops = append(ops, op{"set", f, "p*:", p})
		}
		ops = append(ops, op{"remove", f, "p*:", 0}, op{"set", f, "q*:", (f + 1) % 3}, op{"clone", f, "", (f + 1) % 3}, op{"set", f, "q*:", -1})
	}
	depth := 4
	if deep {
		depth = 5
	}
	run := func(t *core.T, seq []int) {
		t.Progress()
		var mf []*mframe
		var gf []*g.FrameMap
		for i := 0; i < 3; i++ {
			mf = append(mf, &mframe{m: map[string]any{}})
			gf = append(gf, &g.FrameMap{Data: g.FrameMapData{}})
		}
		name := map[*g.FrameMap]int{}
		text := ""
		for i, k := range seq {
			o := ops[k]
			switch o.kind {
			case "set":
				text += fmt.Sprintf(" f%d.Set(%s %d %d)", o.f, o.key, o.to, i+1)
				var d, r *g.Data
				if o.to >= 0 {
					mf[o.f].m[o.key] = mf[o.to]
					d = g.FrameWithValue(gf[o.to])
				} else {
					mf[o.f].m[o.key] = i + 1
					d = g.IntegerWithValue(int64(i + 1))
				}
				if r = gf[o.f].Set(o.key, d); r != d {
					t.Fail("frame", "%s does not return the value", text)
				}
			case "remove":
				text += fmt.Sprintf(" f%d.Remove(%s)", o.f, o.key)
				_, want := mf[o.f].m[o.key]
				delete(mf[o.f].m, o.key)
				if got := gf[o.f].Remove(o.key); got != want {
					t.Fail("frame", "%s gives %v", text, got)
				}
			case "clone":
				// f becomes a clone of to
				text += fmt.Sprintf(" f%d=f%d.Clone()", o.f, o.to)
				c := &mframe{m: map[string]any{}}
				for k, v := range mf[o.to].m {
					c.m[k] = v
				}
				mf[o.f] = c
				gf[o.f] = gf[o.to].Clone()
			}
		}
		for i := range gf {
			name[gf[i]] = i
		}
		same := func(d *g.Data, v any) bool {
			switch x := v.(type) {
			case nil:
				return d == nil
			case int:
				return g.IntegerP(d) && g.IntegerValue(d) == int64(x)
			case *mframe:
				if !g.FrameP(d) {
					return false
				}
				for i, f := range mf {
					if f == x {
						return g.FrameValue(d) == gf[i]
					}
				}
				return true // a frame that has since been replaced
			}
			return false
		}
		for i, f := range gf {
			for _, k := range []string{"a:", "b:", "p*:", "q*:", "zz:"} {
				v, found, amb := mf[i].lookup(k)
				if amb {
					if !f.HasSlot(k) {
						t.Fail("frame", "after%s f%d has no slot %s", text, i, k)
					}
					continue
				}
				d, ok := f.Lookup(k)
				if f.HasSlot(k) != found || ok != found || !same(f.Get(k), v) || !same(d, v) {
					t.Fail("frame", "after%s f%d slot %s is %s (%v, %v), should be %v (%v)", text, i, k, canon(f.Get(k)), ok, f.HasSlot(k), v, found)
					return
				}
			}
			var ks []string
			for _, k := range f.Keys() {
				ks = append(ks, g.StringValue(k))
			}
			sort.Strings(ks)
			var want []string
			for k := range mf[i].m {
				want = append(want, k)
			}
			sort.Strings(want)
			if strings.Join(ks, " ") != strings.Join(want, " ") || len(f.Values()) != len(want) || len(f.Parents()) != len(mf[i].parents()) {
				t.Fail("frame", "after%s f%d has keys %v, %d values, %d parents, should have %v", text, i, ks, len(f.Values()), len(f.Parents()), want)
				return
			}
		}
		t.Trace(1)
		t.Steps(len(seq))
		t.State(text)
	}
	for a := range ops {
		for b := range ops {
			a, b := a, b
			gg.Case(fmt.Sprintf("frames %d %d", a, b), func(t *core.T) {
				seq := []int{a, b}
				var rec func()
				rec = func() {
					if t.Expired() || t.Failed() {
						return
					}
					run(t, seq)
					if len(seq) == depth {
						return
					}
					for c := range ops {
						seq = append(seq, c)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			})
		}
	}
}
