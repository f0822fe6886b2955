package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/core"
)

const libRule = "every call over the bounded argument sets and every bounded history gives the results of the reference model, and leaves the arguments as the model does"

var libAssume = []string{"the reference model in mc/ref states the intended semantics", "calls whose meaning the property leaves open are skipped and counted"}

func init() {
	for id, gen := range map[string]func(*core.G){"C22": genC22, "C23": genC23, "C25": genC25, "C26": genC26, "C19": genC19} {
		core.Register(&core.Check{
			ID: id, Level: "model_checking", Chunk: 1, Stall: 40 * time.Second,
			Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
			Rule: libRule, Assumptions: libAssume, Gen: gen,
		})
	}
}

// association lists
func genC22(gg *core.G) {
	largeAlists(gg)
	deep := gg.Thorough()
	ents := []string{"(a . 1)", "(b . 2)", "(a . 3)", "(\"k\" . a)", "(1 . (x))", "((q) . 1)"}
	n := 3
	if deep {
		n = 4
	}
	als := lists(ents, 0, n)
	alf := make([]string, 0, len(als))
	for _, a := range als {
		alf = append(alf, "(alist "+a+")")
	}
	bigs := []string{}
	for _, k := range sizes {
		if k > 0 {
			bigs = append(bigs, "'("+rep(k, func(i int) string { return fmt.Sprintf("(k%d . %d)", i, i) })+")")
		}
	}
	keys := []string{"'a", "'b", "'c", "\"k\"", "1", "'(q)", "()", "2", "#f", "'k0", "'k1", "'k63", "'k64", "'k99", "'k128", "\"a\"", "1.0"}
	vals := []string{"1", "2", "3", "'a", "'(x)", "()", "63", "64", "128", "1.0", "\"k\""}
	for _, f := range []string{"assq", "assv", "assoc", "dissoc"} {
		calls(gg, "lookup", f, keys, als)
		calls(gg, "lookup alist", f, keys, alf)
		calls(gg, "lookup big", f, keys, bigs)
		calls(gg, "lookup any", f, cat(keys, anyValues), anyValues)
	}
	calls(gg, "lookup", "rassoc", vals, als)
	calls(gg, "lookup alist", "rassoc", vals, alf)
	calls(gg, "lookup big", "rassoc", vals, bigs)
	calls(gg, "lookup any", "rassoc", cat(vals, anyValues), anyValues)
	calls(gg, "make", "alist", cat(als, bigs, anyValues, []string{"'(1 2)", "'(() (a . 1))", "'((a 1) (b 2 3))"}))
	for _, f := range []string{"alist?", "list?", "pair?", "length", "copy", "car", "cdr", "reverse"} {
		calls(gg, "of alist", f, cat(als, alf, anyValues))
	}
	calls(gg, "acons", "acons", keys, vals, cat(als, alf, anyValues))
	calls(gg, "acons2", "acons", keys, vals)
	ks := lists([]string{"a", "b", "1"}, 0, n)
	vs := lists([]string{"1", "(x)", "()"}, 0, n)
	calls(gg, "pairlis", "pairlis", ks, vs)
	calls(gg, "pairlis", "pairlis", ks, vs, []string{"()", "'((z . 1))", "(alist '((a . 9)))"})
	calls(gg, "pairlis any", "pairlis", cat(anyValues, ks[:4]), cat(anyValues, vs[:4]))
	for _, k := range sizes {
		bk := "'(" + rep(k, func(i int) string { return fmt.Sprintf("k%d", i) }) + ")"
		progs(gg, "pairlis "+num(k), "(define al (pairlis "+bk+" "+distinct(k)+"))|(assoc _ al)", "al", cat(keys, []string{fmt.Sprintf("'k%d", k-1), fmt.Sprintf("'k%d", k)}))
	}
	// histories of one alist
	ops := []string{"(set! l (acons 'a 1 l))", "(set! l (acons 'b 2 l))", "(set! l (acons 'a 3 l))", "(set! l (dissoc 'a l))", "(set! l (dissoc 'b l))", "(mc-log (assoc 'a l))", "(mc-log (rassoc 1 l))", "(set-cdr! (assoc 'a l) 7)", "(set! l (pairlis '(c a) '(4 5) l))", "(set! m (copy l))", "(set! l (alist l))", "(mc-log (assoc 'b m))", "(set! l (cdr l))"}
	inits := []string{"()", "'((a . 0))", "(alist '((b . 9) (a . 8)))", "(list (cons 'b 9) (cons 'c 8))"}
	for _, o := range ops {
		progs(gg, "history", "(define l _)|(define m l)|"+o+"|_|_", "l|m|(assoc 'a l)|(assoc 'b l)|(rassoc 3 l)", inits, ops, ops)
		if deep {
			progs(gg, "history4", "(define l _)|(define m l)|"+o+"|_|_|_", "l|m|(assoc 'a l)|(assoc 'b l)|(rassoc 3 l)", inits, ops, ops, ops)
		}
	}
}

func bytesLit(n, base int) string {
	return "[" + rep(n, func(i int) string { return fmt.Sprint((base + i) % 256) }) + "]"
}

// byte arrays
func genC23(gg *core.G) {
	largeBytes(gg)
	deep := gg.Thorough()
	bs := []string{"0", "1", "127", "128", "255"}
	k := 3
	if deep {
		k = 4
	}
	var arrs []string
	for n := 0; n <= k; n++ {
		power(bs, n, func(v []string) { arrs = append(arrs, "["+strings.Join(v, " ")+"]") })
	}
	var few []string
	for n := 0; n <= 2; n++ {
		power([]string{"0", "128", "255"}, n, func(v []string) { few = append(few, "["+strings.Join(v, " ")+"]") })
	}
	// characters that share lead or trail bytes: é C3A9, è C3A8, ĩ C4A9, 日 E697A5, 旦 E697A6, é as e + U+0301
	var multi []string
	words([]string{"é", "è", "ĩ", "日", "旦", "a"}, 2, func(v []string) { multi = append(multi, "\""+strings.Join(v, "")+"\"") })
	words([]string{"é", "ĩ", "a"}, 3, func(v []string) {
		if len(v) == 3 {
			multi = append(multi, "\""+strings.Join(v, "")+"\"")
		}
	})
	multi = append(multi, "\"e\u0301\"", "\"\U0001F600\"", "\"x\U0001F601\"")
	var big []string
	for _, n := range sizes {
		big = append(big, bytesLit(n, 250))
	}
	big = append(big, bytesLit(255, 0), bytesLit(256, 0), bytesLit(257, 0))
	elems := []string{"0", "1", "255", "256", "-1", "128", "257", "65535", "4294967295", "4294967296", "4294967551", "9223372036854775807", "-9223372036854775808", "-256", "1.0", "\"a\"", "a", "()", "#t", "(1)", "{a: 1}"}
	for _, f := range []string{"list-to-bytearray", "list->bytearray"} {
		calls(gg, "make", f, cat(lists(elems, 0, 2), anyValues))
		calls(gg, "make", f, lists([]string{"0", "255", "256", "a"}, 0, 4))
		calls(gg, "make nested", f, []string{"(list [1 2] 3)", "(list 0 [255] [128])", "(list [])", "(list 1 [] 2)", "(list [1] 256)", "(list [1] 'x)", "(list {a: 1})", "(list 1 {b: 2} 3)"})
		for _, n := range append(append([]int{}, sizes...), 255, 256, 257) {
			l := "'(" + rep(n, func(i int) string { return fmt.Sprint((i * 7) % 256) }) + ")"
			progs(gg, "make big "+num(n), "(define l "+l+")|(define r ("+f+" l))|(bytearray->list r)|(extract-byte r _)", "l|r", []string{"0", num(n - 1), num(n), num(n / 2)})
		}
	}
	for _, f := range []string{"bytearray-to-list", "bytearray->list", "bytearray?", "length", "copy", "append-bytes", "append-bytes!"} {
		calls(gg, "unary", f, cat(arrs, big, anyValues))
	}
	idx := cat(ints(-2, 6), []string{"31", "32", "63", "64", "65", "99", "100", "101", "127", "128", "129", "130", "254", "255", "256", "257", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "-9223372036854775808", "1.0", "'x", "()", "#t"})
	vals := []string{"0", "1", "127", "128", "255", "256", "257", "-1", "-256", "4294967296", "4294967551", "9223372036854775807", "-9223372036854775808", "1.5", "'x", "()", "\"a\""}
	calls(gg, "index", "extract-byte", cat(arrs, big), idx)
	calls(gg, "index any", "extract-byte", anyValues, idx)
	for _, f := range []string{"replace-byte", "replace-byte!"} {
		calls(gg, "index", f, cat(few, big), idx, []string{"7", "255", "256", "-1"})
		calls(gg, "index vals", f, []string{"[]", "[1 2 3]", bytesLit(100, 0), "(list->bytearray '(4 5))"}, []string{"0", "1", "2", "3", "-1", "64", "99", "'x"}, vals)
		calls(gg, "index any", f, anyValues, []string{"0", "1", "5"}, []string{"0", "255", "'x"})
	}
	small := append(ints(-2, 7), "4294967296", "9223372036854775807", "-9223372036854775808", "'x", "1.0")
	for _, n := range []int{0, 1, 2, 3, 4, 5} {
		calls(gg, "extract "+num(n), "extract-bytes", []string{bytesLit(n, 254)}, small, small)
	}
	wide := []string{"0", "1", "31", "32", "33", "63", "64", "65", "66", "99", "100", "101", "255", "256", "257", "-1"}
	for _, n := range []int{32, 64, 65, 100, 128, 255, 256, 257} {
		calls(gg, "extract "+num(n), "extract-bytes", []string{bytesLit(n, 3)}, wide, wide)
	}
	calls(gg, "extract any", "extract-bytes", anyValues, []string{"0", "1", "'x"}, []string{"0", "1", "'x"})
	app := cat(few, []string{"0", "255", "256", "-1", "'(1 2)", "'(1 255)", "'(1 256)", "()", "'x", "\"ab\"", "1.5", "'(1 (2))", "(list [1] 2)", bytesLit(64, 0), bytesLit(65, 0), bytesLit(100, 0)})
	for _, f := range []string{"append-bytes", "append-bytes!"} {
		calls(gg, "append", f, cat(few, big, anyValues), app)
		calls(gg, "append3", f, []string{"[]", "[1]", "[1 2 3]", bytesLit(64, 9)}, app, app)
		calls(gg, "append4", f, []string{"[]", "[7 8]"}, []string{"1", "[2 3]", "'(4)", "256"}, []string{"1", "[2 3]", "'(4)", "-1"}, []string{"1", "[]", "'(4 5)", "'x"})
		calls(gg, "append none", f)
	}
	// histories: aliases see in-place changes, copies do not
	ops := []string{"(replace-byte! a 0 9)", "(replace-byte! b 1 255)", "(replace-byte! a 1 256)", "(append-bytes! a 7)", "(append-bytes! b [8 6])", "(append-bytes! a b)", "(set! b (append-bytes a 5))", "(set! b (replace-byte a 0 3))", "(set! b (copy a))", "(set! b a)", "(set! b (extract-bytes a 0 2))", "(set! a (extract-bytes b 1 1))", "(set! b (list->bytearray (bytearray->list a)))", "(set! b (append-bytes a))", "(mc-log (== a b))", "(set! c b)", "(append-bytes! a '(1 300))", "(set! b (append-bytes! c 2))", "(set! b (extract-bytes a 0 (length a)))", "(set! b (append-bytes a []))", "(set! b (append-bytes [] a))", "(set! b (replace-byte a 0 (extract-byte a 0)))", "(set! b (take (length a) a))", "(set! b (drop 0 a))"}
	for _, o := range ops {
		progs(gg, "history", "(define a [1 2 3])|(define b _)|(define c a)|"+o+"|_|_", "a|b|c|(length a)|(bytearray->list b)", []string{"a", "[4 5]"}, ops, ops)
		if deep {
			progs(gg, "history4", "(define a [1 2 3])|(define b _)|(define c a)|"+o+"|_|_|_", "a|b|c", []string{"a", "[4 5]"}, ops, ops, ops)
		}
	}
	// literals are made anew by every evaluation of the surrounding program
	progs(gg, "equality", "(== _ _)|(== (list _ 1) (list _ 1))", "", few, few, few, few)
}

var intEdge = []string{"0", "1", "-1", "2", "-2", "3", "-3", "7", "-7", "10", "63", "64", "65", "100", "255", "256", "16777215", "16777216", "16777217", "-16777217", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "1000000007", "999999999999", "3037000499", "3037000500", "4611686018427387904", "-4611686018427387904", "4611686018427387905", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808"}
var floatVals = []string{"0.0", "1.5", "-2.5", "0.5", "16777216.0", "3.25", "-0.5", "2.0"}

func genC25(gg *core.G) {
	deep := gg.Thorough()
	nonnum := []string{"\"1\"", "'x", "()", "#t", "'(1)", "[1]", "{a: 1}", "car"}
	nums := cat(intEdge, floatVals)
	arith := []string{"+", "-", "*", "/", "quotient", "%", "modulo", "<", ">", "<=", ">=", "==", "!=", "eq?", "eqv?", "equal?", "neq?", "binary-and", "binary-or", "left-shift", "right-shift", "pow"}
	for _, f := range arith {
		calls(gg, "two", f, nums, nums)
		calls(gg, "two bad", f, nonnum, cat([]string{"0", "2", "1.5"}, nonnum))
		calls(gg, "two bad", f, []string{"0", "2", "1.5"}, nonnum)
		calls(gg, "small", f, ints(-17, 17), ints(-17, 17))
	}
	for _, f := range []string{"left-shift", "right-shift"} {
		calls(gg, "shift", f, intEdge, ints(-2, 70))
	}
	for _, f := range []string{"succ", "pred", "abs", "zero?", "positive?", "negative?", "even?", "odd?", "sign", "integer", "float", "floor", "ceiling", "number?", "integer?", "float?", "binary-not", "inf?", "nan?", "float->bits", "bits->float", "number->string", "+", "*"} {
		calls(gg, "one", f, cat(nums, nonnum))
		calls(gg, "one small", f, ints(-300, 300))
	}
	core3 := []string{"0", "1", "-1", "2", "-3", "16777217", "9007199254740993", "9223372036854775807", "-9223372036854775808", "1.5", "'x"}
	for _, f := range []string{"+", "-", "*", "/", "quotient"} {
		calls(gg, "none", f)
		calls(gg, "three", f, core3, core3, core3)
		calls(gg, "four", f, core3[:8], core3[:8], core3[:8], core3[:8])
		if deep {
			calls(gg, "five", f, core3, core3, core3, core3, core3)
		}
		large(gg, cati(farSizes, []int{10001, 65537}), "", "("+f+" {l})", "("+f+" {n} 1.5 {l})", "(apply "+f+" {n} (list 1 2 {l}))", "("+f+" 9223372036854775807 1 {l} -3)", "("+f+" 5 7 {l} 'x)", "(apply "+f+" 1000000000000 (map (lambda (x) (+ 1 (% x 2))) (list {l})))")
		for _, n := range sizes {
			progs(gg, "many "+num(n), "("+f+" "+rep(n, func(i int) string { return fmt.Sprint(i*7919 + 1) })+" _)|(apply "+f+" (list "+rep(n, func(i int) string { return fmt.Sprint(i + 1) })+" _))", "", []string{"3", "-1", "1.5", "'x"})
		}
	}
	ls := lists([]string{"0", "3", "-5", "2.5", "9223372036854775807", "-9223372036854775808", "16777217"}, 0, 3)
	for _, f := range []string{"min", "max"} {
		progs(gg, "pairs", "("+f+" (list _ _))", "", nums, nums)
		progs(gg, "triples", "("+f+" (list _ _ _))", "", core3, nums, core3)
		large(gg, cati(farSizes, hugeSizes), "", "("+f+" (list {l} -1 {n+5} 3))", "("+f+" (reverse (list {l})))", "("+f+" (list {n} {l} 1.5))", "("+f+" (list {l} 'x))")
		calls(gg, "list", f, cat(ls, anyValues, []string{"'(1 x)", "'(x 1)", "'(1 (2))"}))
		for _, n := range sizes {
			for at := 0; at < n; at += 1 + n/13 {
				calls(gg, fmt.Sprintf("list %d %d", n, at), f, []string{"'(" + rep(n, func(i int) string {
					if i == at {
						return "1000"
					}
					return fmt.Sprint(i)
				}) + ")", "'(" + rep(n, func(i int) string {
					if i == at {
						return "-1000"
					}
					return fmt.Sprint(-i)
				}) + ")"})
			}
		}
	}
	// text and back
	calls(gg, "text", "number->string", intEdge, []string{"2", "8", "10", "16"})
	calls(gg, "text", "number->string", ints(-40, 40), ints(2, 36))
	strs := []string{}
	for _, i := range intEdge {
		strs = append(strs, "\""+i+"\"")
	}
	calls(gg, "text", "string->number", strs)
	calls(gg, "text", "string->number", cat([]string{"\"0\"", "\"1\"", "\"10\"", "\"-11\"", "\"777\"", "\"zz\"", "\"ff\"", "\"-7F\"", "\"12\"", "\"\"", "\"7fffffffffffffff\"", "\"-8000000000000000\""}), []string{"2", "8", "10", "16"})
	progs(gg, "text round trip", "(define s (number->string _ _))|(string->number s _)", "", intEdge, []string{"10", "2", "8", "16"}, []string{"10", "2", "8", "16"})
	progs(gg, "literals", "_|(list _ '_ (+ 0 _))", "", nums, nums, nums[:9], nums[:7])
	// laws on the edge values hold through the primitives
	progs(gg, "division", "(define a _)|(define b _)|(+ (* b (quotient a b)) (% a b))|(quotient a b)|(% a b)", "", intEdge, intEdge)
	progs(gg, "expressions", "(_ (_ _ _) _)", "", []string{"+", "-", "*", "quotient", "%", "<", "=="}, []string{"+", "-", "*", "quotient", "%"}, core3[:9], core3[:9], core3[:9])
}

var strEdge = []string{"\"\"", "\"a\"", "\"b\"", "\"A\"", "\"ab\"", "\"aB\"", "\"ba\"", "\"aab\"", "\"abab\"", "\" a \"", "\"a b\"", "\"a,b,,c\"", "\",\"", "\"\\\"\"", "\"\\\\\"", "\"\\n\"", "\"é\"", "\"aé日b\"", "\"ÀÉ\"", "\"ß\"", "\"İ\"", "\"\t\"", "\"  \"", "\"hello world foo\"", "\"xxaxx\""}

func genC26(gg *core.G) {
	largeStrings(gg)
	deep := gg.Thorough()
	k := 3
	if deep {
		k = 5
	}
	var abc []string
	words([]string{"a", "b", " "}, k, func(v []string) { abc = append(abc, "\""+strings.Join(v, "")+"\"") })
	var cases []string
	words([]string{"a", "Z", "é", " "}, 3, func(v []string) { cases = append(cases, "\""+strings.Join(v, "")+"\"") })
	// characters that share lead or trail bytes: é C3A9, è C3A8, ĩ C4A9, 日 E697A5, 旦 E697A6, é as e + U+0301
	var multi []string
	words([]string{"é", "è", "ĩ", "日", "旦", "a"}, 2, func(v []string) { multi = append(multi, "\""+strings.Join(v, "")+"\"") })
	words([]string{"é", "ĩ", "a"}, 3, func(v []string) {
		if len(v) == 3 {
			multi = append(multi, "\""+strings.Join(v, "")+"\"")
		}
	})
	multi = append(multi, "\"e\u0301\"", "\"\U0001F600\"", "\"x\U0001F601\"")
	var big []string
	for _, n := range sizes {
		big = append(big, "\""+strings.ReplaceAll(rep(n, func(i int) string { return string(rune('a' + i%26)) }), " ", "")+"\"")
	}
	all := cat(strEdge, abc, big)
	one := []string{"string-upcase", "string-downcase", "string-capitalize", "string-length", "string-null?", "string-trim", "string-trim-left", "string-trim-right", "string?", "intern", "str", "string-upcase!", "string-downcase!", "string-capitalize!", "length", "copy"}
	for _, f := range one {
		calls(gg, "one", f, cat(all, cases, anyValues))
	}
	two := []string{"string=?", "string-ci=?", "string<?", "string-ci<?", "string>?", "string-ci>?", "string<=?", "string-ci<=?", "string>=?", "string-ci>=?", "substring?", "string-prefix?", "string-suffix?", "string-split", "str", "string-trim", "string-trim-left", "string-trim-right", "=="}
	for _, f := range two {
		calls(gg, "two", f, cat(strEdge, abc), cat(strEdge, abc))
		calls(gg, "two cases", f, cases, cases)
		calls(gg, "two multibyte", f, multi, multi)
		calls(gg, "two big", f, big, cat(big, []string{"\"a\"", "\"z\"", "\"\"", "\"xyz\"", "\"abc\""}))
		calls(gg, "two any", f, anyValues, anyValues)
	}
	// exactly one of ci =, < and > holds, also of letters with unusual cases
	var odd []string
	words([]string{"s", "ſ", "K", "\u212a", "k", "σ", "ς", "Σ", "ß", "ẞ", "İ", "ı", "i", "I", "ǅ", "ǆ", "µ", "μ", "Å", "å", "\u212b"}, 2, func(v []string) {
		if len(v) == 1 || len(v) == 2 && (v[0] == "s" || v[1] == "σ") {
			odd = append(odd, "\""+strings.Join(v, "")+"\"")
		}
	})
	progs(gg, "ci order", "(define a _)|(define b _)|(+ (if (string-ci=? a b) 1 0) (if (string-ci<? a b) 1 0) (if (string-ci>? a b) 1 0))|(== (string-ci<=? a b) (not (string-ci>? a b)))|(== (string-ci>=? a b) (not (string-ci<? a b)))|(== (string-ci=? a b) (string-ci=? b a))|(== (string-ci<? a b) (string-ci>? b a))", "", odd, odd)
	var ab5 []string
	words([]string{"a", ","}, 6, func(v []string) { ab5 = append(ab5, "\""+strings.Join(v, "")+"\"") })
	calls(gg, "split", "string-split", ab5, []string{"\",\"", "\"a\"", "\",,\"", "\"a,\"", "\"\""})
	for _, sep := range []string{"\",\"", "\"\"", "\"ab\"", "\" \""} {
		progs(gg, "split join "+sep, "(define s _)|(string-join (string-split s "+sep+") "+sep+")", "s", cat(strEdge, ab5))
	}
	for _, n := range sizes {
		l := "(list " + rep(n, func(i int) string { return fmt.Sprintf("\"s%d\"", i) }) + ")"
		progs(gg, "join "+num(n), "(define s (string-join "+l+" _))|(string-length s)|(string-split s _)", "s", []string{"\",\"", "\"\"", "\"--\""}, []string{"\",\"", "\"--\""})
	}
	sl := cat(freshLists([]string{"\"a\"", "\"\"", "\"b,\""}, 0, 3), []string{"(list 1 2)", "(list \"a\" 'b)", "5", "()", "\"x\""})
	calls(gg, "join", "string-join", sl)
	calls(gg, "join", "string-join", sl, []string{"\",\"", "\"\"", "\"ab\"", "5", "()"})
	calls(gg, "substring", "substring", []string{"\"\"", "\"a\"", "\"abc\"", "\"abcdef\""}, ints(-2, 8), ints(-2, 8))
	calls(gg, "substring", "substring", big[16:], []string{"0", "1", "31", "32", "63", "64", "65", "99", "100"}, []string{"0", "1", "32", "63", "64", "65", "66", "99", "100", "101", "129", "4294967297"})
	calls(gg, "substring bad", "substring", anyValues, []string{"0", "1", "'x", "1.5"}, []string{"0", "1", "2", "'x", "1.5"})
	sv := []string{"\"a\"", "\"b c\"", "1", "-5", "'sym", "'(1 \"x\")", "()", "#t", "\"\"", "'key:", "[1 255]", "\"\\\"q\\\"\"", "'(a . b)"}
	calls(gg, "str", "str", sv, sv, sv)
	calls(gg, "str0", "str")
	// in place: aliases change, others do not
	ops := []string{"(string-upcase! s)", "(string-downcase! s)", "(string-capitalize! s)", "(set! u (string-upcase s))", "(set! u (string-downcase s))", "(set! u s)", "(set! u (str s))", "(set! u (copy s))", "(set! s (str s u))", "(set! u (substring s 0 1))", "(string-upcase! u)", "(string-capitalize! u)", "(set! s (string-trim s))"}
	for _, o := range ops {
		progs(gg, "history", "(define s _)|(define v s)|(define u \"uV\")|"+o+"|_|_", "s|u|v|(string=? s u)|(string-length s)", []string{"\"aB cd\"", "\"éÀ x\"", "\"\"", "(str \"Ab\")"}, ops, ops)
	}
	calls(gg, "parse", "parse", []string{"\"1\"", "\"(1 2)\"", "\"'a\"", "\"a:\"", "\"\\\"s\\\"\"", "\"#t\"", "\"[1 2]\"", "\"{a: 1}\"", "\"(1 . 2)\"", "\"(a (b (c)))\"", "\"`(a ,b)\"", "\"-5\"", "\"1.5\""})
}

// equality
func genC19(gg *core.G) {
	largeEqual(gg)
	atoms := []string{"0", "1", "-1", "2", "16777216", "16777217", "9007199254740992", "9007199254740993", "9223372036854775807", "-9223372036854775808", "1.0", "1.5", "16777216.0", "\"\"", "\"a\"", "\"A\"", "\"1\"", "'a", "'b", "'a:", "#t", "#f", "()", "[]", "[1]", "[1 2]", "[2 1]", "{}", "{a: 1}", "{a: 2}", "{b: 1}", "{a: 1 b: 2}", "{b: 2 a: 1}", "car", "cdr"}
	ts := []string{"'(1)", "'(1 2)", "'(2 1)", "'(1 . 2)", "'(1 2 . 3)", "'((1) 2)", "'(1 (2))", "'((a . 1))", "'((a . 1) (b . 2))", "'((b . 2) (a . 1))", "(alist '((a . 1) (b . 2)))", "(alist '((b . 2) (a . 1)))", "(alist '((a . 1)))", "'(())", "'(() ())", "(list [1] {a: 1})", "(list [1] {a: 2})", "{a: (1 2)}", "{a: {b: 1}}", "{a: {b: 2}}", "{a: [1]}", "{a: [2]}", "'(\"a\" a)", "'(a \"a\")", "'((1 . 2) . 3)", "'(1 (2 (3 (4))))", "'(1 (2 (3 (5))))", "{a: ()}", "{a: #f}", "{a: 1.0}",
		"{a: 1 p*: {b: 1}}", "{a: 1 p*: {b: 2}}", "{a: 1 q*: {b: 1}}", "{a: 1 p*: {b: 1 q*: {}}}", "{p*: {a: 1}}", "{a: 1 p*: ()}", "(lambda (x) x)", "(list (lambda (x) x))", "{a: (lambda (x) x)}", "(mc-host)"}
	all := cat(atoms, ts)
	eqs := []string{"==", "eq?", "eqv?", "equal?", "!=", "neq?"}
	for _, f := range eqs {
		calls(gg, "pair", f, all, all)
		calls(gg, "list", f, lists([]string{"1", "2", "(1)", "()"}, 0, 3), lists([]string{"1", "2", "(1)", "()"}, 0, 3))
		for _, n := range sizes {
			if n == 0 {
				continue
			}
			n, f := n, f
			gg.Case(fmt.Sprintf("long %s %d", f, n), func(t *core.T) {
				mk := func(at int, v string, open, close string, item func(i int) string) string {
					return open + rep(n, func(i int) string {
						if i == at {
							return v
						}
						return item(i)
					}) + close
				}
				for _, s := range []struct {
					o, c, v string
					item    func(i int) string
				}{
					{"'(", ")", "x", func(i int) string { return fmt.Sprint(i) }},
					{"'(", ")", "(0 . z)", func(i int) string { return fmt.Sprintf("(k%d . %d)", i, i) }},
					{"(alist '(", "))", "(kz . 0)", func(i int) string { return fmt.Sprintf("(k%d . %d)", i, i) }},
					{"[", "]", "200", func(i int) string { return fmt.Sprint(i % 100) }},
					{"{", "}", "z: 0", func(i int) string { return fmt.Sprintf("s%d: %d", i, i) }},
					{"{", "}", "s0: 500", func(i int) string { return fmt.Sprintf("s%d: (%d)", i, i) }},
				} {
					base := mk(-1, "", s.o, s.c, s.item)
					diff(t, callProg(f, []string{base, base}))
					for at := 0; at < n; at++ {
						diff(t, callProg(f, []string{base, mk(at, s.v, s.o, s.c, s.item)}))
						diff(t, callProg(f, []string{mk(at, s.v, s.o, s.c, s.item), base}))
					}
				}
			})
		}
		// nesting
		gg.Case("deep "+f, func(t *core.T) {
			for _, n := range sizes {
				for _, w := range [][2]string{{"(", ")"}, {"(1 ", ")"}, {"(", " 2)"}, {"(1 . ", ")"}, {"(", " . 2)"}} {
					x := "'" + strings.Repeat(w[0], n) + "9" + strings.Repeat(w[1], n)
					y := "'" + strings.Repeat(w[0], n) + "8" + strings.Repeat(w[1], n)
					z := "'" + strings.Repeat(w[0], n+1) + "9" + strings.Repeat(w[1], n+1)
					for _, v := range []string{x, y, z} {
						diff(t, callProg(f, []string{x, v}))
						diff(t, callProg(f, []string{v, x}))
					}
				}
				fr := func(n int, leaf string) string { return strings.Repeat("{a: ", n) + leaf + strings.Repeat("}", n) }
				if n <= 12 {
					for _, v := range []string{fr(n, "9"), fr(n, "8"), fr(n+1, "9")} {
						diff(t, callProg(f, []string{fr(n, "9"), v}))
					}
				}
			}
		})
	}
	// equality is what the rest of the library uses
	for _, f := range []string{"(member _ (list 7 _))", "(assoc _ (list (cons 'q 1) (cons _ 2)))", "(case _ ((zz) 1) ((_) 2) (else 3))", "(intersection (list _) (list _))", "(union (list _) (list _))", "(complement (list _) (list _))", "(rassoc _ (list (cons 1 _)))"} {
		al := all
		if strings.HasPrefix(f, "(case") {
			al = nil
			for _, a := range all {
				if a[0] == '\'' {
					al = append(al, a)
				} else if a[0] != '(' && !strings.Contains(a, "lambda") && a != "car" && a != "cdr" {
					al = append(al, a)
				}
			}
		}
		unq := al
		if strings.HasPrefix(f, "(case") {
			unq = nil
			for _, a := range al {
				unq = append(unq, strings.TrimPrefix(a, "'"))
			}
		}
		progs(gg, "used by", f, "", al, unq)
	}
	// equality follows mutation
	progs(gg, "mutation", "(define a _)|(define b (copy a))|(== a b)|_|(== a b)|(!= a b)|_|(== a b)", "a|b", []string{"(list 1 2)", "(list 1 (list 2))", "(list (list 1) 2)"}, []string{"(set-car! a 9)", "(set-car! b 9)", "(set-cdr! a '(9))", "(set-nth! b 1 9)", "(append! a '(9))"}, []string{"(set-car! a 9)", "(set-car! b 9)", "(set-cdr! b '(9))", "(append! b '(9))"})
	progs(gg, "mutation", "(define a _)|(define b (copy a))|(== a b)|_|(== a b)|_|(== a b)|(== b a)", "a|b", []string{"{x: 1 y: {z: 2}}", "{x: 1}", "{}"}, []string{"(set-slot! a x: 9)", "(set-slot! b x: 9)", "(set-slot! a n: 1)", "(remove-slot! a x:)", "(remove-slot! b x:)"}, []string{"(set-slot! a x: 9)", "(set-slot! b x: 9)", "(set-slot! b n: 1)", "(remove-slot! b x:)"})
}
