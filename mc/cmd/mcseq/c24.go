package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C24", Level: "model_checking", Chunk: 1, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every bounded JSON text and every bounded value converts to what the reference mapping says, and survives the way there and back",
		Assumptions: []string{"Go's encoding/json decides which texts are JSON"}, Gen: genC24,
	})
}

// the reference mapping: JSON trees are nil, bool, json.Number, string, []any,
// map[string]any; jcanon is the canonical text of the value they stand for.
func jnumber(s string) (string, bool) {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return "?", false
	}
	if r.IsInt() {
		return r.Num().String(), r.Num().IsInt64() && len(s) < 19
	}
	f, _ := strconv.ParseFloat(s, 64)
	if f == float64(int64(f)) {
		return "", false // a fraction that is no float
	}
	return ref.FormatFloat(float32(f)), true
}

func jcanon(v any, ok *bool) string {
	switch x := v.(type) {
	case nil:
		return "()"
	case bool:
		if x {
			return "#t"
		}
		return "#f"
	case json.Number:
		if i, err := strconv.ParseInt(string(x), 10, 64); err == nil {
			return strconv.FormatInt(i, 10)
		}
		s, good := jnumber(string(x))
		if !good {
			*ok = false
		}
		return s
	case string:
		return strconv.Quote(x)
	case []any:
		l := make([]string, len(x))
		for i, e := range x {
			l[i] = jcanon(e, ok)
		}
		if len(l) > 5001 { // as canon shows it
			return "(" + strings.Join(l[:5001], " ") + " . ..." + strconv.Itoa(len(l)-5001) + " " + l[len(l)-1] + ")"
		}
		return "(" + strings.Join(l, " ") + ")"
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k+":")
		}
		sort.Strings(ks)
		l := make([]string, len(ks))
		for i, k := range ks {
			l[i] = k + " " + jcanon(x[strings.TrimSuffix(k, ":")], ok)
		}
		return "{" + strings.Join(l, " ") + "}"
	}
	panic("jcanon")
}

func jdecode(s string) (any, bool) {
	if !json.Valid([]byte(s)) {
		return nil, false
	}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return nil, false
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, false
	}
	return v, true
}

// readJSON checks one text in both directions.
func readJSON(t *core.T, text string) {
	if t.Failed() {
		return
	}
	t.Progress()
	want := "{}"
	v, valid := jdecode(text)
	if valid {
		ok := true
		want = jcanon(v, &ok)
		if !ok {
			t.Count("skipped: number out of range")
			return
		}
	}
	env := freshEnv()
	env.BindLocallyTo(g.Intern("s"), g.StringWithValue(text))
	got := evalIn(env, "(json->lisp s)")
	t.Trace(1)
	t.Steps(1)
	if got.err || got.panic != "" || got.val != want {
		t.Fail("read", "json->lisp of %q gives %s, should give %s", text, clip(got.String()), clip(want))
		return
	}
	if !valid { // the empty frame is a frame like others
		if o := evalIn(env, "(let ((f (json->lisp s))) (set-slot! f a: 1) (list f (json->lisp s)))"); o.val != "({a: 1} {})" {
			t.Fail("frame", "a slot set in the frame of json->lisp of %q gives %s", text, clip(o.String()))
		}
		return
	}
	if c := canon(g.JsonStringToLispWithFrames(text)); c != want {
		t.Fail("read", "JsonStringToLispWithFrames of %q gives %s, should give %s", text, clip(c), clip(want))
		return
	}
	t.State(want)
	if !valid {
		return
	}
	if v == nil { // null comes back as null or nothing
		return
	}
	d, _ := g.ParseAndEvalInEnvironment("(lisp->json (json->lisp s))", env)
	if !g.StringP(d) {
		t.Fail("write", "lisp->json of (json->lisp %q) gives %s", text, canon(d))
		return
	}
	back, ok := jdecode(g.StringValue(d))
	ok2 := ok
	if !ok || jcanon(back, &ok2) != want || !ok2 {
		t.Fail("write", "(lisp->json (json->lisp s)) for %q gives %q, which stands for %s and should for %s", text, clip(g.StringValue(d)), clip(jcanon(back, &ok2)), clip(want))
	}
}

// toTree is what the reference has for the JSON of a value.
func toTree(v ref.Val) (any, bool) {
	switch x := v.(type) {
	case nil:
		return nil, true
	case bool:
		return x, true
	case int64:
		return json.Number(strconv.FormatInt(x, 10)), true
	case float32:
		return json.Number(strconv.FormatFloat(float64(x), 'f', -1, 32)), true
	case *ref.Str:
		return x.S, true
	case ref.Sym:
		return string(x), true
	case *ref.Bytes:
		l := make([]any, len(x.B))
		for i, b := range x.B {
			l[i] = json.Number(strconv.Itoa(int(b)))
		}
		return l, true
	case *ref.Pair:
		l := []any{}
		for p := ref.Val(x); p != nil; {
			c, ok := p.(*ref.Pair)
			if !ok {
				return nil, false
			}
			e, ok := toTree(c.Car)
			if !ok {
				return nil, false
			}
			l = append(l, e)
			p = c.Cdr
		}
		return l, true
	case *ref.Frame:
		m := map[string]any{}
		for k, e := range x.M {
			if _, fn := e.(*ref.Closure); fn {
				continue
			}
			y, ok := toTree(e)
			if !ok {
				return nil, false
			}
			m[strings.TrimSuffix(k, ":")] = y
		}
		return m, true
	}
	return nil, false
}

func writeJSON(t *core.T, src string) {
	if t.Failed() {
		return
	}
	t.Progress()
	it := ref.NewInterp(20000)
	v, err := it.EvalString(src, ref.NewEnv(it.Global, nil, "mc"))
	tree, ok := toTree(v)
	if err != nil || it.Quirk != "" || !ok {
		t.Count("skipped")
		return
	}
	good := true
	want := jcanon(tree, &good)
	env := freshEnv()
	o := evalIn(env, "(define v "+src+")")
	before := evalIn(env, "v").val
	d, gerr := g.ParseAndEvalInEnvironment("(lisp->json v)", env)
	t.Trace(1)
	t.Steps(1)
	if gerr != nil || !g.StringP(d) || o.err {
		t.Fail("write", "lisp->json of %s gives %s, error %v", src, canon(d), gerr)
		return
	}
	back, ok := jdecode(g.StringValue(d))
	if !ok || jcanon(back, &good) != want || !good {
		t.Fail("write", "lisp->json of %s gives %q, which should stand for %s", src, clip(g.StringValue(d)), clip(want))
		return
	}
	t.State(want)
	if tree != nil {
		env.BindLocallyTo(g.Intern("s"), d)
		if got := evalIn(env, "(json->lisp s)"); got.val != want {
			t.Fail("read", "json->lisp of the JSON of %s, %q, gives %s, should give %s", src, clip(g.StringValue(d)), clip(got.String()), clip(want))
		}
	}
	if after := evalIn(env, "v").val; after != before {
		t.Fail("changed", "lisp->json changed %s to %s", before, after)
	}
}

func genC24(gg *core.G) {
	deep := gg.Thorough()
	scal := []string{"null", "true", "false", "0", "1", "-1", "16777216", "16777217", "9007199254740992", "9007199254740993", "9223372036854775807", "-9223372036854775808", "1.5", "-0.25", "1.0", "1e2", "25e-1", "0.1", "\"\"", "\"a\"", "\"a b\"", "\"\\\"q\\\"\"", "\"\\\\\"", "\"\\n\\t\"", "\"\\u00e9\"", "\"é日\"", "\"\\/\"", "\"<&>\"", "\"\\ud83d\\ude00\"", "\"1\"", "\"null\"", "[]", "{}"}
	few := []string{"null", "true", "7", "1.5", "\"s\"", "[]", "{}", "[1,2]", "{\"x\":1}"}
	keys := []string{"a", "b", "", "a b", "é", "a:", "k*", "\\\"q\\\"", "A", "\\u0062"}
	ws := [][3]string{{"", "", ""}, {" ", "\n", "\t"}, {"\r\n ", "  ", ""}}
	for _, w := range ws {
		w := w
		gg.Case(fmt.Sprintf("scalars %q", w), func(t *core.T) {
			for _, a := range scal {
				readJSON(t, w[0]+a+w[1])
				readJSON(t, w[0]+"["+w[1]+a+w[2]+"]"+w[1])
				readJSON(t, w[0]+"["+w[1]+"["+a+w[2]+"]]"+w[1])
				for _, k := range keys {
					readJSON(t, w[0]+"{"+w[1]+"\""+k+"\""+w[2]+":"+w[0]+a+w[1]+"}"+w[2])
				}
				for _, b := range scal {
					readJSON(t, "["+w[0]+a+w[1]+","+w[2]+b+w[0]+"]")
					readJSON(t, "{\"a\":"+a+w[1]+","+w[2]+"\"b\":"+b+w[0]+"}")
					readJSON(t, "{\"a\":"+a+","+"\"a\":"+b+"}")
					readJSON(t, "[{\"a\":"+w[0]+a+"},["+b+"]]")
				}
			}
		})
	}
	nested := append([]string{}, few...)
	words(few, 2, func(v []string) {
		nested = append(nested, "["+strings.Join(v, ",")+"]")
		s := ""
		for i, x := range v {
			if i > 0 {
				s += ","
			}
			s += "\"" + keys[i] + "\":" + x
		}
		nested = append(nested, "{"+s+"}")
	})
	for _, a := range nested {
		a := a
		gg.Case("nested "+a, func(t *core.T) {
			for _, b := range nested {
				readJSON(t, "["+a+","+b+"]")
				readJSON(t, "{\"p\":"+a+",\"q\":"+b+"}")
				readJSON(t, "{\"p\":["+a+",{\"q\":"+b+"}]}")
				if deep {
					for _, c := range nested {
						readJSON(t, "["+a+","+b+","+c+"]")
						readJSON(t, "{\"p\":"+a+",\"q\":"+b+",\"r\":"+c+"}")
					}
				}
			}
		})
	}
	// any text over the tokens of JSON
	toks := []string{"{", "}", "[", "]", ",", ":", "\"a\"", "1", "-", "null", "true", ".5", "e2", " ", "x", "\""}
	k := 5
	if deep {
		k = 6
	}
	for _, a := range toks {
		for _, b := range toks {
			a, b := a, b
			gg.Case("text "+a+b, func(t *core.T) { words(toks, k-2, func(v []string) { readJSON(t, a+b+strings.Join(v, "")) }) })
		}
	}
	gg.Case("characters", func(t *core.T) {
		for r := rune(0); r < 0x3000; r++ {
			readJSON(t, "\"x"+string(r)+"y\"")
			readJSON(t, fmt.Sprintf("\"\\u%04x\"", r))
			readJSON(t, "\"\\"+string(r)+"\"")
			if r != 0 && r != '"' && r != '\\' && r > 31 {
				readJSON(t, "{\""+string(r)+"\":"+"1}")
			}
		}
	})
	gg.Case("numbers", func(t *core.T) {
		for i := 0; i < 63; i++ {
			for d := int64(-2); d <= 2; d++ {
				readJSON(t, fmt.Sprint(int64(1)<<i+d))
				readJSON(t, fmt.Sprintf("[%d, {\"n\": %d}]", -(int64(1)<<i)+d, int64(1)<<i+d))
			}
		}
		for _, m := range []string{"1", "-1", "3", "125", "0"} {
			for e := -6; e <= 8; e++ {
				readJSON(t, fmt.Sprintf("%se%d", m, e))
				readJSON(t, fmt.Sprintf("%s.5E%+d", m, e))
				readJSON(t, fmt.Sprintf("%s.0", m))
			}
		}
	})
	for _, n := range cati(sizes, farSizes, []int{10001, 65537}) {
		n := n
		gg.Case(fmt.Sprintf("size %d", n), func(t *core.T) {
			cs := func(f func(i int) string) string {
				l := make([]string, n)
				for i := range l {
					l[i] = f(i)
				}
				return strings.Join(l, ",")
			}
			for _, s := range []string{"[" + cs(num) + "]", "[" + cs(func(i int) string { return fmt.Sprintf("\"s%d\"", i) }) + "]", "{" + cs(func(i int) string { return fmt.Sprintf("\"k%d\":%d", i, i) }) + "}", "[" + cs(func(i int) string { return fmt.Sprintf("{\"k\":[%d]}", i) }) + "]", strings.Repeat("[", min(n, 1900)) + strings.Repeat("]", min(n, 1900)), strings.Repeat("[1,", min(n, 1900)) + "2" + strings.Repeat("]", min(n, 1900)), "\"" + strings.Repeat("x", n) + "\""} {
				readJSON(t, s)
			}
			if n <= 16 {
				readJSON(t, strings.Repeat("{\"a\":", n)+"1"+strings.Repeat("}", n))
			}
		})
	}
	// values
	vals := []string{"1", "-5", "9007199254740993", "9223372036854775807", "-9223372036854775808", "1.5", "-0.125", "3.4", "\"\"", "\"q\\\"\\\\\n\"", "\"é<\"", "'sym", "'k:", "#t", "#f", "()", "[1 255]", "[]", "{}", "{a: 1}", "'(1 2)", "'(1 (2 \"x\") #t)", "{a: (1 2) b: {c: \"d\"}}", "{f: (lambda (x) x) a: 1}", "(list {a: 1} {b: ()})", "{a: ()}", "'(())", "(list #f ())", "{p*: {q: 1} a: 2}", "(list [1] \"s\")", "{a: car}"}
	for _, a := range vals {
		a := a
		gg.Case("value "+a, func(t *core.T) {
			if a != "{a: car}" {
				writeJSON(t, a)
			}
			for _, b := range vals[:len(vals)-1] {
				if a == "{a: car}" {
					break
				}
				writeJSON(t, "(list "+a+" "+b+")")
				writeJSON(t, "{a: "+a+" b: "+b+"}")
				writeJSON(t, "{a: {b: "+a+"} c: (list "+b+" "+a+")}")
				for _, c := range vals[:len(vals)-1] {
					writeJSON(t, "(list "+a+" {x: "+b+"} "+c+")")
				}
			}
		})
	}
	for _, n := range cati(sizes, farSizes, []int{10001, 65537}) {
		n := n
		gg.Case(fmt.Sprintf("value size %d", n), func(t *core.T) {
			writeJSON(t, "'("+rep(n, num)+")")
			writeJSON(t, "{"+rep(n, func(i int) string { return fmt.Sprintf("k%d: \"v%d\"", i, i) })+"}")
			writeJSON(t, bytesLit(n, 1))
			writeJSON(t, "{"+rep(n, func(i int) string { return fmt.Sprintf("k%d: {k%d: (1 %d)}", i, i, i) })+"}")
			if n <= 16 {
				writeJSON(t, strings.Repeat("{a: ", n)+"1"+strings.Repeat("}", n))
			}
		})
	}
	gg.Case("wrong arguments", func(t *core.T) {
		for _, v := range anyValues {
			if v[0] == '"' {
				continue
			}
			if o := evalIn(freshEnv(), "(json->lisp "+v+")"); !o.err {
				t.Fail("error", "(json->lisp %s) gives %s", v, o)
			}
			t.Trace(1)
		}
	})
	// Go values convert as their JSON does
	gg.Case("go values", func(t *core.T) {
		type fv struct {
			t reflect.Type
			v []any
		}
		type in struct{ X int }
		five := 5
		kinds := []fv{
			{reflect.TypeOf(int(0)), []any{0, 7, -7}}, {reflect.TypeOf(int64(0)), []any{int64(0), int64(9007199254740993)}}, {reflect.TypeOf(uint8(0)), []any{uint8(0), uint8(255)}}, {reflect.TypeOf(int32(0)), []any{int32(0), int32(-2147483648)}}, {reflect.TypeOf(uint32(0)), []any{uint32(0), uint32(4294967295)}},
			{reflect.TypeOf(float64(0)), []any{0.0, 1.5, 2.0}}, {reflect.TypeOf(float32(0)), []any{float32(0), float32(0.25)}}, {reflect.TypeOf(""), []any{"", "x\"y", "é"}}, {reflect.TypeOf(true), []any{true, false}}, {reflect.TypeOf([]int{}), []any{[]int{}, []int(nil), []int{1, 0, 3}}}, {reflect.TypeOf([]string{}), []any{[]string{"a", ""}}},
			{reflect.TypeOf(map[string]int{}), []any{map[string]int{}, map[string]int{"a": 1, "b c": 0}}}, {reflect.TypeOf(in{}), []any{in{}, in{4}}}, {reflect.TypeOf([]in{}), []any{[]in{{1}, {2}}}}, {reflect.TypeOf(&five), []any{(*int)(nil), &five}}, {reflect.TypeOf(&in{}), []any{(*in)(nil), &in{3}}}, {reflect.TypeOf([2]int{}), []any{[2]int{8, 9}}}, {reflect.TypeOf([][]int{}), []any{[][]int{{1}, {}, {2, 3}}}}, {reflect.TypeOf(map[string][]string{}), []any{map[string][]string{"k": {"v"}}}},
		}
		tags := []string{"", `json:"x"`, `json:"-"`, `json:"-,"`, `json:",omitempty"`, `json:"y,omitempty"`, `json:"a b"`, `xml:"z"`, `json:",string"`, `json:"s,string"`, `json:"o,omitempty,string"`}
		check := func(v any) {
			b, err := json.Marshal(v)
			if err != nil {
				panic(err)
			}
			tree, _ := jdecode(string(b))
			ok := true
			want := jcanon(tree, &ok)
			if got := canon(g.JsonToLispWithFrames(v)); got != want || !ok {
				t.Fail("go", "JsonToLispWithFrames of %#v gives %s, its JSON %s stands for %s", v, got, b, want)
			}
			t.Trace(1)
		}
		field := func(i int, k fv, tag string) (reflect.StructField, bool) {
			if strings.Contains(tag, "string") {
				switch k.t.Kind() {
				case reflect.Int, reflect.Int64, reflect.Uint8, reflect.Int32, reflect.Uint32, reflect.Bool, reflect.String:
				default:
					return reflect.StructField{}, false
				}
			}
			if strings.Contains(tag, "a b") && i > 0 {
				return reflect.StructField{}, false
			}
			return reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: k.t, Tag: reflect.StructTag(strings.Replace(strings.Replace(tag, "x", "x"+num(i), 1), "\"s,", "\"s"+num(i)+",", 1))}, true
		}
		for _, k := range kinds {
			for _, v := range k.v {
				check(v)
				check([]any{v, 1})
				check(map[string]any{"k": v, "j": nil})
				check(&v)
			}
		}
		for _, k1 := range kinds {
			for _, t1 := range tags {
				f1, ok := field(0, k1, t1)
				if !ok {
					continue
				}
				for _, k2 := range kinds {
					for _, t2 := range []string{"", `json:"x"`, `json:",omitempty"`, `json:"-"`} {
						f2, ok := field(1, k2, t2)
						if !ok {
							continue
						}
						if strings.Contains(t1, "\"y") && strings.Contains(t2, "\"y") {
							continue
						}
						st := reflect.StructOf([]reflect.StructField{f1, f2})
						for _, v1 := range k1.v {
							for _, v2 := range k2.v {
								s := reflect.New(st).Elem()
								s.Field(0).Set(reflect.ValueOf(v1))
								s.Field(1).Set(reflect.ValueOf(v2))
								check(s.Interface())
							}
						}
					}
				}
			}
		}
	})
}
