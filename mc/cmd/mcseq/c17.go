package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unsafe"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C17", Level: "model_checking", Chunk: 2, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 50 * time.Minute,
		Rule:        "every bounded value prints as the reference printer has it, and reads back as an equal value",
		Assumptions: libAssume, Gen: genC17,
	})
	core.Register(&core.Check{
		ID: "C18", Level: "model_checking", Chunk: 2, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 50 * time.Minute,
		Rule:        "every bounded text reads as the reference grammar has it: the same data, or an error",
		Assumptions: []string{"the reference reader in mc/ref states the grammar"}, Gen: genC18,
	})
}

// readSame compares what golisp and the reference read from a text.
func readSame(t *core.T, src string) {
	if t.Failed() {
		return
	}
	want, open, werr := ref.ReadOpen(src)
	if open || strings.IndexByte(src, 0) >= 0 { // bufrr loses NUL

		t.Count("skipped: meaning left open")
		// still: no panic
		g.ParseAll(src)
		return
	}
	got, err := g.ParseAll(src)
	t.Trace(1)
	t.Steps(int64len(want) + 1)
	if (err != nil) != (werr != nil) {
		t.Fail("error", "reading %q: error %v, should be %v", src, err, werr)
		return
	}
	if len(got) != len(want) {
		t.Fail("count", "reading %q gives %d data, should give %d", src, len(got), len(want))
		return
	}
	for i := range got {
		if a, b := canon(got[i]), ref.Canon(want[i]); a != b {
			t.Fail("differs", "reading %q: datum %d is %s, should be %s", src, i, clip(a), clip(b))
			return
		}
	}
	if len(want) > 0 {
		one, err := g.Parse(src)
		if err != nil && werr == nil || err == nil && canon(one) != ref.Canon(want[0]) {
			t.Fail("first", "Parse of %q gives %s %v", src, clip(canon(one)), err)
		}
	}
}

func int64len(l []ref.Val) int { return len(l) }

func genC18(gg *core.G) {
	deep := gg.Thorough()
	chars := []string{"(", ")", "[", "]", "{", "}", "'", "`", ",", "@", ".", " ", "\n", "\"", "\\", ";", "#", "a", ":", "1", "-", "x", "t", "0"}
	k := 5
	if deep {
		k = 6
	}
	for _, a := range chars {
		for _, b := range chars {
			a, b := a, b
			gg.Case("chars "+strconv.Quote(a+b), func(t *core.T) {
				readSame(t, a)
				n := 0
				words(chars, k-2, func(v []string) {
					if n++; n&1023 == 0 {
						t.Progress()
					}
					readSame(t, a+b+strings.Join(v, ""))
				})
			})
		}
	}
	toks := []string{"(", ")", "(", "[", "]", "{", "}", "'", "`", ",", ",@", " . ", "abc", "a:", "-12", "255", "256", "1.5", "\"s t\"", "\"\\\"\"", ";c(\n", "#t", "#f", "#x1F", "0xfe", "#b101", "()", "<-c", "é"}
	k = 4
	if deep {
		k = 5
	}
	for _, a := range toks {
		a := a
		for _, sep := range []string{" ", "\n", "\t ", " ;x)\n"} {
			sep := sep
			gg.Case("tokens "+a+strconv.Quote(sep), func(t *core.T) {
				n := 0
				words(toks, k-1, func(v []string) {
					if n++; n&1023 == 0 {
						t.Progress()
					}
					readSame(t, a+sep+strings.Join(v, sep))
				})
			})
		}
	}
	num := []string{"0", "1", "9", "-", ".", "x", "b", "#", "a", "F", " "}
	k = 6
	if deep {
		k = 7
	}
	for _, a := range num {
		for _, b := range num {
			a, b := a, b
			gg.Case("number "+a+b, func(t *core.T) {
				n := 0
				words(num, k-2, func(v []string) {
					if n++; n&1023 == 0 {
						t.Progress()
					}
					readSame(t, a+b+strings.Join(v, ""))
				})
			})
		}
	}
	str := []string{"a", "\\", "\"", "n", "é", "\n", " ", ";", "日"}
	for _, a := range str {
		a := a
		gg.Case("string "+strconv.Quote(a), func(t *core.T) {
			words(str, 5, func(v []string) {
				s := strings.Join(v, "")
				readSame(t, "\""+a+s+"\"")
				if len(v) < 4 {
					readSame(t, "(\""+a+s+"\" \"x\" . \""+s+"\")")
				}
			})
		})
	}
	// every character there is
	for lo := 0; lo < 0x110000; lo += 0x1000 {
		lo := lo
		gg.Case(fmt.Sprintf("runes %x", lo), func(t *core.T) {
			for r := rune(lo); r < rune(lo+0x1000); r++ {
				c := string(r)
				readSame(t, c)
				readSame(t, "a"+c+"b")
				readSame(t, "(1"+c+"2)")
				readSame(t, "\"x"+c+"y\"")
				readSame(t, "\"\\"+c+"y\"")
				readSame(t, ";"+c+"\n1")
				readSame(t, "#"+c+"z")
				readSame(t, "["+c+"]")
			}
		})
	}
	gg.Case("bytes", func(t *core.T) {
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				s := string([]byte{byte(a), byte(b)})
				readSame(t, s)
				readSame(t, "\""+s+"\"")
				readSame(t, "(x"+s+" y)")
			}
		}
	})
	gg.Case("integers", func(t *core.T) {
		var l []string
		for i := 0; i < 64; i++ {
			for d := int64(-3); d <= 3; d++ {
				l = append(l, strconv.FormatInt(int64(1)<<i+d, 10), strconv.FormatUint(uint64(1)<<i+uint64(d), 10), strconv.FormatInt(-(int64(1)<<i)+d, 10))
				for _, p := range []string{"#x", "0x"} {
					l = append(l, p+strconv.FormatUint(uint64(1)<<i+uint64(d), 16), p+strings.ToUpper(strconv.FormatUint(uint64(1)<<i+uint64(d), 16)))
				}
				l = append(l, "#b"+strconv.FormatUint(uint64(1)<<i+uint64(d), 2))
			}
		}
		for n := 1; n <= 25; n++ {
			for _, d := range []string{"1", "9", "0", "10"} {
				s := strings.Repeat(d, n)
				l = append(l, s, "-"+s, "00"+s, s+".0", s+".5", "0."+s, "-0."+s, s+"."+s, "#b"+s, "#x"+s, "0x"+s)
			}
		}
		l = append(l, "9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999", "#xFFFFFFFFFFFFFFFF", "#x8000000000000000", "#x7fffffffffffffff")
		for _, s := range l {
			readSame(t, s)
			readSame(t, "("+s+" a "+s+")")
			readSame(t, "["+s+"]")
		}
	})
	for _, n := range append(append([]int{}, sizes...), 255, 256, 1000, 4094, 4095, 4096, 4097, 4098, 8192) {
		n := n
		gg.Case(fmt.Sprintf("size %d", n), func(t *core.T) {
			sp := strings.Repeat
			for _, s := range []string{
				sp("a", n), "(" + sp("a", n) + ")", "\"" + sp("a", n) + "\"", "\"" + sp("\\\"", n) + "\"", "\"" + sp("é", n) + "\"", sp("日", n), sp(" ", n) + "x", sp(";c\n", n) + "x", ";" + sp("c", n) + "\nx y", "(" + sp("a ", n) + ")", "(" + sp("1", 1) + sp(" 2", n) + " . 3)", "[" + sp("7 ", n) + "]", "{" + sp("a: 1 ", n) + "}", sp("'", n) + "x", sp("(", n) + "x" + sp(")", n), sp("(", n) + "x" + sp(")", n-min(n, 1)), sp("(a . ", n) + "b" + sp(")", n), sp("[", n) + "1" + sp("]", n), sp("{a: ", n) + "1" + sp("}", n), sp("x ", n), sp("1 ", n), sp("()", n), sp("'", n), sp(",@", n) + "(x)", sp("\n", n) + "\"s\"" + sp("\n", n),
			} {
				if n > 1000 && (strings.HasPrefix(s, "((") || strings.HasPrefix(s, "(a . (") || strings.HasPrefix(s, "''") || strings.HasPrefix(s, "[[") || strings.HasPrefix(s, "{a: {") || strings.HasPrefix(s, ",@,@")) {
					continue
				}
				readSame(t, s)
				readSame(t, s+" y")
				readSame(t, "(q "+s+" z)")
			}
		})
	}
	// comments and white space may stand between any two tokens
	gg.Case("spacing", func(t *core.T) {
		texts := []string{"( define ( f x ) ( list 'x \"a b\" 1.5 ) )", "{ a: 1 b: ( 2 3 ) }", "[ 1 2 x ( f ) ]", "` ( a , b ,@ c )", "( 1 . ( 2 . 3 ) )", "' ( ' a )", "#t #f ( #x1f #b1 )"}
		seps := []string{" ", "\n", "\t", "\r\n", " ; c\n", ";\n", " ;( \" [\n", "\n;a\n;b\n", "  \n  "}
		for _, x := range texts {
			tk := strings.Split(x, " ")
			for i := 0; i <= len(tk); i++ {
				for j := i; j <= len(tk); j++ {
					for _, s := range seps {
						for _, s2 := range seps {
							var b strings.Builder
							for m, y := range tk {
								if m == i {
									b.WriteString(s)
								}
								if m == j {
									b.WriteString(s2)
								}
								b.WriteString(y)
								b.WriteByte(' ')
							}
							readSame(t, b.String())
						}
					}
				}
			}
		}
	})
}

// back reads the printed form of d and compares.
func back(t *core.T, d *g.Data, frames bool) string {
	s := g.String(d)
	l, err := g.ParseAll(s)
	t.Trace(1)
	t.Steps(1)
	if err != nil || len(l) != 1 {
		t.Fail("unreadable", "%s prints as %q, which reads as %d data, error %v", clip(canon(d)), s, len(l), err)
		return s
	}
	r := l[0]
	if frames {
		r, err = g.Eval(r, freshEnv())
		if err != nil {
			t.Fail("unreadable", "%s prints as %q, which gives the error %v", clip(canon(d)), s, err)
			return s
		}
	}
	if a, b := canon(d), canon(r); a != b {
		t.Fail("differs", "%s prints as %q, which reads as %s", clip(a), s, clip(b))
	}
	if s2 := g.String(r); s2 != s && !t.Failed() {
		t.Fail("unstable", "%s prints as %q, and what is read from that as %q", clip(canon(d)), s, s2)
	}
	return s
}

func (p trial) do(t *core.T, src string) {
	if t.Failed() {
		return
	}
	t.Progress()
	it := ref.NewInterp(20000)
	want, werr := it.EvalString(src, ref.NewEnv(it.Global, nil, "mc"))
	if werr != nil || it.Quirk != "" {
		t.Count("skipped")
		return
	}
	d, err := g.ParseAndEvalInEnvironment(src, freshEnv())
	if err != nil {
		t.Fail("error", "%s: %v", src, err)
		return
	}
	s := back(t, d, p.frames)
	if !p.loose && s != ref.Print(want) {
		t.Fail("print", "%s prints as %q, should print as %q", src, s, ref.Print(want))
	}
	t.State(s)
	if !t.Failed() {
		env := freshEnv()
		env.BindLocallyTo(g.Intern("v"), d)
		sv := "(str v)"
		wantS := strconv.Quote(ref.PrintString(want))
		if got := evalIn(env, sv); got.val != wantS && !p.loose {
			t.Fail("print", "str of %s gives %s, should give %s", src, got, wantS)
		}
		if !p.frames && g.NotNilP(d) {
			if got := evalIn(env, "(equal? v (parse (format #f \"~S\" v)))"); got.val != "#t" && !p.loose {
				t.Fail("print", "(parse (format #f \"~S\" v)) for v %s is not equal to v: %s", src, got)
			}
		}
	}
}

type trial struct{ frames, loose bool }

func genC17(gg *core.G) {
	deep := gg.Thorough()
	// floats: print, read, same bits
	fl := func(t *core.T, bits uint32) {
		f := math.Float32frombits(bits)
		if f != f || math.IsInf(float64(f), 0) {
			return
		}
		d := g.FloatWithValue(f)
		s := g.String(d)
		r, err := g.Parse(s)
		if err != nil || !g.FloatP(r) || math.Float32bits(g.FloatValue(r)) != bits {
			t.Fail("differs", "the float with bits %#x prints as %q, which reads as %s (%v)", bits, s, canon(r), err)
		}
		if w, err := strconv.ParseFloat(s, 32); err != nil || math.Float32bits(float32(w)) != bits {
			t.Fail("print", "the float with bits %#x prints as %q", bits, s)
		}
	}
	if deep {
		for hi := 0; hi < 1<<12; hi++ {
			hi := hi
			gg.Case(fmt.Sprintf("floats %03x.....", hi), func(t *core.T) {
				for lo := 0; lo < 1<<20; lo++ {
					fl(t, uint32(hi)<<20|uint32(lo))
					if lo&0xfff == 0 {
						t.Progress()
						if t.Failed() || t.Expired() {
							return
						}
					}
				}
				t.Trace(1 << 20)
				t.Steps(1 << 20)
			})
		}
	} else {
		for e := 0; e < 256; e++ {
			e := e
			gg.Case(fmt.Sprintf("floats exponent %d", e), func(t *core.T) {
				n := 0
				for _, sg := range []uint32{0, 1 << 31} {
					for m := uint32(0); m < 1<<10; m++ {
						for _, lo := range []uint32{0, 1, 0x1000, 0x1fff, 0x1555} {
							fl(t, sg|uint32(e)<<23|m<<13|lo)
							n++
						}
					}
				}
				t.Trace(n)
				t.Steps(n)
			})
		}
	}
	gg.Case("integers", func(t *core.T) {
		one := func(i int64) {
			d := g.IntegerWithValue(i)
			if s := back(t, d, false); s != strconv.FormatInt(i, 10) {
				t.Fail("print", "%d prints as %q", i, s)
			}
		}
		for i := int64(-70000); i <= 70000; i++ {
			one(i)
		}
		for i := 0; i < 64; i++ {
			for d := int64(-300); d <= 300; d++ {
				one(int64(1)<<i + d)
				one(-(int64(1) << i) + d)
			}
		}
		p := int64(1)
		for i := 0; i < 19; i++ {
			for d := int64(-12); d <= 12; d++ {
				for m := int64(1); m < 10; m++ {
					one(m*p + d)
					one(-m*p + d)
				}
			}
			p *= 10
		}
	})
	strOne := func(t *core.T, s string) {
		if t.Failed() || strings.IndexByte(s, 0) >= 0 {
			return
		}
		d := g.StringWithValue(s)
		p := back(t, d, false)
		if w := ref.Print(&ref.Str{S: s}); p != w {
			t.Fail("print", "the string %q prints as %q, should print as %q", s, p, w)
		}
		if got := g.PrintString(d); got != s {
			t.Fail("print", "the string %q shows as %q", s, got)
		}
		back(t, g.InternalMakeList(g.Intern("a"), d, d), false)
	}
	for lo := 0; lo < 0x110000; lo += 0x1000 {
		lo := lo
		gg.Case(fmt.Sprintf("string runes %x", lo), func(t *core.T) {
			for r := rune(lo); r < rune(lo+0x1000); r++ {
				strOne(t, string(r))
				strOne(t, "n"+string(r)+"n")
			}
		})
	}
	str := []string{"a", "\\", "\"", "n", "\n", " ", ";", "日", "\t", "(", "'", "\r"}
	k := 4
	if deep {
		k = 5
	}
	for _, a := range str {
		a := a
		gg.Case("strings "+strconv.Quote(a), func(t *core.T) {
			words(str, k, func(v []string) { strOne(t, a+strings.Join(v, "")) })
		})
	}
	gg.Case("symbols", func(t *core.T) {
		al := []string{"a", "-", "1", ".", ":", "é", "*", "!", "<", "Z", "+", "@"}
		k := 4
		if deep {
			k = 5
		}
		words(al, k, func(v []string) {
			s := strings.Join(v, "")
			x, open, err := ref.ReadOpen(s)
			if err != nil || open || len(x) != 1 {
				return
			}
			if sy, ok := x[0].(ref.Sym); !ok || string(sy) != s || s == "." {
				return
			}
			d := g.Intern(s)
			if p := back(t, d, false); p != s {
				t.Fail("print", "the symbol %s prints as %q", s, p)
			}
			back(t, g.InternalMakeList(d, d), false)
			back(t, g.Cons(d, d), false)
			if x, _ := g.Parse(s); x != d {
				t.Fail("identity", "reading %s gives another symbol", s)
			}
		})
		for _, n := range sizes {
			back(t, g.Intern("s"+strings.Repeat("y", n)), false)
		}
	})
	// structures
	var pr trial
	leaves := []string{"1", "a", "\"s\"", "()", "quote", "#t", "1.5"}
	lv := 3
	if deep {
		lv = 4
	}
	subs := append([]string{}, leaves...)
	for n := 1; n <= 2; n++ {
		power(leaves, n, func(v []string) {
			subs = append(subs, "("+strings.Join(v, " ")+")")
			if n == 2 {
				subs = append(subs, "("+v[0]+" . "+v[1]+")")
			}
		})
	}
	power(leaves, 2, func(v []string) { subs = append(subs, "(("+v[0]+") "+v[1]+")", "'"+v[0], "("+v[0]+" ("+v[1]+" . 2))") })
	bad := func(s string) bool { // (quote) prints as '()
		return strings.Contains(s, "(quote)") || strings.Contains(s, "(quote . ())")
	}
	for _, a := range subs {
		a := a
		gg.Case("list "+a, func(t *core.T) {
			try := func(s string) {
				if !bad(s) {
					pr.do(t, "(quote "+s+")")
				}
			}
			try(a)
			try("(" + a + ")")
			try("'" + a)
			for _, b := range subs {
				try("(" + a + " " + b + ")")
				try("(" + a + " . " + b + ")")
				if lv > 3 {
					for _, c := range subs {
						try("(" + a + " " + b + " " + c + ")")
						try("(" + a + " " + b + " . " + c + ")")
					}
				} else {
					for _, c := range leaves {
						try("(" + a + " " + b + " " + c + ")")
						try("(" + c + " " + a + " . " + b + ")")
					}
				}
			}
		})
	}
	gg.Case("bytes", func(t *core.T) {
		al := []string{"0", "9", "10", "99", "100", "255"}
		words(al, 4, func(v []string) {
			pr.do(t, "["+strings.Join(v, " ")+"]")
			pr.do(t, "(list ["+strings.Join(v, " ")+"] [])")
		})
		for i := 0; i < 256; i++ {
			pr.do(t, fmt.Sprintf("[%d]", i))
		}
		for _, n := range append(sizes, 255, 256, 257) {
			pr.do(t, bytesLit(n, 3))
		}
	})
	fr := trial{frames: true}
	gg.Case("frames", func(t *core.T) {
		vs := []string{"1", "-2.5", "\"q\\\"\\\\\"", "#t", "#f", "()", "[1 255]", "k:", "{}", "{z: 1 y: \"x\"}"}
		ks := []string{"a:", "b:", "parent*:", "long-name:", "é:"}
		words(vs, 3, func(v []string) {
			for sh := 0; sh < len(ks); sh++ {
				s := ""
				for i, x := range v {
					k := ks[(sh+i)%len(ks)]
					if k == "parent*:" && !strings.HasPrefix(x, "{") {
						k = "pp:"
					}
					s += k + " " + x + " "
				}
				fr.do(t, "{"+s+"}")
			}
		})
		for _, n := range sizes {
			fr.do(t, "{"+rep(n, func(i int) string { return fmt.Sprintf("s%d: %d", i, i) })+"}")
			if n < 40 {
				fr.do(t, strings.Repeat("{a: ", n)+"1"+strings.Repeat("}", n))
			}
		}
	})
	lo := trial{loose: true}
	gg.Case("alists", func(t *core.T) {
		es := []string{"(a . 1)", "(b . \"x\")", "(\"k\" . c)", "(d . #t)", "((e) . f)", "(g . 1.5)"}
		words(es, 4, func(v []string) {
			lo.do(t, "(alist '("+strings.Join(v, " ")+"))")
			lo.do(t, "(list 1 (alist '("+strings.Join(v, " ")+")) 2)")
			lo.do(t, "(acons 'n 9 '("+strings.Join(v, " ")+"))")
			lo.do(t, "(pairlis '("+strings.Repeat("x ", len(v))+") '("+strings.Repeat("7 ", len(v))+"))")
		})
		for _, n := range sizes {
			lo.do(t, "(alist '("+rep(n, func(i int) string { return fmt.Sprintf("(k%d . %d)", i, i) })+"))")
		}
	})
	gg.Case("far", func(t *core.T) {
		for _, n := range cati(farSizes, hugeSizes) {
			var v []*g.Data
			for i := 0; i < n; i++ {
				v = append(v, g.IntegerWithValue(int64(i)))
			}
			back(t, g.ArrayToList(v), false)
			back(t, g.Cons(g.Intern("a"), g.ArrayToListWithTail(v, g.Intern("z"))), false)
			for i := range v {
				v[i] = g.StringWithValue(strings.Repeat("q\"", i%3))
			}
			back(t, g.ArrayToList(v), false)
			back(t, g.StringWithValue(strings.Repeat("\"\\\nx", n/4)+strings.Repeat("é", n)), false)
			back(t, g.Intern("s"+strings.Repeat("y", n)), false)
			b := make([]byte, n)
			f := &g.FrameMap{Data: g.FrameMapData{}}
			for i := range b {
				b[i] = byte(i * 7)
				f.Data[fmt.Sprintf("s%d:", i)] = g.IntegerWithValue(int64(i))
			}
			back(t, g.ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&b)), true)
			back(t, g.FrameWithValue(f), true)
			if n <= 2100 {
				d := g.IntegerWithValue(1)
				e := g.IntegerWithValue(1)
				for i := 0; i < n; i++ {
					d = g.InternalMakeList(d)
					e = g.InternalMakeList(g.IntegerWithValue(int64(i)), e, g.StringWithValue("x"))
				}
				back(t, d, false)
				back(t, e, false)
			}
		}
	})
	for _, n := range append(append([]int{}, sizes...), 500, 1000) {
		n := n
		gg.Case(fmt.Sprintf("size %d", n), func(t *core.T) {
			for _, s := range []string{"(" + rep(n, num) + ")", "(" + rep(n, func(i int) string { return fmt.Sprintf("\"s%d\"", i) }) + ")", "(0 " + rep(n, num) + " . x)", strings.Repeat("(", n) + "1" + strings.Repeat(")", n), strings.Repeat("(1 ", n) + strings.Repeat(")", n), strings.Repeat("(1 . ", n) + "2" + strings.Repeat(")", n), strings.Repeat("'", n) + "x", "\"" + strings.Repeat("\\\"", n) + "\""} {
				pr.do(t, "(quote "+s+")")
			}
		})
	}
}
