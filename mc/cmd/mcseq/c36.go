package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID: "C36", Level: "model_checking", Chunk: 2, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every float function gives for every float of the grid (all exponents and signs, a set of mantissas) the single-precision value of the function it names, and arithmetic on every pair and triple of edge floats the single-precision result",
		Assumptions: []string{"Go's math package computes the named functions"},
		Gen:         genC36,
	})
}

var floatFuns = map[string]func(float64) float64{
	"acos": math.Acos, "acosh": math.Acosh, "asin": math.Asin, "asinh": math.Asinh, "atan": math.Atan, "atanh": math.Atanh,
	"cbrt": math.Cbrt, "cos": math.Cos, "cosh": math.Cosh, "erf": math.Erf, "erfc": math.Erfc, "exp": math.Exp, "exp2": math.Exp2,
	"expm1": math.Expm1, "gamma": math.Gamma, "j0": math.J0, "j1": math.J1, "log": math.Log, "log10": math.Log10, "log1p": math.Log1p,
	"log2": math.Log2, "logb": math.Logb, "sin": math.Sin, "sinh": math.Sinh, "sqrt": math.Sqrt, "tan": math.Tan, "tanh": math.Tanh,
	"y0": math.Y0, "y1": math.Y1, "floor": math.Floor, "ceiling": math.Ceil, "float": func(x float64) float64 { return x },
}

var floatConsts = map[string]float64{"pi": math.Pi, "e": math.E, "phi": math.Phi, "sqrt2": math.Sqrt2, "sqrte": math.SqrtE, "sqrtpi": math.SqrtPi,
	"sqrtphi": math.SqrtPhi, "ln2": math.Ln2, "log2e": math.Log2E, "ln10": math.Ln10, "log10e": math.Log10E, "nan": math.NaN(), "+inf": math.Inf(1), "-inf": math.Inf(-1)}

// floatGrid has floats of every exponent and sign.
func floatGrid(deep bool) (v []float32) {
	mant := []uint32{0, 1, 2, 0x400000, 0x555555, 0x7ffffe, 0x7fffff, 0x200000, 0x600000}
	if deep {
		for i := uint32(0); i < 64; i++ {
			mant = append(mant, i*131073+i)
		}
	}
	for e := uint32(0); e < 256; e++ {
		for _, m := range mant {
			for s := uint32(0); s < 2; s++ {
				v = append(v, math.Float32frombits(s<<31|e<<23|m&0x7fffff))
			}
		}
	}
	for i := -700; i <= 700; i++ {
		v = append(v, float32(i)/2, float32(i)*float32(math.Pi)/12, float32(i)/256)
	}
	return
}

var floatPairs = func() (v []float32) {
	for _, x := range []float32{0, 1, 0.5, 1.5, 2, 3, 0.1, 0.3, 1.0 / 3, 7, 10, 255, 1 << 23, 1<<23 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 2, 1e10, 1 << 31, 1 << 62, 1e38, math.MaxFloat32, math.SmallestNonzeroFloat32, 1.1754944e-38, 1e-20, 0.99999994, 1.0000001, float32(math.Inf(1))} {
		v = append(v, x, -x)
	}
	return append(v, float32(math.NaN()))
}()

// sameFloat takes all NaNs as one and both zeros as one.
func sameFloat(a, b float32) bool {
	return a == b || a != a && b != b
}

// evalFloat binds x, y and z and evaluates src.
func evalFloat(env *g.SymbolTableFrame, src string, xs ...interface{}) (d *g.Data, o outcome) {
	defer func() {
		if p := recover(); p != nil {
			o = outcome{panic: fmt.Sprint(p)}
		}
	}()
	for i, x := range xs {
		v := g.EmptyCons()
		switch x := x.(type) {
		case float32:
			v = g.FloatWithValue(x)
		case int64:
			v = g.IntegerWithValue(x)
		}
		env.BindLocallyTo(g.Intern([]string{"x", "y", "z"}[i]), v)
	}
	d, err := g.ParseAndEvalInEnvironment(src, env)
	if err != nil {
		return nil, outcome{err: true, msg: err.Error()}
	}
	return d, outcome{val: canon(d)}
}

func genC36(gg *core.G) {
	deep := gg.Thorough()
	grid := floatGrid(deep)
	ints := []int64{0, 1, -1, 2, -2, 3, 7, 10, 100, -100, 255, 256, 1 << 23, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 3, 1 << 31, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64}
	for e := uint(25); e < 63; e++ { // next to the middle of two floats
		for _, odd := range []int64{0, 1} {
			mid := int64(1)<<e + odd<<(e-23) + int64(1)<<(e-24)
			for _, n := range []int64{mid - 1, mid, mid + 1} {
				ints = append(ints, n, -n)
			}
		}
	}
	wantFloat := func(t *core.T, env *g.SymbolTableFrame, src string, want float32, xs ...interface{}) bool {
		d, o := evalFloat(env, src, xs...)
		t.Trace(1)
		if o.err || o.panic != "" || !g.FloatP(d) || !sameFloat(g.FloatValue(d), want) {
			t.Fail("value", "%s for %v gives %s, should give %v", src, xs, clip(o.String()), want)
			return false
		}
		return true
	}
	wantText := func(t *core.T, env *g.SymbolTableFrame, src, want string, xs ...interface{}) bool {
		_, o := evalFloat(env, src, xs...)
		t.Trace(1)
		got := o.val
		if o.err {
			got = "!"
		}
		if o.panic != "" || got != want {
			t.Fail("value", "%s for %v gives %s, should give %s", src, xs, clip(o.String()), want)
			return false
		}
		return true
	}
	tf := func(b bool) string { return map[bool]string{true: "#t", false: "#f"}[b] }
	var names []string
	for name := range floatFuns {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		name, f := name, floatFuns[name]
		gg.Case("function "+name, func(t *core.T) {
			env := freshEnv()
			src := "(" + name + " x)"
			for i, x := range grid {
				if i%512 == 0 {
					t.Progress()
				}
				if t.Expired() || !wantFloat(t, env, src, float32(f(float64(x))), x) {
					return
				}
			}
			for _, x := range ints {
				if !wantFloat(t, env, src, float32(f(float64(float32(x)))), x) {
					return
				}
			}
			t.Steps(len(grid))
			for _, v := range []string{"\"1\"", "'x", "()", "#t", "'(1)", "[1]", "{a: 1}", "car", "(mc-host)"} {
				if o := evalIn(env, "("+name+" "+v+")"); !o.err {
					t.Fail("error", "(%s %s) gives %s", name, v, o)
				}
			}
			t.State(name)
		})
	}
	gg.Case("constants", func(t *core.T) {
		for name, v := range floatConsts {
			wantFloat(t, freshEnv(), name, float32(v))
			t.State(name)
		}
	})
	gg.Case("tests", func(t *core.T) {
		env := freshEnv()
		for i, x := range grid {
			if i%512 == 0 {
				t.Progress()
			}
			inf, nan := math.IsInf(float64(x), 0), x != x
			ok := wantText(t, env, "(inf? x)", tf(inf), x) && wantText(t, env, "(nan? x)", tf(nan), x) &&
				wantText(t, env, "(number? x)", "#t", x) && wantText(t, env, "(float? x)", "#t", x) && wantText(t, env, "(integer? x)", "#f", x)
			if ok && !nan {
				sign := 0
				if x > 0 {
					sign = 1
				} else if x < 0 {
					sign = -1
				}
				ok = wantText(t, env, "(zero? x)", tf(x == 0), x) && wantText(t, env, "(positive? x)", tf(x > 0), x) && wantText(t, env, "(negative? x)", tf(x < 0), x) &&
					wantText(t, env, "(sign x)", fmt.Sprint(sign), x) && wantFloat(t, env, "(abs x)", float32(math.Abs(float64(x))), x) &&
					wantText(t, env, "(float->bits x)", fmt.Sprint(math.Float32bits(x)), x)
			}
			if ok && !nan && math.Abs(float64(x)) < 1<<62 {
				ok = wantText(t, env, "(integer x)", fmt.Sprint(int64(x)), x)
			}
			if ok {
				ok = wantFloat(t, env, "(bits->float x)", x, int64(math.Float32bits(x)))
			}
			if !ok || t.Expired() {
				return
			}
			t.Steps(12)
		}
	})
	ops := map[string]func(a, b float32) (float32, bool){
		"+":        func(a, b float32) (float32, bool) { return a + b, true },
		"-":        func(a, b float32) (float32, bool) { return a - b, true },
		"*":        func(a, b float32) (float32, bool) { return a * b, true },
		"/":        func(a, b float32) (float32, bool) { return a / b, b != 0 },
		"quotient": func(a, b float32) (float32, bool) { return a / b, b != 0 },
	}
	for _, name := range []string{"+", "-", "*", "/", "quotient"} {
		name, f := name, ops[name]
		gg.Case("arithmetic "+name, func(t *core.T) {
			env := freshEnv()
			two, three := "("+name+" x y)", "("+name+" x y z)"
			check := func(src string, want float32, ok bool, xs ...interface{}) bool {
				if !ok {
					return wantText(t, env, src, "!", xs...)
				}
				return wantFloat(t, env, src, want, xs...)
			}
			for _, a := range floatPairs {
				t.Progress()
				for _, b := range floatPairs {
					r, ok := f(a, b)
					if t.Expired() || !check(two, r, ok, a, b) {
						return
					}
					for k, c := range floatPairs {
						if !deep && k%5 != 0 {
							continue
						}
						r3, ok3 := f(r, c)
						if !check(three, r3, ok && ok3, a, b, c) {
							return
						}
					}
					t.Steps(1)
				}
				for _, n := range ints {
					r, ok := f(a, float32(n))
					q, ok2 := f(float32(n), a)
					if !check(two, r, ok, a, n) || !check(two, q, ok2, n, a) {
						return
					}
				}
				t.State(fmt.Sprint(name, a))
			}
		})
	}
	gg.Case("pow", func(t *core.T) {
		env := freshEnv()
		for _, a := range floatPairs {
			for _, b := range floatPairs {
				if !wantFloat(t, env, "(pow x y)", float32(math.Pow(float64(a), float64(b))), a, b) {
					return
				}
			}
			for _, n := range ints {
				if !wantFloat(t, env, "(pow x y)", float32(math.Pow(float64(a), float64(float32(n)))), a, n) || !wantFloat(t, env, "(pow x y)", float32(math.Pow(float64(float32(n)), float64(a))), n, a) {
					return
				}
			}
			t.Steps(len(floatPairs))
		}
	})
	gg.Case("comparison", func(t *core.T) {
		env := freshEnv()
		cmp := func(a, b float32, xs ...interface{}) bool {
			return wantText(t, env, "(< x y)", tf(a < b), xs...) && wantText(t, env, "(> x y)", tf(a > b), xs...) &&
				wantText(t, env, "(<= x y)", tf(a <= b), xs...) && wantText(t, env, "(>= x y)", tf(a >= b), xs...)
		}
		for _, a := range floatPairs {
			t.Progress()
			for _, b := range floatPairs {
				if !cmp(a, b, a, b) {
					return
				}
				if a == a && b == b {
					small, big := a, b
					if b < a {
						small, big = b, a
					}
					if !wantText(t, env, "(== x y)", tf(a == b), a, b) || !wantText(t, env, "(!= x y)", tf(a != b), a, b) ||
						!wantFloat(t, env, "(min (list x y))", small, a, b) || !wantFloat(t, env, "(max (list x y))", big, a, b) ||
						!wantText(t, env, "(sort (list x y) <)", canon(g.ArrayToList([]*g.Data{g.FloatWithValue(sortedPair(a, b, false)), g.FloatWithValue(sortedPair(a, b, true))})), a, b) {
						return
					}
				}
			}
			for _, n := range ints {
				if n > math.MaxInt64-1<<40 || int64(float32(n)) != n { // only integers that are floats
					continue
				}
				if !cmp(a, float32(n), a, n) || !cmp(float32(n), a, n, a) {
					return
				}
			}
			t.Steps(len(floatPairs))
		}
	})
}

// sortedPair gives the first or the second of a and b in a stable order by <.
func sortedPair(a, b float32, second bool) float32 {
	if b < a {
		a, b = b, a
	}
	if second {
		return b
	}
	return a
}
