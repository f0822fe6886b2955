package main

import (
	"fmt"
	"math"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/ref"
)

// Effects of the running golisp program.
var (
	tick    int64
	effects []string
)

func init() {
	g.MakePrimitiveFunction("mc-tick", "0", func(a *g.Data, env *g.SymbolTableFrame) (*g.Data, error) {
		tick++
		return g.IntegerWithValue(tick), nil
	})
	g.MakePrimitiveFunction("mc-log", "1", func(a *g.Data, env *g.SymbolTableFrame) (*g.Data, error) {
		effects = append(effects, canon(g.Car(a)))
		return g.Car(a), nil
	})
	g.MakePrimitiveFunction("mc-host", "0", func(a *g.Data, env *g.SymbolTableFrame) (*g.Data, error) {
		return g.ObjectWithTypeAndValue("Host", unsafe.Pointer(new([64]uintptr))), nil
	})
	g.MakePrimitiveFunction("mc-id", "1", func(a *g.Data, env *g.SymbolTableFrame) (*g.Data, error) {
		return g.Car(a), nil
	})
}

// canon describes a golisp value the way ref.Canon describes a reference value.
func canon(d *g.Data) string {
	var b strings.Builder
	canonTo(&b, d, 0)
	return b.String()
}

func isCons(d *g.Data) bool {
	t := g.TypeOf(d)
	return d != nil && (t == g.ConsCellType || t == g.AlistType || t == g.AlistCellType)
}

func canonTo(b *strings.Builder, d *g.Data, depth int) {
	if depth > 2000 {
		b.WriteString("...")
		return
	}
	if g.NilP(d) {
		b.WriteString("()")
		return
	}
	switch g.TypeOf(d) {
	case g.IntegerType:
		b.WriteString(strconv.FormatInt(g.IntegerValue(d), 10))
	case g.FloatType:
		b.WriteString(ref.FormatFloat(g.FloatValue(d)))
	case g.BooleanType:
		if g.BooleanValue(d) {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case g.StringType:
		b.WriteString(strconv.Quote(g.StringValue(d)))
	case g.SymbolType:
		b.WriteString(g.StringValue(d))
	case g.ConsCellType, g.AlistType, g.AlistCellType:
		b.WriteByte('(')
		c := d
		for n := 0; isCons(c) && !g.NilP(c) && n <= 5000; n++ {
			if n > 0 {
				b.WriteByte(' ')
			}
			canonTo(b, g.Car(c), depth+1)
			c = g.Cdr(c)
		}
		if !g.NilP(c) {
			b.WriteString(" . ")
			if isCons(c) {
				// count the rest and show its last element
				var last *g.Data
				n := 0
				for ; n < 200000 && isCons(c) && !g.NilP(c); n++ {
					last, c = g.Car(c), g.Cdr(c)
				}
				b.WriteString("..." + strconv.Itoa(n) + " ")
				if n < 200000 {
					canonTo(b, last, depth+1)
				}
			} else {
				canonTo(b, c, depth+1)
			}
		}
		b.WriteByte(')')
	case g.FrameType:
		f := g.FrameValue(d)
		if f == nil {
			b.WriteString("<nil frame>")
			return
		}
		b.WriteByte('{')
		ks := make([]string, 0, len(f.Data))
		for k := range f.Data {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k)
			b.WriteByte(' ')
			if depth > 30 {
				b.WriteString("...")
			} else {
				canonTo(b, f.Data[k], depth+1)
			}
		}
		b.WriteByte('}')
	case g.FunctionType:
		b.WriteString("<fn>")
	case g.MacroType:
		b.WriteString("<macro>")
	case g.PrimitiveType:
		b.WriteString("<prim " + g.PrimitiveValue(d).Name + ">")
	case g.EnvironmentType:
		b.WriteString("<env>")
	case g.BoxedObjectType:
		if g.ObjectType(d) == "[]byte" {
			b.WriteByte('[')
			for i, x := range *(*[]byte)(g.ObjectValue(d)) {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(strconv.Itoa(int(x)))
			}
			b.WriteByte(']')
		} else {
			b.WriteString("<" + g.ObjectType(d) + ">")
		}
	case g.PortType:
		b.WriteString("<port>")
	default:
		b.WriteString("<?>")
	}
}

// outcome of one top-level expression
type outcome struct {
	val   string
	err   bool
	msg   string
	panic string
}

func (o outcome) String() string {
	switch {
	case o.panic != "":
		return "PANIC " + o.panic
	case o.err:
		if o.msg != "" {
			return "error (" + strings.TrimSpace(o.msg) + ")"
		}
		return "error"
	}
	return o.val
}

func (o outcome) same(p outcome) bool {
	return o.panic == p.panic && o.err == p.err && o.val == p.val
}

var envSeq int

func freshEnv() *g.SymbolTableFrame {
	return g.NewSymbolTableFrameBelow(g.Global, "mc")
}

func evalIn(env *g.SymbolTableFrame, src string) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			o = outcome{panic: fmt.Sprint(p) + " " + where(string(debug.Stack()))}
		}
	}()
	v, err := g.ParseAndEvalInEnvironment(src, env)
	if err != nil {
		return outcome{err: true, msg: err.Error()}
	}
	return outcome{val: canon(v)}
}

// where names the golisp function that panicked.
func where(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "golisp.") && !strings.Contains(l, "mcseq") && strings.Contains(l, "(") {
			return "in " + l[strings.LastIndex(l, "/")+1:strings.LastIndex(l, "(")]
		}
	}
	return ""
}

// Prog is a sequence of top-level expressions; Watch are compared at the end.
type Prog struct {
	Src   []string
	Watch []string
}

// diff runs a program on the reference and on golisp and compares results,
// effects and the watched expressions. It reports false if the reference leaves
// the result open.
func diff(t *core.T, p Prog) bool { return diffOpt(t, p, 20000, "") }

func diffOpt(t *core.T, p Prog, budget int, kind string) bool {
	it := ref.NewInterp(budget)
	env := ref.NewEnv(it.Global, nil, "mc")
	all := append(append([]string{}, p.Src...), p.Watch...)
	want := make([]outcome, len(all))
	for i, s := range all {
		v, err := it.EvalString(s, env)
		if err == ref.ErrBudget {
			t.Count("skipped: beyond the step budget")
			return false
		}
		if it.Quirk != "" {
			t.Count("skipped: " + it.Quirk)
			return false
		}
		if err != nil {
			want[i] = outcome{err: true}
		} else {
			want[i] = outcome{val: ref.Canon(v)}
		}
	}
	t.Progress()
	tick, effects = 0, effects[:0]
	genv := freshEnv()
	for i, s := range all {
		got := evalIn(genv, s)
		if !got.same(want[i]) {
			k := kind
			if k == "" {
				k = "differs"
			}
			if got.panic != "" {
				k = "panic"
			}
			t.Fail(k, "after %s: %s gives %s, should give %s", strings.Join(all[:i], " "), s, clip(got.String()), clip(want[i].String()))
			return true
		}
	}
	if tick != it.Tick {
		t.Fail("effects", "%s: mc-tick called %d times, should be %d", strings.Join(all, " "), tick, it.Tick)
	}
	if a, b := strings.Join(effects, " "), strings.Join(it.Log, " "); a != b {
		t.Fail("effects", "%s: logged %s, should be %s", strings.Join(all, " "), clip(a), clip(b))
	}
	t.Trace(1)
	t.Steps(it.Steps)
	var sb strings.Builder
	for _, w := range want {
		sb.WriteString(w.val)
		if w.err {
			sb.WriteString("!")
		}
		sb.WriteByte('|')
	}
	sb.WriteString(strings.Join(it.Log, " "))
	t.State(sb.String())
	if t.Idx%97 == 0 {
		t.Sample(strings.Join(all, " ") + " => " + clip(sb.String()))
	}
	return true
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// fill substitutes the holes _ of a template, in order.
func fill(tpl string, vals []string) string {
	var b strings.Builder
	i := 0
	for {
		k := strings.IndexByte(tpl, '_')
		if k < 0 || i >= len(vals) {
			b.WriteString(tpl)
			return b.String()
		}
		b.WriteString(tpl[:k])
		b.WriteString(vals[i])
		i++
		tpl = tpl[k+1:]
	}
}

func holes(tpl string) int { return strings.Count(tpl, "_") }

// product calls f for every way to choose one of each alphabet.
func product(alph [][]string, f func(v []string)) {
	v := make([]string, len(alph))
	var rec func(i int)
	rec = func(i int) {
		if i == len(alph) {
			f(v)
			return
		}
		for _, s := range alph[i] {
			v[i] = s
			rec(i + 1)
		}
	}
	rec(0)
}

func power(a []string, n int, f func(v []string)) {
	al := make([][]string, n)
	for i := range al {
		al[i] = a
	}
	product(al, f)
}

// words calls f for every sequence over a of length 0..n.
func words(a []string, n int, f func(v []string)) {
	for k := 0; k <= n; k++ {
		power(a, k, f)
	}
}

var _ = math.Inf
