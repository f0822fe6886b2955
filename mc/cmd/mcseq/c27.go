package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/ref"
)

func init() {
	core.Register(&core.Check{
		ID: "C27", Level: "model_checking", Chunk: 1, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every bounded control string with every bounded argument list is formatted as the reference formatter does, or is an error that writes nothing",
		Assumptions: []string{"printed forms are those of the reference printer"}, Gen: genC27, Init: inScratch,
	})
	core.Register(&core.Check{
		ID: "C28", Level: "model_checking", Chunk: 1, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "after every bounded sequence of port operations results and file contents are those of the reference file model",
		Assumptions: []string{"the file system of the scratch directory works"}, Gen: genC28, Init: inScratch,
	})
	core.Register(&core.Check{
		ID: "C30", Level: "model_checking", Chunk: 1, Stall: 60 * time.Second,
		Quick: 8 * time.Minute, Thorough: 40 * time.Minute,
		Rule:        "every bounded source text is evaluated form by form as the reference evaluator does, up to its first error",
		Assumptions: []string{"the reference reader and evaluator"}, Gen: genC30, Init: inScratch,
	})
}

// refFormat is format over a control string: the text, whether it is an error,
// whether the result is left open.
func refFormat(cs string, args []ref.Val) (out string, bad, open bool) {
	var b strings.Builder
	ascii := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] > 127 {
				return false
			}
		}
		return true
	}
	i := 0
	for i < len(cs) {
		if cs[i] != '~' {
			b.WriteByte(cs[i])
			i++
			continue
		}
		i++
		n, given := 0, false
		j := i
		for j < len(cs) && cs[j] >= '0' && cs[j] <= '9' {
			j++
		}
		if j > i {
			if j-i > 4 {
				return "huge", false, true
			}
			n, _ = strconv.Atoi(cs[i:j])
			given = true
			i = j
		} else if i < len(cs) && cs[i] == '#' {
			n, given = len(args), true
			i++
		} else if i < len(cs) && (cs[i] == 'v' || cs[i] == 'V') {
			if len(args) == 0 {
				return "", true, open
			}
			k, ok := args[0].(int64)
			if !ok {
				return "", true, open
			}
			if k > 9999 {
				return "huge", false, true
			}
			n, given = int(k), true
			args = args[1:]
			i++
		}
		at := false
		if i < len(cs) && cs[i] == '@' {
			at = true
			i++
		}
		if i >= len(cs) {
			return "", true, open
		}
		c := cs[i]
		i++
		switch c {
		case 'a', 'A', 's', 'S':
			if len(args) == 0 {
				return "", true, open
			}
			var s string
			if c == 'a' || c == 'A' {
				s = ref.PrintString(args[0])
			} else {
				s = ref.Print(args[0])
			}
			args = args[1:]
			pad := n - len(s)
			if n > 0 && !ascii(s) {
				open = true
			}
			if pad < 0 {
				pad = 0
			}
			p := strings.Repeat(" ", pad)
			if at {
				b.WriteString(p + s)
			} else {
				b.WriteString(s + p)
			}
		case '%', '~':
			if c == '%' {
				c = '\n'
			}
			if at || given && n <= 0 {
				open = true
			}
			if !given {
				n = 1
			}
			if n > 0 {
				b.WriteString(strings.Repeat(string(c), n))
			}
		case '\n':
			if given {
				open = true
			}
			for i < len(cs) && (cs[i] == ' ' || cs[i] >= 9 && cs[i] <= 13) {
				i++
			}
			if i < len(cs) && cs[i] > 127 {
				open = true
			}
			if at {
				b.WriteByte('\n')
			}
		default:
			return "", true, open
		}
	}
	if len(args) > 0 {
		return "", true, open
	}
	return b.String(), false, open
}

// fmtArg is an argument in both worlds.
type fmtArg struct {
	src string
	rv  ref.Val
	gv  *g.Data
}

func fmtArgs(srcs ...string) []fmtArg {
	it := ref.NewInterp(20000)
	var r []fmtArg
	for _, s := range srcs {
		rv, err := it.EvalString(s, it.Global)
		if err != nil {
			panic(s)
		}
		gv, err := g.ParseAndEvalInEnvironment(s, freshEnv())
		if err != nil {
			panic(s)
		}
		r = append(r, fmtArg{s, rv, gv})
	}
	return r
}

// fmtCase checks one call with destination #f.
func fmtCase(t *core.T, cs string, args []fmtArg) {
	if t.Failed() {
		return
	}
	t.Progress()
	rv := make([]ref.Val, len(args))
	for i, a := range args {
		rv[i] = a.rv
	}
	want, bad, open := refFormat(cs, rv)
	if open && want == "huge" {
		t.Count("skipped: too large")
		return
	}
	got := callFormat(g.BooleanWithValue(false), cs, args)
	if open && got.panic == "" {
		t.Count("result left open")
		return
	}
	t.Trace(1)
	t.Steps(1)
	w := outcome{val: strconv.Quote(want)}
	if bad {
		w = outcome{err: true}
	}
	if !got.same(w) {
		t.Fail("differs", "(format #f %q%s) gives %s, should give %s", cs, argSrc(args), clip(got.String()), clip(w.String()))
		return
	}
	t.State(w.String())
}

func argSrc(args []fmtArg) string {
	s := ""
	for _, a := range args {
		s += " " + a.src
	}
	return s
}

func callFormat(dest *g.Data, cs string, args []fmtArg) outcome {
	return callFormatFrom(dest, g.StringWithValue(cs), args)
}

var fmtEnv *g.SymbolTableFrame

func callFormatFrom(dest, cs *g.Data, args []fmtArg) (o outcome) {
	if fmtEnv == nil {
		fmtEnv = freshEnv()
		fmtEnv.BindLocallyTo(g.Intern("dest"), nil)
		fmtEnv.BindLocallyTo(g.Intern("cs"), nil)
	}
	fmtEnv.BindLocallyTo(g.Intern("dest"), dest)
	fmtEnv.BindLocallyTo(g.Intern("cs"), cs)
	src := "(format dest cs"
	for i, a := range args {
		n := "a" + num(i)
		fmtEnv.BindLocallyTo(g.Intern(n), a.gv)
		src += " " + n
	}
	return evalIn(fmtEnv, src+")")
}

func genC27(gg *core.G) {
	deep := gg.Thorough()
	nums := fmtArgs("5", "\"x\"", "'(1 \"y\")", "2", "-3", "\"s q\"")
	lists := [][]fmtArg{nil, {nums[0]}, {nums[5]}, {nums[0], nums[1]}, {nums[3], nums[2]}, {nums[1], nums[2], nums[3]}, {nums[3], nums[1], nums[0]}}
	chars := []string{"~", "a", "s", "@", "#", "v", "%", "\n", " ", "x", "1", "0"}
	k := 5
	if deep {
		k = 6
	}
	for _, a := range chars {
		for _, b := range chars {
			a, b := a, b
			gg.Case(fmt.Sprintf("text %q", a+b), func(t *core.T) {
				words(chars, k-2, func(v []string) {
					if t.Expired() {
						return
					}
					cs := a + b + strings.Join(v, "")
					for _, l := range lists {
						fmtCase(t, cs, l)
					}
				})
			})
		}
	}
	gg.Case("short texts", func(t *core.T) {
		for r := rune(0); r < 0x250; r++ {
			for _, f := range []string{"", "~", "~~", "~a", "~5", "~@", "~\n", "~\n ", "~5@", "~v"} {
				for _, e := range []string{"", "a", "~a", " ~s", "~"} {
					for _, l := range lists {
						fmtCase(t, f+string(r)+e, l)
						fmtCase(t, e+f+string(r), l)
					}
				}
			}
		}
	})
	// directives in every order with too few, enough and too many arguments
	dirs := []string{"x", " ", "~a", "~S", "~3a", "~3@s", "~12A", "~12@a", "~va", "~V@S", "~#a", "~%", "~2%", "~~", "~3~", "~v%", "~\n  ", "~@\n\t", "~q", "é"}
	vals := fmtArgs("4", "\"q\\\"r\"", "'()", "'(a \"b\" (1.5))")
	dk := 3
	if deep {
		dk = 4
	}
	for _, a := range dirs {
		a := a
		gg.Case(fmt.Sprintf("directives %q", a), func(t *core.T) {
			words(dirs, dk-1, func(v []string) {
				if t.Expired() {
					return
				}
				cs := a + strings.Join(v, "")
				need := 0
				for i := 0; i < len(cs); i++ {
					if cs[i] == '~' {
						i++
						for i < len(cs) && strings.IndexByte("0123456789@#vV", cs[i]) >= 0 {
							if cs[i]|32 == 'v' {
								need++
							}
							i++
						}
						if i < len(cs) && strings.IndexByte("aAsS", cs[i]) >= 0 {
							need++
						}
					}
				}
				for n := need - 1; n <= need+1; n++ {
					if n < 0 {
						continue
					}
					kk := n
					if kk > 4 {
						kk = 4
					}
					ix := make([]fmtArg, n)
					var rec func(i int)
					rec = func(i int) {
						if i == n {
							fmtCase(t, cs, ix)
							return
						}
						for j, x := range vals {
							if i >= 2 && j != (i+need)%len(vals) && j != 0 {
								continue
							}
							ix[i] = x
							rec(i + 1)
						}
					}
					rec(0)
				}
			})
		})
	}
	// widths
	for _, d := range []string{"a", "@a", "s", "@s", "A", "@S"} {
		d := d
		gg.Case("widths "+d, func(t *core.T) {
			for w := 0; w <= 130; w++ {
				for l := 0; l <= 70; l++ {
					s := fmtArgs(fmt.Sprintf("%q", strings.Repeat("y", l)))
					fmtCase(t, fmt.Sprintf("~%d%s|", w, d), s)
					fmtCase(t, "<~v"+d+">", []fmtArg{{strconv.Itoa(w), int64(w), g.IntegerWithValue(int64(w))}, s[0]})
				}
			}
			for _, w := range []int{255, 256, 257, 999, 1000, 4095, 4096, 9999} {
				fmtCase(t, fmt.Sprintf("~%d%s|", w, d), nums[:1])
				fmtCase(t, fmt.Sprintf("~00%d%s|", w/10, d), nums[:1])
				fmtCase(t, fmt.Sprintf("~%d%%|~%d~", w, w), nil)
			}
		})
	}
	// every kind of value
	kinds := []string{"0", "-7", "9223372036854775807", "1.5", "-0.25", "3.0", "\"\"", "\"a b\"", "\"q\\\"\\\\\"", "\"l\\nm\"", "\"~a\"", "'sym", "'key:", "#t", "#f", "()", "'(1 2)", "'(1 . 2)", "'(1 (2 . 3) \"s\" . x)", "'((x . 1) (y . 2))", "[]", "[1 255]", "{}", "{a: \"s\"}", "{a: {b: 1}}", "''x", "'(quote x)", "\"é\"", "'(\"é\")"}
	for _, a := range fmtArgs(kinds...) {
		a := a
		gg.Case("value "+a.src, func(t *core.T) {
			for _, d := range []string{"a", "s", "10a", "10@a", "30s", "30@S", "#a", "@s"} {
				fmtCase(t, "~"+d, []fmtArg{a})
				fmtCase(t, "x~"+d+"y", []fmtArg{a})
				for _, b := range fmtArgs(kinds...) {
					fmtCase(t, "~"+d+"~a", []fmtArg{a, b})
					fmtCase(t, "~s, ~"+d, []fmtArg{b, a})
					fmtCase(t, "~v"+strings.TrimLeft(d, "0123456789#"), []fmtArg{a, b})
				}
			}
		})
	}
	for _, n := range sizes {
		n := n
		gg.Case(fmt.Sprintf("size %d", n), func(t *core.T) {
			var l []fmtArg
			for i := 0; i < n; i++ {
				l = append(l, fmtArg{strconv.Itoa(i), int64(i), g.IntegerWithValue(int64(i))})
			}
			for _, u := range []string{"~a", "~s ", "~5@a", "~#a", "x~a~%"} {
				for d := -1; d <= 1; d++ {
					if n+d >= 0 {
						fmtCase(t, strings.Repeat(u, n+d), l)
					}
				}
			}
			fmtCase(t, strings.Repeat("x", n), nil)
			fmtCase(t, strings.Repeat("~~", n)+strings.Repeat("~%", n), nil)
		})
	}
	// destinations
	gg.Case("destinations", func(t *core.T) {
		css := []string{"", "x", "~a", "~s~%", "a~5@ab", "~a~", "~q", "~a~a", "x~", "~~", "abc~q", "~%~a~a~a"}
		for _, n := range []int{9, 17, 33, 65, 129, 257, 1025, 5000} {
			for _, u := range []string{"a~~", "~%", "b", "long text without directives~~"} {
				for _, e := range []string{"", "~a", "~a~a", "~q", "~", "~va"} {
					css = append(css, strings.Repeat(u, n)+e)
				}
			}
		}
		for _, cs := range css {
			for _, l := range lists {
				for _, src := range []string{"port", "#t", "append"} {
					t.Progress()
					rv := make([]ref.Val, len(l))
					for i, a := range l {
						rv[i] = a.rv
					}
					want, bad, open := refFormat(cs, rv)
					if open {
						continue
					}
					os.Remove("out")
					os.WriteFile("out", []byte("old"), 0644)
					pre := ""
					flags := os.O_WRONLY | os.O_TRUNC
					if src == "append" {
						flags = os.O_WRONLY | os.O_APPEND
						pre = "old"
					}
					f, err := os.OpenFile("out", flags, 0)
					if err != nil {
						panic(err)
					}
					stdout := os.Stdout
					dest := g.BooleanWithValue(true)
					if src == "#t" {
						os.Stdout = f
					} else {
						dest = g.PortWithValue(f)
					}
					got := callFormat(dest, cs, l)
					if !bad && !got.err {
						// a second call goes behind the first
						callFormat(dest, cs, l)
						want += want
					}
					os.Stdout = stdout
					f.Close()
					b, _ := os.ReadFile("out")
					if bad {
						want = ""
					}
					if got.panic != "" || got.err != bad || string(b) != pre+want || !bad && got.val != "()" {
						t.Fail("port", "(format %s %q%s) gives %s and leaves %q, should leave %q", src, cs, argSrc(l), got, b, pre+want)
					}
					t.Trace(1)
				}
			}
		}
		for _, d := range anyValues {
			if d == "#t" || d == "#f" {
				continue
			}
			if got := callFormatFrom(fmtArgs(d)[0].gv, g.StringWithValue("x"), nil); !got.err {
				t.Fail("error", "(format %s \"x\") gives %s", d, got)
			}
		}
		for _, d := range anyValues {
			if d[0] == '"' {
				continue
			}
			for _, l := range lists {
				if got := callFormatFrom(g.BooleanWithValue(false), fmtArgs(d)[0].gv, l); !got.err {
					t.Fail("error", "(format #f %s%s) gives %s", d, argSrc(l), got)
				}
			}
		}
	})
}

// ---- C28

// the file model
type mport struct {
	file   string
	in     bool
	app    bool
	closed bool
	off    int
	data   []ref.Val // what can be read
	next   int
	open   bool // what it reads is left open
	stale  *bool
}

type mfs struct {
	files map[string]string
	ports map[string]*mport
	all   []*mport
}

func (m *mfs) write(p *mport, s string) bool {
	if p == nil || p.in || p.closed {
		return false
	}
	c := m.files[p.file]
	off := p.off
	if p.app {
		off = len(c)
	}
	if len(s) > 0 {
		for len(c) < off {
			c += "\x00"
		}
		end := off + len(s)
		tail := ""
		if end < len(c) {
			tail = c[end:]
		}
		m.files[p.file] = c[:off] + s + tail
		p.off = end
		m.changed(p.file)
	}
	return true
}

// changed: what ports that are reading the file see is left open.
func (m *mfs) changed(f string) {
	for _, p := range m.all {
		if p.in && !p.closed && p.file == f {
			p.open = true
		}
	}
}

type pop struct {
	src string
	f   func(m *mfs) (val string, bad, open bool)
}

func portOps(deep bool) []pop {
	var ops []pop
	add := func(src string, f func(m *mfs) (string, bool, bool)) { ops = append(ops, pop{src, f}) }
	openOut := func(v, f string, app bool) {
		flag := ""
		if app {
			flag = " #t"
		}
		add(fmt.Sprintf("(define %s (open-output-file %q%s))", v, f, flag), func(m *mfs) (string, bool, bool) {
			p := &mport{file: f, app: app}
			if !app {
				if m.files[f] != "" {
					m.changed(f)
				}
				m.files[f] = ""
			} else if _, ok := m.files[f]; !ok {
				m.files[f] = ""
			}
			m.ports[v] = p
			m.all = append(m.all, p)
			return "<port>", false, false
		})
	}
	openIn := func(v, f string) {
		add(fmt.Sprintf("(define %s (open-input-file %q))", v, f), func(m *mfs) (string, bool, bool) {
			c, ok := m.files[f]
			if !ok {
				return "", true, false
			}
			p := &mport{file: f, in: true}
			l, op, err := ref.ReadOpen(c)
			p.data, p.open = l, op || err != nil || strings.Contains(c, "\x00")
			m.ports[v] = p
			m.all = append(m.all, p)
			return "<port>", false, false
		})
	}
	wr := func(src, v, text string) {
		add(src, func(m *mfs) (string, bool, bool) {
			if !m.write(m.ports[v], text) {
				return "", true, false
			}
			return "()", false, false
		})
	}
	cl := func(v string) {
		add("(close-port "+v+")", func(m *mfs) (string, bool, bool) {
			p := m.ports[v]
			if p == nil {
				return "", true, false
			}
			if p.closed {
				return "", false, true
			}
			p.closed = true
			return "()", false, false
		})
	}
	rd := func(v string) {
		add("(read "+v+")", func(m *mfs) (string, bool, bool) {
			p := m.ports[v]
			if p == nil {
				return "", true, false
			}
			if p.closed || p.open || !p.in {
				return "", false, true
			}
			if p.next == len(p.data) {
				return "<eof>", false, false
			}
			p.next++
			return ref.Canon(p.data[p.next-1]), false, false
		})
	}
	openOut("o", "f", false)
	openOut("o", "f", true)
	openIn("i", "f")
	wr(`(write-string "ab \"c\"" o)`, "o", `ab "c"`)
	wr(`(write '(1 "x" y) o)`, "o", `(1 "x" y)`)
	wr("(newline o)", "o", "\n")
	wr("(write-bytes [59 32 65] o)", "o", "; A")
	wr(`(write-string "z" i)`, "i", "z")
	cl("o")
	cl("i")
	rd("i")
	openOut("p", "f", false)
	openOut("p", "f", true)
	wr(`(format p "~s~a" '(q) 7)`, "p", "(q)7")
	if deep {
		openOut("p", "h", false)
		openIn("j", "f")
		openIn("i", "h")
		rd("j")
		cl("p")
		wr(`(write 'sym p)`, "p", "sym")
	}
	return ops
}

func runPorts(t *core.T, ops []pop, seq []int) {
	m := &mfs{files: map[string]string{}, ports: map[string]*mport{}}
	var want []string
	var bads []bool
	for _, i := range seq {
		v, bad, open := ops[i].f(m)
		if open {
			t.Count("skipped: left open")
			return
		}
		want, bads = append(want, v), append(bads, bad)
	}
	t.Progress()
	os.Remove("f")
	os.Remove("h")
	env := freshEnv()
	var ports []*g.Data
	text := ""
	for k, i := range seq {
		src := ops[i].src
		text += " " + src
		v, err := evalData(env, src)
		got := ""
		if err == nil {
			got = canon(v)
			if g.PortP(v) {
				ports = append(ports, v)
			} else if g.BooleanP(eofP(v)) && g.BooleanValue(eofP(v)) {
				got = "<eof>"
			}
		}
		if strings.HasPrefix(src, "(write") || strings.HasPrefix(src, "(newline") || strings.HasPrefix(src, "(format") || strings.HasPrefix(src, "(close") {
			if got != "" {
				got = "()"
			}
		}
		if (err != nil) != bads[k] || !bads[k] && got != want[k] {
			t.Fail("result", "after%s: result %s, error %v; should be %s, error %v", text, got, err, want[k], bads[k])
		}
	}
	for _, f := range []string{"f", "h"} {
		b, err := os.ReadFile(f)
		c, ok := m.files[f]
		if (err == nil) != ok || string(b) != c {
			t.Fail("content", "after%s: file %s holds %q, should hold %q (%v)", text, f, b, c, ok)
		}
	}
	closeAll(ports)
	t.Trace(1)
	t.Steps(len(seq))
	t.State(m.files["f"] + "|" + m.files["h"] + "|" + strings.Join(want, ","))
}

func evalData(env *g.SymbolTableFrame, src string) (d *g.Data, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic %v", p)
			d = g.StringWithValue("panic")
		}
	}()
	return g.ParseAndEvalInEnvironment(src, env)
}

func eofP(d *g.Data) *g.Data {
	env := freshEnv()
	env.BindLocallyTo(g.Intern("v"), d)
	r, _ := g.ParseAndEvalInEnvironment("(eof-object? v)", env)
	return r
}

func closeAll(ports []*g.Data) {
	for _, p := range ports {
		env := freshEnv()
		env.BindLocallyTo(g.Intern("p"), p)
		g.ParseAndEvalInEnvironment("(close-port p)", env)
	}
}

func genC28(gg *core.G) {
	deep := gg.Thorough()
	ops := portOps(deep)
	k := 5
	for a := range ops {
		for b := range ops {
			a, b := a, b
			gg.Case(fmt.Sprintf("ops %d %d", a, b), func(t *core.T) {
				seq := []int{a, b}
				var rec func()
				rec = func() {
					if t.Expired() || t.Failed() {
						return
					}
					runPorts(t, ops, seq)
					if len(seq) == k {
						return
					}
					for c := range ops {
						seq = append(seq, c)
						rec()
						seq = seq[:len(seq)-1]
					}
				}
				rec()
			})
		}
	}
	// longer histories: open, a writes, close, append, b writes, close, read all
	gg.Case("write, append, read", func(t *core.T) {
		ws := []int{3, 4, 5}
		var seqs [][]int
		for n := 0; n <= 3; n++ {
			al := make([]int, n)
			var rec func(i int)
			rec = func(i int) {
				if i == n {
					seqs = append(seqs, append([]int{}, al...))
					return
				}
				for _, w := range ws {
					al[i] = w
					rec(i + 1)
				}
			}
			rec(0)
		}
		for _, a := range seqs {
			for _, b := range seqs {
				for _, second := range []int{0, 1} {
					s := append([]int{0}, a...)
					s = append(s, 8, second)
					s = append(s, b...)
					s = append(s, 8, 2)
					for i := 0; i < 8; i++ {
						s = append(s, 10)
					}
					runPorts(t, ops, append(s, 9))
				}
			}
		}
	})
	// every byte
	gg.Case("bytes", func(t *core.T) {
		for _, n := range sizes {
			for s := 0; s < 256; s += 3 {
				t.Progress()
				os.Remove("f")
				var w []byte
				src := ""
				for i := 0; i < n; i++ {
					w = append(w, byte(s+i))
					src += fmt.Sprintf(" %d", byte(s+i))
				}
				env := freshEnv()
				evalIn(env, `(define o (open-output-file "f"))`)
				evalIn(env, "(write-bytes ["+src+"] o)")
				evalIn(env, "(write-bytes ["+src+"] o)")
				evalIn(env, `(close-port o)`)
				b, _ := os.ReadFile("f")
				if string(b) != string(w)+string(w) {
					t.Fail("content", "write-bytes [%s] twice wrote %v", src, b)
				}
				t.Trace(1)
			}
		}
		for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 65546, 131071, 131072, 131073, 200001} {
			w := make([]byte, n)
			for i := range w {
				w[i] = byte(i + i>>8)
			}
			for _, how := range []string{"(write-bytes b o)", "(write-string s o)", "(write b o)", "(format o \"~A\" s)"} {
				os.Remove("f")
				env := freshEnv()
				want := string(w)
				str := ""
				if strings.Contains(how, " s") {
					str = strings.Repeat("0123456789abcdef", n/16+1)[:n]
					want = str
				}
				data := append([]byte{}, w...)
				env.BindLocallyTo(g.Intern("b"), g.ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&data)))
				env.BindLocallyTo(g.Intern("s"), g.StringWithValue(str))
				if how == "(write b o)" {
					var sb strings.Builder
					for i, x := range w {
						if i > 0 {
							sb.WriteByte(' ')
						}
						fmt.Fprintf(&sb, "%d", x)
					}
					want = "[" + sb.String() + "]"
				}
				evalIn(env, `(define o (open-output-file "f"))`)
				evalIn(env, how)
				evalIn(env, how)
				evalIn(env, "(close-port o)")
				if got, _ := os.ReadFile("f"); string(got) != want+want {
					t.Fail("content", "%s of %d bytes twice wrote %d bytes, not those %d", how, n, len(got), 2*len(want))
				}
				t.Trace(1)
				t.Progress()
			}
		}
		for r := rune(0); r < 0x2000; r++ {
			os.Remove("f")
			env := freshEnv()
			s := "a" + string(r) + "b"
			env.BindLocallyTo(g.Intern("s"), g.StringWithValue(s))
			evalIn(env, `(define o (open-output-file "f"))`)
			evalIn(env, "(write-string s o)")
			evalIn(env, "(close-port o)")
			if b, _ := os.ReadFile("f"); string(b) != s {
				t.Fail("content", "write-string of %q wrote %q", s, b)
			}
			t.Trace(1)
			t.Progress()
		}
	})
	// what is written is read back
	vals := []string{"5", "-7", "1.5", "\"\"", "\"a b\"", "\"q\\\"\\\\\"", "\"l\\nm\"", "\"é日\"", "'sym", "'key:", "#t", "#f", "()", "'(1 2)", "'(1 . 2)", "'(1 (2 . x) \"s\")", "[1 255]", "'(a: 1)", "''x", "'((x . 1) (y . 2))", "'(())"}
	for _, a := range vals {
		a := a
		gg.Case("round trip "+a, func(t *core.T) {
			for _, b := range vals {
				for _, c := range vals {
					for _, sep := range []string{"(newline o)", `(write-string " ; c\n" o)`} {
						t.Progress()
						os.Remove("f")
						env := freshEnv()
						var w []string
						evalIn(env, `(define o (open-output-file "f"))`)
						for _, v := range []string{a, b, c} {
							d, _ := g.ParseAndEvalInEnvironment(v, env)
							w = append(w, canon(d))
							env.BindLocallyTo(g.Intern("v"), d)
							evalIn(env, "(write v o)")
							evalIn(env, sep)
						}
						evalIn(env, "(close-port o)")
						evalIn(env, `(define i (open-input-file "f"))`)
						for k, v := range w {
							d, err := evalData(env, "(read i)")
							// byte arrays are read as what builds them
							got := canon(d)
							if err == nil && strings.HasPrefix(v, "[") {
								d, err = g.Eval(d, env)
								got = canon(d)
							}
							if err != nil || got != v {
								t.Fail("round trip", "written %s %s %s; datum %d read back as %s, %v", a, b, c, k, got, err)
							}
							if e := eofP(d); !g.BooleanP(e) || g.BooleanValue(e) {
								t.Fail("eof", "(eof-object? %s) is true", v)
							}
						}
						for k := 0; k < 2; k++ {
							d, _ := evalData(env, "(read i)")
							if e := eofP(d); !g.BooleanP(e) || !g.BooleanValue(e) {
								t.Fail("eof", "reading at the end gives %s", canon(d))
							}
						}
						evalIn(env, "(close-port i)")
						t.Trace(1)
						t.Steps(8)
					}
				}
			}
		})
	}
	// across the boundaries of any buffer
	for _, at := range []int{512, 1024, 2048, 4096, 8192, 32768, 65536} {
		at := at
		gg.Case(fmt.Sprintf("boundary %d", at), func(t *core.T) {
			for _, d := range []string{"symbol", "\"a string\"", "12345", "(a (b c) d)", "é日本語", "\"é日本語\"", "; comment\nafter", "'q", "(1 . 2)", "{a: 1}", "#t", "-1.25", "\"\\\"\\\\\""} {
				for off := -14; off <= 2; off++ {
					for _, fillc := range []string{" ", "\n", "x", ";"} {
						pad := strings.Repeat(fillc, at+off-1) + "\n"
						if fillc == ";" {
							pad = ";" + strings.Repeat("c", at+off-2) + "\n"
						}
						text := pad + d + "\nend"
						readAllFile(t, text)
					}
				}
			}
		})
	}
	for _, n := range append(append([]int{}, sizes...), 1000, 5000) {
		n := n
		gg.Case(fmt.Sprintf("data %d", n), func(t *core.T) {
			readAllFile(t, rep(n, func(i int) string { return fmt.Sprintf(" (item %d \"s%d\")", i, i) }))
			readAllFile(t, "("+rep(n, num)+")")
			readAllFile(t, strings.Repeat("\n", n)+"x")
			readAllFile(t, "\""+strings.Repeat("é", n)+"\" y")
		})
	}
	// two ports of one file do not disturb each other
	gg.Case("two readers", func(t *core.T) {
		for n := 0; n <= 6; n++ {
			for mask := 0; mask < 1<<8; mask++ {
				t.Progress()
				os.WriteFile("f", []byte(rep(n, num)), 0644)
				env := freshEnv()
				evalIn(env, `(define i (open-input-file "f"))`)
				evalIn(env, `(define j (open-input-file "f"))`)
				pos := [2]int{}
				for b := 0; b < 8; b++ {
					w := mask >> b & 1
					d, err := evalData(env, "(read "+[]string{"i", "j"}[w]+")")
					want := strconv.Itoa(pos[w])
					if pos[w] >= n {
						want = canon(g.EofObject)
					}
					if err != nil || canon(d) != want {
						t.Fail("two readers", "with %d data, reading in order %b: step %d gives %s, should be %s", n, mask, b, canon(d), want)
					}
					pos[w]++
				}
				evalIn(env, "(close-port i)")
				evalIn(env, "(close-port j)")
				t.Trace(1)
				t.Steps(8)
			}
		}
	})
	gg.Case("wrong arguments", func(t *core.T) {
		os.Remove("f")
		os.WriteFile("g", []byte("x"), 0644)
		env := freshEnv()
		bad := func(src string) {
			if o := evalIn(env, src); !o.err {
				t.Fail("error", "%s gives %s, should be an error", src, o)
			}
			t.Trace(1)
		}
		for _, v := range anyValues {
			if v[0] != '"' {
				bad("(open-input-file " + v + ")")
				bad("(open-output-file " + v + ")")
				bad("(open-output-file " + v + " #t)")
			}
			bad("(close-port " + v + ")")
			bad("(read " + v + ")")
			bad("(newline " + v + ")")
			bad("(write 1 " + v + ")")
			bad("(write-string \"x\" " + v + ")")
			bad("(write-bytes [1] " + v + ")")
			evalIn(env, `(define o (open-output-file "w"))`)
			if v[0] != '"' {
				bad("(write-string " + v + " o)")
			}
			if v[0] != '[' {
				bad("(write-bytes " + v + " o)")
			}
			evalIn(env, "(close-port o)")
			if b, _ := os.ReadFile("w"); len(b) > 0 {
				t.Fail("content", "a failed write of %s wrote %q", v, b)
			}
			if e := evalIn(env, "(eof-object? "+v+")"); e.val != "#f" {
				t.Fail("eof", "(eof-object? %s) gives %s", v, e)
			}
		}
		bad(`(open-input-file "nonexistent")`)
		bad(`(open-input-file "nodir/f")`)
		bad(`(open-output-file "nodir/f")`)
		bad(`(open-output-file "nodir/f" #t)`)
		bad(`(open-output-file "")`)
		evalIn(env, `(define i (open-input-file "g"))`)
		bad(`(write 1 i)`)
		bad(`(newline i)`)
		bad(`(write-bytes [1] i)`)
		bad(`(format i "x")`)
		bad(`(write-string "a" i)`)
		if b, _ := os.ReadFile("g"); string(b) != "x" {
			t.Fail("content", "writing to an input port changed the file to %q", b)
		}
		evalIn(env, "(close-port i)")
		bad(`(write 1 i)`)
	})
	// standard output is the default
	gg.Case("stdout", func(t *core.T) {
		for _, c := range [][2]string{{"(write-string \"a b\")", "a b"}, {"(write \"a b\")", "\"a b\""}, {"(newline)", "\n"}, {"(write '(1 x))", "(1 x)"}, {"(format #t \"~s\" 1)", "1"}, {"(begin (write 1) (newline) (write-string \"x\"))", "1\nx"}} {
			f, err := os.Create("out")
			if err != nil {
				panic(err)
			}
			so := os.Stdout
			os.Stdout = f
			o := evalIn(freshEnv(), c[0])
			os.Stdout = so
			f.Close()
			if b, _ := os.ReadFile("out"); string(b) != c[1] || o.err {
				t.Fail("stdout", "%s wrote %q, should write %q", c[0], b, c[1])
			}
			t.Trace(1)
		}
	})
	// directories
	gg.Case("list-directory", func(t *core.T) {
		names := []string{"a.txt", "b.txt", "ab.lsp", "c", ".h", "é.txt"}
		pats := []string{"", "*", "*.txt", "a*", "?.txt", "[ab].txt", "c", "zz", "*b*", "??"}
		for mask := 0; mask < 1<<len(names); mask++ {
			os.RemoveAll("d")
			os.Mkdir("d", 0755)
			var have []string
			for i, n := range names {
				if mask>>i&1 == 1 {
					if n == "c" {
						os.Mkdir("d/"+n, 0755)
					} else {
						os.WriteFile("d/"+n, nil, 0644)
					}
					have = append(have, n)
				}
			}
			for _, p := range pats {
				t.Progress()
				var want []string
				pat := p
				src := `(list-directory "d" "` + p + `")`
				if p == "" {
					pat = "*"
					src = `(list-directory "d")`
				}
				for _, n := range have {
					if ok, _ := filepath.Match(pat, n); ok {
						want = append(want, "d/"+n)
					}
				}
				d, err := evalData(freshEnv(), src)
				var got []string
				for _, x := range g.ToArray(d) {
					if !g.StringP(x) {
						t.Fail("directory", "%s gives %s", src, canon(d))
						return
					}
					got = append(got, g.StringValue(x))
				}
				sort.Strings(want)
				sort.Strings(got)
				if err != nil || strings.Join(got, "|") != strings.Join(want, "|") {
					t.Fail("directory", "%s with %v gives %v, should give %v", src, have, got, want)
				}
				t.Trace(1)
			}
		}
		if o := evalIn(freshEnv(), `(list-directory "nodir")`); o.val != "()" {
			t.Fail("directory", "listing a missing directory gives %s", o)
		}
		os.RemoveAll("d")
	})
}

// readAllFile reads a file datum by datum.
func readAllFile(t *core.T, text string) {
	if t.Failed() {
		return
	}
	t.Progress()
	l, open, err := ref.ReadOpen(text)
	if open || err != nil {
		t.Count("skipped: left open")
		return
	}
	os.WriteFile("f", []byte(text), 0644)
	env := freshEnv()
	if o := evalIn(env, `(define i (open-input-file "f"))`); o.err {
		t.Fail("open", "%s", o)
		return
	}
	for k := 0; k <= len(l)+1; k++ {
		d, err := evalData(env, "(read i)")
		want := canon(g.EofObject)
		if k < len(l) {
			want = ref.Canon(l[k])
		}
		if err != nil || canon(d) != want {
			t.Fail("read", "file of %d bytes ending %q: datum %d reads as %s, %v; should be %s", len(text), tail(text), k, clip(canon(d)), err, clip(want))
			break
		}
	}
	evalIn(env, "(close-port i)")
	t.Trace(1)
	t.Steps(len(l))
	t.State(tail(text))
}

func tail(s string) string {
	if len(s) > 60 {
		return s[len(s)-60:]
	}
	return s
}

// ---- C30

var loadForms = []string{"(define a 1)", "(set! a (+ a 1))", "(define (f) (mc-log a))", "(f)", "(mc-log 7)", "a", "\"s\"", "'(x y)", "(error \"e\")", "(undefined-function 1)", "(begin (mc-log 8) (error 9))", "(on-error (error 1) (lambda (e) (mc-log 3)))", "()", ")", "(mc-log", "; c"}

// refLoad evaluates a text form by form.
func refLoad(it *ref.Interp, text string, env *ref.Env) (val ref.Val, bad, open bool) {
	l, op, rerr := ref.ReadOpen(text)
	if op {
		return nil, false, true
	}
	for _, x := range l {
		v, err := it.Eval(x, env)
		if it.Quirk != "" || err == ref.ErrBudget {
			return nil, false, true
		}
		if err != nil {
			return nil, true, false
		}
		val = v
	}
	return val, rerr != nil, false
}

func loadCase(t *core.T, text string) {
	if t.Failed() {
		return
	}
	it := ref.NewInterp(20000)
	renv := ref.NewEnv(it.Global, nil, "mc")
	v, bad, open := refLoad(it, text, renv)
	var after [2]outcome
	for i, s := range []string{"a", "(environment-bound? (the-environment) 'f)"} {
		x, err := it.EvalString(s, renv)
		after[i] = outcome{val: ref.Canon(x), err: err != nil}
	}
	if open {
		t.Count("skipped: left open")
		return
	}
	want := outcome{err: true}
	if !bad {
		want = outcome{val: ref.Canon(v)}
	}
	t.Progress()
	for _, how := range []string{"ParseAndEvalAllInEnvironment", "ProcessFileInEnvironment", "load"} {
		effects = effects[:0]
		env := freshEnv()
		var got outcome
		func() {
			defer func() {
				if p := recover(); p != nil {
					got = outcome{panic: fmt.Sprint(p)}
				}
			}()
			var d *g.Data
			var err error
			switch how {
			case "load":
				os.WriteFile("f.lsp", []byte(text), 0644)
				// load works in the global environment
				d, err = g.ParseAndEvalInEnvironment(`((lambda (q) (load "f.lsp")) 1)`, env)
				env = g.Global
			case "ProcessFileInEnvironment":
				os.WriteFile("f.lsp", []byte(text), 0644)
				d, err = g.ProcessFileInEnvironment("f.lsp", env)
			default:
				d, err = g.ParseAndEvalAllInEnvironment(text, env)
			}
			if err != nil {
				got = outcome{err: true, msg: err.Error()}
			} else {
				got = outcome{val: canon(d)}
			}
		}()
		if !got.same(want) {
			t.Fail("differs", "%s of %q gives %s, should give %s", how, text, got, want)
		}
		if a, b := strings.Join(effects, " "), strings.Join(it.Log, " "); a != b {
			t.Fail("effects", "%s of %q logged %q, should log %q", how, text, a, b)
		}
		for i, s := range []string{"a", "(environment-bound? (the-environment) 'f)"} {
			if x := evalIn(env, s); !x.same(after[i]) {
				t.Fail("bindings", "%s of %q leaves %s as %s, should be %s", how, text, s, x, after[i])
			}
		}
		if how == "load" {
			delete(g.Global.Bindings, "a")
			delete(g.Global.Bindings, "f")
		}
	}
	t.Trace(3)
	t.Steps(it.Steps)
	t.State(want.String() + strings.Join(it.Log, " "))
}

func genC30(gg *core.G) {
	deep := gg.Thorough()
	k := 4
	if deep {
		k = 5
	}
	for _, a := range loadForms {
		for _, b := range loadForms {
			a, b := a, b
			gg.Case("forms "+a+" "+b, func(t *core.T) {
				words(loadForms, k-2, func(v []string) {
					if t.Expired() {
						return
					}
					loadCase(t, strings.Join(append([]string{a, b}, v...), "\n"))
				})
			})
		}
	}
	gg.Case("separators", func(t *core.T) {
		seps := []string{" ", "\n", "", "\r\n", "\t", "; c\n", "\n\n ; x\n;y\n", "\f"}
		loadCase(t, "")
		for _, a := range loadForms {
			loadCase(t, a)
			for _, s := range seps {
				loadCase(t, s)
				loadCase(t, s+a)
				loadCase(t, a+s)
				for _, b := range loadForms {
					for _, s2 := range seps {
						loadCase(t, a+s+b+s2)
						loadCase(t, s2+a+s+b)
					}
				}
			}
		}
	})
	for _, n := range append(append([]int{}, sizes...), 500, 3000) {
		n := n
		gg.Case(fmt.Sprintf("size %d", n), func(t *core.T) {
			pad := "(define a 0)\n"
			loadCase(t, pad+rep(n, func(int) string { return "(set! a (+ a 1))\n" }))
			loadCase(t, pad+rep(n, func(int) string { return "(set! a (+ a 1))" }))
			loadCase(t, pad+rep(n, func(int) string { return "(set! a (+ a 1))\n" })+"(error 1) (set! a 0)")
			loadCase(t, pad+rep(n, func(i int) string { return fmt.Sprintf("(mc-log %d)", i) }))
			loadCase(t, strings.Repeat(";", n)+"\n"+pad+"a")
		})
	}
	// files that load files
	gg.Case("nested", func(t *core.T) {
		parts := []string{"", "(mc-log 1)", "(error 1)", "(define a 5)", "(mc-log a)", "(mc-log"}
		for _, a := range parts {
			for _, b := range parts {
				for _, c := range parts {
					for _, d := range parts {
						t.Progress()
						// f: a (load "g") b;  g: c d
						it := ref.NewInterp(20000)
						env := ref.NewEnv(it.Global, nil, "mc")
						_, bad, open := refLoad(it, a, env)
						var v ref.Val
						stop := func(s string) {
							if !bad && !open {
								var x ref.Val
								x, bad, open = refLoad(it, s, env)
								if s != "" && !bad {
									v = x
								}
							}
						}
						stop(c)
						if c == "(mc-log" {
							// swallows what follows
							continue
						}
						stop(d)
						if c == "" && d == "" {
							v = nil
						}
						stop(b)
						if open || a == "(mc-log" {
							continue
						}
						os.WriteFile("f.lsp", []byte(a+"\n(load \"g.lsp\")\n"+b), 0644)
						os.WriteFile("g.lsp", []byte(c+"\n"+d), 0644)
						effects = effects[:0]
						x, err := g.ProcessFileInEnvironment("f.lsp", g.Global)
						if (err != nil) != bad || !bad && canon(x) != ref.Canon(v) || strings.Join(effects, " ") != strings.Join(it.Log, " ") {
							t.Fail("nested", "f: %s (load g) %s, g: %s %s gives %s, %v, log %v; should give %s, %v, %v", a, b, c, d, canon(x), err, effects, ref.Canon(v), bad, it.Log)
						}
						delete(g.Global.Bindings, "a")
						t.Trace(1)
					}
				}
			}
		}
	})
	gg.Case("missing", func(t *core.T) {
		for _, v := range anyValues {
			if v[0] != '"' {
				if o := evalIn(freshEnv(), "(load "+v+")"); !o.err {
					t.Fail("error", "(load %s) gives %s", v, o)
				}
			}
			t.Trace(1)
		}
		for _, f := range []string{"nofile", "nodir/x", "", "."} {
			if o := evalIn(freshEnv(), fmt.Sprintf("(load %q)", f)); !o.err {
				t.Fail("error", "(load %q) gives %s", f, o)
			}
			if _, err := g.ProcessFile(f); err == nil {
				t.Fail("error", "ProcessFile(%q) gives no error", f)
			}
		}
	})
	// one form only
	gg.Case("first form", func(t *core.T) {
		for _, a := range []string{"(mc-log 1)", "5", "'x", "\"s\"", "()", "(begin)", "; c\n 6", "(error 1)"} {
			for _, b := range loadForms {
				t.Progress()
				it := ref.NewInterp(1000)
				renv := ref.NewEnv(it.Global, nil, "mc")
				v, err := it.EvalString(a, renv)
				if it.Quirk != "" {
					continue
				}
				want := outcome{err: true}
				if err == nil {
					want = outcome{val: ref.Canon(v)}
				}
				effects = effects[:0]
				if got := evalIn(freshEnv(), a+" "+b); !got.same(want) || strings.Join(effects, " ") != strings.Join(it.Log, " ") {
					t.Fail("first", "ParseAndEval of %q gives %s, log %v; should give %s, log %v", a+" "+b, got, effects, want, it.Log)
				}
				t.Trace(1)
			}
		}
	})
}
