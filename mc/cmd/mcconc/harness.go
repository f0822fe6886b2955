// Command mcconc explores thread schedules of an instrumented golisp.
package main

import (
	"fmt"
	"io"
	"log"
	"sort"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/explore"
	"verif/mc/vsched"
)

func main() {
	log.SetOutput(io.Discard)
	core.Main()
}

var envN int

func newEnv() *g.SymbolTableFrame {
	return g.NewSymbolTableFrameBelow(g.Global, "mc")
}

func parse(src string) *g.Data {
	d, err := g.Parse(src)
	if err != nil {
		panic(fmt.Sprintf("harness: cannot parse %s: %v", src, err))
	}
	return d
}

func show(d *g.Data, err error) string {
	if err != nil {
		return "E"
	}
	return showVal(d)
}

func showVal(d *g.Data) string {
	if d != nil && g.FrameP(d) {
		return showFrame(d)
	}
	s := g.String(d)
	if strings.HasPrefix(s, "<opaque Go object") {
		return "<object>"
	}
	return s
}

// showFrame prints a frame with its slots in order.
func showFrame(d *g.Data) string {
	f := g.FrameValue(d)
	var l []string
	for k, v := range f.Data {
		l = append(l, k+" "+showVal(v))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ", ") + "}"
}

// evalAll evaluates setup source in env.
func evalAll(env *g.SymbolTableFrame, src []string) {
	for _, s := range src {
		if _, err := g.Eval(parse(s), env); err != nil {
			panic(fmt.Sprintf("harness: setup %s: %v", s, err))
		}
	}
}

type opRes struct {
	inv, res int
	t0, t1   int64 // virtual milliseconds
	val      string
}

// Lin is a program whose every operation must appear to take effect at one
// instant between its start and its end.
type Lin struct {
	Name    string
	Setup   []string
	Threads [][]string
	Post    []string
	Bound   int
	MaxEx   int
	Budget  time.Duration
	Sorted  bool // results that are lists are compared as sets
	// Accept overrides the reference (nil: some sequential order explains it).
	Accept func(res [][]string, post []string) string
	Ignore func(v *vsched.Violation) bool
	// EnvPer: every thread evaluates in its own environment below the shared one.
	EnvPer bool
	// Top: the setup is evaluated in the global environment.
	Top bool
	// Src: the threads read their source text, too.
	Src bool
}

func (l *Lin) base() *g.SymbolTableFrame {
	if l.Top {
		return g.Global
	}
	return newEnv()
}

type refRun struct {
	key   string
	order []int // thread of each step
}

func (l *Lin) norm(s string) string {
	if l.Sorted && strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		f := strings.Fields(s[1 : len(s)-1])
		sort.Strings(f)
		return "(" + strings.Join(f, " ") + ")"
	}
	return s
}

func key(res [][]string, post []string) string {
	var b strings.Builder
	for _, r := range res {
		b.WriteString(strings.Join(r, ","))
		b.WriteString(" | ")
	}
	b.WriteString("=> " + strings.Join(post, ","))
	return b.String()
}

func (l *Lin) envs(env *g.SymbolTableFrame) []*g.SymbolTableFrame {
	es := make([]*g.SymbolTableFrame, len(l.Threads))
	for i := range es {
		es[i] = env
		if l.EnvPer {
			es[i] = g.NewSymbolTableFrameBelow(env, "t")
		}
	}
	return es
}

func (l *Lin) refs() []refRun {
	var out []refRun
	n := 0
	for _, t := range l.Threads {
		n += len(t)
	}
	pos := make([]int, len(l.Threads))
	var order []int
	var rec func()
	rec = func() {
		if len(order) == n {
			env := l.base()
			evalAll(env, l.Setup)
			es := l.envs(env)
			p := make([]int, len(l.Threads))
			res := make([][]string, len(l.Threads))
			for _, t := range order {
				v, err := g.Eval(parse(l.Threads[t][p[t]]), es[t])
				res[t] = append(res[t], l.norm(show(v, err)))
				p[t]++
			}
			var post []string
			for _, s := range l.Post {
				v, err := g.Eval(parse(s), env)
				post = append(post, l.norm(show(v, err)))
			}
			out = append(out, refRun{key(res, post), append([]int{}, order...)})
			return
		}
		for t := range l.Threads {
			if pos[t] < len(l.Threads[t]) {
				pos[t]++
				order = append(order, t)
				rec()
				order = order[:len(order)-1]
				pos[t]--
			}
		}
	}
	rec()
	return out
}

func consistent(order []int, rs [][]opRes) bool {
	p := make([]int, len(rs))
	var seq []opRes
	for _, t := range order {
		seq = append(seq, rs[t][p[t]])
		p[t]++
	}
	for i := range seq {
		for j := i + 1; j < len(seq); j++ {
			if seq[j].res < seq[i].inv { // j ended before i began
				return false
			}
		}
	}
	return true
}

func (l *Lin) Run(t *core.T) {
	var refs map[string][][]int
	if l.Accept == nil {
		refs = map[string][][]int{}
		for _, r := range l.refs() {
			refs[r.key] = append(refs[r.key], r.order)
		}
	}
	body := func() (string, string) {
		env := l.base()
		evalAll(env, l.Setup)
		es := l.envs(env)
		code := make([][]*g.Data, len(l.Threads))
		rs := make([][]opRes, len(l.Threads))
		var fs []func()
		for i, th := range l.Threads {
			for _, s := range th {
				code[i] = append(code[i], parse(s))
			}
			i := i
			fs = append(fs, func() {
				for k, c := range code[i] {
					var r opRes
					r.inv = vsched.Tick()
					vsched.Logf("begins %s", l.Threads[i][k])
					var v *g.Data
					var err error
					if l.Src {
						v, err = g.ParseAndEvalInEnvironment(l.Threads[i][k], es[i])
					} else {
						v, err = g.Eval(c, es[i])
					}
					r.val = l.norm(show(v, err))
					r.res = vsched.Tick()
					vsched.Logf("got %s", r.val)
					rs[i] = append(rs[i], r)
				}
			})
		}
		var posts []*g.Data
		for _, s := range l.Post {
			posts = append(posts, parse(s))
		}
		vsched.Parallel(fs...)
		vsched.Post()
		res := make([][]string, len(rs))
		for i := range rs {
			for _, r := range rs[i] {
				res[i] = append(res[i], r.val)
			}
		}
		var post []string
		for _, p := range posts {
			v, err := g.Eval(p, env)
			post = append(post, l.norm(show(v, err)))
		}
		k := key(res, post)
		if l.Accept != nil {
			return k, l.Accept(res, post)
		}
		for _, o := range refs[k] {
			if consistent(o, rs) {
				return k, ""
			}
		}
		why := "no order of the operations gives these results"
		if len(refs[k]) > 0 {
			why = "only an order that contradicts which operation ended before which began gives these results"
		}
		return k, fmt.Sprintf("%s: %s; threads %v, setup %v, afterwards %v", why, k, l.Threads, l.Setup, l.Post)
	}
	explore.Explore(t, &explore.Config{Name: l.Name, Body: body, Bound: l.Bound, MaxExecs: l.MaxEx, Budget: l.Budget, Ignore: l.Ignore})
}
