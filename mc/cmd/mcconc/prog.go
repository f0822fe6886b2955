package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/explore"
	"verif/mc/vsched"
)

// Obs is what one execution of a Prog showed.
type Obs struct {
	Res  [][]string // results per thread; "blocked" if the operation never ended
	Post []string
	Left int // threads of the program (not of the harness) still blocked
	ops  [][]opRes
}

func (o *Obs) String() string {
	s := key(o.Res, o.Post)
	if o.Left > 0 {
		s += fmt.Sprintf(" [%d processes blocked]", o.Left)
	}
	return s
}

// Prog is a program whose threads may block for ever.
type Prog struct {
	Name    string
	Setup   []string
	Threads [][]string
	Post    []string
	Bound   int
	Budget  time.Duration
	Check   func(o *Obs) string
	// Fails: panics that count as an outcome instead of a violation
	Steps int
	// Prep runs during setup (Go API).
	Prep func(env *g.SymbolTableFrame)
	// Before runs at the start of every execution.
	Before func()
	// RunSetup evaluates Setup inside the explored phase, before the threads.
	RunSetup bool
	Ignore   func(v *vsched.Violation) bool
}

func (p *Prog) Run(t *core.T) {
	body := func() (string, string) {
		vsched.OldTimers = false
		if p.Before != nil {
			p.Before()
		}
		env := newEnv()
		if !p.RunSetup {
			evalAll(env, p.Setup)
		}
		if p.Prep != nil {
			p.Prep(env)
		}
		n := len(p.Threads)
		code := make([][]*g.Data, n)
		o := &Obs{Res: make([][]string, n), ops: make([][]opRes, n)}
		cur := make([]int, n)
		fin := make([]bool, n)
		for i, th := range p.Threads {
			for _, s := range th {
				code[i] = append(code[i], parse(s))
			}
		}
		var setup, posts []*g.Data
		if p.RunSetup {
			for _, s := range p.Setup {
				setup = append(setup, parse(s))
			}
		}
		for _, s := range p.Post {
			posts = append(posts, parse(s))
		}
		vsched.StartRun()
		for i, c := range setup {
			if _, err := g.Eval(c, env); err != nil {
				return "setup failed", fmt.Sprintf("setup %s failed: %v", p.Setup[i], err)
			}
		}
		for i := range p.Threads {
			i := i
			vsched.Go(func() {
				for k, c := range code[i] {
					var r opRes
					r.inv = vsched.Tick()
					r.t0 = nowMs()
					vsched.Logf("begins %s", p.Threads[i][k])
					v, err := g.Eval(c, env)
					r.val = show(v, err)
					r.res = vsched.Tick()
					r.t1 = nowMs()
					vsched.Logf("got %s", r.val)
					o.Res[i] = append(o.Res[i], r.val)
					o.ops[i] = append(o.ops[i], r)
					cur[i] = k + 1
				}
				fin[i] = true
			})
		}
		left := vsched.Quiesce()
		vsched.Post()
		for i := range p.Threads {
			if !fin[i] {
				o.Res[i] = append(o.Res[i], "blocked")
				left--
			}
		}
		o.Left = left
		for _, q := range posts {
			v, err := g.Eval(q, env)
			o.Post = append(o.Post, show(v, err))
		}
		s := o.String()
		if m := p.Check(o); m != "" {
			return s, fmt.Sprintf("%s: outcome %s; threads %v, setup %v, afterwards %v", m, s, p.Threads, p.Setup, p.Post)
		}
		return s, ""
	}
	explore.Explore(t, &explore.Config{Name: p.Name, Body: body, Bound: p.Bound, Budget: p.Budget, MaxSteps: p.Steps, Ignore: p.Ignore})
}

func nowMs() int64 {
	n, _ := vsched.NowNano()
	return n / 1e6
}

// Chooser enumerates the runs of a nondeterministic model.
type Chooser struct {
	pre []int
	n   []int
	pos int
}

func (c *Chooser) Pick(n int) int {
	if n == 1 {
		return 0
	}
	if c.pos == len(c.pre) {
		c.pre = append(c.pre, 0)
		c.n = append(c.n, n)
	}
	v := c.pre[c.pos]
	c.pos++
	return v
}

// outcomes runs model for every sequence of choices.
func outcomes(model func(c *Chooser) string) (map[string]bool, int) {
	out := map[string]bool{}
	c := &Chooser{}
	runs := 0
	for {
		c.pos = 0
		out[model(c)] = true
		runs++
		i := len(c.pre) - 1
		for i >= 0 && c.pre[i]+1 >= c.n[i] {
			i--
		}
		if i < 0 {
			return out, runs
		}
		c.pre = append(c.pre[:i], c.pre[i]+1)
		c.n = c.n[:i+1]
	}
}

func keysOf(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) > 12 {
		l = append(l[:12], "...")
	}
	return strings.Join(l, "  //  ")
}

// oneOf checks that the outcome is one of the model's.
func oneOf(m map[string]bool) func(o *Obs) string {
	return func(o *Obs) string {
		if m[o.String()] {
			return ""
		}
		return "not an outcome the model allows (allowed: " + keysOf(m) + ")"
	}
}

func prog(G *core.G, p *Prog) {
	if p.Budget == 0 {
		p.Budget = 60 * time.Second
	}
	G.Case(p.Name, func(t *core.T) { p.Run(t) })
}
