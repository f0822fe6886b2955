// Package explore enumerates the schedules of a small concurrent program under
// vsched, in order of the number of deviations (preemptions and early clock
// advances), and reports the bound it completed.
package explore

import (
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verif/mc/core"
	"verif/mc/vsched"
)

// Config is one closed concurrent program.
type Config struct {
	Name string
	// Body sets the program up, runs it with vsched.Parallel, and returns the
	// observed outcome; a non-empty second result is a violation.
	Body     func() (outcome, violation string)
	Bound    int // deviations
	MaxSteps int
	MaxExecs int
	// Accept says whether a violation kind found by the scheduler counts.
	Ignore func(v *vsched.Violation) bool
	// Budget is a soft time limit for this configuration.
	Budget time.Duration
	// Fault: torn races and such found count
}

type node struct {
	base []uint8
	n    int
	alt  uint8
}

func (n node) prefix() []uint8 {
	if n.base == nil && n.n == 0 {
		return nil
	}
	p := make([]uint8, n.n+1)
	copy(p, n.base[:n.n])
	p[n.n] = n.alt
	return p
}

type outcome struct {
	out, viol string
}

var execN int

func runOnce(c *Config, prefix []uint8, log bool) (*vsched.Exec, outcome) {
	var o outcome
	execN++
	if execN%64 == 0 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 400<<20 {
			runtime.GC()
		}
	}
	steps := c.MaxSteps
	if steps == 0 {
		steps = 5000
	}
	x := vsched.Run(prefix, steps, log, func() {
		a, b := c.Body()
		o.out, o.viol = a, b
	})
	return x, o
}

func violationOf(c *Config, x *vsched.Exec, o outcome) (string, string) {
	if x.Viol != nil {
		if x.Viol.Kind == "diverge" || c.Ignore == nil || !c.Ignore(x.Viol) {
			return x.Viol.Kind, x.Viol.Msg
		}
	}
	if x.Capped {
		return "", ""
	}
	if o.viol != "" {
		return "oracle", o.viol
	}
	return "", ""
}

func choices(x *vsched.Exec) []uint8 {
	o := make([]uint8, len(x.Trace))
	for i, c := range x.Trace {
		o[i] = uint8(c.Chosen)
	}
	return o
}

// Explore runs the configuration exhaustively up to its bound.
func Explore(t *core.T, c *Config) {
	debug.SetGCPercent(-1)
	// one P: handing the baton over is a goroutine switch
	runtime.GOMAXPROCS(1)
	vsched.S = vsched.NewShared()
	start := time.Now()
	runOnce(c, nil, false) // warm up interned names and the like
	maxExecs := c.MaxExecs
	if maxExecs == 0 {
		maxExecs = 1 << 30
	}
	execs := 0
	outs := map[string]int{}
	restarts := 0
restart:
	vsched.S.New = map[vsched.Key]string{}
	buckets := make([][]node, c.Bound+1)
	buckets[0] = []node{{}}
	bound := -1
	maxTrace := 0
	capped := false
	for b := 0; b <= c.Bound; b++ {
		for len(buckets[b]) > 0 {
			q := buckets[b]
			nd := q[len(q)-1]
			buckets[b] = q[:len(q)-1]
			pre := nd.prefix()
			x, o := runOnce(c, pre, false)
			t.Progress()
			execs++
			t.Steps(x.Steps)
			t.Trace(1)
			if x.Capped {
				t.Count("executions_cut_at_step_limit")
				capped = true
			}
			outs[o.out]++
			if k, m := violationOf(c, x, o); k != "" {
				report(t, c, x, k, m)
				t.Add("executions", int64(execs))
				return
			}
			if len(vsched.S.New) > 0 {
				for k := range vsched.S.New {
					vsched.S.Promoted[k] = true
				}
				restarts++
				if restarts < 60 {
					goto restart
				}
				vsched.S.New = map[vsched.Key]string{}
			}
			ch := choices(x)
			if len(ch) > maxTrace {
				maxTrace = len(ch)
			}
			if len(ch) > len(pre) {
				t.Nodes(len(ch) - len(pre))
			}
			cost := 0
			for i, cc := range x.Trace {
				if i >= len(pre) {
					for alt := 1; alt < cc.N; alt++ {
						nc := cost + int(cc.Costs[alt])
						if nc <= c.Bound {
							buckets[nc] = append(buckets[nc], node{ch, i, uint8(alt)})
						}
					}
				}
				cost += int(cc.Costs[cc.Chosen])
			}
			// zero-cost alternatives may land in a lower bucket than b only if
			// their prefix was cheaper, which cannot be: costs only grow.
			if execs >= maxExecs || (execs%32 == 0 && (t.Expired() || c.Budget > 0 && time.Since(start) > c.Budget)) {
				t.Count(fmt.Sprintf("configs_completed_bound_%d", bound))
				t.Add("executions", int64(execs))
				t.Capped("schedule budget")
				finish(t, c, execs, outs, maxTrace, bound)
				return
			}
		}
		bound = b
	}
	_ = capped
	t.Count(fmt.Sprintf("configs_completed_bound_%d", bound))
	t.Add("executions", int64(execs))
	if restarts > 0 {
		t.Add("promotion_restarts", int64(restarts))
	}
	finish(t, c, execs, outs, maxTrace, bound)
}

func finish(t *core.T, c *Config, execs int, outs map[string]int, maxTrace, bound int) {
	t.Add("distinct_outcomes", int64(len(outs)))
	if len(outs) > 1 {
		t.Count("configs_with_several_outcomes")
	}
	var l []string
	for o := range outs {
		h := fnv.New64a()
		io.WriteString(h, c.Name+"\x00"+o)
		t.StateHash(h.Sum64())
		if len(l) < 6 {
			l = append(l, o)
		}
	}
	t.Sample(fmt.Sprintf("%s: %d schedules, up to %d choice points, bound %d, %d outcomes, e.g. %s", c.Name, execs, maxTrace, bound, len(outs), strings.Join(l, " || ")))
}

func report(t *core.T, c *Config, x *vsched.Exec, kind, msg string) {
	ch := choices(x)
	// the same schedule must fail the same way every time
	same := 0
	var log []string
	for i := 0; i < 5; i++ {
		y, o := runOnce(c, ch, i == 0)
		k, m := violationOf(c, y, o)
		if i == 0 {
			log = y.Log
		}
		if k == kind && (m == msg || kind == "panic") {
			same++
		}
		t.Progress()
	}
	if same < 5 {
		t.Count("unrepeatable")
		t.Capped("unrepeatable: " + kind)
		fmt.Fprintf(os.Stderr, "UNREPEATABLE %s (%d of 5): %s\n", c.Name, same, msg)
		t.Sample(fmt.Sprintf("UNREPEATABLE %s (%d of 5): %s", c.Name, same, msg))
		if kind == "diverge" || same == 0 {
			return
		}
	}
	dev := 0
	for _, cc := range x.Trace {
		dev += int(cc.Costs[cc.Chosen])
	}
	t.FailReplay(kind, fmt.Sprintf("%s\n(schedule with %d deviations, %d choice points)", msg, dev, len(ch)), map[string]any{"choices": fmt.Sprint(ch), "schedule": log})
}
