// Package core runs the checks: it enumerates cases over worker processes,
// contains crashes and hangs of the code under test, applies the list of known
// findings and writes evidence and replay files.
package core

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	// Gen emits every case of the tier, always in the same order.
	Gen func(g *G)
	// Chunk is how many consecutive cases a worker claims at once.
	Chunk int
	// Stall is how long a case may go without progress.
	Stall time.Duration
	// NoConfirm: the case confirms its own violations.
	SelfConfirm bool
	Init        func()
	Quick       time.Duration // internal deadline of the quick tier
	Thorough    time.Duration
}

var checks = map[string]*Check{}

func Register(c *Check) { checks[c.ID] = c }

// G receives cases.
type G struct {
	Tier string
	emit func(name string, run func(t *T)) bool
	stop bool
}

func (g *G) Thorough() bool { return g.Tier == "thorough" }

// Case emits one case.
func (g *G) Case(name string, run func(t *T)) {
	if g.stop {
		return
	}
	if !g.emit(name, run) {
		g.stop = true
	}
}

func (g *G) Stopped() bool { return g.stop }

// T is the context of a running case.
type T struct {
	w      *worker
	Name   string
	Idx    int64
	Tier   string
	fails  []Failure
	detail bool
	Log    []string
}

type Failure struct {
	Kind   string `json:"kind"`
	Msg    string `json:"msg"`
	Replay any    `json:"replay,omitempty"`
}

// Fail reports a violation of the property.
func (t *T) Fail(kind, format string, a ...any) {
	if len(t.fails) < 20 {
		t.fails = append(t.fails, Failure{Kind: kind, Msg: fmt.Sprintf(format, a...)})
	}
}

func (t *T) FailReplay(kind, msg string, replay any) {
	if len(t.fails) < 20 {
		t.fails = append(t.fails, Failure{kind, msg, replay})
	}
}

func (t *T) Failed() bool    { return len(t.fails) > 0 }
func (t *T) Expired() bool   { return time.Now().After(t.w.deadline) }
func (t *T) Capped(s string) { t.w.sum.Caps[s]++ }
func (t *T) Deadline() time.Time {
	return t.w.deadline
}

// State records a distinct state by its description.
func (t *T) State(s string) {
	h := fnv.New64a()
	io.WriteString(h, s)
	t.StateHash(h.Sum64())
}

func (t *T) StateHash(h uint64) {
	if len(t.w.states) < 3000000 {
		t.w.states[h] = struct{}{}
	}
}
func (t *T) Steps(n int)    { t.w.sum.Transitions += int64(n) }
func (t *T) Nodes(n int)    { t.w.sum.Nodes += int64(n) }
func (t *T) Trace(n int)    { t.w.sum.Traces += int64(n) }
func (t *T) Count(k string) { t.w.sum.Counters[k]++ }
func (t *T) Add(k string, n int64) {
	t.w.sum.Counters[k] += n
}
func (t *T) Sample(s string) {
	if len(t.w.sum.Samples) < 4 {
		if len(s) > 600 {
			s = s[:600]
		}
		t.w.sum.Samples = append(t.w.sum.Samples, s)
	}
}
func (t *T) Progress() {
	if t.w.st != nil {
		atomic.StoreInt64(&t.w.st.beat, time.Now().UnixNano())
	}
}

type summary struct {
	Cases       int64            `json:"cases"`
	Transitions int64            `json:"transitions"`
	Nodes       int64            `json:"nodes"`
	Traces      int64            `json:"traces"`
	Samples     []string         `json:"samples"`
	Caps        map[string]int64 `json:"caps"`
	Counters    map[string]int64 `json:"counters"`
	Deadline    bool             `json:"deadline"`
	Finished    bool             `json:"finished"`
}

type vrec struct {
	Idx   int64     `json:"idx"`
	Name  string    `json:"name"`
	Fails []Failure `json:"fails"`
}

type status struct {
	next int64 // shared claim counter (first worker's page only)
	cur  int64
	hi   int64
	beat int64
}

type worker struct {
	c        *Check
	st       *status
	deadline time.Time
	states   map[uint64]struct{}
	sum      summary
	out      *json.Encoder
}

func mapStatus(path string) []status {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return unsafe.Slice((*status)(unsafe.Pointer(&b[0])), 64)
}

var (
	mode     = flag.String("mode", "check", "")
	fid      = flag.String("id", "", "")
	ftier    = flag.String("tier", "", "")
	fshard   = flag.Int("shard", 0, "")
	fstatus  = flag.String("status", "", "")
	fdead    = flag.Int64("deadline", 0, "")
	fcase    = flag.Int64("case", -1, "")
	fresume  = flag.String("resume", "", "")
	fverif   = flag.String("verif", "/verif", "")
	fstates  = flag.String("states", "", "")
	fworkers = flag.Int("workers", 0, "")
	freplay  = flag.String("replay", "", "")
	fgrep    = flag.String("grep", "", "")
	fbudget  = flag.Int("budget", 0, "seconds")
	Detail   bool
)

// Main is the entry point of a checker binary.
func Main() {
	flag.Parse()
	c := checks[*fid]
	if c == nil && *mode != "list" {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fid)
		os.Exit(2)
	}
	if *ftier == "" {
		*ftier = os.Getenv("VERIF_TIER")
	}
	if *ftier != "thorough" {
		*ftier = "quick"
	}
	if c != nil {
		if c.Stall == 0 {
			c.Stall = 30 * time.Second
		}
		if c.Chunk == 0 {
			c.Chunk = 1
		}
		if c.Quick == 0 {
			c.Quick = 300 * time.Second
		}
		if c.Thorough == 0 {
			c.Thorough = 3000 * time.Second
		}
	}
	switch *mode {
	case "check":
		os.Exit(parent(c))
	case "worker":
		runWorker(c)
	case "one":
		os.Exit(runOne(c))
	case "cases":
		n := 0
		c.Gen(&G{Tier: *ftier, emit: func(name string, run func(*T)) bool {
			if *fgrep == "" || strings.Contains(name, *fgrep) {
				fmt.Println(n, name)
			}
			n++
			return true
		}})
	case "list":
		var l []string
		for k := range checks {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
	}
}

// quiet points the standard streams of this process elsewhere and returns the
// original standard output.
func quiet(errPath string) *os.File {
	fd, _ := syscall.Dup(1)
	out := os.NewFile(uintptr(fd), "report")
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	syscall.Dup2(int(null.Fd()), 0)
	syscall.Dup2(int(null.Fd()), 1)
	if errPath != "" {
		e, err := os.OpenFile(errPath, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		if err == nil {
			syscall.Dup2(int(e.Fd()), 2)
		}
	}
	return out
}

func runCase(w *worker, idx int64, name string, run func(*T)) *T {
	t := &T{w: w, Name: name, Idx: idx, Tier: *ftier, detail: Detail}
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Fail("panic", "Go panic: %v\n%s", r, stackOf())
			}
		}()
		run(t)
	}()
	w.sum.Cases++
	return t
}

func stackOf() string {
	l := strings.Split(string(debug.Stack()), "\n")
	var o []string
	for _, s := range l {
		if strings.Contains(s, "golisp.") || strings.Contains(s, "golisp/") {
			o = append(o, strings.TrimSpace(s))
		}
		if len(o) > 12 {
			break
		}
	}
	return strings.Join(o, "\n")
}

func runWorker(c *Check) {
	rep := quiet(fmt.Sprintf("%s.err%d", *fstatus, *fshard))
	debug.SetMaxStack(256 << 20)
	sts := mapStatus(*fstatus)
	w := &worker{c: c, st: &sts[1+*fshard], deadline: time.Unix(0, *fdead), states: map[uint64]struct{}{}, out: json.NewEncoder(rep)}
	w.sum.Caps, w.sum.Counters = map[string]int64{}, map[string]int64{}
	if c.Init != nil {
		c.Init()
	}
	lo, hi := int64(0), int64(0)
	claim := func() {
		hi = atomic.AddInt64(&sts[0].next, int64(c.Chunk))
		lo = hi - int64(c.Chunk)
		atomic.StoreInt64(&w.st.hi, hi)
	}
	if *fresume != "" {
		p := strings.Split(*fresume, ",")
		lo, _ = strconv.ParseInt(p[0], 10, 64)
		hi, _ = strconv.ParseInt(p[1], 10, 64)
		atomic.StoreInt64(&w.st.hi, hi)
		if lo >= hi {
			claim()
		}
	} else {
		claim()
	}
	// memory guard
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			b, _ := os.ReadFile("/proc/self/statm")
			f := strings.Fields(string(b))
			if len(f) > 1 {
				n, _ := strconv.ParseInt(f[1], 10, 64)
				if n*4096 > 3500<<20 {
					fmt.Fprintln(os.Stderr, "MEMORY LIMIT")
					os.Exit(77)
				}
			}
		}
	}()
	idx := int64(-1)
	nviol := 0
	g := &G{Tier: *ftier}
	g.emit = func(name string, run func(*T)) bool {
		idx++
		if idx < lo {
			return true
		}
		if idx >= hi {
			claim()
			if idx < lo {
				return true
			}
		}
		if time.Now().After(w.deadline) {
			w.sum.Deadline = true
			return false
		}
		atomic.StoreInt64(&w.st.cur, idx)
		atomic.StoreInt64(&w.st.beat, time.Now().UnixNano())
		t0 := time.Now()
		t := runCase(w, idx, name, run)
		if p := os.Getenv("MC_SLOW"); p != "" && time.Since(t0) > time.Second {
			if f, err := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(f, "%.1fs %s\n", time.Since(t0).Seconds(), name)
				f.Close()
			}
		}
		if len(t.fails) > 0 {
			nviol++
			w.out.Encode(map[string]any{"v": vrec{idx, name, t.fails}})
			if nviol >= 60 {
				w.sum.Caps["violations"]++
				return false
			}
		}
		return true
	}
	c.Gen(g)
	atomic.StoreInt64(&w.st.cur, -1)
	w.sum.Finished = true
	w.out.Encode(map[string]any{"s": w.sum, "total": idx + 1})
	if *fstates != "" {
		f, _ := os.Create(*fstates)
		bw := bufio.NewWriter(f)
		for h := range w.states {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], h)
			bw.Write(b[:])
		}
		bw.Flush()
		f.Close()
	}
	os.Exit(0)
}

// runOne runs a single case in this process: exit 0 held, 10 violated.
func runOne(c *Check) int {
	rep := quiet("")
	debug.SetMaxStack(256 << 20)
	w := &worker{c: c, deadline: time.Now().Add(10 * time.Minute), states: map[uint64]struct{}{}}
	w.sum.Caps, w.sum.Counters = map[string]int64{}, map[string]int64{}
	if c.Init != nil {
		c.Init()
	}
	Detail = *freplay != ""
	idx := int64(-1)
	code := 0
	g := &G{Tier: *ftier}
	g.emit = func(name string, run func(*T)) bool {
		idx++
		if idx != *fcase && *fcase >= 0 {
			return true
		}
		if *fcase < 0 && name != *fgrep {
			return true
		}
		t := runCase(w, idx, name, run)
		for _, l := range t.Log {
			fmt.Fprintln(rep, l)
		}
		if len(t.fails) > 0 {
			code = 10
			for _, f := range t.fails {
				fmt.Fprintf(rep, "case %s\n%s: %s\n", name, f.Kind, f.Msg)
				if Detail && f.Replay != nil {
					b, _ := json.MarshalIndent(f.Replay, "", " ")
					fmt.Fprintf(rep, "%s\n", b)
				}
			}
		} else if Detail {
			fmt.Fprintf(rep, "case %s: held; counters %v caps %v nodes %d transitions %d traces %d samples %v\n", name, w.sum.Counters, w.sum.Caps, w.sum.Nodes, w.sum.Transitions, w.sum.Traces, w.sum.Samples)
		}
		return false
	}
	c.Gen(g)
	return code
}

// ---- parent

type Known struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func loadKnown(id string) []Known {
	b, err := os.ReadFile(filepath.Join(*fverif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k knownFile
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		return nil
	}
	var o []Known
	for _, f := range k.Findings {
		if f.Property == id {
			o = append(o, f)
		}
	}
	return o
}

func self() string { p, _ := os.Executable(); return p }

func parent(c *Check) int {
	start := time.Now()
	if *freplay != "" {
		return replayFile(c, *freplay)
	}
	budget := c.Quick
	if *ftier == "thorough" {
		budget = c.Thorough
	}
	if *fbudget > 0 {
		budget = time.Duration(*fbudget) * time.Second
	}
	deadline := start.Add(budget)
	dir, err := os.MkdirTemp("", "mc-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	stPath := filepath.Join(dir, "status")
	os.WriteFile(stPath, make([]byte, 4096), 0o644)
	sts := mapStatus(stPath)
	n := *fworkers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	var mu sync.Mutex
	var viols []vrec
	var sums []summary
	total := int64(0)
	incomplete := false
	ended := int32(0) // cases that end or hang the process; a hang counts for three
	var wg sync.WaitGroup
	var stateFiles []string
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			resume := ""
			for attempt := 0; attempt < 40; attempt++ {
				sf := filepath.Join(dir, fmt.Sprintf("states%d.%d", k, attempt))
				args := []string{"-mode", "worker", "-id", c.ID, "-tier", *ftier, "-shard", strconv.Itoa(k), "-status", stPath,
					"-deadline", strconv.FormatInt(deadline.UnixNano(), 10), "-states", sf, "-verif", *fverif}
				if resume != "" {
					args = append(args, "-resume", resume)
				}
				cmd := exec.Command(self(), args...)
				cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
				pipe, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					fmt.Fprintln(os.Stderr, err)
					return
				}
				atomic.StoreInt64(&sts[1+k].beat, time.Now().UnixNano())
				done := make(chan struct{})
				hung := int32(0)
				go func() {
					for {
						select {
						case <-done:
							return
						case <-time.After(time.Second):
						}
						b := atomic.LoadInt64(&sts[1+k].beat)
						if time.Since(time.Unix(0, b)) > c.Stall && atomic.LoadInt64(&sts[1+k].cur) >= 0 {
							atomic.StoreInt32(&hung, 1)
							cmd.Process.Kill()
							return
						}
					}
				}()
				finished := false
				sc := bufio.NewScanner(pipe)
				sc.Buffer(make([]byte, 1<<20), 64<<20)
				for sc.Scan() {
					var m struct {
						V     *vrec
						S     *summary
						Total int64
					}
					if json.Unmarshal(sc.Bytes(), &m) != nil {
						continue
					}
					mu.Lock()
					if m.V != nil {
						viols = append(viols, *m.V)
					}
					if m.S != nil {
						sums = append(sums, *m.S)
						finished = true
						if m.Total > total {
							total = m.Total
						}
					}
					mu.Unlock()
				}
				err := cmd.Wait()
				close(done)
				mu.Lock()
				stateFiles = append(stateFiles, sf)
				mu.Unlock()
				if finished {
					return
				}
				// the worker died or was stopped inside a case
				cur := atomic.LoadInt64(&sts[1+k].cur)
				hi := atomic.LoadInt64(&sts[1+k].hi)
				kind := "crash"
				if atomic.LoadInt32(&hung) == 1 {
					kind = "hang"
				}
				tail := errTail(fmt.Sprintf("%s.err%d", stPath, k))
				os.Remove(fmt.Sprintf("%s.err%d", stPath, k))
				if atomic.LoadInt32(&ended) >= 3 || kind == "hang" && atomic.LoadInt32(&ended) > 0 {
					// enough is known; each more would take as long again
					mu.Lock()
					incomplete = true
					mu.Unlock()
					return
				}
				if cur >= 0 {
					ok, name, msg := confirmCrash(c, cur, kind)
					mu.Lock()
					if ok {
						atomic.AddInt32(&ended, 1)
						if kind == "hang" {
							atomic.AddInt32(&ended, 2)
						}
					}
					if ok {
						viols = append(viols, vrec{cur, name, []Failure{{Kind: kind, Msg: msg}}})
					} else {
						incomplete = true
						fmt.Fprintf(os.Stderr, "worker ended in case %d (%v, %s) and the case alone did not repeat it: %s\n", cur, err, kind, tail)
					}
					mu.Unlock()
				} else {
					fmt.Fprintf(os.Stderr, "worker failed outside a case: %v\n%s\n", err, tail)
				}
				atomic.StoreInt64(&sts[1+k].cur, -1)
				resume = fmt.Sprintf("%d,%d", cur+1, hi)
				if time.Now().After(deadline) {
					incomplete = true
					return
				}
			}
		}(k)
	}
	wg.Wait()

	var sum summary
	sum.Caps, sum.Counters = map[string]int64{}, map[string]int64{}
	for _, s := range sums {
		sum.Cases += s.Cases
		sum.Transitions += s.Transitions
		sum.Nodes += s.Nodes
		sum.Traces += s.Traces
		sum.Deadline = sum.Deadline || s.Deadline
		for k, v := range s.Caps {
			sum.Caps[k] += v
		}
		for k, v := range s.Counters {
			sum.Counters[k] += v
		}
		if len(sum.Samples) < 8 {
			sum.Samples = append(sum.Samples, s.Samples...)
		}
	}
	distinct := map[uint64]struct{}{}
	for _, f := range stateFiles {
		b, _ := os.ReadFile(f)
		for i := 0; i+8 <= len(b); i += 8 {
			distinct[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}
	if len(sum.Samples) > 8 {
		sum.Samples = sum.Samples[:8]
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Idx < viols[j].Idx })

	known := loadKnown(c.ID)
	seenKnown := map[int]bool{}
	var real []vrec
	for _, v := range viols {
		var fs []Failure
		for _, f := range v.Fails {
			hit := -1
			for i, k := range known {
				if k.Case == v.Name && strings.Contains(f.Kind+": "+f.Msg, k.Match) {
					hit = i
				}
			}
			if hit >= 0 {
				seenKnown[hit] = true
			} else {
				fs = append(fs, f)
			}
		}
		if len(fs) > 0 {
			real = append(real, vrec{v.Idx, v.Name, fs})
		}
	}
	for i, k := range known {
		if seenKnown[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
		}
	}
	// confirm what is reported in fresh processes
	var confirmed []vrec
	for _, v := range real {
		if len(confirmed) >= 5 {
			break
		}
		if v.Fails[0].Kind == "crash" || v.Fails[0].Kind == "hang" {
			confirmed = append(confirmed, v)
			continue
		}
		ok := 0
		for i := 0; i < 5; i++ {
			cmd := exec.Command(self(), "-mode", "one", "-id", c.ID, "-tier", *ftier, "-case", strconv.FormatInt(v.Idx, 10), "-verif", *fverif)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			if _, code := runTimeout(cmd, 150*time.Second); code != 0 {
				ok++
			}
			if c.SelfConfirm && ok > 0 {
				break
			}
		}
		if ok > 0 {
			confirmed = append(confirmed, v)
		} else {
			fmt.Fprintf(os.Stderr, "not repeated in a fresh process (dropped): %s: %s\n", v.Name, v.Fails[0].Msg)
			incomplete = true
		}
		if time.Since(start) > 780*time.Second && len(confirmed) > 0 && *ftier == "quick" {
			break
		}
	}
	if sum.Deadline || incomplete || len(sum.Caps) > 0 {
		incomplete = true
	}
	exit := 0
	os.MkdirAll(filepath.Join(*fverif, "replay"), 0o755)
	for i, v := range confirmed {
		p := filepath.Join(*fverif, "replay", fmt.Sprintf("%s-%d.json", c.ID, i+1))
		b, _ := json.MarshalIndent(map[string]any{"property": c.ID, "tier": *ftier, "case": v.Name, "index": v.Idx, "failures": v.Fails,
			"how": fmt.Sprintf("./check.sh %s --replay %s", c.ID, p)}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s\n", indent(fmt.Sprintf("case: %s\n%s: %s", v.Name, v.Fails[0].Kind, v.Fails[0].Msg)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		exit = 1
	}
	states := int64(len(distinct)) + sum.Nodes
	cov := map[string]any{
		"states": states, "transitions": sum.Transitions, "traces_validated_against_impl": sum.Traces,
		"cases": sum.Cases, "cases_in_space": total, "rule": c.Rule, "samples": nonNil(sum.Samples),
		"exhaustive": !incomplete, "counters": sum.Counters,
	}
	if c.Level == "exploration" {
		cov["evaluations"] = sum.Cases
		cov["distinct_nontrivial"] = len(distinct)
	}
	if len(sum.Caps) > 0 {
		cov["caps_hit"] = sum.Caps
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": c.ID, "tier": *ftier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": nonNil(c.Assumptions), "wall_s": time.Since(start).Seconds(), "violations": len(real)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fverif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fverif, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: cases=%d/%d states=%d transitions=%d traces=%d exhaustive=%v violations=%d known=%d %.1fs %v\n", c.ID, *ftier,
		sum.Cases, total, states, sum.Transitions, sum.Traces, !incomplete, len(real), len(seenKnown), time.Since(start).Seconds(), sum.Counters)
	return exit
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func indent(s string) string { return "  " + strings.ReplaceAll(s, "\n", "\n  ") }

func errTail(p string) string {
	b, _ := os.ReadFile(p)
	if i := strings.Index(string(b), "fatal error"); i >= 0 {
		b = b[i:]
	} else if i := strings.Index(string(b), "panic:"); i >= 0 {
		b = b[i:]
	}
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}

func runTimeout(cmd *exec.Cmd, d time.Duration) (string, int) {
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	if err := cmd.Start(); err != nil {
		return err.Error(), -2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
		return sb.String(), cmd.ProcessState.ExitCode()
	case <-time.After(d):
		cmd.Process.Kill()
		<-done
		return sb.String(), -9
	}
}

// confirmCrash repeats a case that ended or stalled its worker.
func confirmCrash(c *Check, idx int64, kind string) (bool, string, string) {
	name := ""
	n := int64(-1)
	c.Gen(&G{Tier: *ftier, emit: func(nm string, run func(*T)) bool {
		n++
		if n == idx {
			name = nm
			return false
		}
		return true
	}})
	bad := 0
	msg := ""
	runs := 3
	lim := 60 * time.Second
	if kind == "hang" {
		runs = 2
		lim = c.Stall
		if *ftier == "thorough" || c.SelfConfirm {
			lim *= 2
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < runs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(self(), "-mode", "one", "-id", c.ID, "-tier", *ftier, "-case", strconv.FormatInt(idx, 10), "-verif", *fverif)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
			out, code := runTimeout(cmd, lim)
			mu.Lock()
			defer mu.Unlock()
			if code != 0 {
				bad++
				if len(out) > 3000 {
					out = out[:3000]
				}
				if code == -9 {
					msg = fmt.Sprintf("no end within %v", lim)
				} else {
					msg = fmt.Sprintf("process ended with status %d: %s", code, out)
				}
			}
		}()
	}
	wg.Wait()
	return bad == runs, name, msg
}

func replayFile(c *Check, p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Case string
		Tier string
	}
	json.Unmarshal(b, &r)
	cmd := exec.Command(self(), "-mode", "one", "-id", c.ID, "-tier", r.Tier, "-grep", r.Case, "-verif", *fverif, "-replay", p)
	out, code := runTimeout(cmd, 15*time.Minute)
	fmt.Print(out)
	if code != 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		return 1
	}
	fmt.Println("held")
	return 0
}

// Inline runs the cases gen emits as parts of t.
func Inline(gen func(*G), t *T) {
	gen(&G{Tier: t.Tier, emit: func(name string, run func(*T)) bool {
		t.Progress()
		n := len(t.fails)
		run(t)
		for i := n; i < len(t.fails); i++ {
			t.fails[i].Msg = name + ": " + t.fails[i].Msg
		}
		return len(t.fails) < 10
	}})
}
