// Package core is the runner shared by every check: it enumerates the cases of
// a property over a pool of worker processes, survives crashes of the code
// under test, confirms failures by re-running them, and writes the evidence.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"
)

// Prop is one property's exhaustive check.
type Prop struct {
	ID          string
	Rule        string   // how cases are made / what is non-trivial
	Assumptions []string // trusted base and bounds
	Run         func(c *Ctx)
	CaseTimeout time.Duration // real-time watchdog for one case (a hang of the code under test)
	Workers     int           // 0: one per CPU
}

// Violation is one failing case.
type Violation struct {
	Group  string `json:"group"`
	Index  int64  `json:"index"`
	Desc   string `json:"desc"`
	Detail string `json:"detail"`
	Known  string `json:"known,omitempty"`
}

// Result is what one worker reports.
type Result struct {
	Evaluations int64            `json:"evaluations"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Nontrivial  int64            `json:"nontrivial"`
	States      []uint64         `json:"states"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Groups      map[string]int64 `json:"groups"`
	Bounds      map[string]any   `json:"bounds"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Capped      []string         `json:"capped"`
	Flaky       []string         `json:"flaky"`
}

// Ctx is handed to a property's Run function.
type Ctx struct {
	T        *testing.T
	Tier     string
	Seed     int64
	Shard    int
	N        int
	Deadline time.Time

	prop    *Prop
	res     Result
	states  map[uint64]struct{}
	group   string
	index   int64
	replay  *Violation
	mark    []byte
	maxVio  int
	stopped bool
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Group starts a new named block of cases.
func (c *Ctx) Group(name string) { c.group, c.index = name, 0 }

// Bound records a bound of the exploration in the evidence.
func (c *Ctx) Bound(k string, v any) { c.res.Bounds[k] = v }

// State records a visited (model or implementation) state.
func (c *Ctx) State(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff, 0})
	}
	c.states[h.Sum64()] = struct{}{}
}

// Trans counts explored transitions (model steps checked against the code).
func (c *Ctx) Trans(n int) { c.res.Transitions += int64(n) }

// Outcome counts a distinct observed outcome class.
func (c *Ctx) Outcome(s string) { c.res.Outcomes[s]++ }

// Nontrivial counts a case that is non-trivial by the property's rule.
func (c *Ctx) Nontrivial() { c.res.Nontrivial++ }

// Stop reports whether the enumeration must end (deadline or enough failures).
func (c *Ctx) Stop() bool {
	if c.stopped {
		return true
	}
	if c.replay == nil && len(c.res.Violations) >= c.maxVio {
		c.stopped = true
		return true
	}
	if time.Now().After(c.Deadline) {
		c.stopped = true
		c.res.Capped = append(c.res.Capped, fmt.Sprintf("deadline in group %s at case %d", c.group, c.index))
		return true
	}
	return false
}

// Do runs one case (if it belongs to this shard). desc is only built when
// needed. run returns nil when the property held.
func (c *Ctx) Do(desc func() string, run func() error) {
	idx := c.index
	c.index++
	if c.stopped {
		return
	}
	if c.replay != nil {
		if c.replay.Group != c.group || c.replay.Index != idx {
			return
		}
		fmt.Printf("CASE %s#%d %s\n", c.group, idx, desc())
		c.setMark(idx)
		if err := c.safe(run); err != nil {
			c.res.Violations = append(c.res.Violations, Violation{c.group, idx, desc(), err.Error(), ""})
		}
		c.res.Evaluations++
		return
	}
	if idx%int64(c.N) != int64(c.Shard) {
		return
	}
	if idx&63 == int64(c.Shard)&63 || c.res.Evaluations&63 == 0 {
		if c.Stop() {
			return
		}
	}
	c.setMark(idx)
	c.res.Evaluations++
	c.res.Groups[c.group]++
	if c.res.Groups[c.group] <= 1 && c.Shard == 0 {
		c.res.Samples = append(c.res.Samples, c.group+": "+clip(desc(), 400))
	}
	err := c.safe(run)
	if err != nil {
		// confirm: the same case must fail again
		again := 0
		for i := 0; i < 8 && again == 0; i++ {
			if e := c.safe(run); e != nil {
				again++
				err = e
			}
		}
		if again > 0 {
			c.res.Violations = append(c.res.Violations, Violation{c.group, idx, desc(), err.Error(), ""})
		} else {
			c.res.Flaky = append(c.res.Flaky, fmt.Sprintf("%s#%d failed once, then passed 8 times: %v", c.group, idx, err))
		}
	}
	c.clearMark()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// safe converts a panic on the calling goroutine into an error.
func (c *Ctx) safe(run func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			err = fmt.Errorf("panic: %v\n%s", e, buf)
		}
	}()
	return run()
}

// setMark publishes the running case where the parent can read it after a crash.
func (c *Ctx) setMark(idx int64) {
	if c.mark == nil {
		return
	}
	n := copy(c.mark[32:], c.group)
	*(*int64)(unsafe.Pointer(&c.mark[8])) = idx
	*(*int64)(unsafe.Pointer(&c.mark[16])) = int64(n)
	*(*int64)(unsafe.Pointer(&c.mark[24])) = time.Now().UnixNano()
	*(*int64)(unsafe.Pointer(&c.mark[0])) = 1
}

func (c *Ctx) clearMark() {
	if c.mark != nil {
		*(*int64)(unsafe.Pointer(&c.mark[0])) = 0
	}
}

const markSize = 4096

func readMark(m []byte) (on bool, group string, idx int64, since time.Time) {
	if *(*int64)(unsafe.Pointer(&m[0])) == 0 {
		return
	}
	idx = *(*int64)(unsafe.Pointer(&m[8]))
	n := *(*int64)(unsafe.Pointer(&m[16]))
	if n < 0 || n > 1024 {
		n = 0
	}
	return true, string(m[32 : 32+n]), idx, time.Unix(0, *(*int64)(unsafe.Pointer(&m[24])))
}

func mapMark(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	f.Truncate(markSize)
	m, err := syscall.Mmap(int(f.Fd()), 0, markSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return m
}

var props = map[string]*Prop{}

// Register adds a property check.
func Register(p *Prop) { props[p.ID] = p }

// Props lists the registered ids.
func Props() []string {
	var r []string
	for k := range props {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Main is TestMain of every harness binary.
func Main(m *testing.M) {
	switch os.Getenv("VH_ROLE") {
	case "worker":
		os.Exit(m.Run())
	default:
		os.Exit(parent())
	}
}

// Worker is the single test of every harness binary: it runs one shard.
func Worker(t *testing.T) {
	p := props[os.Getenv("VH_PROP")]
	if p == nil {
		t.Fatal("unknown property")
	}
	runtime.GOMAXPROCS(1)
	c := &Ctx{T: t, Tier: os.Getenv("VH_TIER"), prop: p, states: map[uint64]struct{}{}, maxVio: 3}
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c.Shard, _ = strconv.Atoi(os.Getenv("VH_SHARD"))
	c.N, _ = strconv.Atoi(os.Getenv("VH_N"))
	if c.N == 0 {
		c.N = 1
	}
	ns, _ := strconv.ParseInt(os.Getenv("VH_DEADLINE"), 10, 64)
	c.Deadline = time.Unix(0, ns)
	c.mark = mapMark(os.Getenv("VH_MARK"))
	c.res.Outcomes, c.res.Groups, c.res.Bounds = map[string]int64{}, map[string]int64{}, map[string]any{}
	if r := os.Getenv("VH_REPLAY"); r != "" {
		c.replay = &Violation{}
		json.Unmarshal([]byte(r), c.replay)
	}
	p.Run(c)
	for s := range c.states {
		c.res.States = append(c.res.States, s)
	}
	b, _ := json.Marshal(&c.res)
	if err := os.WriteFile(os.Getenv("VH_OUT"), b, 0o644); err != nil {
		t.Fatal(err)
	}
}

type workerOut struct {
	res   *Result
	crash *Violation
	log   string
}

func runWorker(p *Prop, tier string, shard, n int, deadline time.Time, scratch string, replay *Violation) workerOut {
	tag := fmt.Sprintf("%s-%d", p.ID, shard)
	if replay != nil {
		tag += "-replay"
	}
	out := filepath.Join(scratch, tag+".json")
	mark := filepath.Join(scratch, tag+".mark")
	os.Remove(out)
	os.Remove(mark)
	mm := mapMark(mark)
	cmd := exec.Command(os.Args[0], "-test.run=^TestWorker$", "-test.timeout=0")
	cmd.Env = append(os.Environ(),
		"VH_ROLE=worker", "VH_PROP="+p.ID, "VH_TIER="+tier,
		"VH_SHARD="+strconv.Itoa(shard), "VH_N="+strconv.Itoa(n),
		"VH_DEADLINE="+strconv.FormatInt(deadline.UnixNano(), 10),
		"VH_OUT="+out, "VH_MARK="+mark)
	if replay != nil {
		b, _ := json.Marshal(replay)
		cmd.Env = append(cmd.Env, "VH_REPLAY="+string(b))
	}
	logPath := filepath.Join(scratch, tag+".log")
	lf, _ := os.Create(logPath)
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return workerOut{log: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	ct := p.CaseTimeout
	if ct == 0 {
		ct = 60 * time.Second
	}
	hung := false
	for waiting := true; waiting; {
		select {
		case <-done:
			waiting = false
		case <-tick.C:
			on, _, _, since := readMark(mm)
			if on && time.Since(since) > ct {
				hung = true
				cmd.Process.Kill()
			} else if time.Now().After(deadline.Add(ct + 30*time.Second)) {
				cmd.Process.Kill()
			}
		}
	}
	lf.Close()
	on, g, idx, _ := readMark(mm)
	syscall.Munmap(mm)
	lb, _ := os.ReadFile(logPath)
	log := string(lb)
	if b, err := os.ReadFile(out); err == nil {
		r := &Result{}
		if json.Unmarshal(b, r) == nil {
			return workerOut{res: r, log: log}
		}
	}
	if on {
		d := "the process crashed or exited while running this case:\n" + crashHead(log)
		if hung {
			d = fmt.Sprintf("the case did not finish within %v of real time (hang)", ct)
		}
		return workerOut{crash: &Violation{Group: g, Index: idx, Detail: d}, log: log}
	}
	return workerOut{log: log}
}

func crashHead(log string) string {
	i := strings.Index(log, "panic:")
	if j := strings.Index(log, "fatal error:"); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		i = len(log) - 1500
		if i < 0 {
			i = 0
		}
	}
	return clip(log[i:], 2000)
}

func caseDesc(log string) string {
	for _, l := range strings.Split(log, "\n") {
		if strings.HasPrefix(l, "CASE ") {
			return l[5:]
		}
	}
	return ""
}

// Finding is one entry of /verif/known_findings.json.
type Finding struct {
	Property string `json:"property"`
	Match    string `json:"match"`  // substring of the case description
	Detail   string `json:"detail"` // substring of the failure detail
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // "fixed: property=<id> <commit> <what failed>"; suppresses nothing
}

func verifRoot() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func loadFindings() []Finding {
	b, err := os.ReadFile(filepath.Join(verifRoot(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Finding `json:"findings"`
	}
	json.Unmarshal(b, &f)
	return f.Findings
}

func parent() int {
	root := verifRoot()
	id := os.Getenv("VH_PROP")
	if id == "" && len(os.Args) > 1 {
		id = os.Args[len(os.Args)-1]
	}
	p := props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q; have %v\n", id, Props())
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	start := time.Now()
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		if n, err := strconv.Atoi(b); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	deadline := start.Add(budget)

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var f struct {
			Tier      string
			Violation Violation
		}
		json.Unmarshal(b, &f)
		w := runWorker(p, f.Tier, 0, 1, deadline, scratch, &f.Violation)
		fmt.Print(w.log)
		if w.crash != nil || (w.res != nil && len(w.res.Violations) > 0) {
			if w.res != nil {
				fmt.Println(w.res.Violations[0].Detail)
			} else {
				fmt.Println(w.crash.Detail)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			return 1
		}
		fmt.Println("replay: the case passes")
		return 0
	}

	n := p.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	outs := make([]workerOut, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = runWorker(p, tier, i, n, deadline, scratch, nil)
		}(i)
	}
	wg.Wait()

	tot := Result{Outcomes: map[string]int64{}, Groups: map[string]int64{}, Bounds: map[string]any{}}
	states := map[uint64]struct{}{}
	var vios []Violation
	infra := ""
	for i, o := range outs {
		switch {
		case o.res != nil:
			r := o.res
			tot.Evaluations += r.Evaluations
			tot.Transitions += r.Transitions
			tot.Traces += r.Traces
			tot.Nontrivial += r.Nontrivial
			for _, s := range r.States {
				states[s] = struct{}{}
			}
			for k, v := range r.Outcomes {
				tot.Outcomes[k] += v
			}
			for k, v := range r.Groups {
				tot.Groups[k] += v
			}
			for k, v := range r.Bounds {
				tot.Bounds[k] = v
			}
			tot.Samples = append(tot.Samples, r.Samples...)
			tot.Capped = append(tot.Capped, r.Capped...)
			tot.Flaky = append(tot.Flaky, r.Flaky...)
			vios = append(vios, r.Violations...)
		case o.crash != nil:
			// confirm the crash in fresh processes running only that case
			again := 0
			var last Violation
			for k := 0; k < 3; k++ {
				w := runWorker(p, tier, i, 1, deadline.Add(60*time.Second), scratch, o.crash)
				if w.crash != nil {
					again++
					last = *w.crash
					last.Desc = caseDesc(w.log)
				} else if w.res != nil && len(w.res.Violations) > 0 {
					again++
					last = w.res.Violations[0]
				}
			}
			if again >= 1 {
				vios = append(vios, last)
			} else {
				tot.Flaky = append(tot.Flaky, fmt.Sprintf("crash in %s#%d not reproduced (%d/3): %s", o.crash.Group, o.crash.Index, again, clip(o.crash.Detail, 600)))
				tot.Capped = append(tot.Capped, fmt.Sprintf("worker %d ended early", i))
			}
		default:
			infra = o.log
			tot.Capped = append(tot.Capped, fmt.Sprintf("worker %d gave no result", i))
		}
	}

	// known findings
	findings := loadFindings()
	seenKnown := map[string]bool{}
	var fresh []Violation
	for _, v := range vios {
		known := ""
		for _, f := range findings {
			if f.Property == id && f.Fixed == "" && f.Match != "" && strings.Contains(v.Desc, f.Match) && strings.Contains(v.Detail, f.Detail) {
				known = f.What
			}
		}
		if known != "" {
			if !seenKnown[known] {
				seenKnown[known] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known)
			}
			continue
		}
		fresh = append(fresh, v)
	}

	wall := time.Since(start).Seconds()
	nStates := int64(len(states))
	if nStates == 0 { // pure functions: every enumerated case is one state
		nStates = tot.Evaluations
	}
	if tot.Transitions == 0 {
		tot.Transitions = tot.Evaluations
	}
	if tot.Samples == nil {
		tot.Samples = []string{}
	}
	sort.Strings(tot.Samples)
	cov := map[string]any{
		"states":                        nStates,
		"transitions":                   tot.Transitions,
		"traces_validated_against_impl": tot.Evaluations + tot.Traces,
		"evaluations":                   tot.Evaluations,
		"distinct_nontrivial":           tot.Nontrivial,
		"rule":                          p.Rule,
		"samples":                       tot.Samples,
		"cases_per_group":               tot.Groups,
		"distinct_outcomes":             len(tot.Outcomes),
		"outcomes":                      topOutcomes(tot.Outcomes, 40),
		"bounds":                        tot.Bounds,
		"exhaustive":                    len(tot.Capped) == 0 && len(tot.Flaky) == 0 && len(fresh) == 0,
		"caps":                          tot.Capped,
		"not_reproduced":                tot.Flaky,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": p.Assumptions, "wall_s": wall, "violations": len(fresh),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d outcomes=%d nontrivial=%d capped=%d flaky=%d wall=%.1fs\n",
		id, tier, tot.Evaluations, nStates, tot.Transitions, len(tot.Outcomes), tot.Nontrivial, len(tot.Capped), len(tot.Flaky), wall)
	for _, f := range tot.Flaky {
		fmt.Println("  not reproduced:", clip(f, 1500))
	}
	for _, f := range tot.Capped {
		fmt.Println("  cap:", f)
	}
	if len(fresh) > 0 {
		os.MkdirAll(filepath.Join(root, "replays"), 0o755)
		sort.Slice(fresh, func(i, j int) bool {
			if fresh[i].Group != fresh[j].Group {
				return fresh[i].Group < fresh[j].Group
			}
			return fresh[i].Index < fresh[j].Index
		})
		for i, v := range fresh {
			path := filepath.Join(root, "replays", fmt.Sprintf("%s-%d.json", id, i))
			rb, _ := json.MarshalIndent(map[string]any{"Property": id, "Tier": tier, "Violation": v}, "", " ")
			os.WriteFile(path, append(rb, '\n'), 0o644)
			if i < 3 {
				fmt.Printf("  %s#%d %s\n    %s\n", v.Group, v.Index, clip(v.Desc, 1500), strings.ReplaceAll(clip(v.Detail, 2500), "\n", "\n    "))
			}
			if i == 0 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			}
		}
		return 1
	}
	if infra != "" {
		// a worker that died outside any case is a failure of the check itself
		fmt.Fprintln(os.Stderr, "worker gave no result:\n"+clip(infra, 4000))
		return 2
	}
	return 0
}

func topOutcomes(m map[string]int64, n int) map[string]int64 {
	type kv struct {
		k string
		v int64
	}
	var s []kv
	for k, v := range m {
		s = append(s, kv{k, v})
	}
	sort.Slice(s, func(i, j int) bool { return s[i].v > s[j].v || s[i].v == s[j].v && s[i].k < s[j].k })
	r := map[string]int64{}
	for i := 0; i < len(s) && i < n; i++ {
		r[clip(s[i].k, 160)] = s[i].v
	}
	return r
}

// Cap records that a part of the enumeration could not be done.
func (c *Ctx) Cap(msg string) { c.res.Capped = append(c.res.Capped, msg) }

// ReplayPath is the schedule to re-run in a group (ok: this group is replayed);
// replaying tells whether anything is.
func (c *Ctx) ReplayPath(group string) (path string, ok, replaying bool) {
	if c.replay == nil {
		return "", false, false
	}
	if g, p, found := strings.Cut(c.replay.Group, "|"); found && g == group {
		return p, true, true
	}
	return "", false, true
}

// DoPath runs one execution of a dynamically explored group, identified by its
// schedule. It is not sharded: the explorer divides the work.
func (c *Ctx) DoPath(group, path string, desc func() string, run func() error) {
	key := group + "|" + path
	if c.replay != nil {
		fmt.Printf("CASE %s %s\n", key, desc())
	}
	c.markKey(key)
	defer c.clearMark()
	c.res.Evaluations++
	c.res.Groups[group]++
	if c.res.Groups[group] <= 1 && c.Shard == 0 {
		c.res.Samples = append(c.res.Samples, clip(desc(), 600))
	}
	err := c.safe(run)
	if err == nil {
		return
	}
	again := c.replay != nil
	for i := 0; i < 8 && !again; i++ {
		if e := c.safe(run); e != nil {
			again = true
			err = e
		}
	}
	if again {
		c.res.Violations = append(c.res.Violations, Violation{key, 0, desc(), err.Error(), ""})
	} else {
		c.res.Flaky = append(c.res.Flaky, fmt.Sprintf("%s failed once, then passed 8 times: %v", key, err))
	}
}

// Marked runs f, a preliminary execution, so that a crash in it is attributed to
// the schedule.
func (c *Ctx) Marked(group, path string, f func()) {
	c.markKey(group + "|" + path)
	defer c.clearMark()
	f()
}

func (c *Ctx) markKey(key string) {
	g, i := c.group, c.index
	c.group = clip(key, 1000)
	c.setMark(0)
	c.group, c.index = g, i
}

// Verbose asks for progress output on the worker's log.
func (c *Ctx) Verbose() bool { return os.Getenv("VH_VERBOSE") != "" }
