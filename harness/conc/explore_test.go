package conc

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/core"
	"verifharness/mc"
)

// scenario is one closed system: setup starts its threads and returns the check
// of its final state.
type scenario struct {
	name    string
	setup   func(m *mc.Ctl) func() error
	advance time.Duration
	max     int // 0, or the largest deviation bound
}

type explorer struct {
	c      *core.Ctx
	sc     *scenario
	shared map[string]bool
	bound  int
	late   map[string]bool
	div    int64
	runs   int64
}

func pathString(p map[int]int) string {
	var ks []int
	for k := range p {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%d:%d", k, p[k]))
	}
	return strings.Join(s, ",")
}

func parsePath(s string) map[int]int {
	p := map[int]int{}
	for _, f := range strings.Split(s, ",") {
		if a, b, ok := strings.Cut(f, ":"); ok {
			k, _ := strconv.Atoi(a)
			v, _ := strconv.Atoi(b)
			p[k] = v
		}
	}
	return p
}

// run executes the scenario under one schedule.
func (e *explorer) run(path map[int]int, learn *mc.Accesses, keep bool) (ctl *mc.Ctl, err error) {
	if learn != nil {
		e.c.Marked(e.sc.name, pathString(path), func() { ctl, err = e.run1(path, learn, keep) })
		return
	}
	return e.run1(path, learn, keep)
}

func (e *explorer) run1(path map[int]int, learn *mc.Accesses, keep bool) (ctl *mc.Ctl, err error) {
	cfg := mc.Config{Path: path, Shared: e.shared, Learn: learn, Advance: e.sc.advance, MaxSteps: 6000}
	err = core.Bubble(e.c.T, func() error {
		var rerr error
		ctl, rerr = mc.Run(cfg, func(m *mc.Ctl) func() error { m.Keep = keep; return e.sc.setup(m) })
		// time stops with the bubble's main goroutine: let everything end first
		time.Sleep(30 * time.Second)
		core.Quiesce()
		return rerr
	})
	return
}

// learn finds the locations several threads touch: those of the default
// schedule and of every schedule with one deviation from it.
func (e *explorer) learn() {
	acc := &mc.Accesses{}
	base, _ := e.run(nil, acc, false)
	if base == nil {
		return
	}
	step := 1 + len(base.Trace)/60
	for i := 0; i < len(base.Trace); i += step {
		e.run(map[int]int{i: 1}, acc, false)
	}
	e.shared = acc.SharedSet()
}

// execute runs one schedule as a case of the check and returns its trace.
func (e *explorer) execute(path map[int]int, count bool) *mc.Ctl {
	var out *mc.Ctl
	name := pathString(path)
	run := func() error {
		ctl, err := e.run(path, nil, false)
		out = ctl
		return err
	}
	if !count {
		run()
		return out
	}
	e.runs++
	e.c.DoPath(e.sc.name, name, func() string {
		ctl, _ := e.run(path, nil, true)
		s := e.sc.name + ", deviations " + name
		if ctl != nil {
			l := ctl.Log
			if len(l) > 4000 {
				l = l[:400]
			}
			s += "\n" + strings.Join(l, "\n")
		}
		return s
	}, run)
	if out != nil {
		e.c.Trans(out.Steps)
		for _, d := range out.Trace {
			e.c.State(e.sc.name, d.Sig)
		}
		if len(out.Trace) > 1 {
			e.c.Nontrivial()
		}
		if out.Redundant {
			e.c.Outcome("repeats another schedule")
		}
	}
	return out
}

// explore runs every schedule with at most bound deviations from the default
// one (choices between ready select cases are free).
func (e *explorer) explore() {
	root := e.execute(nil, e.c.Shard == 0)
	if root == nil {
		return
	}
	k := 0
	e.children(map[int]int{}, -1, 0, root, func(p map[int]int, pos, cost int) {
		k++
		if k%e.c.N == e.c.Shard {
			e.subtree(p, pos, cost)
		}
	})
}

func (e *explorer) subtree(path map[int]int, pos, cost int) {
	if e.c.Stop() {
		return
	}
	ctl := e.execute(path, true)
	if ctl == nil || ctl.Redundant {
		return
	}
	if ctl.Diverged {
		e.div++
		return
	}
	e.children(path, pos, cost, ctl, e.subtree)
}

// children calls f for every schedule that deviates from this run at one later decision.
func (e *explorer) children(path map[int]int, pos, cost int, ctl *mc.Ctl, f func(p map[int]int, pos, cost int)) {
	trace := ctl.Trace
	for i := pos + 1; i < len(trace); i++ {
		d := trace[i]
		nc := cost
		if !d.Free {
			nc++
		}
		if nc > e.bound {
			continue
		}
		for ch := 1; ch < d.N; ch++ {
			p := make(map[int]int, len(path)+1)
			for k, v := range path {
				p[k] = v
			}
			p[i] = ch
			f(p, i, nc)
		}
	}
}

// depth is the deviation bound of a scenario: at least two, and as many as keep
// the number of schedules (estimated from the default one) under a limit.
func depth(ctl *mc.Ctl, limit float64) int {
	w := 0.0
	for _, d := range ctl.Trace {
		w += float64(d.N - 1)
	}
	b, n := 2, w*w/2
	for b < 5 {
		n *= w / float64(b+1)
		if n > limit {
			break
		}
		b++
	}
	return b
}

// runAll explores the scenarios with increasing bounds.
func runAll(c *core.Ctx, scs []*scenario, quick, thorough float64) {
	instrumented := false
	limit := quick
	if c.Thorough() {
		limit = thorough
	}
	maxBound := 0
	depths := make([]int, len(scs))
	exs := make([]*explorer, len(scs))
	for i, sc := range scs {
		e := &explorer{c: c, sc: sc}
		exs[i] = e
		path, ok, replaying := c.ReplayPath(sc.name)
		if replaying && !ok {
			continue
		}
		e.learn()
		if replaying {
			e.execute(parsePath(path), true)
			return
		}
		if len(e.shared) > 0 {
			instrumented = true
		}
		var ctl *mc.Ctl
		c.Marked(sc.name, "", func() { ctl, _ = e.run(nil, nil, false) })
		if ctl != nil {
			depths[i] = depth(ctl, limit)
			if sc.max > 0 && depths[i] > sc.max {
				depths[i] = sc.max
			}
			if depths[i] > maxBound {
				maxBound = depths[i]
			}
			if ctl.Points > 0 {
				instrumented = true
			}
			c.Bound("decisions_of_default_schedule/"+sc.name, len(ctl.Trace))
		}
		var sh []string
		for s := range e.shared {
			sh = append(sh, s)
		}
		sort.Strings(sh)
		c.Bound("shared_locations/"+sc.name, strings.Join(sh, " "))
	}
	if !instrumented {
		c.Cap("the sources could not be instrumented: only the environment's operations are scheduling points")
	}
	for b := 1; b <= maxBound; b++ {
		for i, e := range exs {
			if c.Stop() {
				return
			}
			if b > depths[i] {
				continue
			}
			e.bound = b
			t0 := time.Now()
			e.runs = 0
			e.explore()
			if !c.Stop() {
				c.Bound("deviations/"+e.sc.name, e.bound)
			}
			if c.Shard == 0 && c.Verbose() {
				fmt.Printf("bound %d %s: %d runs in worker 0, %v, diverged %d\n", e.bound, e.sc.name, e.runs, time.Since(t0), e.div)
			}
		}
	}
}
