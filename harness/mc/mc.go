// Package mc is a controlled scheduler for real Go code. Instrumented code (see
// mcgen) calls Point before every operation on something shared; a goroutine
// that reaches a Point parks until the controller releases it. The controller
// runs inside a synctest bubble, so it knows when every other goroutine is
// parked or blocked, and which goroutine goes next is its decision alone.
package mc

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

// Dec is one decision of a run.
type Dec struct {
	N      int    // number of options
	Choice int    // option taken
	Free   bool   // deviating costs nothing (a select with several ready cases)
	Sig    uint64 // what was parked where
}

// Config fixes one run.
type Config struct {
	Path     map[int]int     // decision -> option; others take option 0
	Shared   map[string]bool // locations which are scheduling points (nil: none but channels)
	Learn    *Accesses       // when set, accesses are recorded
	MaxSteps int
	Advance  time.Duration // when set, letting this time pass is one more option of every decision
}

// Accesses records which threads touched which location.
type Accesses struct {
	m map[string]*access
}

type access struct {
	by    map[int]bool
	write bool
}

// SharedSet lists the locations touched by several threads, with a write.
func (a *Accesses) SharedSet() map[string]bool {
	r := map[string]bool{}
	for k, v := range a.m {
		if len(v.by) > 1 && v.write {
			r[k] = true
		}
	}
	return r
}

type thread struct {
	id    int
	name  string
	ch    chan struct{}
	label string
}

// Ctl controls one run.
type Ctl struct {
	cfg       Config
	mu        sync.Mutex
	active    bool
	parked    []*thread
	byGid     map[int64]*thread
	ctlGid    int64
	next      int
	live      int // threads started by Go and not ended
	Trace     []Dec
	Steps     int
	Points    int // points reached in instrumented code
	Log       []string
	Keep      bool // keep a log of the schedule
	Redundant bool
	Mute      atomic.Bool // while set, no decisions are taken: the default schedule goes on
	Fail      string
	Diverged  bool
}

var cur atomic.Pointer[Ctl]

// self is the calling thread; nil for the controller.
func (c *Ctl) self() *thread {
	g := goid()
	if g == c.ctlGid {
		return nil
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	t := c.byGid[g]
	if t == nil {
		t = &thread{id: c.next, name: "other", ch: make(chan struct{}, 1)}
		c.next++
		c.byGid[g] = t
	}
	return t
}

type locs struct {
	always bool
	names  []string
	writes []bool
}

var (
	locMu    sync.Mutex
	locCache = map[string]*locs{}
)

func parseLabel(label string) *locs {
	locMu.Lock()
	defer locMu.Unlock()
	if l := locCache[label]; l != nil {
		return l
	}
	l := &locs{}
	for _, f := range strings.Fields(label) {
		switch {
		case strings.HasPrefix(f, "r:"):
			l.names, l.writes = append(l.names, f[2:]), append(l.writes, false)
		case strings.HasPrefix(f, "w:"):
			l.names, l.writes = append(l.names, f[2:]), append(l.writes, true)
		default:
			l.always = true
		}
	}
	locCache[label] = l
	return l
}

// Point is called by instrumented code before an operation. Its label lists the
// locations read ("r:name") and written ("w:name"); any other word makes it a
// scheduling point always.
func Point(label string) {
	c := cur.Load()
	if c == nil {
		return
	}
	l := parseLabel(label)
	stop := l.always
	for _, n := range l.names {
		if c.cfg.Shared[n] {
			stop = true
		}
	}
	if !stop && c.cfg.Learn == nil {
		return
	}
	t := c.self()
	if t == nil {
		return
	}
	if c.cfg.Learn != nil && len(l.names) > 0 {
		c.mu.Lock()
		for i, n := range l.names {
			a := c.cfg.Learn.m[n]
			if a == nil {
				a = &access{by: map[int]bool{}}
				c.cfg.Learn.m[n] = a
			}
			a.by[t.id] = true
			a.write = a.write || l.writes[i]
		}
		c.mu.Unlock()
	}
	if !stop {
		return
	}
	c.Points++
	c.park(t, label)
}

// Step is a scheduling point of the harness.
func Step(label string) {
	if c := cur.Load(); c != nil {
		if t := c.self(); t != nil {
			c.park(t, label)
		}
	}
}

func (c *Ctl) park(t *thread, label string) {
	c.mu.Lock()
	if !c.active {
		c.mu.Unlock()
		return
	}
	t.label = label
	c.parked = append(c.parked, t)
	c.mu.Unlock()
	<-t.ch
}

// Go replaces the go statement.
func Go(f func()) { GoNamed("go", f) }

// GoNamed starts a thread of the harness.
func GoNamed(name string, f func()) {
	c := cur.Load()
	if c == nil {
		go f()
		return
	}
	t := &thread{name: name, ch: make(chan struct{}, 1)}
	c.mu.Lock()
	t.id = c.next
	c.next++
	c.live++
	c.mu.Unlock()
	go func() {
		g := goid()
		c.mu.Lock()
		c.byGid[g] = t
		c.mu.Unlock()
		defer func() {
			e := recover()
			c.mu.Lock()
			delete(c.byGid, g)
			c.live--
			if e != nil && c.Fail == "" {
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				c.Fail = fmt.Sprintf("panic in thread %d (%s): %v\n%s", t.id, t.name, e, buf)
			}
			c.mu.Unlock()
		}()
		c.park(t, "start")
		f()
	}()
}

// decide takes the next decision.
func (c *Ctl) decide(n int, free bool, sig uint64) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Mute.Load() {
		return 0
	}
	ch := c.cfg.Path[len(c.Trace)]
	if ch >= n {
		c.Diverged = true
		ch = 0
	}
	c.Trace = append(c.Trace, Dec{n, ch, free, sig})
	return ch
}

// Prefer decides which case of a select is tried first.
func Prefer(n int) int {
	c := cur.Load()
	if c == nil {
		return 0
	}
	c.mu.Lock()
	on := c.active
	c.mu.Unlock()
	if !on {
		return 0
	}
	return c.decide(n, true, uint64(n))
}

// Miss tells that the preferred case was not ready: with a preference other
// than the first, the run repeats another one.
func Miss(p int) {
	if c := cur.Load(); c != nil && p > 0 {
		c.mu.Lock()
		c.Redundant = true
		c.mu.Unlock()
	}
}

// Run controls everything setup starts until nothing more happens, then calls
// the check it returned. It must be called inside a synctest bubble.
func Run(cfg Config, setup func(c *Ctl) func() error) (*Ctl, error) {
	c := &Ctl{cfg: cfg, active: true, byGid: map[int64]*thread{}}
	if c.cfg.MaxSteps == 0 {
		c.cfg.MaxSteps = 20000
	}
	if cfg.Learn != nil && cfg.Learn.m == nil {
		cfg.Learn.m = map[string]*access{}
	}
	cur.Store(c)
	defer cur.Store(nil)
	c.ctlGid = goid()
	check := setup(c)
	last := -1
	idle := 0
	for {
		synctest.Wait()
		c.mu.Lock()
		fail, n, live := c.Fail, len(c.parked), c.live
		c.mu.Unlock()
		if fail != "" {
			break
		}
		if n == 0 {
			// everything is blocked: only time can help
			if idle++; live == 0 && idle > 1 && c.Points > 0 || idle > 40 {
				break
			}
			time.Sleep(500 * time.Millisecond)
			continue
		}
		idle = 0
		if c.Steps++; c.Steps > c.cfg.MaxSteps {
			c.Fail = fmt.Sprintf("no end after %d steps", c.Steps)
			break
		}
		opts := append([]*thread(nil), c.parked...)
		sort.Slice(opts, func(i, j int) bool {
			return c.rank(opts[i].id, last) < c.rank(opts[j].id, last)
		})
		ch := 0
		nopt := len(opts)
		if c.cfg.Advance > 0 {
			nopt++
		}
		if nopt > 1 {
			h := fnv.New64a()
			for _, t := range opts {
				fmt.Fprintf(h, "%d:%s;", t.id, t.label)
			}
			ch = c.decide(nopt, false, h.Sum64())
		}
		if ch == len(opts) {
			if c.Keep {
				c.Log = append(c.Log, fmt.Sprintf("%d: let %v pass", len(c.Trace)-1, c.cfg.Advance))
			}
			time.Sleep(c.cfg.Advance)
			continue
		}
		t := opts[ch]
		if c.Keep {
			c.Log = append(c.Log, fmt.Sprintf("%d: thread %d (%s) %s", len(c.Trace)-1, t.id, t.name, t.label))
		}
		last = t.id
		c.mu.Lock()
		for i, p := range c.parked {
			if p == t {
				c.parked = append(c.parked[:i], c.parked[i+1:]...)
				break
			}
		}
		c.mu.Unlock()
		t.ch <- struct{}{}
	}
	// from here on everything runs freely
	c.mu.Lock()
	c.active = false
	rest := c.parked
	c.parked = nil
	c.mu.Unlock()
	for _, t := range rest {
		t.ch <- struct{}{}
	}
	synctest.Wait()
	if c.Fail != "" {
		return c, fmt.Errorf("%s", c.Fail)
	}
	err := check()
	if err == nil && c.Fail != "" {
		err = fmt.Errorf("%s", c.Fail)
	}
	return c, err
}

// rank orders the options: the thread that ran last goes on, then the others in
// cyclic order.
func (c *Ctl) rank(id, last int) int {
	if id >= last {
		return id - last
	}
	return id - last + c.next + 1
}

// Live is the number of threads started and not ended.
func (c *Ctl) Live() int { c.mu.Lock(); defer c.mu.Unlock(); return c.live }

// Mutex replaces sync.Mutex: waiting for it is visible to the bubble.
type Mutex struct {
	mu     sync.Mutex
	locked bool
	q      []chan struct{}
}

func (m *Mutex) Lock() {
	Point("lock")
	m.lock()
}

func (m *Mutex) lock() {
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.q = append(m.q, ch)
	m.mu.Unlock()
	<-ch
}

func (m *Mutex) TryLock() bool {
	Point("lock")
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.q) > 0 {
		close(m.q[0])
		m.q = m.q[1:]
		return
	}
	m.locked = false
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	q       []chan struct{}
}

func (m *RWMutex) wait(try func() bool) {
	for {
		m.mu.Lock()
		if try() {
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.q = append(m.q, ch)
		m.mu.Unlock()
		<-ch
	}
}

func (m *RWMutex) wake() {
	for _, ch := range m.q {
		close(ch)
	}
	m.q = nil
}

func (m *RWMutex) Lock() {
	Point("lock")
	m.wait(func() bool {
		if m.writer || m.readers > 0 {
			return false
		}
		m.writer = true
		return true
	})
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
}

func (m *RWMutex) RLock() {
	Point("lock")
	m.wait(func() bool {
		if m.writer {
			return false
		}
		m.readers++
		return true
	})
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	if m.readers--; m.readers == 0 {
		m.wake()
	}
}

// RLocker is as in sync.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
