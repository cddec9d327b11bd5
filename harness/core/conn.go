package core

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

// Hook, when set, is called before and after every environment operation of
// Conn: the schedule explorer uses it to own those points.
var Hook func(op string)

func hook(op string) {
	if Hook != nil {
		Hook(op)
	}
}

// Conn is an in-memory net.Conn whose every answer the harness decides.
// A Read returns bytes of at most one queued segment.
type Conn struct {
	mu         sync.Mutex
	cond       *sync.Cond
	segs       [][]byte
	rdErr      error // returned once segs is drained
	closed     int   // number of Close calls
	deadline   time.Time
	wdeadline  time.Time
	reads      int
	Log        []Wr // every Write
	FailWrite  int  // 0: never; n: the n-th Write and all later ones fail
	WriteErr   error
	ShortFail  bool // the failing write accepts half of the bytes first
	writes     int
	OnWrite    func(b []byte) // runs after a successful write, on the writer's goroutine
	OnClose    func()
	BlockWrite chan struct{} // when non-nil a Write blocks until it is closed (or the conn is closed)
	wclosed    chan struct{}
	AfterClose int // writes attempted after Close
}

// Wr is one write to the transport.
type Wr struct {
	B   []byte
	At  time.Duration
	Err error
}

// NewConn makes a connected pair end.
func NewConn() *Conn {
	c := &Conn{wclosed: make(chan struct{})}
	c.cond = sync.NewCond(&c.mu)
	return c
}

// Feed queues segments for the client to read.
func (c *Conn) Feed(segs ...[]byte) {
	c.mu.Lock()
	for _, s := range segs {
		if len(s) > 0 {
			c.segs = append(c.segs, s)
		}
	}
	c.mu.Unlock()
	c.cond.Broadcast()
}

// EOF makes reads fail once the queued bytes are consumed.
func (c *Conn) EOF(err error) {
	c.mu.Lock()
	if c.rdErr == nil {
		c.rdErr = err
	}
	c.mu.Unlock()
	c.cond.Broadcast()
}

func (c *Conn) Read(b []byte) (int, error) {
	hook("read")
	defer hook("read.done")
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed > 0 {
			return 0, net.ErrClosed
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.segs) > 0 {
			n := copy(b, c.segs[0])
			if n == len(c.segs[0]) {
				c.segs = c.segs[1:]
			} else {
				c.segs[0] = c.segs[0][n:]
			}
			c.reads++
			return n, nil
		}
		if c.rdErr != nil {
			return 0, c.rdErr
		}
		if !c.deadline.IsZero() {
			d := time.Until(c.deadline)
			if d <= 0 {
				return 0, os.ErrDeadlineExceeded
			}
			t := time.AfterFunc(d, c.cond.Broadcast)
			c.cond.Wait()
			t.Stop()
			continue
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	hook("write")
	defer hook("write.done")
	if c.BlockWrite != nil {
		c.mu.Lock()
		var expire <-chan time.Time
		if !c.wdeadline.IsZero() {
			t := time.NewTimer(time.Until(c.wdeadline))
			defer t.Stop()
			expire = t.C
		}
		c.mu.Unlock()
		select {
		case <-c.BlockWrite:
		case <-c.wclosed:
		case <-expire:
			return 0, os.ErrDeadlineExceeded
		}
	}
	c.mu.Lock()
	if c.closed > 0 {
		c.AfterClose++
		c.mu.Unlock()
		return 0, net.ErrClosed
	}
	c.writes++
	if c.FailWrite > 0 && c.writes >= c.FailWrite {
		err := c.WriteErr
		if err == nil {
			err = io.ErrClosedPipe
		}
		n := 0
		if c.ShortFail {
			n = len(b) / 2
		}
		c.Log = append(c.Log, Wr{append([]byte(nil), b[:n]...), 0, err})
		c.mu.Unlock()
		return n, err
	}
	cp := append([]byte(nil), b...)
	c.Log = append(c.Log, Wr{B: cp})
	f := c.OnWrite
	c.mu.Unlock()
	if f != nil {
		f(cp)
	}
	return len(b), nil
}

func (c *Conn) Close() error {
	hook("close")
	c.mu.Lock()
	c.closed++
	if c.closed == 1 {
		close(c.wclosed)
	}
	f := c.OnClose
	first := c.closed == 1
	c.mu.Unlock()
	c.cond.Broadcast()
	if f != nil && first {
		f()
	}
	return nil
}

// Closed reports how often the client closed the transport.
func (c *Conn) Closed() int { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

// Unread reports whether fed bytes are still unread.
func (c *Conn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, s := range c.segs {
		n += len(s)
	}
	return n
}

// Wire returns every byte successfully written.
func (c *Conn) Wire() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []byte
	for _, w := range c.Log {
		r = append(r, w.B...)
	}
	return r
}

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr  { return addr("client") }
func (c *Conn) RemoteAddr() net.Addr { return addr("server") }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.deadline = t
	c.mu.Unlock()
	c.cond.Broadcast()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdeadline = t
	c.mu.Unlock()
	return nil
}

// ErrLeak is returned by Bubble when goroutines of the code under test are
// blocked for ever after everything else has ended.
var ErrLeak = errors.New("goroutines blocked for ever")

// Bubble runs f on a virtual clock; it returns f's error, or ErrLeak when f
// succeeded but goroutines it caused never end.
func Bubble(t *testing.T, f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if strings.Contains(s, "deadlock") {
				if err == nil {
					err = fmt.Errorf("%w: %s", ErrLeak, s)
				}
				return
			}
			panic(e)
		}
	}()
	var ferr error
	done := false
	defer func() {
		if done && ferr != nil {
			err = ferr
		}
	}()
	synctest.Test(t, func(*testing.T) {
		ferr = f()
		done = true
	})
	return ferr
}

// Quiesce waits until every other goroutine of the bubble is blocked.
func Quiesce() { synctest.Wait() }

// Drain removes and returns every byte still to be read.
func (c *Conn) Drain() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []byte
	for _, s := range c.segs {
		r = append(r, s...)
	}
	c.segs = nil
	return r
}

// TakeSegs removes and returns the segments still to be read.
func (c *Conn) TakeSegs() [][]byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := c.segs
	c.segs = nil
	return r
}

// EOFErr is what reads end with, if it was set.
func (c *Conn) EOFErr() error { c.mu.Lock(); defer c.mu.Unlock(); return c.rdErr }

// Deadlines are the deadlines set last.
func (c *Conn) Deadlines() (read, write time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.deadline, c.wdeadline
}
