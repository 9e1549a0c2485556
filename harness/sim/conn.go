package sim

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// Conn is the arpc side of an in-memory connection.
type Conn struct {
	W  *World
	ID int

	mu   sync.Mutex
	cond *sync.Cond

	in       []byte // bytes the peer sent and arpc has not read
	chunk    int    // maximal bytes per Read, 0 = unlimited, <0: random 1..-chunk
	eof      bool   // peer closed after in
	rerr     error
	closed   bool // closed by arpc
	blockW   bool
	wdead    bool // writes fail
	failAt   int  // >0: the write that would exceed this many more bytes fails midway
	reading  bool
	eofSeen  bool
	wblocked bool

	out []byte // not yet parsed output

	// OnFrame receives each complete frame arpc wrote (under Write).
	OnFrame func(c *Conn, f []byte)
	// MaxFrame bounds the body length believed; above it the output counts as malformed.
	MaxFrame int
	bad      bool
	// Raw disables frame parsing; OnBytes gets everything.
	OnBytes func(c *Conn, b []byte)

	// OnUse sees the memory given to a Write as it begins and ends.
	OnUse func(b []byte)

	// OnClose runs when arpc closes the connection (under its lock).
	OnClose func(c *Conn)

	// Quietly suppresses events (used by engines which do not log connection events).
	Quietly bool

	rd, wd time.Time
	rdT    *time.Timer
	wdT    *time.Timer
	Local  string
	Remote string
}

// NewConn makes a connection.
func (w *World) NewConn(id int) *Conn {
	c := &Conn{W: w, ID: id, MaxFrame: 1 << 26, Local: "local", Remote: "peer"}
	c.cond = sync.NewCond(&c.mu)
	w.mu.Lock()
	w.Conns = append(w.Conns, c)
	w.mu.Unlock()
	return c
}

// SetChunk sets read segmentation.
func (c *Conn) SetChunk(n int) { c.mu.Lock(); c.chunk = n; c.mu.Unlock() }

// Read implements net.Conn.
func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(c.in) > 0 {
			n := len(c.in)
			if n > len(b) {
				n = len(b)
			}
			if c.chunk > 0 && n > c.chunk {
				n = c.chunk
			} else if c.chunk < 0 {
				if k := 1 + c.W.Intn(-c.chunk); n > k {
					n = k
				}
			}
			copy(b, c.in[:n])
			c.in = c.in[n:]
			return n, nil
		}
		if c.rerr != nil || c.eof {
			err := c.rerr
			if err == nil {
				err = io.EOF
			}
			if !c.eofSeen {
				c.eofSeen = true
				if !c.Quietly {
					c.W.Log(Ev{"e": "EofSeen", "c": c.ID})
				}
			}
			return 0, err
		}
		if !c.rd.IsZero() && !time.Now().Before(c.rd) {
			if !c.eofSeen {
				c.eofSeen = true
				if !c.Quietly {
					c.W.Log(Ev{"e": "EofSeen", "c": c.ID})
				}
			}
			return 0, os.ErrDeadlineExceeded
		}
		c.reading = true
		c.cond.Wait()
		c.reading = false
	}
}

var errReset = errors.New("connection reset by peer")

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	if c.OnUse != nil {
		c.OnUse(b)
		defer c.OnUse(b)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	// one writer at a time, as on a real connection
	for c.wblocked && !c.closed {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.wdead {
		if !c.Quietly {
			c.W.Log(Ev{"e": "WErr", "c": c.ID})
		}
		return 0, errReset
	}
	if c.failAt > 0 && len(b) >= c.failAt {
		n := c.failAt - 1
		c.failAt = 0
		c.wdead = true
		c.accept(b[:n])
		if !c.Quietly {
			c.W.Log(Ev{"e": "WErr", "c": c.ID})
		}
		return n, errReset
	}
	c.accept(b)
	for c.blockW && !c.closed && !c.wdead {
		if !c.wd.IsZero() && !time.Now().Before(c.wd) {
			if !c.Quietly {
				c.W.Log(Ev{"e": "WErr", "c": c.ID})
			}
			return 0, os.ErrDeadlineExceeded
		}
		c.wblocked = true
		c.cond.Wait()
		c.wblocked = false
	}
	c.cond.Broadcast()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.wdead {
		if !c.Quietly {
			c.W.Log(Ev{"e": "WErr", "c": c.ID})
		}
		return 0, errReset
	}
	return len(b), nil
}

func (c *Conn) accept(b []byte) {
	if c.OnBytes != nil {
		c.OnBytes(c, append([]byte(nil), b...))
		return
	}
	c.out = append(c.out, b...)
	for len(c.out) >= 16 && !c.bad {
		n := int(c.out[0]) | int(c.out[1])<<8 | int(c.out[2])<<16 | int(c.out[3])<<24
		if n > c.MaxFrame {
			c.bad = true
			c.W.Log(Ev{"e": "BadOut", "c": c.ID, "why": "length"})
			return
		}
		if len(c.out) < 16+n {
			return
		}
		f := append([]byte(nil), c.out[:16+n]...)
		c.out = append([]byte(nil), c.out[16+n:]...)
		if c.OnFrame != nil {
			c.OnFrame(c, f)
		}
	}
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	if !c.Quietly {
		c.W.Log(Ev{"e": "CliClose", "c": c.ID})
	}
	c.closed = true
	c.stopTimers()
	c.cond.Broadcast()
	if c.OnClose != nil {
		c.OnClose(c)
	}
	return nil
}

func (c *Conn) stopTimers() {
	if c.rdT != nil {
		c.rdT.Stop()
	}
	if c.wdT != nil {
		c.wdT.Stop()
	}
}

// --- the peer's side ---

// Feed makes bytes available to arpc.
func (c *Conn) Feed(b []byte) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Drop closes from the peer: reads end after what was fed; if reset, writes fail too.
func (c *Conn) Drop(reset bool) {
	c.mu.Lock()
	c.eof = true
	if reset {
		c.rerr = errReset
		c.in = nil
	}
	c.wdead = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// FailWriteAt makes a write fail after n-1 further bytes.
func (c *Conn) FailWriteAt(n int) { c.mu.Lock(); c.failAt = n; c.mu.Unlock() }

// KillWrites makes writes fail while reads go on.
func (c *Conn) KillWrites() { c.mu.Lock(); c.wdead = true; c.cond.Broadcast(); c.mu.Unlock() }

// BlockW stalls or resumes the peer's reading.
func (c *Conn) BlockW(b bool) {
	c.mu.Lock()
	c.blockW = b
	c.cond.Broadcast()
	c.mu.Unlock()
}

// State reports the connection for quiet events.
func (c *Conn) State() (unread, partial int, closed, blocked, reading bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.in), len(c.out), c.closed, c.blockW, c.reading
}

// Dropped tells whether the peer closed.
func (c *Conn) Dropped() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.eof }

// Closed tells whether arpc closed it.
func (c *Conn) Closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

type addr string

func (a addr) Network() string { return "sim" }
func (a addr) String() string  { return string(a) }

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return addr(c.Local) }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return addr(c.Remote) }

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rd = t
	if c.rdT != nil {
		c.rdT.Stop()
	}
	if !t.IsZero() && !c.closed {
		c.rdT = time.AfterFunc(time.Until(t), func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	}
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wd = t
	if c.wdT != nil {
		c.wdT.Stop()
	}
	if !t.IsZero() && !c.closed {
		c.wdT = time.AfterFunc(time.Until(t), func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	}
	return nil
}
