package sim

import (
	"errors"
	"net"
	"sync"
)

// Listener is an in-memory listener.
type Listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []any // net.Conn or error
	closed bool
	W      *World
	// OnAccept runs when a connection is handed out.
	OnAccept func(c net.Conn)
	OnError  func(error)
}

// NewListener makes one.
func (w *World) NewListener() *Listener {
	l := &Listener{W: w}
	l.cond = sync.NewCond(&l.mu)
	return l
}

var errLnClosed = errors.New("use of closed network connection")

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed {
			return nil, errLnClosed
		}
		if len(l.q) > 0 {
			x := l.q[0]
			l.q = l.q[1:]
			if e, ok := x.(error); ok {
				if l.OnError != nil {
					l.OnError(e)
				}
				return nil, e
			}
			if l.OnAccept != nil {
				l.OnAccept(x.(net.Conn))
			}
			return x.(net.Conn), nil
		}
		l.cond.Wait()
	}
}

// Push offers a connection or an accept error; false if closed.
func (l *Listener) Push(x any) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return false
	}
	l.q = append(l.q, x)
	l.cond.Broadcast()
	return true
}

// Pending is the number of connections not accepted yet.
func (l *Listener) Pending() int { l.mu.Lock(); defer l.mu.Unlock(); return len(l.q) }

// Closed tells whether it was closed.
func (l *Listener) Closed() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.closed }

// Close implements net.Listener.
func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		return errLnClosed
	}
	l.closed = true
	l.cond.Broadcast()
	return nil
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return addr("sim-listener") }

// TempErr is a temporary network error.
type TempErr struct{}

func (TempErr) Error() string   { return "temporary accept error" }
func (TempErr) Timeout() bool   { return false }
func (TempErr) Temporary() bool { return true }
