package sim

import (
	"errors"
	"net"
	"sync"
)

// Pipe is a connection both ends of which are in use by arpc.
type Pipe struct {
	ID   int
	A, B *Conn // A: the dialing end
	ab   *relay
	ba   *relay
}

// relay carries bytes one way; writers never wait for it.
type relay struct {
	w    *World
	mu   sync.Mutex
	cond *sync.Cond
	q    [][]byte
	end  bool
	cut  bool
	hold bool
}

func newRelay(w *World, to *Conn, jit bool) *relay {
	r := &relay{w: w}
	r.cond = sync.NewCond(&r.mu)
	go func() {
		for {
			r.mu.Lock()
			for !r.cut && (r.hold || (len(r.q) == 0 && !r.end)) {
				r.cond.Wait()
			}
			if r.cut {
				r.mu.Unlock()
				return
			}
			if len(r.q) == 0 {
				r.mu.Unlock()
				to.Drop(false)
				return
			}
			b := r.q[0]
			r.q = r.q[1:]
			r.mu.Unlock()
			if jit {
				w.Jit()
			}
			to.Feed(b)
		}
	}()
	return r
}

func (r *relay) put(b []byte) {
	r.mu.Lock()
	r.q = append(r.q, b)
	r.cond.Broadcast()
	r.mu.Unlock()
}

func (r *relay) set(f func()) {
	r.mu.Lock()
	f()
	r.cond.Broadcast()
	r.mu.Unlock()
}

// NewPipe makes a connected pair.
func (w *World) NewPipe(id int, chunk int) *Pipe {
	p := &Pipe{ID: id, A: w.NewConn(id), B: w.NewConn(id)}
	p.A.Quietly, p.B.Quietly = true, true
	p.A.SetChunk(chunk)
	p.B.SetChunk(chunk)
	p.ab = newRelay(w, p.B, true)
	p.ba = newRelay(w, p.A, true)
	p.A.OnBytes = func(_ *Conn, b []byte) { p.ab.put(b) }
	p.B.OnBytes = func(_ *Conn, b []byte) { p.ba.put(b) }
	p.A.OnClose = func(*Conn) { p.ab.set(func() { p.ab.end = true }); p.ba.set(func() { p.ba.cut = true }) }
	p.B.OnClose = func(*Conn) { p.ba.set(func() { p.ba.end = true }); p.ab.set(func() { p.ab.cut = true }) }
	return p
}

// Cut loses the connection at both ends.
func (p *Pipe) Cut(reset bool) {
	p.ab.set(func() { p.ab.cut = true })
	p.ba.set(func() { p.ba.cut = true })
	p.A.Drop(reset)
	p.B.Drop(reset)
}

// Hold keeps bytes of one direction (from A if a) back, or lets them go.
func (p *Pipe) Hold(a, on bool) {
	r := p.ba
	if a {
		r = p.ab
	}
	r.set(func() { r.hold = on })
}

// Net is a set of listeners by address.
type Net struct {
	W  *World
	mu sync.Mutex
	ln map[string]*Listener
	// Pipes in order of dialing.
	Pipes []*Pipe
	Chunk int
	// Refuse lists addresses which refuse connections.
	refuse map[string]bool
	// OnPipe runs for each new pair before it is offered.
	OnPipe func(p *Pipe, addr string)
}

// NewNet makes an empty network.
func (w *World) NewNet(chunk int) *Net {
	return &Net{W: w, ln: map[string]*Listener{}, Chunk: chunk, refuse: map[string]bool{}}
}

// Listen adds an address.
func (n *Net) Listen(addr string) *Listener {
	l := n.W.NewListener()
	n.mu.Lock()
	n.ln[addr] = l
	n.mu.Unlock()
	return l
}

// Refuse makes an address refuse or accept connections.
func (n *Net) Refuse(addr string, on bool) {
	n.mu.Lock()
	n.refuse[addr] = on
	n.mu.Unlock()
}

var errRefused = errors.New("connection refused")

// Dial connects.
func (n *Net) Dial(addr string) (net.Conn, error) {
	n.mu.Lock()
	l := n.ln[addr]
	if l == nil || n.refuse[addr] || l.Closed() {
		n.mu.Unlock()
		return nil, errRefused
	}
	p := n.W.NewPipe(len(n.Pipes)+1, n.Chunk)
	n.Pipes = append(n.Pipes, p)
	n.mu.Unlock()
	if n.OnPipe != nil {
		n.OnPipe(p, addr)
	}
	if !l.Push(p.B) {
		p.Cut(true)
		return nil, errRefused
	}
	return p.A, nil
}

// All returns the pipes so far.
func (n *Net) All() []*Pipe { n.mu.Lock(); defer n.mu.Unlock(); return append([]*Pipe(nil), n.Pipes...) }
