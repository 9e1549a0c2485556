package eng

import (
	"context"
	"encoding/binary"
	"net"
	"sync"
	"time"
	"unsafe"

	"verifharness/sim"

	"github.com/lesismal/arpc"
)

func init() { engines["buf"] = runBuf }

// tracker is an allocator which never hands memory out again: what is returned is
// poisoned and stays recognisable.
type tracker struct {
	w   *sim.World
	mu  sync.Mutex
	ids map[*byte]int
	all [][]byte
}

func (t *tracker) id(b []byte) int {
	if cap(b) == 0 {
		return 0
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.ids[unsafe.SliceData(b)]
}

func (t *tracker) Malloc(size int) []byte {
	n := size
	if n == 0 {
		n = 1
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xA5 // memory is not zeroed
	}
	t.mu.Lock()
	t.all = append(t.all, b)
	id := len(t.all)
	t.ids[unsafe.SliceData(b)] = id
	t.w.Log(sim.Ev{"e": "Alloc", "b": id})
	t.mu.Unlock()
	return b[:size]
}

func (t *tracker) Realloc(b []byte, size int) []byte {
	if size <= cap(b) {
		return b[:size]
	}
	n := t.Malloc(size)
	copy(n, b)
	t.Free(b)
	return n
}

func (t *tracker) Append(b []byte, more ...byte) []byte {
	l := len(b)
	if l+len(more) <= cap(b) {
		return append(b, more...)
	}
	n := t.Malloc(2 * (l + len(more)))[:l+len(more)]
	copy(n, b)
	copy(n[l:], more)
	t.Free(b)
	return n
}

func (t *tracker) AppendString(b []byte, more string) []byte { return t.Append(b, []byte(more)...) }

func (t *tracker) Free(b []byte) {
	t.mu.Lock()
	defer t.mu.Unlock()
	id := 0
	if cap(b) > 0 {
		id = t.ids[unsafe.SliceData(b)]
		if id == 0 {
			return // memory of somebody else
		}
		a := t.all[id-1]
		for i := range a {
			a[i] = 0xDD
		}
	}
	t.w.Log(sim.Ev{"e": "Free", "b": id})
}

type bufWorld struct {
	w    *sim.World
	sc   *Scenario
	t    *tracker
	mu   sync.Mutex
	wire map[*sim.Conn][]byte
	dead map[*sim.Conn]bool
}

var bufMethods = map[string]bool{"/note": true, "/call": true, "/slow": true, "/err": true, "/str": true, "/none": true, "/sink": true}

func (k *bufWorld) use(b []byte, what string) {
	if k.t == nil {
		return
	}
	if cap(b) == 0 {
		k.w.Log(sim.Ev{"e": "Use", "b": 0, "w": what})
	} else if id := k.t.id(b); id > 0 {
		k.w.Log(sim.Ev{"e": "Use", "b": id, "w": what})
	}
}

func (k *bufWorld) done(m *arpc.Message) {
	if k.t == nil {
		return
	}
	if m == nil || cap(m.Buffer) == 0 {
		k.w.Log(sim.Ev{"e": "Done", "b": 0})
	} else if id := k.t.id(m.Buffer); id > 0 {
		k.w.Log(sim.Ev{"e": "Done", "b": id})
	}
}

func (k *bufWorld) got(m string)  { k.w.Log(sim.Ev{"e": "Got", "m": m}) }
func (k *bufWorld) seen(m string) { k.w.Log(sim.Ev{"e": "Wire", "m": m}) }
func (k *bufWorld) sub(m string)  { k.w.Log(sim.Ev{"e": "Sub", "m": m, "must": true}) }

// onWire looks at what a connection carries.
func (k *bufWorld) onWire(c *sim.Conn, x []byte) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.dead[c] {
		return
	}
	k.wire[c] = append(k.wire[c], x...)
	for len(k.wire[c]) >= 16 {
		n := int(binary.LittleEndian.Uint32(k.wire[c]))
		if n > 1<<20 {
			k.seen("?frame")
			k.dead[c] = true
			return
		}
		n += 16
		if len(k.wire[c]) < n {
			return
		}
		f := sim.Parse(append([]byte(nil), k.wire[c][:n]...))
		k.wire[c] = k.wire[c][n:]
		switch {
		case f.Cmd == sim.CmdPing || f.Cmd == sim.CmdPong:
		case !f.OK || !bufMethods[f.Method] || f.Cmd < 1 || f.Cmd > 6 || f.FlagRest != 0:
			k.seen("?" + sim.Token("meth"+f.Method))
		case len(f.Data) > 0 && string(f.Data) != arpc.ErrMethodNotFound.Error():
			k.seen(sim.Token(string(f.Data)))
		}
	}
}

func (k *bufWorld) install(h arpc.Handler, mode string, server bool) {
	sc := k.sc
	h.SetBatchSend(mode == "batch")
	h.SetAsyncWrite(mode != "direct")
	h.SetAsyncResponse(sc.flag("async"))
	if n := sc.num("sbuf"); n > 0 {
		h.SetSendBufferSize(n)
	}
	h.SetSendQueueSize(sc.num("queue"))
	h.SetBatchRecv(!sc.flag("norecvbuf"))
	switch sc.str("pool") {
	case "enable", "builtin":
		h.EnablePool(true)
	case "hooks":
		h.HandleMalloc(k.t.Malloc)
		h.HandleAppend(k.t.Append)
		h.HandleFree(k.t.Free)
	}
	if k.t != nil {
		h.HandleMessageDone(func(c *arpc.Client, m *arpc.Message) { k.done(m); m.Release() })
		h.HandleContextDone(func(ctx *arpc.Context) { k.done(ctx.Message); ctx.Release() })
	}
	see := func(c *arpc.Client, m *arpc.Message) { k.use(m.Buffer, "show") }
	h.HandleOverstock(see)
	h.HandleMessageDropped(see)
	if sc.flag("miss") {
		h.HandleSessionMiss(see)
	}
	body := func(ctx *arpc.Context) string {
		k.use(ctx.Message.Buffer, "show")
		s := string(ctx.Body())
		k.w.Jit()
		if string(ctx.Body()) != s {
			k.got("?changed")
		}
		k.use(ctx.Message.Buffer, "show")
		k.got(sim.Token(s))
		return s
	}
	h.Handle("/note", func(ctx *arpc.Context) { body(ctx) })
	h.Handle("/sink", func(ctx *arpc.Context) {
		var b []byte
		ctx.Bind(&b)
		k.got(sim.Token(string(b)))
	})
	answer := func(ctx *arpc.Context, isErr bool) {
		s := body(ctx)
		r := "R" + sim.Token(s)
		k.sub(r)
		p := sim.Payload(r, len(s))
		if isErr {
			ctx.Error(p)
		} else if len(s)%2 == 0 {
			ctx.Write(p)
		} else {
			b := []byte(p)
			ctx.Write(b)
			for i := range b { // the value belongs to the handler again
				b[i] = 0xEE
			}
		}
		k.use(ctx.Message.Buffer, "show")
	}
	h.Handle("/call", func(ctx *arpc.Context) { answer(ctx, false) })
	h.Handle("/err", func(ctx *arpc.Context) { answer(ctx, true) })
	h.Handle("/slow", func(ctx *arpc.Context) { time.Sleep(50 * time.Millisecond); answer(ctx, false) }, true)
	h.HandleStream("/str", func(s *arpc.Stream) { k.echo(s, true) }, true)
	if sc.flag("any") {
		h.HandleNotFound(func(ctx *arpc.Context) { answer(ctx, false) })
	}
}

// echo reads a stream and answers each value.
func (k *bufWorld) echo(s *arpc.Stream, back bool) {
	for {
		var v string
		if err := s.Recv(&v); err != nil {
			if back {
				s.CloseSend()
			}
			return
		}
		t := sim.Token(v)
		k.got(t)
		if back {
			r := "R" + t
			k.sub(r)
			if s.Send(sim.Payload(r, len(v))) != nil {
				return
			}
		}
	}
}

func runBuf(w *sim.World, sc *Scenario) {
	if sc.flag("alloc") {
		runAlloc(w, sc)
		return
	}
	nc := sc.num("nc")
	k := &bufWorld{w: w, sc: sc, wire: map[*sim.Conn][]byte{}, dead: map[*sim.Conn]bool{}}
	if sc.str("pool") != "builtin" {
		k.t = &tracker{w: w, ids: map[*byte]int{}}
		old := arpc.DefaultAllocator
		arpc.DefaultAllocator = k.t
		defer func() { arpc.DefaultAllocator = old }()
	}
	var mu sync.Mutex
	pipes := map[int]*sim.Pipe{}
	svs := map[net.Conn]*arpc.Client{}
	down := map[int]bool{}
	n := w.NewNet(sc.num("chunk"))
	n.OnPipe = func(p *sim.Pipe, addr string) {
		for _, c := range []*sim.Conn{p.A, p.B} {
			c, f := c, c.OnBytes
			c.OnBytes = func(_ *sim.Conn, x []byte) { k.onWire(c, x); f(c, x) }
			c.OnUse = func(b []byte) { k.use(b, "write") }
		}
	}
	srv := arpc.NewServer()
	k.install(srv.Handler, sc.str("smode"), true)
	srv.Handler.HandleConnected(func(c *arpc.Client) { mu.Lock(); svs[c.Conn] = c; mu.Unlock() })
	ln := n.Listen("srv")
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); srv.Serve(ln) }()
	cs := []*arpc.Client{nil}
	for i := 1; i <= nc; i++ {
		i := i
		h := arpc.NewHandler()
		k.install(h, sc.str("cmode"), false)
		c, err := arpc.NewClient(func() (net.Conn, error) {
			mu.Lock()
			d := down[i]
			mu.Unlock()
			if d {
				return nil, net.ErrClosed
			}
			c, err := n.Dial("srv")
			if err == nil {
				mu.Lock()
				for _, p := range n.All() {
					if p.A == c {
						pipes[i] = p
					}
				}
				mu.Unlock()
			}
			return c, err
		}, h)
		if err != nil {
			panic(err)
		}
		cs = append(cs, c)
		w.Settle()
	}
	side := func(l int) *arpc.Client { // the end a message of link l is sent from
		if l <= nc {
			return cs[l]
		}
		mu.Lock()
		defer mu.Unlock()
		p := pipes[l-nc]
		return svs[p.B]
	}
	conn := func(l int) *sim.Conn {
		mu.Lock()
		defer mu.Unlock()
		if l <= nc {
			return pipes[l].A
		}
		return pipes[l-nc].B
	}
	streams := map[*arpc.Client]*arpc.Stream{}
	var blocked []*sim.Conn
	quiet := func() { w.Settle(); w.Log(sim.Ev{"e": "Quiet"}) }
	quiet()
	for _, st := range sc.Steps {
		if st.flag("q") {
			quiet()
		}
		if d := st.num("dt"); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		m, l, kind := st.str("m"), st.num("l"), st.str("kind")
		p := sim.Payload(m, st.num("size"))
		to := time.Duration(st.num("to")) * time.Millisecond
		run := func(f func()) {
			wg.Add(1)
			g := func() { defer wg.Done(); f() }
			go g()
		}
		var c *arpc.Client
		if l > 0 {
			if c = side(l); c == nil && st.str("a") == "sub" {
				continue
			}
		}
		switch st.str("a") {
		case "stall":
			b := conn(l)
			b.BlockW(true)
			blocked = append(blocked, b)
		case "resume":
			for _, b := range blocked {
				b.BlockW(false)
			}
			blocked = nil
		case "cut":
			i := l
			if i > nc {
				i -= nc
			}
			mu.Lock()
			down[i] = true
			pp := pipes[i]
			mu.Unlock()
			pp.Cut(st.flag("rst"))
		case "up":
			i := l
			if i > nc {
				i -= nc
			}
			mu.Lock()
			down[i] = false
			mu.Unlock()
			time.Sleep(1100 * time.Millisecond)
		case "bcast":
			w.Log(sim.Ev{"e": "Sub", "m": m, "must": !st.flag("filter")})
			if st.flag("filter") {
				srv.BroadcastWithFilter("/note", p, func(*arpc.Client) bool { return w.Intn(4) > 0 })
			} else {
				srv.Broadcast("/note", p)
			}
		case "sub":
			if kind == "strend" && streams[c] == nil {
				kind = "str"
			}
			w.Log(sim.Ev{"e": "Sub", "m": m, "must": kind != "none" || sc.flag("any")})
			var v interface{} = p
			if st.flag("bytes") {
				v = []byte(p)
			}
			switch kind {
			case "note":
				run(func() { c.Notify("/note", v, to) })
			case "sink":
				run(func() { c.Notify("/sink", v, to) })
			case "note0":
				run(func() { c.Notify("/note", v, 0) })
			case "notectx":
				run(func() {
					ctx, cancel := context.WithTimeout(context.Background(), to)
					defer cancel()
					c.NotifyContext(ctx, "/note", v)
				})
			case "push":
				run(func() { c.PushMsg(c.NewMessage(arpc.CmdNotify, "/note", v), to) })
			case "call", "slow", "err", "none":
				run(func() {
					if st.flag("ctx") {
						var r []byte
						ctx, cancel := context.WithTimeout(context.Background(), to)
						defer cancel()
						err := c.CallContext(ctx, "/"+kind, v, &r)
						k.w.Jit()
						if err == nil {
							k.got(sim.Token(string(r)))
						} else if kind == "err" && len(err.Error()) > 0 && err.Error()[0] == 'R' {
							k.got(sim.Token(err.Error()))
						}
						return
					}
					var r string
					err := c.Call("/"+kind, v, &r, to)
					k.w.Jit()
					if err == nil {
						k.got(sim.Token(r))
					} else if kind == "err" && len(err.Error()) > 0 && err.Error()[0] == 'R' {
						k.got(sim.Token(err.Error()))
					}
				})
			case "async", "aslow", "aerr":
				meth := map[string]string{"async": "/call", "aslow": "/slow", "aerr": "/err"}[kind]
				f := func() {
					c.CallAsync(meth, v, func(ctx *arpc.Context, err error) {
						if err != nil && len(err.Error()) > 0 && err.Error()[0] == 'R' {
							k.got(sim.Token(err.Error()))
						}
						if err == nil && ctx != nil {
							k.use(ctx.Message.Buffer, "show")
							s := string(ctx.Body())
							k.w.Jit()
							k.use(ctx.Message.Buffer, "show")
							if string(ctx.Body()) != s {
								k.got("?changed")
							}
							k.got(sim.Token(s))
						}
					}, to)
				}
				run(f)
			case "str":
				s := streams[c]
				if s == nil {
					s = c.NewStream("/str")
					streams[c] = s
					run(func() { k.echo(s, false) })
				}
				ctx, cancel := context.WithTimeout(context.Background(), to)
				run(func() { defer cancel(); s.SendContext(ctx, v) })
				if sc.flag("calm") { // values of a stream in one order only while nobody waits
					w.Settle()
				}
			case "strend":
				s := streams[c]
				delete(streams, c)
				run(func() { s.SendAndClose(v) })
			}
		}
	}
	for _, b := range blocked {
		b.BlockW(false)
	}
	if !sc.flag("abrupt") {
		w.Settle()
		time.Sleep(time.Duration(sc.num("drain")) * time.Millisecond)
		w.Settle()
		w.Log(sim.Ev{"e": "Drained"})
	}
	for _, c := range cs[1:] {
		c.Stop()
	}
	srv.Stop()
	wg.Wait()
	time.Sleep(3 * time.Second)
	w.Settle()
	w.Log(sim.Ev{"e": "End"})
}

// runAlloc exercises the built-in allocator with several owners.
func runAlloc(w *sim.World, sc *Scenario) {
	a := arpc.New(sc.num("small"), sc.num("big"))
	if sc.flag("debug") {
		a.(*arpc.BufferPool).Debug = true
	}
	type own struct {
		b    []byte
		want []byte
	}
	var mu sync.Mutex
	arr := map[*byte]int{}
	arrID := func(b []byte) int { // identity of the whole array: its last byte does not move
		b = b[:cap(b)]
		mu.Lock()
		defer mu.Unlock()
		p := unsafe.SliceData(b)
		if arr[p] == 0 {
			arr[p] = len(arr) + 1
		}
		return arr[p]
	}
	var keep [][]byte
	work := func(id int, steps []Step) {
		var o *own
		for i, st := range steps {
			n := st.num("size")
			fill := func(b []byte) []byte {
				for j := range b {
					b[j] = byte(id*37 + i*11 + j*7)
				}
				return b
			}
			more := fill(make([]byte, n))
			set := func(b []byte) {
				mu.Lock()
				keep = append(keep, b)
				mu.Unlock()
				o.b = b
				if cap(b) > 0 {
					w.Log(sim.Ev{"e": "Own", "o": id, "a": arrID(b)})
				}
			}
			switch st.str("a") {
			case "malloc":
				if o == nil {
					o = &own{}
					b := a.Malloc(n)
					w.Log(sim.Ev{"e": "Keep", "o": id, "ok": len(b) == n})
					set(b)
					copy(b, more)
					o.want = append([]byte(nil), more...)
				}
			case "realloc":
				if o != nil && cap(o.b) > 0 {
					w.Log(sim.Ev{"e": "Disown", "o": id})
					b := a.Realloc(o.b, n)
					keepN := len(o.want)
					if n < keepN {
						keepN = n
					}
					w.Log(sim.Ev{"e": "Keep", "o": id, "ok": len(b) == n && string(b[:keepN]) == string(o.want[:keepN])})
					set(b)
					copy(b[keepN:], more)
					o.want = append([]byte(nil), b...)
				}
			case "append", "appends":
				if o != nil && cap(o.b) > 0 {
					w.Log(sim.Ev{"e": "Disown", "o": id})
					var b []byte
					if st.str("a") == "append" {
						b = a.Append(o.b, more...)
					} else {
						b = a.AppendString(o.b, string(more))
					}
					o.want = append(o.want, more...)
					w.Log(sim.Ev{"e": "Keep", "o": id, "ok": string(b) == string(o.want)})
					set(b)
				}
			case "free":
				if o != nil {
					w.Log(sim.Ev{"e": "Keep", "o": id, "ok": string(o.b) == string(o.want)})
					w.Log(sim.Ev{"e": "Disown", "o": id})
					if cap(o.b) > 0 {
						a.Free(o.b)
					}
					o = nil
				}
			}
			if o != nil {
				w.Log(sim.Ev{"e": "Keep", "o": id, "ok": string(o.b) == string(o.want)})
			}
			w.Jit()
		}
		if o != nil {
			w.Log(sim.Ev{"e": "Keep", "o": id, "ok": string(o.b) == string(o.want)})
		}
	}
	by := map[int][]Step{}
	var ids []int
	for _, st := range sc.Steps {
		o := st.num("o")
		if by[o] == nil {
			ids = append(ids, o)
		}
		by[o] = append(by[o], st)
	}
	var wg sync.WaitGroup
	for _, id := range ids {
		wg.Add(1)
		go func() { defer wg.Done(); work(id, by[id]) }()
	}
	wg.Wait()
	w.Log(sim.Ev{"e": "Quiet"})
}
