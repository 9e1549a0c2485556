package eng

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/util"
)

func init() { engines["stream"] = runStream }

type stVal struct {
	raw  []byte
	kind string
	fail bool
}

// stEnd is one end of one stream.
type stEnd struct {
	x    int
	by   string
	obj  *arpc.Stream
	sq   []Step
	rq   []Step
	vals []stVal // sent by this end, 1-based via index+1
	nr   int
	got  int
	seen []string
}

type stWorld struct {
	w      *sim.World
	sc     *Scenario
	n      *sim.Net
	mu     sync.Mutex
	cond   *sync.Cond
	cli    *arpc.Client
	srv    *arpc.Server
	ep     int
	sc1    map[int]*arpc.Client // server's end by epoch
	down   bool
	stop   bool
	end    bool
	ids    map[string]int // opener:id -> x
	meth   map[int]string
	ends   map[string]*stEnd
	ncall  int
	closed int
}

func opp(y string) string {
	if y == "c" {
		return "s"
	}
	return "c"
}

func runStream(w *sim.World, sc *Scenario) {
	k := &stWorld{w: w, sc: sc, sc1: map[int]*arpc.Client{}, ids: map[string]int{}, meth: map[int]string{}, ends: map[string]*stEnd{}}
	k.cond = sync.NewCond(&k.mu)
	k.n = w.NewNet(sc.num("chunk"))
	k.srv = arpc.NewServer()
	k.srv.Codec = jitCodec{w}
	ch := arpc.NewHandler()
	k.setup(k.srv.Handler, "s")
	k.setup(ch, "c")
	ln := k.n.Listen("srv")
	k.n.OnPipe = func(p *sim.Pipe, _ string) {
		k.mu.Lock()
		k.ep = p.ID
		k.down = false
		k.mu.Unlock()
		w.Log(sim.Ev{"e": "Link", "ep": p.ID})
	}
	k.srv.Handler.HandleConnected(func(c *arpc.Client) {
		k.mu.Lock()
		k.sc1[c.Conn.(*sim.Conn).ID] = c
		k.mu.Unlock()
	})
	served := make(chan bool)
	go func() { k.srv.Serve(ln); close(served) }()
	cli, err := arpc.NewClient(func() (net.Conn, error) { return k.n.Dial("srv") }, ch)
	if err != nil {
		panic(err)
	}
	k.mu.Lock()
	k.cli = cli
	k.mu.Unlock()
	cli.Codec = jitCodec{w}
	w.Settle()
	for _, st := range sc.Steps {
		if d := st.num("dt"); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
			k.quiet()
		} else if st.flag("q") {
			k.quiet()
		}
		k.step(st)
	}
	k.quiet()
	for _, y := range []string{"c", "s"} {
		k.block(y, false)
	}
	k.quiet()
	time.Sleep(2 * time.Second)
	k.quiet()
	// end
	w.Log(sim.Ev{"e": "Stop", "by": "c"})
	k.mu.Lock()
	k.stop = true
	k.mu.Unlock()
	k.cli.Stop()
	k.quiet()
	w.Log(sim.Ev{"e": "Stop", "by": "S"})
	k.srv.Stop()
	k.quiet()
	time.Sleep(2 * time.Second)
	k.quiet()
	k.mu.Lock()
	k.end = true
	k.cond.Broadcast()
	k.mu.Unlock()
	<-served
	w.Settle()
}

func (k *stWorld) setup(h arpc.Handler, y string) {
	sc, w := k.sc, k.w
	h.SetBatchSend(sc.flag("batch"))
	h.SetSendBufferSize(sc.num("sbuf"))
	h.SetBatchRecv(sc.flag("brecv"))
	h.SetAsyncWrite(!sc.flag("direct"))
	h.SetSendQueueSize(sc.num("q"))
	h.SetStreamQueueSize(sc.num("sq"))
	if sc.flag("pool") {
		h.EnablePool(true)
	}
	if cod := newWireCoder(sc.str("coder"), w); cod != nil {
		h.UseCoder(cod)
	}
	if sc.flag("exec") {
		h.SetAsyncExecutor(func(f func()) {
			go func() { w.Jit(); util.Safe(f) }()
		})
	}
	for _, m := range []string{"/st0", "/st1", "/stsync"} {
		m := m
		if m == "/stsync" {
			h.HandleStream(m, func(s *arpc.Stream) { k.started(s, y, m) }, false)
		} else {
			h.HandleStream(m, func(s *arpc.Stream) { k.started(s, y, m) })
		}
	}
	h.Handle("/echo", func(ctx *arpc.Context) {
		var s string
		ctx.Bind(&s)
		ctx.Write("e" + s)
	}, sc.flag("aecho"))
}

func (k *stWorld) started(s *arpc.Stream, y, m string) {
	k.mu.Lock()
	x := k.ids[fmt.Sprintf("%s:%d", opp(y), s.Id())]
	if k.meth[x] != m {
		x = 0
	}
	e := k.ends[fmt.Sprintf("%d%s", x, y)]
	again := e != nil && e.obj != nil
	k.w.Log(sim.Ev{"e": "Start", "x": x, "by": y})
	if again || x == 0 {
		k.mu.Unlock()
		s.CloseRecv()
		return
	}
	k.bind(x, y, s)
	pan := k.sc.num("panicx") == x
	if pan {
		k.w.Log(sim.Ev{"e": "Panic", "x": x})
	}
	k.mu.Unlock()
	if pan {
		panic("user panic")
	}
}

// bind starts the two workers of an end (under mu).
func (k *stWorld) bind(x int, y string, s *arpc.Stream) {
	e := k.endOf(x, y)
	e.obj = s
	go k.sender(e)
	go k.receiver(e)
	k.cond.Broadcast()
}

func (k *stWorld) endOf(x int, y string) *stEnd {
	key := fmt.Sprintf("%d%s", x, y)
	e := k.ends[key]
	if e == nil {
		e = &stEnd{x: x, by: y}
		k.ends[key] = e
	}
	return e
}

func (k *stWorld) next(q *[]Step) (Step, bool) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for len(*q) == 0 && !k.end {
		k.cond.Wait()
	}
	if len(*q) == 0 || k.end {
		return nil, false
	}
	st := (*q)[0]
	*q = (*q)[1:]
	return st, true
}

func tmoOf(st Step) (int, context.Context, context.CancelFunc) {
	if _, ok := st["tmo"]; !ok {
		return -1, context.Background(), func() {}
	}
	n := st.num("tmo")
	ctx, c := context.WithTimeout(context.Background(), time.Duration(n)*time.Millisecond)
	return n, ctx, c
}

func stErr(err error) string {
	switch err {
	case arpc.ErrStreamClosedSend:
		return "closed"
	case io.EOF:
		return "eof"
	}
	n, _ := errName(err)
	return n
}

func (k *stWorld) sender(e *stEnd) {
	for {
		st, ok := k.next(&e.sq)
		if !ok {
			return
		}
		tmo, ctx, cancel := tmoOf(st)
		switch st.str("a") {
		case "send":
			k.mu.Lock()
			n := len(e.vals) + 1
			kind := st.str("vk")
			pay := sim.Payload(fmt.Sprintf("x%d.%s.%d", e.x, e.by, n), st.num("size"))
			if kind == "empty" {
				pay = ""
			}
			e.vals = append(e.vals, stVal{raw: rawVal(kind, pay), kind: kind})
			k.mu.Unlock()
			eof := st.flag("eof")
			v := mkVal(kind, pay)
			k.w.Log(sim.Ev{"e": "SendB", "x": e.x, "by": e.by, "n": n, "tmo": tmo, "eof": eof})
			var err error
			switch {
			case eof && tmo >= 0:
				err = e.obj.SendAndCloseContext(ctx, v)
			case eof:
				err = e.obj.SendAndClose(v)
			case tmo >= 0:
				err = e.obj.SendContext(ctx, v)
			default:
				err = e.obj.Send(v)
			}
			if err != nil {
				k.mu.Lock()
				e.vals[n-1].fail = !eof
				k.mu.Unlock()
			}
			k.w.Log(sim.Ev{"e": "SendE", "x": e.x, "by": e.by, "n": n, "res": stErr(err)})
		case "cls":
			k.w.Log(sim.Ev{"e": "ClsB", "x": e.x, "by": e.by, "tmo": tmo})
			if tmo >= 0 {
				e.obj.CloseSendContext(ctx)
			} else {
				e.obj.CloseSend()
			}
			k.w.Log(sim.Ev{"e": "ClsE", "x": e.x, "by": e.by})
		}
		cancel()
		k.w.Jit()
	}
}

func (k *stWorld) receiver(e *stEnd) {
	for {
		st, ok := k.next(&e.rq)
		if !ok {
			return
		}
		tmo, ctx, cancel := tmoOf(st)
		e.nr++
		k.w.Log(sim.Ev{"e": "RecvB", "x": e.x, "by": e.by, "k": e.nr, "tmo": tmo})
		var raw []byte
		var err error
		var str string
		var dst interface{} = &raw
		if st.str("vk") == "str" {
			dst = &str
		}
		if tmo >= 0 {
			err = e.obj.RecvContext(ctx, dst)
		} else {
			err = e.obj.Recv(dst)
		}
		cancel()
		if st.str("vk") == "str" {
			raw = []byte(str)
		}
		res, n := stErr(err), 0
		if err == nil {
			res, n = k.classify(e, append([]byte(nil), raw...))
		}
		k.w.Log(sim.Ev{"e": "RecvE", "x": e.x, "by": e.by, "k": e.nr, "res": res, "n": n})
		k.w.Jit()
	}
}

// classify finds which value of the other end this is.
func (k *stWorld) classify(e *stEnd, raw []byte) (string, int) {
	k.mu.Lock()
	defer k.mu.Unlock()
	o := k.endOf(e.x, opp(e.by))
	if len(raw) == 0 {
		for i := e.got; i < len(o.vals); i++ {
			if o.vals[i].kind == "empty" && !o.vals[i].fail {
				e.got = i + 1
				return "val", i + 1
			}
		}
		return "bad", 0
	}
	var x, n int
	var y string
	if c, _ := fmt.Sscanf(unraw(raw), "x%d.%1s.%d", &x, &y, &n); c == 3 && x == e.x && y == o.by && n >= 1 && n <= len(o.vals) && bytes.Equal(raw, o.vals[n-1].raw) {
		if n > e.got {
			e.got = n
		}
		return "val", n
	}
	return "bad", 0
}

func (k *stWorld) pipe() *sim.Pipe {
	ps := k.n.All()
	return ps[len(ps)-1]
}

func (k *stWorld) block(y string, on bool) {
	p := k.pipe()
	c := p.A
	if y == "s" {
		c = p.B
	}
	k.w.Log(sim.Ev{"e": "Block", "by": y, "on": on})
	c.BlockW(on)
}

func (k *stWorld) quiet() {
	k.w.Settle()
	k.w.Log(sim.Ev{"e": "Quiet"})
}

func (k *stWorld) client(y string) *arpc.Client {
	k.mu.Lock()
	defer k.mu.Unlock()
	if y == "c" {
		return k.cli
	}
	return k.sc1[k.ep]
}

// up waits until a lost connection is replaced.
func (k *stWorld) up() bool {
	k.mu.Lock()
	d, s := k.down, k.stop
	k.mu.Unlock()
	if s {
		return false
	}
	if d || k.client("s") == nil {
		k.w.Settle()
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	return !k.down && k.sc1[k.ep] != nil && k.cli.CheckState() == nil
}

func (k *stWorld) step(st Step) {
	x, y := st.num("x"), st.str("by")
	switch st.str("a") {
	case "open":
		if !k.up() {
			return
		}
		c := k.client(y)
		k.mu.Lock()
		k.meth[x] = st.str("m")
		k.w.Log(sim.Ev{"e": "Open", "x": x, "by": y})
		s := c.NewStream(st.str("m"))
		k.ids[fmt.Sprintf("%s:%d", y, s.Id())] = x
		k.bind(x, y, s)
		k.mu.Unlock()
	case "send", "cls":
		k.mu.Lock()
		if k.meth[x] != "" {
			e := k.endOf(x, y)
			e.sq = append(e.sq, st)
			k.cond.Broadcast()
		}
		k.mu.Unlock()
	case "recv":
		k.mu.Lock()
		if k.meth[x] != "" {
			e := k.endOf(x, y)
			e.rq = append(e.rq, st)
			k.cond.Broadcast()
		}
		k.mu.Unlock()
	case "clr":
		k.mu.Lock()
		e := k.endOf(x, y)
		o := e.obj
		k.mu.Unlock()
		if o != nil {
			k.w.Log(sim.Ev{"e": "ClrB", "x": x, "by": y})
			o.CloseRecv()
		}
	case "block":
		k.block(y, st.flag("on"))
	case "drop":
		if !k.up() {
			return
		}
		p := k.pipe()
		k.mu.Lock()
		k.down = true
		k.mu.Unlock()
		k.w.Log(sim.Ev{"e": "Drop"})
		p.A.BlockW(false)
		p.B.BlockW(false)
		k.w.Log(sim.Ev{"e": "Block", "by": "c", "on": false})
		k.w.Log(sim.Ev{"e": "Block", "by": "s", "on": false})
		p.Cut(st.flag("reset"))
	case "stop":
		if !k.up() {
			return
		}
		c := k.client(y)
		k.mu.Lock()
		k.down = true
		if y == "c" {
			k.stop = true
		}
		k.mu.Unlock()
		k.w.Log(sim.Ev{"e": "Block", "by": "c", "on": false})
		k.w.Log(sim.Ev{"e": "Block", "by": "s", "on": false})
		k.w.Log(sim.Ev{"e": "Stop", "by": y})
		p := k.pipe()
		p.A.BlockW(false)
		p.B.BlockW(false)
		c.Stop()
	case "call":
		if !k.up() {
			return
		}
		c := k.client(y)
		k.ncall++
		n := k.ncall
		k.w.Log(sim.Ev{"e": "CallB", "k": n, "by": y})
		go func() {
			var r string
			v := fmt.Sprintf("c%d", n)
			err := c.Call("/echo", v, &r, 10*time.Minute)
			res := stErr(err)
			if err == nil && r != "e"+v {
				res = "bad"
			}
			k.w.Log(sim.Ev{"e": "CallE", "k": n, "by": y, "res": res})
		}()
	}
}
