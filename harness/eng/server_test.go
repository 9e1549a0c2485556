package eng

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/util"
)

func init() { engines["server"] = runServer }

type srvWr struct {
	raw []byte
	err bool
}

type srvOp struct {
	o      int
	c      *sim.Conn
	k      string
	method string
	raw    []byte
	seq    uint64
	async  bool
	acts   map[string]any
	gate   bool
	nw     int
	wr     map[int]*srvWr
	late   int
}

type srvWorld struct {
	w     *sim.World
	sc    *Scenario
	s     *arpc.Server
	ln    *sim.Listener
	mu    sync.Mutex
	cond  *sync.Cond
	conns map[int]*sim.Conn
	tails map[int]func()
	ops   map[int]*srvOp
	bseq  map[string]uint64
	bcast map[int][]byte
	scall map[int][]byte
	open  map[int]bool
	all   bool // every gate is open
	cgate bool
	cli   map[int]*arpc.Client
	cod   wireCoder
}

func connID(c *arpc.Client) int {
	if x, ok := c.Conn.(*sim.Conn); ok {
		return x.ID
	}
	return 0
}

func runServer(w *sim.World, sc *Scenario) {
	k := &srvWorld{w: w, sc: sc, conns: map[int]*sim.Conn{}, tails: map[int]func(){}, ops: map[int]*srvOp{}, bcast: map[int][]byte{}, scall: map[int][]byte{}, open: map[int]bool{}, cli: map[int]*arpc.Client{}}
	k.cond = sync.NewCond(&k.mu)
	k.s = arpc.NewServer()
	k.s.Codec = jitCodec{w}
	k.s.MaxLoad = int64(sc.num("maxload"))
	h := k.s.Handler
	h.SetBatchSend(sc.flag("batch"))
	h.SetSendBufferSize(sc.num("sbuf"))
	h.SetBatchRecv(sc.flag("brecv"))
	h.SetAsyncWrite(!sc.flag("direct"))
	h.SetSendQueueSize(sc.num("q"))
	if n := sc.num("maxbody"); n > 0 {
		h.SetMaxBodyLen(n)
	}
	if sc.flag("pool") {
		h.EnablePool(true)
	}
	k.cod = newWireCoder(sc.str("coder"), w)
	if k.cod != nil {
		h.UseCoder(k.cod)
	}
	if sc.flag("exec") {
		h.SetAsyncExecutor(func(f func()) {
			go func() { w.Jit(); util.Safe(f) }()
		})
	}
	h.HandleConnected(func(c *arpc.Client) {
		w.Log(sim.Ev{"e": "OnConn", "c": connID(c)})
		k.mu.Lock()
		k.cli[connID(c)] = c
		for k.cgate {
			k.cond.Wait()
		}
		k.mu.Unlock()
		w.Jit()
		w.Log(sim.Ev{"e": "OnConnRet", "c": connID(c)})
	})
	h.HandleDisconnected(func(c *arpc.Client) {
		w.Log(sim.Ev{"e": "OnDisc", "c": connID(c)})
	})
	prog, _ := sc.Cfg["prog"].([]any)
	for _, p := range prog {
		r := Step(p.(map[string]any))
		n := r.str("n")
		f := func(ctx *arpc.Context) { k.element(ctx, n) }
		switch r.str("t") {
		case "u":
			h.Use(f)
		case "h":
			h.Handle(r.str("m"), f, r.flag("as"))
		case "nf":
			h.HandleNotFound(f)
		}
	}
	k.ln = w.NewListener()
	k.ln.OnAccept = func(c net.Conn) { w.Log(sim.Ev{"e": "Acc", "c": c.(*sim.Conn).ID}) }
	k.ln.OnError = func(error) { w.Log(sim.Ev{"e": "AccErr"}) }
	go func() {
		k.s.Serve(k.ln)
		w.Log(sim.Ev{"e": "ServeRet"})
	}()
	w.Settle()

	for _, st := range sc.Steps {
		if d := st.num("dt"); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
			k.quiet(false)
		} else if st.flag("q") {
			k.quiet(false)
		}
		k.step(st)
	}
	k.quiet(false)
	k.mu.Lock()
	k.all = true
	k.cgate = false
	k.cond.Broadcast()
	cs := k.list()
	k.mu.Unlock()
	for _, c := range cs {
		k.block(c, false)
	}
	k.quiet(false)
	time.Sleep(200 * time.Millisecond)
	k.quiet(false)
	if !k.ln.Closed() {
		k.srvstop("shut", 3000)
		k.quiet(false)
	}
	time.Sleep(5 * time.Second)
	k.quiet(true)
}

func (k *srvWorld) list() (cs []*sim.Conn) {
	for _, c := range k.conns {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	return
}

func (k *srvWorld) conn(id int) *sim.Conn { k.mu.Lock(); defer k.mu.Unlock(); return k.conns[id] }

func (k *srvWorld) block(c *sim.Conn, on bool) {
	k.w.Log(sim.Ev{"e": "BlockW", "c": c.ID, "on": on})
	c.BlockW(on)
}

func (k *srvWorld) quiet(final bool) {
	k.w.Settle()
	mem := []int{}
	k.s.ForEach(func(c *arpc.Client) { mem = append(mem, connID(c)) })
	sort.Ints(mem)
	un, par := []int{}, []int{}
	k.mu.Lock()
	cs := k.list()
	k.mu.Unlock()
	for _, c := range cs {
		u, p, closed, _, _ := c.State()
		if u > 0 && !closed {
			un = append(un, c.ID)
		}
		if p > 0 {
			par = append(par, c.ID)
		}
	}
	k.w.Log(sim.Ev{"e": "Quiet", "mem": mem, "load": int(atomic.LoadInt64(&k.s.CurrLoad)), "un": un, "par": par, "lnclosed": k.ln.Closed(), "final": final})
}

func (k *srvWorld) srvstop(kind string, tmo int) {
	k.w.Log(sim.Ev{"e": "SrvStop", "k": kind, "tmo": tmo})
	go func() {
		var err error
		if kind == "shut" {
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(tmo)*time.Millisecond)
			defer cancel()
			err = k.s.Shutdown(ctx)
		} else {
			err = k.s.Stop()
		}
		res, _ := errName(err)
		k.w.Log(sim.Ev{"e": "SrvStopRet", "res": res})
	}()
}

// element is every middleware and handler.
func (k *srvWorld) element(ctx *arpc.Context, name string) {
	var o int
	fmt.Sscanf(unraw(ctx.Body()), "q%d", &o)
	k.mu.Lock()
	op := k.ops[o]
	k.mu.Unlock()
	if op == nil {
		k.w.Log(sim.Ev{"e": "El", "o": 0, "n": name, "vis": []string{}, "ok": false, "cok": true})
		return
	}
	vis := []string{}
	for key := range ctx.Values() {
		vis = append(vis, fmt.Sprint(key))
	}
	sort.Strings(vis)
	cmd := map[string]byte{"req": arpc.CmdRequest, "ntf": arpc.CmdNotify}[op.k]
	ok := ctx.Message.Method() == op.method && bytes.Equal(ctx.Body(), op.raw) && ctx.Message.Cmd() == cmd && ctx.Message.Seq() == op.seq
	k.w.Log(sim.Ev{"e": "El", "o": o, "n": name, "vis": vis, "ok": ok, "cok": connID(ctx.Client) == op.c.ID})
	defer func() { k.w.Log(sim.Ev{"e": "ElEnd", "o": o, "n": name}) }()
	k.w.Jit()
	list, _ := op.acts[name].([]any)
	for _, x := range list {
		k.act(ctx, op, name, Step(x.(map[string]any)))
	}
}

func (k *srvWorld) act(ctx *arpc.Context, op *srvOp, name string, a Step) {
	switch a.str("a") {
	case "set":
		ctx.Set(name, "v"+name)
		k.w.Log(sim.Ev{"e": "Set", "o": op.o, "n": name})
	case "abort":
		k.w.Log(sim.Ev{"e": "Abort", "o": op.o})
		ctx.Abort()
	case "next":
		k.w.Log(sim.Ev{"e": "Next", "o": op.o})
		ctx.Next()
	case "panic":
		k.w.Log(sim.Ev{"e": "Panic", "o": op.o})
		panic("user panic")
	case "gate":
		k.mu.Lock()
		if !k.open[op.o] && !k.all {
			k.w.Log(sim.Ev{"e": "Gate", "o": op.o, "on": true})
			for !k.open[op.o] && !k.all {
				k.cond.Wait()
			}
			k.w.Log(sim.Ev{"e": "Gate", "o": op.o, "on": false})
		}
		k.mu.Unlock()
	case "stopcli":
		k.w.Log(sim.Ev{"e": "StopCli", "c": op.c.ID})
		ctx.Client.Stop()
	case "w":
		k.write(ctx, op, a)
	case "late":
		go func() {
			time.Sleep(time.Duration(a.num("d")) * time.Millisecond)
			k.write(ctx, op, a)
		}()
	}
}

func (k *srvWorld) write(ctx *arpc.Context, op *srvOp, a Step) {
	k.mu.Lock()
	op.nw++
	n := op.nw
	kind := a.str("vk")
	pay := sim.Payload(fmt.Sprintf("p%d.%d", op.o, n), a.num("size"))
	if a.str("vk") == "nil" {
		pay = ""
	}
	wr := &srvWr{raw: rawVal(kind, pay), err: a.str("mode") == "error" || kind == "err"}
	v := mkVal(kind, pay)
	if kind == "nil" {
		v = nil
		wr.err = false
		n += 1000 * 0
	}
	op.wr[n] = wr
	k.mu.Unlock()
	tmo := -1
	if _, ok := a["tmo"]; ok {
		tmo = a.num("tmo")
	}
	k.w.Log(sim.Ev{"e": "W", "o": op.o, "n": n, "err": wr.err, "tmo": tmo})
	var err error
	switch {
	case a.str("mode") == "error":
		err = ctx.Error(v)
	case tmo >= 0:
		err = ctx.WriteWithTimeout(v, time.Duration(tmo)*time.Millisecond)
	default:
		err = ctx.Write(v)
	}
	res, _ := errName(err)
	if err == arpc.ErrContextResponseToNotify {
		res = "notify"
	}
	k.w.Log(sim.Ev{"e": "WRet", "o": op.o, "n": n, "res": res})
}

func (k *srvWorld) onFrame(c *sim.Conn, b []byte) {
	if k.cod != nil {
		b = k.cod.undo(b)
	}
	f := sim.Parse(b)
	k.mu.Lock()
	defer k.mu.Unlock()
	clean := f.OK && f.Reserved == 0 && f.FlagRest == 0 && !f.Local && !f.EOF
	ev := sim.Ev{"e": "Out", "c": c.ID, "k": "other", "o": 0, "n": 0, "ok": clean}
	bySeq := func() *srvOp {
		for _, op := range k.ops {
			if op.c == c && op.seq == f.Seq {
				return op
			}
		}
		return nil
	}
	switch f.Cmd {
	case sim.CmdPong:
		ev["k"] = "pong"
		ev["ok"] = clean && len(f.Data) == 0 && f.Method == ""
	case sim.CmdRsp:
		ev["k"] = "rsp"
		tok := unraw(f.Data)
		var o, n int
		if string(f.Data) == arpc.ErrMethodNotFound.Error() {
			op := bySeq()
			if op != nil {
				ev["o"] = op.o
				ev["ok"] = clean && f.Err && f.Async == op.async && f.Method == op.method
			}
			break
		}
		fmt.Sscanf(tok, "p%d.%d", &o, &n)
		op := k.ops[o]
		if len(f.Data) == 0 {
			// an empty value: found by its sequence number and order
			if op = bySeq(); op != nil {
				o = op.o
				for i := 1; i <= op.nw; i++ {
					if wr := op.wr[i]; wr != nil && len(wr.raw) == 0 {
						n = i
						delete(op.wr, i)
						op.wr[-i] = wr
						break
					}
				}
			}
		}
		ev["o"], ev["n"] = o, n
		if n == 0 {
			ev["n"] = 999
		}
		if op != nil {
			wr := op.wr[n]
			if wr == nil {
				wr = op.wr[-n]
			}
			ev["ok"] = clean && wr != nil && bytes.Equal(f.Data, wr.raw) && f.Err == wr.err && f.Seq == op.seq && f.Async == op.async && f.Method == op.method
		}
	case sim.CmdNotify:
		var n int
		if _, err := fmt.Sscanf(unraw(f.Data), "b%d", &n); err == nil || f.Method == "/bc" {
			ev["k"], ev["n"] = "bc", n
			ev["ok"] = clean && f.Method == "/bc" && bytes.Equal(f.Data, k.bcast[n]) && !f.Err && !f.Async
		}
	case sim.CmdReq:
		var n int
		if _, err := fmt.Sscanf(unraw(f.Data), "s%d", &n); err == nil {
			ev["k"], ev["n"] = "sc", n
			ev["ok"] = clean && f.Method == "/sc" && bytes.Equal(f.Data, k.scall[n])
		}
	}
	k.w.Log(ev)
}

// feed sends bytes on c after whatever was held back there.
func (k *srvWorld) feed(c *sim.Conn, b []byte, cut int, done func()) {
	if c.Dropped() {
		return
	}
	if t := k.tails[c.ID]; t != nil {
		delete(k.tails, c.ID)
		t()
	}
	if cut > 0 && cut < len(b) {
		c.Feed(b[:cut])
		k.tails[c.ID] = func() { done(); c.Feed(b[cut:]) }
		return
	}
	done()
	c.Feed(b)
}

func (k *srvWorld) step(st Step) {
	w := k.w
	id := st.num("c")
	c := k.conn(id)
	a := st.str("a")
	switch a {
	case "conn":
		if c != nil {
			return
		}
		c = w.NewConn(id)
		c.SetChunk(k.sc.num("chunk"))
		c.OnFrame = k.onFrame
		k.mu.Lock()
		k.conns[id] = c
		k.mu.Unlock()
		w.Log(sim.Ev{"e": "Conn", "c": id})
		if !k.ln.Push(net.Conn(c)) {
			k.mu.Lock()
			delete(k.conns, id)
			k.mu.Unlock()
		}
		return
	case "accerr":
		k.ln.Push(sim.TempErr{})
		return
	case "open":
		k.mu.Lock()
		k.open[st.num("o")] = true
		k.cond.Broadcast()
		k.mu.Unlock()
		return
	case "gateconn":
		k.mu.Lock()
		k.cgate = st.flag("on")
		k.cond.Broadcast()
		k.mu.Unlock()
		return
	case "srvstop":
		if !k.ln.Closed() {
			k.srvstop(st.str("k"), st.num("tmo"))
		}
		return
	case "bcast":
		n := st.num("b")
		pay := sim.Payload(fmt.Sprintf("b%d", n), st.num("size"))
		kind := st.str("vk")
		f := []int{}
		if fl, ok := st["f"].([]any); ok {
			for _, x := range fl {
				f = append(f, int(x.(float64)))
			}
		}
		k.mu.Lock()
		k.bcast[n] = rawVal(kind, pay)
		k.mu.Unlock()
		w.Log(sim.Ev{"e": "Bcast", "b": n, "f": f, "all": st.flag("all")})
		go func() {
			if st.flag("all") && st.flag("plain") {
				k.s.Broadcast("/bc", mkVal(kind, pay))
			} else if st.flag("all") {
				k.s.BroadcastWithFilter("/bc", mkVal(kind, pay), nil)
			} else {
				k.s.BroadcastWithFilter("/bc", mkVal(kind, pay), func(cl *arpc.Client) bool {
					for _, x := range f {
						if x == connID(cl) {
							return true
						}
					}
					return false
				})
			}
			w.Log(sim.Ev{"e": "BRet", "b": n})
		}()
		return
	case "adv":
		return
	}
	if c == nil {
		return
	}
	switch a {
	case "in":
		o := st.num("o")
		if k.ops[o] != nil {
			return
		}
		acts, _ := st["acts"].(map[string]any)
		op := &srvOp{o: o, c: c, k: st.str("k"), method: st.str("m"), acts: acts, wr: map[int]*srvWr{}, async: st.flag("async")}
		if l := st.num("mlen"); l > len(op.method) {
			op.method += strings.Repeat("x", l-len(op.method))
		}
		op.raw = rawVal(st.str("vk"), sim.Payload(fmt.Sprintf("q%d", o), st.num("size")))
		op.seq = uint64(o)*uint64(1+st.num("smul")) + uint64(st.num("sadd"))<<32
		f := sim.Frame{Cmd: sim.CmdReq, Seq: op.seq, Method: op.method, Data: op.raw, Async: op.async, FlagRest: byte(st.num("frest")) &^ 3}
		if op.k == "ntf" {
			f.Cmd = sim.CmdNotify
		}
		if mb := k.sc.num("maxbody"); mb > 0 && st.flag("exact") {
			// exactly the largest body allowed
			for len(f.Method)+len(f.Data) < mb {
				f.Data = rawVal("str", sim.Payload(fmt.Sprintf("q%d", o), mb-len(f.Method)))
				op.raw = f.Data
			}
		}
		if mb := k.sc.num("maxbody"); mb > 0 {
			for n := st.num("size"); len(f.Method)+len(f.Data) > mb; {
				n /= 2
				f.Data = rawVal(st.str("vk"), sim.Payload(fmt.Sprintf("q%d", o), n))
				op.raw = f.Data
			}
		}
		b := f.Bytes()
		if k.cod != nil {
			b = k.cod.do(b)
		}
		k.mu.Lock()
		k.ops[o] = op
		k.mu.Unlock()
		k.feed(c, b, st.num("cut"), func() {
			w.Log(sim.Ev{"e": "In", "c": id, "o": o, "k": op.k, "m": op.method})
		})
	case "bad":
		k.bad(c, st)
	case "ping":
		k.feed(c, sim.Frame{Cmd: sim.CmdPing}.Bytes(), 0, func() { w.Log(sim.Ev{"e": "Ping", "c": id}) })
	case "drop":
		if c.Dropped() {
			return
		}
		delete(k.tails, id)
		w.Log(sim.Ev{"e": "Drop", "c": id})
		c.Drop(st.flag("reset"))
	case "wkill":
		w.Log(sim.Ev{"e": "WKill", "c": id})
		if n := st.num("n"); n > 0 {
			c.FailWriteAt(n)
		} else {
			c.KillWrites()
		}
	case "blockw":
		k.block(c, st.flag("on"))
	case "stopcli":
		k.mu.Lock()
		cl := k.cli[id]
		k.mu.Unlock()
		if cl != nil {
			w.Log(sim.Ev{"e": "StopCli", "c": id})
			if st.flag("conc") {
				go cl.Stop()
			} else {
				cl.Stop()
			}
		}
	case "scall":
		k.mu.Lock()
		cl := k.cli[id]
		n := st.num("n")
		if cl == nil || k.scall[n] != nil {
			k.mu.Unlock()
			return
		}
		pay := sim.Payload(fmt.Sprintf("s%d", n), st.num("size"))
		k.scall[n] = []byte(pay)
		k.mu.Unlock()
		w.Log(sim.Ev{"e": "SCall", "c": id, "n": n})
		go func() {
			err := cl.Call("/sc", pay, nil, 60*time.Second)
			res, _ := errName(err)
			w.Log(sim.Ev{"e": "SRet", "n": n, "res": res})
		}()
	default:
		panic("server step " + a)
	}
}

func (k *srvWorld) bad(c *sim.Conn, st Step) {
	why := st.str("why")
	f := sim.Frame{Cmd: sim.CmdReq, Seq: 9000, Method: "/bad", Data: []byte(sim.Payload("q0", st.num("size")))}
	fatal := false
	var b []byte
	switch why {
	case "toolong": // only the length is sent, the body never comes
		b = f.Bytes()[:16]
		n := k.sc.num("maxbody") + 1 + st.num("n")
		b[0], b[1], b[2], b[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
		b = b[:4+12*(st.num("n")%2)]
		fatal = true
	case "huge":
		b = []byte{0xff, 0xff, 0xff, 0xff}
		fatal = true
	case "badcmd":
		f.Cmd = byte([]int{0, 7, 8, 63}[st.num("n")%4])
		b = f.Bytes()
		fatal = true
	case "ml0":
		f.Method = ""
		b = f.Bytes()
	case "mlbig": // longer than the body
		b = f.Bytes()
		b = b[:16+len(f.Method)]
		b[0], b[1], b[2], b[3] = byte(len(f.Method)), 0, 0, 0
		b[7] = byte(len(f.Method) + 1 + st.num("n")%100)
	case "ml128": // longer than a method may be, within the body
		f.Data = []byte(strings.Repeat("z", 400))
		b = f.Bytes()
		b[7] = byte(128 + st.num("n")%128)
	case "empty": // no body at all
		b = f.Bytes()[:16]
		b[0], b[1], b[2], b[3] = 0, 0, 0, 0
		b[7] = byte(st.num("n") % 3)
	case "rsp":
		f.Cmd = sim.CmdRsp
		f.Async = st.num("n")%2 == 1
		b = f.Bytes()
	case "stream":
		f.Cmd = sim.CmdStream
		f.Local = st.num("n")%2 == 1
		f.EOF = st.num("n")%3 == 1
		b = f.Bytes()
	case "pong":
		b = sim.Frame{Cmd: sim.CmdPong}.Bytes()
	case "unknown": // a notification nobody handles, with odd flags
		f.Cmd = sim.CmdPong
		f.FlagRest = byte(st.num("n")) &^ 3
		f.Reserved = byte(st.num("n"))
		b = f.Bytes()
	default:
		panic("bad " + why)
	}
	done := func() { k.w.Log(sim.Ev{"e": "Bad", "c": c.ID, "why": why, "fatal": fatal}) }
	k.feed(c, b, 0, done)
}

var errWire = errors.New("wire")

// wireCoder is a coder together with an independent statement of what it does to a frame.
type wireCoder interface {
	arpc.MessageCoder
	do(frame []byte) []byte
	undo(frame []byte) []byte
}

// xorCoder changes the payload in place: encoding twice is visible.
type xorCoder struct{ w *sim.World }

func (x xorCoder) flip(b []byte, d byte) {
	for i := 16 + int(b[7]); i < len(b); i++ {
		b[i] += d
	}
}
func (x xorCoder) Encode(_ *arpc.Client, m *arpc.Message) *arpc.Message {
	x.flip(m.Buffer, 1)
	return m
}
func (x xorCoder) Decode(_ *arpc.Client, m *arpc.Message) *arpc.Message {
	if len(m.Buffer) >= 16 {
		x.flip(m.Buffer, 255)
	}
	return m
}
func (x xorCoder) do(b []byte) []byte   { b = append([]byte(nil), b...); x.flip(b, 1); return b }
func (x xorCoder) undo(b []byte) []byte { b = append([]byte(nil), b...); x.flip(b, 255); return b }

func newWireCoder(kind string, w *sim.World) wireCoder {
	switch kind {
	case "xor":
		return xorCoder{w}
	}
	return nil
}
