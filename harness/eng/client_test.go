package eng

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/util"
)

func init() { engines["client"] = runClient }

// Val is a structured value passed through the codec.
type Val struct {
	S string
	N []int `json:",omitempty"`
}

type jitCodec struct{ w *sim.World }

func (c jitCodec) Marshal(v interface{}) ([]byte, error) {
	c.w.Jit()
	return json.Marshal(v)
}
func (c jitCodec) Unmarshal(b []byte, v interface{}) error {
	return json.Unmarshal(b, v)
}

// jitCoder is an identity coder which is only a seam.
type jitCoder struct{ w *sim.World }

func (c jitCoder) Encode(_ *arpc.Client, m *arpc.Message) *arpc.Message { c.w.Jit(); return m }
func (c jitCoder) Decode(_ *arpc.Client, m *arpc.Message) *arpc.Message { c.w.Jit(); return m }

// errName names an error by identity, so that remote texts cannot be mistaken.
func errName(err error) (string, string) {
	switch err {
	case nil:
		return "ok", ""
	case arpc.ErrClientTimeout, arpc.ErrTimeout:
		return "timeout", ""
	case arpc.ErrClientOverstock:
		return "overstock", ""
	case arpc.ErrClientReconnecting:
		return "reconnecting", ""
	case arpc.ErrClientStopped:
		return "stopped", ""
	case arpc.ErrClientInvalidTimeoutZero, arpc.ErrClientInvalidTimeoutLessThanZero, arpc.ErrClientInvalidAsyncHandler:
		return "badarg", ""
	}
	s := err.Error()
	if strings.HasPrefix(s, "RE:") {
		return "remote", sim.Token(s[3:])
	}
	if strings.HasPrefix(s, "invalid method length") {
		return "badmethod", ""
	}
	return "other", s
}

// mkVal builds the request value of the given kind.
func mkVal(kind, s string) interface{} {
	switch kind {
	case "pstr":
		return &s
	case "bytes":
		return []byte(s)
	case "pbytes":
		b := []byte(s)
		return &b
	case "struct":
		return Val{S: s}
	case "pstruct":
		return &Val{S: s}
	case "err":
		return errors.New(s)
	}
	return s
}

// rawVal is what mkVal must look like on the wire.
func rawVal(kind, s string) []byte {
	switch kind {
	case "struct", "pstruct":
		b, _ := json.Marshal(Val{S: s})
		return b
	}
	return []byte(s)
}

// unraw gets the token out of wire data.
func unraw(data []byte) string {
	if len(data) > 0 && data[0] == '{' {
		var v Val
		if json.Unmarshal(data, &v) == nil && v.N == nil {
			return sim.Token(v.S)
		}
	}
	return sim.Token(string(data))
}

func methodOf(o, mlen int) string {
	m := fmt.Sprintf("/m%d", o)
	for len(m) < mlen {
		m += string(rune('a' + (len(m)+o)%26))
	}
	return m
}

type cliOp struct {
	o      int
	kind   string
	vk     string
	rk     string
	size   int
	tmo    int
	method string
	raw    []byte
	cancel context.CancelFunc
	out    bool
	outC   *sim.Conn
	seq    uint64
	async  bool
	nrep   int
	t0     time.Time
}

type cliWorld struct {
	w    *sim.World
	sc   *Scenario
	c    *arpc.Client
	h    arpc.Handler
	mu   sync.Mutex
	cond *sync.Cond
	ops  map[int]*cliOp
	cur  *sim.Conn
	nc   int
	mode string // dial mode: ok, fail, hold
	held int
	srv  *arpc.Server
	ln   *sim.Listener
	blk  bool
}

func (k *cliWorld) newConn() *sim.Conn {
	k.nc++
	c := k.w.NewConn(k.nc)
	c.SetChunk(k.sc.num("chunk"))
	c.OnFrame = k.onFrame
	return c
}

func clampSeq(s uint64) int {
	if s > 1<<30 {
		return int(s%(1<<20)) + 1<<30
	}
	return int(s)
}

func (k *cliWorld) onFrame(c *sim.Conn, b []byte) {
	f := sim.Parse(b)
	tok := unraw(f.Data)
	var o int
	fmt.Sscanf(tok, "q%d", &o)
	k.mu.Lock()
	op := k.ops[o]
	ev := sim.Ev{"e": "Out", "c": c.ID, "o": o, "seq": clampSeq(f.Seq), "cmd": int(f.Cmd), "async": f.Async, "err": f.Err,
		"clean": f.OK && f.Reserved == 0 && f.FlagRest == 0 && !f.Local && !f.EOF, "mok": false, "dok": false}
	if op != nil {
		ev["mok"] = f.Method == op.method
		ev["dok"] = string(f.Data) == string(op.raw)
		if !op.out {
			op.out = true
			op.seq = f.Seq
			op.async = f.Async
			op.outC = c
		}
	} else {
		ev["o"] = 0
	}
	k.mu.Unlock()
	k.w.Log(ev)
}

func (k *cliWorld) dial() (net.Conn, error) {
	k.mu.Lock()
	id := k.nc + 1
	k.w.Log(sim.Ev{"e": "Dial", "c": id})
	for k.mode == "hold" {
		k.held++
		k.cond.Wait()
		k.held--
	}
	ok := k.mode == "ok"
	k.mu.Unlock()
	k.w.Jit()
	if !ok {
		k.w.Log(sim.Ev{"e": "DialRet", "c": id, "ok": false})
		return nil, errors.New("dial refused")
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	c := k.newConn()
	k.cur = c
	c.BlockW(k.blk) // nobody else knows c yet
	k.w.Log(sim.Ev{"e": "DialRet", "c": c.ID, "ok": true})
	return c, nil
}

func (k *cliWorld) conn() *sim.Conn { k.mu.Lock(); defer k.mu.Unlock(); return k.cur }

func (k *cliWorld) quiet(final bool) {
	k.w.Settle()
	k.mu.Lock()
	c := k.cur
	held := k.held > 0
	k.mu.Unlock()
	ev := sim.Ev{"e": "Quiet", "c": 0, "unread": 0, "partial": 0, "blk": false, "held": held, "final": final}
	if c != nil {
		unread, partial, _, blk, _ := c.State()
		ev["c"] = c.ID
		ev["unread"] = unread
		ev["partial"] = partial
		ev["blk"] = blk
	}
	k.w.Log(ev)
}

func runClient(w *sim.World, sc *Scenario) {
	k := &cliWorld{w: w, sc: sc, ops: map[int]*cliOp{}, mode: "ok"}
	k.cond = sync.NewCond(&k.mu)
	h := arpc.NewHandler()
	srvSide := sc.str("side") == "srv"
	if srvSide {
		k.srv = arpc.NewServer()
		h = k.srv.Handler
	}
	k.h = h
	h.SetBatchSend(sc.flag("batch"))
	h.SetSendBufferSize(sc.num("sbuf"))
	h.SetBatchRecv(sc.flag("brecv"))
	h.SetAsyncWrite(!sc.flag("direct"))
	h.SetSendQueueSize(sc.num("q"))
	h.SetMaxReconnectTimes(sc.num("maxrc"))
	if sc.flag("pool") {
		h.EnablePool(true)
	}
	if sc.flag("jcoder") {
		h.UseCoder(jitCoder{w})
	}
	if sc.flag("exec") {
		h.SetAsyncExecutor(func(f func()) {
			go func() { w.Jit(); util.Safe(f) }()
		})
	}
	ready := make(chan *arpc.Client, 16)
	h.HandleConnected(func(c *arpc.Client) {
		w.Log(sim.Ev{"e": "OnConn"})
		if srvSide {
			ready <- c
		} else {
			w.Jit()
		}
	})
	h.HandleDisconnected(func(c *arpc.Client) {
		w.Log(sim.Ev{"e": "OnDisc"})
	})
	h.Handle("/panic", func(ctx *arpc.Context) { panic("user") }, false)
	h.Handle("/panica", func(ctx *arpc.Context) { panic("user") }, true)

	if srvSide {
		k.ln = w.NewListener()
		k.srv.Codec = jitCodec{w}
		go k.srv.Serve(k.ln)
		k.mu.Lock()
		w.Log(sim.Ev{"e": "Dial", "c": 1})
		c := k.newConn()
		k.cur = c
		w.Log(sim.Ev{"e": "DialRet", "c": 1, "ok": true})
		k.mu.Unlock()
		k.ln.Push(net.Conn(c))
		k.c = <-ready
	} else {
		c, err := arpc.NewClient(k.dial, h)
		if err != nil {
			panic(err)
		}
		k.c = c
		c.Codec = jitCodec{w}
	}

	for _, st := range sc.Steps {
		if o := st.num("till"); o > 0 {
			// act at the very instant an operation's deadline passes
			k.mu.Lock()
			op := k.ops[o]
			k.mu.Unlock()
			if op != nil && op.tmo > 0 {
				if d := time.Until(op.t0.Add(time.Duration(op.tmo) * time.Millisecond)); d > 0 {
					time.Sleep(d)
				}
			}
		} else if d := st.num("dt"); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
			k.quiet(false)
		} else if st.flag("q") {
			k.quiet(false)
		}
		k.step(st)
	}
	// wind down: the environment becomes cooperative, then the client is stopped
	k.quiet(false)
	k.setBlk(false)
	k.mu.Lock()
	k.mode = "fail"
	k.cond.Broadcast()
	k.mu.Unlock()
	k.quiet(false)
	k.stop()
	k.quiet(false)
	time.Sleep(5 * time.Second)
	k.quiet(true)
	for _, op := range k.ops {
		if op.cancel != nil {
			op.cancel()
		}
	}
	if srvSide {
		k.srv.Stop()
		k.quiet(true)
	}
}

func (k *cliWorld) stop() {
	k.w.Log(sim.Ev{"e": "Stop"})
	k.c.Stop()
	k.w.Log(sim.Ev{"e": "StopRet"})
}

// setBlk never calls a connection while holding k.mu (onFrame takes it under the connection's lock).
func (k *cliWorld) setBlk(on bool) {
	k.mu.Lock()
	k.blk = on
	c := k.cur
	k.w.Log(sim.Ev{"e": "BlockW", "on": on})
	k.mu.Unlock()
	c.BlockW(on)
}

func (k *cliWorld) step(st Step) {
	w := k.w
	switch st.str("a") {
	case "start":
		k.start(st)
	case "reply":
		k.mu.Lock()
		op := k.ops[st.num("o")]
		if op == nil || !op.out {
			k.mu.Unlock()
			return
		}
		c := k.cur
		if st.str("where") == "orig" {
			c = op.outC
		}
		op.nrep++
		tok := fmt.Sprintf("r%d", op.o)
		if op.nrep > 1 {
			tok = fmt.Sprintf("r%d.%d", op.o, op.nrep)
		}
		f := sim.Frame{Cmd: sim.CmdRsp, Async: op.async, Seq: op.seq, Method: op.method}
		iserr := st.flag("err")
		if iserr {
			f.Err = true
			f.Data = []byte("RE:" + sim.Payload(tok, st.num("size")))
		} else {
			f.Data = rawVal(op.rk, sim.Payload(tok, st.num("size")))
		}
		k.mu.Unlock()
		n := 1
		if st.flag("dup") {
			n = 3
		}
		b := f.Bytes()
		for i := 0; i < n; i++ {
			w.Log(sim.Ev{"e": "Feed", "c": c.ID, "k": "rsp", "o": op.o, "seq": clampSeq(op.seq), "d": tok, "err": iserr})
			c.Feed(b)
		}
	case "junk":
		k.mu.Lock()
		c := k.cur
		k.mu.Unlock()
		switch st.str("k") {
		case "ping":
			w.Log(sim.Ev{"e": "Feed", "c": c.ID, "k": "ping", "o": 0, "seq": 0, "d": "", "err": false})
			c.Feed(sim.Frame{Cmd: sim.CmdPing}.Bytes())
		case "pong":
			w.Log(sim.Ev{"e": "Feed", "c": c.ID, "k": "junk", "o": 0, "seq": 0, "d": "", "err": false})
			c.Feed(sim.Frame{Cmd: sim.CmdPong}.Bytes())
		case "panic", "panica":
			w.Log(sim.Ev{"e": "Feed", "c": c.ID, "k": "junk", "o": 0, "seq": 0, "d": "", "err": false})
			c.Feed(sim.Frame{Cmd: sim.CmdNotify, Seq: 77, Method: "/" + st.str("k")}.Bytes())
		default: // a response nobody asked for
			seq := uint64(1000 + st.num("n"))
			w.Log(sim.Ev{"e": "Feed", "c": c.ID, "k": "rsp", "o": 0, "seq": int(seq), "d": "junk", "err": false})
			c.Feed(sim.Frame{Cmd: sim.CmdRsp, Async: st.flag("async"), Seq: seq, Method: "/x", Data: []byte("junk")}.Bytes())
		}
	case "drop":
		c := k.conn()
		if c.Dropped() || c.Closed() {
			return
		}
		w.Log(sim.Ev{"e": "Drop", "c": c.ID})
		c.Drop(st.flag("reset"))
	case "wfail":
		c := k.conn()
		w.Log(sim.Ev{"e": "Drop", "c": c.ID})
		if n := st.num("n"); n > 0 {
			c.FailWriteAt(n)
		} else {
			c.KillWrites()
		}
	case "blockw":
		k.setBlk(st.flag("on"))
	case "dialmode":
		k.mu.Lock()
		k.mode = st.str("m")
		k.cond.Broadcast()
		k.mu.Unlock()
	case "stop":
		if st.flag("conc") {
			go k.stop()
		} else {
			k.stop()
		}
	case "cancel":
		k.mu.Lock()
		op := k.ops[st.num("o")]
		k.mu.Unlock()
		if op != nil && op.cancel != nil {
			w.Log(sim.Ev{"e": "Cancel", "o": op.o})
			op.cancel()
		}
	case "adv":
		// dt did the work
	default:
		panic("step " + st.str("a"))
	}
}

func (k *cliWorld) start(st Step) {
	w := k.w
	op := &cliOp{o: st.num("o"), kind: st.str("k"), vk: st.str("vk"), rk: st.str("rk"), size: st.num("size"), tmo: st.num("tmo")}
	op.method = methodOf(op.o, st.num("mlen"))
	if st.flag("badm") {
		if st.num("mlen") == 0 {
			op.method = ""
		} else {
			op.method = strings.Repeat("z", st.num("mlen"))
		}
	}
	pay := sim.Payload(fmt.Sprintf("q%d", op.o), op.size)
	op.raw = rawVal(op.vk, pay)
	v := mkVal(op.vk, pay)
	k.mu.Lock()
	if k.ops[op.o] != nil {
		k.mu.Unlock()
		return
	}
	op.t0 = time.Now()
	k.ops[op.o] = op
	k.mu.Unlock()
	d := time.Duration(op.tmo) * time.Millisecond
	ctx := context.Background()
	if op.kind == "callctx" || op.kind == "notifyctx" {
		var cancel context.CancelFunc
		if op.tmo > 0 {
			ctx, cancel = context.WithTimeout(ctx, d)
		} else {
			ctx, cancel = context.WithCancel(ctx)
		}
		op.cancel = cancel
	}
	if op.kind == "push" && op.tmo < 0 {
		d = arpc.TimeForever
	}
	w.Log(sim.Ev{"e": "Start", "o": op.o, "k": op.kind, "tmo": op.tmo, "bad": st.flag("badm")})
	go func() {
		var err error
		data := ""
		var rs string
		var rb []byte
		var rv Val
		var rsp interface{}
		switch op.rk {
		case "bytes":
			rsp = &rb
		case "struct":
			rsp = &rv
		case "nil":
		default:
			rsp = &rs
		}
		get := func() string {
			switch op.rk {
			case "bytes":
				return sim.Token(string(rb))
			case "struct":
				return sim.Token(rv.S)
			case "nil":
				return "*"
			}
			return sim.Token(rs)
		}
		switch op.kind {
		case "call":
			err = k.c.Call(op.method, v, rsp, d)
			if err == nil {
				data = get()
			}
		case "callctx":
			err = k.c.CallContext(ctx, op.method, v, rsp)
			if err == nil {
				data = get()
			}
		case "async":
			err = k.c.CallAsync(op.method, v, func(ctx *arpc.Context, e error) {
				res, dd := errName(e)
				// a remote error arrives both as the error and in the context
				if e == nil {
					if ctx == nil {
						res, dd = "other", "nil context"
					} else if be := ctx.Bind(rsp); be != nil {
						res, dd = "other", be.Error()
					} else {
						dd = get()
					}
				}
				k.w.Log(sim.Ev{"e": "Cb", "o": op.o, "res": res, "d": dd})
				if st.flag("cbpanic") {
					panic("user callback")
				}
			}, d)
		case "notify":
			err = k.c.Notify(op.method, v, d)
		case "notifyctx":
			err = k.c.NotifyContext(ctx, op.method, v)
		case "push":
			err = k.c.PushMsg(k.c.NewMessage(arpc.CmdNotify, op.method, v), d)
		default:
			panic("kind " + op.kind)
		}
		res, dd := errName(err)
		if res == "ok" {
			dd = data
		}
		w.Log(sim.Ev{"e": "Ret", "o": op.o, "res": res, "d": dd})
	}()
}
