package eng

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
)

func init() { engines["handler"] = runHandler }

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	return strings.Fields(string(b[:n]))[1]
}

// recorder of what a probe sets off
type hdRec struct {
	on    bool
	who   string // goroutine of the probe
	how   string
	calls []string
	dec   []string
}

func (r *hdRec) call(x string) {
	if !r.on {
		return
	}
	if r.how == "" {
		r.how = "sync"
		if goid() != r.who {
			r.how = "go"
		}
	}
	r.calls = append(r.calls, x)
}

type hdCoder struct {
	r *hdRec
	x string
}

func (c *hdCoder) Encode(_ *arpc.Client, m *arpc.Message) *arpc.Message { return m }
func (c *hdCoder) Decode(_ *arpc.Client, m *arpc.Message) *arpc.Message {
	if c.r.on {
		c.r.dec = append([]string{c.x}, c.r.dec...)
	}
	return m
}

// a connection which records how it is used
type hdConn struct {
	net.Conn
	reads []int
}

func (c *hdConn) Read(b []byte) (int, error)         { c.reads = append(c.reads, len(b)); return 0, io.EOF }
func (c *hdConn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *hdConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *hdConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *hdConn) Close() error                       { return nil }

type hdReader struct {
	io.Reader
	x string
}

var hdLong = strings.Repeat("L", 127)

func hdMethod(m string) string {
	switch m {
	case "L":
		return hdLong
	case "XL":
		return hdLong + "x"
	}
	return m
}

var errProbe = errors.New("probe")

func runHandler(w *sim.World, sc *Scenario) {
	old := arpc.DefaultHandler
	defer func() { arpc.DefaultHandler = old }()
	arpc.SetHandler(arpc.NewHandler())
	r := &hdRec{}
	conns := 0
	dial := func() (net.Conn, error) {
		conns++
		c := w.NewConn(conns)
		c.Quietly = true
		return c, nil
	}
	// the client which the probes speak for
	pc, err := arpc.NewClient(dial, arpc.NewHandler())
	if err != nil {
		panic(err)
	}
	var clients []*arpc.Client
	hs := []arpc.Handler{arpc.DefaultHandler}
	seq := uint64(0)

	settings := func(h arpc.Handler) map[string]string {
		b := func(x any) string { return fmt.Sprint(x) }
		return map[string]string{"logtag": h.LogTag(), "batchRecv": b(h.BatchRecv()), "batchSend": b(h.BatchSend()), "asyncWrite": b(h.AsyncWrite()), "asyncResponse": b(h.AsyncResponse()),
			"recvBuf": b(h.RecvBufferSize()), "sendBuf": b(h.SendBufferSize()), "readTO": b(int(h.ReadTimeout())), "writeTO": b(int(h.WriteTimeout())), "sendQ": b(h.SendQueueSize()),
			"streamQ": b(h.StreamQueueSize()), "maxBody": b(h.MaxBodyLen()), "maxRe": b(h.MaxReconnectTimes())}
	}
	probe := func(f func()) []string {
		w.Settle()
		*r = hdRec{on: true, who: goid()}
		f()
		w.Settle()
		r.on = false
		if r.calls == nil {
			return []string{}
		}
		return r.calls
	}
	obs := func(i int) {
		h := hs[i]
		v := map[string][]string{}
		for k, x := range settings(h) {
			v[k] = []string{x}
		}
		msg := func() *arpc.Message {
			return h.NewMessageWithBuffer(sim.Frame{Cmd: sim.CmdNotify, Method: "zz"}.Bytes())
		}
		v["conn"] = probe(func() { h.OnConnected(pc) })
		v["disc"] = probe(func() { h.OnDisconnected(pc) })
		v["over"] = probe(func() { h.OnOverstock(pc, msg()) })
		v["drop"] = probe(func() { h.OnMessageDropped(pc, msg()) })
		v["miss"] = probe(func() { h.OnSessionMiss(pc, msg()) })
		v["done"] = probe(func() { h.OnMessageDone(pc, msg()) })
		v["ctxd"] = probe(func() { h.OnContextDone(&arpc.Context{}) })
		v["malloc"] = probe(func() { h.Malloc(1) })
		v["append"] = probe(func() { h.Append(make([]byte, 1, 8), 1) })
		v["free"] = probe(func() { h.Free(make([]byte, 1)) })
		v["bsend"] = probe(func() { h.Send(&hdConn{}, []byte("x")) })
		v["brecv"] = probe(func() {
			c := &arpc.Client{Conn: &hdConn{}, Reader: bytes.NewReader(nil), Head: make([]byte, 4), Handler: h}
			h.Recv(c)
		})
		v["exec"] = probe(func() { h.AsyncExecute(func() {}) })
		hc := &hdConn{}
		rd := h.WrapReader(hc)
		if x, ok := rd.(*hdReader); ok {
			v["wrap"] = []string{x.x}
		} else {
			rd.Read(make([]byte, 1))
			n := "none"
			if len(hc.reads) > 0 {
				n = fmt.Sprint(hc.reads[0])
			}
			v["wrap"] = []string{"buffer", n}
		}
		for _, m := range []string{"a", "b", "L", "zz"} {
			seq++
			ex := ""
			res := probe(func() {
				r.how = ""
				h.OnMessage(pc, h.NewMessageWithBuffer(sim.Frame{Cmd: sim.CmdNotify, Seq: seq, Method: hdMethod(m)}.Bytes()))
			})
			ex, res = hdExec(res)
			if ex == "" {
				ex = r.how
			}
			if len(res) > 0 {
				res = append([]string{ex}, res...)
			}
			v["r:"+m] = hdNoDone(res)
			if m == "zz" {
				v["coders"] = append([]string{}, r.dec...)
				if len(h.Coders()) != len(r.dec) {
					v["coders"] = append(v["coders"], "?")
				}
			}
		}
		for _, m := range []string{"a", "b"} {
			seq++
			res := probe(func() {
				h.OnMessage(pc, h.NewMessageWithBuffer(sim.Frame{Cmd: sim.CmdStream, Local: true, Seq: seq, Method: m, Data: []byte("x")}.Bytes()))
			})
			res = hdNoDone(res)
			ex, res := hdExec(res)
			if ex == "" {
				ex = r.how
			}
			if len(res) > 0 {
				res = append([]string{ex}, res...)
			}
			v["s:"+m] = res
		}
		ctx, _ := h.Context()
		v["canc"] = []string{fmt.Sprint(ctx.Err() != nil)}
		w.Log(sim.Ev{"e": "Obs", "h": i, "v": v})
	}
	all := func() {
		for i := range hs {
			obs(i)
		}
	}
	refused := func(f func()) (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		f()
		return true
	}
	w.Log(sim.Ev{"e": "New", "h": 0, "set": settings(hs[0])})
	all()
	for _, st := range sc.Steps {
		x := st.str("x")
		i := st.num("h") % len(hs)
		h := hs[i]
		pkg := i == 0 && st.flag("pkg")
		switch st.str("a") {
		case "new":
			hs = append(hs, arpc.NewHandler())
			w.Log(sim.Ev{"e": "New", "h": len(hs) - 1, "set": settings(hs[len(hs)-1])})
		case "clone":
			f := st.num("f") % len(hs)
			hs = append(hs, hs[f].Clone())
			w.Log(sim.Ev{"e": "Clone", "h": len(hs) - 1, "f": f})
		case "srv":
			hs = append(hs, arpc.NewServer().Handler)
			w.Log(sim.Ev{"e": "Srv", "h": len(hs) - 1, "tag": hs[len(hs)-1].LogTag()})
		case "cli":
			var c *arpc.Client
			switch st.str("kind") {
			case "pool":
				p, err := arpc.NewClientPool(dial, 1)
				if err != nil {
					panic(err)
				}
				c = p.Get(0)
			case "pools":
				p, err := arpc.NewClientPoolFromDialers([]arpc.DialerFunc{dial})
				if err != nil {
					panic(err)
				}
				c = p.Get(0)
			default:
				c, err = arpc.NewClient(dial)
				if err != nil {
					panic(err)
				}
			}
			clients = append(clients, c)
			hs = append(hs, c.Handler)
			w.Log(sim.Ev{"e": "Cli", "h": len(hs) - 1})
		case "set":
			k := st.str("k")
			v := st.str("v")
			n := 0
			fmt.Sscanf(v, "%d", &n)
			b := v == "true"
			d := time.Duration(n)
			switch k {
			case "logtag":
				hdPick(pkg, arpc.SetLogTag, h.SetLogTag)(v)
			case "batchRecv":
				hdPick(pkg, arpc.SetBatchRecv, h.SetBatchRecv)(b)
			case "batchSend":
				hdPick(pkg, arpc.SetBatchSend, h.SetBatchSend)(b)
			case "asyncWrite":
				h.SetAsyncWrite(b)
			case "asyncResponse":
				hdPick(pkg, arpc.SetAsyncResponse, h.SetAsyncResponse)(b)
			case "recvBuf":
				hdPick(pkg, arpc.SetRecvBufferSize, h.SetRecvBufferSize)(n)
			case "sendBuf":
				hdPick(pkg, arpc.SetSendBufferSize, h.SetSendBufferSize)(n)
			case "readTO":
				hdPick(pkg, arpc.SetReadTimeout, h.SetReadTimeout)(d)
			case "writeTO":
				hdPick(pkg, arpc.SetWriteTimeout, h.SetWriteTimeout)(d)
			case "sendQ":
				hdPick(pkg, arpc.SetSendQueueSize, h.SetSendQueueSize)(n)
			case "streamQ":
				hdPick(pkg, arpc.SetStreamQueueSize, h.SetStreamQueueSize)(n)
			case "maxBody":
				hdPick(pkg, arpc.SetMaxBodyLen, h.SetMaxBodyLen)(n)
			case "maxRe":
				h.SetMaxReconnectTimes(n)
			default:
				panic(k)
			}
			w.Log(sim.Ev{"e": "Set", "h": i, "k": k, "v": v})
		case "hook":
			k := st.str("k")
			onC := func(*arpc.Client) { r.call(x) }
			onM := func(*arpc.Client, *arpc.Message) { r.call(x) }
			onN := func(net.Conn) error {
				if r.on {
					r.call(x)
					return errProbe
				}
				return nil
			}
			if x == "" {
				onC, onM, onN = nil, nil, nil
			}
			switch k {
			case "conn":
				hdPick(pkg, arpc.HandleConnected, h.HandleConnected)(onC)
			case "disc":
				hdPick(pkg, arpc.HandleDisconnected, h.HandleDisconnected)(onC)
			case "over":
				hdPick(pkg, arpc.HandleOverstock, h.HandleOverstock)(onM)
			case "drop":
				hdPick(pkg, arpc.HandleMessageDropped, h.HandleMessageDropped)(onM)
			case "miss":
				hdPick(pkg, arpc.HandleSessionMiss, h.HandleSessionMiss)(onM)
			case "done":
				h.HandleMessageDone(onM)
			case "ctxd":
				if x == "" {
					h.HandleContextDone(nil)
				} else {
					// contexts of routed messages end here as well: only the direct probe counts
					h.HandleContextDone(func(c *arpc.Context) {
						if c.Client == nil {
							r.call(x)
						}
					})
				}
			case "brecv":
				hdPick(pkg, arpc.BeforeRecv, h.BeforeRecv)(onN)
			case "bsend":
				hdPick(pkg, arpc.BeforeSend, h.BeforeSend)(onN)
			case "malloc":
				f := func(n int) []byte { r.call(x); return make([]byte, n) }
				if x == "" {
					f = nil
				}
				hdPick(pkg, arpc.HandleMalloc, h.HandleMalloc)(f)
			case "append":
				f := func(b []byte, m ...byte) []byte { r.call(x); return append(b, m...) }
				if x == "" {
					f = nil
				}
				h.HandleAppend(f)
			case "free":
				f := func([]byte) { r.call(x) }
				if x == "" {
					f = nil
				}
				hdPick(pkg, arpc.HandleFree, h.HandleFree)(f)
			case "exec":
				f := func(g func()) { r.call("x:" + x); g() }
				if x == "" {
					f = nil
				}
				hdPick(pkg, arpc.SetAsyncExecutor, h.SetAsyncExecutor)(f)
			case "wrap":
				f := func(c net.Conn) io.Reader { return &hdReader{c, x} }
				if x == "" {
					panic("wrap")
				}
				hdPick(pkg, arpc.SetReaderWrapper, h.SetReaderWrapper)(f)
			default:
				panic(k)
			}
			seen := x
			if k == "exec" && x != "" {
				seen = "x:" + x
			}
			w.Log(sim.Ev{"e": "Hook", "h": i, "k": k, "x": seen})
		case "use":
			f := func(*arpc.Context) { r.call(x) }
			if x == "" {
				f = nil
			}
			hdPick(pkg, arpc.Use, h.Use)(f)
			w.Log(sim.Ev{"e": "Use", "h": i, "x": x})
		case "coder":
			var c arpc.MessageCoder
			if x != "" {
				c = &hdCoder{r, x}
			}
			hdPick(pkg, arpc.UseCoder, h.UseCoder)(c)
			w.Log(sim.Ev{"e": "Coder", "h": i, "x": x})
		case "nf":
			hdPick(pkg, arpc.HandleNotFound, h.HandleNotFound)(func(*arpc.Context) { r.call(x) })
			w.Log(sim.Ev{"e": "NotFound", "h": i, "x": x})
		case "cancel":
			h.Cancel()
			w.Log(sim.Ev{"e": "Cancel", "h": i})
		case "pooloff":
			hdPick(pkg, arpc.EnablePool, h.EnablePool)(false)
			w.Log(sim.Ev{"e": "PoolOff", "h": i})
		case "handle", "stream":
			as := st.str("as")
			var args []interface{}
			switch as {
			case "true":
				args = []interface{}{true}
			case "false":
				args = []interface{}{false, true}
			case "other":
				args = []interface{}{"true"}
				as = "def"
			}
			m := st.str("m")
			if st.str("a") == "handle" {
				ok := refused(func() { hdPick(pkg, arpc.Handle, h.Handle)(hdMethod(m), func(*arpc.Context) { r.call(x) }, args...) })
				w.Log(sim.Ev{"e": "Handle", "h": i, "m": m, "x": x, "as": as, "ok": ok})
			} else {
				ok := refused(func() {
					h.HandleStream(hdMethod(m), func(s *arpc.Stream) { r.call(x); s.CloseRecv(); s.CloseSend() }, args...)
				})
				w.Log(sim.Ev{"e": "Stream", "h": i, "m": m, "x": x, "as": as, "ok": ok})
			}
		}
		if !st.flag("skip") {
			all()
		}
	}
	all()
	r.on = false
	for _, c := range clients {
		c.Stop()
	}
	pc.Stop()
	time.Sleep(3 * time.Second)
	w.Settle()
}

// an executor which took the work, and the rest
func hdExec(c []string) (string, []string) {
	if len(c) > 0 && strings.HasPrefix(c[0], "x:") {
		return c[0], c[1:]
	}
	return "", c
}

// a stream frame without a taker, or the messages of a stream which ends, are declared done: not part of the route
func hdNoDone(c []string) []string {
	res := []string{}
	for _, x := range c {
		if !strings.HasPrefix(x, "d:") && !strings.HasPrefix(x, "f:") {
			res = append(res, x)
		}
	}
	return res
}

func hdPick[T any](pkg bool, a, b T) T {
	if pkg {
		return a
	}
	return b
}
