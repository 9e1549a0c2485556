package eng

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/sim"

	gws "github.com/gorilla/websocket"
	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/protocol/websocket"
)

func init() { engines["ws"] = runWs }

// wsByte is byte i of write w; the first one tells the write.
func wsByte(w, i int) byte { return byte(w ^ (i * 7)) }

// wsParse tells which writes read bytes belong to.
type wsParse struct {
	w, off int
	size   func(w int) int
}

func (p *wsParse) feed(b []byte) [][3]int {
	segs := [][3]int{}
	for i := 0; i < len(b); {
		if p.w == 0 || p.off >= p.size(p.w) {
			p.w, p.off = int(b[i]), 0
			if p.size(p.w) == 0 {
				segs = append(segs, [3]int{0, 0, len(b) - i})
				p.w = 0
				return segs
			}
		}
		o := p.off
		n := 0
		for i < len(b) && p.off < p.size(p.w) && b[i] == wsByte(p.w, p.off) {
			i++
			n++
			p.off++
		}
		if n == 0 {
			segs = append(segs, [3]int{0, 0, len(b) - i})
			return segs
		}
		segs = append(segs, [3]int{p.w, o, n})
	}
	return segs
}

type wsEnd struct {
	c     net.Conn
	x     string
	sizes map[int]int
	ch    map[int]chan func()
	rd    chan int
	free  chan int
}

func runWs(w *sim.World, sc *Scenario) {
	nw := w.NewNet(sc.num("chunk"))
	sl := nw.Listen("ws")
	up := &gws.Upgrader{ReadBufferSize: sc.num("rb"), WriteBufferSize: sc.num("wb"), EnableCompression: sc.flag("zip"), CheckOrigin: func(*http.Request) bool { return true }}
	if sc.flag("defup") {
		up = nil
	}
	ln, err := websocket.Listen("127.0.0.1:8888", up)
	if err != nil {
		panic(err)
	}
	mux := &http.ServeMux{}
	mux.HandleFunc("/ws", ln.(*websocket.Listener).Handler)
	srv := &http.Server{Handler: mux}
	go srv.Serve(sl)
	dialer := &gws.Dialer{NetDial: func(string, string) (net.Conn, error) { return nw.Dial("ws") }, ReadBufferSize: sc.num("crb"), WriteBufferSize: sc.num("cwb"), EnableCompression: sc.flag("zip")}
	dial := func() (net.Conn, error) { return websocket.Dial("ws://x/ws", dialer) }
	if sc.flag("rpc") {
		wsRPC(w, sc, ln, dial)
		ln.Close()
		srv.Close()
		for _, p := range nw.All() {
			p.Cut(true)
		}
		time.Sleep(3 * time.Second)
		return
	}
	cc, err := dial()
	if err != nil {
		panic(err)
	}
	scn, err := ln.Accept()
	if err != nil {
		panic(err)
	}
	pipe := nw.All()[0]
	w.Log(sim.Ev{"e": "Up"})
	var mu sync.Mutex
	var over atomic.Bool
	ends := map[string]*wsEnd{}
	stop := make(chan struct{})
	for x, c := range map[string]net.Conn{"C": cc, "S": scn} {
		ends[x] = &wsEnd{c: c, x: x, sizes: map[int]int{}, ch: map[int]chan func(){}, rd: make(chan int, 1000), free: make(chan int)}
	}
	safely := func(f func()) {
		defer func() {
			if e := recover(); e != nil {
				w.Log(sim.Ev{"e": "Crash", "why": fmt.Sprint(e)})
			}
		}()
		f()
	}
	lims := []int{1, 7, 100, 512, 4096, 70000}
	for x, e := range ends {
		peer := ends[map[string]string{"C": "S", "S": "C"}[x]]
		p := &wsParse{size: func(k int) int { mu.Lock(); defer mu.Unlock(); return peer.sizes[k] }}
		go func() {
			i := 0
			for {
				var lim int
				select {
				case lim = <-e.rd:
				case <-e.free:
					lim = lims[w.Intn(len(lims))]
					i++
				}
				b := make([]byte, lim)
				var n int
				var err error
				safely(func() { n, err = e.c.Read(b) })
				if n > 0 || err == nil {
					w.Log(sim.Ev{"e": "Rd", "x": x, "n": n, "lim": lim, "segs": p.feed(b[:n])})
				}
				if err != nil {
					if !over.Load() {
						w.Log(sim.Ev{"e": "RdErr", "x": x, "why": err.Error()})
					}
					return
				}
				w.Jit()
			}
		}()
	}
	nextw := map[string]int{}
	freed := false
	quiet := func() {
		w.Settle()
		if !freed {
			freed = true
			for _, e := range ends {
				close(e.free)
			}
		}
		w.Settle()
		time.Sleep(600 * time.Second)
		w.Settle()
		w.Log(sim.Ev{"e": "Quiet"})
	}
	closed := map[string]bool{}
	for _, st := range sc.Steps {
		if st.flag("q") {
			w.Settle()
		}
		e := ends[st.str("x")]
		switch st.str("a") {
		case "wr":
			k := nextw[e.x] + 1
			if closed[e.x] || k > 250 {
				continue
			}
			nextw[e.x] = k
			n := st.num("n")
			mu.Lock()
			e.sizes[k] = n
			mu.Unlock()
			b := make([]byte, n)
			for i := range b {
				b[i] = wsByte(k, i)
			}
			g := st.num("g")
			ch := e.ch[g]
			if ch == nil {
				ch = make(chan func(), 1000)
				e.ch[g] = ch
				go func() {
					for {
						select {
						case f := <-ch:
							f()
						case <-stop:
							return
						}
					}
				}()
			}
			w.Log(sim.Ev{"e": "WrB", "x": e.x, "w": k, "g": g, "n": n})
			ch <- func() {
				w.Jit()
				keep := bytes.Clone(b)
				var m int
				var err error
				safely(func() { m, err = e.c.Write(b) })
				w.Log(sim.Ev{"e": "WrE", "x": e.x, "w": k, "ok": err == nil && m == n && bytes.Equal(b, keep)})
			}
		case "rd":
			e.rd <- st.num("n")
		case "stall":
			if e.x == "C" {
				pipe.A.BlockW(st.flag("on"))
			} else {
				pipe.B.BlockW(st.flag("on"))
			}
			w.Log(sim.Ev{"e": "Stall", "x": e.x, "on": st.flag("on")})
		case "close":
			closed[e.x] = true
			w.Log(sim.Ev{"e": "CloseB", "x": e.x})
			e.c.Close()
			w.Log(sim.Ev{"e": "CloseE", "x": e.x})
		case "quiet":
			quiet()
		}
	}
	pipe.A.BlockW(false)
	w.Log(sim.Ev{"e": "Stall", "x": "C", "on": false})
	pipe.B.BlockW(false)
	w.Log(sim.Ev{"e": "Stall", "x": "S", "on": false})
	quiet()
	w.Log(sim.Ev{"e": "End"})
	over.Store(true)
	close(stop)
	cc.Close()
	scn.Close()
	ln.Close()
	srv.Close()
	pipe.Cut(true)
	time.Sleep(3 * time.Second)
}

// wsRPC: calls, notifications, broadcasts and keepalives over websocket connections
func wsRPC(w *sim.World, sc *Scenario, ln net.Listener, dial func() (net.Conn, error)) {
	h := arpc.NewHandler()
	conf := func(h arpc.Handler) {
		h.SetAsyncWrite(!sc.flag("direct"))
		h.SetBatchSend(sc.flag("batch"))
		h.SetBatchRecv(sc.flag("brecv"))
		if n := sc.num("sbuf"); n > 0 {
			h.SetSendBufferSize(n)
		}
	}
	conf(h)
	s := arpc.NewServer()
	s.Handler = h
	h.Handle("/call", func(ctx *arpc.Context) {
		w.Jit()
		ctx.Write("re:" + string(ctx.Body()))
	}, true)
	h.Handle("/note", func(ctx *arpc.Context) {
		b := string(ctx.Body())
		i := 0
		fmt.Sscanf(b, "n%d:", &i)
		w.Log(sim.Ev{"e": "NGot", "i": i, "ok": strings.TrimLeft(b[strings.Index(b, ":")+1:], "x") == ""})
	})
	nc := sc.num("clients")
	up := make(chan struct{}, 100)
	h.HandleConnected(func(*arpc.Client) { up <- struct{}{} })
	go s.Serve(ln)
	var cs []*arpc.Client
	for i := 1; i <= nc; i++ {
		ch := arpc.NewHandler()
		conf(ch)
		ch.Handle("/bc", func(ctx *arpc.Context) {
			k, n := 0, 0
			b := string(ctx.Body())
			fmt.Sscanf(b, "b%d:%d:", &k, &n)
			w.Log(sim.Ev{"e": "BGot", "c": i, "i": k, "ok": strings.HasSuffix(b, strings.Repeat("x", n)) && len(b) < n+20})
		})
		c, err := arpc.NewClient(dial, ch)
		if err != nil {
			panic(err)
		}
		cs = append(cs, c)
	}
	for i := 0; i < nc; i++ {
		<-up
	}
	w.Settle()
	var wg sync.WaitGroup
	for k, st := range sc.Steps {
		if st.flag("q") {
			w.Settle()
		}
		i := k + 1
		n := st.num("n")
		c := cs[st.num("c")%nc]
		switch st.str("a") {
		case "call":
			w.Log(sim.Ev{"e": "Call", "i": i})
			wg.Add(1)
			go func() {
				defer wg.Done()
				req := fmt.Sprintf("c%d:%s", i, strings.Repeat("x", n))
				rsp := ""
				err := c.Call("/call", req, &rsp, time.Second*600)
				w.Log(sim.Ev{"e": "CallRet", "i": i, "ok": err == nil && rsp == "re:"+req})
			}()
		case "note":
			w.Log(sim.Ev{"e": "Note", "i": i})
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.Notify("/note", fmt.Sprintf("n%d:%s", i, strings.Repeat("x", n)), time.Second*600)
			}()
		case "bc":
			w.Log(sim.Ev{"e": "Bc", "i": i, "n": nc})
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.Broadcast("/bc", fmt.Sprintf("b%d:%d:%s", i, n, strings.Repeat("x", n)))
			}()
		case "ping":
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						w.Log(sim.Ev{"e": "Crash", "why": fmt.Sprint(e)})
					}
				}()
				c.Ping()
			}()
		}
	}
	wg.Wait()
	time.Sleep(600 * time.Second)
	w.Log(sim.Ev{"e": "End"})
	for _, c := range cs {
		c.Stop()
	}
	s.Stop()
	time.Sleep(3 * time.Second)
}
