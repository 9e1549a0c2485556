package eng

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/extension/arpchttp"
)

func init() { engines["http"] = runHTTP }

// httpW is the response to one posted body.
type httpW struct {
	mu   sync.Mutex
	hdr  http.Header
	buf  bytes.Buffer
	done bool
	late func()
}

func (h *httpW) Header() http.Header { return h.hdr }
func (h *httpW) WriteHeader(int)     {}
func (h *httpW) Write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.done {
		h.late()
		return 0, errors.New("the handler has returned")
	}
	return h.buf.Write(b)
}

// httpBody hands out its bytes in pieces and may fail.
type httpBody struct {
	w    *sim.World
	b    []byte
	n    int
	fail bool
}

func (b *httpBody) Read(p []byte) (int, error) {
	b.w.Jit()
	if len(b.b) == 0 {
		if b.fail {
			return 0, errors.New("read fails")
		}
		return 0, io.EOF
	}
	n := len(b.b)
	if b.n > 0 && b.n < n {
		n = b.n
	}
	n = copy(p, b.b[:n])
	b.b = b.b[n:]
	return n, nil
}
func (b *httpBody) Close() error { return nil }

func runHTTP(w *sim.World, sc *Scenario) {
	h := arpc.NewHandler()
	switch sc.str("resp") {
	case "sync":
		h.SetAsyncResponse(false)
	case "exec":
		h.SetAsyncExecutor(func(f func()) { go func() { defer func() { recover() }(); f() }() })
	}
	if sc.flag("direct") {
		h.SetAsyncWrite(false)
	}
	if sc.flag("pool") {
		h.EnablePool(true)
	}
	if n := sc.num("maxbody"); n > 0 {
		h.SetMaxBodyLen(n)
	}
	var coder arpc.MessageCoder
	xor := xorCoder{w}
	if sc.flag("coder") {
		coder = xor
		h.UseCoder(coder)
	}
	var mu sync.Mutex
	rel := map[int]chan struct{}{}
	type req struct {
		body, method string
		mode         string
		ab           int
		hold         bool
		kind         string
		size         int
	}
	rqs := map[int]*req{}
	get := func(ctx *arpc.Context) (int, *req) {
		k := 0
		fmt.Sscanf(string(ctx.Body()), "k%d:", &k)
		mu.Lock()
		defer mu.Unlock()
		return k, rqs[k]
	}
	run := func(x string, ctx *arpc.Context) (int, *req) {
		k, r := get(ctx)
		ok := r != nil && string(ctx.Body()) == r.body && ctx.Message.Method() == r.method
		w.Log(sim.Ev{"e": "Run", "k": k, "x": x, "ok": ok})
		return k, r
	}
	wr := func(ctx *arpc.Context, k int, r *req, v any, isErr bool, tok string) {
		if r.kind == "req" {
			w.Log(sim.Ev{"e": "Wr", "k": k, "err": isErr, "tok": tok})
		}
		if isErr {
			ctx.Error(v)
		} else {
			ctx.Write(v)
		}
	}
	pos := 0
	mid := func(x string) arpc.HandlerFunc {
		pos++
		i := pos
		return func(ctx *arpc.Context) {
			k, r := run(x, ctx)
			w.Jit()
			if r != nil && r.ab == i {
				wr(ctx, k, r, "ab", true, sim.Token("ab"))
				w.Log(sim.Ev{"e": "Cut", "k": k})
				ctx.Abort()
			}
		}
	}
	hnd := func(x string) arpc.HandlerFunc {
		return func(ctx *arpc.Context) {
			k, r := run(x, ctx)
			if r == nil {
				return
			}
			if r.hold {
				<-rel[k]
			}
			w.Jit()
			v := sim.Payload(fmt.Sprintf("v%d", k), r.size)
			switch r.mode {
			case "val":
				wr(ctx, k, r, v, false, sim.Token(v))
			case "bytes":
				wr(ctx, k, r, []byte(v), false, sim.Token(v))
			case "err":
				wr(ctx, k, r, errors.New(v), true, sim.Token(v))
			case "wrerr":
				if r.kind == "req" {
					w.Log(sim.Ev{"e": "Wr", "k": k, "err": true, "tok": sim.Token(v)})
				}
				ctx.Write(errors.New(v))
			case "two":
				wr(ctx, k, r, v, false, sim.Token(v))
				w.Jit()
				wr(ctx, k, r, "second", false, sim.Token("second"))
			case "panic":
				wr(ctx, k, r, v, false, sim.Token(v))
				w.Log(sim.Ev{"e": "Cut", "k": k})
				panic("handler panics")
			}
		}
	}
	for i := 1; i <= sc.num("pre"); i++ {
		h.Use(mid(fmt.Sprintf("m%d", i)))
	}
	pos++
	var args []any
	switch sc.str("reg") {
	case "async":
		args = []any{true}
	case "sync":
		args = []any{false}
	}
	h.Handle("/a", hnd("h/a"), args...)
	h.Handle("/b", hnd("h/b"))
	if sc.flag("nf") {
		h.HandleNotFound(hnd("nf"))
	}
	hh := arpchttp.Handler(h, codec.DefaultCodec)
	// some of it is registered later, as for connections
	for i := 1; i <= sc.num("post"); i++ {
		h.Use(mid(fmt.Sprintf("p%d", i)))
	}
	h.HandleStream("/s", func(s *arpc.Stream) { w.Log(sim.Ev{"e": "Run", "k": 0, "x": "stream", "ok": false}) })
	var wg sync.WaitGroup
	for _, st := range sc.Steps {
		if st.flag("q") {
			w.Settle()
		}
		k := st.num("k")
		switch st.str("a") {
		case "rel":
			w.Settle()
			mu.Lock()
			ch := rel[k]
			mu.Unlock()
			if ch != nil {
				select {
				case <-ch:
				default:
					close(ch)
				}
			}
		case "post":
			kind := st.str("kind")
			m := st.str("m")
			var seq uint64
			fmt.Sscanf(st.str("seq"), "%d", &seq)
			body := sim.Payload(fmt.Sprintf("k%d:", k), st.num("in"))
			if !strings.HasPrefix(body, fmt.Sprintf("k%d:", k)) {
				body = fmt.Sprintf("k%d:", k) + body
			}
			r := &req{body: body, method: m, mode: st.str("mode"), ab: st.num("ab"), hold: st.flag("hold"), kind: kind, size: st.num("out")}
			mu.Lock()
			rqs[k] = r
			rel[k] = make(chan struct{})
			mu.Unlock()
			fr := sim.Frame{Cmd: sim.CmdReq, Seq: seq, Async: st.flag("as"), Method: m, Data: []byte(body)}
			if kind == "notify" {
				fr.Cmd = sim.CmdNotify
			}
			if kind == "other" {
				fr.Cmd = byte(st.num("cmd"))
				fr.Local = st.flag("loc")
			}
			b := fr.Bytes()
			if coder != nil {
				b = xor.do(b)
			}
			bd := &httpBody{w: w, n: st.num("chunk")}
			if kind == "bad" {
				n := st.num("n")
				switch st.str("how") {
				case "short":
					b = b[:n%16]
				case "trunc":
					b = b[:16+n%(len(b)-16)]
				case "trail":
					b = append(b, make([]byte, 1+n%40)...)
				case "twice":
					b = append(b, b...)
				case "less":
					binary.LittleEndian.PutUint32(b, uint32((len(b)-16)-1-n%(len(b)-16)))
				case "more":
					binary.LittleEndian.PutUint32(b, uint32(len(b)-16+1+n))
				case "huge":
					binary.LittleEndian.PutUint32(b, 0xffffffff-uint32(n))
				case "mlen":
					b[7] = byte(128 + n%128)
				case "mlen0":
					b[7] = 0
				case "mlenbody":
					b = b[:16+3]
					binary.LittleEndian.PutUint32(b, 3)
					b[7] = byte(4 + n%100)
				case "fail":
					bd.fail = true
				case "big":
					b = append(b, make([]byte, sc.num("maxbody")+1)...)
					binary.LittleEndian.PutUint32(b, uint32(len(b)-16))
				}
			}
			bd.b = b
			known := m == "/a" || m == "/b"
			w.Log(sim.Ev{"e": "Post", "k": k, "kind": kind, "m": m, "known": known, "seq": fmt.Sprint(seq), "as": st.flag("as")})
			wg.Add(1)
			go func() {
				defer wg.Done()
				hw := &httpW{hdr: http.Header{}, late: func() { w.Log(sim.Ev{"e": "Late", "k": k}) }}
				rq := &http.Request{Method: "POST", Body: bd, Header: http.Header{}}
				if kind == "bad" && st.str("how") == "nil" {
					rq.Body = nil
				}
				func() {
					// as net/http does
					defer func() {
						if e := recover(); e != nil {
							w.Log(sim.Ev{"e": "Crash", "why": fmt.Sprint(e)})
						}
					}()
					hh(hw, rq)
				}()
				hw.mu.Lock()
				defer hw.mu.Unlock()
				hw.done = true
				out := hw.buf.Bytes()
				fs := []sim.Ev{}
				for len(out) >= 16 {
					n := int(binary.LittleEndian.Uint32(out)) + 16
					if n > len(out) {
						break
					}
					fb := out[:n]
					out = out[n:]
					if coder != nil {
						fb = xor.undo(fb)
					}
					f := sim.Parse(fb)
					tok := sim.Token(string(f.Data))
					if string(f.Data) == arpc.ErrMethodNotFound.Error() {
						tok = "notfound"
					}
					fs = append(fs, sim.Ev{"cmd": f.Cmd, "seq": fmt.Sprint(f.Seq), "as": f.Async, "m": f.Method, "err": f.Err, "tok": tok})
				}
				if len(out) > 0 {
					fs = append(fs, sim.Ev{"rest": len(out)})
				}
				w.Log(sim.Ev{"e": "Resp", "k": k, "fr": fs})
			}()
		}
	}
	w.Settle()
	mu.Lock()
	for _, ch := range rel {
		select {
		case <-ch:
		default:
			close(ch)
		}
	}
	mu.Unlock()
	time.Sleep(3 * time.Second)
	w.Settle()
	w.Log(sim.Ev{"e": "End"})
	wg.Wait()
}
