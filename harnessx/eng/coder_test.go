package eng

import (
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	"github.com/lesismal/arpc/extension/middleware/coder/msgpack"
)

func init() { engines["coder"] = runCoder }

// tagCoder adds one layer: a byte at the end of the payload.
type tagCoder struct {
	w     *sim.World
	i     int
	fresh bool // answers with a new message instead of the given one
	quiet bool
}

func (t *tagCoder) remake(m *arpc.Message, buf []byte) *arpc.Message {
	if !t.fresh {
		m.Buffer = buf
		return m
	}
	n := arpc.DefaultHandler.NewMessageWithBuffer(append([]byte(nil), buf...))
	for k, v := range m.Values() {
		n.Set(k, v)
	}
	return n
}

func (t *tagCoder) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	t.w.Jit()
	m = t.remake(m, append(m.Buffer, byte(0xF0+t.i)))
	m.SetBodyLen(len(m.Buffer) - 16)
	return m
}

func (t *tagCoder) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	n := len(m.Buffer)
	if n > 16 && m.Buffer[n-1] == byte(0xF0+t.i) {
		m = t.remake(m, m.Buffer[:n-1])
		m.SetBodyLen(n - 1 - 16)
	} else if !t.quiet {
		t.w.Log(sim.Ev{"e": "Mis", "i": t.i})
	}
	return m
}

type codWorld struct {
	w    *sim.World
	sc   *Scenario
	pure bool
	link map[*arpc.Client]int // server's clients by number
	mu   sync.Mutex
	nc   int
	buf  map[int][]byte
}

var errBad = errors.New("not a string")

func toBytes(v interface{}) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		return nil, errBad
	}
	return []byte(s), nil
}

func toValue(b []byte) (interface{}, error) { return string(b), nil }

func (k *codWorld) install(h arpc.Handler) {
	for i, s := range k.sc.Cfg["stack"].([]any) {
		n := s.(string)
		switch {
		case n == "tag" || n == "fresh":
			h.UseCoder(&tagCoder{w: k.w, i: i + 1, fresh: n == "fresh"})
		case strings.HasPrefix(n, "gzip"):
			x := 0
			fmt.Sscanf(n, "gzip%d", &x)
			h.UseCoder(gzip.New(x))
		case n == "msgpack":
			h.UseCoder(msgpack.New())
		case n == "apA":
			h.UseCoder(coder.NewAppender("apA", 1, toBytes, toValue))
		case n == "apB":
			h.UseCoder(coder.NewAppender("apB-with-a-longer-name", 3, toBytes, toValue))
		}
	}
}

func apName(n string) string {
	if n == "apB" {
		return "apB-with-a-longer-name"
	}
	return n
}

// values attached by a step: the map and what is recorded about it
func (k *codWorld) vals(st Step, m string) (map[interface{}]interface{}, [][]string) {
	rec := [][]string{}
	vs, _ := st["vals"].(map[string]any)
	if len(vs) == 0 {
		return nil, rec
	}
	out := map[interface{}]interface{}{}
	var names []string
	for n := range vs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		size := int(vs[n].(float64))
		if size < 0 {
			out[apName(n)] = 12345 // not convertible by the appender
			rec = append(rec, []string{n, "bad"})
			continue
		}
		id := "v" + m + n
		p := sim.Payload(id, size)
		out[apName(n)] = p
		if size+2+len(apName(n)) > 65535 {
			id = "bad"
		}
		rec = append(rec, []string{n, id})
	}
	return out, rec
}

func (k *codWorld) seen(get func(interface{}) (interface{}, bool)) [][]string {
	rec := [][]string{}
	for _, n := range []string{"apA", "apB"} {
		if v, ok := get(apName(n)); ok {
			if s, ok := v.(string); ok {
				rec = append(rec, []string{n, sim.Token(s)})
			}
		}
	}
	return rec
}

// wire parses what goes out on a link.
func (k *codWorld) wire(l int, b []byte) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.buf[l] = append(k.buf[l], b...)
	for len(k.buf[l]) >= 16 {
		n := 16 + int(binary.LittleEndian.Uint32(k.buf[l]))
		if len(k.buf[l]) < n {
			return
		}
		f := sim.Parse(append([]byte(nil), k.buf[l][:n]...))
		k.buf[l] = k.buf[l][n:]
		if f.Cmd == sim.CmdPing || f.Cmd == sim.CmdPong {
			continue
		}
		tags := []int{}
		for len(f.Data) > 0 && f.Data[len(f.Data)-1] >= 0xF0 {
			tags = append([]int{int(f.Data[len(f.Data)-1]) - 0xF0}, tags...)
			f.Data = f.Data[:len(f.Data)-1]
		}
		k.w.Log(sim.Ev{"e": "Wire", "l": l, "m": sim.Token(string(f.Data)), "tags": tags})
	}
}

func runCoder(w *sim.World, sc *Scenario) {
	k := &codWorld{w: w, sc: sc, link: map[*arpc.Client]int{}, buf: map[int][]byte{}, nc: sc.num("nc"), pure: sc.flag("pure")}
	nc := k.nc
	mode := func(h arpc.Handler, m string) {
		h.SetBatchSend(m == "batch")
		h.SetAsyncWrite(m != "direct")
		if m == "batch" {
			h.SetSendBufferSize(sc.num("sbuf"))
		}
		h.SetAsyncResponse(sc.flag("async"))
	}
	n := w.NewNet(sc.num("chunk"))
	n.OnPipe = func(p *sim.Pipe, addr string) {
		if !k.pure {
			return
		}
		i := p.ID
		if i > nc {
			return
		}
		a, b := p.A.OnBytes, p.B.OnBytes
		p.A.OnBytes = func(c *sim.Conn, x []byte) { k.wire(i, x); a(c, x) }
		p.B.OnBytes = func(c *sim.Conn, x []byte) { k.wire(nc+i, x); b(c, x) }
	}
	srv := arpc.NewServer()
	mode(srv.Handler, sc.str("smode"))
	k.install(srv.Handler)
	got := func(s string, l int, vals [][]string, hv bool) {
		w.Log(sim.Ev{"e": "Got", "m": sim.Token(s), "l": l, "vals": vals, "hv": hv})
	}
	sub := func(m string, l int, vals [][]string) {
		w.Log(sim.Ev{"e": "Sub", "m": m, "l": l, "vals": vals})
	}
	up := func(c *arpc.Client) int {
		k.mu.Lock()
		defer k.mu.Unlock()
		return k.link[c]
	}
	// replies: what the request asks for is in its own content: "<m>" is answered with "R<m>"
	reply := func(ctx *arpc.Context, isErr bool) {
		s := string(ctx.Body())
		l := up(ctx.Client)
		got(s, l, k.seen(ctx.Get), true)
		t := sim.Token(s)
		r := "R" + t
		if t[0] == 'z' {
			r = "zR" + t
		}
		vs := [][]string{}
		if ctx.Message.IsAsync() {
			vs = k.seen(ctx.Get)
		}
		if v, ok := ctx.Get("apA"); ok && v == 12345 {
			vs = append(vs, []string{"apA", "bad"})
		}
		sub(r, nc+l, vs)
		p := sim.Payload(r, len(s))
		if isErr {
			ctx.Error(p)
		} else {
			ctx.Write(p)
		}
	}
	srv.Handler.Handle("/call", func(ctx *arpc.Context) { reply(ctx, false) })
	srv.Handler.Handle("/err", func(ctx *arpc.Context) { reply(ctx, true) })
	srv.Handler.Handle("/note", func(ctx *arpc.Context) {
		got(string(ctx.Body()), up(ctx.Client), k.seen(ctx.Get), true)
	})
	recv := func(s *arpc.Stream, l int) {
		for {
			var v string
			if err := s.Recv(&v); err != nil {
				return
			}
			got(v, l, [][]string{}, false)
		}
	}
	srv.Handler.HandleStream("/str", func(s *arpc.Stream) {
		recv(s, sc.num("strl"))
	}, true)
	ln := n.Listen("srv")
	var last *arpc.Client
	srv.Handler.HandleConnected(func(c *arpc.Client) { k.mu.Lock(); last = c; k.mu.Unlock() })
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); srv.Serve(ln) }()
	cs := []*arpc.Client{nil}
	sv := []*arpc.Client{nil}
	for i := 1; i <= nc; i++ {
		i := i
		h := arpc.NewHandler()
		mode(h, sc.str("cmode"))
		h.Handle("/note", func(ctx *arpc.Context) { got(string(ctx.Body()), nc+i, k.seen(ctx.Get), true) })
		h.Handle("/echo", func(ctx *arpc.Context) {
			s := string(ctx.Body())
			got(s, nc+i, k.seen(ctx.Get), true)
			r := "R" + sim.Token(s)
			sub(r, i, [][]string{})
			ctx.Write(sim.Payload(r, len(s)))
		})
		h.HandleStream("/str", func(s *arpc.Stream) { recv(s, nc+i) }, true)
		k.install(h)
		c, err := arpc.NewClient(func() (net.Conn, error) { return n.Dial("srv") }, h)
		if err != nil {
			panic(err)
		}
		w.Settle()
		k.mu.Lock()
		k.link[last] = i
		sv = append(sv, last)
		k.mu.Unlock()
		cs = append(cs, c)
	}
	streams := map[int]*arpc.Stream{}
	quiet := func() { w.Settle(); w.Log(sim.Ev{"e": "Quiet"}) }
	quiet()
	var held []int
	for _, st := range sc.Steps {
		if st.flag("q") {
			for _, h := range held {
				p := n.All()[(h-1)%nc]
				p.Hold(h <= nc, false)
			}
			held = nil
			quiet()
		}
		m, l, kind := st.str("m"), st.num("l"), st.str("kind")
		p := sim.Payload(m, st.num("size"))
		vm, vr := k.vals(st, m)
		var args []interface{}
		if vm != nil {
			args = append(args, vm)
		}
		run := func(f func()) {
			if st.flag("go") {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			} else {
				f()
			}
		}
		switch st.str("a") {
		case "hold":
			n.All()[(l-1)%nc].Hold(l <= nc, true)
			held = append(held, l)
		case "bcast":
			for i := 1; i <= nc; i++ {
				sub(m, nc+i, vr)
			}
			if st.flag("filter") {
				srv.BroadcastWithFilter("/note", p, func(*arpc.Client) bool { return true }, args...)
			} else {
				srv.Broadcast("/note", p, args...)
			}
		case "sub":
			var c *arpc.Client
			note := "/note"
			if l <= nc {
				c = cs[l]
			} else {
				c = sv[l-nc]
			}
			switch kind {
			case "note":
				run(func() { sub(m, l, vr); c.Notify(note, p, time.Second, args...) })
			case "push":
				run(func() {
					sub(m, l, vr)
					msg := c.NewMessage(arpc.CmdNotify, note, p, args...)
					c.PushMsg(msg, time.Second)
				})
			case "call", "err":
				wg.Add(1)
				sub(m, l, vr)
				go func() {
					defer wg.Done()
					var r string
					meth := "/" + kind
					if l > nc {
						meth = "/echo"
					}
					err := c.Call(meth, p, &r, time.Minute, args...)
					if kind == "err" && l <= nc {
						if err != nil {
							r = err.Error()
						}
					} else if err != nil {
						return
					}
					got(r, back(l, nc), [][]string{}, false)
				}()
			case "async":
				sub(m, l, vr)
				c.CallAsync("/call", p, func(ctx *arpc.Context, err error) {
					if err == nil {
						got(string(ctx.Body()), back(l, nc), k.seen(ctx.Get), true)
					}
				}, time.Minute, args...)
			case "str":
				s := streams[l]
				if s == nil {
					s = c.NewStream("/str")
					streams[l] = s
				}
				sub(m, l, [][]string{})
				s.Send(p, args...)
			}
		}
	}
	for _, h := range held {
		n.All()[(h-1)%nc].Hold(h <= nc, false)
	}
	w.Settle()
	for _, s := range streams {
		s.CloseSend()
	}
	quiet()
	if sc.flag("plain") {
		// a peer without coders: its messages are left alone
		c, err := arpc.NewClient(func() (net.Conn, error) { return n.Dial("srv") }, arpc.NewHandler())
		if err == nil {
			w.Settle()
			k.mu.Lock()
			k.link[last] = 99
			k.mu.Unlock()
			for j, size := range []int{1, 20, 3000} {
				for _, pre := range []string{"p", "zp"} {
					m := fmt.Sprintf("%s%d", pre, j)
					sub(m, 99, [][]string{})
					c.Notify("/note", sim.Payload(m, size), time.Second)
				}
			}
			quiet()
			c.Stop()
		}
	}
	for _, c := range cs[1:] {
		c.Stop()
	}
	srv.Stop()
	wg.Wait()
	w.Settle()
}

// back is the link of the answer to what was sent on l.
func back(l, nc int) int {
	if l <= nc {
		return nc + l
	}
	return l - nc
}
