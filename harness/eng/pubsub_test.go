package eng

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
)

func init() { engines["pubsub"] = runPubSub }

type psPub struct {
	raw  []byte
	val  interface{}
	tp   int
	from int
}

type psCli struct {
	id   int
	c    *pubsub.Client
	ctl  []Step
	pub  []Step
	ep   int
	pipe *sim.Pipe
	up   bool
	stop bool
}

type psWorld struct {
	w    *sim.World
	sc   *Scenario
	n    *sim.Net
	mu   sync.Mutex
	cond *sync.Cond
	srv  *pubsub.Server
	cls  map[int]*psCli
	spub []Step
	pubs map[int]*psPub
	end  bool
}

const psPassword = "secret"

func (k *psWorld) name(tp int) string {
	s := fmt.Sprintf("t%d", tp)
	if n := k.sc.num("tlen"); n > 0 && tp > 0 {
		return s + strings.Repeat("x", n-len(s)-1) + fmt.Sprint(tp%10)
	}
	return s
}

func (k *psWorld) topic(name string) int {
	for tp := 1; tp <= 4; tp++ {
		if k.name(tp) == name {
			return tp
		}
	}
	return 0
}

func runPubSub(w *sim.World, sc *Scenario) {
	k := &psWorld{w: w, sc: sc, cls: map[int]*psCli{}, pubs: map[int]*psPub{}}
	k.cond = sync.NewCond(&k.mu)
	k.n = w.NewNet(sc.num("chunk"))
	arpc.DefaultHandler.SetAsyncResponse(sc.flag("async"))
	k.srv = pubsub.NewServer()
	arpc.DefaultHandler.SetAsyncResponse(true)
	k.srv.Password = psPassword
	k.setup(k.srv.Handler)
	k.srv.Codec = jitCodec{w}
	// the values published: part of them lie next to each other in one array
	var arena []byte
	type span struct{ p, a, b int }
	var spans []span
	p := 0
	for _, st := range sc.Steps {
		if st.str("a") != "pub" {
			continue
		}
		p++
		st["p"] = float64(p)
		kind := st.str("vk")
		pay := sim.Payload(fmt.Sprintf("p%d", p), st.num("size"))
		k.pubs[p] = &psPub{raw: rawVal(kind, pay), val: mkVal(kind, pay), tp: st.num("tp"), from: st.num("c")}
		if kind == "slice" {
			spans = append(spans, span{p, len(arena), len(arena) + len(pay)})
			arena = append(arena, pay...)
		}
	}
	arena = append(arena, make([]byte, 4096)...)
	for _, s := range spans {
		k.pubs[s.p].val = arena[s.a:s.b]
	}
	ln := k.n.Listen("srv")
	served := make(chan bool)
	go func() { k.srv.Serve(ln); close(served) }()
	for id := 1; id <= sc.num("n"); id++ {
		k.addClient(id)
	}
	go k.worker(0, &k.spub)
	w.Settle()
	for _, st := range sc.Steps {
		if d := st.num("dt"); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
			k.quiet()
		} else if st.flag("q") {
			k.quiet()
		}
		k.step(st)
	}
	k.quiet()
	for _, id := range k.ids() {
		k.block(id, false)
	}
	time.Sleep(12 * time.Second)
	k.quiet()
	// the sessions as they are now
	for i := 0; i < 2; i++ {
		for tp := 1; tp <= sc.num("ntop"); tp++ {
			p++
			k.mu.Lock()
			pay := sim.Payload(fmt.Sprintf("p%d", p), 0)
			k.pubs[p] = &psPub{raw: []byte(pay), val: pay, tp: tp}
			k.mu.Unlock()
			k.step(Step{"a": "pub", "c": 0, "tp": tp, "one": false, "p": p})
		}
		k.quiet()
		time.Sleep(12 * time.Second)
	}
	k.quiet()
	for _, id := range k.ids() {
		k.step(Step{"a": "stopc", "c": id})
	}
	k.quiet()
	k.srv.Stop()
	k.mu.Lock()
	k.end = true
	k.cond.Broadcast()
	k.mu.Unlock()
	<-served
	time.Sleep(30 * time.Second)
	w.Settle()
}

func (k *psWorld) ids() (ids []int) {
	for id := 1; id <= k.sc.num("n"); id++ {
		ids = append(ids, id)
	}
	return
}

func (k *psWorld) setup(h arpc.Handler) {
	sc := k.sc
	h.SetBatchSend(sc.flag("batch"))
	h.SetSendBufferSize(sc.num("sbuf"))
	h.SetBatchRecv(sc.flag("brecv"))
	h.SetAsyncWrite(!sc.flag("direct"))
	h.SetSendQueueSize(sc.num("q"))
	if sc.flag("pool") {
		h.EnablePool(true)
	}
	if cod := newWireCoder(sc.str("coder"), k.w); cod != nil {
		h.UseCoder(cod)
	}
}

func (k *psWorld) addClient(id int) {
	pc := &psCli{id: id}
	k.mu.Lock()
	k.cls[id] = pc
	k.mu.Unlock()
	h := arpc.NewHandler()
	h.SetAsyncResponse(k.sc.flag("async"))
	k.setup(h)
	c, err := pubsub.NewClient(func() (net.Conn, error) {
		x, err := k.n.Dial("srv")
		if err != nil {
			return nil, err
		}
		k.mu.Lock()
		if pc.stop {
			k.mu.Unlock()
			x.Close()
			return nil, net.ErrClosed
		}
		pc.ep++
		pc.up = true
		for _, p := range k.n.All() {
			if p.A == x {
				pc.pipe = p
			}
		}
		k.w.Log(sim.Ev{"e": "Link", "c": id, "ep": pc.ep})
		k.mu.Unlock()
		return x, nil
	}, h)
	if err != nil {
		panic(err)
	}
	c.Codec = jitCodec{k.w}
	k.mu.Lock()
	pc.c = c
	k.mu.Unlock()
	if k.sc.flag("onpub") {
		c.OnPublish(k.handler(pc))
	}
	go k.worker(id, &pc.ctl)
	go k.worker(id, &pc.pub)
}

// handler takes publications.
func (k *psWorld) handler(pc *psCli) pubsub.TopicHandler {
	return func(t *pubsub.Topic) {
		tp := k.topic(t.Name)
		var p int
		ok := false
		k.mu.Lock()
		if n, _ := fmt.Sscanf(unraw(t.Data), "p%d", &p); n == 1 && k.pubs[p] != nil {
			ok = bytes.Equal(t.Data, k.pubs[p].raw) && t.Timestamp > 0
		} else {
			p = 0
		}
		pan := k.sc.num("panicc") == pc.id && p%2 == 0
		k.w.Log(sim.Ev{"e": "Got", "c": pc.id, "tp": tp, "p": p, "ok": ok})
		if pan {
			k.w.Log(sim.Ev{"e": "Panic", "c": pc.id})
		}
		k.mu.Unlock()
		k.w.Jit()
		if pan {
			panic("user panic")
		}
	}
}

func (k *psWorld) next(q *[]Step) (Step, bool) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for len(*q) == 0 && !k.end {
		k.cond.Wait()
	}
	if len(*q) == 0 || k.end {
		return nil, false
	}
	st := (*q)[0]
	*q = (*q)[1:]
	return st, true
}

func (k *psWorld) worker(id int, q *[]Step) {
	for {
		st, ok := k.next(q)
		if !ok {
			return
		}
		tmo := 3001 * time.Millisecond
		var c *pubsub.Client
		if id > 0 {
			c = k.cls[id].c
		}
		tp := st.num("tp")
		res := func(err error) string {
			if err == nil {
				return "ok"
			}
			return "err"
		}
		switch st.str("a") {
		case "auth":
			k.w.Log(sim.Ev{"e": "AuthB", "c": id, "good": st.flag("good")})
			if st.flag("good") {
				c.Password = psPassword
			} else {
				c.Password = []string{"", "secre", "secret ", "Secret"}[k.w.Intn(4)]
			}
			err := c.Authenticate()
			k.w.Log(sim.Ev{"e": "AuthE", "c": id, "res": res(err)})
		case "sub":
			k.w.Log(sim.Ev{"e": "SubB", "c": id, "tp": tp})
			err := c.Subscribe(k.name(tp), k.handler(k.cls[id]), tmo)
			k.w.Log(sim.Ev{"e": "SubE", "c": id, "tp": tp, "res": res(err)})
		case "unsub":
			k.w.Log(sim.Ev{"e": "UnsubB", "c": id, "tp": tp})
			err := c.Unsubscribe(k.name(tp), tmo)
			k.w.Log(sim.Ev{"e": "UnsubE", "c": id, "tp": tp, "res": res(err)})
		case "pub":
			p := st.num("p")
			v := k.pubs[p].val
			k.w.Log(sim.Ev{"e": "PubB", "c": id, "p": p, "tp": tp, "one": st.flag("one")})
			var err error
			switch {
			case id == 0 && st.flag("one"):
				err = k.srv.PublishToOne(k.name(tp), v)
			case id == 0:
				err = k.srv.Publish(k.name(tp), v)
			case st.flag("one"):
				err = c.PublishToOne(k.name(tp), v, tmo)
			default:
				err = c.Publish(k.name(tp), v, tmo)
			}
			k.w.Log(sim.Ev{"e": "PubE", "p": p, "res": res(err)})
		}
		k.w.Jit()
	}
}

func (k *psWorld) quiet() {
	k.w.Settle()
	k.w.Log(sim.Ev{"e": "Quiet"})
}

func (k *psWorld) block(id int, on bool) {
	k.mu.Lock()
	pc := k.cls[id]
	if pc.up && !pc.stop {
		k.w.Log(sim.Ev{"e": "Block", "c": id, "on": on})
		pc.pipe.B.BlockW(on)
	}
	k.mu.Unlock()
}

func (k *psWorld) step(st Step) {
	id := st.num("c")
	k.mu.Lock()
	pc := k.cls[id]
	k.mu.Unlock()
	switch st.str("a") {
	case "auth", "sub", "unsub":
		k.mu.Lock()
		pc.ctl = append(pc.ctl, st)
		k.cond.Broadcast()
		k.mu.Unlock()
	case "pub":
		k.mu.Lock()
		if id == 0 {
			k.spub = append(k.spub, st)
		} else {
			pc.pub = append(pc.pub, st)
		}
		k.cond.Broadcast()
		k.mu.Unlock()
	case "tick":
		time.Sleep(time.Duration(st.num("ms")) * time.Millisecond)
	case "block":
		k.block(id, st.flag("on"))
	case "drop":
		k.mu.Lock()
		if pc.up && !pc.stop {
			pc.up = false
			k.w.Log(sim.Ev{"e": "Drop", "c": id})
			pc.pipe.B.BlockW(false)
			pc.pipe.Cut(st.flag("reset"))
		}
		k.mu.Unlock()
	case "stopc":
		k.mu.Lock()
		was := pc.stop
		pc.stop = true
		pc.up = false
		if !was {
			k.w.Log(sim.Ev{"e": "StopC", "c": id})
			pc.pipe.B.BlockW(false)
		}
		k.mu.Unlock()
		if !was {
			pc.c.Stop()
		}
	}
}
