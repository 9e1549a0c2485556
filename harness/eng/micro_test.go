package eng

import (
	"fmt"
	"net"
	"sync"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/micro"
)

func init() { engines["micro"] = runMicro }

type microWorld struct {
	w    *sim.World
	sc   *Scenario
	n    *sim.Net
	mu   sync.Mutex
	cond *sync.Cond
	sm   micro.ServiceManager
	pipe map[int][]*sim.Pipe
	own  map[net.Conn]int
	nk   int
	q    map[int][]Step
	end  bool
}

func (k *microWorld) sv(d int) int { return int(k.sc.Cfg["sv"].([]any)[d-1].(float64)) }

func (k *microWorld) path(d int) string { return fmt.Sprintf("app/svc%d/node%d", k.sv(d), d) }

func (k *microWorld) dial(addr string) (net.Conn, error) {
	var d int
	fmt.Sscanf(addr, "node%d", &d)
	k.w.Jit()
	k.mu.Lock()
	defer k.mu.Unlock()
	x, err := k.n.Dial(addr)
	if err != nil {
		return nil, err
	}
	c := x.(*sim.Conn)
	for _, p := range k.n.All() {
		if p.A == c {
			k.pipe[d] = append(k.pipe[d], p)
		}
	}
	k.own[x] = d
	old := c.OnClose
	c.OnClose = func(x *sim.Conn) { old(x); k.w.Log(sim.Ev{"e": "Shut", "d": d, "c": c.ID}) }
	k.w.Log(sim.Ev{"e": "Link", "d": d, "c": c.ID})
	return x, nil
}

func runMicro(w *sim.World, sc *Scenario) {
	k := &microWorld{w: w, sc: sc, pipe: map[int][]*sim.Pipe{}, own: map[net.Conn]int{}, q: map[int][]Step{}}
	k.cond = sync.NewCond(&k.mu)
	k.n = w.NewNet(0)
	n := sc.num("n")
	var srvs []*arpc.Server
	var wg sync.WaitGroup
	for d := 1; d <= n; d++ {
		s := arpc.NewServer()
		ln := k.n.Listen(fmt.Sprintf("node%d", d))
		srvs = append(srvs, s)
		wg.Add(1)
		go func() { defer wg.Done(); s.Serve(ln) }()
	}
	k.sm = micro.NewServiceManager(k.dial)
	for c := 1; c <= sc.num("nch"); c++ {
		go k.chooser(c)
	}
	k.quiet()
	for _, st := range sc.Steps {
		if dt := st.num("dt"); dt > 0 {
			time.Sleep(time.Duration(dt) * time.Millisecond)
			k.quiet()
		} else if st.flag("q") {
			k.quiet()
		}
		k.step(st)
	}
	k.quiet()
	for d := 1; d <= n; d++ {
		k.step(Step{"a": "del", "d": d})
	}
	time.Sleep(3 * time.Second)
	k.quiet()
	k.mu.Lock()
	k.end = true
	k.cond.Broadcast()
	k.mu.Unlock()
	for _, s := range srvs {
		s.Stop()
	}
	wg.Wait()
	w.Settle()
}

func (k *microWorld) quiet() {
	k.w.Settle()
	k.w.Log(sim.Ev{"e": "Quiet"})
}

func (k *microWorld) step(st Step) {
	d := st.num("d")
	switch st.str("a") {
	case "add":
		var wg sync.WaitGroup
		for i := 0; i < 1+st.num("dup"); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				k.w.Log(sim.Ev{"e": "AddB", "d": d, "w": st.num("w")})
				k.sm.AddServiceNodes(k.path(d), st.str("ws"))
				k.w.Log(sim.Ev{"e": "AddE", "d": d})
			}()
		}
		wg.Wait()
	case "del":
		k.w.Log(sim.Ev{"e": "DelB", "d": d})
		k.sm.DeleteServiceNodes(k.path(d))
		k.w.Log(sim.Ev{"e": "DelE", "d": d})
	case "down":
		k.mu.Lock()
		k.n.Refuse(fmt.Sprintf("node%d", d), true)
		k.w.Log(sim.Ev{"e": "Down", "d": d})
		for _, p := range k.pipe[d] {
			p.Cut(st.flag("reset"))
		}
		k.pipe[d] = nil
		k.mu.Unlock()
	case "up":
		k.w.Log(sim.Ev{"e": "Up", "d": d})
		k.n.Refuse(fmt.Sprintf("node%d", d), false)
	case "next":
		k.mu.Lock()
		k.q[st.num("k")] = append(k.q[st.num("k")], st)
		k.cond.Broadcast()
		k.mu.Unlock()
	}
}

func (k *microWorld) chooser(id int) {
	for {
		k.mu.Lock()
		for len(k.q[id]) == 0 && !k.end {
			k.cond.Wait()
		}
		if k.end {
			k.mu.Unlock()
			return
		}
		st := k.q[id][0]
		k.q[id] = k.q[id][1:]
		k.mu.Unlock()
		for j := 0; j < 1+st.num("times"); j++ {
			k.mu.Lock()
			k.nk++
			x := k.nk
			k.w.Log(sim.Ev{"e": "NextB", "k": x, "s": st.num("s")})
			k.mu.Unlock()
			c, err := k.sm.ClientBy(fmt.Sprintf("svc%d", st.num("s")))
			res, d := "ok", 0
			switch {
			case err == micro.ErrServiceNotFound:
				res = "notfound"
			case err == micro.ErrServiceUnreachable:
				res = "unreach"
			case err != nil || c == nil:
				res = "other"
			default:
				k.mu.Lock()
				d = k.own[c.Conn]
				k.mu.Unlock()
			}
			k.w.Log(sim.Ev{"e": "NextE", "k": x, "res": res, "d": d})
		}
	}
}
