package eng

import (
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
)

func init() { engines["pool"] = runPool }

type poolWorld struct {
	w    *sim.World
	sc   *Scenario
	n    *sim.Net
	mu   sync.Mutex
	cond *sync.Cond
	pool *arpc.ClientPool
	pipe map[int]*sim.Pipe
	cur  int // member being created, 0 afterwards
	own  map[*arpc.Client]int
	nk   int
	q    map[int][]Step
	end  bool
	stop map[int]bool
}

func (k *poolWorld) dial(i int) (net.Conn, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if i == k.sc.num("failat") {
		return nil, errors.New("no such peer")
	}
	x, err := k.n.Dial(fmt.Sprintf("srv%d", i))
	if err != nil {
		return nil, err
	}
	c := x.(*sim.Conn)
	for _, p := range k.n.All() {
		if p.A == c {
			k.pipe[i] = p
		}
	}
	old := c.OnClose
	c.OnClose = func(x *sim.Conn) { old(x); k.w.Log(sim.Ev{"e": "Shut", "i": i, "c": c.ID}) }
	k.w.Log(sim.Ev{"e": "Link", "i": i, "c": c.ID})
	return x, nil
}

func runPool(w *sim.World, sc *Scenario) {
	k := &poolWorld{w: w, sc: sc, pipe: map[int]*sim.Pipe{}, own: map[*arpc.Client]int{}, q: map[int][]Step{}, stop: map[int]bool{}}
	k.cond = sync.NewCond(&k.mu)
	k.n = w.NewNet(0)
	n := sc.num("n")
	var srvs []*arpc.Server
	var wg sync.WaitGroup
	for i := 1; i <= n; i++ {
		s := arpc.NewServer()
		s.Handler.Handle("/echo", func(ctx *arpc.Context) {
			var v string
			ctx.Bind(&v)
			ctx.Write(v)
		})
		ln := k.n.Listen(fmt.Sprintf("srv%d", i))
		srvs = append(srvs, s)
		wg.Add(1)
		go func() { defer wg.Done(); s.Serve(ln) }()
	}
	var pool *arpc.ClientPool
	var err error
	if sc.flag("multi") {
		var ds []arpc.DialerFunc
		for i := 1; i <= n; i++ {
			i := i
			ds = append(ds, func() (net.Conn, error) { return k.dial(i) })
		}
		pool, err = arpc.NewClientPoolFromDialers(ds)
	} else {
		// one dialer for all: members are created in order, each later dial is of the member whose connection is gone
		k.cur = 1
		pool, err = arpc.NewClientPool(func() (net.Conn, error) {
			k.mu.Lock()
			i := k.cur
			k.cur++
			k.mu.Unlock()
			if i > n {
				return nil, errors.New("unexpected dial")
			}
			return k.dial(i)
		}, n)
	}
	size := 0
	if pool != nil {
		size = pool.Size()
	}
	w.Log(sim.Ev{"e": "New", "ok": err == nil, "size": size})
	if err == nil && pool != nil {
		k.pool = pool
		for i := 0; i < size; i++ {
			k.own[pool.Get(i)] = i + 1
		}
		k.drive()
	}
	w.Settle()
	w.Log(sim.Ev{"e": "Quiet"})
	for _, s := range srvs {
		s.Stop()
	}
	wg.Wait()
	w.Settle()
}

func (k *poolWorld) drive() {
	for c := 1; c <= k.sc.num("nch"); c++ {
		go k.chooser(c)
	}
	k.quiet()
	for _, st := range k.sc.Steps {
		if d := st.num("dt"); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
			k.quiet()
		} else if st.flag("q") {
			k.quiet()
		}
		i := st.num("i")
		switch st.str("a") {
		case "next":
			k.mu.Lock()
			k.q[st.num("k")] = append(k.q[st.num("k")], st)
			k.cond.Broadcast()
			k.mu.Unlock()
		case "down":
			k.mu.Lock()
			k.n.Refuse(fmt.Sprintf("srv%d", i), true)
			k.w.Log(sim.Ev{"e": "Down", "i": i})
			k.pipe[i].Cut(st.flag("reset"))
			k.mu.Unlock()
		case "up":
			k.n.Refuse(fmt.Sprintf("srv%d", i), false)
		case "stopm":
			k.w.Log(sim.Ev{"e": "StopB", "i": i})
			k.pool.Get(i - 1).Stop()
			k.w.Log(sim.Ev{"e": "StopM", "i": i})
		case "get":
			c := k.pool.Get(st.num("idx"))
			k.w.Log(sim.Ev{"e": "Get", "idx": st.num("idx"), "i": k.own[c]})
		case "call":
			k.quiet()
			var r string
			err := k.pool.Get(i-1).Call("/echo", "hello", &r, time.Second)
			k.w.Log(sim.Ev{"e": "Call", "i": i, "ok": err == nil && r == "hello"})
		}
	}
	k.quiet()
	k.mu.Lock()
	k.end = true
	k.cond.Broadcast()
	k.mu.Unlock()
	k.w.Settle()
	k.pool.Stop()
	k.w.Log(sim.Ev{"e": "PoolStop"})
	time.Sleep(3 * time.Second)
}

func (k *poolWorld) quiet() {
	k.w.Settle()
	k.w.Log(sim.Ev{"e": "Quiet"})
}

func (k *poolWorld) chooser(id int) {
	for {
		k.mu.Lock()
		for len(k.q[id]) == 0 && !k.end {
			k.cond.Wait()
		}
		if k.end {
			k.mu.Unlock()
			return
		}
		st := k.q[id][0]
		k.q[id] = k.q[id][1:]
		k.mu.Unlock()
		for j := 0; j < 1+st.num("times"); j++ {
			k.mu.Lock()
			k.nk++
			x := k.nk
			k.w.Log(sim.Ev{"e": "NextB", "k": x})
			k.mu.Unlock()
			var i int
			if st.flag("handler") {
				k.pool.Handler()
				i = -1
			} else {
				i = k.own[k.pool.Next()]
			}
			k.w.Log(sim.Ev{"e": "NextE", "k": x, "i": i})
		}
	}
}
