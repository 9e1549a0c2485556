package eng

import (
	"fmt"
	"net"
	"runtime"
	"sync"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/router"
)

func init() { engines["graceful"] = runGraceful }

func runGraceful(w *sim.World, sc *Scenario) {
	arpc.DefaultHandler.SetAsyncResponse(!sc.flag("sync"))
	defer arpc.DefaultHandler.SetAsyncResponse(true)
	n := w.NewNet(0)
	srv := arpc.NewServer()
	g := &router.Graceful{}
	var mu sync.Mutex
	rel := map[int]chan struct{}{}
	gate := func(k int) chan struct{} {
		mu.Lock()
		defer mu.Unlock()
		if rel[k] == nil {
			rel[k] = make(chan struct{})
		}
		return rel[k]
	}
	num := func(ctx *arpc.Context) int {
		k := 0
		fmt.Sscanf(string(ctx.Body()), "r%d", &k)
		return k
	}
	// a shutdown may be made as a certain request arrives
	arr := map[int]chan struct{}{}
	arrived := func(k int) chan struct{} {
		mu.Lock()
		defer mu.Unlock()
		if arr[k] == nil {
			arr[k] = make(chan struct{})
		}
		return arr[k]
	}
	arrive := func(k int) {
		ch := arrived(k)
		mu.Lock()
		defer mu.Unlock()
		select {
		case <-ch:
		default:
			close(ch)
		}
	}
	for i := 0; i < sc.num("pre"); i++ {
		i := i
		srv.Handler.Use(func(ctx *arpc.Context) {
			w.Jit()
			if i == 0 {
				arrive(num(ctx))
			}
			ctx.Next()
		})
	}
	srv.Handler.Use(g.Handler())
	// what lies behind the middleware: further middleware, then the handler
	post := sc.num("post")
	for i := 0; i < post; i++ {
		i := i
		srv.Handler.Use(func(ctx *arpc.Context) {
			if i == 0 {
				w.Log(sim.Ev{"e": "HB", "k": num(ctx)})
				defer func() { w.Log(sim.Ev{"e": "HE", "k": num(ctx)}) }()
			}
			ctx.Next()
		})
	}
	srv.Handler.Handle("/m", func(ctx *arpc.Context) {
		k := num(ctx)
		if post == 0 {
			w.Log(sim.Ev{"e": "HB", "k": k})
			defer func() { w.Log(sim.Ev{"e": "HE", "k": k}) }()
		}
		<-gate(k)
		w.Jit()
		ctx.Write(fmt.Sprintf("v%d", k))
		if sc.flag("panics") && k%3 == 0 {
			panic("handler panics")
		}
	})
	ln := n.Listen("srv")
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); srv.Serve(ln) }()
	var cs []*arpc.Client
	for i := 0; i < sc.num("conns"); i++ {
		c, err := arpc.NewClient(func() (net.Conn, error) { return n.Dial("srv") })
		if err != nil {
			panic(err)
		}
		cs = append(cs, c)
	}
	quiet := func() { w.Settle(); w.Log(sim.Ev{"e": "Quiet"}) }
	quiet()
	sent := map[int]bool{}
	for _, st := range sc.Steps {
		if d := st.num("dt"); d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
			quiet()
		} else if st.flag("q") {
			quiet()
		}
		k := st.num("k")
		switch st.str("a") {
		case "req":
			c := cs[k%len(cs)]
			kind := st.str("kind")
			sent[k] = true
			wg.Add(1)
			w.Log(sim.Ev{"e": "Req", "k": k, "kind": kind})
			go func() {
				defer wg.Done()
				if kind == "notify" {
					c.Notify("/m", fmt.Sprintf("r%d", k), time.Second)
					return
				}
				var v string
				err := c.Call("/m", fmt.Sprintf("r%d", k), &v, time.Hour)
				r := "other"
				switch {
				case err == nil && v == fmt.Sprintf("v%d", k):
					r = "ok"
				case err != nil && err.Error() == router.ErrShutdown.Error():
					r = "refused"
				case err != nil:
					r = err.Error()
				}
				w.Log(sim.Ev{"e": "Rep", "k": k, "r": r})
			}()
		case "rel":
			ch := gate(k)
			if sent[k] {
				select {
				case <-ch:
				default:
					close(ch)
				}
			}
		case "shut":
			wg.Add(1)
			on := st.num("on")
			if on == 0 {
				w.Log(sim.Ev{"e": "ShutB", "j": st.num("j")})
			}
			go func() {
				defer wg.Done()
				if on > 0 {
					<-arrived(on)
					w.Log(sim.Ev{"e": "ShutB", "j": st.num("j")})
				}
				for i := 0; i < st.num("spin"); i++ {
					runtime.Gosched()
				}
				g.Shutdown()
				w.Log(sim.Ev{"e": "ShutE", "j": st.num("j")})
			}()
		}
	}
	quiet()
	for _, st := range sc.Steps {
		if on := st.num("on"); on > 0 {
			arrive(on)
		}
	}
	// time for a shutdown which does not wait to show
	time.Sleep(150 * time.Millisecond)
	quiet()
	for k := range sent {
		ch := gate(k)
		select {
		case <-ch:
		default:
			close(ch)
		}
	}
	time.Sleep(2 * time.Second)
	w.Settle()
	w.Log(sim.Ev{"e": "End"})
	for _, c := range cs {
		c.Stop()
	}
	srv.Stop()
	wg.Wait()
	w.Settle()
}
