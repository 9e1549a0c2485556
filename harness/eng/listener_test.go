package eng

import (
	"errors"
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/sim"

	"github.com/lesismal/arpc/extension/listener"
)

func init() { realEngines["listener"] = runListener }

// no process shares its address with another one, and nobody dials from it
var lnHost = fmt.Sprintf("127.%d.%d.%d", 10+os.Getpid()%200, (os.Getpid()/200)%250, 1+(os.Getpid()/50000)%250)

// something that had to happen did not: no need to wait that long in further scenarios
var lnGaveUp atomic.Bool

func lnWait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; ; i++ {
		if f() {
			return true
		}
		if time.Now().After(end) {
			if d >= time.Second {
				lnGaveUp.Store(true)
			}
			return false
		}
		if i < 20 {
			time.Sleep(100 * time.Microsecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
}

func runListener(w *sim.World, sc *Scenario) {
	if lnGaveUp.Load() {
		w.Log(sim.Ev{"e": "Skip"})
		return
	}
	ln, err := listener.Listen("tcp", lnHost+":0", sc.num("max"), "")
	if err != nil {
		panic(err)
	}
	addr := ln.Addr().String()
	type conn struct {
		c, s     net.Conn
		k        int
		side     string
		got, end bool
		done     bool
	}
	var mu sync.Mutex
	byPort := map[string]*conn{}
	cs := map[int]*conn{}
	lock := func(f func()) { mu.Lock(); f(); mu.Unlock() }
	var ended atomic.Bool
	lg := func(e sim.Ev) {
		if !ended.Load() {
			w.Log(e)
		}
	}
	var runEnd atomic.Bool
	start := func() {
		go func() {
			ln.Run()
			lg(sim.Ev{"e": "RunEnd"})
			runEnd.Store(true)
		}()
	}
	if !sc.flag("late") {
		start()
	}
	a, b := ln.Listeners()
	sides := map[string]net.Listener{"A": a, "B": b}
	tok := map[string]chan struct{}{"A": make(chan struct{}, 4096), "B": make(chan struct{}, 4096)}
	free := make(chan struct{})
	var idle atomic.Int32
	var errs sync.WaitGroup
	errs.Add(2)
	accept := func(side string) bool {
		c, err := sides[side].Accept()
		if err != nil {
			lg(sim.Ev{"e": "AccErr", "side": side, "closed": errors.Is(err, net.ErrClosed)})
			return false
		}
		if c == nil {
			lg(sim.Ev{"e": "Got", "side": side, "k": 0, "ok": false})
			return false
		}
		var k *conn
		// the client registers its port after its dial has returned
		lnWait(10*time.Second, func() bool {
			lock(func() { k = byPort[c.RemoteAddr().String()] })
			return k != nil
		})
		if k == nil {
			lg(sim.Ev{"e": "Got", "side": side, "k": 0, "ok": false})
			return true
		}
		// is it open both ways?
		ok := true
		c.SetDeadline(time.Now().Add(10 * time.Second))
		if _, err := c.Write([]byte{byte(k.k)}); err != nil {
			ok = false
		}
		buf := []byte{0}
		if _, err := c.Read(buf); err != nil || buf[0] != byte(k.k) {
			ok = false
		}
		if sides[side].Addr().String() != addr {
			ok = false
		}
		c.SetDeadline(time.Time{})
		lg(sim.Ev{"e": "Got", "side": side, "k": k.k, "ok": ok})
		lock(func() { k.got, k.side, k.s = true, side, c })
		return true
	}
	for side := range sides {
		go func() {
			defer errs.Done()
			for {
				idle.Add(1)
				select {
				case <-tok[side]:
				case <-free:
				}
				idle.Add(-1)
				if !accept(side) {
					return
				}
			}
		}()
	}
	var rlim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &rlim)
	failing := false
	unlimit := func() {
		if failing {
			failing = false
			syscall.Setrlimit(syscall.RLIMIT_NOFILE, &rlim)
		}
	}
	defer unlimit()
	dialer := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)}, Timeout: 10 * time.Second}
	dial := func(k int) {
		lg(sim.Ev{"e": "DialB", "k": k})
		if failing {
			// exactly one more descriptor: the dial has it, the accept fails
			f, err := syscall.Dup(0)
			if err == nil {
				syscall.Close(f)
				lim := rlim
				lim.Cur = uint64(f + 1)
				syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
			}
		}
		c, err := dialer.Dial("tcp", addr)
		if err != nil && failing {
			unlimit()
			c, err = dialer.Dial("tcp", addr)
		}
		if err != nil {
			lg(sim.Ev{"e": "DialE", "k": k, "ok": false, "err": err.Error()})
			return
		}
		x := &conn{c: c, k: k}
		// what the client sees of its connection
		go func() {
			buf := []byte{0}
			for {
				_, err := c.Read(buf)
				if err != nil {
					lg(sim.Ev{"e": "CliEnd", "k": k})
					lock(func() { x.end = true })
					c.Close()
					return
				}
				c.Write(buf)
			}
		}()
		lg(sim.Ev{"e": "DialE", "k": k, "ok": true})
		lock(func() { cs[k] = x; byPort[c.LocalAddr().String()] = x })
	}
	closing := false
	freed := false
	closeIt := func() {
		if closing {
			return
		}
		unlimit()
		closing = true
		lg(sim.Ev{"e": "CloseB"})
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if e := recover(); e != nil {
					lg(sim.Ev{"e": "Crash", "why": fmt.Sprint(e)})
				}
			}()
			ln.Close()
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			lnGaveUp.Store(true)
			lg(sim.Ev{"e": "Hang", "why": "Close hangs"})
		}
		lg(sim.Ev{"e": "CloseE"})
		c, err := dialer.Dial("tcp", addr)
		lg(sim.Ev{"e": "LateDial", "ok": err == nil})
		if err == nil {
			c.Close()
		}
	}
	setFree := func() {
		if !freed {
			freed = true
			close(free)
		}
	}
	started := !sc.flag("late")
	for _, st := range sc.Steps {
		if us := st.num("us"); us > 0 {
			time.Sleep(time.Duration(us) * time.Microsecond)
		}
		switch st.str("a") {
		case "run":
			if !started {
				started = true
				start()
			}
		case "dial":
			if !closing {
				dial(st.num("k"))
			}
		case "burst":
			// several dials at once
			var wg sync.WaitGroup
			for i := 0; i < st.num("n"); i++ {
				wg.Add(1)
				k := st.num("k") + i
				go func() { defer wg.Done(); dial(k) }()
			}
			wg.Wait()
		case "acc":
			select {
			case tok[st.str("side")] <- struct{}{}:
			default:
			}
		case "off":
			// of a connection which was handed to side A
			var x *conn
			find := func() bool {
				mu.Lock()
				defer mu.Unlock()
				for _, y := range cs {
					if y.got && y.side == "A" && !y.done && (x == nil || y.k < x.k) {
						x = y
					}
				}
				return x != nil
			}
			lnWait(time.Duration(st.num("wait"))*time.Millisecond, find)
			if x == nil {
				continue
			}
			lock(func() { x.done = true })
			if st.flag("shut") {
				lg(sim.Ev{"e": "SrvClose", "k": x.k})
				x.s.Close()
			}
			lg(sim.Ev{"e": "OffB"})
			ln.OfflineA()
			lg(sim.Ev{"e": "OffE"})
		case "err":
			failing = true
		case "noerr":
			unlimit()
		case "calm":
			unlimit()
			if !started {
				started = true
				start()
			}
			setFree()
			lnWait(10*time.Second, func() bool {
				mu.Lock()
				defer mu.Unlock()
				for _, x := range cs {
					if !x.got {
						return false
					}
				}
				return true
			})
			lg(sim.Ev{"e": "Calm"})
		case "close":
			if started {
				closeIt()
			}
		}
	}
	unlimit()
	if !started {
		start()
	}
	closeIt()
	setFree()
	ch := make(chan struct{})
	go func() { errs.Wait(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(10 * time.Second):
		lnGaveUp.Store(true)
	}
	lnWait(10*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		for _, x := range cs {
			if !x.got && !x.end {
				return false
			}
		}
		return runEnd.Load()
	})
	// a later accept ends as well
	for side := range sides {
		d := make(chan struct{})
		go func() { defer close(d); accept(side) }()
		select {
		case <-d:
		case <-time.After(10 * time.Second):
			lnGaveUp.Store(true)
			lg(sim.Ev{"e": "Hang", "why": "a later accept hangs"})
		}
	}
	lg(sim.Ev{"e": "End"})
	ended.Store(true)
	mu.Lock()
	defer mu.Unlock()
	for _, x := range cs {
		x.c.Close()
		if x.s != nil {
			x.s.Close()
		}
	}
}
