package eng

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/sim"

	alog "github.com/lesismal/arpc/log"
)

// Scenario is one behaviour of the specification projected to the environment's actions.
type Scenario struct {
	ID     string         `json:"id"`
	Engine string         `json:"engine"`
	Seed   int64          `json:"seed"`
	Cfg    map[string]any `json:"cfg"`
	Steps  []Step         `json:"steps"`
}

// Step is one action.
type Step map[string]any

func (s Step) str(k string) string {
	v, _ := s[k].(string)
	return v
}
func (s Step) num(k string) int {
	switch v := s[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	return 0
}
func (s Step) flag(k string) bool { v, _ := s[k].(bool); return v }

func (sc *Scenario) num(k string) int   { return Step(sc.Cfg).num(k) }
func (sc *Scenario) flag(k string) bool { return Step(sc.Cfg).flag(k) }
func (sc *Scenario) str(k string) string {
	return Step(sc.Cfg).str(k)
}

// setYield configures the scheduling points of an instrumented build.
var setYield = func(permille, burst int, seed uint64) {}

type engine func(w *sim.World, sc *Scenario)

var engines = map[string]engine{}

// engines which run in real time outside a bubble
var realEngines = map[string]engine{}

var (
	fScen  = flag.String("scen", "", "scenario file (one JSON per line)")
	fOut   = flag.String("out", "", "trace output file")
	fProg  = flag.String("prog", "", "progress file")
	fFrom  = flag.Int("from", 0, "first scenario")
	fStep  = flag.Int("stride", 1, "stride")
	fWatch = flag.Int("watch", 20, "seconds of real time a scenario may take")
)

// quietLogger drops arpc's log output.
type quietLogger struct{}

func (quietLogger) SetLevel(int)                 {}
func (quietLogger) Debug(string, ...interface{}) {}
func (quietLogger) Info(string, ...interface{})  {}
func (quietLogger) Warn(string, ...interface{})  {}
func (quietLogger) Error(string, ...interface{}) {}

func TestRun(t *testing.T) {
	if *fScen == "" {
		t.Skip()
	}
	alog.SetLogger(quietLogger{})
	f, err := os.Open(*fScen)
	if err != nil {
		t.Fatal(err)
	}
	var scs []*Scenario
	rd := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(strings.TrimSpace(string(line))) > 0 {
			sc := &Scenario{}
			if e := json.Unmarshal(line, sc); e != nil {
				t.Fatal(e)
			}
			scs = append(scs, sc)
		}
		if err != nil {
			break
		}
	}
	out, err := os.OpenFile(*fOut, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	prog, err := os.OpenFile(*fProg, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	for i := *fFrom; i < len(scs); i += *fStep {
		fmt.Fprintf(prog, "%d\n", i)
		w := runOne(t, scs[i])
		b, err := json.Marshal(map[string]any{"i": i, "id": scs[i].ID, "cfg": scs[i].Cfg, "ev": w.Events()})
		if err != nil {
			t.Fatal(err)
		}
		out.Write(append(b, '\n'))
	}
	fmt.Fprintf(prog, "done\n")
}

func runOne(t *testing.T, sc *Scenario) (w *sim.World) {
	if e, ok := realEngines[sc.Engine]; ok {
		w = sim.NewWorld(sc.Seed, 0, 0)
		setYield(sc.num("yield"), sc.num("yburst"), uint64(sc.Seed))
		defer setYield(0, 0, 0)
		e(w, sc)
		w.Freeze()
		return w
	}
	e, ok := engines[sc.Engine]
	if !ok {
		t.Fatalf("no engine %q", sc.Engine)
	}
	setYield(sc.num("yield"), sc.num("yburst"), uint64(sc.Seed))
	defer setYield(0, 0, 0)
	done := make(chan struct{})
	wd := time.AfterFunc(time.Duration(*fWatch)*time.Second, func() {
		// a goroutine blocked on a mutex or spinning keeps the bubble from settling
		panic("VERIF-HANG")
	})
	defer wd.Stop()
	go func() {
		defer close(done)
		last := 0
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				if w != nil && strings.Contains(s, "deadlock") {
					w.Append(sim.Ev{"e": "Leak", "main": strings.Contains(s, "main bubble")}, last)
					return
				}
				panic(r)
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			w = sim.NewWorld(sc.Seed, sc.num("jit"), sc.num("jitpct"))
			e(w, sc)
			last = w.Now()
			w.Freeze()
		})
	}()
	<-done
	return w
}
