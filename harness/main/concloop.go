package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// Programs whose goroutines repeat their operations for a while: every result must be one the
// specification has for that operation in the endless program.

type loopScript struct {
	Configs []cfgSpec
	Cfg0    int
	SetOuts [][]string
	Progs   []concProg
	Runs    []int
	Millis  int
	Seed    int64
}

type loopRec struct {
	proc, seq int
	over      bool
	dst       []string
}

type loopOut struct {
	name string
	hold bool
	rnd  uint64
	last [8]int
	late int64
	bad  int64
	nfmt int64
}

var loopKey = "rec"

func (o *loopOut) Send(e *api.Event) {
	rec, _ := e.Ctx.Value(loopKey).(*loopRec)
	if rec == nil {
		atomic.AddInt64(&o.bad, 1)
		return
	}
	if rec.over {
		atomic.AddInt64(&o.late, 1)
	}
	rec.dst = append(rec.dst, o.name)
	if o.last[rec.proc] >= rec.seq {
		atomic.AddInt64(&o.bad, 1)
	}
	o.last[rec.proc] = rec.seq
}

// CallerInfoFlag is called while outputs are set: dawdle, so that others get in between.
func (o *loopOut) CallerInfoFlag() int {
	switch x := atomic.AddUint64(&o.rnd, 0x9E3779B97F4A7C15); (x >> 40) % 8 {
	case 0, 1:
		runtime.Gosched()
	case 2, 3, 4:
		for t := time.Now(); time.Since(t) < 2*time.Microsecond; {
		}
	case 5:
		if o.hold {
			time.Sleep(50 * time.Microsecond)
		}
	}
	return 0
}
func (o *loopOut) SetFormatter(f api.Formatter) { atomic.AddInt64(&o.nfmt, 1) }
func (o *loopOut) Close()                       {}

func runConcLoop(script []byte) interface{} {
	s := &loopScript{}
	parse(script, s)
	m := log4g.GetManager()
	m.RegisterFormatterCreator("conc", func(api.CfgFormat) (api.Formatter, error) { return concFmt{}, nil })
	var omu sync.Mutex
	outs := map[string]*loopOut{}
	rnd := rand.New(rand.NewSource(s.Seed))
	newOut := func(full string) *loopOut {
		omu.Lock()
		defer omu.Unlock()
		name := full
		if i := strings.Index(full, "."); i >= 0 {
			name = full[i+1:]
		}
		o := &loopOut{name: name, hold: strings.HasPrefix(name, "h"), rnd: rnd.Uint64()}
		outs[full] = o
		return o
	}
	m.RegisterOutputCreator("rec", func(cfg api.CfgOutput) (api.Output, error) { return newOut(cfg.Name()), nil })
	m.RegisterOutputCreator("bad", func(cfg api.CfgOutput) (api.Output, error) { return nil, fmt.Errorf("cannot create") })
	counts := map[string]int{}
	var bad []string
	for n, k := range s.Runs {
		p := &s.Progs[k-1]
		r := &concRep{s: &concScript{Configs: s.Configs, SetOuts: s.SetOuts}, n: n, tag: fmt.Sprintf("t%d", n)}
		user := map[string]api.Output{}
		for _, o := range outs { // the output of the root is there from the run before
			o.last = [8]int{}
		}
		for _, l := range s.SetOuts {
			for _, o := range l {
				user[o] = newOut(r.tag + "." + o)
			}
		}
		must(m.SetConfig(r.config(s.Cfg0)))
		for _, nm := range p.Setup {
			log4g.GetLogger(r.lname(nm))
		}
		cfgs := make([]*api.Config, len(s.Configs)+1)
		for i := range s.Configs {
			cfgs[i+1] = r.config(i + 1)
		}
		var stop int32
		var wg sync.WaitGroup
		seen := make([]map[string]int, len(p.Procs))
		bads := make([]string, len(p.Procs))
		for gi := range p.Procs {
			seen[gi] = map[string]int{}
			wg.Add(1)
			go func(gi int) {
				defer wg.Done()
				ops := p.Procs[gi]
				names := make([]string, len(ops))
				for i := range ops {
					names[i] = r.lname(ops[i].Name)
				}
				ls := make([]api.Logger, len(ops))
				count := make([]map[string]int, len(ops))
				for i := range count {
					count[i] = map[string]int{}
				}
				x := uint64(r.n)*77 + uint64(gi)*1234567 + 1
				bads[gi] = guard(func() {
					for seq := 1; atomic.LoadInt32(&stop) == 0; {
						for i, op := range ops {
							x ^= x << 13
							x ^= x >> 7
							x ^= x << 17
							if x%64 == 0 {
								runtime.Gosched()
							}
							if ls[i] == nil && names[i] != "" {
								ls[i] = log4g.GetLogger(names[i])
							}
							switch op.Op {
							case "get":
								if log4g.GetLogger(names[i]) != ls[i] {
									panic("another logger for " + names[i])
								}
							case "config":
								must(m.SetConfig(cfgs[op.Arg]))
							case "level":
								ls[i].SetLevel(api.Level(op.Arg))
							case "outs":
								os := make([]api.Output, 0, 2)
								for _, o := range s.SetOuts[op.Arg-1] {
									os = append(os, user[o])
								}
								ls[i].SetOutputs(os)
							case "query":
								count[i][fmt.Sprint(int(ls[i].Level()))]++
							case "resolve":
								m.GetLoggerOutputs(names[i])
							case "log":
								rec := &loopRec{proc: gi, seq: seq}
								seq++
								ls[i].WithFields(api.Field{Key: loopKey, Value: rec}).Printf(api.Level(op.Arg), "m")
								rec.over = true
								switch len(rec.dst) {
								case 0:
									count[i][""]++
								case 1:
									count[i][rec.dst[0]]++
								default:
									count[i][strings.Join(rec.dst, ",")]++
								}
							}
						}
					}
				})
				for i := range ops {
					for d, c := range count[i] {
						j, _ := json.Marshal([]interface{}{k, gi + 1, i + 1, d})
						seen[gi][string(j)] = c
					}
				}
			}(gi)
		}
		time.Sleep(time.Duration(s.Millis) * time.Millisecond)
		atomic.StoreInt32(&stop, 1)
		if !within(20*time.Second, wg.Wait) {
			return map[string]interface{}{"Counts": counts, "Bad": bad, "Stuck": stacks()}
		}
		for gi := range seen {
			for d, c := range seen[gi] {
				counts[d] += c
			}
			if bads[gi] != "" {
				bad = append(bad, bads[gi])
			}
		}
		omu.Lock()
		for full, o := range outs {
			if o.bad > 0 || o.late > 0 {
				bad = append(bad, fmt.Sprintf("output %s: %d messages out of order, twice or without their field, %d after the call returned", full, o.bad, o.late))
			}
			o.bad, o.late = 0, 0
		}
		omu.Unlock()
	}
	return map[string]interface{}{"Counts": counts, "Bad": bad}
}

func init() { modes["concloop"] = runConcLoop }
