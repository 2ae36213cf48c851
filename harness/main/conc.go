package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// Programs of several goroutines, repeated with different timing. Every repetition has loggers
// and outputs of its own: logger "t/a" is called "t17/a" in repetition 17, output "o1" is "t17.o1".

type concOp struct {
	Op   string
	Name []string
	Arg  int
	Arg2 int
}
type concProg struct {
	Setup [][]string
	Procs [][]concOp
	All   []string // every logger there can be
}
type concScript struct {
	Dir     string
	Configs []cfgSpec
	Cfg0    int
	SetOuts [][]string
	Progs   []concProg
	Runs    []int // program numbers, one per repetition
	Seed    int64
}
type concOutcome struct {
	Prog  int             `json:"prog"`
	Res   [][]interface{} `json:"res"`
	Final []concFinal     `json:"final"`
	Made  []string        `json:"made"`
	Bad   []string        `json:"bad"`
}
type concFinal struct {
	Name  string   `json:"name"`
	Level int      `json:"level"`
	Outs  []string `json:"outs"`
}

const (
	goRunning = iota
	goWaiting
	goDone
)

type concRep struct {
	s     *concScript
	n     int
	tag   string // t17
	jit   int
	mu    sync.Mutex
	rnd   *rand.Rand
	got   map[string][]string // message -> outputs in order of delivery
	order map[string][]string // output -> messages
	made  map[string]int
	bad   []string
	state []int32
	done  []int32
	user  map[string]api.Output
}

var concCur atomic.Value // *concRep

type concOut struct {
	r    *concRep
	name string
	f    api.Formatter
	hold bool
}

func (r *concRep) complain(f string, a ...interface{}) {
	r.mu.Lock()
	r.bad = append(r.bad, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// jitter gives other goroutines a chance, in a different way every time.
func (r *concRep) jitter() {
	if r == nil || r.jit == 0 {
		return
	}
	r.mu.Lock()
	k := r.rnd.Intn(100)
	d := r.rnd.Intn(60)
	r.mu.Unlock()
	switch {
	case r.jit == 1 && k < 70 || r.jit == 2 && k < 30:
		return
	case r.jit == 1:
		runtime.Gosched()
	case k < 65:
		for t := time.Now(); time.Since(t) < time.Duration(d)*time.Microsecond/4; {
		}
	default:
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

func (o *concOut) Send(e *api.Event) {
	msg := e.Message()
	r := o.r
	if r == nil { // the shared output of the root
		r = concCur.Load().(*concRep)
	}
	if o.f != nil {
		if t := string(o.f.Format(e)); t != fmt.Sprintf("%s|%d|%s|%s", e.Name, e.Level, msg, msg) {
			r.complain("record %q of %q", t, msg)
		}
	}
	r.jitter()
	r.mu.Lock()
	r.got[msg] = append(r.got[msg], o.name)
	r.order[o.name] = append(r.order[o.name], msg)
	r.mu.Unlock()
	if o.hold {
		r.hold()
	}
}

// hold waits until nobody else can go on (or for a while).
func (r *concRep) hold() {
	for t := time.Now(); time.Since(t) < 20*time.Millisecond; {
		n := 0
		for i := range r.state {
			if atomic.LoadInt32(&r.state[i]) == goRunning {
				n++
			}
		}
		if n <= 1 {
			return
		}
		runtime.Gosched()
	}
}
func (o *concOut) SetFormatter(f api.Formatter) { o.f = f }
func (o *concOut) CallerInfoFlag() int {
	o.r.jitter()
	if o.hold && o.r != nil {
		for i := 0; i < 3; i++ {
			o.r.jitter()
		}
	}
	return 0
}
func (o *concOut) Close() {}

type concFmt struct{}

func (concFmt) Format(e *api.Event) []byte {
	return []byte(fmt.Sprintf("%s|%d|%s|%s", e.Name, e.Level, e.Message(), ctxStr(e.Ctx, "k1")))
}
func (concFmt) CallerInfoFlag() int { return 0 }

func (r *concRep) newOut(full string) *concOut {
	name := full
	if i := strings.Index(full, "."); i >= 0 {
		name = full[i+1:]
	} else {
		r = nil
	}
	return &concOut{r: r, name: name, hold: strings.HasPrefix(name, "h")}
}

func (r *concRep) lname(n []string) string {
	s := strings.Join(n, "")
	if strings.HasPrefix(s, "t") {
		return r.tag + s[1:]
	}
	return s
}

func (r *concRep) plain(n string) string {
	if strings.HasPrefix(n, r.tag) {
		return "t" + n[len(r.tag):]
	}
	return n
}

func (r *concRep) config(i int) *api.Config {
	c := r.s.Configs[i-1]
	cfg := &api.Config{Formats: []api.CfgFormat{{"name": "f", "type": "conc"}}}
	oname := func(o string) string {
		if o == "r0" {
			return o
		}
		return r.tag + "." + o
	}
	for _, o := range c.Outputs {
		cfg.Outputs = append(cfg.Outputs, api.CfgOutput{"name": oname(o.Name), "type": o.Type, "format": "f"})
	}
	for _, l := range c.Loggers {
		e := api.CfgLogger{Name: r.lname(l.Name), Level: l.Level}
		for _, o := range l.Outs {
			e.OutputNames = append(e.OutputNames, oname(o))
		}
		cfg.Loggers = append(cfg.Loggers, e)
	}
	return cfg
}

func runConc(script []byte) interface{} {
	s := &concScript{}
	parse(script, s)
	m := log4g.GetManager()
	m.RegisterFormatterCreator("conc", func(api.CfgFormat) (api.Formatter, error) { return concFmt{}, nil })
	create := func(cfg api.CfgOutput) (api.Output, error) {
		r := concCur.Load().(*concRep)
		r.jitter()
		o := r.newOut(cfg.Name())
		r.mu.Lock()
		r.made[o.name]++
		r.mu.Unlock()
		r.jitter()
		return o, nil
	}
	m.RegisterOutputCreator("rec", create)
	m.RegisterOutputCreator("bad", func(cfg api.CfgOutput) (api.Output, error) {
		concCur.Load().(*concRep).jitter()
		return nil, fmt.Errorf("cannot create")
	})
	counts := map[string]int{}
	rnd := rand.New(rand.NewSource(s.Seed))
	for n, k := range s.Runs {
		r := &concRep{s: s, n: n, tag: fmt.Sprintf("t%d", n), jit: n % 3, rnd: rand.New(rand.NewSource(rnd.Int63())),
			got: map[string][]string{}, order: map[string][]string{}, made: map[string]int{}, user: map[string]api.Output{}}
		concCur.Store(r)
		var o *concOutcome
		stuck := !within(20*time.Second, func() { o = r.run(&s.Progs[k-1], k) })
		if stuck {
			counts[fmt.Sprintf(`{"prog":%d,"bad":["stuck"]}`, k)]++
			return map[string]interface{}{"Counts": counts, "Stuck": stacks()}
		}
		bs, err := json.Marshal(o)
		must(err)
		counts[string(bs)]++
	}
	return map[string]interface{}{"Counts": counts}
}

func (r *concRep) run(p *concProg, k int) *concOutcome {
	m := log4g.GetManager()
	out := &concOutcome{Prog: k, Res: make([][]interface{}, len(p.Procs)), Made: []string{}, Final: []concFinal{}}
	r.state = make([]int32, len(p.Procs))
	r.done = make([]int32, len(p.Procs))
	for _, l := range r.s.SetOuts {
		for _, o := range l {
			if r.user[o] == nil {
				r.user[o] = &concOut{r: r, name: o, f: concFmt{}, hold: strings.HasPrefix(o, "h")}
			}
		}
	}
	jit := r.jit
	r.jit = 0
	must(m.SetConfig(r.config(r.s.Cfg0)))
	var held sync.Map
	get := func(n []string) api.Logger {
		name := r.lname(n)
		l := log4g.GetLogger(name)
		if name == "" {
			name = "root"
		}
		if old, had := held.LoadOrStore(name, l); had && old.(api.Logger) != l {
			r.complain("another logger for %s", r.plain(name))
		}
		return l
	}
	for _, n := range p.Setup {
		get(n)
	}
	cfgs := make([]*api.Config, len(r.s.Configs)+1)
	for i := range r.s.Configs {
		cfgs[i+1] = r.config(i + 1)
	}
	r.jit = jit
	var wg sync.WaitGroup
	start := make(chan struct{})
	lens := make([]int, len(p.Procs))
	for gi := range p.Procs {
		out.Res[gi] = []interface{}{}
		lens[gi] = len(p.Procs[gi])
		wg.Add(1)
		go func(gi int) {
			defer wg.Done()
			defer atomic.StoreInt32(&r.state[gi], goDone)
			<-start
			for oi, op := range p.Procs[gi] {
				r.jitter()
				res := interface{}([]string{})
				bad := guard(func() {
					switch op.Op {
					case "get":
						get(op.Name)
					case "config":
						if err := m.SetConfig(cfgs[op.Arg]); err != nil {
							r.complain("configuration refused: %v", err)
						}
					case "level":
						get(op.Name).SetLevel(api.Level(op.Arg))
					case "outs":
						ops := []api.Output{}
						for _, o := range r.s.SetOuts[op.Arg-1] {
							ops = append(ops, r.user[o])
						}
						get(op.Name).SetOutputs(ops)
					case "query":
						res = []int{int(get(op.Name).Level())}
					case "resolve":
						ops, lvl, err := m.GetLoggerOutputs(r.lname(op.Name))
						if err != nil {
							res = []string{"error"}
						} else {
							l := []interface{}{int(lvl)}
							for _, o := range ops {
								l = append(l, o.(*concOut).name)
							}
							res = l
						}
					case "after":
						atomic.StoreInt32(&r.state[gi], goWaiting)
						for int(atomic.LoadInt32(&r.done[op.Arg-1])) < op.Arg2 {
							runtime.Gosched()
						}
						atomic.StoreInt32(&r.state[gi], goRunning)
					case "log":
						msg := fmt.Sprintf("%s.%d.%d", r.tag, gi, oi)
						var w api.Writer = get(op.Name).WithFields(api.Field{Key: "k1", Value: msg})
						switch r.n % 2 {
						case 0:
							w.Printf(api.Level(op.Arg), "%s", msg)
						default:
							for _, c := range callsFor(op.Arg)[1:2] {
								c.f(w, msg)
							}
						}
						r.mu.Lock()
						res = append([]string{}, r.got[msg]...)
						r.mu.Unlock()
					}
				})
				if bad != "" {
					r.complain("%s: %s", op.Op, bad)
				}
				out.Res[gi] = append(out.Res[gi], res)
				atomic.AddInt32(&r.done[gi], 1)
			}
		}(gi)
	}
	close(start)
	wg.Wait()
	r.jit = 0
	// what was delivered twice, late or out of order
	for gi := range p.Procs {
		for oi, op := range p.Procs[gi] {
			if op.Op == "log" {
				msg := fmt.Sprintf("%s.%d.%d", r.tag, gi, oi)
				if l, _ := out.Res[gi][oi].([]string); len(l) != len(r.got[msg]) {
					r.complain("delivered after the call returned")
				}
			}
		}
	}
	for o, ms := range r.order {
		last := map[string]int{}
		for _, msg := range ms {
			q := strings.Split(msg, ".")
			var i int
			fmt.Sscan(q[2], &i)
			if l, ok := last[q[1]]; ok && l >= i {
				r.complain("out of order at %s", o)
			}
			last[q[1]] = i
		}
	}
	for _, n := range p.All {
		name := r.lname([]string{n})
		l := get([]string{n})
		msg := r.tag + ".99." + r.plain(name)
		l.WithFields(api.Field{Key: "k1", Value: msg}).Critical(msg)
		out.Final = append(out.Final, concFinal{n, int(l.Level()), append([]string{}, r.got[msg]...)})
	}
	for o, c := range r.made {
		if c != 1 {
			r.complain("output %s was created %d times", o, c)
		}
	}
	for i := range r.s.Configs {
		for _, o := range r.s.Configs[i].Outputs {
			if r.made[o.Name] > 0 && o.Name != "r0" {
				r.made[o.Name] = 0
				out.Made = append(out.Made, o.Name)
			}
		}
	}
	out.Bad = r.bad
	return out
}

func init() { modes["conc"] = runConc }
