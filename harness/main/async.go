package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

// gateWriter is a target that can be made to block.
type gateWriter struct {
	mu      sync.Mutex
	open    chan struct{} // closed while writes may pass
	isOpen  bool
	batches [][]int
	bad     string
	in      int
	hook    func([]int)
	delay   func()
}

func newGateWriter() *gateWriter {
	g := &gateWriter{open: make(chan struct{}), isOpen: true}
	close(g.open)
	return g
}

func (g *gateWriter) set(open bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if open == g.isOpen {
		return
	}
	g.isOpen = open
	if open {
		close(g.open)
	} else {
		g.open = make(chan struct{})
	}
}

// Write splits what is written into messages "<n>;".
func (g *gateWriter) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	before := string(p)
	g.mu.Lock()
	ch := g.open
	g.in++
	if g.in > 1 {
		g.bad = "two writes at once"
	}
	g.mu.Unlock()
	<-ch
	if g.delay != nil {
		g.delay()
	}
	g.mu.Lock()
	defer g.mu.Unlock()
	g.in--
	if before != string(p) {
		g.bad = "the data changed during the write"
	}
	b := []int{}
	s := before
	for len(s) > 0 {
		k := strings.IndexByte(s, ';')
		if k < 0 || s[0] != '<' {
			g.bad = fmt.Sprintf("broken record %q in %q", s, before)
			return len(p), nil
		}
		// <id:length:padding>
		f := strings.SplitN(strings.TrimSuffix(s[1:k], ">"), ":", 3)
		id, err := strconv.Atoi(f[0])
		n := -1
		if len(f) == 3 {
			n, _ = strconv.Atoi(f[1])
		}
		if err != nil || len(f) != 3 || len(f[2]) != n || strings.Trim(f[2], string(padding(id))) != "" {
			g.bad = fmt.Sprintf("broken record %q", s[:k])
		}
		b = append(b, id)
		s = s[k+1:]
	}
	if g.hook != nil {
		g.hook(b)
	}
	g.batches = append(g.batches, b)
	return len(p), nil
}

func padding(id int) byte { return byte('a' + id%26) }

func (g *gateWriter) seen() ([][]int, string) {
	g.mu.Lock()
	defer g.mu.Unlock()
	return append([][]int{}, g.batches...), g.bad
}

type asyncHist struct {
	Q, B int
	Low  bool // the threshold is warn instead of info
	Ops  []struct {
		Op  string
		Arg int
	}
	// the sequences of observations the specification allows (used to tell when to go on, in real time)
	Want [][]string
	Void []int // messages rendered as nothing
}

type asyncObs struct {
	Ret  []int
	Cret []int
	Out  [][]int
	Bad  string
}

func (o *asyncObs) key() string {
	return fmt.Sprint(o.Ret, o.Cret, o.Out, o.Bad)
}

func msgEvent(id int, lvl api.Level) *api.Event {
	n := id * 7 % 40
	switch { // few are large
	case id%11 == 4:
		n = 70000
	case id%9 == 2:
		n = 20000
	case id%4 == 3:
		n = 1000 + id
	}
	pad := strings.Repeat(string(padding(id)), n)
	return &api.Event{Format: "<%d:%d:%s>;", Arguments: []interface{}{id, len(pad), pad}, Name: "n", Level: lvl, Time: time.Now(), Ctx: context.Background()}
}

func newAsync(w *gateWriter, q, b int, lowWarn bool) (api.Output, api.Level) {
	thr := api.Info
	if lowWarn {
		thr = api.Warn
	}
	o := internal.NewAsyncOutput(w, thr, q, b)
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	must(err)
	o.SetFormatter(f)
	return o, thr
}

// levelFor is some level that meets the threshold, or one that does not.
func levelFor(thr api.Level, id int, low bool) api.Level {
	if low {
		return api.Trace + api.Level(id)%(thr-api.Trace)
	}
	return thr + api.Level(id*5)%(api.Off-thr)
}

type asyncRun struct {
	mu    sync.Mutex
	ret   map[int]bool
	cret  map[int]bool
	panic string
}

func (r *asyncRun) obs(w *gateWriter, ns, nc int) *asyncObs {
	r.mu.Lock()
	defer r.mu.Unlock()
	o := &asyncObs{Ret: []int{}, Cret: []int{}}
	for i := 1; i <= ns; i++ {
		if r.ret[i] {
			o.Ret = append(o.Ret, i)
		}
	}
	for i := 1; i <= nc; i++ {
		if r.cret[i] {
			o.Cret = append(o.Cret, i)
		}
	}
	o.Out, o.Bad = w.seen()
	if r.panic != "" {
		o.Bad += r.panic
	}
	return o
}

// runAsyncHist performs the operations; settle is called after each and returns what is observed when the output has come to rest.
func runAsyncHist(h *asyncHist, settle func(k int, obs func() *asyncObs) *asyncObs) []*asyncObs {
	w := newGateWriter()
	o, thr := newAsync(w, h.Q, h.B, h.Low)
	r := &asyncRun{ret: map[int]bool{}, cret: map[int]bool{}}
	ns, nc := 0, 0
	spawn := func(f func(), done map[int]bool, n int) {
		go func() {
			p := guard(f)
			r.mu.Lock()
			defer r.mu.Unlock()
			if p != "" {
				r.panic = p
				return
			}
			done[n] = true
		}()
	}
	res := []*asyncObs{}
	for k, op := range h.Ops {
		switch {
		case op.Op == "send" || op.Op == "low":
			ns++
			e := msgEvent(op.Arg, levelFor(thr, op.Arg, op.Op == "low"))
			for _, v := range h.Void {
				if v == op.Arg {
					e.Format, e.Arguments = "", nil
				}
			}
			spawn(func() { o.Send(e) }, r.ret, op.Arg)
		case op.Op == "close":
			nc++
			spawn(o.Close, r.cret, op.Arg)
		case op.Op == "shut":
			w.set(false)
		case op.Op == "open":
			w.set(true)
		default:
			time.Sleep(time.Duration(op.Arg) * time.Second)
		}
		f := func() *asyncObs { return r.obs(w, ns, nc) }
		res = append(res, settle(k, f))
	}
	// leave nothing behind
	w.set(true)
	go o.Close()
	return res
}

type traceCfg struct {
	Q, B, Threads, PerThread, Closers, Spread, Procs int
	Low                                              bool
	Seed                                             int64
}

type traceEvent struct {
	E string `json:"e"`
	N int    `json:"n"`
	P bool   `json:"p"`
	B []int  `json:"b"`
}

type traceRes struct {
	Events []traceEvent
	Low    []int
	Bad    string
	Slow   bool
}

// runAsyncTrace lets several goroutines send and close at will and records what happened.
func runAsyncTrace(c *traceCfg) (res traceRes) {
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	var mu sync.Mutex
	rec := func(e traceEvent) {
		mu.Lock()
		res.Events = append(res.Events, e)
		mu.Unlock()
	}
	rnd := rand.New(rand.NewSource(c.Seed))
	w := newGateWriter()
	w.hook = func(b []int) { rec(traceEvent{E: "write", B: b}) }
	pauses := rnd.Intn(4)
	pause := func(r *rand.Rand) {
		switch pauses {
		case 0:
		case 1:
			for i := r.Intn(4); i > 0; i-- {
				runtime.Gosched()
			}
		case 2:
			time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
		case 3:
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
		}
	}
	wr := rand.New(rand.NewSource(c.Seed + 77))
	w.delay = func() { pause(wr) }
	start := time.Now()
	o, thr := newAsync(w, c.Q, c.B, c.Low)
	var wg sync.WaitGroup
	id := 0
	for t := 0; t < c.Threads; t++ {
		var ids []int
		var lows []bool
		for k := 0; k < c.PerThread; k++ {
			id++
			low := rnd.Intn(4) == 0
			if low {
				res.Low = append(res.Low, id)
			}
			ids, lows = append(ids, id), append(lows, low)
		}
		r := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, n := range ids {
				e := msgEvent(n, levelFor(thr, n, lows[k]))
				pause(r)
				rec(traceEvent{E: "call", N: n, P: !lows[k]})
				if p := guard(func() { o.Send(e) }); p != "" {
					mu.Lock()
					res.Bad = p
					mu.Unlock()
					return
				}
				rec(traceEvent{E: "ret", N: n})
			}
		}()
	}
	for k := 1; k <= c.Closers; k++ {
		k := k
		r := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			if c.Spread > 0 {
				time.Sleep(time.Duration(r.Intn(c.Spread)) * time.Microsecond)
			}
			rec(traceEvent{E: "ccall", N: k})
			if p := guard(o.Close); p != "" {
				mu.Lock()
				res.Bad = p
				mu.Unlock()
				return
			}
			rec(traceEvent{E: "cret", N: k})
		}()
	}
	if !within(20*time.Second, wg.Wait) {
		res.Bad = "calls do not return:\n" + stacks()
		return
	}
	// one more close, so that everything is written
	rec(traceEvent{E: "ccall", N: c.Closers + 1})
	if !within(20*time.Second, o.Close) {
		res.Bad = "close does not return:\n" + stacks()
		return
	}
	rec(traceEvent{E: "cret", N: c.Closers + 1})
	// nothing may happen afterwards
	if c.Seed%5 == 0 {
		time.Sleep(2 * time.Millisecond)
	}
	mu.Lock()
	defer mu.Unlock()
	_, bad := w.seen()
	if res.Bad == "" {
		res.Bad = bad
	}
	res.Slow = time.Since(start) > 4500*time.Millisecond
	return
}

func init() {
	modes["async"] = func(script []byte) interface{} {
		var hs []asyncHist
		parse(script, &hs)
		res := make([][]*asyncObs, len(hs))
		var missed int32
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for n := range hs {
			n := n
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				if atomic.LoadInt32(&missed) > 3 {
					return // enough to report
				}
				h := &hs[n]
				left, lingered := h.Want, false
				res[n] = runAsyncHist(h, func(k int, obs func() *asyncObs) *asyncObs {
					// until one of the allowed observations is made
					for deadline := time.Now().Add(3 * time.Second); left != nil; {
						var next [][]string
						o := obs()
						for _, s := range left {
							if s[k] == o.key() {
								next = append(next, s)
							}
						}
						if next != nil && k == len(h.Ops)-1 && !lingered {
							lingered = true
							time.Sleep(300 * time.Microsecond)
							continue
						}
						if next == nil && time.Now().After(deadline) {
							atomic.AddInt32(&missed, 1)
							left = nil
							return o
						}
						if next != nil {
							left = next
							return o
						}
						time.Sleep(20 * time.Microsecond)
					}
					return obs() // already beyond what is allowed
				})
			}()
		}
		wg.Wait()
		return res
	}
	modes["asynctrace"] = func(script []byte) interface{} {
		var cs []traceCfg
		parse(script, &cs)
		res := make([]traceRes, len(cs))
		for i := range cs {
			res[i] = runAsyncTrace(&cs[i])
		}
		return res
	}
}
