package main

import (
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

// What records show of arguments and fields that change.

type capRec struct {
	Shape int   `json:"shape"`
	Way   int   `json:"way"`
	Args  []int `json:"args"`
	Flds  []int `json:"flds"`
}
type capStep struct {
	Op  string
	N   int
	S   int
	Rec capRec
}
type capShape struct {
	Format string
	F      bool // through a method with a format
	Cells  []int
}
type capScript struct {
	Dir    string
	Cells  []string // Go kind of each cell
	Shapes []capShape
	Ways   [][]int
	Steps  []capStep
	Salt   int
	Gate   bool // the targets of the asynchronous outputs block until all is logged
	Nested bool
}

type capBox struct {
	N int
	S string
}
type capPtrStringer struct{ n int }

func (s *capPtrStringer) String() string { return fmt.Sprint("str", s.n) }

type capErr struct{ n []int }

func (s capErr) Error() string { return fmt.Sprint("err", s.n[0]) }

type capFormatter struct{ n *int }

func (s capFormatter) Format(st fmt.State, c rune) { fmt.Fprintf(st, "<%c%d>", c, *s.n) }

type capGo struct{ n *int }

func (s capGo) GoString() string { return fmt.Sprint("go", *s.n) }
func (s capGo) String() string   { return fmt.Sprint("gs", *s.n) }

type capCell struct {
	kind string
	v    int
	ref  interface{}
}

// fresh is a new object of the kind showing v; set changes an object in place.
func (c *capCell) fresh(v int) interface{} {
	switch c.kind {
	case "int":
		return v * 7
	case "string":
		return fmt.Sprint("s", v)
	case "array":
		return [2]int{v, v}
	case "struct":
		return capBox{v, "x"}
	case "error":
		return errors.New(fmt.Sprint("e", v))
	case "slice":
		return []int{1, v}
	case "strings":
		return []interface{}{"a", v}
	case "bytes":
		return []byte(fmt.Sprint("b", v))
	case "map":
		return map[string]int{"k": v}
	case "pointer":
		return &capBox{v, "p"}
	case "stringer":
		return &capPtrStringer{v}
	case "errslice":
		return capErr{[]int{v}}
	case "formatter":
		n := v
		return capFormatter{&n}
	case "gostring":
		n := v
		return capGo{&n}
	case "deep":
		return map[string]*capPtrStringer{"d": {v}}["d"]
	case "structref":
		return struct{ A []string }{[]string{fmt.Sprint("q", v)}}
	}
	panic(c.kind)
}

func (c *capCell) set(v int) {
	c.v = v
	switch x := c.ref.(type) {
	case []int:
		x[1] = v
	case []interface{}:
		x[1] = v
	case []byte:
		x[1] = byte('0' + v)
	case map[string]int:
		x["k"] = v
	case *capBox:
		x.N = v
	case *capPtrStringer:
		x.n = v
	case capErr:
		x.n[0] = v
	case capFormatter:
		*x.n = v
	case capGo:
		*x.n = v
	case struct{ A []string }:
		x.A[0] = fmt.Sprint("q", v)
	default:
		c.ref = c.fresh(v)
	}
}

// chatty logs while it is formatted
type chatty struct {
	l api.Logger
	n int
}

func (c chatty) String() string {
	c.l.Info("inner")
	return fmt.Sprint("chatty", c.n)
}

type capOut struct {
	name  string
	key   string // layout before the text of the fields
	after string
	read  func() string
}

func runCapture(script []byte) interface{} {
	s := &capScript{}
	parse(script, s)
	bad := []string{}
	want := make([]string, 2)
	want0 := func() string { return want[0] }
	complain := func(f string, a ...interface{}) {
		if len(bad) < 10 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
	}
	stdout := redirect(s.Dir)
	cells := make([]*capCell, len(s.Cells))
	for i, k := range s.Cells {
		cells[i] = &capCell{kind: k}
		cells[i].ref = cells[i].fresh(0)
	}
	// outputs from configuration and directly
	lay := []string{"%{msg} k1=%{k1} k2=%{k2:+v} k3=%{k3}\n", "%{k2:+v} %{msg}%{msg} %{k1}/%{k3:q}\n"}
	rend := []func(m string, f [3]interface{}) string{
		func(m string, f [3]interface{}) string {
			return fmt.Sprintf("%s k1=%v k2=%+v k3=%v\n", m, f[0], f[1], f[2])
		},
		func(m string, f [3]interface{}) string {
			return fmt.Sprintf("%+v %s%s %v/%q\n", f[1], m, m, f[0], f[2])
		},
	}
	p := func(n string) string { return filepath.Join(s.Dir, n) }
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"name": "f0", "type": "text", "layout": lay[0]}, {"name": "f1", "type": "text", "layout": lay[1]}},
		Outputs: []api.CfgOutput{
			{"name": "sync", "type": "size_rolling_file", "file": p("sync"), "format": "f0"},
			{"name": "async", "type": "size_rolling_file", "file": p("async"), "format": "f0", "async": "true", "batch_num": fmt.Sprint(1 + s.Salt%3), "queue_size": "500"},
			{"name": "timed", "type": "time_rolling_file", "file": p("timed"), "format": "f1", "async": "true", "batch_num": fmt.Sprint(1 + s.Salt/3%4)},
			{"name": "con", "type": "console", "format": "f1", "async": fmt.Sprint(s.Salt%2 == 0)},
			{"name": "mem", "type": "memory", "format": "f0"},
			{"name": "hisync", "type": "size_rolling_file", "file": p("hisync"), "format": "f0", "threshold": "critical"},
			{"name": "hiasync", "type": "size_rolling_file", "file": p("hiasync"), "format": "f0", "threshold": "critical", "async": "true"},
		},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"sync", "async", "timed", "con", "mem"}},
			{Name: "q1", Level: "critical", OutputNames: []string{"hisync"}}, {Name: "q2", Level: "all", OutputNames: []string{"hisync", "hiasync"}}},
	}
	must(log4g.GetManager().SetConfig(cfg))
	root := log4g.GetLogger("")
	outs, _, err := log4g.GetManager().GetLoggerOutputs("root")
	must(err)
	memory := func() string { return want0() }
	if m, ok := outs[4].(fmt.Stringer); ok {
		memory = m.String
	}
	gates := []*gateWriter{newGateWriter(), newGateWriter(), newGateWriter()}
	var texts [3]string
	lay = append(lay, "%{time:"+capTime+"}|%{level}|%{module}\n")
	calls := []capCall{}
	var mu sync.Mutex
	for i := range gates {
		i := i
		o := internal.NewAsyncOutput(writerFunc(func(bs []byte) (int, error) {
			t := string(bs)
			gates[i].mu.Lock()
			ch := gates[i].open
			gates[i].mu.Unlock()
			<-ch
			if t != string(bs) {
				complain("the data changed during the write")
			}
			mu.Lock()
			texts[i] += t
			mu.Unlock()
			return len(bs), nil
		}), api.All, 1000, 1+i*3)
		f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": lay[i]})
		must(err)
		o.SetFormatter(f)
		outs = append(outs, o)
		if s.Gate {
			gates[i].set(false)
		}
	}
	when, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": lay[2]})
	must(err)
	tsync, err := internal.NewRollingOutput(api.CfgOutput{"name": "t", "type": "time_rolling_file", "file": p("tsync")})
	must(err)
	tsync.SetFormatter(when)
	outs = append(outs, tsync)
	lg := log4g.GetLogger("a/b")
	root.SetOutputs(outs)
	if s.Salt%3 == 0 {
		lg.SetOutputs(outs)
	}
	readFile := func(f string) func() string {
		return func() string { bs, _ := ioutil.ReadFile(f); return string(bs) }
	}
	read := []struct {
		name string
		r    int
		f    func() string
	}{{"synchronous file", 0, readFile(p("sync"))}, {"asynchronous file", 0, readFile(p("async"))}, {"asynchronous file rolled by time", 1, readFile(p("timed"))},
		{"console", 1, func() string { bs, _ := ioutil.ReadFile(stdout.Name()); return string(bs) }}, {"memory", 0, memory},
		{"asynchronous output, batches of 1", 0, func() string { return texts[0] }}, {"asynchronous output, batches of 4", 1, func() string { return texts[1] }}}
	// writers
	ws := make([]api.Writer, len(s.Ways))
	mk := func(w int) {
		f := s.Ways[w]
		if len(f) == 0 {
			ws[w] = lg
			return
		}
		if (s.Salt+w)%2 == 0 {
			fs := []api.Field{}
			for i, c := range f {
				fs = append(fs, api.Field{Key: "k" + fmt.Sprint(i+1), Value: cells[c-1].ref})
			}
			ws[w] = lg.WithFields(fs...)
			for i := range fs { // the program reuses the slice
				fs[i] = api.Field{Key: "reused", Value: "reused"}
			}
			return
		}
		ctx := context.Background()
		for i, c := range f {
			ctx = context.WithValue(ctx, "k"+fmt.Sprint(i+1), cells[c-1].ref)
		}
		ws[w] = lg.WithCtx(ctx)
	}
	for w := range ws {
		mk(w)
	}
	args := make([]interface{}, 8)
	for k, st := range s.Steps {
		switch st.Op {
		case "change":
			c := cells[st.N-1]
			c.set((c.v + 1) % 2)
		case "make":
			mk(st.N - 1)
		case "log":
			sh := &s.Shapes[st.S-1]
			as := args[:0]
			for _, c := range sh.Cells {
				as = append(as, cells[c-1].ref)
			}
			if s.Nested {
				as = append(as, chatty{log4g.GetLogger("in"), k % 2})
			}
			w := ws[st.N-1]
			meth := (k + s.Salt) % 7
			if (k+s.Salt)%5 == 0 { // nobody writes these
				pn := &poison{complain: complain}
				q := log4g.GetLogger([]string{"q1", "q2"}[(k/5)%2])
				q.Errorf("%v", pn)
				q.Info(pn, pn)
				q.WithFields(api.Field{Key: "k1", Value: pn}).Warn("w", pn)
				q.WithFields(api.Field{Key: "k2", Value: pn}).Printf(api.Debug, "%+v %s", pn, pn)
			}
			if (k+s.Salt)%16 == 7 {
				time.Sleep(6 * time.Millisecond)
			}
			t0 := time.Now()
			call := func() {
				if sh.F {
					[]func(string, ...interface{}){w.Tracef, w.Debugf, w.Infof, w.Warnf, w.Errorf, w.Criticalf,
						func(f string, a ...interface{}) { w.Printf(api.Warn, f, a...) }}[meth](sh.Format, as...)
				} else {
					[]func(...interface{}){w.Trace, w.Debug, w.Info, w.Warn, w.Error, w.Critical, func(a ...interface{}) { w.Printf(api.Info, "", a...) }}[meth](as...)
				}
			}
			if pn := ""; s.Nested {
				if !within(10*time.Second, func() { pn = guard(call) }) {
					complain("step %d: logging does not return: %s", k+1, stacks())
					return map[string]interface{}{"Bad": bad}
				}
				if pn != "" {
					complain("step %d: %s", k+1, pn)
				}
			} else {
				call()
			}
			calls = append(calls, capCall{t0, time.Now(), meth})
			for i := range as { // the program reuses the slice
				as[i] = "reused"
			}
			// what the call meant
			fa := []interface{}{}
			for i, c := range sh.Cells {
				fa = append(fa, cells[c-1].fresh(st.Rec.Args[i]))
			}
			if s.Nested {
				fa = append(fa, fmt.Sprint("chatty", k%2)) // never next to another operand in Sprint
			}
			msg := sh.Format
			if len(fa) > 0 && sh.F && sh.Format != "" {
				msg = fmt.Sprintf(sh.Format, fa...)
			} else if len(fa) > 0 {
				msg = fmt.Sprint(fa...)
			}
			var fv [3]interface{}
			for i, c := range s.Ways[st.Rec.Way-1] {
				fv[i] = cells[c-1].fresh(st.Rec.Flds[i])
			}
			for i := range want {
				want[i] += rend[i](msg, fv)
			}
		}
	}
	for _, c := range cells { // everything changes once more
		c.set((c.v + 1) % 2)
	}
	time.Sleep(6 * time.Millisecond)
	for _, g := range gates {
		g.set(true)
	}
	if !within(20*time.Second, func() {
		log4g.GetManager().Close()
		outs[5].Close()
		outs[6].Close()
		outs[7].Close()
	}) {
		complain("close does not return: %s", stacks())
		return map[string]interface{}{"Bad": bad}
	}
	n := 0
	for _, r := range read {
		got := r.f()
		if s.Nested {
			got = strip(got, rend[r.r]("inner", [3]interface{}{}))
		}
		g, w := strings.Split(got, "\n"), strings.Split(want[r.r], "\n")
		n += len(w) - 1
		if got == want[r.r] {
			continue
		}
		for i := range w {
			if i >= len(g) || g[i] != w[i] {
				gi := "nothing"
				if i < len(g) {
					gi = g[i]
				}
				complain("%s: record %d is %q, expected %q", r.name, i+1, gi, w[i])
				break
			}
		}
		if len(g) > len(w) {
			complain("%s: %d records, expected %d", r.name, len(g)-1, len(w)-1)
		}
	}
	if !s.Nested {
		for i, f := range []func() string{readFile(p("tsync")), func() string { return texts[2] }} {
			n += len(calls)
			for _, c := range checkTimes(f(), calls) {
				complain("%s: %s", []string{"synchronous file", "asynchronous output, batches of 7"}[i], c)
			}
		}
	}
	for _, f := range []string{"hisync", "hiasync"} {
		if t := readFile(p(f))(); t != "" {
			complain("%s, whose threshold is critical, holds %q", f, t)
		}
	}
	return map[string]interface{}{"Bad": bad, "N": n}
}

const capTime = "2006-01-02T15:04:05.000000000Z07:00"

// capCall is a logging call: when it began and ended, and by which method.
type capCall struct {
	from, to time.Time
	meth     int
}

// checkTimes compares time, level and logger of records with the calls.
func checkTimes(got string, calls []capCall) (bad []string) {
	lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
	if len(calls) == 0 && got == "" {
		return nil
	}
	if len(lines) != len(calls) {
		return []string{fmt.Sprintf("%d records of %d calls", len(lines), len(calls))}
	}
	for i, l := range lines {
		c := calls[i]
		ps := strings.Split(l, "|")
		t, err := time.Parse(capTime, ps[0])
		if err != nil || len(ps) != 3 {
			return append(bad, fmt.Sprintf("record %d is %q", i+1, l))
		}
		// the clock of the system may be adjusted a little
		const slack = 2 * time.Millisecond
		if t.Before(c.from.Round(0).Add(-slack)) || t.After(c.to.Round(0).Add(slack)) {
			bad = append(bad, fmt.Sprintf("record %d has time %s, the call was from %s to %s", i+1, ps[0], c.from.Format(capTime), c.to.Format(capTime)))
		}
		lvl := []string{"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "CRITICAL", ""}[c.meth]
		if lvl != "" && strings.TrimSpace(ps[1]) != lvl || ps[2] != "a/b" {
			bad = append(bad, fmt.Sprintf("record %d is %q, logged by method %d of a/b", i+1, l, c.meth))
		}
	}
	return
}

// poison must not be printed.
type poison struct {
	complain func(string, ...interface{})
}

func (p *poison) String() string {
	p.complain("an argument of a message nobody writes was printed")
	return "poison"
}

// strip removes the records logged while others were formatted.
func strip(got, inner string) string {
	return strings.Replace(got, inner, "", -1)
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

func init() { modes["capture"] = runCapture }
