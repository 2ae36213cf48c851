ID = 'c23-reuse-list'
PROP = 'C23'
NEEDS = 'a list of outputs replaced by another of at most its length while a message is being delivered to it'
BREAKS = 'the new outputs are put in the array of the old list, which a concurrent message may still be going through: it reaches a mixture'
EDITS = [('internal/logger.go', '\tl.outputs = outputs\n', '\tl.outputs = append(l.outputs[:0:cap(l.outputs)], outputs...)\n'), ('internal/logger.go', '// 日志的Output列表\n', '// 日志的Output列表, in an array of its own\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type sink struct {
	mu sync.Mutex
	l  []string
	f  api.Formatter
}

func (s *sink) Send(e *api.Event) {
	s.mu.Lock()
	s.l = append(s.l, string(s.f.Format(e)))
	s.mu.Unlock()
}
func (s *sink) SetFormatter(f api.Formatter) { s.f = f }
func (s *sink) CallerInfoFlag() int          { return 0 }
func (s *sink) Close()                       {}

func main() {
	fm := must2(log4g.GetManager())
	mk := func() *sink { return &sink{f: fm} }
	a1, a2, b1, b2 := mk(), mk(), mk(), mk()
	gate := make(chan bool)
	held := make(chan bool)
	block := &blocker{gate, held}
	l := log4g.GetLogger("x")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{block, a1, a2})
	done := make(chan bool)
	go func() { l.Info("m"); close(done) }()
	<-held
	l.SetOutputs([]api.Output{b1, b2, b1})
	close(gate)
	<-done
	time.Sleep(10 * time.Millisecond)
	if len(a1.l) != 1 || len(a2.l) != 1 || len(b1.l)+len(b2.l) != 0 {
		bad("the message went to", len(a1.l), len(a2.l), len(b1.l), len(b2.l))
	}
}

type blocker struct{ gate, held chan bool }

func (b *blocker) Send(*api.Event)            { close(b.held); <-b.gate }
func (b *blocker) SetFormatter(api.Formatter) {}
func (b *blocker) CallerInfoFlag() int        { return 0 }
func (b *blocker) Close()                     {}

type plain struct{}

func (plain) Format(e *api.Event) []byte { return []byte(e.Message()) }
func (plain) CallerInfoFlag() int        { return 0 }
func must2(api.Manager) api.Formatter    { must(nil); return plain{} }
'''
