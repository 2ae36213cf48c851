ID, PROP = 'c10-early-close', 'C10'
NEEDS = 'two goroutines closing at the same time while messages are pending'
BREAKS = 'a close that finds the output already closed returns before the pending messages are written'
EDITS = [('internal/output_base.go', '\t// support duplicate call Close method\n', '\t// duplicate calls of Close have nothing to do\n\tif atomic.LoadInt32(&o.closed) == flagClosed {\n\t\to.sendLock.Unlock()\n\t\treturn\n\t}\n')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
type target struct {
	mu   sync.Mutex
	gate chan bool
	got  []string
}

func (t *target) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if t.gate != nil {
		<-t.gate
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.got = append(t.got, string(p))
	return len(p), nil
}

func ev(n int) *api.Event {
	return &api.Event{Format: "%d ", Arguments: []interface{}{n}, Level: api.Info, Ctx: context.Background(), Time: time.Now()}
}

func async(t *target, q, b int) api.Output {
	o := internal.NewAsyncOutput(t, api.All, q, b)
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	must(err)
	o.SetFormatter(f)
	return o
}

func main() {
	t := &target{gate: make(chan bool)}
	o := async(t, 5, 1)
	for i := 1; i <= 3; i++ {
		o.Send(ev(i))
	}
	go o.Close()
	time.Sleep(100 * time.Millisecond)
	done := make(chan int, 1)
	go func() {
		o.Close()
		t.mu.Lock()
		done <- len(t.got)
		t.mu.Unlock()
	}()
	time.Sleep(200 * time.Millisecond)
	close(t.gate)
	if n := <-done; n != 3 {
		bad("close returned after", n, "of 3 messages")
	}
}
'''
