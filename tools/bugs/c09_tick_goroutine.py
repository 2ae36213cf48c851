ID, PROP = 'c09-tick-goroutine', 'C09'
NEEDS = 'a target that is slow when the periodic flush is due, and messages logged meanwhile'
BREAKS = 'the periodic flush runs beside the loop: records are written twice, lost or out of order'
EDITS = [('internal/output_base.go', '\t\tcase <-tick.C:\n\t\t\to.flush()\n', '\t\tcase <-tick.C:\n\t\t\tgo o.flush() // do not hold up the queue\n')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
type target struct {
	mu   sync.Mutex
	gate chan bool
	got  []string
}

func (t *target) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if t.gate != nil {
		<-t.gate
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.got = append(t.got, string(p))
	return len(p), nil
}

func ev(n int) *api.Event {
	return &api.Event{Format: "%d ", Arguments: []interface{}{n}, Level: api.Info, Ctx: context.Background(), Time: time.Now()}
}

func async(t *target, q, b int) api.Output {
	o := internal.NewAsyncOutput(t, api.All, q, b)
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	must(err)
	o.SetFormatter(f)
	return o
}

func main() {
	t := &target{gate: make(chan bool)}
	o := async(t, 100, 2)
	o.Send(ev(1))
	time.Sleep(5200 * time.Millisecond) // the periodic flush has begun
	for i := 2; i <= 6; i++ {
		o.Send(ev(i))
	}
	time.Sleep(300 * time.Millisecond)
	close(t.gate)
	o.Close()
	time.Sleep(300 * time.Millisecond)
	t.mu.Lock()
	got := ""
	for _, s := range t.got {
		got += s
	}
	if got != "1 2 3 4 5 6 " {
		bad(got)
	}
}
'''
