ID, PROP = 'c10-close-timeout', 'C10'
NEEDS = 'a target that takes seconds to accept a write when the output is closed'
BREAKS = 'close gives up waiting after a while and returns before the pending messages are written'
EDITS = [('internal/output_base.go', '\to.sendLock.Unlock()\n\to.wait.Wait()\n', '\to.sendLock.Unlock()\n\tdone := make(chan struct{})\n\tgo func() {\n\t\to.wait.Wait()\n\t\tclose(done)\n\t}()\n\tselect {\n\tcase <-done:\n\tcase <-time.After(3 * time.Second):\n\t}\n')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
type target struct {
	mu   sync.Mutex
	gate chan bool
	got  []string
}

func (t *target) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if t.gate != nil {
		<-t.gate
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.got = append(t.got, string(p))
	return len(p), nil
}

func ev(n int) *api.Event {
	return &api.Event{Format: "%d ", Arguments: []interface{}{n}, Level: api.Info, Ctx: context.Background(), Time: time.Now()}
}

func async(t *target, q, b int) api.Output {
	o := internal.NewAsyncOutput(t, api.All, q, b)
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	must(err)
	o.SetFormatter(f)
	return o
}

func main() {
	t := &target{gate: make(chan bool)}
	o := async(t, 5, 1)
	for i := 1; i <= 3; i++ {
		o.Send(ev(i))
	}
	time.AfterFunc(4*time.Second, func() { close(t.gate) })
	o.Close()
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.got) != 3 {
		bad("close returned after", len(t.got), "of 3 messages")
	}
}
'''
