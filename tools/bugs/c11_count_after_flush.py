ID, PROP = 'c11-count-after-flush', 'C11'
NEEDS = 'messages pending at a periodic flush'
BREAKS = 'the number of pending messages is not reset by the periodic flush, so the next batch is too small'
EDITS = [('internal/output_base.go', '\to.buf.Truncate(0)\n\to.currNum = 0\n', '\to.buf.Truncate(0)\n'), ('internal/output_base.go', '\t\t\tif o.currNum >= o.batchNum {\n\t\t\t\to.flush()\n', '\t\t\tif o.currNum >= o.batchNum {\n\t\t\t\to.flush()\n\t\t\t\to.currNum = 0\n')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
type target struct {
	mu   sync.Mutex
	gate chan bool
	got  []string
}

func (t *target) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if t.gate != nil {
		<-t.gate
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.got = append(t.got, string(p))
	return len(p), nil
}

func ev(n int) *api.Event {
	return &api.Event{Format: "%d ", Arguments: []interface{}{n}, Level: api.Info, Ctx: context.Background(), Time: time.Now()}
}

func async(t *target, q, b int) api.Output {
	o := internal.NewAsyncOutput(t, api.All, q, b)
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	must(err)
	o.SetFormatter(f)
	return o
}

func main() {
	t := &target{}
	o := async(t, 10, 3)
	o.Send(ev(1))
	o.Send(ev(2))
	time.Sleep(6 * time.Second)
	for i := 3; i <= 5; i++ {
		o.Send(ev(i))
	}
	time.Sleep(200 * time.Millisecond)
	t.mu.Lock()
	defer t.mu.Unlock()
	if fmt.Sprintf("%q", t.got) != `["1 2 " "3 4 5 "]` {
		bad(fmt.Sprintf("%q", t.got))
	}
}
'''
