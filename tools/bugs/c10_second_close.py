ID = 'c10-second-close'
PROP = 'C10'
NEEDS = 'a close while another is still writing what was accepted'
BREAKS = 'only the first call to close waits for what was accepted; another one returns at once'
EDITS = [('internal/output_base.go', '\tif atomic.LoadInt32(&o.closed) != flagClosed {\n\t\tatomic.StoreInt32(&o.closed, flagClosed)\n\t\t// the loop takes what is queued, then sees that it is closed\n\t\tclose(o.evtChan)\n\t}\n\to.sendLock.Unlock()\n\to.wait.Wait()\n', '\tfirst := atomic.CompareAndSwapInt32(&o.closed, 0, flagClosed)\n\to.sendLock.Unlock()\n\tif !first {\n\t\treturn\n\t}\n\t// the loop takes what is queued, then sees that it is closed\n\tclose(o.evtChan)\n\to.wait.Wait()\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

type zzTarget struct {
	sync.Mutex
	b     strings.Builder
	gate  chan bool
	calls int
}

func (t *zzTarget) Write(p []byte) (int, error) {
	if t.gate != nil {
		<-t.gate
	}
	t.Lock()
	defer t.Unlock()
	t.calls++
	return t.b.Write(p)
}
func (t *zzTarget) text() string { t.Lock(); defer t.Unlock(); return t.b.String() }

func zzAsync(t *testing.T, w *zzTarget, q, b int) (api.Output, func(string)) {
	o := NewAsyncOutput(w, api.All, q, b)
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return o, func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}

func TestZZDemo(t *testing.T) {
	w := &zzTarget{gate: make(chan bool)}
	o, send := zzAsync(t, w, 10, 5)
	send("a")
	go o.Close()
	time.Sleep(200 * time.Millisecond)
	go func() { time.Sleep(200 * time.Millisecond); close(w.gate) }()
	o.Close()
	if w.text() != "a" {
		t.Fatalf("%q", w.text())
	}
}
'''
