ID = 'c11-tick-reset'
PROP = 'C11'
NEEDS = 'messages that keep arriving less than five seconds apart, too few to fill a batch'
BREAKS = 'every message starts the five seconds anew, so that a slow stream of messages is withheld until a batch is full'
EDITS = [('internal/output_base.go', '\t\t\to.currNum++\n\t\t\tif o.currNum >= o.batchNum {\n\t\t\t\to.flush()\n\t\t\t}\n', '\t\t\to.currNum++\n\t\t\tif o.currNum >= o.batchNum {\n\t\t\t\to.flush()\n\t\t\t}\n\t\t\ttick.Reset(5 * time.Second)\n'), ('internal/output_base.go', '\ttick := time.NewTicker(5 * time.Second)\n', '\ttick := time.NewTicker(5 * time.Second) // at the latest\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/xtfly/log4g/api"
)

type zzTarget struct {
	sync.Mutex
	b     strings.Builder
	gate  chan bool
	calls int
}

func (t *zzTarget) Write(p []byte) (int, error) {
	if t.gate != nil {
		<-t.gate
	}
	t.Lock()
	defer t.Unlock()
	t.calls++
	return t.b.Write(p)
}
func (t *zzTarget) text() string { t.Lock(); defer t.Unlock(); return t.b.String() }

func zzAsync(t *testing.T, w *zzTarget, q, b int) (api.Output, func(string)) {
	o := NewAsyncOutput(w, api.All, q, b)
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return o, func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}

func TestZZDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		w := &zzTarget{}
		o, send := zzAsync(t, w, 100, 50)
		defer o.Close()
		for i := 0; i < 8; i++ {
			send("x")
			time.Sleep(2 * time.Second)
		}
		if len(w.text()) < 5 {
			t.Fatalf("after 16 seconds: %q", w.text())
		}
	})
}
'''
