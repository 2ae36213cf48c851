ID = 'c09-full-timeout'
PROP = 'C09'
NEEDS = 'a queue that stays full for more than three seconds'
BREAKS = 'a sender does not wait longer than three seconds for room in the queue: the message is dropped'
EDITS = [('internal/output_base.go', '\tif atomic.LoadInt32(&o.closed) == flagClosed {\n\t\treturn\n\t}\n\to.evtChan <- rec\n}\n', '\tif atomic.LoadInt32(&o.closed) == flagClosed {\n\t\treturn\n\t}\n\to.put(rec)\n}\n\nfunc (o *asyncOutput) put(rec []byte) {\n\tselect {\n\tcase o.evtChan <- rec:\n\t\treturn\n\tdefault:\n\t}\n\t// the target hangs: do not take the program down with it\n\twait := time.NewTimer(sendTimeout)\n\tdefer wait.Stop()\n\tselect {\n\tcase o.evtChan <- rec:\n\tcase <-wait.C:\n\t}\n}\n'), ('internal/output_base.go', '\tbatchMaxNum        = 500\n', '\tbatchMaxNum        = 500\n\tsendTimeout        = 3 * time.Second\n'), ('internal/output_base.go', '\tflagClosed   int32 = 1\n', '\tflagClosed   int32 = 1 // closed for good\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

type zzTarget struct {
	sync.Mutex
	b     strings.Builder
	gate  chan bool
	calls int
}

func (t *zzTarget) Write(p []byte) (int, error) {
	if t.gate != nil {
		<-t.gate
	}
	t.Lock()
	defer t.Unlock()
	t.calls++
	return t.b.Write(p)
}
func (t *zzTarget) text() string { t.Lock(); defer t.Unlock(); return t.b.String() }

func zzAsync(t *testing.T, w *zzTarget, q, b int) (api.Output, func(string)) {
	o := NewAsyncOutput(w, api.All, q, b)
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return o, func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}

func TestZZDemo(t *testing.T) {
	w := &zzTarget{gate: make(chan bool)}
	o, send := zzAsync(t, w, 2, 1)
	done := make(chan bool)
	go func() {
		for _, s := range strings.Split("abcdef", "") {
			send(s)
		}
		close(done)
	}()
	time.Sleep(4 * time.Second)
	close(w.gate)
	<-done
	o.Close()
	if w.text() != "abcdef" {
		t.Fatalf("%q", w.text())
	}
}
'''
