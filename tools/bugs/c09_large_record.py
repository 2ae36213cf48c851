ID, PROP = 'c09-large-record', 'C09'
NEEDS = 'a large record logged while smaller ones are pending in the batch'
BREAKS = 'large records are written at once, ahead of messages logged before them'
EDITS = [('internal/output_base.go', '\t\t\to.buf.Write(rec)\n\t\t\to.currNum++\n', '\t\t\tif len(rec) >= 8<<10 {\n\t\t\t\t// not worth copying\n\t\t\t\to.w.Write(rec)\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\to.buf.Write(rec)\n\t\t\to.currNum += 1\n')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
type target struct {
	mu   sync.Mutex
	gate chan bool
	got  []string
}

func (t *target) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if t.gate != nil {
		<-t.gate
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.got = append(t.got, string(p))
	return len(p), nil
}

func ev(n int) *api.Event {
	return &api.Event{Format: "%d ", Arguments: []interface{}{n}, Level: api.Info, Ctx: context.Background(), Time: time.Now()}
}

func async(t *target, q, b int) api.Output {
	o := internal.NewAsyncOutput(t, api.All, q, b)
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	must(err)
	o.SetFormatter(f)
	return o
}

func main() {
	t := &target{}
	o := async(t, 100, 20)
	for i := 1; i <= 8; i++ {
		e := ev(i)
		if i == 5 {
			e.Format = "%9000d "
		}
		o.Send(e)
	}
	o.Close()
	got := ""
	for _, s := range t.got {
		got += s
	}
	got = strings.Join(strings.Fields(got), " ") + " "
	if got != "1 2 3 4 5 6 7 8 " {
		bad(got)
	}
}
'''
