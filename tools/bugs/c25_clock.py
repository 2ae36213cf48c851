ID, PROP = 'c25-clock', 'C25'
NEEDS = 'two messages more than a moment and less than ten milliseconds apart'
BREAKS = 'the time of a record is read from the clock at most every ten milliseconds, so that a record can show a time before its call began'
EDITS = [('internal/logger.go', '		Time:      time.Now(),\n', '		Time:      now(),\n'),
 ('internal/logger.go', 'type defWriter struct {\n', '''var lastNow atomic.Value

// now spares most messages formatting and reading the wall clock
func now() time.Time {
	t := time.Now()
	if l, ok := lastNow.Load().(time.Time); ok && t.Sub(l) < 10*time.Millisecond {
		return l
	}
	lastNow.Store(t)
	return t
}

type defWriter struct {
'''),
 ('internal/logger.go', '	"sync"\n', '	"sync"\n	"sync/atomic"\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

type keep struct{ times []time.Time }

func (k *keep) Send(e *api.Event)           { k.times = append(k.times, e.Time) }
func (k *keep) SetFormatter(f api.Formatter) {}
func (k *keep) CallerInfoFlag() int         { return 0 }
func (k *keep) Close()                      {}

func main() {
	k := &keep{}
	l := log4g.GetLogger("a")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{k})
	for i := 0; i < 20; i++ {
		from := time.Now()
		l.Info("x")
		if k.times[i].Before(from.Add(-3 * time.Millisecond)) {
			fmt.Println("logged at", from, "shown as", k.times[i])
			os.Exit(1)
		}
		time.Sleep(4 * time.Millisecond)
	}
}
'''
