ID, PROP = 'c26-unlocked', 'C26'
NEEDS = 'a creator registered while another goroutine obtains loggers for the first time'
BREAKS = 'registering a creator does not take the lock of the manager'
EDITS = [('internal/logger_manager.go', '\tm.Lock()\n\tm.outputCreators[stype] = o\n\tm.Unlock()\n', '\tm.outputCreators[stype] = o\n')]
DEMO = r'''package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

type out struct {
	mu   sync.Mutex
	who  string
	n    int
	cfg  api.CfgOutput
}

func (o *out) Send(e *api.Event)            { o.mu.Lock(); o.n++; o.mu.Unlock() }
func (o *out) SetFormatter(f api.Formatter) {}
func (o *out) CallerInfoFlag() int          { return 0 }
func (o *out) Close()                       {}

var all = map[string]*out{}
var mu sync.Mutex

func maker(who string) api.OutputFuncCreator {
	return func(c api.CfgOutput) (api.Output, error) {
		if who == "fails" {
			return nil, errors.New("not now")
		}
		o := &out{who: who, cfg: c}
		mu.Lock()
		all[c.Name()] = o
		mu.Unlock()
		return o, nil
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

var _ = context.Background

func load(text string) {
	if err := log4g.GetManager().LoadConfig([]byte(text), "yaml"); err != nil {
		fail("%v", err)
	}
}

func main() {
	m := log4g.GetManager()
	m.RegisterOutputCreator("mine", maker("one"))
	load("formats:\n- {name: f, type: text, layout: \"%{msg}\"}\noutputs:\n- {name: o1, type: mine, format: f}\nloggers:\n- {name: a, level: all, outputs: [o1]}\n")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(2)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				m.RegisterOutputCreator(fmt.Sprint("t", g, i%50), maker("x"))
			}
		}(g)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				m.GetLoggerOutputs("a")
			}
		}(g)
	}
	wg.Wait()
}
'''
