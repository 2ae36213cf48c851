ID, PROP = 'c23-clear-first', 'C23'
NEEDS = 'logging while a configuration is applied'
BREAKS = 'while a configuration is applied a logger has no outputs for a moment, so that its messages go to those of its parent'
EDITS = [('internal/logger_factory.go', '\t\t\tk.SetLevel(lvl)\n\t\t\tk.SetOutputs(ops)\n', '\t\t\tk.SetOutputs(nil)\n\t\t\tk.SetOutputs(ops)\n\t\t\tk.SetLevel(lvl)\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
type sink struct{ n int64 }

func (s *sink) Send(*api.Event)              { atomic.AddInt64(&s.n, 1) }
func (s *sink) SetFormatter(f api.Formatter) {}
func (s *sink) CallerInfoFlag() int          { return 0 }
func (s *sink) Close()                       {}

func main() {
	x, y := &sink{}, &sink{}
	log4g.GetManager().RegisterOutputCreator("rec", func(c api.CfgOutput) (api.Output, error) {
		if c.Name() == "x" {
			return x, nil
		}
		return y, nil
	})
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "rec", "format": "f"}, {"name": "y", "type": "rec", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"x"}}, {Name: "a", Level: "all", OutputNames: []string{"y"}}},
	}
	must(log4g.GetManager().SetConfig(cfg))
	l := log4g.GetLogger("a")
	stop := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			for {
				l.Info("m")
			}
		}()
	}
	go func() {
		time.Sleep(8 * time.Second)
		close(stop)
	}()
	for {
		must(log4g.GetManager().SetConfig(cfg))
		if atomic.LoadInt64(&x.n) > 0 {
			bad("a message of a went to the output of the root")
		}
		select {
		case <-stop:
			return
		default:
		}
	}
}
'''
