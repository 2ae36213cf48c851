ID, PROP = 'c07-lazy-caller', 'C07'
NEEDS = 'a registered output that renders records in a goroutine of its own, on a logger with more than one output'
BREAKS = 'who logged is only determined at once if all outputs of a logger show it, otherwise when the record is rendered, which may be on the stack of another goroutine'
EDITS = [('internal/logger.go', '''	flag := ciNoneFlog
	for _, op := range outputs {
		if flag < op.CallerInfoFlag() {
			flag = op.CallerInfoFlag()
		}
	}
''', '''	flag := ciNoneFlog
	for i, op := range outputs {
		// outputs that do not show it need not wait for it, the others find it when they render
		if f := op.CallerInfoFlag(); i == 0 || f < flag {
			flag = f
		}
	}
''')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

type queue struct {
	f    api.Formatter
	evs  chan *api.Event
	done chan bool
	text string
}

func (q *queue) Send(e *api.Event)            { q.evs <- e }
func (q *queue) SetFormatter(f api.Formatter) { q.f = f }
func (q *queue) CallerInfoFlag() int          { return q.f.CallerInfoFlag() }
func (q *queue) Close()                       { close(q.evs); <-q.done }

func form(layout string) api.Formatter {
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": layout})
	if err != nil {
		panic(err)
	}
	return f
}

func main() {
	q := &queue{evs: make(chan *api.Event, 10), done: make(chan bool)}
	q.SetFormatter(form("%{shortfunc}|%{msg}\n"))
	go func() {
		for e := range q.evs {
			q.text += string(q.f.Format(e))
		}
		close(q.done)
	}()
	plain, err := internal.NewMemoryOutput(api.CfgOutput{"name": "m", "type": "memory"})
	if err != nil {
		panic(err)
	}
	plain.SetFormatter(form("%{msg}\n"))
	l := log4g.GetLogger("a")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{plain, q})
	l.Info("one")
	l.Info("two")
	q.Close()
	if q.text != strings.Replace("F|one\nF|two\n", "F", "main", -1) {
		fmt.Println(q.text)
		os.Exit(1)
	}
}
'''
