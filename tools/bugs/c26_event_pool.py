ID, PROP = 'c26-event-pool', 'C26'
NEEDS = 'a registered output that holds on to events, say in a queue, and further messages before it renders them'
BREAKS = 'events are reused for later messages, so that what a registered output queued turns into other messages'
EDITS = [('internal/logger.go', '''	evt := &api.Event{
		Time: ''', '''	evt := events.Get().(*api.Event)
	defer events.Put(evt)
	*evt = api.Event{
		Time: '''),
 ('internal/logger.go', 'type defWriter struct {\n', '''// events are reused: outputs have rendered them when they return
var events = sync.Pool{New: func() interface{} { return new(api.Event) }}

type defWriter struct {
''')]
DEMO = r'''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

type queue struct{ evs []*api.Event }

func (q *queue) Send(e *api.Event)           { q.evs = append(q.evs, e) }
func (q *queue) SetFormatter(f api.Formatter) {}
func (q *queue) CallerInfoFlag() int         { return 0 }
func (q *queue) Close()                      {}

func main() {
	q := &queue{}
	l := log4g.GetLogger("a")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{q})
	for i := 0; i < 50; i++ {
		l.Infof("message %d", i)
	}
	for i, e := range q.evs {
		if w := fmt.Sprintf("message %d", i); e.Message() != w {
			fmt.Println(e.Message(), "instead of", w)
			os.Exit(1)
		}
	}
}
'''
