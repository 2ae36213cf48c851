ID = 'c08-scratch'
PROP = 'C08'
NEEDS = 'two goroutines rendering with the same formatter at the same time'
BREAKS = 'a formatter renders into a buffer of its own that concurrent renderings share'
EDITS = [('internal/format_text.go', '\tvar buf bytes.Buffer\n\tf.strFormatter.Format(e, &buf)\n\treturn buf.Bytes()\n', '\tf.buf.Reset()\n\tf.strFormatter.Format(e, &f.buf)\n\treturn append([]byte(nil), f.buf.Bytes()...)\n'), ('internal/format_text.go', '\tlayout       string\n', '\tlayout       string\n\tbuf          bytes.Buffer\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type sink struct {
	mu sync.Mutex
	l  []string
	f  api.Formatter
}

func (s *sink) Send(e *api.Event) {
	s.mu.Lock()
	s.l = append(s.l, string(s.f.Format(e)))
	s.mu.Unlock()
}
func (s *sink) SetFormatter(f api.Formatter) { s.f = f }
func (s *sink) CallerInfoFlag() int          { return 0 }
func (s *sink) Close()                       {}

func main() {
	s := &sink{}
	log4g.GetManager().RegisterOutputCreator("rec", func(c api.CfgOutput) (api.Output, error) { return s, nil })
	must(log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "<%{msg}>"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "rec", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "a", Level: "all", OutputNames: []string{"x"}}},
	}))
	log4g.GetLogger("a").Info("warm")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad(r)
				}
			}()
			want := "<" + strings.Repeat(string(rune('a'+g)), 100+g) + ">"
			m := strings.Trim(want, "<>")
			for i := 0; i < 5000; i++ {
				if got := string(s.f.Format(&api.Event{Format: m})); got != want {
					bad("rendered", got)
				}
			}
		}(g)
	}
	wg.Wait()
}
'''
