ID, PROP = 'c26-empty-record', 'C26'
NEEDS = 'a formatter that returns nothing for some records'
BREAKS = 'a record the formatter leaves empty is written in the default layout'
EDITS = [('internal/output_base.go', '\t\to.w.Write([]byte(o.f.Format(e)))\n\t\treturn\n\t}\n\n\tfmt.Fprintf(', '\t\tif rec := o.f.Format(e); len(rec) > 0 {\n\t\t\to.w.Write(rec)\n\t\t\treturn\n\t\t}\n\t}\n\n\tfmt.Fprintf(')]
DEMO = r'''package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

type out struct {
	mu   sync.Mutex
	who  string
	n    int
	cfg  api.CfgOutput
}

func (o *out) Send(e *api.Event)            { o.mu.Lock(); o.n++; o.mu.Unlock() }
func (o *out) SetFormatter(f api.Formatter) {}
func (o *out) CallerInfoFlag() int          { return 0 }
func (o *out) Close()                       {}

var all = map[string]*out{}
var mu sync.Mutex

func maker(who string) api.OutputFuncCreator {
	return func(c api.CfgOutput) (api.Output, error) {
		if who == "fails" {
			return nil, errors.New("not now")
		}
		o := &out{who: who, cfg: c}
		mu.Lock()
		all[c.Name()] = o
		mu.Unlock()
		return o, nil
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

var _ = context.Background

func load(text string) {
	if err := log4g.GetManager().LoadConfig([]byte(text), "yaml"); err != nil {
		fail("%v", err)
	}
}

type form struct{}

func (form) Format(e *api.Event) []byte {
	if e.Message() == "ping" {
		return nil
	}
	return []byte(fmt.Sprintf("%d|", e.Level))
}
func (form) CallerInfoFlag() int { return 0 }

func main() {
	d, err := os.MkdirTemp("", "demo")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(d)
	log4g.GetManager().RegisterFormatterCreator("form", func(c api.CfgFormat) (api.Formatter, error) { return form{}, nil })
	load("formats:\n- {name: f, type: form}\noutputs:\n- {name: o1, type: size_rolling_file, format: f, file: " + d + "/a.log}\nloggers:\n- {name: a, level: all, outputs: [o1]}\n")
	log4g.GetLogger("a").Info("x")
	log4g.GetLogger("a").Info("ping")
	log4g.GetLogger("a").Info("x")
	b, _ := os.ReadFile(d + "/a.log")
	if w := fmt.Sprintf("%d|%d|", api.Info, api.Info); string(b) != w {
		os.RemoveAll(d)
		fail("the file holds %q", b)
	}
}
'''
