ID, PROP = 'c26-empty-options', 'C26'
NEEDS = 'an option whose text is empty, and a creator that looks at it'
BREAKS = 'options with an empty text are not given to the creator'
EDITS = [('internal/logger_manager.go', '\t\t\tif op, err = opcreator(opcfg); err != nil {\n', '\t\t\topts := make(api.CfgOutput, len(opcfg))\n\t\t\tfor k, v := range opcfg {\n\t\t\t\tif v != "" {\n\t\t\t\t\topts[k] = v\n\t\t\t\t}\n\t\t\t}\n\t\t\tif op, err = opcreator(opts); err != nil {\n')]
DEMO = r'''package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

type out struct {
	mu   sync.Mutex
	who  string
	n    int
	cfg  api.CfgOutput
}

func (o *out) Send(e *api.Event)            { o.mu.Lock(); o.n++; o.mu.Unlock() }
func (o *out) SetFormatter(f api.Formatter) {}
func (o *out) CallerInfoFlag() int          { return 0 }
func (o *out) Close()                       {}

var all = map[string]*out{}
var mu sync.Mutex

func maker(who string) api.OutputFuncCreator {
	return func(c api.CfgOutput) (api.Output, error) {
		if who == "fails" {
			return nil, errors.New("not now")
		}
		o := &out{who: who, cfg: c}
		mu.Lock()
		all[c.Name()] = o
		mu.Unlock()
		return o, nil
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

var _ = context.Background

func load(text string) {
	if err := log4g.GetManager().LoadConfig([]byte(text), "yaml"); err != nil {
		fail("%v", err)
	}
}

func main() {
	log4g.GetManager().RegisterOutputCreator("mine", maker("one"))
	load("formats:\n- {name: f, type: text, layout: \"%{msg}\"}\noutputs:\n- {name: o1, type: mine, format: f, prefix: '', address: ' here '}\nloggers:\n- {name: a, level: all, outputs: [o1]}\n")
	log4g.GetLogger("a").Info("x")
	c := all["o1"].cfg
	if p, ok := c["prefix"]; !ok || p != "" || c["address"] != " here " || len(c) != 5 {
		fail("the creator was given %q", c)
	}
}
'''
