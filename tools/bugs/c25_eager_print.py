ID, PROP = 'c25-eager-print', 'C25'
NEEDS = 'a logger that lets a message through to outputs whose thresholds hold it back, with an argument that must not be printed then'
BREAKS = 'a synchronous output renders a record before it looks at its threshold, so that arguments of messages nobody writes are printed'
EDITS = [('internal/output_base.go', '''	if e.Level < o.t {
		return
	}

	if o.f != nil {
		o.w.Write([]byte(o.f.Format(e)))
		return
	}
''', '''	if o.f != nil {
		rec := o.f.Format(e)
		if e.Level >= o.t {
			o.w.Write(rec)
		}
		return
	}
	if e.Level < o.t {
		return
	}
''')]
DEMO = r'''package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

type loud struct{ n int }

func (l *loud) String() string { l.n++; return "x" }

func main() {
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}\n"})
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	o := internal.NewBaseOutput(&b, api.Error)
	o.SetFormatter(f)
	l := log4g.GetLogger("a")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{o})
	x := &loud{}
	l.Infof("%v", x)
	o.Close()
	if x.n != 0 {
		fmt.Println("printed", x.n, "times")
		os.Exit(1)
	}
}
'''
