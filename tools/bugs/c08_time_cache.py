ID, PROP = 'c08-time-cache', 'C08'
NEEDS = 'two events of the same second at different fractions'
BREAKS = 'the rendered time is remembered for a second, so that fractions are those of the first event of the second'
EDITS = [('internal/format_parser.go', '\tlayout   string\n}', '\tlayout   string\n\tsec      int64  // second of the time rendered last\n\ttext     string // and its text\n}'), ('internal/format_parser.go', '\treturn evt.Time.Format(part.layout)\n', '\tif s := evt.Time.Unix(); s != part.sec {\n\t\tpart.sec, part.text = s, evt.Time.Format(part.layout)\n\t}\n\treturn part.text\n')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
func main() {
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{time:15:04:05.000} %{msg}"})
	must(err)
	t := time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)
	for _, ms := range []int{1, 250} {
		e := &api.Event{Time: t.Add(time.Duration(ms) * time.Millisecond), Arguments: []interface{}{"m"}, Level: api.Info, Ctx: context.Background()}
		if got, want := string(f.Format(e)), fmt.Sprintf("03:04:05.%03d m", ms); got != want {
			bad(got, want)
		}
	}
}
'''
