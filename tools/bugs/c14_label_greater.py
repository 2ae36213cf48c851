ID, PROP = 'c14-label-greater', 'C14'
NEEDS = 'a pattern whose text does not grow with time, over a boundary such as the end of a month'
BREAKS = 'the file is not rolled when the label of the new period is smaller as a text'
EDITS = [('internal/output_rollingwriter.go', '\treturn newName != rwt.currentTimeFileName\n', '\treturn newName > rwt.currentTimeFileName\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/xtfly/log4g/api"
)

func TestZZDemo(t *testing.T) {
	if err := os.Mkdir("d", 0700); err != nil {
		t.Fatal(err)
	}
	synctest.Test(t, func(t *testing.T) {
		o, err := NewRollingOutput(api.CfgOutput{"name": "x", "type": "time_rolling_file", "file": "d/a.log", "pattern": "02.01.2006"})
		if err != nil {
			t.Fatal(err)
		}
		f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
		o.SetFormatter(f)
		send := func(s string) {
			o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
		}
		time.Sleep(30 * 24 * time.Hour) // 31 January
		send("january")
		time.Sleep(24 * time.Hour)
		send("february")
		if b, _ := os.ReadFile("d/a.log"); string(b) != "february" {
			t.Fatalf("current file: %q", b)
		}
	})
}
'''
