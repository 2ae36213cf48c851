ID = 'c14-throttle'
PROP = 'C14'
NEEDS = 'two writes less than a second apart with the boundary of the period between them'
BREAKS = 'whether a new period has begun is looked at once a second at most: a write just after the boundary still goes to the old file'
EDITS = [('internal/output_rollingwriter.go', '\tnewName := time.Now().Format(rwt.timePattern)\n\n\tif rwt.currentTimeFileName == "" {\n', '\t// formatting the time is costly\n\tnow := time.Now()\n\tif since := now.Sub(rwt.lastCheck); since >= 0 && since < time.Second {\n\t\treturn false\n\t}\n\trwt.lastCheck = now\n\tnewName := now.Format(rwt.timePattern)\n\n\tif rwt.currentTimeFileName == "" {\n'), ('internal/output_rollingwriter.go', '\trollLock        sync.Mutex\n', '\trollLock        sync.Mutex\n\tlastCheck       time.Time // of the period\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/xtfly/log4g/api"
)

func mk(t *testing.T, cfg api.CfgOutput) (api.Output, func(string)) {
	o, err := NewRollingOutput(cfg)
	if err != nil {
		t.Fatal(err)
	}
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return o, func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}


func TestZZDemo(t *testing.T) {
	if err := os.Mkdir("d", 0700); err != nil {
		t.Fatal(err)
	}
	synctest.Test(t, func(t *testing.T) {
		_, send := mk(t, api.CfgOutput{"name": "x", "type": "time_rolling_file", "file": "d/a.log", "pattern": "2006-01-02"})
		now := time.Now()
		y, m, d := now.Date()
		time.Sleep(time.Date(y, m, d+1, 0, 0, 0, 0, now.Location()).Sub(now) - 300*time.Millisecond)
		send("monday")
		time.Sleep(600 * time.Millisecond)
		send("tuesday")
		if b, _ := os.ReadFile("d/a.log"); string(b) != "tuesday" {
			t.Fatalf("current file: %q", b)
		}
	})
}
'''
