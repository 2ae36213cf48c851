ID, PROP = 'c15-same-length', 'C15'
NEEDS = 'a file that resembles a backup of a log rolled by time, with a tail as long as the pattern'
BREAKS = 'files whose tail is as long as the time pattern count as backups and are removed'
EDITS = [('internal/output_rollingwriter.go', '\t_, err := time.ParseInLocation(rwt.timePattern, rname, time.Local)\n\treturn err == nil\n', '\t// the names are made with the pattern\n\treturn len(rname) == len(rwt.timePattern)\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/xtfly/log4g/api"
)

func TestZZDemo(t *testing.T) {
	if err := os.Mkdir("d", 0700); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile("d/a.log.important!", []byte("x"), 0600); err != nil {
		t.Fatal(err)
	}
	synctest.Test(t, func(t *testing.T) {
		o, err := NewRollingOutput(api.CfgOutput{"name": "x", "type": "time_rolling_file", "file": "d/a.log", "pattern": "2006-01-02", "backups": "2"})
		if err != nil {
			t.Fatal(err)
		}
		f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
		o.SetFormatter(f)
		for i := 0; i < 5; i++ {
			o.Send(&api.Event{Arguments: []interface{}{"m"}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
			time.Sleep(24 * time.Hour)
		}
	})
	if _, err := os.Stat("d/a.log.important!"); err != nil {
		t.Fatal(err)
	}
}
'''
