ID = 'c17-backoff'
PROP = 'C17'
NEEDS = 'a roll that fails once and can succeed at the next write'
BREAKS = 'after a failed roll the next seven writes do not try to roll although the obstacle is gone'
EDITS = [('internal/output_rollingwriter.go', '\tif rw.self.needsToRoll() {\n', '\tif rw.skipRolls > 0 {\n\t\trw.skipRolls--\n\t} else if rw.self.needsToRoll() {\n'), ('internal/output_rollingwriter.go', '\t\tif err := rw.roll(); err != nil {\n', '\t\tif err := rw.roll(); err != nil {\n\t\t\trw.skipRolls = 7 // it will not be gone at once\n'), ('internal/output_rollingwriter.go', '\trollLock        sync.Mutex\n', '\trollLock        sync.Mutex\n\tskipRolls       int\n'), ('internal/output_rollingwriter.go', '\tn, err = rw.currentFile.Write(bytes)\n\trw.currentFileSize += int64(n)\n\treturn n, err\n', '\tn, err = rw.currentFile.Write(bytes)\n\trw.currentFileSize = rw.currentFileSize + int64(n)\n\treturn n, err\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

func mk(t *testing.T, cfg api.CfgOutput) (api.Output, func(string)) {
	o, err := NewRollingOutput(cfg)
	if err != nil {
		t.Fatal(err)
	}
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return o, func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	p := filepath.Join(d, "a.log")
	_, send := mk(t, api.CfgOutput{"name": "x", "type": "size_rolling_file", "file": p, "size": "3", "backups": "5"})
	os.Mkdir(p+".1", 0700)
	os.WriteFile(p+".1/x", nil, 0600)
	send("aaa")
	send("bbb") // app.log.1 is in the way
	os.RemoveAll(p + ".1")
	send("ccc")
	if b, _ := os.ReadFile(p); string(b) != "ccc" {
		t.Fatalf("not rolled: %q", b)
	}
}
'''
