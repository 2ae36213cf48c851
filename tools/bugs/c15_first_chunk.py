ID = 'c15-first-chunk'
PROP = 'C15'
NEEDS = 'a directory with more than 64 entries'
BREAKS = 'only the first 64 entries of the directory are looked at: backups beyond them are not seen, kept for ever, or overwritten'
EDITS = [('internal/output_fsutil.go', 'L:\n\tfor {\n', 'L:\n\tfor len(filePaths) < rbs/2 {\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

func mk(t *testing.T, cfg api.CfgOutput) (api.Output, func(string)) {
	o, err := NewRollingOutput(cfg)
	if err != nil {
		t.Fatal(err)
	}
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return o, func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	for i := 0; i < 200; i++ {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("other-%d", i)), nil, 0600)
	}
	_, send := mk(t, api.CfgOutput{"name": "x", "type": "size_rolling_file", "file": filepath.Join(d, "a.log"), "size": "1", "backups": "2"})
	for i := 0; i < 8; i++ {
		send("x")
	}
	m, _ := filepath.Glob(filepath.Join(d, "a.log.*"))
	if len(m) != 2 || filepath.Base(m[0]) != "a.log.6" || filepath.Base(m[1]) != "a.log.7" {
		t.Fatal(m)
	}
}
'''
