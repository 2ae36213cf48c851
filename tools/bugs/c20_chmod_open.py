ID = 'c20-chmod-open'
PROP = 'C20'
NEEDS = 'a log file that exists with another mode, or a process mask that takes bits of the configured one'
BREAKS = 'the mode of the log file is set each time it is opened, also of one that existed, and without the process mask'
EDITS = [('internal/output_rollingwriter.go', '\trw.currentFileSize = stat.Size()\n\treturn nil\n', '\trw.currentFileSize = stat.Size()\n\treturn rw.currentFile.Chmod(rw.filePerm)\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

func mk(t *testing.T, cfg api.CfgOutput) (api.Output, func(string)) {
	o, err := NewRollingOutput(cfg)
	if err != nil {
		t.Fatal(err)
	}
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return o, func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}

func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a.log")
	os.WriteFile(p, nil, 0604)
	os.Chmod(p, 0604)
	_, send := mk(t, api.CfgOutput{"name": "x", "type": "size_rolling_file", "file": p, "file_perm": "0640"})
	send("x")
	if fi, _ := os.Stat(p); fi.Mode().Perm() != 0604 {
		t.Fatal(fi.Mode())
	}
}
'''
