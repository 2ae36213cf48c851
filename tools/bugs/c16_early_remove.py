ID = 'c16-early-remove'
PROP = 'C16'
NEEDS = 'a death or a failure between removing a backup and putting its archive in place'
BREAKS = 'a backup is removed as soon as its bytes are in the temporary archive, before that gets its name'
EDITS = [('internal/output_rollingwriter.go', '\t_, err = io.Copy(w, src)\n\treturn err\n}\n', '\tif _, err = io.Copy(w, src); err != nil {\n\t\treturn err\n\t}\n\t// not needed any more\n\treturn tryRemoveFile(rollPath)\n}\n')]
DEMO_TEST = r'''package internal

import (
	"context"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

func mk(t *testing.T, cfg api.CfgOutput) (api.Output, func(string)) {
	o, err := NewRollingOutput(cfg)
	if err != nil {
		t.Fatal(err)
	}
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return o, func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}


func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a.log")
	_, send := mk(t, api.CfgOutput{"name": "x", "type": "size_rolling_file", "file": p, "size": "1", "backups": "1", "archive": "gzip"})
	os.MkdirAll(p+".1.gz/x", 0700) // the archive cannot get its name
	send("one")
	send("two")
	send("three")
	if b, _ := os.ReadFile(p + ".1"); string(b) != "one" {
		t.Fatalf("the backup that could not be archived: %q", b)
	}
}
'''
