ID, PROP = 'c27-label-memo', 'C27'
NEEDS = 'two files rolled by time with different patterns, used within the same second'
BREAKS = 'the label of the current second is remembered without the pattern it was made with'
EDITS = [('internal/output_rollingwriter.go', '\tnewName := time.Now().Format(rwt.timePattern)\n\n', '\tnewName := rwt.label()\n\n'), ('internal/output_rollingwriter.go', 'func (rwt *rollingFileWriterTime) rolled() {\n\trwt.currentTimeFileName = time.Now().Format(rwt.timePattern)\n}\n', 'func (rwt *rollingFileWriterTime) rolled() {\n\trwt.currentTimeFileName = rwt.label()\n}\n\n// label of the current period; formatting a time for each message is expensive.\nfunc (rwt *rollingFileWriterTime) label() string {\n\tnow := time.Now()\n\tlastLabel.Lock()\n\tdefer lastLabel.Unlock()\n\tif now.Unix() != lastLabel.sec || lastLabel.length != len(rwt.timePattern) {\n\t\tlastLabel.sec, lastLabel.length, lastLabel.text = now.Unix(), len(rwt.timePattern), now.Format(rwt.timePattern)\n\t}\n\treturn lastLabel.text\n}\n\nvar lastLabel struct {\n\tsync.Mutex\n\tsec    int64\n\tlength int\n\ttext   string\n}\n')]
DEMO_TEST = r'''package internal

import (
	"archive/zip"
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

var _ = gzip.NewReader
var _ = zip.OpenReader
var _ = io.ReadAll
var _ sync.Mutex

func mk(t *testing.T, cfg api.CfgOutput) func(string) {
	o, err := NewRollingOutput(cfg)
	if err != nil {
		t.Fatal(err)
	}
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return func(s string) {
		o.Send(&api.Event{Format: s, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}

func text(g, i int) string {
	return strings.Repeat(fmt.Sprintf("%d-%d ", g, i), 20000)
}

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	a := mk(t, api.CfgOutput{"name": "x", "type": "time_rolling_file", "file": filepath.Join(d, "a.log"), "pattern": "2006-01-02", "backups": "9"})
	b := mk(t, api.CfgOutput{"name": "x", "type": "time_rolling_file", "file": filepath.Join(d, "b.log"), "pattern": "02.01.2006", "backups": "9"})
	for i := 0; i < 32; i++ {
		if i/8%2 == 0 {
			a(fmt.Sprintln(i))
			b(fmt.Sprintln(i))
		} else {
			b(fmt.Sprintln(i))
			a(fmt.Sprintln(i))
		}
		time.Sleep(100 * time.Millisecond)
	}
	es, _ := os.ReadDir(d)
	for _, e := range es {
		// midnight may pass meanwhile
		n := strings.Replace(strings.TrimPrefix(strings.TrimPrefix(e.Name(), "a.log"), "b.log"), ".", "", 1)
		p := map[bool]string{true: "2006-01-02", false: "02.01.2006"}[strings.HasPrefix(e.Name(), "a")]
		if _, err := time.Parse(p, n); n != "" && err != nil {
			t.Fatal(es)
		}
	}
	x, _ := os.ReadFile(filepath.Join(d, "a.log"))
	if len(es) > 4 || len(es) == 2 && !strings.HasPrefix(string(x), "0\n1\n2\n") {
		t.Fatal(es)
	}
}
'''
PKG = 'internal'
