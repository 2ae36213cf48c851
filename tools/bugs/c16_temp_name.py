ID = 'c16-temp-name'
PROP = 'C16'
NEEDS = 'two files rolled in one directory that archive backups at the same time'
BREAKS = "the temporary archive always has the same name: two outputs in one directory write into each other's"
EDITS = [('internal/output_rollingwriter.go', '\treturn ioutil.TempFile(tmp, "archived_logs")\n', '\treturn os.OpenFile(filepath.Join(tmp, "archived_logs"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)\n'), ('internal/output_rollingwriter.go', '\t"io"\n\t"io/ioutil"\n', '\t"io"\n')]
DEMO_TEST = r'''package internal

import (
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

func mk(t *testing.T, cfg api.CfgOutput) (api.Output, func(string)) {
	o, err := NewRollingOutput(cfg)
	if err != nil {
		t.Fatal(err)
	}
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return o, func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			_, send := mk(t, api.CfgOutput{"name": "x", "type": "size_rolling_file", "file": filepath.Join(d, fmt.Sprintf("l%d.log", g)), "size": "1", "backups": "1", "archive": "gzip"})
			for i := 0; i < 60; i++ {
				send(strings.Repeat(string(rune('a'+g)), 20000))
			}
		}(g)
	}
	wg.Wait()
	for g := 0; g < 4; g++ {
		for i := 1; i < 59; i++ {
			n := filepath.Join(d, fmt.Sprintf("l%d.log.%d.gz", g, i))
			f, err := os.Open(n)
			if err != nil {
				t.Fatal(err)
			}
			r, err := gzip.NewReader(f)
			if err != nil {
				t.Fatal(n, err)
			}
			b, err := io.ReadAll(r)
			if err != nil || string(b) != strings.Repeat(string(rune('a'+g)), 20000) {
				t.Fatal(n, err, len(b))
			}
			f.Close()
		}
	}
}
'''
