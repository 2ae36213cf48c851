ID, PROP = 'c27-copy-buffer', 'C27'
NEEDS = 'two outputs archiving large backups at the same time'
BREAKS = 'backups are copied into archives through one buffer shared by all outputs'
EDITS = [('internal/output_rollingwriter.go', '\t_, err = io.Copy(w, src)\n\treturn err\n}\n', '\t_, err = io.CopyBuffer(struct{ io.Writer }{w}, struct{ io.Reader }{src}, copyBuffer)\n\treturn err\n}\n\n// copyBuffer saves an allocation per archived file.\nvar copyBuffer = make([]byte, 64*1024)\n')]
DEMO_TEST = r'''package internal

import (
	"archive/zip"
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

var _ = gzip.NewReader
var _ = zip.OpenReader
var _ = io.ReadAll
var _ sync.Mutex

func mk(t *testing.T, cfg api.CfgOutput) func(string) {
	o, err := NewRollingOutput(cfg)
	if err != nil {
		t.Fatal(err)
	}
	f, _ := NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	return func(s string) {
		o.Send(&api.Event{Format: s, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}

func text(g, i int) string {
	return strings.Repeat(fmt.Sprintf("%d-%d ", g, i), 20000)
}

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	const G, N = 6, 40
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			send := mk(t, api.CfgOutput{"name": "x", "type": "size_rolling_file", "file": filepath.Join(d, fmt.Sprintf("l%d.log", g)), "size": "1", "backups": "1", "archive": "gzip"})
			for i := 1; i <= N; i++ {
				send(text(g, i))
			}
		}(g)
	}
	wg.Wait()
	for g := 0; g < G; g++ {
		for i := 1; i <= N-2; i++ {
			n := filepath.Join(d, fmt.Sprintf("l%d.log.%d.gz", g, i))
			f, err := os.Open(n)
			if err != nil {
				t.Fatal(err)
			}
			r, err := gzip.NewReader(f)
			if err != nil {
				t.Fatal(n, err)
			}
			b, err := io.ReadAll(r)
			if err != nil || string(b) != text(g, i) {
				t.Fatal(n, err, len(b))
			}
			f.Close()
		}
	}
}
'''
PKG = 'internal'
