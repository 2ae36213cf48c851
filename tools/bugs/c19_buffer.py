ID, PROP = 'c19-buffer-tail', 'C19'
NEEDS = 'a copy to an archive of another kind in which an entry is shorter than one before it'
BREAKS = 'a shorter entry keeps the tail of the longer one before it'
EDITS = [('internal/archive/archive.go', '\t\tif err := buf.Truncate(0); err != nil {\n\t\t\treturn err\n\t\t}\n', '')]
DEMO = r'''package main

import (
	"bytes"
	stdzip "archive/zip"
	"io"
	"io/ioutil"
	"os"

	"github.com/xtfly/log4g/internal/archive"
	"github.com/xtfly/log4g/internal/archive/tar"
	"github.com/xtfly/log4g/internal/archive/zip"
)

func main() {
	d, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(d)
	os.Setenv("TMPDIR", d)
	var a, b bytes.Buffer
	zw := stdzip.NewWriter(&a)
	for n, s := range []string{"long content", "short"} {
		w, _ := zw.Create(string(rune('a' + n)))
		io.WriteString(w, s)
	}
	zw.Close()
	r, err := zip.NewReader(bytes.NewReader(a.Bytes()), int64(a.Len()))
	if err != nil {
		panic(err)
	}
	tw := tar.NewWriter(&b)
	if err := archive.Copy(tw, r); err != nil {
		panic(err)
	}
	tw.Close()
	tr := tar.NewReader(&b)
	for _, want := range []string{"long content", "short"} {
		if _, err := tr.NextFile(); err != nil {
			panic(err)
		}
		got, _ := ioutil.ReadAll(tr)
		if string(got) != want {
			println(string(got), want)
			os.RemoveAll(d)
			os.Exit(1)
		}
	}
}
'''
