ID, PROP = 'c19-unique-names', 'C19'
NEEDS = 'an archive in which a name occurs twice (backups of two runs) is extended'
BREAKS = 'copying a zip archive keeps only the first of several entries of the same name'
EDITS = [('internal/archive/archive.go', '\tfor _, f := range r.Files() {\n\t\tif err := copyZipFile(zw, f); err != nil {\n\t\t\treturn err\n\t\t}\n', '\tdone := make(map[string]error)\n\tfor _, f := range r.Files() {\n\t\tif _, ok := done[f.Name]; !ok {\n\t\t\tdone[f.Name] = copyZipFile(zw, f)\n\t\t}\n\t\tif done[f.Name] != nil {\n\t\t\treturn done[f.Name]\n\t\t}\n')]
DEMO = r'''package main

import (
	"bytes"
	stdzip "archive/zip"
	"io"
	"os"

	"github.com/xtfly/log4g/internal/archive"
	"github.com/xtfly/log4g/internal/archive/zip"
)

func main() {
	var a, b bytes.Buffer
	zw := stdzip.NewWriter(&a)
	for _, s := range []string{"first run", "second run"} {
		w, _ := zw.Create("app.log.1")
		io.WriteString(w, s)
	}
	zw.Close()
	r, err := zip.NewReader(bytes.NewReader(a.Bytes()), int64(a.Len()))
	if err != nil {
		panic(err)
	}
	w := zip.NewWriter(&b)
	if err := archive.Copy(w, r); err != nil {
		panic(err)
	}
	w.Close()
	zr, err := stdzip.NewReader(bytes.NewReader(b.Bytes()), int64(b.Len()))
	if err != nil {
		panic(err)
	}
	if len(zr.File) != 2 {
		println(len(zr.File))
		os.Exit(1)
	}
}
'''
