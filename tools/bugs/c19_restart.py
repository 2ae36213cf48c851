ID, PROP = 'c19-start-anew', 'C19'
NEEDS = 'reading the existing archive fails while it is extended'
BREAKS = 'an archive that cannot be read at the moment is replaced by one with the new backups only'
EDITS = [('internal/output_rollingwriter.go', '\t\tr, err := compressionType.unarchiver(src)\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t\tdefer r.Close() // Read-only\n\n\t\tif err := archive.Copy(w, r); err != nil {\n\t\t\treturn err\n\t\t}\n',
 '\t\tr, err := compressionType.unarchiver(src)\n\t\tif err != nil {\n\t\t\tbreak // nothing that could be kept\n\t\t}\n\t\tdefer r.Close() // Read-only\n\n\t\tif err := archive.Copy(w, r); err != nil {\n\t\t\treturn err\n\t\t}\n')]
TEST = r'''package internal

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	arch := filepath.Join(d, "all.zip")
	rw := newRollingFileWriter(filepath.Join(d, "a.log"), arch)
	rw.archiveType, rw.archiveExploded, rw.maxRolls = rollingArchiveZip, false, 1
	w := &rollingFileWriterSize{rw, 1}
	rw.self = w
	// an archive that cannot be read (half of it was taken by a broken disk, say, and may be brought back)
	if err := ioutil.WriteFile(arch, []byte("PK not readable now"), 0600); err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"one", "two", "three", "four"} {
		w.Write([]byte(s))
	}
	w.Close()
	b, err := ioutil.ReadFile(arch)
	if err != nil || string(b) != "PK not readable now" {
		t.Fatalf("the archive was replaced: %v %q", err, b)
	}
}
'''
DEMO_SH = r'''#!/bin/bash
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
cat > "$t/zz_demo_test.go" <<'EOF'
''' + TEST + r'''EOF
printf '{"Replace": {"%s/internal/zz_demo_test.go": "%s/zz_demo_test.go"}}' "$PWD" "$t" > "$t/overlay.json"
cp go.mod go.sum "$t/"
go test -modfile "$t/go.mod" -overlay "$t/overlay.json" -count=1 -run '^TestZZDemo$' ./internal
'''
