ID, PROP = 'c19-close-error', 'C19'
NEEDS = 'no space is left when the extended archive is completed'
BREAKS = 'an error on completing the archive goes unnoticed: an unreadable archive replaces the old one, and the backups are removed'
EDITS = [('internal/output_rollingwriter.go', '\tw := compressionType.archiver(dst, false)\n\tdefer closeWithError(w)\n', '\tw := compressionType.archiver(dst, false)\n\tdefer w.Close()\n')]
TEST = r'''package internal

import (
	"archive/zip"
	"io/ioutil"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
)

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	arch := filepath.Join(d, "all.zip")
	rw := newRollingFileWriter(filepath.Join(d, "a.log"), arch)
	rw.archiveType, rw.archiveExploded, rw.maxRolls = rollingArchiveZip, false, 1
	w := &rollingFileWriterSize{rw, 1}
	rw.self = w
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1500, Max: old.Max})
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 6; i++ {
		b := make([]byte, 600)
		r.Read(b)
		w.Write(b)
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	w.Close()
	// every message of 600 bytes is in the archive, in a backup or in the file
	n := 0
	z, err := zip.OpenReader(arch)
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range z.File {
		n += int(f.UncompressedSize64)
	}
	fs, _ := ioutil.ReadDir(d)
	for _, f := range fs {
		if f.Name() != "all.zip" && !f.IsDir() {
			n += int(f.Size())
		}
	}
	if n != 6*600 {
		t.Fatalf("%d bytes remain", n)
	}
}
'''
DEMO_SH = r'''#!/bin/bash
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
cat > "$t/zz_demo_test.go" <<'EOF'
''' + TEST + r'''EOF
printf '{"Replace": {"%s/internal/zz_demo_test.go": "%s/zz_demo_test.go"}}' "$PWD" "$t" > "$t/overlay.json"
cp go.mod go.sum "$t/"
go test -modfile "$t/go.mod" -overlay "$t/overlay.json" -count=1 -run '^TestZZDemo$' ./internal
'''
