ID, PROP = 'c16-copy-error', 'C16'
NEEDS = 'an error while the content of a backup is read or compressed'
BREAKS = 'an error while copying into the archive goes unnoticed: the archive is incomplete and the backup removed'
EDITS = [('internal/output_rollingwriter.go', '\t_, err = io.Copy(w, src)\n\treturn err\n', '\tio.Copy(w, src)\n\treturn nil\n')]
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cat > "$t/src/main.go" <<'EOF'
package main

import (
	"context"
	"io/ioutil"
	"os"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func main() {
	os.Mkdir("d", 0755)
	o, err := internal.NewRollingOutput(api.CfgOutput{"name": "x", "type": "size_rolling_file", "file": "d/a.log", "size": "1", "backups": "1", "archive": "zip"})
	if err != nil {
		panic(err)
	}
	ioutil.WriteFile("d/a.log.1", []byte(strings.Repeat("backup", 1000)), 0600)
	f, _ := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	for _, s := range []string{"one", "two"} {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}
EOF
printf '{"Replace": {"%s/zz_demo/main.go": "%s/src/main.go"}}' "$PWD" "$t" > "$t/overlay.json"
cp go.mod go.sum "$t/"
go build -modfile "$t/go.mod" -overlay "$t/overlay.json" -o "$t/demo" github.com/xtfly/log4g/zz_demo || exit 98
# reading the backup fails
mkdir "$t/scratch" && cd "$t/scratch" || exit 97
strace -f -qq -o /dev/null -P "$t/scratch/d/a.log.1" -P d/a.log.1 -e trace=read -e inject=read:error=EIO:when=1 "$t/demo" >/dev/null 2>&1
ls -la d
test -e d/a.log.1 && exit 0
n=$(python3 -c 'import zipfile; print(len(zipfile.ZipFile("d/a.log.1.zip").read("a.log.1")))') || exit 1
test "$n" = 6000
'''
