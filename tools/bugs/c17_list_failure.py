ID, PROP = 'c17-list-failure', 'C17'
NEEDS = 'the directory cannot be listed when the file is rolled'
BREAKS = 'a failure to list the directory counts as an empty history: the roll overwrites an existing backup'
EDITS = [('internal/output_rollingwriter.go', '\thistory, err := rw.getSortedLogHistory()\n\tif err != nil {\n\t\treturn err\n\t}\n', '\thistory, err := rw.getSortedLogHistory()\n\tif err != nil {\n\t\treportInternalError(err)\n\t}\n')]
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 99
trap 'chmod -R u+rwx "$t"; rm -rf "$t"' EXIT
mkdir "$t/src"
cat > "$t/src/main.go" <<'EOF'
package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"syscall"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func main() {
	if err := os.Mkdir("d", 0755); err != nil {
		panic(err)
	}
	o, err := internal.NewRollingOutput(api.CfgOutput{"name": "x", "type": "size_rolling_file", "file": "d/a.log", "size": "1"})
	if err != nil {
		panic(err)
	}
	f, _ := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	send := func(s string) {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
	send("1")
	send("2")
	// no file descriptor left for reading the directory
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	low := lim
	low.Cur = 3
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low)
	send("3")
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	send("4")
	send("5")
	b, _ := ioutil.ReadFile("d/a.log.1")
	if string(b) != "1" {
		fmt.Printf("a.log.1 holds %q\n", b)
		os.Exit(1)
	}
}
EOF
printf '{"Replace": {"%s/zz_demo/main.go": "%s/src/main.go"}}' "$PWD" "$t" > "$t/overlay.json"
cp go.mod go.sum "$t/"
go build -modfile "$t/go.mod" -overlay "$t/overlay.json" -o "$t/demo" github.com/xtfly/log4g/zz_demo || exit 98
mkdir "$t/scratch" && cd "$t/scratch" && timeout 120 "$t/demo"
'''
