ID, PROP = 'c24-copy-truncate', 'C24'
NEEDS = 'the process killed in the middle of a roll'
BREAKS = 'a roll copies the file and truncates it instead of renaming: killed in between, the messages are there twice'
EDITS = [('internal/output_rollingwriter.go', '\terr = os.Rename(filepath.Join(rw.currentDirPath, rw.currentName), dest)\n\tif err != nil {\n\t\treturn err\n\t}\n', '\t// keep the file itself, so that others may go on reading it\n\tcur := filepath.Join(rw.currentDirPath, rw.currentName)\n\tcontent, err := ioutil.ReadFile(cur)\n\tif err != nil {\n\t\treturn err\n\t}\n\ttmp := dest + ".tmp"\n\tif err = ioutil.WriteFile(tmp, content, rw.filePerm); err != nil {\n\t\tos.Remove(tmp)\n\t\treturn err\n\t}\n\tif err = os.Rename(tmp, dest); err != nil {\n\t\tos.Remove(tmp)\n\t\treturn err\n\t}\n\tif err = os.Truncate(cur, 0); err != nil {\n\t\treturn err\n\t}\n')]
DEMO_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cat > "$t/src/main.go" <<'EOF'
package main

import (
	"context"
	"os"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func main() {
	os.Mkdir("d", 0755)
	o, err := internal.NewRollingOutput(api.CfgOutput{"name": "x", "type": "size_rolling_file", "file": "d/a.log", "size": "1", "back_perm": "0600"})
	if err != nil {
		panic(err)
	}
	f, _ := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	o.SetFormatter(f)
	for _, s := range []string{"one", "two"} {
		o.Send(&api.Event{Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
	}
}
EOF
printf '{"Replace": {"%s/zz_demo/main.go": "%s/src/main.go"}}' "$PWD" "$t" > "$t/overlay.json"
cp go.mod go.sum "$t/"
go build -modfile "$t/go.mod" -overlay "$t/overlay.json" -o "$t/demo" github.com/xtfly/log4g/zz_demo || exit 98
# killed at each system call on a file, in turn
for call in openat write rename renameat renameat2 truncate ftruncate fchmodat chmod close unlinkat; do
  for n in $(seq 1 12); do
    mkdir "$t/scratch" && cd "$t/scratch" || exit 97
    strace -f -qq -o /dev/null -P "$t/scratch/d/a.log" -P "$t/scratch/d/a.log.1" -P "$t/scratch/d/a.log.1.tmp" -P d/a.log -P d/a.log.1 -P d/a.log.1.tmp \
      -e trace=$call -e inject=$call:signal=SIGKILL:when=$n "$t/demo" >/dev/null 2>&1
    if [ "$(cat d/a.log* 2>/dev/null | grep -o one | wc -l)" -gt 1 ]; then
      echo "killed at $call $n: the message is there twice"; grep -H . d/*; exit 1
    fi
    cd /; rm -rf "$t/scratch"
  done
done
exit 0
'''
