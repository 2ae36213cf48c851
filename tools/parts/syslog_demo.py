HEAD = r'''package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func main() {
	if os.Getenv("DEMO_SOCK") != "" {
		child()
		return
	}
}

// see demo.sh: log/syslog looks for the daemon at $DEMO_SOCK
func child() {
	sock := os.Getenv("DEMO_SOCK")
	c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: sock, Net: "unixgram"})
	if err != nil {
		panic(err)
	}
	_, _, _, _ = json.Marshal, ioutil.ReadFile, exec.Command, filepath.Join
	if err := log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}"}},
		Outputs: []api.CfgOutput{{"name": "o", "type": "syslog", "prefix": "demo", "format": "f", "threshold": THR}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
	}); err != nil {
		panic(err)
	}
	l := log4g.GetLogger("")
	LOG
	got := []string{}
	buf := make([]byte, 65536)
	for {
		c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		n, err := c.Read(buf)
		if err != nil {
			break
		}
		s := string(buf[:n])
		got = append(got, s[:strings.Index(s, ">")+1]+strings.TrimSuffix(s[strings.Index(s, "]: ")+3:], "\n"))
	}
	if want := WANT; fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		fmt.Printf("%q\n", got)
		os.Exit(1)
	}
}
'''
SHELL = r'''#!/bin/bash
# exit 0: the property holds, nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
std=$(go env GOROOT)/src/log/syslog/syslog_unix.go
sed -e 's/logPaths := \[\]string{[^}]*}/logPaths := []string{os.Getenv("DEMO_SOCK")}/' -e 's/"net"/"net"\n\t"os"/' "$std" > "$t/syslog_unix.go"
printf '{"Replace": {"%s/zz_demo/main.go": "%s/main.go", "%s": "%s/syslog_unix.go"}}' "$PWD" "$here" "$std" "$t" > "$t/overlay.json"
cp go.mod go.sum "$t/"
go build -modfile "$t/go.mod" -overlay "$t/overlay.json" -o "$t/demo" github.com/xtfly/log4g/zz_demo || exit 98
mkdir "$t/scratch" && cd "$t/scratch" && DEMO_SOCK="$t/scratch/sock" timeout 120 "$t/demo"
'''
