ID, PROP = 'c20-parent-dirs', 'C20'
NEEDS = 'a log directory of which more than one level is missing'
BREAKS = 'only the last directory created has the configured permission'
EDITS = [('internal/output_rollingwriter.go', '\t\tif err = os.MkdirAll(rw.currentDirPath, rw.dirPerm); err != nil {\n\t\t\treturn err\n\t\t}\n', '\t\tdir := filepath.Clean(rw.currentDirPath)\n\t\tif err = os.MkdirAll(filepath.Dir(dir), defaultDirectoryPermissions); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif err = os.MkdirAll(dir, rw.dirPerm); err != nil {\n\t\t\treturn err\n\t\t}\n')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
func output(kv ...string) api.Output {
	c := api.CfgOutput{"name": "x", "format": "f"}
	for i := 0; i < len(kv); i += 2 {
		c[kv[i]] = kv[i+1]
	}
	o, err := internal.NewRollingOutput(c)
	must(err)
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	must(err)
	o.SetFormatter(f)
	return o
}

func send(o api.Output, s string) {
	o.Send(&api.Event{Format: "%s", Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
}

func list(dir string) string {
	fs, err := ioutil.ReadDir(dir)
	must(err)
	r := ""
	for _, f := range fs {
		if !f.IsDir() {
			b, err := ioutil.ReadFile(dir + "/" + f.Name())
			must(err)
			r += fmt.Sprintf("%s=%s ", f.Name(), b)
		}
	}
	return strings.TrimSpace(r)
}

func put(name, s string) {
	must(ioutil.WriteFile(name, []byte(s), 0600))
}

func main() {
	o := output("type", "size_rolling_file", "file", "d/e/a.log", "size", "1", "dir_perm", "0700")
	send(o, "1")
	fi, err := os.Stat("d")
	must(err)
	if fi.Mode().Perm() != 0700 {
		bad(fi.Mode())
	}
}
'''
