ID, PROP = 'c13-number-order', 'C13'
NEEDS = 'a backup number of two digits next to one of one digit'
BREAKS = 'backup numbers are ordered as text: after 10 comes 10 again, overwriting it'
EDITS = [('internal/output_rollingwriter.go', '\tv1, _ := strconv.Atoi(p[i])\n\tv2, _ := strconv.Atoi(p[j])\n\treturn v1 < v2\n', '\treturn p[i] < p[j]\n')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"strings"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
func output(kv ...string) api.Output {
	c := api.CfgOutput{"name": "x", "format": "f"}
	for i := 0; i < len(kv); i += 2 {
		c[kv[i]] = kv[i+1]
	}
	o, err := internal.NewRollingOutput(c)
	must(err)
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	must(err)
	o.SetFormatter(f)
	return o
}

func send(o api.Output, s string) {
	o.Send(&api.Event{Format: "%s", Arguments: []interface{}{s}, Level: api.Info, Ctx: context.Background(), Time: time.Now()})
}

func list(dir string) string {
	fs, err := ioutil.ReadDir(dir)
	must(err)
	r := ""
	for _, f := range fs {
		if !f.IsDir() {
			b, err := ioutil.ReadFile(dir + "/" + f.Name())
			must(err)
			r += fmt.Sprintf("%s=%s ", f.Name(), b)
		}
	}
	return strings.TrimSpace(r)
}

func put(name, s string) {
	must(ioutil.WriteFile(name, []byte(s), 0600))
}

func main() {
	must(os.Mkdir("d", 0700))
	for i := 8; i <= 10; i++ {
		put(fmt.Sprintf("d/a.log.%d", i), fmt.Sprintf("m%d ", i))
	}
	put("d/a.log", "m11 ")
	o := output("type", "size_rolling_file", "file", "d/a.log", "size", "4", "backups", "10")
	send(o, "m12 ")
	send(o, "m13 ")
	if got := list("d"); got != "a.log=m13  a.log.10=m10  a.log.11=m11  a.log.12=m12  a.log.8=m8  a.log.9=m9" {
		bad(got)
	}
}
'''
