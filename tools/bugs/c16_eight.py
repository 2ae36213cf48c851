ID, PROP = 'c16-eight', 'C16'
NEEDS = 'more than eight backups leaving the limit in one roll, as after a restart with a lower limit'
BREAKS = 'at most eight backups are archived in a roll, but all that are over the limit are removed'
EDITS = [('internal/output_rollingwriter.go', '''			for i := 0; i < rollsToDelete; i++ {
				if err := rw.archiveExplodedLogs(''', '''			for i := 0; i < rollsToDelete && i < 8; i++ {
				if err := rw.archiveExplodedLogs(''')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func main() {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	for i := 1; i <= 12; i++ {
		ioutil.WriteFile(fmt.Sprintf("%s/a.log.%d", d, i), []byte("x"), 0600)
	}
	o, err := internal.NewRollingOutput(api.CfgOutput{"name": "o", "type": "size_rolling_file", "file": d + "/a.log", "size": "1", "backups": "1", "archive": "gzip"})
	if err != nil {
		panic(err)
	}
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	if err != nil {
		panic(err)
	}
	o.SetFormatter(f)
	o.Send(&api.Event{Format: "one", Level: api.Error})
	o.Send(&api.Event{Format: "two", Level: api.Error})
	gz, _ := filepath.Glob(d + "/*.gz")
	if len(gz) != 12 {
		fmt.Println(gz)
		os.RemoveAll(d)
		os.Exit(1)
	}
}
'''
