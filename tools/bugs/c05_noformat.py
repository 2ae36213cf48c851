ID, PROP = 'c05-no-format', 'C05'
NEEDS = 'an output that names no formatter'
BREAKS = 'an output without a formatter passes the validation, although no formatter has an empty name'
EDITS = [('internal/logger_manager.go', '\t\tif _, ok := formats[o.FormatName()]; !ok {\n', '\t\tif _, ok := formats[o.FormatName()]; !ok && o.FormatName() != "" {\n')]
DEMO = r'''package main

import (
	"os"
	"path/filepath"
	"io/ioutil"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

var _ = filepath.Join
var _ = ioutil.Discard
var _ = api.All

func main() {
	m := log4g.GetManager()
	cfg := &api.Config{
		Outputs: []api.CfgOutput{{"name": "m", "type": "memory"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "info", OutputNames: []string{"m"}}},
	}
	if m.SetConfig(cfg) == nil {
		os.Exit(1)
	}
	os.Exit(0)
}
'''
