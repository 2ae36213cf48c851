ID, PROP = 'c05-outputs-of-others', 'C05'
NEEDS = 'a logger naming an output that is not defined any more but was in the configuration before'
BREAKS = 'outputs of the configuration in force count as defined when a new one is validated'
EDITS = [('internal/logger_manager.go', '\toutputs := make(map[string]api.CfgOutput)\n', '\toutputs := make(map[string]api.CfgOutput)\n\tdefined := func(name string) bool {\n\t\t_, ok := outputs[name]\n\t\tif !ok {\n\t\t\tm.RLock()\n\t\t\t_, ok = m.outputs[name] // there is an instance\n\t\t\tm.RUnlock()\n\t\t}\n\t\treturn ok\n\t}\n'), ('internal/logger_manager.go', '\t\t\tif _, ok := outputs[outputName]; !ok {\n', '\t\t\tif !defined(outputName) {\n')]
DEMO = r'''package main

import (
	"os"
	"path/filepath"
	"io/ioutil"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

var _ = filepath.Join
var _ = ioutil.Discard
var _ = api.All

func main() {
	m := log4g.GetManager()
	cfg := &api.Config{
		Loggers: []api.CfgLogger{{Name: "root", Level: "info", OutputNames: []string{"c1"}}},
	}
	log4g.GetLogger("").Level()
	if m.SetConfig(cfg) == nil {
		os.Exit(1)
	}
	os.Exit(0)
}
'''
