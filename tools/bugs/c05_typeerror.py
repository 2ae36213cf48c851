ID, PROP = 'c05-yaml-types', 'C05'
NEEDS = 'a YAML document in which something has another type than expected'
BREAKS = 'what can be understood of a malformed YAML document is installed'
EDITS = [('internal/logger_manager.go', '\t\terr = yaml.Unmarshal(bs, cfg)\n', '\t\tif err = yaml.Unmarshal(bs, cfg); err != nil {\n\t\t\tif _, ok := err.(*yaml.TypeError); ok && len(cfg.Loggers) > 0 {\n\t\t\t\terr = nil // options that are not for us\n\t\t\t}\n\t\t}\n')]
DEMO = r'''package main

import (
	"os"
	"path/filepath"
	"io/ioutil"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

var _ = filepath.Join
var _ = ioutil.Discard
var _ = api.All

func main() {
	m := log4g.GetManager()
	if m.LoadConfig([]byte("outputs: none\nloggers:\n- {name: root, level: error}\n"), "yml") == nil {
		os.Exit(1)
	}
	if log4g.GetLogger("").Level() != api.All {
		os.Exit(2)
	}
	os.Exit(0)
}
'''
