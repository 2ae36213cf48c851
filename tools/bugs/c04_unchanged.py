ID, PROP = 'c04-unchanged', 'C04'
NEEDS = 'a configuration set again, equal to the one in force, after a level or outputs were changed at run time'
BREAKS = 'a configuration equal to the present one is accepted but not applied'
EDITS = [('internal/logger_manager.go', '\tm.config = cfg\n\tm.Unlock()\n\tfor _, cn := range m.cfgNotifications {\n', '\told := m.config\n\tm.config = cfg\n\tm.Unlock()\n\tfor _, cn := range m.changed(old, cfg) {\n'), ('internal/logger_manager.go', '\t"io/ioutil"\n', '\t"io/ioutil"\n\t"reflect"\n'), ('internal/logger_manager.go', 'func (m *defManager) validateConfig', '// changed returns who is to be told\nfunc (m *defManager) changed(old, cfg *api.Config) []configNotification {\n\tif reflect.DeepEqual(old, cfg) {\n\t\treturn nil\n\t}\n\treturn m.cfgNotifications\n}\n\nfunc (m *defManager) validateConfig')]
DEMO = r'''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func main() {
	cfg := func() *api.Config {
		return &api.Config{Loggers: []api.CfgLogger{{Name: "a", Level: "warn"}}}
	}
	l := log4g.GetLogger("a")
	if err := log4g.GetManager().SetConfig(cfg()); err != nil {
		panic(err)
	}
	l.SetLevel(api.Debug)
	if err := log4g.GetManager().SetConfig(cfg()); err != nil {
		panic(err)
	}
	if l.Level() != api.Warn {
		fmt.Println(l.Level())
		os.Exit(1)
	}
}
'''
