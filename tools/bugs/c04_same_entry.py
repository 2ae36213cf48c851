ID = 'c04-same-entry'
PROP = 'C04'
NEEDS = 'a level set at run time, then a configuration that gives the logger the same as the one before'
BREAKS = 'a logger whose entry is the same as in the configuration before is left alone, although its level was changed meanwhile'
EDITS = [('internal/logger_factory.go', '\tfor _, k := range f.loggers {\n\t\tif ops, lvl, err := f.manager.GetLoggerOutputs(k.name); err != nil {\n\t\t\t//log.Println("WARN: ", err)\n\t\t} else {\n\t\t\tk.SetLevel(lvl)\n\t\t\tk.SetOutputs(ops)\n\t\t}\n\t}\n}\n\n// newFactory', '\tfor n := range f.loggers {\n\t\tk := f.loggers[n]\n\t\tif ops, lvl, err := f.manager.GetLoggerOutputs(k.name); err != nil {\n\t\t\t//log.Println("WARN: ", err)\n\t\t} else {\n\t\t\t// nothing to do when the entry is the one that is in force\n\t\t\tif k.configured == lvl && sameOutputs(k.outputs, ops) {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tk.configured = lvl\n\t\t\tk.SetLevel(lvl)\n\t\t\tk.SetOutputs(ops)\n\t\t}\n\t}\n}\n\nfunc sameOutputs(a, b []api.Output) bool {\n\tif len(a) != len(b) {\n\t\treturn false\n\t}\n\tfor i := range a {\n\t\tif a[i] != b[i] {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n}\n\n// newFactory'), ('internal/logger.go', '\tlevel          api.Level    // 日志开启的级别\n', '\tlevel          api.Level    // 日志开启的级别\n\tconfigured     api.Level    // by the last configuration\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	cfg := func() *api.Config {
		return &api.Config{
			Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}"}},
			Outputs: []api.CfgOutput{{"name": "x", "type": "console", "format": "f"}},
			Loggers: []api.CfgLogger{{Name: "a", Level: "warn", OutputNames: []string{"x"}}},
		}
	}
	l := log4g.GetLogger("a")
	must(log4g.GetManager().SetConfig(cfg()))
	l.SetLevel(api.Debug)
	must(log4g.GetManager().SetConfig(cfg()))
	if l.Level() != api.Warn {
		bad("level", l.Level())
	}
}
'''
