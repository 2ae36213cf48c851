package main

import (
	"io/ioutil"
	"path/filepath"
	"strings"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// redefine: an output that was created is defined differently by a later configuration.
// The result is, per logger, where a message went and how it looked.
func init() {
	modes["redefine"] = func(script []byte) interface{} {
		var s struct{ Dir, What string }
		parse(script, &s)
		out := redirect(s.Dir)
		rec := &recorder{made: map[string]int{}}
		registerTypes(rec)
		m := log4g.GetManager()
		conf := func(layout, file string) *api.Config {
			return &api.Config{
				Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": layout}},
				Outputs: []api.CfgOutput{{"name": "o", "type": "size_rolling_file", "size": "1G", "format": "f", "file": filepath.Join(s.Dir, file)}},
				Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
			}
		}
		switch s.What {
		case "builtin":
			log4g.GetLogger("").Info("first")
			must(m.SetConfig(&api.Config{
				Formats: []api.CfgFormat{{"name": "f1", "type": "text", "layout": "[%{msg}]\n"}},
				Outputs: []api.CfgOutput{{"name": "c1", "type": "size_rolling_file", "size": "1G", "format": "f1", "file": filepath.Join(s.Dir, "new")}},
				Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"c1"}}},
			}))
		case "output":
			must(m.SetConfig(conf("[%{msg}]\n", "old")))
			log4g.GetLogger("").Info("first")
			must(m.SetConfig(conf("[%{msg}]\n", "new")))
		case "format":
			must(m.SetConfig(conf("<%{msg}>\n", "new")))
			log4g.GetLogger("").Info("first")
			must(m.SetConfig(conf("[%{msg}]\n", "new")))
		}
		log4g.GetLogger("").Info("second")
		res := map[string]string{}
		for _, f := range []string{"old", "new"} {
			bs, _ := ioutil.ReadFile(filepath.Join(s.Dir, f))
			res[f] = string(bs)
		}
		bs, _ := ioutil.ReadFile(out.Name())
		for _, l := range strings.Split(string(bs), "\n") {
			for _, w := range []string{"first", "second"} {
				if strings.Contains(l, ">> "+w+" (") {
					res["console"] += w + ";"
				}
			}
		}
		return res
	}
}
