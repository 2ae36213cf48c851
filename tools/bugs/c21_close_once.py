ID, PROP = 'c21-close-once', 'C21'
NEEDS = 'the manager is closed again after an asynchronous output was created since the first time'
BREAKS = 'only the first closing of the manager closes outputs'
EDITS = [('internal/logger_manager.go', '\tcfgNotifications  []configNotification\n', '\tcfgNotifications  []configNotification\n\tclosed            bool\n'), ('internal/logger_manager.go', '\tm.Lock()\n\tfor _, v := range m.outputs {\n\t\tv.Close()\n\t}\n\tm.Unlock()\n', '\tm.Lock()\n\tdefer m.Unlock()\n\tif m.closed {\n\t\treturn\n\t}\n\tm.closed = true\n\tfor _, v := range m.outputs {\n\t\tv.Close()\n\t}\n')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
func main() {
	must(os.Mkdir("d", 0700))
	log4g.GetManager().Close()
	must(log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "F %{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "size_rolling_file", "format": "f", "file": "d/x", "async": "true"}},
		Loggers: []api.CfgLogger{{Name: "a", Level: "all", OutputNames: []string{"x"}}},
	}))
	log4g.GetLogger("a").Info("m")
	log4g.GetManager().Close()
	x, _ := ioutil.ReadFile("d/x")
	if string(x) != "F m\n" {
		bad("after closing the file holds", string(x))
	}
}
'''
