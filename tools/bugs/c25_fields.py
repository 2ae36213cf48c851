ID, PROP = 'c25-field-text', 'C25'
NEEDS = 'a field whose value prints itself and changes after the writer was made'
BREAKS = 'the text of such fields is taken when the writer is made, so that later records show what they were then'
EDITS = [('internal/logger.go', 'import (\n\t"context"\n', 'import (\n\t"context"\n\t"fmt"\n'),
 ('internal/logger.go', '\t\tctx = context.WithValue(ctx, f.Key, f.Value)\n', '\t\tv := f.Value\n\t\tif s, ok := v.(fmt.Stringer); ok {\n\t\t\tv = s.String() // once for all records\n\t\t}\n\t\tctx = context.WithValue(ctx, f.Key, v)\n')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

type step struct{ n int }

func (s *step) String() string { return fmt.Sprint("step ", s.n) }

func main() {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	log := filepath.Join(d, "log")
	if err := log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{step} %{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "o", "type": "size_rolling_file", "file": log, "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
	}); err != nil {
		panic(err)
	}
	s := &step{1}
	w := log4g.GetLogger("a").WithFields(api.Field{Key: "step", Value: s})
	w.Info("x")
	s.n = 2
	w.Info("y")
	bs, _ := ioutil.ReadFile(log)
	if string(bs) != "step 1 x\nstep 2 y\n" {
		fmt.Printf("%s", bs)
		os.RemoveAll(d)
		os.Exit(1)
	}
}
'''
