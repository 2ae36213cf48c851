ID, PROP = 'c07-fields-skip', 'C07'
NEEDS = 'a caller skip set on a logger, a writer with fields or context made before, and kept'
BREAKS = 'a writer with context keeps the caller skip of the time it was made'
EDITS = [('internal/logger.go', '\treturn &defWriter{logger: l, ctx: ctx}\n', '\tsettingsLock.RLock()\n\tdefer settingsLock.RUnlock()\n\treturn &defWriter{logger: l, ctx: ctx, skip: l.callerSkip}\n'),
 ('internal/logger.go', '\tctx    context.Context\n', '\tctx    context.Context\n\tskip   int // of a writer with a context\n'),
 ('internal/logger.go', '\tsettingsLock.RUnlock()\n\tl.write(', '\tsettingsLock.RUnlock()\n\tif l.skip > 0 {\n\t\tskip = l.skip\n\t}\n\tl.write(')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"strings"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func helper(w api.Writer) {
	w.Info("m")
}

func main() {
	f, err := ioutil.TempFile("", "out")
	must(err)
	defer os.Remove(f.Name())
	os.Stdout = f
	must(log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{shortfunc}\n"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "console", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "a", Level: "all", OutputNames: []string{"x"}}},
	}))
	l := log4g.GetLogger("a")
	w := l.WithCtx(context.Background())
	l.SetCallerSkip(1)
	helper(w)
	b, _ := ioutil.ReadFile(f.Name())
	if strings.TrimSpace(string(b)) != "main" {
		fmt.Fprintf(os.Stderr, "%q\n", b)
		os.Exit(1)
	}
}
'''
