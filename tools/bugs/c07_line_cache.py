ID, PROP = 'c07-line-cache', 'C07'
NEEDS = 'two functions with a logging statement on the same line'
BREAKS = 'the function of a statement is remembered by file and line, so that another function on that line is named'
EDITS = [('internal/logger_callerinfo.go', '\tif needFun && ci.pkg == "" {\n\t\tif f := runtime.FuncForPC(ci.pc); f != nil {\n\t\t\tfs := f.Name()\n', '\tif needFun && ci.pkg == "" {\n\t\tif fs := funcName(ci); fs != "" {\n'),
 ('internal/logger_callerinfo.go', 'func getCallerInfo(', """var funcNames sync.Map // by file and line

type filePos struct {
\tfile string
\tline int
}

// funcName looks up the function of a statement once
func funcName(ci *callerInfo) string {
\tpos := filePos{ci.file, ci.line}
\tif v, ok := funcNames.Load(pos); ok {
\t\treturn v.(string)
\t}
\tf := runtime.FuncForPC(ci.pc)
\tif f == nil {
\t\treturn ""
\t}
\tfuncNames.Store(pos, f.Name())
\treturn f.Name()
}

func getCallerInfo("""), ('internal/logger_callerinfo.go', '\t"strings"\n', '\t"strings"\n\t"sync"\n')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"strings"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	f, err := ioutil.TempFile("", "out")
	must(err)
	defer os.Remove(f.Name())
	os.Stdout = f
	must(log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{shortfunc}\n"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "console", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "a", Level: "all", OutputNames: []string{"x"}}},
	}))
	l := log4g.GetLogger("a")
	for _, f := range []func(){func() { l.Info("x") }, func() { l.Info("x") }} { f() }
	b, _ := ioutil.ReadFile(f.Name())
	if strings.TrimSpace(string(b)) != "func1\nfunc2" {
		fmt.Fprintf(os.Stderr, "%q\n", b)
		os.Exit(1)
	}
}
'''
