ID, PROP = 'c12-shared-buffer', 'C12'
NEEDS = 'two goroutines rendering to the same synchronous output at the same time'
BREAKS = 'records are collected in a buffer of the output without a lock'
EDITS = [('internal/output_base.go', '\tt api.Level //threshold\n}', '\tt api.Level //threshold\n\tline []byte // the record, kept to save allocations\n}'),
 ('internal/output_base.go', '\t\to.w.Write([]byte(o.f.Format(e)))\n', '\t\to.line = append(o.line[:0], o.f.Format(e)...)\n\t\to.w.Write(o.line)\n')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"strings"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func main() {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	if err := log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "o", "type": "size_rolling_file", "file": d + "/log", "format": "f", "size": "1G"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
	}); err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				log4g.GetLogger("").Info(fmt.Sprintf("<%d-%d>%s", g, k, strings.Repeat("x", k%50)))
			}
		}(g)
	}
	wg.Wait()
	bs, _ := ioutil.ReadFile(d + "/log")
	os.RemoveAll(d)
	for g := 0; g < 8; g++ {
		for k := 0; k < 2000; k++ {
			if strings.Count(string(bs), fmt.Sprintf("<%d-%d>%s\n", g, k, strings.Repeat("x", k%50))) != 1 {
				fmt.Println("record", g, k)
				os.Exit(1)
			}
		}
	}
}
'''
