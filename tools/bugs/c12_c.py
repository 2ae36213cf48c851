ID, PROP = 'c12-pieces', 'C12'
NEEDS = 'records longer than 4096 bytes from two goroutines'
BREAKS = 'a long record is written in pieces, between which others may write'
EDITS = [('internal/output_base.go', '\t\to.w.Write([]byte(o.f.Format(e)))\n', '\t\tbs := o.f.Format(e)\n\t\tfor len(bs) > 4096 { // blocks of the file system\n\t\t\to.w.Write(bs[:4096])\n\t\t\tbs = bs[4096:]\n\t\t}\n\t\to.w.Write(bs)\n')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"strings"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func main() {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	if err := log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "o", "type": "size_rolling_file", "file": d + "/log", "format": "f", "size": "1G"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
	}); err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				log4g.GetLogger("").Info(strings.Repeat(string(rune('a'+g)), 20000))
			}
		}(g)
	}
	wg.Wait()
	bs, _ := ioutil.ReadFile(d + "/log")
	os.RemoveAll(d)
	for i, l := range strings.Split(strings.TrimSuffix(string(bs), "\n"), "\n") {
		if len(l) != 20000 || strings.Trim(l, l[:1]) != "" {
			fmt.Println("record", i)
			os.Exit(1)
		}
	}
}
'''
