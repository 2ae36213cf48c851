ID, PROP = 'c12-narrow-lock', 'C12'
NEEDS = 'a goroutine writes to a file while another rolls it'
BREAKS = 'the record is written after the lock is given up, so that it is lost when the file is closed by a roll in between'
EDITS = [('internal/output_rollingwriter.go', '\trw.rollLock.Lock()\n\tdefer rw.rollLock.Unlock()\n\n\t// The size', '\tf, err := rw.ready(int64(len(bytes)))\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\treturn f.Write(bytes) // appends at once\n}\n\n// ready returns the file to write n bytes to\nfunc (rw *rollingFileWriter) ready(n int64) (*os.File, error) {\n\trw.rollLock.Lock()\n\tdefer rw.rollLock.Unlock()\n\n\t// The size'),
 ('internal/output_rollingwriter.go', '\t\terr := rw.createFileAndFolderIfNeeded(true)\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t}\n\n\tif rw.self', '\t\terr := rw.createFileAndFolderIfNeeded(true)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n\n\tif rw.self'),
 ('internal/output_rollingwriter.go', '\t\terr := rw.createFileAndFolderIfNeeded(true)\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t}\n\n\tn, err = rw.currentFile.Write(bytes)\n\trw.currentFileSize += int64(n)\n\treturn n, err\n', '\t\terr := rw.createFileAndFolderIfNeeded(true)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n\n\trw.currentFileSize += n\n\treturn rw.currentFile, nil\n')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"strings"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func main() {
	// many short logs, so that no backup is removed
	for n := 0; n < 60; n++ {
		d, err := ioutil.TempDir("", "demo")
		if err != nil {
			panic(err)
		}
		name := fmt.Sprint("o", n)
		if err := log4g.GetManager().SetConfig(&api.Config{
			Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
			Outputs: []api.CfgOutput{{"name": name, "type": "size_rolling_file", "file": d + "/log", "format": "f", "size": "1", "backups": "20"}},
			Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{name}}},
		}); err != nil {
			panic(err)
		}
		var wg sync.WaitGroup
		for g := 0; g < 10; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; k < 2; k++ {
					log4g.GetLogger("").Info(fmt.Sprintf("<%d-%d>", g, k))
				}
			}(g)
		}
		wg.Wait()
		all := ""
		fs, _ := ioutil.ReadDir(d)
		for _, f := range fs {
			bs, _ := ioutil.ReadFile(d + "/" + f.Name())
			all += string(bs)
		}
		os.RemoveAll(d)
		if c := strings.Count(all, "<"); c != 20 {
			fmt.Println(c, "of 20 records")
			os.Exit(1)
		}
	}
}
'''
