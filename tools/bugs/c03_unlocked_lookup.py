ID = 'c03-unlocked-lookup'
PROP = 'C03'
NEEDS = 'two goroutines asking for the same new name at the same time'
BREAKS = 'a new logger is made outside the lock and put in unconditionally: one goroutine keeps a logger of its own that later configurations and settings do not reach'
EDITS = [('internal/logger_factory.go', '\tf.Lock()\n\tdefer f.Unlock()\n\n\tif name == "" || name == rootLoggerName {\n\t\treturn f.getRootLogger()\n\t}\n\n\tl, ok := f.loggers[name]\n\tif !ok {\n\t\tl = f.createLogger(name, f.getParent(name))\n\t}\n\n\treturn l\n', '\tf.Lock()\n\tif name == "" || name == rootLoggerName {\n\t\tdefer f.Unlock()\n\t\treturn f.getRootLogger()\n\t}\n\tl, ok := f.loggers[name]\n\tvar parent *defLogger\n\tif !ok {\n\t\tparent = f.getParent(name)\n\t}\n\tf.Unlock()\n\tif ok {\n\t\treturn l\n\t}\n\n\t// outputs may take long to create: do not keep others waiting\n\tl = newLogger(name)\n\tl.parent = parent\n\tif ops, lvl, err := f.manager.GetLoggerOutputs(name); err == nil {\n\t\tl.SetLevel(lvl)\n\t\tl.SetOutputs(ops)\n\t}\n\tf.Lock()\n\tf.loggers[name] = l\n\tf.Unlock()\n\treturn l\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	must(nil)
	_ = api.All
	for i := 0; i < 3000; i++ {
		name := fmt.Sprintf("a/n%d", i)
		var wg sync.WaitGroup
		var got [8]api.Logger
		start := make(chan bool)
		for k := range got {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				got[k] = log4g.GetLogger(name)
			}(k)
		}
		close(start)
		wg.Wait()
		for _, l := range got {
			if l != got[0] {
				bad("two loggers for", name)
			}
		}
	}
}
'''
