ID, PROP = 'c03-forget', 'C03'
NEEDS = 'more than 256 loggers, and one obtained again after the others'
BREAKS = 'when there are many loggers, those without settings of their own are forgotten and made anew when they are asked for again'
EDITS = [('internal/logger_factory.go', '\t\tf.loggers[name] = l\n', '\t\tf.keep(name, l)\n'), ('internal/logger_factory.go', 'func (f *factory) getRootLogger() ', '// keep forgets loggers that only inherit when there are many: they can be made again\nfunc (f *factory) keep(name string, l *defLogger) {\n\tif len(f.loggers) > 256 {\n\t\tfor n, o := range f.loggers {\n\t\t\tif o != f.root && o != l.parent && o.level == api.Uninitialized && len(o.outputs) == 0 {\n\t\t\t\tdelete(f.loggers, n)\n\t\t\t}\n\t\t}\n\t}\n\tf.loggers[name] = l\n}\n\nfunc (f *factory) getRootLogger() ')]
DEMO = r'''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g"
)

func main() {
	l := log4g.GetLogger("a")
	for i := 0; i < 1000; i++ {
		log4g.GetLogger(fmt.Sprintf("b%d", i))
	}
	if log4g.GetLogger("a") != l {
		fmt.Println("another logger under the same name")
		os.Exit(1)
	}
}
'''
