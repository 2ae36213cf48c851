ID = 'c01-cached-level'
PROP = 'C01'
NEEDS = 'a logger without a level, asked or used before the level of its grandparent changes'
BREAKS = "a logger remembers the effective level it inherited until its own or its parent's level is set"
EDITS = [('internal/logger.go', '\tlevel          api.Level    // 日志开启的级别\n', '\tlevel          api.Level    // 日志开启的级别\n\tinherited      api.Level    // of parent, when not set here\n\tinheritedAt    int          // count of changes of parent when it was read\n\tchanges        int\n'), ('internal/logger.go', '\tl.level = lvl\n\tsettingsLock.Unlock()\n', '\tl.level = lvl\n\tl.changes++\n\tl.inherited = api.Uninitialized\n\tsettingsLock.Unlock()\n'), ('internal/logger.go', '\tcl := l\n\tfor cl != nil {\n\t\tif cl.level != api.Uninitialized {\n\t\t\treturn cl.level\n\t\t}\n\t\tcl = cl.parent\n\t}\n\treturn api.Off\n', '\treturn l.effective()\n}\n\nvar inheritLock sync.Mutex\n\nfunc (l *defLogger) effective() api.Level {\n\tif l.level != api.Uninitialized {\n\t\treturn l.level\n\t}\n\tif l.parent == nil {\n\t\treturn api.Off\n\t}\n\tinheritLock.Lock()\n\tat, lvl := l.inheritedAt, l.inherited\n\tinheritLock.Unlock()\n\tif lvl == api.Uninitialized || at != l.parent.changes {\n\t\tat, lvl = l.parent.changes, l.parent.effective()\n\t\tinheritLock.Lock()\n\t\tl.inheritedAt, l.inherited = at, lvl\n\t\tinheritLock.Unlock()\n\t}\n\treturn lvl\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	p, c := log4g.GetLogger("a"), log4g.GetLogger("a/b/c")
	must(nil)
	p.SetLevel(api.Info)
	if !c.InfoEnabled() {
		bad("info of a/b/c is off")
	}
	p.SetLevel(api.Error)
	if c.Level() != api.Error || c.InfoEnabled() {
		bad("a/b/c does not follow a")
	}
}
'''
