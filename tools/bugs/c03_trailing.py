ID, PROP = "c03-trailing-separator", "C03"
NEEDS = "a logger whose name ends in a separator, below a configured logger"
BREAKS = "a separator at the end of a name no longer makes the part before it the parent: 'a/' is attached to the root"
EDITS = [("internal/logger_factory.go", '			if parentName != "" {\n', '			if parentName != "" && i+1 < len(name) {\n')]
DEMO = '''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func main() {
	log4g.GetLogger("").SetLevel(api.Critical)
	log4g.GetLogger("a").SetLevel(api.Debug)
	if l := log4g.GetLogger("a/"); l.Level() != api.Debug {
		fmt.Println("level of a/:", l.Level())
		os.Exit(1)
	}
}
'''
