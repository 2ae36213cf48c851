ID, PROP = 'c01-depth', 'C01'
NEEDS = 'a logger whose nearest ancestor with a level is more than eight steps above it'
BREAKS = 'the search for a level gives up after eight ancestors and takes the level for off'
EDITS = [('internal/logger.go', '''	cl := l
	for cl != nil {
		if cl.level''', '''	cl := l
	// no more than eight: a loop among the parents must not hang a logging call
	for n := 0; cl != nil && n <= 8; n++ {
		if cl.level''')]
DEMO = r'''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func main() {
	log4g.GetLogger("a").SetLevel(api.Warn)
	l := log4g.GetLogger("a/b/c/d/e/f/g/h/i/j/k/l")
	if l.Level() != api.Warn || !l.ErrorEnabled() || l.InfoEnabled() {
		fmt.Println(l.Level())
		os.Exit(1)
	}
}
'''
