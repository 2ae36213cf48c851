ID, PROP = 'c08-greedy-spec', 'C08'
NEEDS = 'a layout with a verb that has a format, followed by another brace on the same line of text'
BREAKS = 'format strings of verbs are read up to the wrong brace when an escaped brace occurs'
EDITS = [('internal/format_parser.go', '(?::(.*?[^\\\\]))?}`', '(?::((?:\\\\.|[^}\\n])+))?}`')]
DEMO = r'''package main

import (
	"context"
	"os"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func main() {
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{a:\\}x}|"})
	if err != nil {
		println(err.Error())
		os.Exit(1)
	}
	g, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}%{a:}}"})
	if err != nil {
		println(err.Error())
		os.Exit(1)
	}
	e := &api.Event{Format: "m", Ctx: context.WithValue(context.Background(), "a", 5)}
	if s := string(g.Format(e)) + string(f.Format(e)); s != "m%!}(int=5)%!\\(int=5)}x|" {
		println(s)
		os.Exit(1)
	}
}
'''
