ID, PROP = 'c05-adjacent', 'C05'
NEEDS = 'an output named twice in a configuration, with another one between'
BREAKS = 'only neighbouring outputs are compared, so that a name repeated further on is accepted'
EDITS = [('internal/logger_manager.go', '''	for _, o := range cfg.Outputs {
		if _, ok := outputs[o.Name()]; ok {
''', '''	for i, o := range cfg.Outputs {
		if i > 0 && cfg.Outputs[i-1].Name() == o.Name() {
''')]
DEMO = r'''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g"
)

func main() {
	err := log4g.GetManager().LoadConfig([]byte("formats: [{name: f, type: text, layout: '%{msg}'}]\n"+
		"outputs: [{name: o, type: console, format: f}, {name: p, type: console, format: f}, {name: o, type: memory, format: f}]\n"), "yaml")
	if err == nil {
		fmt.Println("accepted")
		os.Exit(1)
	}
}
'''
