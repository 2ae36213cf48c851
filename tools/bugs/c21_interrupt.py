ID, PROP = 'c21-interrupt-only-term', 'C21'
NEEDS = 'the process is interrupted (SIGINT) while messages wait in a queue'
BREAKS = 'an interrupt does not close the manager any more once outputs were configured'
EDITS = [('internal/log4g.go', '\tsignal.Notify(listenSig, os.Interrupt, syscall.SIGTERM)\n', '\tsignal.Notify(listenSig, os.Interrupt, syscall.SIGTERM, syscall.SIGHUP)\n'), ('internal/log4g.go', '\t\t<-listenSig\n', '\t\tfor s := range listenSig {\n\t\t\tif s == syscall.SIGTERM {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n')]
DEMO = r'''package main

import (
	"io/ioutil"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

var _ = syscall.SIGINT
var _ = time.Now

func run() int {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	if err := log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "o", "type": "size_rolling_file", "format": "f", "file": d + "/a.log", "async": "true"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
	}); err != nil {
		panic(err)
	}
	l := log4g.GetLogger("")
	for i := 0; i < 900; i++ {
		l.Info("m")
	}
	l.Info("last") // the batch of 20 is not full
	syscall.Kill(os.Getpid(), syscall.SIGINT)
	time.Sleep(300 * time.Millisecond)
	closed := make(chan bool)
	go func() { // a closed output takes nothing more
		l.Info("m")
		close(closed)
	}()
	<-closed
	log4g.GetManager().Close()
	b, _ := ioutil.ReadFile(d + "/a.log")
	if n := strings.Count(string(b), "m\n"); n != 900 {
		println(n, "messages")
		return 1
	}
	return 0
}

func main() { os.Exit(run()) }
'''
