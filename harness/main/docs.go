package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// ---------------------------------------------------------------- configuration documents (Documents.tla)

type docStep struct {
	Via   string // struct, bytes, file, path
	Ext   string
	File  string // name of the file, relative to the scratch directory
	Text  []byte
	Cfg   *api.Config
	Probe bool
}
type docScript struct {
	Steps   []docStep
	Watched []string // configured or not
	Loggers []string // obtained
	Cwd     bool
}
type docView struct {
	Err   bool
	Level int
	Outs  []string
}
type docObs struct {
	Rejected bool
	Panic    string
	Views    []docView
	Got      []string // per logger: its level, and where messages of each level went
}

func init() {
	modes["docs"] = func(script []byte) interface{} {
		var s docScript
		parse(script, &s)
		dir, err := ioutil.TempDir("", "docs")
		must(err)
		defer os.RemoveAll(dir)
		os.Stdout = redirect(dir)
		if s.Cwd {
			must(os.Chdir(dir))
		}
		rec := &recorder{made: map[string]int{}}
		registerTypes(rec)
		var loggers []api.Logger
		m := log4g.GetManager()
		var obs []docObs
		for _, st := range s.Steps {
			var o docObs
			func() {
				defer func() {
					if r := recover(); r != nil {
						o.Panic = fmt.Sprint(r)
					}
				}()
				err := loadDoc(&st, dir, s.Cwd)
				o.Rejected = err != nil
				for _, n := range s.Watched {
					var v docView
					ops, lvl, err := m.GetLoggerOutputs(n)
					v.Err, v.Level = err != nil, int(lvl)
					for _, op := range ops {
						name := "?"
						if r, ok := op.(*recOutput); ok {
							name = r.name
							if r.id != 1 {
								name += "#"
							}
						}
						v.Outs = append(v.Outs, name)
					}
					o.Views = append(o.Views, v)
				}
				for len(loggers) < len(s.Loggers) {
					loggers = append(loggers, log4g.GetLogger(s.Loggers[len(loggers)]))
				}
				for _, l := range loggers {
					got := fmt.Sprint(int(l.Level()))
					for _, f := range []func(...interface{}){l.Trace, l.Debug, l.Info, l.Warn, l.Error, l.Critical} {
						rec.Lock()
						rec.events = nil
						rec.Unlock()
						f("m")
						var names []string
						for _, e := range rec.events {
							names = append(names, e.Out)
						}
						sort.Strings(names)
						got += "|" + strings.Join(names, ",")
					}
					o.Got = append(o.Got, got)
				}
			}()
			obs = append(obs, o)
		}
		return obs
	}
}

func loadDoc(st *docStep, dir string, cwd bool) error {
	m := log4g.GetManager()
	switch st.Via {
	case "struct":
		return m.SetConfig(st.Cfg)
	case "bytes":
		err := m.LoadConfig(st.Text, st.Ext)
		for i := range st.Text { // the library is done with it
			st.Text[i] = 'x'
		}
		return err
	}
	p := filepath.Join(dir, st.File)
	switch st.Via {
	case "file":
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(ioutil.WriteFile(p, st.Text, 0644))
	case "dir":
		must(os.MkdirAll(p, 0755))
	case "none":
		must(os.RemoveAll(p))
	case "loop":
		must(os.Symlink(filepath.Base(p), p))
	case "link": // a file with another name
		must(ioutil.WriteFile(filepath.Join(dir, "zz.target"), st.Text, 0644))
		must(os.Symlink("zz.target", p))
	case "fifo":
		must(syscall.Mkfifo(p, 0600))
		go func() {
			f, err := os.OpenFile(p, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			for i := range st.Text {
				f.Write(st.Text[i : i+1])
				if i%64 == 0 {
					time.Sleep(time.Microsecond)
				}
			}
			f.Close()
		}()
	}
	if !cwd {
		st.File = p
	}
	err := m.LoadConfigFile(st.File)
	os.RemoveAll(p)
	return err
}
