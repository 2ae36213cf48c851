package main

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// What the options of an output do: each probe is an output of one configuration and what is seen of it.

type optProbe struct {
	Kind  string // size, rolls, perm, level, queue, batch
	Cfg   api.CfgOutput
	File  string // where it logs, relative to the directory
	Pre   int64  // length of the file found at start, -1 for none
	N     int    // records to log
	Limit int    // records that are expected to be taken
}
type optScript struct {
	Dir    string
	Form   string
	Plain  bool
	Probes []optProbe
}
type optObs struct {
	Skip  string
	Files []map[string]int64
	Modes []map[string]int
	Text  string
	N     int
	Panic string
}

func sizesIn(dir string) map[string]int64 {
	m := map[string]int64{}
	es, _ := ioutil.ReadDir(dir)
	for _, e := range es {
		if e.Mode().IsRegular() {
			m[e.Name()] = e.Size()
		}
	}
	return m
}

func modesUnder(dir string) map[string]int {
	m := map[string]int{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && p != dir {
			r, _ := filepath.Rel(dir, p)
			m[r] = int(fi.Mode().Perm())
		}
		return nil
	})
	return m
}

func runOptions(script []byte, wait func()) interface{} {
	s := &optScript{}
	parse(script, s)
	syscall.Umask(0)
	yamlPlain = s.Plain
	obs := make([]optObs, len(s.Probes))
	pr, pw, err := os.Pipe() // what consoles write to: nobody reads
	must(err)
	defer pr.Close() // not before: it has to stay open
	os.Stdout = pw
	cfg := &api.Config{Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}"}}, Loggers: []api.CfgLogger{{Name: "root", Level: "all"}}}
	key := func(i int) string { return "p" + strings.Repeat("0", 4-len(itoa(i))) + itoa(i) }
	for i := range s.Probes {
		p := &s.Probes[i]
		d := filepath.Join(s.Dir, key(i))
		must(os.MkdirAll(d, 0755))
		c := api.CfgOutput{"name": key(i), "format": "f"}
		for k, v := range p.Cfg {
			c[k] = v
		}
		if p.File != "" {
			c["file"] = filepath.Join(d, p.File)
		}
		if p.Pre >= 0 {
			f, err := os.Create(filepath.Join(d, p.File))
			must(err)
			if err := f.Truncate(p.Pre); err != nil {
				obs[i].Skip = err.Error()
			}
			f.Close()
		}
		if p.Kind == "queue" && p.File != "" {
			must(syscall.Mkfifo(filepath.Join(d, p.File), 0600))
		}
		cfg.Outputs = append(cfg.Outputs, c)
		cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: key(i), Level: "all", OutputNames: []string{key(i)}})
	}
	if err := applyConfig(cfg, s.Form, s.Dir); err != nil {
		return map[string]interface{}{"Err": err.Error()}
	}
	var wg sync.WaitGroup
	for i := range s.Probes {
		p, o, d, l := &s.Probes[i], &obs[i], filepath.Join(s.Dir, key(i)), log4g.GetLogger(key(i))
		if o.Skip != "" {
			continue
		}
		probe := func() {
			switch p.Kind {
			case "size":
				for k := 0; k < p.N; k++ {
					l.Error("x")
					o.Files = append(o.Files, sizesIn(d))
				}
			case "rolls":
				for k := 0; k < p.N; k++ {
					l.Error(strings.Repeat("x", k+1))
				}
				o.Files = append(o.Files, sizesIn(d))
			case "perm":
				l.Error("x")
				l.Error("y")
				o.Modes = append(o.Modes, modesUnder(d))
			case "level":
				l.Trace("t")
				l.Debug("d")
				l.Info("i")
				l.Warn("w")
				l.Error("e")
				l.Critical("c")
				outs, _, err := log4g.GetManager().GetLoggerOutputs(key(i))
				must(err)
				outs[0].Close()
				bs, _ := ioutil.ReadFile(filepath.Join(d, p.File))
				o.Text = string(bs)
			case "batch":
				for k := 0; k < p.N; k++ {
					l.Error("x")
					wait()
					n := int64(0)
					for _, z := range sizesIn(d) {
						n += z
					}
					if len(o.Files) == 0 || o.Files[len(o.Files)-1]["size"] != n {
						o.Files = append(o.Files, map[string]int64{"after": int64(k + 1), "size": n})
					}
				}
			case "queue":
				var n int64
				go func() {
					l.Error(strings.Repeat("-", 70000))
					for atomic.AddInt64(&n, 1) < int64(p.Limit)+3 {
						l.Error("x")
					}
				}()
				for k := 0; k < 2000 && atomic.LoadInt64(&n) < int64(p.Limit); k++ {
					time.Sleep(10 * time.Millisecond)
				}
				time.Sleep(300 * time.Millisecond)
				o.N = int(atomic.LoadInt64(&n))
			}
		}
		if p.Kind == "queue" {
			wg.Add(1)
			go func() {
				defer wg.Done()
				o.Panic = guard(probe)
			}()
		} else {
			o.Panic = guard(probe)
		}
	}
	wg.Wait()
	return obs
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}

func init() {
	modes["options"] = func(script []byte) interface{} { return runOptions(script, nil) }
}
