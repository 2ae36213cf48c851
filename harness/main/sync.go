package main

import (
	"archive/zip"
	"bytes"
	"compress/gzip"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// Goroutines that log to one synchronous output at the same time.

type syncCfg struct {
	Kind    string // console, pipe, memory, size, time
	Dir     string
	Threads int
	Per     int
	Limit   int
	Archive string
	Prefix  bool
	Procs   int
	Big     int // length of the largest records
	Seed    int64
	Look    bool
	Fine    bool // periods of ten microseconds
}

type syncRes struct {
	Events [][2]int // 1 call, 2 return
	Files  [][]int
	Thread []int
	Size   []int
	Bad    string
}

type syncEv struct {
	at int64
	e  [2]int
}

func syncRecord(id, n int) string {
	return fmt.Sprintf("<%d:%d:%s>\n", id, n, strings.Repeat(string(padding(id)), n))
}

// split takes a text apart into records.
func splitRecords(text string) (ids []int, bad string) {
	ids = []int{}
	for len(text) > 0 {
		k := strings.IndexByte(text, '\n')
		line := text
		if k >= 0 {
			line = text[:k+1]
		}
		f := strings.SplitN(strings.TrimSuffix(strings.TrimPrefix(line, "<"), ">\n"), ":", 3)
		id, err := strconv.Atoi(f[0])
		if err != nil || len(f) != 3 || line != syncRecord(id, len(f[2])) || fmt.Sprint(len(f[2])) != f[1] {
			if len(line) > 150 {
				line = line[:100] + "..." + line[len(line)-40:]
			}
			return ids, fmt.Sprintf("broken record %q after %v", line, ids)
		}
		ids = append(ids, id)
		text = text[len(line):]
	}
	return
}

// logFiles are the contents of the files of a log, oldest first.
func logFiles(dir string, c *syncCfg) (texts []string, err error) {
	es, err := ioutil.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	type file struct {
		key  string
		text string
	}
	var fs []file
	cur := ""
	for _, e := range es {
		if e.IsDir() || e.Name() == "stdout" {
			continue
		}
		bs, err := ioutil.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		n := e.Name()
		switch filepath.Ext(n) {
		case ".zip":
			r, err := zip.NewReader(bytes.NewReader(bs), int64(len(bs)))
			if err != nil || len(r.File) != 1 {
				return nil, fmt.Errorf("archive %s: %v", n, err)
			}
			f, err := r.File[0].Open()
			if err != nil {
				return nil, err
			}
			if bs, err = ioutil.ReadAll(f); err != nil {
				return nil, err
			}
			n = strings.TrimSuffix(n, ".zip")
		case ".gz":
			r, err := gzip.NewReader(bytes.NewReader(bs))
			if err != nil {
				return nil, err
			}
			if bs, err = ioutil.ReadAll(r); err != nil {
				return nil, err
			}
			n = strings.TrimSuffix(n, ".gz")
		}
		if n == "log" {
			cur = string(bs)
			continue
		}
		t := strings.TrimPrefix(strings.TrimSuffix(n, ".log"), "log.")
		if c.Kind == "size" {
			if k, err := strconv.Atoi(t); err == nil {
				t = fmt.Sprintf("%09d", k)
			}
		}
		fs = append(fs, file{t, string(bs)})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].key < fs[j].key })
	for i, f := range fs {
		if i > 0 && fs[i-1].key == f.key { // archive and backup of the same file
			if fs[i-1].text != f.text {
				return nil, fmt.Errorf("two files for %s differ", f.key)
			}
			continue
		}
		texts = append(texts, f.text)
	}
	return append(texts, cur), nil
}

var syncN int

func runSync(c *syncCfg) (res syncRes) {
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	must(os.MkdirAll(c.Dir, 0755))
	defer os.RemoveAll(c.Dir)
	syncN++
	name := fmt.Sprint("o", syncN)
	oc := api.CfgOutput{"name": name, "format": "f"}
	var rd *os.File
	piped := make(chan string, 1)
	switch c.Kind {
	case "console":
		oc["type"] = "console"
		defer redirect(c.Dir).Close()
	case "pipe":
		oc["type"] = "console"
		r, w, err := os.Pipe()
		must(err)
		os.Stdout, rd = w, r
		go func() { bs, _ := ioutil.ReadAll(r); piped <- string(bs) }()
	case "memory":
		oc["type"] = "memory"
	case "size":
		oc["type"], oc["size"] = "size_rolling_file", fmt.Sprint(c.Limit)
	case "time":
		oc["type"], oc["pattern"] = "time_rolling_file", "20060102150405.000"
	}
	if c.Fine {
		oc["pattern"] += "00"
	}
	if c.Kind == "size" || c.Kind == "time" {
		oc["file"], oc["backups"] = filepath.Join(c.Dir, "log"), "20"
		if c.Archive != "" {
			oc["archive"], oc["backups"] = c.Archive, "2"
		}
		if c.Prefix {
			oc["name_mode"] = "prefix"
		}
	}
	must(log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
		Outputs: []api.CfgOutput{oc},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{name}}},
	}))
	outs, _, err := log4g.GetManager().GetLoggerOutputs("root")
	must(err)
	content := func() ([]string, error) {
		switch c.Kind {
		case "console":
			bs, err := ioutil.ReadFile(os.Stdout.Name())
			return []string{string(bs)}, err
		case "pipe":
			rdText := <-piped
			return []string{rdText}, nil
		case "memory":
			return []string{outs[0].(fmt.Stringer).String()}, nil
		}
		return logFiles(c.Dir, c)
	}
	var clock int64
	evs := make([][]syncEv, c.Threads)
	var wg sync.WaitGroup
	var mu sync.Mutex
	complain := func(s string) {
		mu.Lock()
		if res.Bad == "" {
			res.Bad = s
		}
		mu.Unlock()
	}
	rnd := rand.New(rand.NewSource(c.Seed))
	start := make(chan bool)
	pauses := rnd.Intn(3)
	var lens []int
	for t := 0; t < c.Threads; t++ {
		for k := 0; k < c.Per; k++ {
			res.Thread = append(res.Thread, t+1)
			n := rnd.Intn(60)
			switch rnd.Intn(8) {
			case 0:
				n = rnd.Intn(c.Big)
			case 1:
				n = 0
			}
			lens = append(lens, n)
			res.Size = append(res.Size, len(syncRecord(len(res.Size)+1, n)))
		}
	}
	for t := 0; t < c.Threads; t++ {
		t := t
		l := log4g.GetLogger([]string{"", "a", "a/b", "c.d"}[t%4])
		r := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < c.Per; k++ {
				id := t*c.Per + k + 1
				n := lens[id-1]
				pad := strings.Repeat(string(padding(id)), n)
				switch pauses {
				case 1:
					for j := r.Intn(4); j > 0; j-- {
						runtime.Gosched()
					}
				case 2:
					time.Sleep(time.Duration(r.Intn(40)) * time.Microsecond)
				}
				var w api.Writer = l
				if id%5 == 0 {
					w = l.WithFields(api.Field{Key: "k", Value: id})
				}
				at := atomic.AddInt64(&clock, 1)
				if p := guard(func() {
					switch id % 3 {
					case 0:
						w.Info("<" + fmt.Sprint(id, ":", n, ":") + pad + ">")
					case 1:
						w.Errorf("<%d:%d:%s>", id, n, pad)
					default:
						w.Printf(api.Warn, "<%d:%v:%v>", id, n, pad)
					}
				}); p != "" {
					complain(p)
					return
				}
				rt := atomic.AddInt64(&clock, 1)
				evs[t] = append(evs[t], syncEv{at, [2]int{1, id}}, syncEv{rt, [2]int{2, id}})
				if c.Look && c.Kind != "pipe" && r.Intn(4) == 0 {
					want := syncRecord(id, n)
					found := false
					for try := 0; try < 60 && !found; try++ {
						if try > 20 {
							time.Sleep(time.Millisecond)
						}
						ts, err := content()
						for _, x := range ts {
							found = found || err == nil && strings.Contains(x, want)
						}
					}
					if !found {
						complain(fmt.Sprintf("the call of message %d has returned, its record is not there", id))
						return
					}
				}
			}
		}()
	}
	close(start)
	if !within(30*time.Second, wg.Wait) {
		res.Bad = "calls do not return:\n" + stacks()
		return
	}
	if rd != nil {
		os.Stdout.Close()
	}
	texts, err := content()
	if err != nil {
		complain(err.Error())
	}
	if rd != nil {
		rd.Close()
	}
	var all []syncEv
	for _, l := range evs {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
	for _, e := range all {
		res.Events = append(res.Events, e.e)
	}
	for _, x := range texts {
		ids, bad := splitRecords(x)
		if bad != "" {
			complain(bad)
		}
		res.Files = append(res.Files, ids)
	}
	return
}

func init() {
	modes["sync"] = func(script []byte) interface{} {
		var cs []syncCfg
		parse(script, &cs)
		res := []syncRes{}
		for i := range cs {
			res = append(res, runSync(&cs[i]))
		}
		return res
	}
}
