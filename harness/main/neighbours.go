package main

import (
	"archive/zip"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// Outputs that write beside each other, against what each would make of its messages alone.

type nbFile struct {
	K      int // 0 current, k backup, -k its archive
	Msgs   []int
	Period int
}
type nbStep struct {
	Op    string  // call, tick, round (every goroutine at once)
	P, N  int     // goroutine and logger
	Round [][]int // goroutine -> loggers it calls
	Want  [][]nbFile
}
type nbOut struct {
	Cfg               api.CfgOutput
	File              string // name of the current file
	Kind, Arch, Where string
	Prefix, Async     bool
	Stuck, Broken     bool
	FPerm, BPerm      int
}
type nbScript struct {
	Dir     string
	Outs    []nbOut
	Procs   [][][]int // outputs, from 1
	Formats []api.CfgFormat
	Len     int
	Steps   []nbStep
	Salt    int
}

type nbRun struct {
	s     *nbScript
	mu    sync.Mutex
	bad   []string
	texts [][]string // output -> records given to it
	ls    [][]api.Logger
	calls []int
	t0    time.Time
	files int
}

func (r *nbRun) complain(f string, a ...interface{}) {
	if len(r.bad) < 12 {
		r.bad = append(r.bad, fmt.Sprintf(f, a...))
	}
}

// call logs a message of fixed length through logger l of goroutine p.
func (r *nbRun) call(p, l int) {
	r.calls[p]++
	name := fmt.Sprintf("p%d.l%d", p, l)
	head := fmt.Sprintf("%c%06d ", 'A'+p, r.calls[p])
	msg := head + strings.Repeat(string(rune('a'+(p*7+r.calls[p])%26)), r.s.Len-len(head)-len(name)-8)
	rec := "INFO " + name + ": " + msg + "\n"
	if len(rec) != r.s.Len {
		panic(fmt.Sprint("length ", len(rec), " of ", rec))
	}
	seen := map[int]bool{}
	for _, o := range r.s.Procs[p][l] {
		if !seen[o] {
			r.texts[o-1] = append(r.texts[o-1], rec) // no output is used by two goroutines
		}
	}
	if r.calls[p]%2 == 0 {
		r.ls[p][l].Info(msg)
	} else {
		r.ls[p][l].Infof("%s%s", head, msg[len(head):])
	}
}

func (r *nbRun) name(o *nbOut, f nbFile) string {
	if f.K == 0 {
		return o.File
	}
	k := f.K
	if k < 0 {
		k = -k
	}
	label := fmt.Sprint(k)
	if o.Kind == "time" {
		label = r.t0.Add(time.Duration(f.Period) * time.Second).Format(o.Cfg["pattern"])
	}
	n := o.File + "." + label
	if o.Prefix {
		n = filepath.Join(filepath.Dir(o.File), label+"."+filepath.Base(o.File))
	}
	if f.K < 0 {
		n += map[string]string{"zip": ".zip", "gzip": ".gz"}[o.Arch]
	}
	return n
}

func unpacked(arch string, b []byte) (string, error) {
	if arch == "gzip" {
		g, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return "", err
		}
		c, err := ioutil.ReadAll(g)
		return string(c), err
	}
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return "", err
	}
	if len(z.File) != 1 {
		return "", fmt.Errorf("%d entries", len(z.File))
	}
	f, err := z.File[0].Open()
	if err != nil {
		return "", err
	}
	c, err := io.ReadAll(f)
	return string(c), err
}

func nbShort(s string, l int) string {
	var b strings.Builder
	for len(s) > 0 {
		n := l
		if n > len(s) {
			n = len(s)
		}
		t := s[:n]
		if len(t) > 24 {
			t = t[:24]
		}
		fmt.Fprintf(&b, "%q ", t)
		s = s[n:]
		if b.Len() > 300 {
			return b.String() + "..."
		}
	}
	return b.String()
}

// compare looks at everything in the directory.
func (r *nbRun) compare(when string, want [][]nbFile, async bool) {
	dir := filepath.Join(r.s.Dir, "log")
	exp := map[string]bool{}
	skip := map[string]bool{}
	for i := range r.s.Outs {
		o := &r.s.Outs[i]
		if o.Async && !async {
			skip[o.File] = true
			continue
		}
		for _, f := range want[i] {
			n := r.name(o, f)
			exp[n] = true
			var c strings.Builder
			for _, m := range f.Msgs {
				if m > len(r.texts[i]) {
					r.complain("harness: output %d has no message %d", i, m)
					return
				}
				c.WriteString(r.texts[i][m-1])
			}
			p := filepath.Join(dir, n)
			st, err := os.Lstat(p)
			if err != nil || !st.Mode().IsRegular() {
				r.complain("%s: no file %s of output %s (%v)", when, n, o.File, err)
				continue
			}
			b, err := ioutil.ReadFile(p)
			if err != nil {
				r.complain("%s: %s: %v", when, n, err)
				continue
			}
			got := string(b)
			if f.K < 0 {
				if got, err = unpacked(o.Arch, b); err != nil {
					r.complain("%s: archive %s is damaged: %v", when, n, err)
					continue
				}
			}
			r.files++
			if got != c.String() {
				r.complain("%s: %s holds %s, alone it would be %s", when, n, nbShort(got, r.s.Len), nbShort(c.String(), r.s.Len))
			}
			if perm := o.FPerm; f.K >= 0 {
				if f.K > 0 {
					perm = o.BPerm
				}
				if int(st.Mode().Perm()) != perm {
					r.complain("%s: %s has mode %o, its output says %o", when, n, st.Mode().Perm(), perm)
				}
			}
		}
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		n, _ := filepath.Rel(dir, p)
		if exp[n] || strings.HasPrefix(n, "obstacle") {
			return nil
		}
		for i := range r.s.Outs {
			o := &r.s.Outs[i]
			if o.Stuck && n == r.name(o, nbFile{K: -1}) || o.Broken && n == o.File {
				return filepath.SkipDir
			}
			if strings.HasPrefix(o.File, n+"/") {
				return nil // its directory
			}
		}
		if filepath.Base(n) == ".log4g_tmp" {
			return nil
		}
		if filepath.Base(filepath.Dir(n)) == ".log4g_tmp" {
			if len(skip) == 0 {
				r.complain("%s: %s is left", when, n)
			}
			return nil
		}
		for s := range skip {
			if strings.Contains(filepath.Base(n), filepath.Base(s)) {
				return nil
			}
		}
		r.complain("%s: %s is not a file of any output", when, n)
		return nil
	})
}

func runNeighbours(script []byte) interface{} {
	var s nbScript
	parse(script, &s)
	r := &nbRun{s: &s, texts: make([][]string, len(s.Outs)), calls: make([]int, len(s.Procs)), t0: time.Now()}
	syscall.Umask(0)
	dir := filepath.Join(s.Dir, "log")
	must(os.MkdirAll(dir, 0755))
	cfg := &api.Config{Formats: s.Formats}
	for i := range s.Outs {
		o := &s.Outs[i]
		if o.Stuck {
			must(os.MkdirAll(filepath.Join(dir, r.name(o, nbFile{K: -1}), "in the way"), 0755))
		}
		if o.Broken {
			switch (s.Salt + i) % 3 {
			case 0: // a directory has its name
				must(os.MkdirAll(filepath.Join(dir, o.File, "x"), 0755))
			case 1: // a file is where its directory should be
				must(ioutil.WriteFile(filepath.Join(dir, "obstacle"), []byte("x"), 0644))
				o.File = "obstacle/" + o.File
			case 2: // too long a name
				o.File = strings.Repeat("n", 300)
			}
		}
		o.Cfg["file"] = filepath.Join(dir, o.File)
		cfg.Outputs = append(cfg.Outputs, o.Cfg)
	}
	for p, ls := range s.Procs {
		for l, outs := range ls {
			lc := api.CfgLogger{Name: fmt.Sprintf("p%d.l%d", p, l), Level: "all"}
			for _, o := range outs {
				lc.OutputNames = append(lc.OutputNames, s.Outs[o-1].Cfg.Name())
			}
			cfg.Loggers = append(cfg.Loggers, lc)
		}
	}
	must(log4g.GetManager().SetConfig(cfg))
	for p, ls := range s.Procs {
		r.ls = append(r.ls, nil)
		for l := range ls {
			r.ls[p] = append(r.ls[p], log4g.GetLogger(fmt.Sprintf("p%d.l%d", p, l)))
		}
	}
	var last [][]nbFile
	for i, st := range s.Steps {
		when := fmt.Sprintf("step %d (%s)", i+1, st.Op)
		if p := guard(func() {
			switch st.Op {
			case "tick":
				time.Sleep(time.Second)
			case "call":
				r.call(st.P-1, st.N-1)
			case "round":
				var wg sync.WaitGroup
				start := make(chan bool)
				for p := range st.Round {
					wg.Add(1)
					go func(p int) {
						defer wg.Done()
						<-start
						if m := guard(func() {
							for _, l := range st.Round[p] {
								r.call(p, l-1)
								if (s.Salt+p+l)%3 == 0 {
									runtime.Gosched()
								}
							}
						}); m != "" {
							r.mu.Lock()
							r.complain("%s: %s", when, m)
							r.mu.Unlock()
						}
					}(p)
				}
				close(start)
				wg.Wait()
			}
		}); p != "" {
			r.complain("%s: %s", when, p)
		}
		last = st.Want
		r.compare(when, st.Want, false)
		if len(r.bad) > 0 {
			break
		}
	}
	log4g.GetManager().Close()
	if len(r.bad) == 0 {
		r.compare("at the end", last, true)
	}
	sort.Strings(r.bad)
	return map[string]interface{}{"Bad": r.bad, "Files": r.files}
}

func init() {
	modes["neighbours"] = runNeighbours
}
