package main

import (
	"archive/zip"
	"bytes"
	"compress/gzip"
	"context"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

// A message is a run of one byte: message i of length n is n times the byte that stands for i.

type run struct {
	B int // byte
	N int // how often
}

func runsOf(bs []byte) []run {
	rs := []run{}
	for _, b := range bs {
		if k := len(rs); k > 0 && rs[k-1].B == int(b) {
			rs[k-1].N++
		} else {
			rs = append(rs, run{int(b), 1})
		}
	}
	return rs
}

type fsEntry struct {
	Name string // path relative to the scratch directory
	Type string // file, dir, other
	Mode int
	Size int64
	Runs []run
	Arch string // zip, gzip if it is a readable archive
	Ents []string
}

// listing describes a whole directory tree.
func listing(root string, withRuns bool) []fsEntry {
	es := []fsEntry{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if p == root || err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		e := fsEntry{Name: rel, Mode: int(fi.Mode().Perm()), Size: fi.Size(), Type: "other"}
		if fi.IsDir() {
			e.Type = "dir"
		} else if fi.Mode().IsRegular() {
			e.Type = "file"
			if withRuns {
				bs, _ := ioutil.ReadFile(p)
				e.Runs = runsOf(bs)
				if strings.HasSuffix(rel, ".zip") {
					if zr, err := zip.NewReader(bytes.NewReader(bs), int64(len(bs))); err == nil {
						e.Arch, e.Runs = "zip", []run{}
						for _, f := range zr.File {
							e.Ents = append(e.Ents, f.Name)
							rc, err := f.Open()
							if err != nil {
								e.Ents = append(e.Ents, "unreadable")
								continue
							}
							b, err := ioutil.ReadAll(rc)
							if err != nil {
								e.Ents = append(e.Ents, "unreadable "+err.Error())
							}
							e.Runs = append(e.Runs, runsOf(b)...)
						}
					}
				} else if strings.HasSuffix(rel, ".gz") {
					if gr, err := gzip.NewReader(bytes.NewReader(bs)); err == nil {
						e.Arch = "gzip"
						b, err := ioutil.ReadAll(gr)
						if err != nil {
							e.Ents = append(e.Ents, "unreadable "+err.Error())
						}
						e.Runs = runsOf(b)
					}
				}
			}
		}
		es = append(es, e)
		return nil
	})
	sort.Slice(es, func(i, j int) bool { return es[i].Name < es[j].Name })
	return es
}

type rollOp struct {
	Op    string // write, restart, tick, mkdir, put, rm, rmall, putfile
	Byte  int
	Len   int
	Path  string
	Mode  int
	Secs  float64
	Runs  []run
	Quiet bool // no listing afterwards
}

type rollHist struct {
	Dir   string // scratch directory
	Cwd   string // directory to change to, relative to Dir ("" for none)
	Cfg   api.CfgOutput
	Mask  int
	Start float64 // seconds to wait first
	Init  []rollOp
	Ops   []rollOp
}

type rollStep struct {
	Panic string
	Files []fsEntry
}

type rollRes struct {
	Err   string
	Steps []rollStep
}

// settle waits until an asynchronous output has written, where it can tell.
var settle = func() {}

func secs(s float64) time.Duration { return time.Duration(math.Round(s*1000)) * time.Millisecond }

func fsOp(dir string, o *rollOp) {
	p := filepath.Join(dir, o.Path)
	old := syscall.Umask(0)
	defer syscall.Umask(old)
	switch o.Op {
	case "mkdir":
		must(os.MkdirAll(p, 0755))
		if o.Mode != 0 {
			must(os.Chmod(p, os.FileMode(o.Mode)))
		}
	case "put":
		var b bytes.Buffer
		for _, r := range o.Runs {
			b.Write(bytes.Repeat([]byte{byte(r.B)}, r.N))
		}
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(ioutil.WriteFile(p, b.Bytes(), 0644))
		if o.Mode != 0 {
			must(os.Chmod(p, os.FileMode(o.Mode)))
		}
	case "rm":
		must(os.Remove(p))
	case "rmall":
		if !strings.HasPrefix(p, dir+"/") {
			panic("rmall " + p)
		}
		must(os.RemoveAll(p))
	default:
		panic("op " + o.Op)
	}
}

func newRolling(cfg api.CfgOutput, dir string) (api.Output, error) {
	c := api.CfgOutput{}
	for k, v := range cfg {
		c[k] = strings.Replace(v, "@", dir, 1)
	}
	o, err := internal.NewRollingOutput(c)
	if err != nil {
		return nil, err
	}
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	must(err)
	o.SetFormatter(f)
	return o, nil
}

func sendRun(o api.Output, b, n int) {
	o.Send(&api.Event{Format: string(bytes.Repeat([]byte{byte(b)}, n)), Name: "l", Level: api.Error, Time: time.Now(), Ctx: context.Background()})
}

func runRollHist(h *rollHist) (res rollRes) {
	syscall.Umask(0)
	must(os.MkdirAll(h.Dir, 0755))
	for i := range h.Init {
		fsOp(h.Dir, &h.Init[i])
	}
	if h.Cwd != "" {
		must(os.Chdir(filepath.Join(h.Dir, h.Cwd)))
		defer os.Chdir("/")
	}
	time.Sleep(secs(h.Start))
	syscall.Umask(h.Mask)
	defer syscall.Umask(022)
	o, err := newRolling(h.Cfg, h.Dir)
	if err != nil {
		return rollRes{Err: err.Error()}
	}
	for i := range h.Ops {
		op := &h.Ops[i]
		st := rollStep{}
		st.Panic = guard(func() {
			switch op.Op {
			case "write":
				sendRun(o, op.Byte, op.Len)
				if h.Cfg["async"] == "true" {
					settle()
				}
			case "restart":
				o, err = newRolling(h.Cfg, h.Dir)
				if err != nil {
					panic(err.Error())
				}
			case "tick":
				time.Sleep(secs(op.Secs))
				if h.Cfg["async"] == "true" {
					settle()
				}
			default:
				fsOp(h.Dir, op)
			}
		})
		if !op.Quiet {
			st.Files = listing(h.Dir, true)
		}
		res.Steps = append(res.Steps, st)
	}
	if h.Cfg["async"] == "true" {
		o.Close()
	}
	return
}

func init() {
	modes["roll"] = func(script []byte) interface{} {
		var hs []rollHist
		parse(script, &hs)
		res := []rollRes{}
		for i := range hs {
			res = append(res, runRollHist(&hs[i]))
			os.RemoveAll(hs[i].Dir)
		}
		return res
	}
}
