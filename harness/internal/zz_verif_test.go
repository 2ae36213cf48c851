package internal

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"testing"
)

func init() { runtime.LockOSThread() }

type zzOp struct {
	Op   string // write, restart, take
	Byte int
	Len  int
}
type zzHist struct {
	Dir     string
	File    string
	Arch    string // path of the archive
	Kind    string // zip, gzip
	Prefix  bool
	Rolls   int
	Ops     []zzOp
	Cwd     bool
	Archive []byte // what is at Arch at the start
	Backs   [][2]interface{}
}
type zzEnt struct {
	Name string
	Runs [][2]int
}
type zzStep struct {
	Panic string
	Cur   [][2]int
	Backs []zzEnt
	Has   bool
	Ents  []zzEnt
	Extra []string
}

func zzMust(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(9)
	}
}

func zzRuns(bs []byte) [][2]int {
	rs := [][2]int{}
	for _, b := range bs {
		if k := len(rs); k > 0 && rs[k-1][0] == int(b) {
			rs[k-1][1]++
		} else {
			rs = append(rs, [2]int{int(b), 1})
		}
	}
	return rs
}

// what the standard library reads in an archive
func zzEntries(p, kind string) (es []zzEnt, err error) {
	bs, err := ioutil.ReadFile(p)
	if err != nil {
		return nil, err
	}
	if kind == "zip" {
		zr, err := zip.NewReader(bytes.NewReader(bs), int64(len(bs)))
		if err != nil {
			return nil, err
		}
		for _, f := range zr.File {
			rc, err := f.Open()
			if err != nil {
				return nil, err
			}
			b, err := ioutil.ReadAll(rc)
			if err != nil {
				return nil, err
			}
			es = append(es, zzEnt{f.Name, zzRuns(b)})
		}
		return es, nil
	}
	gr, err := gzip.NewReader(bytes.NewReader(bs))
	if err != nil {
		return nil, err
	}
	all, err := ioutil.ReadAll(gr)
	if err != nil {
		return nil, err
	}
	tr := tar.NewReader(bytes.NewReader(all))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return es, nil
		}
		if err != nil {
			if len(es) == 0 {
				return []zzEnt{{filepath.Base(p), zzRuns(all)}}, nil
			}
			return nil, err
		}
		b, err := ioutil.ReadAll(tr)
		if err != nil {
			return nil, err
		}
		es = append(es, zzEnt{h.Name, zzRuns(b)})
	}
}

func (h *zzHist) open() io.Writer {
	f, a := filepath.Join(h.Dir, h.File), filepath.Join(h.Dir, h.Arch)
	if h.Cwd {
		f, a = h.File, h.Arch
	}
	rw := newRollingFileWriter(f, a)
	rw.archiveType = rollingArchiveZip
	if h.Kind == "gzip" {
		rw.archiveType = rollingArchiveGzip
	}
	rw.maxRolls = h.Rolls
	rw.nameMode = rollingNameModePostfix
	if h.Prefix {
		rw.nameMode = rollingNameModePrefix
	}
	rw.archiveExploded = false
	rws := &rollingFileWriterSize{rw, 1}
	rws.self = rws
	return rws
}

func (h *zzHist) look() (s zzStep) {
	dir := filepath.Join(h.Dir, path.Dir(h.File))
	base := path.Base(h.File)
	num := map[int]zzEnt{}
	max := 0
	filepath.Walk(h.Dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		n := filepath.Base(p)
		bs, _ := ioutil.ReadFile(p)
		if p == filepath.Join(h.Dir, h.Arch) {
			s.Has = true
			s.Ents, err = zzEntries(p, h.Kind)
			if err != nil {
				s.Extra = append(s.Extra, "the archive is not readable: "+err.Error())
			}
			return nil
		}
		t := strings.TrimPrefix(n, base+".")
		if h.Prefix {
			t = strings.TrimSuffix(n, "."+base)
		}
		k, cerr := strconv.Atoi(t)
		switch {
		case filepath.Dir(p) == dir && n == base:
			s.Cur = zzRuns(bs)
		case filepath.Dir(p) == dir && cerr == nil && n != t:
			num[k] = zzEnt{n, zzRuns(bs)}
			if k > max {
				max = k
			}
		default:
			s.Extra = append(s.Extra, "unexpected file "+p)
		}
		return nil
	})
	for k := 0; k <= max; k++ {
		if e, ok := num[k]; ok {
			s.Backs = append(s.Backs, e)
		}
	}
	return
}

func (h *zzHist) prepare() {
	zzMust(os.MkdirAll(filepath.Join(h.Dir, path.Dir(h.File)), 0755))
	if h.Archive != nil {
		a := filepath.Join(h.Dir, h.Arch)
		zzMust(os.MkdirAll(filepath.Dir(a), 0755))
		zzMust(ioutil.WriteFile(a, h.Archive, 0644))
	}
	for _, b := range h.Backs {
		zzMust(ioutil.WriteFile(filepath.Join(h.Dir, path.Dir(h.File), b[0].(string)), []byte(b[1].(string)), 0600))
	}
	if h.Cwd {
		zzMust(os.Chdir(h.Dir))
	}
}

func (h *zzHist) do(w io.Writer, op zzOp) io.Writer {
	switch op.Op {
	case "write":
		w.Write(bytes.Repeat([]byte{byte(op.Byte)}, op.Len))
	case "restart":
		return h.open()
	case "take":
		zzMust(os.Remove(filepath.Join(h.Dir, h.Arch)))
	}
	return w
}

func TestZZVerif(t *testing.T) {
	fd, _ := strconv.Atoi(os.Getenv("VERIF_FD"))
	out := os.NewFile(uintptr(fd), "result")
	in, err := ioutil.ReadAll(os.Stdin)
	zzMust(err)
	if os.Getenv("VERIF_MODE") == "raw" { // one run, each finished write acknowledged with a byte
		runtime.LockOSThread()
		h := &zzHist{}
		zzMust(json.Unmarshal(in, h))
		if h.Cwd {
			zzMust(os.Chdir(h.Dir))
		}
		ack := func(c byte) { syscall.Write(fd, []byte{c}) }
		ack('S')
		w := h.open()
		for _, op := range h.Ops {
			w = h.do(w, op)
			if op.Op == "write" {
				ack('W')
			}
		}
		ack('E')
		os.Exit(0)
	}
	var hs []*zzHist
	zzMust(json.Unmarshal(in, &hs))
	res := [][]zzStep{}
	for _, h := range hs {
		h.prepare()
		w := h.open()
		steps := []zzStep{}
		for _, op := range h.Ops {
			s := func() (p string) {
				defer func() {
					if r := recover(); r != nil {
						p = fmt.Sprint("panic: ", r)
					}
				}()
				w = h.do(w, op)
				return
			}()
			st := h.look()
			st.Panic = s
			steps = append(steps, st)
		}
		res = append(res, steps)
		if h.Cwd {
			os.Chdir("/")
		}
		os.RemoveAll(h.Dir)
	}
	bs, err := json.Marshal(res)
	zzMust(err)
	out.Write(bs)
	out.Close()
	os.Exit(0)
}
