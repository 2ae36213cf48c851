package main

import (
	stdtar "archive/tar"
	stdzip "archive/zip"
	"bytes"
	stdgzip "compress/gzip"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/xtfly/log4g/internal/archive"
	"github.com/xtfly/log4g/internal/archive/gzip"
	"github.com/xtfly/log4g/internal/archive/tar"
	"github.com/xtfly/log4g/internal/archive/zip"
)

// Copying of archives, in memory.

type arcEnt struct {
	Name string
	Data []byte
}
type arcCase struct {
	Kind   string
	Ents   [][2]int // names and contents as numbers
	Copies []struct {
		Kind string `json:"kind"`
		OK   bool   `json:"ok"`
	}
	Salt int
}
type arcScript struct {
	Cases  []arcCase
	Faults int // how many of the cases are run again with failing readers and writers
}

var arcNames = []string{"a", "b.log", "dir/x", strings.Repeat("n", 120), strings.Repeat("p/", 130) + "q", "é日本", "with space", "../up", "/abs", "a.log.1", "back\\slash", "x=y\nz", "-", ".", "UPPER", strings.Repeat("日", 40), "file.zip", "C:\\x", "t\tb", "0"}

func arcContents() [][]byte {
	r := rand.New(rand.NewSource(5))
	random := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
	var z, tb, gz bytes.Buffer
	writeArchive("zip", 0, []arcEnt{{"in", []byte("inner")}}, &z)
	writeArchive("tar", 0, []arcEnt{{"in", []byte("inner")}}, &tb)
	writeArchive("gzip", 0, []arcEnt{{"in", []byte("inner")}}, &gz)
	return [][]byte{{}, []byte("text\n"), []byte("This is another log, longer.\n"), random(511), random(512), random(513), bytes.Repeat([]byte("z"), 100000), random(70000), {0}, []byte("\x00\xff\r\n\x1a"),
		z.Bytes(), tb.Bytes(), gz.Bytes(), make([]byte, 2048), bytes.Repeat([]byte("line\n"), 10000), random(33000)}
}

// writeArchive writes with the standard library, in one of several styles.
func writeArchive(kind string, style int, ents []arcEnt, w io.Writer) {
	switch kind {
	case "zip":
		zw := stdzip.NewWriter(w)
		for i, e := range ents {
			h := &stdzip.FileHeader{Name: e.Name, Method: uint16((style + i) % 2 * 8)}
			if style%3 == 1 {
				h.Modified = time.Unix(1e9, 0)
				h.Comment = "c"
				h.SetMode(0600)
			}
			if style%5 == 2 {
				h.Extra = []byte{0xff, 0xfe, 2, 0, 1, 2}
			}
			fw, err := zw.CreateHeader(h)
			must(err)
			fw.Write(e.Data)
		}
		if style%4 == 3 {
			zw.SetComment("an archive")
		}
		must(zw.Close())
	case "tar":
		tw := stdtar.NewWriter(w)
		for _, e := range ents {
			h := &stdtar.Header{Name: e.Name, Size: int64(len(e.Data)), Mode: 0600, Typeflag: stdtar.TypeReg}
			switch style % 3 {
			case 1:
				h.Format = stdtar.FormatPAX
				h.ModTime = time.Unix(1e9, 5e8)
				h.PAXRecords = map[string]string{"X.y": "z"}
			case 2:
				h.Format = stdtar.FormatGNU
				h.Uname = "user"
			}
			must(tw.WriteHeader(h))
			tw.Write(e.Data)
		}
		must(tw.Close())
	case "gzip":
		gw := stdgzip.NewWriter(w)
		if style%3 == 1 {
			gw.Name = "inner name"
			gw.Comment = "c"
		}
		d := ents[0].Data
		if style%4 == 2 && len(d) > 1 { // two members
			gw.Write(d[:len(d)/2])
			must(gw.Close())
			gw = stdgzip.NewWriter(w)
			d = d[len(d)/2:]
		}
		gw.Write(d)
		must(gw.Close())
	}
}

// readArchive reads with the standard library.
func readArchive(kind, name string, bs []byte) (es []arcEnt, err error) {
	switch kind {
	case "zip":
		zr, err := stdzip.NewReader(bytes.NewReader(bs), int64(len(bs)))
		if err != nil {
			return nil, err
		}
		for _, f := range zr.File {
			rc, err := f.Open()
			if err != nil {
				return nil, err
			}
			b, err := ioutil.ReadAll(rc)
			if err != nil {
				return nil, err
			}
			es = append(es, arcEnt{f.Name, b})
		}
	case "tar":
		tr := stdtar.NewReader(bytes.NewReader(bs))
		for {
			h, err := tr.Next()
			if err == io.EOF {
				break
			}
			if err != nil {
				return nil, err
			}
			b, err := ioutil.ReadAll(tr)
			if err != nil {
				return nil, err
			}
			es = append(es, arcEnt{h.Name, b})
		}
	case "gzip":
		gr, err := stdgzip.NewReader(bytes.NewReader(bs))
		if err != nil {
			return nil, err
		}
		b, err := ioutil.ReadAll(gr)
		if err != nil {
			return nil, err
		}
		es = append(es, arcEnt{name, b})
	}
	return es, nil
}

// readThrough reads with the reader under test; entries of which mask has a bit are passed over or read in part.
func readThrough(r archive.ReadCloser, mask int) (es []arcEnt, err error) {
	for i := 0; ; i++ {
		n, err := r.NextFile()
		if err == io.EOF {
			return es, nil
		}
		if err != nil {
			return nil, err
		}
		var b []byte
		if mask>>uint(i)&1 == 1 {
			buf := make([]byte, 3)
			io.ReadFull(r, buf[:i%4])
		} else if b, err = ioutil.ReadAll(r); err != nil {
			return nil, err
		}
		es = append(es, arcEnt{n, b})
	}
}

type failing struct {
	bs    []byte
	left  int // operations until it fails, -1 for never
	hit   bool
	write bytes.Buffer
	pos   int
	step  int
}

var errInjected = errors.New("injected")

func (f *failing) down() bool {
	if f.left == 0 {
		f.hit = true
		return true
	}
	if f.left > 0 {
		f.left--
	}
	return false
}
func (f *failing) ReadAt(p []byte, off int64) (int, error) {
	if f.down() {
		return 0, errInjected
	}
	return bytes.NewReader(f.bs).ReadAt(p, off)
}
func (f *failing) Read(p []byte) (int, error) {
	if f.pos >= len(f.bs) {
		return 0, io.EOF
	}
	if f.down() {
		return 0, errInjected
	}
	if f.step > 0 && len(p) > f.step {
		p = p[:f.step]
	}
	n := copy(p, f.bs[f.pos:])
	f.pos += n
	return n, nil
}
func (f *failing) Write(p []byte) (int, error) {
	if f.down() {
		return 0, errInjected
	}
	return f.write.Write(p)
}

func arcReader(kind, name string, f *failing) (archive.ReadCloser, error) {
	switch kind {
	case "zip":
		r, err := zip.NewReader(f, int64(len(f.bs)))
		if err != nil {
			return nil, err
		}
		return archive.NopCloser(r), nil
	case "tar":
		return archive.NopCloser(tar.NewReader(f)), nil
	}
	return gzip.NewReader(f, name)
}

// zip's and tar's own types are wanted by Copy
func arcSource(kind, name string, f *failing) (archive.Reader, error) {
	switch kind {
	case "zip":
		return zip.NewReader(f, int64(len(f.bs)))
	case "tar":
		return tar.NewReader(f), nil
	}
	return gzip.NewReader(f, name)
}

func arcWriter(kind string, w io.Writer) archive.WriteCloser {
	switch kind {
	case "zip":
		return zip.NewWriter(w)
	case "tar":
		return tar.NewWriter(w)
	}
	return gzip.NewWriter(w)
}

// copyArchive copies bs; how is the way the reader is given.
func copyArchive(bs []byte, skind, dkind, name string, how, failRead, failWrite int) (out []byte, hitR, hitW bool, err error) {
	src := &failing{bs: bs, left: failRead, step: []int{0, 1000, 7, 0}[how%4]}
	if len(bs) > 5000 && src.step == 7 {
		src.step = 700
	}
	dst := &failing{left: failWrite}
	err = func() error {
		var r archive.Reader
		var err error
		if how%2 == 0 {
			r, err = arcSource(skind, name, src)
		} else {
			r, err = arcReader(skind, name, src)
		}
		if err != nil {
			return err
		}
		w := arcWriter(dkind, dst)
		if err := archive.Copy(w, r); err != nil {
			w.Close()
			return err
		}
		return w.Close()
	}()
	return dst.write.Bytes(), src.hit, dst.hit, err
}

func sameEnts(a, b []arcEnt, mask int) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d entries, expected %d", len(a), len(b))
	}
	for i := range a {
		if a[i].Name != b[i].Name {
			return fmt.Sprintf("entry %d is named %.100q, expected %.100q", i+1, a[i].Name, b[i].Name)
		}
		if mask>>uint(i)&1 == 0 && !bytes.Equal(a[i].Data, b[i].Data) {
			k := 0
			for k < len(a[i].Data) && k < len(b[i].Data) && a[i].Data[k] == b[i].Data[k] {
				k++
			}
			return fmt.Sprintf("entry %d has %d bytes, expected %d; they differ from byte %d on", i+1, len(a[i].Data), len(b[i].Data), k)
		}
	}
	return ""
}

func runArchive(script []byte) interface{} {
	s := &arcScript{}
	parse(script, s)
	contents := arcContents()
	bad := []map[string]interface{}{}
	copies, faults := 0, 0
	complain := func(c *arcCase, f string, a ...interface{}) {
		if len(bad) < 5 {
			bad = append(bad, map[string]interface{}{"Case": c, "What": fmt.Sprintf(f, a...)})
		}
	}
	for ci := range s.Cases {
		c := &s.Cases[ci]
		if len(bad) >= 5 {
			break
		}
		r := rand.New(rand.NewSource(int64(c.Salt)))
		ns, cs := r.Perm(len(arcNames)), r.Perm(len(contents))
		var ents []arcEnt
		for _, e := range c.Ents {
			ents = append(ents, arcEnt{arcNames[ns[e[0]]], contents[cs[e[1]]]})
		}
		name := "n"
		if len(ents) > 0 {
			name = ents[0].Name
		}
		var b bytes.Buffer
		how := r.Intn(1000)
		if p := guard(func() {
			if how%3 == 0 { // made by the writer under test
				w := arcWriter(c.Kind, &b)
				for _, e := range ents {
					must(w.NextFile(e.Name, memInfo{e.Name, int64(len(e.Data))}))
					for d := e.Data; len(d) > 0; {
						k := 1 + r.Intn(len(d))
						n, err := w.Write(d[:k])
						must(err)
						d = d[n:]
					}
				}
				must(w.Close())
			} else {
				writeArchive(c.Kind, how, ents, &b)
			}
		}); p != "" {
			complain(c, "writing the first archive: %s", p)
			continue
		}
		kind, bs := c.Kind, b.Bytes()
		check := func(where string) bool {
			got, err := readArchive(kind, name, bs)
			if err != nil {
				complain(c, "%s: the archive is not readable: %v", where, err)
				return false
			}
			if d := sameEnts(got, ents, 0); d != "" {
				complain(c, "%s: %s", where, d)
				return false
			}
			mask := r.Intn(8)
			rd, err := arcReader(kind, name, &failing{bs: bs, left: -1, step: 1 + r.Intn(5000)})
			if err == nil {
				got, err = readThrough(rd, mask)
			}
			if err != nil {
				complain(c, "%s: reading it entry by entry: %v", where, err)
				return false
			}
			if d := sameEnts(got, ents, mask); d != "" {
				complain(c, "%s: read entry by entry (passing over %b): %s", where, mask, d)
				return false
			}
			return true
		}
		if !check("the first archive") {
			continue
		}
		for i, cp := range c.Copies {
			where := fmt.Sprintf("copy %d (%s to %s)", i+1, kind, cp.Kind)
			var out []byte
			var err error
			if p := guard(func() { out, _, _, err = copyArchive(bs, kind, cp.Kind, name, r.Intn(4), -1, -1) }); p != "" {
				complain(c, "%s: %s", where, p)
				break
			}
			copies++
			if (err == nil) != cp.OK {
				complain(c, "%s: error is %v, expected one: %v", where, err, !cp.OK)
				break
			}
			if err != nil {
				continue
			}
			if ci < s.Faults { // the same with each read or write failing
				for _, wr := range []bool{false, true} {
					for k, n := 0, 0; n < 40; n++ {
						fr, fw := k, -1
						if wr {
							fr, fw = -1, k
						}
						var o []byte
						var hr, hw bool
						var ferr error
						if p := guard(func() { o, hr, hw, ferr = copyArchive(bs, kind, cp.Kind, name, n%4, fr, fw) }); p != "" {
							complain(c, "%s, read or write %d fails: %s", where, k, p)
							break
						}
						if !hr && !hw {
							break
						}
						faults++
						if ferr == nil {
							got, err := readArchive(cp.Kind, name, o)
							d := ""
							if err == nil {
								d = sameEnts(got, ents, 0)
							}
							if err != nil || d != "" {
								complain(c, "%s: %s %d fails, no error is reported and the copy is wrong: %v %s", where, map[bool]string{true: "write", false: "read"}[wr], k, err, d)
							}
						}
						k += 1 + n/15*n
					}
				}
				// no room for the buffer
				if old, ok := os.LookupEnv("TMPDIR"); ok && ci%5 == 0 {
					os.Setenv("TMPDIR", "/nonexistent")
					o, _, _, ferr := copyArchive(bs, kind, cp.Kind, name, 0, -1, -1)
					os.Setenv("TMPDIR", old)
					if ferr == nil {
						if got, err := readArchive(cp.Kind, name, o); err != nil || sameEnts(got, ents, 0) != "" {
							complain(c, "%s without a directory for temporary files: no error is reported and the copy is wrong", where)
						}
					}
				}
			}
			kind, bs = cp.Kind, out
			if !check(where) {
				break
			}
		}
	}
	left := 0
	if es, err := ioutil.ReadDir(os.TempDir()); err == nil {
		left = len(es)
	}
	return map[string]interface{}{"Bad": bad, "Copies": copies, "Faults": faults, "Left": left}
}

type memInfo struct {
	name string
	size int64
}

func (m memInfo) Name() string       { return m.name }
func (m memInfo) Size() int64        { return m.size }
func (m memInfo) Mode() os.FileMode  { return 0644 }
func (m memInfo) ModTime() time.Time { return time.Unix(1e9, 0) }
func (m memInfo) IsDir() bool        { return false }
func (m memInfo) Sys() interface{}   { return nil }

func init() { modes["archive"] = runArchive }
