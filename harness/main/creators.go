package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"gopkg.in/yaml.v2"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// Creators of outputs and formatters, and what they make.

type creatorStep struct {
	Op, What string
	N        int
	Want     []creatorWant // per logger
}
type creatorWant struct {
	Got  bool
	Outs []struct {
		Out string
		Ver int
		Fmt string
		FV  int
	}
}
type creatorScript struct {
	Dir     string
	Formats []api.CfgFormat
	Outputs []api.CfgOutput
	Confs   [][]api.CfgLogger
	Loggers []string
	Salt    int
	Steps   []creatorStep
	Stress  int
}

const (
	crBuiltIn = 9
	crFails   = 8
)

type crRun struct {
	s       *creatorScript
	mu      sync.Mutex
	bad     []string
	kept    []crKept
	got     []string // deliveries to outputs of the program
	made    map[string]int
	outs    []*crOut
	ls      map[string]api.Logger
	seq     int
	offset  map[string]int
	later   map[string]string // what an asynchronous output must have written in the end
	console string
	checked int
}

func (r *crRun) complain(f string, a ...interface{}) {
	r.mu.Lock()
	if len(r.bad) < 20 {
		r.bad = append(r.bad, fmt.Sprintf(f, a...))
	}
	r.mu.Unlock()
}

// crFmt is a formatter of the program.
type crFmt struct {
	name string
	ver  int
}

// crText is what it makes of a message: any bytes, or none.
func crText(name string, ver int, msg string) string {
	switch len(msg) % 5 {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("\x00%d|%s|%s\xff\r", ver, name, msg)
	case 2:
		return fmt.Sprintf("%d|%s|%s%s", ver, name, msg, strings.Repeat("%d%%\n", 3000))
	}
	return fmt.Sprintf("%d|%s|%s\n", ver, name, msg)
}

func (f *crFmt) Format(e *api.Event) []byte {
	t := crText(f.name, f.ver, e.Message())
	if t == "" && len(e.Name)%2 == 0 {
		return nil
	}
	return []byte(t)
}
func (f *crFmt) CallerInfoFlag() int { return f.ver % 3 }

// crOut is an output of the program.
type crOut struct {
	r      *crRun
	name   string
	ver    int
	f      api.Formatter
	closed int
}

// crKept is an event an output holds on to.
type crKept struct {
	e   *api.Event
	was string
}

func crShow(e *api.Event) string {
	return fmt.Sprintf("%s %q of %s at %s, level %d, field %v", e.Message(), e.Format, e.Name, e.Time, e.Level, e.Ctx.Value("k"))
}

func (o *crOut) Send(e *api.Event) {
	o.r.mu.Lock()
	if len(o.r.kept) < 20000 {
		o.r.kept = append(o.r.kept, crKept{e: e, was: crShow(e)})
	}
	o.r.mu.Unlock()
	o.r.mu.Lock()
	f := o.f
	o.r.mu.Unlock()
	if o.ver == crFails {
		o.r.complain("output %s, whose creator reported an error, got a message", o.name)
		return
	}
	if f == nil {
		o.r.complain("output %s got a message before its formatter", o.name)
		return
	}
	t := string(f.Format(e))
	o.r.mu.Lock()
	o.r.got = append(o.r.got, fmt.Sprintf("%s by creator %d: %q", o.name, o.ver, t))
	o.r.mu.Unlock()
}
func (o *crOut) SetFormatter(f api.Formatter) {
	o.r.mu.Lock()
	o.f = f
	o.r.mu.Unlock()
}
func (o *crOut) CallerInfoFlag() int {
	if o.f == nil {
		return 0
	}
	return o.f.CallerInfoFlag()
}
func (o *crOut) Close() {
	o.r.mu.Lock()
	o.closed++
	o.r.mu.Unlock()
}

func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// once counts what was made under a name.
func (r *crRun) once(kind, name string) {
	r.mu.Lock()
	r.made[kind+name]++
	n := r.made[kind+name]
	r.mu.Unlock()
	if n > 1 {
		r.complain("%s %s was made %d times", kind, name, n)
	}
}

func (r *crRun) outCreator(stype string, v int) api.OutputFuncCreator {
	return func(cfg api.CfgOutput) (api.Output, error) {
		var def api.CfgOutput
		for _, d := range r.s.Outputs {
			if d["name"] == cfg.Name() {
				def = d
			}
		}
		if cfg.Type() != stype || !same(cfg, def) {
			r.complain("the creator of outputs of type %s was given %q, the configuration says %q", stype, cfg, def)
		}
		o := &crOut{r: r, name: cfg.Name(), ver: v}
		if v == crFails {
			if r.seq%2 == 0 {
				return nil, errors.New("no output")
			}
			return o, errors.New("no good output")
		}
		r.once("output ", cfg.Name())
		r.mu.Lock()
		r.outs = append(r.outs, o)
		r.mu.Unlock()
		return o, nil
	}
}

func (r *crRun) fmtCreator(stype string, v int) api.FormatterFuncCreator {
	return func(cfg api.CfgFormat) (api.Formatter, error) {
		var def api.CfgFormat
		for _, d := range r.s.Formats {
			if d["name"] == cfg.Name() {
				def = d
			}
		}
		if cfg.Type() != stype || !same(cfg, def) {
			r.complain("the creator of formatters of type %s was given %q, the configuration says %q", stype, cfg, def)
		}
		f := &crFmt{cfg.Name(), v}
		if v == crFails {
			if r.seq%2 == 0 {
				return nil, errors.New("no formatter")
			}
			return f, errors.New("no good formatter")
		}
		r.once("formatter ", cfg.Name())
		return f, nil
	}
}

// set gives a configuration to the manager in one of the ways there are.
func setForm(cfg *api.Config, form int, dir string) error {
	m := log4g.GetManager()
	switch form % 5 {
	case 1:
		bs, err := json.Marshal(cfg)
		must(err)
		return m.LoadConfig(bs, "json")
	case 2:
		bs, err := yaml.Marshal(cfg)
		must(err)
		return m.LoadConfig(bs, "yaml")
	case 3:
		bs, err := json.MarshalIndent(cfg, " ", "\t")
		must(err)
		p := filepath.Join(dir, "c.json")
		must(ioutil.WriteFile(p, bs, 0600))
		return m.LoadConfigFile(p)
	case 4:
		bs, err := yaml.Marshal(cfg)
		must(err)
		p := filepath.Join(dir, "c.yml")
		must(ioutil.WriteFile(p, bs, 0600))
		return m.LoadConfigFile(p)
	}
	return m.SetConfig(cfg)
}

func copyConfig(s *creatorScript, loggers []api.CfgLogger) *api.Config {
	c := &api.Config{}
	for _, f := range s.Formats {
		g := api.CfgFormat{}
		for k, v := range f {
			g[k] = v
		}
		c.Formats = append(c.Formats, g)
	}
	for _, f := range s.Outputs {
		g := api.CfgOutput{}
		for k, v := range f {
			g[k] = v
		}
		c.Outputs = append(c.Outputs, g)
	}
	for _, l := range loggers {
		c.Loggers = append(c.Loggers, api.CfgLogger{Name: l.Name, Level: l.Level, OutputNames: append([]string{}, l.OutputNames...)})
	}
	return c
}

// logAny logs m by one of the methods.
func logAny(w api.Writer, k int, m string) {
	switch k % 7 {
	case 0:
		w.Info(m)
	case 1:
		w.Tracef("%s", m)
	case 2:
		w.Debug(m)
	case 3:
		w.Warnf("%s", m)
	case 4:
		w.Errorf("%s", m)
	case 5:
		w.Critical(m)
	case 6:
		w.Printf(api.Info, "%s", m)
	}
}

func (r *crRun) newIn(p string) string {
	bs, _ := ioutil.ReadFile(p)
	off := r.offset[p]
	r.offset[p] = len(bs)
	if off > len(bs) {
		return "(shorter)"
	}
	return string(bs[off:])
}

// probe logs through every logger and compares where the message arrives, and as what.
func (r *crRun) probe(i int, st *creatorStep) {
	for li, w := range st.Want {
		if !w.Got {
			continue
		}
		name := r.s.Loggers[li]
		r.seq++
		msg := fmt.Sprintf("m%d%s", r.seq, strings.Repeat("x", r.seq%5))
		r.got = nil
		logAny(r.ls[name], r.seq+r.s.Salt, msg)
		var want []string
		files := map[string]string{}
		for _, x := range w.Outs {
			t := crText(x.Fmt, x.FV, msg)
			if x.FV == crBuiltIn {
				t = x.Fmt + " " + msg + "\n"
			}
			if x.Ver != crBuiltIn {
				want = append(want, fmt.Sprintf("%s by creator %d: %q", x.Out, x.Ver, t))
				continue
			}
			for _, d := range r.s.Outputs {
				if d["name"] != x.Out {
					continue
				}
				p := d["file"]
				if d["type"] == "console" {
					p = r.console
				}
				if d["async"] == "true" {
					r.later[p] += t
				} else {
					files[p] += t
				}
			}
		}
		if len(w.Outs) == 0 {
			want = []string{fmt.Sprintf("root by creator 0: %q", "root "+msg)}
		}
		if fmt.Sprint(r.got) != fmt.Sprint(want) {
			r.complain("step %d: a message through %s arrives as %.300v, expected %.300v", i+1, name, r.got, want)
		}
		for _, d := range r.s.Outputs {
			p := d["file"]
			if d["type"] == "console" {
				p = r.console
			} else if p == "" {
				continue
			}
			if d["async"] == "true" {
				continue
			}
			if g := r.newIn(p); g != files[p] {
				r.complain("step %d: a message through %s adds %.300q to %s, expected %.300q", i+1, name, g, filepath.Base(p), files[p])
			}
		}
		r.checked++
	}
}

type crRootFmt struct{}

func (crRootFmt) Format(e *api.Event) []byte { return []byte("root " + e.Message()) }
func (crRootFmt) CallerInfoFlag() int        { return 0 }

func runCreators(script []byte) interface{} {
	s := &creatorScript{}
	parse(script, s)
	r := &crRun{s: s, made: map[string]int{}, ls: map[string]api.Logger{}, offset: map[string]int{}, later: map[string]string{}, console: filepath.Join(s.Dir, "console")}
	c, err := os.OpenFile(r.console, os.O_CREATE|os.O_RDWR|os.O_APPEND, 0600)
	must(err)
	os.Stdout = c
	for _, d := range s.Outputs {
		if d["file"] != "" {
			d["file"] = filepath.Join(s.Dir, d["file"])
		}
	}
	m := log4g.GetManager()
	root := log4g.GetLogger("root")
	root.SetLevel(api.All)
	root.SetOutputs([]api.Output{&crOut{r: r, name: "root", f: crRootFmt{}}})
	for i := range s.Steps {
		st := &s.Steps[i]
		p := guard(func() {
			switch st.Op {
			case "regout":
				m.RegisterOutputCreator(st.What, r.outCreator(st.What, st.N))
			case "regfmt":
				m.RegisterFormatterCreator(st.What, r.fmtCreator(st.What, st.N))
			case "config":
				if err := setForm(copyConfig(s, s.Confs[st.N-1]), s.Salt+i, s.Dir); err != nil {
					r.complain("step %d: the configuration is refused: %v", i+1, err)
				}
			case "get":
				r.ls[st.What] = log4g.GetLogger(st.What)
			case "resolve":
				ops, _, err := m.GetLoggerOutputs(st.What)
				if (err == nil) != (st.N == 1) {
					r.complain("step %d: asking for the outputs of %s gives error %v", i+1, st.What, err)
				}
				if err == nil {
					for _, o := range ops {
						if o == nil {
							r.complain("step %d: %s has an output that is nil", i+1, st.What)
						}
					}
				}
			}
			r.probe(i, st)
		})
		if p != "" {
			r.complain("step %d: %s", i+1, p)
		}
	}
	if s.Stress > 0 {
		r.stress()
	}
	if !within(20e9, m.Close) {
		r.complain("closing the manager does not return")
	}
	for _, o := range r.outs {
		if o.closed == 0 {
			r.complain("output %s was not closed with the manager", o.name)
		}
	}
	for _, d := range s.Outputs {
		if d["async"] == "true" && d["file"] != "" {
			if g := r.newIn(d["file"]); g != r.later[d["file"]] {
				r.complain("the asynchronous file %s has %.500q in the end, expected %.500q", filepath.Base(d["file"]), g, r.later[d["file"]])
			}
		}
	}
	for _, k := range r.kept {
		if g := crShow(k.e); g != k.was {
			r.complain("an event that an output held on to became %s, it was %s", g, k.was)
		}
	}
	return map[string]interface{}{"Bad": r.bad, "Checked": r.checked}
}

// stress: everybody registers, configures, obtains and logs at once; what a goroutine registered it finds used.
func (r *crRun) stress() {
	const groups = 6
	n := r.s.Stress
	m := log4g.GetManager()
	s2 := &creatorScript{}
	var ls []api.CfgLogger
	for g := 0; g < groups; g++ {
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("%d.%d", g, i)
			s2.Formats = append(s2.Formats, api.CfgFormat{"name": "sf" + id, "type": "sf" + id, "x": id})
			s2.Outputs = append(s2.Outputs, api.CfgOutput{"name": "so" + id, "type": "so" + id, "format": "sf" + id, "x": id})
			// and one of a type whose creator changes again and again
			s2.Formats = append(s2.Formats, api.CfgFormat{"name": "vf" + id, "type": fmt.Sprintf("vf%d", g)})
			s2.Outputs = append(s2.Outputs, api.CfgOutput{"name": "vo" + id, "type": fmt.Sprintf("vo%d", g), "format": "vf" + id})
			ls = append(ls, api.CfgLogger{Name: "S/" + strings.Replace(id, ".", "_", 1), Level: "all", OutputNames: []string{"so" + id}},
				api.CfgLogger{Name: "V/" + strings.Replace(id, ".", "_", 1), Level: "all", OutputNames: []string{"vo" + id}})
		}
	}
	r.s = s2
	r.made = map[string]int{}
	cfg := func() *api.Config { return copyConfig(s2, ls) }
	must(m.SetConfig(cfg()))
	r.got = nil
	var wg, side sync.WaitGroup
	stop := make(chan struct{})
	for k := 0; k < 3; k++ {
		side.Add(1)
		go func(k int) {
			defer side.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				switch k {
				case 0:
					must(m.SetConfig(cfg()))
				case 1:
					log4g.GetLogger(fmt.Sprintf("other/%d", i%50)).Info("other")
				case 2:
					m.GetLoggerOutputs(ls[i%len(ls)].Name)
					m.RegisterOutputCreator("unused", r.outCreator("unused", 1))
					m.RegisterFormatterCreator("unused", r.fmtCreator("unused", 1))
				}
			}
		}(k)
	}
	want := map[string]bool{}
	for g := 0; g < groups; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < n; i++ {
				id := fmt.Sprintf("%d.%d", g, i)
				m.RegisterFormatterCreator("sf"+id, r.fmtCreator("sf"+id, i+100))
				m.RegisterOutputCreator("so"+id, r.outCreator("so"+id, i+100))
				msg := "abc" // rendered in full
				log4g.GetLogger("S/" + strings.Replace(id, ".", "_", 1)).Info(msg)
				r.mu.Lock()
				want[fmt.Sprintf("so%s by creator %d: %q", id, i+100, crText("sf"+id, i+100, msg))] = true
				r.mu.Unlock()
			}
		}(g)
	}
	wg.Wait()
	close(stop)
	side.Wait()
	// creators replaced while others log and obtain loggers; nobody else makes these outputs meanwhile
	for g := 0; g < groups; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < n; i++ {
				id := fmt.Sprintf("%d.%d", g, i)
				m.RegisterFormatterCreator(fmt.Sprintf("vf%d", g), r.fmtCreator(fmt.Sprintf("vf%d", g), i+1000))
				m.RegisterOutputCreator(fmt.Sprintf("vo%d", g), r.outCreator(fmt.Sprintf("vo%d", g), i+1000))
				log4g.GetLogger("V/" + strings.Replace(id, ".", "_", 1)).Warn("abc")
				r.mu.Lock()
				want[fmt.Sprintf("vo%s by creator %d: %q", id, i+1000, crText("vf"+id, i+1000, "abc"))] = true
				r.mu.Unlock()
			}
		}(g)
	}
	wg.Wait()
	r.mu.Lock()
	got := map[string]int{}
	for _, g := range r.got {
		if !strings.HasPrefix(g, "root ") {
			got[g]++
		}
	}
	r.mu.Unlock()
	for w := range want {
		if got[w] != 1 {
			r.complain("while others register and configure: %s happened %d times", w, got[w])
		}
		delete(got, w)
	}
	for g, k := range got {
		r.complain("while others register and configure: %s happened %d times, expected never", g, k)
	}
	r.checked += len(want)
}

func init() { modes["creators"] = runCreators }
