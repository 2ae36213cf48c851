package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// ---------------------------------------------------------------- recording outputs

type delivery struct {
	Out  string
	Inst int
	Name string
	Lvl  int
	Msg  string
	Text string // as rendered by the formatter of the output
	K1   string
	K2   string
}

type recorder struct {
	sync.Mutex
	made   map[string]int
	insts  []*recOutput
	events []delivery
}

type recOutput struct {
	r      *recorder
	name   string
	id     int
	f      api.Formatter
	closed int
}

func (r *recorder) newOutput(name string) *recOutput {
	r.Lock()
	defer r.Unlock()
	r.made[name]++
	o := &recOutput{r: r, name: name, id: r.made[name]}
	r.insts = append(r.insts, o)
	return o
}

func ctxStr(c context.Context, k string) string {
	if c == nil {
		return ""
	}
	return typed(c.Value(k))
}

// typed shows a value of a field with its type, as the scripts do.
func typed(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	default:
		return fmt.Sprintf("%T:%v", x, x)
	}
}

// untyped is the value that typed shows.
func untyped(s string) interface{} {
	switch s {
	case "int:1":
		return 1
	case "int64:1":
		return int64(1)
	case "float64:1":
		return float64(1)
	case "bool:true":
		return true
	case "main.word:v1":
		return word("v1")
	}
	return s
}

type word string

func (o *recOutput) Send(e *api.Event) {
	d := delivery{Out: o.name, Inst: o.id, Name: e.Name, Lvl: int(e.Level), Msg: e.Message(),
		K1: ctxStr(e.Ctx, "k1"), K2: ctxStr(e.Ctx, "k2")}
	if o.f != nil {
		d.Text = string(o.f.Format(e))
	}
	o.r.Lock()
	o.r.events = append(o.r.events, d)
	o.r.Unlock()
}
func (o *recOutput) SetFormatter(f api.Formatter) { o.f = f }
func (o *recOutput) CallerInfoFlag() int {
	if o.f != nil {
		return o.f.CallerInfoFlag()
	}
	return 0
}
func (o *recOutput) Close() {
	o.r.Lock()
	o.closed++
	o.r.Unlock()
}

// ---------------------------------------------------------------- script

type cfgOut struct {
	Name, Type, Thr, Fmt string
}
type cfgFmt struct {
	Name, Type string
}
type cfgLog struct {
	Name  []string
	Level string
	Outs  []string
}
type cfgSpec struct {
	Loggers []cfgLog
	Outputs []cfgOut
	Formats []cfgFmt
}
type treeStep struct {
	Op      string
	Name    []string
	Cfg     int
	Form    string
	Lvl     int
	Outs    []string
	Slot    int
	Fields  [][]string
	Doc     int
	WithCtx bool
	Probe   bool
	Ext     string
}
type badDoc struct {
	Form string // struct, bytes, file, nofile
	Ext  string
	Text string
	Cfg  *api.Config
}
type treeScript struct {
	Dir     string
	Configs []cfgSpec
	Cfg0    int
	Bad     []badDoc
	Steps   []treeStep
	Levels  []int // message levels to probe
	Quiet   int   // milliseconds without output that are waited for after a signal
	Crowd   int   // loggers nobody else uses, obtained before step CrowdAt
	CrowdAt int
	End     string // how the manager is closed: "", TERM, INT, both
}

type probeMsg struct {
	Msg   string
	Level int
	How   string
	Outs  []string // "out#instance"
	Bad   []string
}
type probeLog struct {
	Name    string
	Level   int
	Enabled []bool
	Named   []bool // TraceEnabled .. CriticalEnabled
	Msgs    []probeMsg
}
type treeObs struct {
	Err     string
	Panic   string
	Same    []string // identity failures
	Loggers []probeLog
	Writers []probeMsg
	Got     []string // result of resolve
	GotLvl  int
}
type treeResult struct {
	Steps  []treeObs
	Made   map[string]int
	Closed map[string][]int
	Async  map[string][]string // messages in each asynchronous file after closing
	Final  string
}

func (c *cfgSpec) toConfig(dir string) *api.Config {
	cfg := &api.Config{}
	for _, f := range c.Formats {
		cfg.Formats = append(cfg.Formats, api.CfgFormat{"name": f.Name, "type": f.Type,
			"layout": "<" + f.Name + ">|%{lvl}|%{module}|%{msg}|%{k1:T}:%{k1}|%{k2:T}:%{k2}|\n"})
	}
	for _, o := range c.Outputs {
		m := api.CfgOutput{"name": o.Name, "type": o.Type, "format": o.Fmt}
		if o.Thr != "" {
			m["threshold"] = o.Thr
		}
		if o.Type == "file" || o.Type == "async" {
			m["type"] = "size_rolling_file"
			m["size"] = "1G"
			m["file"] = filepath.Join(dir, o.Name+".log")
		}
		if o.Type == "acon" {
			m["type"] = "console"
		}
		if o.Type == "async" || o.Type == "acon" {
			m["async"] = "true"
		}
		cfg.Outputs = append(cfg.Outputs, m)
	}
	for _, l := range c.Loggers {
		cfg.Loggers = append(cfg.Loggers, api.CfgLogger{Name: strings.Join(l.Name, ""), Level: l.Level, OutputNames: l.Outs})
	}
	return cfg
}

// yamlPlain lets words and numbers be written without quotes.
var yamlPlain = false
var plainScalar = regexp.MustCompile("^[0-9][0-9A-Za-z]*$|^true$|^false$|^[a-z]{3,}_?[a-z]*$")

// toYAML writes a configuration as a YAML document, by hand so as not to depend on an encoder.
func toYAML(c *api.Config) string {
	var b strings.Builder
	q := func(s string) string {
		if yamlPlain && plainScalar.MatchString(s) {
			return s
		}
		bs, _ := json.Marshal(s)
		return string(bs)
	}
	list := func(key string, items []api.CfgOutput) {
		b.WriteString(key + ":\n")
		for _, m := range items {
			first := true
			for k, v := range m {
				if first {
					b.WriteString("  - ")
				} else {
					b.WriteString("    ")
				}
				first = false
				b.WriteString(k + ": " + q(v) + "\n")
			}
			if first {
				b.WriteString("  - {}\n")
			}
		}
	}
	var fs, os []api.CfgOutput
	for _, f := range c.Formats {
		fs = append(fs, api.CfgOutput(f))
	}
	for _, o := range c.Outputs {
		os = append(os, o)
	}
	list("formats", fs)
	list("outputs", os)
	b.WriteString("loggers:\n")
	for _, l := range c.Loggers {
		b.WriteString("  - name: " + q(l.Name) + "\n    level: " + q(l.Level) + "\n")
		if len(l.OutputNames) > 0 {
			b.WriteString("    outputs:\n")
			for _, o := range l.OutputNames {
				b.WriteString("      - " + q(o) + "\n")
			}
		}
	}
	return b.String()
}

func toJSON(c *api.Config) string {
	bs, err := json.Marshal(c)
	must(err)
	return string(bs)
}

// apply gives a configuration to the manager in one of its forms.
func applyConfig(c *api.Config, form, dir string) error {
	m := log4g.GetManager()
	switch form {
	case "", "struct":
		return m.SetConfig(c)
	case "yaml", "yml", "YAML", "YML", "Yaml":
		return m.LoadConfig([]byte(toYAML(c)), form)
	case "json", "JSON", "Json":
		return m.LoadConfig([]byte(toJSON(c)), form)
	}
	if strings.HasPrefix(form, "file.") {
		text := toYAML(c)
		if strings.ToLower(form) == "file.json" {
			text = toJSON(c)
		}
		p := filepath.Join(dir, "cfg-"+form)
		must(ioutil.WriteFile(p, []byte(text), 0644))
		defer os.Remove(p)
		return m.LoadConfigFile(p)
	}
	panic("form " + form)
}

func applyBad(b *badDoc, dir string) error {
	m := log4g.GetManager()
	switch b.Form {
	case "struct":
		return m.SetConfig(b.Cfg)
	case "bytes":
		return m.LoadConfig([]byte(b.Text), b.Ext)
	case "nofile":
		return m.LoadConfigFile(filepath.Join(dir, "does-not-exist."+b.Ext))
	case "file":
		p := filepath.Join(dir, "bad"+b.Ext)
		must(ioutil.WriteFile(p, []byte(b.Text), 0644))
		defer os.Remove(p)
		return m.LoadConfigFile(p)
	}
	panic("form")
}

// ---------------------------------------------------------------- world

type world struct {
	s       *treeScript
	rec     *recorder
	console *os.File
	files   map[string]int64 // offset read so far
	held    map[string]api.Logger
	order   []string
	user    map[string]*recOutput
	writers map[int]api.Writer
	wlevels map[int]string
	seq     int
	fmtOf   map[string]string // output -> format
	typeOf  map[string]string
	quiet   time.Duration
	acon    map[string][]string // what came from asynchronous console outputs
}

func registerTypes(rec *recorder) {
	m := log4g.GetManager()
	m.RegisterOutputCreator("rec", func(cfg api.CfgOutput) (api.Output, error) { return rec.newOutput(cfg.Name()), nil })
	m.RegisterOutputCreator("bad", func(cfg api.CfgOutput) (api.Output, error) { return nil, fmt.Errorf("cannot create") })
	m.RegisterFormatterCreator("badfmt", func(cfg api.CfgFormat) (api.Formatter, error) { return nil, fmt.Errorf("cannot create") })
}

// redirect makes the console outputs write to a file.
func redirect(dir string) *os.File {
	f, err := os.OpenFile(filepath.Join(dir, "stdout"), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0644)
	must(err)
	os.Stdout = f
	return f
}

func newText(w *world, p string) string {
	bs, err := ioutil.ReadFile(p)
	if err != nil {
		return ""
	}
	off := w.files[p]
	w.files[p] = int64(len(bs))
	if off > int64(len(bs)) {
		off = 0
	}
	return string(bs[off:])
}

// fromLines turns the lines in a file into deliveries.
func fromLines(w *world, text, file string) (ds []delivery, bad []string) {
	for _, line := range strings.SplitAfter(text, "\n") {
		if line == "" {
			continue
		}
		d := delivery{Inst: 1, Text: line}
		switch {
		case strings.HasPrefix(line, "<"):
			p := strings.Split(line, "|")
			if len(p) != 7 || p[6] != "\n" {
				bad = append(bad, "malformed record "+line)
				continue
			}
			f := p[0][1 : len(p[0])-1]
			for o, of := range w.fmtOf {
				if of == f && (file == o || file == "" && (w.typeOf[o] == "console" || w.typeOf[o] == "acon")) {
					d.Out = o
				}
			}
			if d.Out == "" {
				bad = append(bad, "record of unknown output in "+file+": "+line)
			}
			d.Lvl = shortLevel(p[1])
			d.Name, d.Msg, d.K1, d.K2 = p[2], p[3], nilStr(p[4]), nilStr(p[5])
		case strings.Contains(line, " >> "): // the built-in layout
			d.Out = "c1"
			p := strings.Split(line[:strings.Index(line, " >> ")], "|")
			rest := line[strings.Index(line, " >> ")+4:]
			d.Msg = strings.SplitN(rest, " (", 2)[0]
			if len(p) != 4 {
				bad = append(bad, "malformed record "+line)
				continue
			}
			d.Lvl = longLevel(strings.TrimSpace(p[1]))
			d.Name = p[3]
		default: // the layout of an output without a format: level [time] name: message
			d.Out = "stdout"
			p := strings.SplitN(line, " [", 2)
			if len(p) != 2 {
				bad = append(bad, "malformed record "+line)
				continue
			}
			d.Lvl = longLevel(strings.TrimSpace(p[0]))
			q := strings.SplitN(p[1], "] ", 2)
			if len(q) != 2 {
				bad = append(bad, "malformed record "+line)
				continue
			}
			i := strings.LastIndex(q[1], ": ")
			if i < 0 {
				bad = append(bad, "malformed record "+line)
				continue
			}
			d.Name, d.Msg = q[1][:i], strings.TrimSuffix(q[1][i+2:], "\n")
		}
		ds = append(ds, d)
	}
	return
}

// nilStr is the value in a record, as typed shows it.
func nilStr(s string) string {
	if strings.HasPrefix(s, "<nil>:") {
		return ""
	}
	return strings.TrimPrefix(s, "string:")
}

func shortLevel(s string) int {
	for i, n := range []string{"ALL", "TAC", "DBG", "INF", "WRN", "ERR", "CRI", "OFF"} {
		if n == s {
			return i + 1
		}
	}
	return -1 // not a named level
}

func longLevel(s string) int {
	for i, n := range []string{"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "CRITICAL", "OFF"} {
		if n == s {
			return i + 1
		}
	}
	return -1
}

func asyncLine(d delivery) string {
	return fmt.Sprintf("%s|%d|%s|%s|%s", d.Name, d.Lvl, d.Msg, d.K1, d.K2)
}

// collect takes everything delivered since the last call.
func (w *world) collect() (ds []delivery, bad []string) {
	w.rec.Lock()
	ds = append(ds, w.rec.events...)
	w.rec.events = nil
	w.rec.Unlock()
	d, b := fromLines(w, newText(w, w.console.Name()), "")
	bad = append(bad, b...)
	for _, x := range d {
		if w.typeOf[x.Out] == "acon" {
			w.acon[x.Out] = append(w.acon[x.Out], asyncLine(x)) // not at once
		} else {
			ds = append(ds, x)
		}
	}
	for o, t := range w.typeOf {
		if t == "file" {
			d, b := fromLines(w, newText(w, filepath.Join(w.s.Dir, o+".log")), o)
			ds, bad = append(ds, d...), append(bad, b...)
		}
	}
	return
}

type call struct {
	lvl int
	how string
	f   func(w api.Writer, msg string)
}

// every way to log at a level
func callsFor(lvl int) []call {
	cs := []call{{lvl, "Printf", func(w api.Writer, m string) { w.Printf(api.Level(lvl), "%s", m) }}}
	add := func(how string, f func(w api.Writer, m string)) { cs = append(cs, call{lvl, how, f}) }
	switch api.Level(lvl) {
	case api.Trace:
		add("Tracef", func(w api.Writer, m string) { w.Tracef("%s", m) })
		add("Trace", func(w api.Writer, m string) { w.Trace(m) })
	case api.Debug:
		add("Debugf", func(w api.Writer, m string) { w.Debugf("%s", m) })
		add("Debug", func(w api.Writer, m string) { w.Debug(m) })
	case api.Info:
		add("Infof", func(w api.Writer, m string) { w.Infof("%s", m) })
		add("Info", func(w api.Writer, m string) { w.Info(m) })
	case api.Warn:
		add("Warnf", func(w api.Writer, m string) { w.Warnf("%s", m) })
		add("Warn", func(w api.Writer, m string) { w.Warn(m) })
	case api.Error:
		add("Errorf", func(w api.Writer, m string) { w.Errorf("%s", m) })
		add("Error", func(w api.Writer, m string) { w.Error(m) })
	case api.Critical:
		add("Criticalf", func(w api.Writer, m string) { w.Criticalf("%s", m) })
		add("Critical", func(w api.Writer, m string) { w.Critical(m) })
	}
	return cs
}

// probe logs through a writer in every way and attributes what arrives where.
func (w *world) probe(name string, wr api.Writer, cs []call, k1, k2 string) (res []probeMsg) {
	pos := map[string]int{}
	for i, c := range cs {
		w.seq++
		msg := fmt.Sprintf("m%d.", w.seq)
		pos[msg] = i
		pm := probeMsg{Msg: msg, Level: c.lvl, How: c.how, Outs: []string{}}
		if p := guard(func() { c.f(wr, msg) }); p != "" {
			pm.Bad = append(pm.Bad, p)
		}
		res = append(res, pm)
	}
	ds, bad := w.collect()
	last := map[string]int{}
	for _, d := range ds {
		i, ok := pos[d.Msg]
		if !ok {
			bad = append(bad, fmt.Sprintf("unexpected record %+v", d))
			continue
		}
		pm := &res[i]
		pm.Outs = append(pm.Outs, fmt.Sprintf("%s#%d", d.Out, d.Inst))
		want := cs[i].lvl
		if d.Lvl == -1 && (want < 1 || want > 8) {
			d.Lvl = want // levels without a name
		}
		if d.Lvl != want {
			pm.Bad = append(pm.Bad, fmt.Sprintf("level %d in %+v", want, d))
		}
		if d.Name != name {
			pm.Bad = append(pm.Bad, fmt.Sprintf("logger name %q in %+v", name, d))
		}
		plain := d.Out == "c1" && w.fmtOf["c1"] == "" || d.Out == "stdout"
		if !plain && (d.K1 != k1 || d.K2 != k2) {
			pm.Bad = append(pm.Bad, fmt.Sprintf("fields k1=%q k2=%q in %+v", k1, k2, d))
		}
		if f := w.fmtOf[d.Out]; f != "" && !strings.HasPrefix(d.Text, "<"+f+">|") {
			pm.Bad = append(pm.Bad, fmt.Sprintf("format %q in %+v", f, d))
		}
		if l, ok := last[d.Out]; ok && l > i {
			pm.Bad = append(pm.Bad, "out of order at "+d.Out)
		}
		last[d.Out] = i
	}
	if len(bad) > 0 && len(res) > 0 {
		res[0].Bad = append(res[0].Bad, bad...)
	}
	return
}

func (w *world) get(name string) (l api.Logger, same string) {
	l = log4g.GetLogger(name)
	key := name
	if key == "" {
		key = "root"
	}
	if old, ok := w.held[key]; ok {
		if old != l {
			same = "another logger for " + name
		}
		return l, same
	}
	for n, o := range w.held {
		if o == l {
			same = "one logger for " + n + " and " + name
		}
	}
	w.held[key] = l
	w.order = append(w.order, key)
	return l, same
}

func init() { modes["tree"] = runTree }

func runTree(script []byte) interface{} {
	s := &treeScript{}
	parse(script, s)
	w := &world{s: s, rec: &recorder{made: map[string]int{}}, files: map[string]int64{}, held: map[string]api.Logger{},
		user: map[string]*recOutput{}, writers: map[int]api.Writer{}, wlevels: map[int]string{},
		fmtOf: map[string]string{}, typeOf: map[string]string{}, acon: map[string][]string{}}
	w.quiet = time.Duration(s.Quiet) * time.Millisecond
	w.console = redirect(s.Dir)
	registerTypes(w.rec)
	for _, c := range s.Configs {
		for _, o := range c.Outputs {
			w.fmtOf[o.Name], w.typeOf[o.Name] = o.Fmt, o.Type
		}
	}
	res := &treeResult{Closed: map[string][]int{}, Async: map[string][]string{}}
	if s.Cfg0 > 0 {
		must(log4g.GetManager().SetConfig(s.Configs[s.Cfg0-1].toConfig(s.Dir)))
	}
	for si := range s.Steps {
		st := &s.Steps[si]
		o := treeObs{}
		name := strings.Join(st.Name, "")
		if si == s.CrowdAt {
			for k := 0; k < s.Crowd; k++ {
				log4g.GetLogger(fmt.Sprintf([]string{"zz%d", "zz%d/a", "zz/%d.q"}[k%3], k))
			}
		}
		o.Panic = guard(func() {
			switch st.Op {
			case "get":
				_, same := w.get(name)
				if same != "" {
					o.Same = append(o.Same, same)
				}
			case "config":
				var err error
				if st.Cfg == 0 {
					panic("no built-in configuration")
				}
				err = applyConfig(s.Configs[st.Cfg-1].toConfig(s.Dir), st.Form, s.Dir)
				if err != nil {
					o.Err = err.Error()
				}
			case "refuse":
				if err := applyBad(&s.Bad[st.Doc-1], s.Dir); err != nil {
					o.Err = err.Error()
				}
			case "level":
				l, _ := w.get(name)
				l.SetLevel(api.Level(st.Lvl))
			case "outs":
				l, _ := w.get(name)
				var ops []api.Output
				for _, n := range st.Outs {
					if w.user[n] == nil {
						w.user[n] = w.rec.newOutput(n)
					}
					ops = append(ops, w.user[n])
				}
				l.SetOutputs(ops)
			case "writer":
				l, _ := w.get(name)
				if st.WithCtx {
					ctx := context.Background()
					for _, f := range st.Fields {
						ctx = context.WithValue(ctx, f[0], untyped(f[1]))
					}
					w.writers[st.Slot] = l.WithCtx(ctx)
				} else {
					var fs []api.Field
					for _, f := range st.Fields {
						fs = append(fs, api.Field{Key: f[0], Value: untyped(f[1])})
					}
					w.writers[st.Slot] = l.WithFields(fs...)
				}
				w.wlevels[st.Slot] = name
			case "close":
				if !within(20*time.Second, func() { log4g.GetManager().Close() }) {
					o.Panic = "stuck in Close\n" + stacks()
				}
			case "burst":
				l, _ := w.get(name)
				for i := 0; i < st.Lvl; i++ {
					l.Critical(fmt.Sprintf("b%d.", i))
				}
			case "identity":
				// every name asked for again, from several goroutines
				names := append([]string{}, w.order...)
				var wg sync.WaitGroup
				ls := make([]api.Logger, 4*len(names))
				for i := range ls {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						ls[i] = log4g.GetLogger(names[i%len(names)])
					}(i)
				}
				wg.Wait()
				for i := range ls {
					if ls[i] != w.held[names[i%len(names)]] {
						o.Same = append(o.Same, "another logger for "+names[i%len(names)])
					}
				}
			}
		})
		if st.Probe && o.Panic == "" {
			names := append([]string{}, w.order...)
			for _, n := range names {
				l := w.held[n]
				pl := probeLog{Name: n, Level: int(l.Level())}
				for m := 0; m <= 9; m++ {
					pl.Enabled = append(pl.Enabled, l.LevelEnabled(api.Level(m)))
				}
				pl.Named = []bool{l.TraceEnabled(), l.DebugEnabled(), l.InfoEnabled(), l.WarnEnabled(), l.ErrorEnabled(), l.CriticalEnabled()}
				var cs []call
				for _, m := range s.Levels {
					cs = append(cs, callsFor(m)...)
				}
				pl.Msgs = w.probe(n, l, cs, "", "")
				o.Loggers = append(o.Loggers, pl)
			}
			for k := 1; k <= 9; k++ {
				wr := w.writers[k]
				if wr == nil {
					continue
				}
				n := w.wlevels[k]
				if n == "" {
					n = "root"
				}
				// expected fields are compared by the caller of the harness: report what arrived
				o.Writers = append(o.Writers, w.probeFields(k, n, wr)...)
			}
		}
		res.Steps = append(res.Steps, o)
	}
	res.Final = guard(func() {
		w.end(s.End)
	})
	w.rec.Lock()
	res.Made = w.rec.made
	for _, i := range w.rec.insts {
		res.Closed[i.name] = append(res.Closed[i.name], i.closed)
	}
	w.rec.Unlock()
	_, late := w.collect()
	for o, t := range w.typeOf {
		if t == "acon" {
			res.Async[o] = append(append([]string{}, w.acon[o]...), late...)
		}
		if t == "async" {
			ds, bad := fromLines(w, newText(w, filepath.Join(s.Dir, o+".log")), o)
			l := []string{}
			for _, d := range ds {
				l = append(l, asyncLine(d))
			}
			for _, b := range bad {
				l = append(l, "bad: "+b)
			}
			res.Async[o] = l
		}
	}
	return res
}

// end closes the manager in one of the ways.
func (w *world) end(how string) {
	sig := map[string]syscall.Signal{"TERM": syscall.SIGTERM, "INT": syscall.SIGINT, "both": syscall.SIGTERM}[how]
	counts := func() (cs []int) {
		w.rec.Lock()
		defer w.rec.Unlock()
		for _, i := range w.rec.insts {
			cs = append(cs, i.closed)
		}
		return
	}
	before := counts()
	if sig != 0 {
		must(syscall.Kill(os.Getpid(), sig))
	}
	if how == "" || how == "both" {
		if !within(20*time.Second, func() {
			log4g.GetManager().Close()
			if how == "" {
				log4g.GetManager().Close()
			}
		}) {
			panic("stuck in Close\n" + stacks())
		}
		return
	}
	// by the signal only: wait for the outputs, and until nothing more is written
	for deadline := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
		open := ""
		for i, c := range counts() {
			if n := w.rec.insts[i].name; c == before[i] && w.user[n] == nil {
				open = n
			}
		}
		if open == "" {
			break
		}
		if time.Now().After(deadline) {
			panic("output " + open + " is not closed after a signal\n" + stacks())
		}
	}
	if !within(20*time.Second, func() { log4g.GetManager().GetLoggerOutputs("nobody asks for this one") }) {
		panic("stuck after a signal\n" + stacks())
	}
	size := func() (n int64) {
		for o, t := range w.typeOf {
			if t == "async" {
				if fi, err := os.Stat(filepath.Join(w.s.Dir, o+".log")); err == nil {
					n += fi.Size()
				}
			}
		}
		if fi, err := w.console.Stat(); err == nil {
			n += fi.Size()
		}
		return
	}
	quiet, last := time.Now(), size()
	for time.Since(quiet) < w.quiet {
		time.Sleep(10 * time.Millisecond)
		if n := size(); n != last {
			last, quiet = n, time.Now()
		}
	}
}

// probeFields logs through a kept writer and reports the fields with which the message arrived.
func (w *world) probeFields(slot int, name string, wr api.Writer) (res []probeMsg) {
	for _, how := range []string{"f", "p", "P"} {
		w.seq++
		msg := fmt.Sprintf("m%d.", w.seq)
		pm := probeMsg{Msg: msg, Level: slot, How: how, Outs: []string{}}
		if p := guard(func() {
			switch how {
			case "f":
				wr.Criticalf("%s", msg)
			case "p":
				wr.Critical(msg)
			default:
				wr.Printf(api.Critical, "%s", msg)
			}
		}); p != "" {
			pm.Bad = append(pm.Bad, p)
		}
		ds, bad := w.collect()
		pm.Bad = append(pm.Bad, bad...)
		for _, d := range ds {
			if d.Msg != msg || d.Name != name || d.Lvl != 7 {
				pm.Bad = append(pm.Bad, fmt.Sprintf("unexpected record %+v", d))
			}
			if d.Out == "c1" && w.fmtOf["c1"] == "" || d.Out == "stdout" {
				pm.Outs = append(pm.Outs, d.Out+"#1")
				continue
			}
			pm.Outs = append(pm.Outs, fmt.Sprintf("%s#%d|%s|%s", d.Out, d.Inst, d.K1, d.K2))
		}
		res = append(res, pm)
	}
	return
}
