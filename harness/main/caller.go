package main

import (
	"context"
	"fmt"
	"io/ioutil"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
	deep "github.com/xtfly/log4g/zz_verif/deep/er/sites"
	dotted "github.com/xtfly/log4g/zz_verif/sites.v2"
	odd "github.com/xtfly/log4g/zz_verif/x-y_z~.v1.0"
)

// What records say about the statement that logged.

type callerOut struct {
	Name string
	Type string // file, async, console, rec
	Vars []string
}
type callerStep struct {
	Op     string
	Logger int
	K      int
	List   []string // outputs
	Want   [][]wantFrame
}
type wantFrame struct {
	Out   string
	Frame int
}
type callerScript struct {
	Dir    string
	Names  []string
	Outs   []callerOut
	Steps  []callerStep
	Salt   int
	Stress int
}

type site struct {
	frames []runtime.Frame
}

var siteMu sync.Mutex
var sites = map[string]*site{}

// here remembers the stack of its caller, whose message is m.
func here(m string) {
	pcs := make([]uintptr, 12)
	n := runtime.Callers(2, pcs)
	fs := runtime.CallersFrames(pcs[:n])
	s := &site{}
	for {
		f, more := fs.Next()
		s.frames = append(s.frames, f)
		if !more {
			break
		}
	}
	siteMu.Lock()
	sites[m] = s
	siteMu.Unlock()
}

// every logging method; each records its stack on the same line
var methods = []func(w api.Writer, m string){
	func(w api.Writer, m string) { here(m); w.Tracef("%s", m) },
	func(w api.Writer, m string) { here(m); w.Trace(m) },
	func(w api.Writer, m string) { here(m); w.Debugf("%s", m) },
	func(w api.Writer, m string) { here(m); w.Debug(m) },
	func(w api.Writer, m string) { here(m); w.Infof("%s", m) },
	func(w api.Writer, m string) { here(m); w.Info(m) },
	func(w api.Writer, m string) { here(m); w.Warnf("%s", m) },
	func(w api.Writer, m string) { here(m); w.Warn(m) },
	func(w api.Writer, m string) { here(m); w.Errorf("%s", m) },
	func(w api.Writer, m string) { here(m); w.Error(m) },
	func(w api.Writer, m string) { here(m); w.Criticalf("%s", m) },
	func(w api.Writer, m string) { here(m); w.Critical(m) },
	func(w api.Writer, m string) { here(m); w.Printf(api.Error, "%s", m) },
}

type worker struct{ w api.Writer }

func (k *worker) Work(m string) { here(m); k.w.Info(m) }
func (k worker) work(m string)  { here(m); k.w.Printf(api.Warn, "%s", m) }

type doer interface{ Work(m string) }

func inlined(w api.Writer, m string) { here(m); w.Info(m) }

//go:noinline
func plain(w api.Writer, m string) { here(m); w.Errorf("%s", m) }

// shapes of the code around a logging statement
var shapes = []func(w api.Writer, m string){
	func(w api.Writer, m string) { inlined(w, m) },
	func(w api.Writer, m string) { plain(w, m) },
	func(w api.Writer, m string) { (&worker{w}).Work(m) },
	func(w api.Writer, m string) { worker{w}.work(m) },
	func(w api.Writer, m string) { var d doer = &worker{w}; d.Work(m) },
	func(w api.Writer, m string) { f := (&worker{w}).Work; f(m) },
	func(w api.Writer, m string) { defer func() { here(m); w.Info(m) }() },
	func(w api.Writer, m string) {
		defer func() { recover(); here(m); w.Critical(m) }()
		panic("x")
	},
	func(w api.Writer, m string) {
		done := make(chan bool)
		go func() { func() { func() { func() { here(m); w.Debug(m) }() }() }(); close(done) }()
		<-done
	},
	func(w api.Writer, m string) {
		func() { here(m); w.Trace(m); return }()
	},
	func(w api.Writer, m string) { sites2(m, func() { here(m); w.Info(m) }) },
	func(w api.Writer, m string) {
		a, b := func() { here(m); w.Info(m) }, func() { here(m); w.Warn(m) }
		if m[len(m)-1]%2 == 0 {
			a()
		} else {
			b()
		}
	},
	func(w api.Writer, m string) { var once sync.Once; once.Do(func() { here(m); w.Warn(m) }) },
}

func sites2(m string, f func()) { f() }

func init() {
	for _, l := range [][]func(func(string), api.Writer, string){deep.Shapes, dotted.Shapes, odd.Shapes} {
		for _, f := range l {
			f := f
			shapes = append(shapes, func(w api.Writer, m string) { f(here, w, m) })
		}
	}
}

type callerRec struct {
	f    api.Formatter
	mu   sync.Mutex
	got  strings.Builder
	late chan *api.Event // rendered by a goroutine of the output's own
	wait sync.WaitGroup
}

func (o *callerRec) Send(e *api.Event) {
	if o.late != nil {
		o.late <- e
		return
	}
	o.render(e)
}

func (o *callerRec) render(e *api.Event) {
	bs := o.f.Format(e)
	o.mu.Lock()
	o.got.Write(bs)
	o.mu.Unlock()
}
func (o *callerRec) SetFormatter(f api.Formatter) { o.f = f }
func (o *callerRec) CallerInfoFlag() int          { return o.f.CallerInfoFlag() }
func (o *callerRec) Close() {
	if o.late != nil {
		close(o.late)
		o.wait.Wait()
	}
}

type callerRun struct {
	s    *callerScript
	outs map[string]api.Output
	recs map[string]*callerRec
	defs map[string]callerOut
	con  string
	seq  int
	ls   []api.Logger
	kept [][]api.Writer            // made earlier
	want map[string]map[string]int // output -> message -> frame (over all steps)
	step map[string]int
	how  map[string]string
	mu   sync.Mutex
}

func runCaller(script []byte) interface{} {
	s := &callerScript{}
	parse(script, s)
	r := &callerRun{s: s, outs: map[string]api.Output{}, recs: map[string]*callerRec{}, defs: map[string]callerOut{},
		want: map[string]map[string]int{}, step: map[string]int{}, how: map[string]string{}}
	r.con = filepath.Join(s.Dir, "console")
	c, err := os.Create(r.con)
	must(err)
	os.Stdout = c
	m := log4g.GetManager()
	m.RegisterOutputCreator("rec", func(cfg api.CfgOutput) (api.Output, error) {
		o := &callerRec{}
		if s.Salt%2 == 1 {
			o.late = make(chan *api.Event, 100)
			o.wait.Add(1)
			go func() {
				defer o.wait.Done()
				for e := range o.late {
					o.render(e)
				}
			}()
		}
		r.recs[cfg.Name()] = o
		return o, nil
	})
	cfg := &api.Config{}
	all := api.CfgLogger{Name: "pool", Level: "all"}
	for _, o := range s.Outs {
		r.defs[o.Name] = o
		lay := o.Name + "|%{msg}"
		for _, v := range o.Vars {
			lay += "|%{" + v + "}"
		}
		cfg.Formats = append(cfg.Formats, api.CfgFormat{"name": "f" + o.Name, "type": "text", "layout": lay + "\n"})
		d := api.CfgOutput{"name": o.Name, "type": o.Type, "format": "f" + o.Name}
		switch o.Type {
		case "file", "async":
			d["type"] = "size_rolling_file"
			d["file"] = filepath.Join(s.Dir, o.Name+".log")
			if o.Type == "async" {
				d["async"] = "true"
				d["batch_num"] = "3"
			}
		}
		cfg.Outputs = append(cfg.Outputs, d)
		all.OutputNames = append(all.OutputNames, o.Name)
	}
	cfg.Loggers = []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{}}, all}
	must(m.SetConfig(cfg))
	ops, _, err := m.GetLoggerOutputs("pool")
	must(err)
	for i, o := range ops {
		r.outs[s.Outs[i].Name] = o
	}
	for _, n := range s.Names {
		l := log4g.GetLogger(n)
		l.SetLevel(api.All)
		l.SetOutputs(nil)
		r.ls = append(r.ls, l)
		ws := []api.Writer{}
		for k := 0; k < 5; k++ {
			w, _ := r.writer(l, k)
			ws = append(ws, w)
		}
		r.kept = append(r.kept, ws)
	}
	bad := []string{}
	for i, st := range s.Steps {
		if p := guard(func() { r.do(i, &st) }); p != "" {
			bad = append(bad, fmt.Sprintf("step %d: %s", i+1, p))
		}
	}
	if s.Stress > 0 {
		r.stress()
	}
	m.Close()
	bad = append(bad, r.compare()...)
	if len(bad) > 20 {
		bad = bad[:20]
	}
	return map[string]interface{}{"Bad": bad, "Records": len(r.step)}
}

func (r *callerRun) writer(l api.Logger, k int) (api.Writer, string) {
	switch k % 5 {
	case 1:
		return l.WithFields(), "WithFields()"
	case 2:
		return l.WithFields(api.Field{Key: "k1", Value: 1}, api.Field{Key: "k2", Value: 1},
			api.Field{Key: "__caller_info", Value: "x"}, api.Field{Key: "line", Value: 7}, api.Field{Key: "", Value: nil}), "WithFields"
	case 3:
		return l.WithCtx(context.Background()), "WithCtx"
	case 4:
		return l.WithCtx(context.WithValue(context.WithValue(context.Background(), "__caller_info", 1), "longfunc", "v")), "WithCtx"
	}
	return l, "logger"
}

func (r *callerRun) expect(i, li int, m, how string, want []wantFrame) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.step[m] = i
	r.how[m] = how + " of " + r.s.Names[li]
	for _, w := range want {
		if r.want[w.Out] == nil {
			r.want[w.Out] = map[string]int{}
		}
		r.want[w.Out][m] = w.Frame
	}
}

func (r *callerRun) do(i int, st *callerStep) {
	l := api.Logger(nil)
	if st.Logger > 0 {
		l = r.ls[st.Logger-1]
	}
	switch st.Op {
	case "skip":
		l.SetCallerSkip(st.K)
	case "outs":
		ops := []api.Output{}
		for _, o := range st.List {
			ops = append(ops, r.outs[o])
		}
		l.SetOutputs(ops)
	}
	for li, l := range r.ls {
		if len(st.Want[li]) == 0 {
			continue
		}
		log := func(what string, f func(w api.Writer, m string), w api.Writer, wn string) {
			r.seq++
			m := fmt.Sprintf("m%d", r.seq)
			r.expect(i, li, m, what+" through "+wn, st.Want[li])
			f(w, m)
		}
		for k := 0; k < 10; k++ {
			w, wn := r.writer(l, k)
			if k >= 5 {
				if k == 5+(i+r.s.Salt)%5 { // from now on a newer one
					r.kept[li][k-5] = w
				}
				w, wn = r.kept[li][k-5], wn+" kept"
			}
			for j, f := range methods {
				if k == 0 || (j+k+i+r.s.Salt)%5 == 0 {
					log(fmt.Sprintf("method %d", j), f, w, wn)
				}
			}
			for j, f := range shapes {
				if (j+k+i+r.s.Salt)%11 == 0 {
					log(fmt.Sprintf("shape %d", j), f, w, wn)
				}
			}
		}
	}
}

// stress: the settings of the last step, several goroutines at once
func (r *callerRun) stress() {
	st := &r.s.Steps[len(r.s.Steps)-1]
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for n := 0; n < r.s.Stress; n++ {
				li := (n + g) % len(r.ls)
				if len(st.Want[li]) == 0 {
					continue
				}
				w, wn := r.writer(r.ls[li], n)
				m := fmt.Sprintf("g%d.%d", g, n)
				r.expect(len(r.s.Steps)-1, li, m, "concurrently through "+wn, st.Want[li])
				methods[(n*7+g)%len(methods)](w, m)
			}
		}(g)
	}
	if !within(30*time.Second, wg.Wait) {
		panic("stuck: " + stacks())
	}
}

func splitFunc(fs string) (string, string) {
	i := strings.LastIndex(fs, "/")
	j := strings.Index(fs[i+1:], ".")
	pkg, err := url.PathUnescape(fs[:i+1+j]) // the linker writes dots of the last element as %2e
	must(err)
	return pkg, fs[i+1+j+1:]
}

func callerValue(v string, f *runtime.Frame) string {
	pkg, fun := splitFunc(f.Function)
	switch v {
	case "line":
		return fmt.Sprint(f.Line)
	case "longfile":
		return f.File
	case "shortfile":
		return filepath.Base(f.File)
	case "longpkg":
		return pkg
	case "shortpkg":
		return pkg[strings.LastIndex(pkg, "/")+1:]
	case "longfunc":
		return fun
	case "shortfunc":
		fun = strings.TrimSuffix(fun, "[...]") // type arguments
		return fun[strings.LastIndex(fun, ".")+1:]
	}
	return "?"
}

func (r *callerRun) compare() (bad []string) {
	got := map[string]map[string]string{}
	for _, o := range r.s.Outs {
		text := ""
		switch o.Type {
		case "rec":
			text = r.recs[o.Name].got.String()
		case "console":
			bs, _ := ioutil.ReadFile(r.con)
			text = string(bs)
		default:
			bs, _ := ioutil.ReadFile(filepath.Join(r.s.Dir, o.Name+".log"))
			text = string(bs)
		}
		for _, line := range strings.Split(text, "\n") {
			f := strings.SplitN(line, "|", 3)
			if len(f) < 2 || f[0] != o.Name {
				continue
			}
			if got[o.Name] == nil {
				got[o.Name] = map[string]string{}
			}
			if len(f) == 2 {
				f = append(f, "")
			}
			got[o.Name][f[1]] = f[2]
		}
	}
	for name, want := range r.want {
		vars := r.defs[name].Vars
		for m, fr := range want {
			g, ok := got[name][m]
			where := fmt.Sprintf("step %d, %s, output %s (%s)", r.step[m]+1, r.how[m], name, r.defs[name].Type)
			if !ok {
				bad = append(bad, where+": no record")
				continue
			}
			if len(vars) == 0 {
				continue
			}
			s := sites[m]
			if fr < 0 || fr >= len(s.frames) {
				continue
			}
			exp := []string{}
			for _, v := range vars {
				exp = append(exp, callerValue(v, &s.frames[fr]))
			}
			if g != strings.Join(exp, "|") {
				bad = append(bad, fmt.Sprintf("%s: %s is %s, the statement %d frames up has %s", where, strings.Join(vars, "|"), g, fr, strings.Join(exp, "|")))
			}
		}
	}
	return
}

func init() { modes["caller"] = runCaller }
