package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

// What a system log daemon receives. The program is built so that it looks for the daemon at $VERIF_SYSLOG.

type sysOut struct {
	Name string
	Tag  string
	Thr  string // as given in the configuration
	Json bool   // the layout shows more than the message
}
type sysStep struct {
	Op   string
	Lvl  int
	O    int
	Want [][2]interface{}
}
type sysScript struct {
	Outs    []sysOut
	Steps   []sysStep
	Salt    int
	Threads int // afterwards goroutines log at once
	Per     int
}

type daemon struct {
	path string
	conn *net.UnixConn
	mu   sync.Mutex
	got  []string
}

func (d *daemon) start() {
	os.Remove(d.path)
	c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: d.path, Net: "unixgram"})
	must(err)
	d.conn = c
	go func() {
		buf := make([]byte, 1<<20)
		for {
			n, err := c.Read(buf)
			if err != nil {
				return
			}
			d.mu.Lock()
			d.got = append(d.got, string(buf[:n]))
			d.mu.Unlock()
		}
	}()
}

// sync waits until all that was sent has been received.
func (d *daemon) sync(n *int) bool {
	*n++
	mark := fmt.Sprint("mark", *n)
	c, err := net.Dial("unixgram", d.path)
	must(err)
	defer c.Close()
	_, err = c.Write([]byte(mark))
	must(err)
	for i := 0; i < 5000; i++ {
		d.mu.Lock()
		k := len(d.got)
		ok := k > 0 && d.got[k-1] == mark
		if ok {
			d.got = d.got[:k-1]
		}
		d.mu.Unlock()
		if ok {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// datagram is <PRI>Mmm dd hh:mm:ss TAG[PID]: TEXT
func splitDatagram(s string) (sev int, tag, text string, ok bool) {
	i := strings.IndexByte(s, '>')
	if i < 2 || s[0] != '<' || len(s) < i+18 {
		return
	}
	pri, err := strconv.Atoi(s[1:i])
	if err != nil {
		return
	}
	rest := s[i+1:]
	if _, err := time.Parse(time.Stamp, rest[:15]); err != nil || rest[15] != ' ' {
		return
	}
	rest = rest[16:]
	p := fmt.Sprintf("[%d]: ", os.Getpid())
	j := strings.Index(rest, p)
	if j < 0 {
		return
	}
	return pri & 7, rest[:j], strings.TrimSuffix(rest[j+len(p):], "\n"), true
}

func runSyslog(script []byte) interface{} {
	s := &sysScript{}
	parse(script, s)
	bad := []string{}
	complain := func(f string, a ...interface{}) {
		if len(bad) < 5 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
	}
	d := &daemon{path: os.Getenv("VERIF_SYSLOG")}
	d.start()
	cfg := &api.Config{
		Formats: []api.CfgFormat{{"name": "f0", "type": "text", "layout": "%{msg}"}, {"name": "f1", "type": "text", "layout": "%{lvl}|%{module}|%{msg}|\n"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all"}},
	}
	index := map[string]int{}
	for i, o := range s.Outs {
		c := api.CfgOutput{"name": o.Name, "type": "syslog", "prefix": o.Tag, "format": "f0"}
		if o.Thr != "" {
			c["threshold"] = o.Thr
		}
		if o.Json {
			c["format"] = "f1"
		}
		cfg.Outputs = append(cfg.Outputs, c)
		cfg.Loggers[0].OutputNames = append(cfg.Loggers[0].OutputNames, o.Name)
		index[o.Name] = i
	}
	must(log4g.GetManager().SetConfig(cfg))
	outs, _, err := log4g.GetManager().GetLoggerOutputs("root")
	if err != nil {
		complain("outputs are not created: %v", err)
		return map[string]interface{}{"Bad": bad}
	}
	r := rand.New(rand.NewSource(int64(s.Salt)))
	marks, n := 0, 0
	up := true
	log := func(w api.Writer, lvl int, msg string, k int) {
		as := []interface{}{msg[:len(msg)/2], msg[len(msg)/2:]}
		switch {
		case k%3 == 0:
			w.Printf(api.Level(lvl), "%s%s", as...)
		case k%3 == 1:
			[]func(string, ...interface{}){w.Tracef, w.Debugf, w.Infof, w.Warnf, w.Errorf, w.Criticalf}[lvl-2]("%v%v", as...)
		default:
			[]func(...interface{}){w.Trace, w.Debug, w.Info, w.Warn, w.Error, w.Critical}[lvl-2](msg)
		}
	}
	short := []string{2: "TAC", 3: "DBG", 4: "INF", 5: "WRN", 6: "ERR", 7: "CRI"}
	texts := []string{"hello", "", "100% %d %s", "two\nlines", "ends\n", "[x]: y", "<0>", strings.Repeat("long ", 3000), "é\x00\xff"}
	names := []string{"", "a", "a/b", "x.y"}
	last := ""
	for k, st := range s.Steps {
		switch st.Op {
		case "log":
			msg := texts[r.Intn(len(texts))] + fmt.Sprint(k)
			if k%7 == 3 {
				msg += "\n"
			}
			if last != "" && r.Intn(4) == 0 {
				msg = last // the same once more
			}
			last = msg
			ln := names[r.Intn(len(names))]
			var w api.Writer = log4g.GetLogger(ln)
			if k%4 == 1 {
				w = log4g.GetLogger(ln).WithFields(api.Field{Key: "k", Value: k})
			}
			if p := guard(func() { log(w, st.Lvl, msg, k) }); p != "" {
				complain("step %d: %s", k+1, p)
			}
			if up && !d.sync(&marks) {
				complain("step %d: the daemon does not receive anything", k+1)
				return map[string]interface{}{"Bad": bad}
			}
			d.mu.Lock()
			got := d.got
			d.got = nil
			d.mu.Unlock()
			var gs, ws []string
			for _, g := range got {
				sev, tag, text, ok := splitDatagram(g)
				if !ok {
					gs = append(gs, fmt.Sprintf("%q", g))
					continue
				}
				gs = append(gs, fmt.Sprintf("severity %d tag %s text %q", sev, tag, text))
			}
			for _, x := range st.Want {
				o := s.Outs[index[x[0].(string)]]
				text := msg
				if o.Json {
					lname := ln
					if lname == "" {
						lname = "root"
					}
					text = short[st.Lvl] + "|" + lname + "|" + msg + "|\n"
				}
				tag := o.Tag
				if tag == "" {
					tag = os.Args[0]
				}
				ws = append(ws, fmt.Sprintf("severity %v tag %s text %q", x[1], tag, strings.TrimSuffix(text, "\n")))
			}
			n += len(ws)
			if fmt.Sprint(gs) != fmt.Sprint(ws) {
				complain("step %d: level %d: the daemon received %v, expected %v", k+1, st.Lvl, cut(gs), cut(ws))
			}
		case "close":
			if p := guard(outs[st.O-1].Close); p != "" {
				complain("step %d: %s", k+1, p)
			}
		case "down":
			d.conn.Close()
			os.Remove(d.path)
			up = false
		case "up":
			d.start()
			up = true
		}
	}
	// goroutines: each message once for each output, in the order of its goroutine
	if s.Threads > 0 {
		if !up {
			d.start()
		}
		var wg sync.WaitGroup
		for t := 0; t < s.Threads; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				for k := 0; k < s.Per; k++ {
					log(log4g.GetLogger(names[t%4]), 7, fmt.Sprintf("<%d.%d>", t, k), k+t)
				}
			}(t)
		}
		if !within(20*time.Second, wg.Wait) || !d.sync(&marks) {
			complain("calls do not return: %s", stacks())
			return map[string]interface{}{"Bad": bad}
		}
		next := map[string]int{}
		d.mu.Lock()
		for _, g := range d.got {
			sev, tag, text, _ := splitDatagram(g)
			i, j := strings.IndexByte(text, '<'), strings.IndexByte(text, '>')
			if i < 0 || j < i || sev != 2 {
				complain("concurrently: the daemon received %q", g)
				break
			}
			f := strings.Split(text[i+1:j], ".")
			key := tag + " " + f[0]
			if f[1] != fmt.Sprint(next[key]) {
				complain("concurrently: message %s of goroutine %s, expected its message %d next", f[1], f[0], next[key])
				break
			}
			next[key]++
			n++
		}
		d.mu.Unlock()
		for i := range s.Outs {
			tag := s.Outs[i].Tag
			if tag == "" {
				tag = os.Args[0]
			}
			for t := 0; t < s.Threads; t++ {
				if k := next[tag+" "+fmt.Sprint(t)]; k != s.Per && len(bad) == 0 {
					complain("concurrently: %d of %d messages of goroutine %d", k, s.Per, t)
				}
			}
		}
	}
	return map[string]interface{}{"Bad": bad, "N": n}
}

func cut(l []string) []string {
	out := []string{}
	for _, s := range l {
		if len(s) > 200 {
			s = s[:160] + "..." + s[len(s)-30:]
		}
		out = append(out, s)
	}
	return out
}

func init() { modes["syslog"] = runSyslog }
