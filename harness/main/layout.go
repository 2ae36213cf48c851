package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

// Layouts read and events rendered.

type layPiece struct {
	Kind string
	Name string
	Has  bool
	Str  string
}
type layCase struct {
	L string
	R bool
	P []layPiece
}
type layEvent struct {
	Format string
	Args   []interface{} // strings, numbers, nil
	Msg    string
	Name   string
	Lvl    int
	Sec    int64
	Nsec   int64
	Zone   int // minutes
	Fields [][2]interface{}
}
type layScript struct {
	Cases  []layCase
	Events []layEvent
	Levels map[string][2]string
	Per    int // events per layout
	Conc   int // rounds with several goroutines
}

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

func (e *layEvent) make() *api.Event {
	ctx := context.Background()
	for _, f := range e.Fields {
		v := f[1]
		if s, ok := v.(string); ok && strings.HasPrefix(s, "stringer:") {
			v = stringer{s[9:]}
		}
		ctx = context.WithValue(ctx, f[0], v)
	}
	z := time.UTC
	if e.Zone != 0 {
		z = time.FixedZone("", e.Zone*60)
	}
	return &api.Event{Format: e.Format, Arguments: e.Args, Name: e.Name, Level: api.Level(e.Lvl), Time: time.Unix(e.Sec, e.Nsec).In(z), Ctx: ctx}
}

// want is what the specification makes of the event.
func (s *layScript) want(c *layCase, le *layEvent, e *api.Event) string {
	var b strings.Builder
	for _, p := range c.P {
		if p.Kind == "text" {
			b.WriteString(p.Str)
			continue
		}
		var v interface{}
		lv := s.Levels[fmt.Sprint(le.Lvl)]
		switch p.Name {
		case "pid":
			v = os.Getpid()
		case "program":
			v = filepath.Base(os.Args[0])
		case "module":
			v = le.Name
		case "msg":
			v = le.Msg
		case "level":
			v = lv[0]
		case "lvl":
			v = lv[1]
		case "time":
			lay := "2006-01-02T15:04:05.000Z07:00"
			if p.Has {
				lay = p.Str
			}
			b.WriteString(e.Time.Format(lay))
			continue
		default:
			v = e.Ctx.Value(p.Name)
		}
		if p.Has {
			fmt.Fprintf(&b, "%"+p.Str, v)
		} else {
			fmt.Fprintf(&b, "%v", v)
		}
	}
	return b.String()
}

func runLayout(script []byte) interface{} {
	s := &layScript{}
	parse(script, s)
	bad := []string{}
	n := 0
	var mu sync.Mutex
	complain := func(f string, a ...interface{}) {
		mu.Lock()
		if len(bad) < 20 {
			bad = append(bad, fmt.Sprintf(f, a...))
		}
		mu.Unlock()
	}
	for ci := range s.Cases {
		c := &s.Cases[ci]
		var f api.Formatter
		var err error
		if p := guard(func() { f, err = internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": c.L}) }); p != "" {
			complain("layout %q: %s", c.L, p)
			continue
		}
		if (err != nil) != c.R {
			complain("layout %q: error %v, has a verb: %v", c.L, err, !c.R)
			continue
		}
		if c.R {
			n++
			continue
		}
		for k := 0; k < s.Per; k++ {
			le := &s.Events[(ci+k*7)%len(s.Events)]
			if k > 0 && k%3 == 0 { // the one before once more
				le = &s.Events[(ci+(k-1)*7)%len(s.Events)]
			}
			e := le.make()
			want := s.want(c, le, e)
			var got string
			if p := guard(func() { got = string(f.Format(e)) }); p != "" {
				complain("layout %q: %s", c.L, p)
				break
			}
			n++
			if got != want {
				complain("layout %q: event %+v is rendered as %q, expected %q", c.L, *le, got, want)
				break
			}
		}
		if s.Conc > 0 {
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for k := 0; k < s.Conc; k++ {
						le := &s.Events[(ci+g*3+k)%len(s.Events)]
						e := le.make()
						want := s.want(c, le, e)
						var got string
						if p := guard(func() { got = string(f.Format(e)) }); p != "" {
							complain("layout %q: %s", c.L, p)
							return
						}
						if got != want {
							complain("layout %q: event %+v is rendered as %q while others are rendered, expected %q", c.L, *le, got, want)
							return
						}
					}
				}(g)
			}
			wg.Wait()
			n += 4 * s.Conc
		}
	}
	return map[string]interface{}{"Bad": bad, "N": n}
}

func init() { modes["layout"] = runLayout }
