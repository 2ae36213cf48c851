ID = 'c06-shared-ctx'
PROP = 'C06'
NEEDS = 'two writers with fields of the same keys and equal printed values, one of which changes or differs in type'
BREAKS = 'writers of one logger whose fields print alike as Go text share a context keyed by the first values only: the last field of a longer list is left out'
EDITS = [('internal/logger.go', '\tctx := context.Background()\n\tfor i := range fields {\n\t\tf := &fields[i]\n\t\tctx = context.WithValue(ctx, f.Key, f.Value)\n\t}\n\tw := &defWriter{logger: l, ctx: ctx}\n\treturn w\n', '\tctx := context.Background()\n\tfor i := range fields {\n\t\tf := &fields[i]\n\t\t// writers are often made with the same first fields: share that part\n\t\tk := ctxKey{ctx, f.Key, fmt.Sprint(f.Value)}\n\t\tif c, ok := sharedCtx.Load(k); ok && i == 0 {\n\t\t\tctx = c.(context.Context)\n\t\t\tcontinue\n\t\t}\n\t\tctx = context.WithValue(ctx, f.Key, f.Value)\n\t\tif i == 0 {\n\t\t\tsharedCtx.Store(k, ctx)\n\t\t}\n\t}\n\treturn &defWriter{logger: l, ctx: ctx}\n'), ('internal/logger.go', '// defLogger is default logger implements', 'var sharedCtx sync.Map\n\ntype ctxKey struct {\n\tparent context.Context\n\tkey    string\n\tvalue  string\n}\n\n// defLogger is default logger implements'), ('internal/logger.go', '\t"context"\n\t"log"\n', '\t"context"\n\t"fmt"\n\t"log"\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type sink struct {
	mu sync.Mutex
	l  []string
	f  api.Formatter
}

func (s *sink) Send(e *api.Event) {
	s.mu.Lock()
	s.l = append(s.l, string(s.f.Format(e)))
	s.mu.Unlock()
}
func (s *sink) SetFormatter(f api.Formatter) { s.f = f }
func (s *sink) CallerInfoFlag() int          { return 0 }
func (s *sink) Close()                       {}

type plain struct{}

func (plain) Format(e *api.Event) []byte { return []byte(fmt.Sprintf("%T", e.Ctx.Value("k"))) }
func (plain) CallerInfoFlag() int        { return 0 }

func main() {
	must(nil)
	s := &sink{f: plain{}}
	l := log4g.GetLogger("a")
	l.SetLevel(api.All)
	l.SetOutputs([]api.Output{s})
	l.WithFields(api.Field{Key: "k", Value: 1}).Info("x")
	l.WithFields(api.Field{Key: "k", Value: "1"}).Info("x")
	if s.l[0] != "int" || s.l[1] != "string" {
		bad(s.l)
	}
}
'''
