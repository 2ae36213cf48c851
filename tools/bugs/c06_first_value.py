ID, PROP = "c06-first-value", "C06"
NEEDS = "a writer given two values for one key"
BREAKS = "the first value given for a key is kept instead of the last"
EDITS = [("internal/logger.go", "\tfor i := range fields {\n\t\tf := &fields[i]\n", "\tfor i := len(fields) - 1; i >= 0; i-- {\n\t\tf := &fields[i]\n")]
DEMO = '''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

type rec struct{ got []interface{} }

func (r *rec) Send(e *api.Event)            { r.got = append(r.got, e.Ctx.Value("k")) }
func (r *rec) SetFormatter(f api.Formatter) {}
func (r *rec) CallerInfoFlag() int          { return 0 }
func (r *rec) Close()                       {}

func main() {
	r := &rec{}
	l := log4g.GetLogger("x")
	l.SetOutputs([]api.Output{r})
	l.WithFields(api.Field{Key: "k", Value: 1}, api.Field{Key: "j", Value: 5}, api.Field{Key: "k", Value: 2}).Error("m")
	if len(r.got) != 1 || r.got[0] != 2 {
		fmt.Println("got", r.got)
		os.Exit(1)
	}
}
'''
