ID, PROP = 'c25-plain-format', 'C25'
NEEDS = 'a format without a verb given together with arguments'
BREAKS = 'a format without a verb is shown alone, the arguments are lost'
EDITS = [('api/logger_api.go', 'import (\n\t"context"\n\t"fmt"\n', 'import (\n\t"context"\n\t"fmt"\n\t"strings"\n'),
 ('api/logger_api.go', '\tif len(e.Arguments) != 0 {\n', '\tif len(e.Arguments) != 0 && (e.Format == "" || strings.Contains(e.Format, "%")) { // nothing to put in otherwise\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g/api"
)

func main() {
	e := &api.Event{Format: "started", Arguments: []interface{}{42}}
	if got, want := e.Message(), fmt.Sprintf(e.Format, e.Arguments...); got != want {
		println(got, want)
		os.Exit(1)
	}
}
'''
