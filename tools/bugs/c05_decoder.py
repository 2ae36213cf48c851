ID, PROP = 'c05-json-tail', 'C05'
NEEDS = 'a JSON document with something after its end'
BREAKS = 'what follows the end of a JSON document is ignored instead of the document being rejected'
EDITS = [('internal/logger_manager.go', '\t\terr = json.Unmarshal(bs, cfg)\n', '\t\terr = json.NewDecoder(bytes.NewReader(bs)).Decode(cfg)\n'), ('internal/logger_manager.go', 'import (\n', 'import (\n\t"bytes"\n')]
DEMO = r'''package main

import (
	"os"
	"path/filepath"
	"io/ioutil"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

var _ = filepath.Join
var _ = ioutil.Discard
var _ = api.All

func main() {
	m := log4g.GetManager()
	if m.LoadConfig([]byte(`{"loggers": [{"name": "root", "level": "off"}]}, {"loggers": [{"name": "root", "level": "all"}]}`), "json") == nil {
		os.Exit(1)
	}
	os.Exit(0)
}
'''
