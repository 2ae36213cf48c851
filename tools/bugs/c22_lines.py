import runpy, os
P = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "parts", "syslog_demo.py"))
ID = "c22-line-per-datagram"
PROP = "C22"
NEEDS = "a message of level error or above with a line break inside: each line is sent for itself"
BREAKS = "one message becomes several entries of the system log"
EDITS = [("internal/output_syslog.go", """		o.w.Err(m)
	case api.Critical:
		o.w.Crit(m)
""", """		for _, l := range strings.Split(strings.TrimSuffix(m, "\\n"), "\\n") {
			o.w.Err(l)
		}
	case api.Critical:
		for _, l := range strings.Split(strings.TrimSuffix(m, "\\n"), "\\n") {
			o.w.Crit(l)
		}
"""), ("internal/output_syslog.go", """	"log/syslog"
""", """	"log/syslog"
	"strings"
""")]
DEMO = P["HEAD"].replace("THR", '"info"').replace("LOG", 'l.Info("a\\nb"); l.Error("a\\nb")').replace("WANT", '[]string{"<6>a\\nb", "<3>a\\nb"}')
DEMO_SH = P["SHELL"]
