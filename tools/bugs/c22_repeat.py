import runpy, os
P = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "parts", "syslog_demo.py"))
ID = "c22-repeat-suppressed"
PROP = "C22"
NEEDS = "the same message logged twice in a row at different levels (or the same): the output remembers the last text it sent and skips a repetition"
BREAKS = "of equal consecutive messages only the first reaches the system log"
EDITS = [("internal/output_syslog.go", """	switch e.Level {
	case api.Trace, api.Debug:
""", """	// daemons collapse repeated messages anyway
	if m == o.last {
		return
	}
	o.last = m

	switch e.Level {
	case api.Trace, api.Debug:
"""), ("internal/output_syslog.go", """	w *syslog.Writer
	f api.Formatter
	t api.Level //threshold
}""", """	w    *syslog.Writer
	f    api.Formatter
	t    api.Level //threshold
	last string
}""")]
DEMO = P["HEAD"].replace("THR", '"info"').replace("LOG", 'l.Info("a"); l.Error("a"); l.Error("b")').replace("WANT", '[]string{"<6>a", "<3>a", "<3>b"}')
DEMO_SH = P["SHELL"]
