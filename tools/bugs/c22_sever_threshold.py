import runpy, os
P = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "parts", "syslog_demo.py"))
ID = "c22-severity-threshold"
PROP = "C22"
NEEDS = "a syslog output whose threshold is debug and a message of level trace: the filter compares the severities the daemon distinguishes, and trace and debug share one"
BREAKS = "messages of level trace reach the system log although the output's threshold is debug"
EDITS = [("internal/output_syslog.go", """	if e.Level < o.t {
		return
	}

	m := ""
""", """	// the daemon knows fewer levels: compare what it will see
	if severityOf(e.Level) > severityOf(o.t) {
		return
	}

	m := ""
"""), ("internal/output_syslog.go", """// SetFormatter ...
func (o *syslogOutput)""", """// severityOf returns the severity for a level
func severityOf(l api.Level) syslog.Priority {
	switch {
	case l <= api.Debug:
		return syslog.LOG_DEBUG
	case l == api.Info:
		return syslog.LOG_INFO
	case l == api.Warn:
		return syslog.LOG_WARNING
	case l == api.Error:
		return syslog.LOG_ERR
	case l == api.Critical:
		return syslog.LOG_CRIT
	}
	return syslog.LOG_EMERG
}

// SetFormatter ...
func (o *syslogOutput)""")]
DEMO = P["HEAD"].replace("THR", '"debug"').replace("LOG", 'l.Trace("a"); l.Debug("b"); l.Error("c")').replace("WANT", '[]string{"<15>b", "<11>c"}')
DEMO = DEMO.replace('"<15>b", "<11>c"', '"<7>b", "<3>c"')
DEMO_SH = P["SHELL"]
