From 0221f69dfb1859447030b86e79b8b63643c2f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 01/25] fix: report unreadable configuration instead of
 installing an empty one

LoadConfig dropped the decoding error (and the unknown extension error) and
installed whatever had been decoded; LoadConfigFile panicked on a file name
without extension.
---
 internal/logger_manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index ac1dfa4..b09cfa0 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -107,8 +107,7 @@ func (m *defManager) LoadConfigFile(file string) error {
 	if err != nil {
 		return err
 	}
-	ext := path.Ext(file)
-	return m.LoadConfig(bs, ext[1:])
+	return m.LoadConfig(bs, strings.TrimPrefix(path.Ext(file), "."))
 }
 
 func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
@@ -121,6 +120,9 @@ func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
 	} else if ext == "json" {
 		err = json.Unmarshal(bs, cfg)
 	}
+	if err != nil {
+		return err
+	}
 
 	return m.setConfig(cfg)
 }
-- 
2.43.0


From a8659645d3cf4c8e11abdc63b2b49e10c8b74108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 02/25] fix: reject a configuration that names a logger twice

The set of logger names seen so far was never filled.
---
 internal/logger_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index b09cfa0..38cfacf 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -179,6 +179,7 @@ func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 				return
 			}
 		}
+		loggers[l.Name] = l
 	}
 
 	return
-- 
2.43.0


From 0fb3d689300ef1a0f832e1f40a9345aa1bf6e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 03/25] fix: parse the number of a size with suffix K, M or G

The suffix was left on the number, so every such size was taken as the
default.
---
 internal/output_rolling.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 2616a44..bc486e1 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -74,19 +74,19 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 
 func getMaxSize(str string) int64 {
 	if strings.HasSuffix(str, "K") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "K"))
 		if size <= 0 {
 			size = 10 * 1024
 		}
 		return int64(size * 1024)
 	} else if strings.HasSuffix(str, "M") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "M"))
 		if size <= 0 {
 			size = 10
 		}
 		return int64(size * 1024 * 1024)
 	} else if strings.HasSuffix(str, "G") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "G"))
 		if size <= 0 {
 			size = 1
 		}
-- 
2.43.0


From 93cbd3aee16d5aed1480eed1c3bdc3c68b80bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 04/25] fix: keep the fields of a message that goes to
 inherited outputs

The parent's own writer, with an empty context, was used, so the fields given
by WithFields or WithCtx were lost.
---
 internal/logger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/logger.go b/internal/logger.go
index bea1c2a..39a0d6c 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -169,7 +169,8 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 
 	if len(l.logger.outputs) == 0 {
 		if l.logger.parent != nil {
-			l.logger.parent.write(name, skip+1, lvl, fmt, args...)
+			pw := &defWriter{logger: l.logger.parent, ctx: l.ctx}
+			pw.write(name, skip+1, lvl, fmt, args...)
 			return
 		}
 		log.Println("Warnning: not find outputs and parent for logger " + name)
-- 
2.43.0


From 4cee73a2710a7ebd8c0578bb18eb4e468d7aee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 05/25] fix: let the level of the called logger alone decide

A logger with its own level and inherited outputs was also filtered by the
levels of its ancestors, so DebugEnabled() could be true for a message that
was then dropped.
---
 internal/logger.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 39a0d6c..9504321 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -159,14 +159,13 @@ func (l *defWriter) Critical(msg ...interface{}) {
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
-	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
-}
-
-func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
 	if !l.logger.LevelEnabled(lvl) {
 		return
 	}
+	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
+}
 
+func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
 	if len(l.logger.outputs) == 0 {
 		if l.logger.parent != nil {
 			pw := &defWriter{logger: l.logger.parent, ctx: l.ctx}
-- 
2.43.0


From deaa114715ff93d40805837977c2704665a92a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:52 +0000
Subject: [PATCH 06/25] fix: configure ancestors that are created for a
 descendant

Only the logger asked for was given its configuration. An ancestor created on
the way stayed unconfigured, also when it was asked for later, so what a
logger inherited depended on the order in which loggers were obtained.
---
 internal/logger_factory.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 0568d7f..2009498 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -31,12 +31,6 @@ func (f *factory) GetLogger(name string) api.Logger {
 	l, ok := f.loggers[name]
 	if !ok {
 		l = f.createLogger(name, f.getParent(name))
-		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			l.SetLevel(lvl)
-			l.SetOutputs(ops)
-		}
 	}
 
 	return l
@@ -64,6 +58,12 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 		l = newLogger(name)
 		l.parent = parent
 		f.loggers[name] = l
+		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
+			//log.Println("WARN: ", err)
+		} else {
+			l.SetLevel(lvl)
+			l.SetOutputs(ops)
+		}
 	}
 	return l
 }
-- 
2.43.0


From 2a45936dfdaa792ee3f77a6f8671cc20b7434d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 07/25] fix: make Close wait for a writing goroutine that has
 not started yet

The goroutine registered itself with the wait group, so a Close before its
first run returned at once and the queued messages were written later or
never.
---
 internal/output_base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 787a12b..daba512 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -113,6 +113,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
+	o.wait.Add(1)
 	go o.loop()
 	return o
 }
@@ -153,7 +154,6 @@ func (o *asyncOutput) flush() {
 }
 
 func (o *asyncOutput) loop() {
-	o.wait.Add(1)
 	defer o.wait.Done()
 
 	tick := time.NewTicker(5 * time.Second)
-- 
2.43.0


From a29c9f2beceaa7ec51e4dba49cbb7dd94cc7b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 08/25] fix: allow Close of an asynchronous output while others
 send or close

A Send that had passed the closed check could panic on the closed queue, or
queue its event after the writing goroutine had ended; two concurrent Close
calls could close the queue twice or wait for ever.
---
 internal/output_base.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index daba512..2923009 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -126,9 +126,12 @@ type asyncOutput struct {
 	buf      bytes.Buffer
 	wait     sync.WaitGroup
 	closed   int32
+	sendLock sync.RWMutex // the queue is closed only while nobody is sending
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
+	o.sendLock.RLock()
+	defer o.sendLock.RUnlock()
 	if atomic.LoadInt32(&o.closed) == flagClosed {
 		return
 	}
@@ -136,14 +139,15 @@ func (o *asyncOutput) Send(e *api.Event) {
 }
 
 func (o *asyncOutput) Close() {
+	o.sendLock.Lock()
 	// support duplicate call Close method
-	if atomic.LoadInt32(&o.closed) == flagClosed {
-		return
+	if atomic.LoadInt32(&o.closed) != flagClosed {
+		atomic.StoreInt32(&o.closed, flagClosed)
+		// the loop takes what is queued, then a nil event
+		close(o.evtChan)
 	}
-	o.evtChan <- nil
+	o.sendLock.Unlock()
 	o.wait.Wait()
-	atomic.StoreInt32(&o.closed, flagClosed)
-	close(o.evtChan)
 }
 
 func (o *asyncOutput) flush() {
-- 
2.43.0


From cfd2391ea40b89ecea681eacd4706661400de613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 09/25] fix: keep logging to a rolling file when a roll fails

After a failed roll every later write tried to close the already closed file
and failed, so all messages were lost even when the obstacle had gone.
---
 internal/output_rollingwriter.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a6e8284..b50b8e4 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -455,11 +455,13 @@ func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 
 func (rw *rollingFileWriter) roll() error {
 	// First, close current file.
-	err := rw.currentFile.Close()
-	if err != nil {
-		return err
+	if rw.currentFile != nil {
+		err := rw.currentFile.Close()
+		rw.currentFile = nil
+		if err != nil {
+			return err
+		}
 	}
-	rw.currentFile = nil
 
 	// Current history of all previous log files.
 	// For file roller it may be like this:
@@ -514,8 +516,9 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	defer rw.rollLock.Unlock()
 
 	if rw.self.needsToRoll() {
+		// A failed roll is retried at the next write: go on with the file there is.
 		if err := rw.roll(); err != nil {
-			return 0, err
+			reportInternalError(err)
 		}
 	}
 
-- 
2.43.0


From 2ba6c72228f345479a405ac2a24da015b5dcb58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 10/25] fix: apply the size limit to the first write after a
 restart

The size of an existing file was read only after the decision to roll, so the
first message of each run went to a file of any size.
---
 internal/output_rollingwriter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index b50b8e4..8969888 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -515,6 +515,14 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	rw.rollLock.Lock()
 	defer rw.rollLock.Unlock()
 
+	// The size of the file is known only once it is open.
+	if rw.currentFile == nil {
+		err := rw.createFileAndFolderIfNeeded(true)
+		if err != nil {
+			return 0, err
+		}
+	}
+
 	if rw.self.needsToRoll() {
 		// A failed roll is retried at the next write: go on with the file there is.
 		if err := rw.roll(); err != nil {
-- 
2.43.0


From 140ad76fdd20153061ade1fe3783bc09c07db4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 11/25] fix: archive old backups when an archive type is
 configured

The log directory was passed as the path of one common archive file, which
always failed, and the backups were then deleted without having been archived.
---
 internal/output_rolling.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index bc486e1..17e17c6 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -33,6 +33,8 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 	case "gzip":
 		rw.archiveType = rollingArchiveGzip
 	}
+	// one archive per backup, next to it
+	rw.archiveExploded = true
 
 	rw.maxRolls = getMaxRolls(cfg["backups"])
 	rw.dirPerm = getFileMode(cfg["dir_perm"], defaultDirectoryPermissions)
-- 
2.43.0


From 3e2a5bae74826fe02149aeab0282df0c54c1cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 12/25] fix: report the caller of Printf, not the caller's
 caller

Printf was both a logging method and a step of the others, and the number of
frames to skip was that of the others.
---
 internal/logger.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 9504321..4e18b43 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -111,54 +111,59 @@ type defWriter struct {
 }
 
 func (l *defWriter) Tracef(fmt string, args ...interface{}) {
-	l.Printf(api.Trace, fmt, args...)
+	l.printf(api.Trace, fmt, args...)
 }
 
 func (l *defWriter) Trace(msg ...interface{}) {
-	l.Printf(api.Trace, "", msg...)
+	l.printf(api.Trace, "", msg...)
 }
 
 func (l *defWriter) Debugf(fmt string, args ...interface{}) {
-	l.Printf(api.Debug, fmt, args...)
+	l.printf(api.Debug, fmt, args...)
 }
 
 func (l *defWriter) Debug(msg ...interface{}) {
-	l.Printf(api.Debug, "", msg...)
+	l.printf(api.Debug, "", msg...)
 }
 
 func (l *defWriter) Infof(fmt string, args ...interface{}) {
-	l.Printf(api.Info, fmt, args...)
+	l.printf(api.Info, fmt, args...)
 }
 
 func (l *defWriter) Info(msg ...interface{}) {
-	l.Printf(api.Info, "", msg...)
+	l.printf(api.Info, "", msg...)
 }
 
 func (l *defWriter) Warnf(fmt string, args ...interface{}) {
-	l.Printf(api.Warn, fmt, args...)
+	l.printf(api.Warn, fmt, args...)
 }
 
 func (l *defWriter) Warn(msg ...interface{}) {
-	l.Printf(api.Warn, "", msg...)
+	l.printf(api.Warn, "", msg...)
 }
 
 func (l *defWriter) Errorf(fmt string, args ...interface{}) {
-	l.Printf(api.Error, fmt, args...)
+	l.printf(api.Error, fmt, args...)
 }
 
 func (l *defWriter) Error(msg ...interface{}) {
-	l.Printf(api.Error, "", msg...)
+	l.printf(api.Error, "", msg...)
 }
 
 func (l *defWriter) Criticalf(fmt string, args ...interface{}) {
-	l.Printf(api.Critical, fmt, args...)
+	l.printf(api.Critical, fmt, args...)
 }
 
 func (l *defWriter) Critical(msg ...interface{}) {
-	l.Printf(api.Critical, "", msg...)
+	l.printf(api.Critical, "", msg...)
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
+	l.printf(lvl, fmt, args...)
+}
+
+// printf is called by every logging method, so that all are one frame above it
+func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
 	if !l.logger.LevelEnabled(lvl) {
 		return
 	}
-- 
2.43.0


From 9a952af167be6e744a519c21b073f3d8413ffd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 13/25] fix: let several goroutines log to a memory output

Its buffer was written without a lock, so records were lost or mixed, or the
process crashed.
---
 internal/output_memory.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/output_memory.go b/internal/output_memory.go
index 7bcd09e..6a8bc55 100644
--- a/internal/output_memory.go
+++ b/internal/output_memory.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"bytes"
+	"sync"
 
 	"github.com/xtfly/log4g/api"
 )
@@ -12,16 +13,26 @@ const (
 
 type memoryOutput struct {
 	api.Output
-	buf bytes.Buffer
+	lock sync.Mutex // of buf
+	buf  bytes.Buffer
+}
+
+// Write adds a record to the buffer
+func (o *memoryOutput) Write(p []byte) (int, error) {
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	return o.buf.Write(p)
 }
 
 func (o *memoryOutput) String() string {
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	return o.buf.String()
 }
 
 // NewMemoryOutput return a output instance that it print message to buffer
 func NewMemoryOutput(_ api.CfgOutput) (api.Output, error) {
 	r := &memoryOutput{}
-	r.Output = NewBaseOutput(&r.buf, api.All)
+	r.Output = NewBaseOutput(r, api.All)
 	return r, nil
 }
-- 
2.43.0


From 3beb233d6c596f81b4f5a0374d16992ca1104d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 14/25] fix: allow changing level and outputs of a logger while
 others log

The settings were read and written without synchronisation; a torn read of
the output list crashed the logging goroutine.
---
 internal/logger.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 4e18b43..2aa680d 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"context"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -20,6 +21,7 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
+	lock           sync.RWMutex // of level, outputs, callerSkip and callerInfoFlag
 
 	*defWriter
 }
@@ -78,14 +80,19 @@ func (l *defLogger) LevelEnabled(lvl api.Level) bool {
 }
 
 func (l *defLogger) SetLevel(lvl api.Level) {
+	l.lock.Lock()
 	l.level = lvl
+	l.lock.Unlock()
 }
 
 func (l *defLogger) Level() api.Level {
 	cl := l
 	for cl != nil {
-		if cl.level != api.Uninitialized {
-			return cl.level
+		cl.lock.RLock()
+		lvl := cl.level
+		cl.lock.RUnlock()
+		if lvl != api.Uninitialized {
+			return lvl
 		}
 		cl = cl.parent
 	}
@@ -93,10 +100,14 @@ func (l *defLogger) Level() api.Level {
 }
 
 func (l *defLogger) SetCallerSkip(skip int) {
+	l.lock.Lock()
 	l.callerSkip = callerSkip + skip
+	l.lock.Unlock()
 }
 
 func (l *defLogger) SetOutputs(outputs []api.Output) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
 	l.outputs = outputs
 	for _, op := range outputs {
 		if l.callerInfoFlag < op.CallerInfoFlag() {
@@ -167,11 +178,18 @@ func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
 	if !l.logger.LevelEnabled(lvl) {
 		return
 	}
-	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
+	l.logger.lock.RLock()
+	skip := l.logger.callerSkip
+	l.logger.lock.RUnlock()
+	l.write(l.logger.name, skip, lvl, fmt, args...)
 }
 
 func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
-	if len(l.logger.outputs) == 0 {
+	l.logger.lock.RLock()
+	outputs, callerInfoFlag := l.logger.outputs, l.logger.callerInfoFlag
+	l.logger.lock.RUnlock()
+
+	if len(outputs) == 0 {
 		if l.logger.parent != nil {
 			pw := &defWriter{logger: l.logger.parent, ctx: l.ctx}
 			pw.write(name, skip+1, lvl, fmt, args...)
@@ -191,14 +209,14 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if l.logger.callerInfoFlag == ciFuncFlag {
+	if callerInfoFlag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if l.logger.callerInfoFlag == ciFileFlag {
+	} else if callerInfoFlag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range l.logger.outputs {
+	for _, v := range outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From 14a72f88cc5f5956c4f35ccdcc4f384e6ea718a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 15/25] fix: do not delete backups whose archiving failed

The result of archiving was ignored and the backups deleted regardless, so a
transient failure lost them although archiving was configured.
---
 internal/output_rollingwriter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 8969888..d3a3eb6 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -423,16 +423,21 @@ func (rw *rollingFileWriter) deleteOldRolls(history []string) error {
 
 			// Archive logs
 			for i := 0; i < rollsToDelete; i++ {
-				rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType])
+				if err := rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType]); err != nil {
+					return err
+				}
 			}
 		} else {
 			os.MkdirAll(filepath.Dir(rw.archivePath), rw.dirPerm)
-			rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history)
+			if err := rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history); err != nil {
+				return err
+			}
 		}
 	}
 
 	var err error
-	// In all cases (archive files or not) the files should be deleted.
+	// Whether archives are kept or not, the files should be deleted; those
+	// that could not be archived are kept and tried again at the next roll.
 	for i := 0; i < rollsToDelete; i++ {
 		// Try best to delete files without breaking the loop.
 		if err = tryRemoveFile(filepath.Join(rw.currentDirPath, history[i])); err != nil {
-- 
2.43.0


From 79b9138d2fe831f5648a2b424a32de2b799675b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 16/25] fix: retry a roll by time that failed to rename the
 file

---
 internal/output_rollingwriter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index d3a3eb6..5732833 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -170,6 +170,9 @@ type rollerVirtual interface {
 	getNewHistoryRollFileName(otherHistoryFiles []string) string
 
 	getCurrentFileName() string
+
+	// rolled is called when the current file has got its history name.
+	rolled()
 }
 
 // rollingFileWriter writes received messages to a file, until time interval passes
@@ -500,6 +503,7 @@ func (rw *rollingFileWriter) roll() error {
 	if err != nil {
 		return err
 	}
+	rw.self.rolled()
 	os.Chmod(dest, rw.backPerm)
 
 	// Finally, add the newly added history file to the history archive
@@ -623,6 +627,9 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 	return fmt.Sprintf("%d", v+1)
 }
 
+func (rws *rollingFileWriterSize) rolled() {
+}
+
 func (rws *rollingFileWriterSize) getCurrentFileName() string {
 	return rws.fileName
 }
@@ -693,9 +700,11 @@ func (rwt *rollingFileWriterTime) sortFileRollNamesAsc(fs []string) ([]string, e
 }
 
 func (rwt *rollingFileWriterTime) getNewHistoryRollFileName(_ []string) string {
-	newFileName := rwt.currentTimeFileName
+	return rwt.currentTimeFileName
+}
+
+func (rwt *rollingFileWriterTime) rolled() {
 	rwt.currentTimeFileName = time.Now().Format(rwt.timePattern)
-	return newFileName
 }
 
 func (rwt *rollingFileWriterTime) getCurrentFileName() string {
-- 
2.43.0


From 01271c347fd89d59a4a7f364023ce94f394d27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 17/25] fix: remove the temporary archive when it cannot be put
 in place

---
 internal/output_rollingwriter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 5732833..637d729 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -324,6 +324,9 @@ func (rw *rollingFileWriter) archiveExplodedLogs(logFilename string, compression
 		// Finalize archive by swapping the buffered archive into place
 		err = os.Rename(dst.Name(), filepath.Join(rw.archivePath,
 			compressionType.rollingArchiveTypeName(logFilename, true)))
+		if err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	// archive entry
@@ -362,6 +365,9 @@ func (rw *rollingFileWriter) archiveUnexplodedLogs(compressionType compressionTy
 
 		// Finalize archive by moving the buffered archive into place
 		err = os.Rename(dst.Name(), rw.archivePath)
+		if err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	w := compressionType.archiver(dst, false)
-- 
2.43.0


From 08ae7fab1441760204368ce54181afa8dd40b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 18/25] fix: read the settings of a logger and its ancestors at
 one moment

---
 internal/logger.go | 56 +++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 2aa680d..091b903 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -13,6 +13,10 @@ const (
 	callerSkip = 3
 )
 
+// settingsLock guards level, outputs, callerSkip and callerInfoFlag of all loggers: what holds for a logger
+// depends on its ancestors, so that a message has to see all of them at one moment
+var settingsLock sync.RWMutex
+
 // defLogger is default logger implements interface Logger
 type defLogger struct {
 	name           string       // 日志名称
@@ -21,7 +25,6 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
-	lock           sync.RWMutex // of level, outputs, callerSkip and callerInfoFlag
 
 	*defWriter
 }
@@ -80,19 +83,18 @@ func (l *defLogger) LevelEnabled(lvl api.Level) bool {
 }
 
 func (l *defLogger) SetLevel(lvl api.Level) {
-	l.lock.Lock()
+	settingsLock.Lock()
 	l.level = lvl
-	l.lock.Unlock()
+	settingsLock.Unlock()
 }
 
 func (l *defLogger) Level() api.Level {
+	settingsLock.RLock()
+	defer settingsLock.RUnlock()
 	cl := l
 	for cl != nil {
-		cl.lock.RLock()
-		lvl := cl.level
-		cl.lock.RUnlock()
-		if lvl != api.Uninitialized {
-			return lvl
+		if cl.level != api.Uninitialized {
+			return cl.level
 		}
 		cl = cl.parent
 	}
@@ -100,20 +102,24 @@ func (l *defLogger) Level() api.Level {
 }
 
 func (l *defLogger) SetCallerSkip(skip int) {
-	l.lock.Lock()
+	settingsLock.Lock()
 	l.callerSkip = callerSkip + skip
-	l.lock.Unlock()
+	settingsLock.Unlock()
 }
 
 func (l *defLogger) SetOutputs(outputs []api.Output) {
-	l.lock.Lock()
-	defer l.lock.Unlock()
-	l.outputs = outputs
+	flag := ciNoneFlog
 	for _, op := range outputs {
-		if l.callerInfoFlag < op.CallerInfoFlag() {
-			l.callerInfoFlag = op.CallerInfoFlag()
+		if flag < op.CallerInfoFlag() {
+			flag = op.CallerInfoFlag()
 		}
 	}
+	settingsLock.Lock()
+	defer settingsLock.Unlock()
+	l.outputs = outputs
+	if l.callerInfoFlag < flag {
+		l.callerInfoFlag = flag
+	}
 }
 
 type defWriter struct {
@@ -178,23 +184,23 @@ func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
 	if !l.logger.LevelEnabled(lvl) {
 		return
 	}
-	l.logger.lock.RLock()
+	settingsLock.RLock()
 	skip := l.logger.callerSkip
-	l.logger.lock.RUnlock()
+	settingsLock.RUnlock()
 	l.write(l.logger.name, skip, lvl, fmt, args...)
 }
 
 func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
-	l.logger.lock.RLock()
-	outputs, callerInfoFlag := l.logger.outputs, l.logger.callerInfoFlag
-	l.logger.lock.RUnlock()
+	// the outputs of the nearest logger that has some
+	settingsLock.RLock()
+	from := l.logger
+	for len(from.outputs) == 0 && from.parent != nil {
+		from = from.parent
+	}
+	outputs, callerInfoFlag := from.outputs, from.callerInfoFlag
+	settingsLock.RUnlock()
 
 	if len(outputs) == 0 {
-		if l.logger.parent != nil {
-			pw := &defWriter{logger: l.logger.parent, ctx: l.ctx}
-			pw.write(name, skip+1, lvl, fmt, args...)
-			return
-		}
 		log.Println("Warnning: not find outputs and parent for logger " + name)
 	}
 
-- 
2.43.0


From c83aaaec1f40279f9a9fd70f53a8c8c69baf7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 19/25] fix: render records of asynchronous outputs when they
 are logged

---
 internal/output_base.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 2923009..512a0e5 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -109,7 +109,7 @@ func GetThresholdLvl(str string) api.Level {
 // NewAsyncOutput ...
 func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum int) api.Output {
 	o := &asyncOutput{
-		evtChan:  make(chan *api.Event, queueSize),
+		evtChan:  make(chan []byte, queueSize),
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
@@ -120,7 +120,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 
 type asyncOutput struct {
 	*baseOutput
-	evtChan  chan *api.Event
+	evtChan  chan []byte // records
 	batchNum int
 	currNum  int
 	buf      bytes.Buffer
@@ -130,12 +130,18 @@ type asyncOutput struct {
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
+	if e.Level < o.t {
+		return
+	}
+	// not in the loop: what the arguments and fields refer to may change as soon as the caller goes on
+	rec := o.f.Format(e)
+
 	o.sendLock.RLock()
 	defer o.sendLock.RUnlock()
 	if atomic.LoadInt32(&o.closed) == flagClosed {
 		return
 	}
-	o.evtChan <- e
+	o.evtChan <- rec
 }
 
 func (o *asyncOutput) Close() {
@@ -143,7 +149,7 @@ func (o *asyncOutput) Close() {
 	// support duplicate call Close method
 	if atomic.LoadInt32(&o.closed) != flagClosed {
 		atomic.StoreInt32(&o.closed, flagClosed)
-		// the loop takes what is queued, then a nil event
+		// the loop takes what is queued, then sees that it is closed
 		close(o.evtChan)
 	}
 	o.sendLock.Unlock()
@@ -167,18 +173,16 @@ func (o *asyncOutput) loop() {
 		select {
 		case <-tick.C:
 			o.flush()
-		case evt := <-o.evtChan:
-			if evt == nil {
+		case rec, ok := <-o.evtChan:
+			if !ok {
 				o.flush()
 				return
 			}
 
-			if evt.Level >= o.t {
-				o.buf.Write(o.f.Format(evt))
-				o.currNum++
-				if o.currNum >= o.batchNum {
-					o.flush()
-				}
+			o.buf.Write(rec)
+			o.currNum++
+			if o.currNum >= o.batchNum {
+				o.flush()
 			}
 		}
 	}
-- 
2.43.0


From 648fbab97393c822b6d5f9f209ce491c3f11d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:16 +0000
Subject: [PATCH 20/25] fix: show the package path as it is written, not as
 symbols spell it

---
 internal/logger_callerinfo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index d20ff85..1add6cf 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"context"
+	"net/url"
 	"runtime"
 	"strings"
 
@@ -48,6 +49,10 @@ func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 				ci.pkg, ci.fun = "???", "???"
 			} else {
 				ci.pkg, ci.fun = fs[:i+j+1], fs[i+j+2:]
+				// symbols have dots of the last element escaped: yaml%2ev2
+				if pkg, err := url.PathUnescape(ci.pkg); err == nil {
+					ci.pkg = pkg
+				}
 			}
 		}
 	}
-- 
2.43.0


From 9edb60ef9b40b1e7b6409cb7049f28afcd606801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:19 +0000
Subject: [PATCH 21/25] fix: show the name of a function with type parameters
 as short function

---
 internal/format_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/format_parser.go b/internal/format_parser.go
index c259082..5a42e47 100644
--- a/internal/format_parser.go
+++ b/internal/format_parser.go
@@ -258,8 +258,9 @@ func longfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 // %{shortfunc} Base function name, eg. PutUint32
 func shortfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 	ci := getCallerInfo(evt, true)
-	i := strings.LastIndex(ci.fun, ".")
-	return ci.fun[i+1:]
+	fun := strings.TrimSuffix(ci.fun, "[...]") // of a function with type parameters
+	i := strings.LastIndex(fun, ".")
+	return fun[i+1:]
 }
 
 // %{time} Time when log occurred (time.Time)
-- 
2.43.0


From bc6ebe46047dab4e197e29614aca5d988252cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:28 +0000
Subject: [PATCH 22/25] fix: do not take a file whose number has a sign for a
 backup

---
 internal/output_rollingwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 637d729..ad9eb8c 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -595,7 +595,7 @@ func (rws *rollingFileWriterSize) needsToRoll() bool {
 }
 
 func (rws *rollingFileWriterSize) isFileRollNameValid(rname string) bool {
-	if len(rname) == 0 {
+	if len(rname) == 0 || rname[0] == '+' || rname[0] == '-' {
 		return false
 	}
 	_, err := strconv.Atoi(rname)
-- 
2.43.0


From 4d728c47456cd203731951fe8af431e3d262321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 23/25] fix: an idle asynchronous output does not roll its file

---
 internal/output_base.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/output_base.go b/internal/output_base.go
index 512a0e5..a6f4057 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -157,6 +157,10 @@ func (o *asyncOutput) Close() {
 }
 
 func (o *asyncOutput) flush() {
+	if o.buf.Len() == 0 {
+		// a write of nothing would still roll a file that has reached its limit or period
+		return
+	}
 	bs := o.buf.Bytes()
 	o.w.Write(bs)
 	o.buf.Truncate(0)
-- 
2.43.0


From f314b9f9b5979c32114cacba01f4ac3e454b46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:08 +0000
Subject: [PATCH 24/25] fix: start a new batch after one of empty records

---
 internal/output_base.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/output_base.go b/internal/output_base.go
index a6f4057..db57309 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -159,6 +159,7 @@ func (o *asyncOutput) Close() {
 func (o *asyncOutput) flush() {
 	if o.buf.Len() == 0 {
 		// a write of nothing would still roll a file that has reached its limit or period
+		o.currNum = 0
 		return
 	}
 	bs := o.buf.Bytes()
-- 
2.43.0


From 069c69995d27ce55c4f1e2c2c446b3e11d83342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:25 +0000
Subject: [PATCH 25/25] fix: let fields have any name, also that of the caller
 information

---
 internal/logger_callerinfo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index 1add6cf..89e889a 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -23,9 +23,12 @@ type callerInfo struct {
 	pc   uintptr
 }
 
+// callerInfoKey is no key a field or a context of the program could have
+type callerInfoKey struct{}
+
 func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 	var ci *callerInfo
-	v := evt.Ctx.Value("__caller_info")
+	v := evt.Ctx.Value(callerInfoKey{})
 	if v != nil {
 		ci = v.(*callerInfo)
 	}
@@ -37,7 +40,7 @@ func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 		if !ok {
 			ci.file, ci.line = "???", 0
 		}
-		evt.Ctx = context.WithValue(evt.Ctx, "__caller_info", ci)
+		evt.Ctx = context.WithValue(evt.Ctx, callerInfoKey{}, ci)
 	}
 
 	if needFun && ci.pkg == "" {
-- 
2.43.0

