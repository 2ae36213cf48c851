#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the long lines stay editable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

L, F, M = "internal/logger.go", "internal/logger_factory.go", "internal/logger_manager.go"
OB, OR, RW, FS = "internal/output_base.go", "internal/output_rolling.go", "internal/output_rollingwriter.go", "internal/output_fsutil.go"

p("C01", "A message passes iff its level reaches the logger's effective level",
  "A message of level L logged through a logger is let through exactly when L is at or above that logger's effective level: its own level if it has one, otherwise that of its nearest ancestor that has one, and off if none has. The level of an ancestor never blocks a message of a descendant that has its own level. The level query and every level-enabled query of the logger always agree with what is actually delivered.",
  ["configurations", "histories", "inputs"],
  "every hierarchy of logger names, every assignment of levels by configuration (any letter case, unknown names meaning 'not set') or at run time (including resetting to 'not set'), every history of those operations, and every message level including values outside the named ones",
  "The tests log at each level through loggers set to all/debug; no test checks suppression, an inherited level, a changed level or the query methods.",
  [L, "api/logger_level.go", M, F],
  [("effective level is the first set one up the parent chain", L+": Level"), ("gate applied once, at the logger that was called", L+": Printf/LevelEnabled"), ("case-insensitive level names", "api/logger_level.go: LevelFrom")],
  ["Logger.Level", "Logger.LevelEnabled/TraceEnabled/...", "events reaching a registered Output"],
  [("own level", "level configured or set on this logger, or not set", L+": defLogger.level"), ("parent", "nearest enclosing logger", L+": defLogger.parent")])

p("C02", "A passed message reaches exactly the right outputs, once, in order",
  "A message that passes the level gate is delivered exactly once to each output of the logger it was logged through or, if that logger has no outputs, to each output of its nearest ancestor that has some, and to no other output. Each output with a threshold drops exactly the messages below its threshold. The record carries the message text, its level and the name of the logger that was called, and consecutive messages reach an output in call order.",
  ["configurations", "histories", "inputs"],
  "every hierarchy, every assignment of output lists (shared, disjoint, empty) and thresholds to its loggers by configuration or at run time, every logging method and every sequence of messages",
  "One test logs through one inherited memory output; thresholds, several outputs, sharing between loggers and run-time changes are never exercised.",
  [L, OB, OR, "internal/output_console.go", "internal/output_memory.go"],
  [("delegation to the parent when the logger has no outputs", L+": write"), ("threshold test before writing", OB+": Send / loop"), ("level of each method", L+": Tracef..Critical")],
  ["events and bytes reaching each output"])

p("C03", "Logger identity and hierarchy do not depend on how loggers are obtained",
  "Asking for a name always gives the same logger, from any goroutine; the empty name and 'root' give the root logger. The parent of a logger is the one named by the part of its name before the last '/' or '.', and the root if there is no such part. The configuration of a logger and of all its ancestors is in force whatever the order, or the concurrency, in which the loggers are first obtained.",
  ["schedules", "histories", "inputs"],
  "every set of names over the two separators (including repeated, leading and trailing separators), every order of obtaining them before and after configuration changes, and concurrent first requests",
  "The tests obtain a configured parent before its child, one order out of many, in one goroutine.",
  [F, L, "log4g.go", "internal/log4g.go"],
  [("ancestors created on the way down the name", F+": getParent"), ("registry under one lock", F+": GetLogger"), ("configuration applied when a logger is created", F+": createLogger")],
  ["GetLogger", "delivery of messages logged through the loggers obtained"])

p("C04", "An accepted configuration governs every logger it names",
  "When setting a configuration has returned successfully, every logger it names, whether obtained before or later, has exactly the level and the outputs it gives that logger, as they are defined there; loggers it does not name keep the level and outputs they have, and a logger first obtained later and not named has none of its own. When several configurations are set concurrently, all loggers end up under the same one, the last applied. A logger whose outputs cannot be created keeps what it had, without affecting the others.",
  ["histories", "configurations", "schedules"],
  "every sequence of accepted configurations interleaved with obtaining loggers and run-time level/output changes, and concurrent calls of these",
  "Each test process sets a configuration before any logger exists; changing it afterwards, or concurrently, is not tested.",
  [M, F],
  [("configuration replaced under the lock, then loggers notified", M+": setConfig"), ("rebinding of existing loggers", F+": notify"), ("resolution of names to instances", M+": GetLoggerOutputs")],
  ["Manager.SetConfig/LoadConfig/LoadConfigFile", "Logger.Level", "delivery"])

p("C05", "Configuration is all or nothing",
  "A configuration is rejected with an error exactly when the document cannot be read, is of an unknown kind (anything but yaml, yml and json in any letter case; for a file, what follows the last dot of its name) or malformed as a whole or in any part, repeats a name among its formatters, outputs or loggers, or has an output naming an undefined formatter or a logger naming an undefined output. A rejected configuration changes nothing: levels, outputs and delivery stay as they were. The same configuration given as a structure, as YAML or as JSON has the same effect.",
  ["inputs", "configurations", "histories"],
  "every configuration document over small sets of names (well formed or not, in each of the accepted forms and file extensions in any letter case), at any point of a history",
  "One test loads one valid YAML document; no invalid document is ever given, and the returned error is only printed.",
  [M, "api/logger_mange.go"],
  [("validation before installation", M+": validateConfig/setConfig"), ("decoding by extension", M+": LoadConfig/LoadConfigFile")],
  ["error of SetConfig/LoadConfig/LoadConfigFile", "GetLoggerOutputs", "delivery afterwards"])

p("C06", "Fields attached to a writer appear on its messages and on no others",
  "Every message logged through a writer obtained with fields or with a context carries exactly those fields (the last value given for a key), for every output it reaches, synchronous or not, own or inherited from an ancestor. Messages logged through any other writer, or through the logger itself, carry none of them.",
  ["histories", "inputs", "configurations", "schedules"],
  "every interleaving of writers with different field sets on the same and on related loggers, used repeatedly and concurrently",
  "One test logs one message with two fields through a logger that has its own output.",
  [L, "internal/format_parser.go"],
  [("one context per writer", L+": WithFields/WithCtx"), ("context copied to the event", L+": write"), ("lookup by verb name", "internal/format_parser.go: extendFormatFunc")],
  ["%{key} in the rendered record", "Event.Ctx at an output"])

p("C07", "Caller information names the statement that logged",
  "When a record shows file, line, package or function, they are those of the statement that called the logging method - any of the logging methods, through the logger or through a writer with fields or context - or of the caller the configured number of frames above it when a caller skip is set. This holds whether the outputs are the logger's own or inherited over any number of levels, synchronous or asynchronous, rendered at once or later by a goroutine of a registered output, and whatever other outputs the logger has.",
  ["inputs", "configurations", "histories"],
  "every logging method x kind of writer x depth of inheritance x caller skip x kind of output x combination of caller verbs, and every history of changing skip and outputs",
  "Tests check one method on an own synchronous output, one verb at a time; no inheritance, skip, writer, line number or asynchronous output.",
  ["internal/logger_callerinfo.go", L, "internal/format_parser.go", "internal/format_text.go"],
  [("frame count carried from the call", L+": callerSkip/write"), ("captured in the calling goroutine when any output needs it", L+": write"), ("requirement declared by the layout", "internal/format_text.go: CallerInfoFlag")],
  ["%{line} %{shortfile} %{longfile} %{longpkg} %{shortpkg} %{longfunc} %{shortfunc} in the record"])

p("C08", "A layout renders as its text with each verb replaced by its value",
  "For every layout containing at least one verb, the record is the layout's static text, unchanged and in order, with every verb %{name} or %{name:spec} replaced by the value it stands for, printed with the given format (for time, in the given time layout; for an unknown name, the field of that name). A layout without a verb is refused with an error. The rendering of one event never depends on the events rendered before or concurrently.",
  ["inputs", "programs"],
  "every layout string (including stray %, {, }, :, and backslashes), every event (level, name, message with and without arguments, fields), any sequence of events",
  "Seven fixed layouts are rendered in tests, none with malformed or adjacent verbs, static text around verbs, or escapes.",
  ["internal/format_parser.go", "internal/format_text.go", "api/logger_level.go", "api/logger_api.go"],
  [("split of the layout into parts", "internal/format_parser.go: Parser/formatRe"), ("rendering part by part", "internal/format_parser.go: Format")],
  ["Formatter.Format", "error of the formatter's creation"])

p("C09", "An asynchronous output neither loses, repeats, reorders nor mixes messages",
  "While an asynchronous output is open, every message sent to it that meets its threshold is written to the target exactly once and whole, and the messages of one goroutine in the order it sent them; a message whose sending finished before another's began is written before it. When the queue is full the sender waits: nothing is dropped. At most the configured number of messages waits in the queue.",
  ["schedules", "histories", "inputs"],
  "every number of sending goroutines, queue size, batch size, speed of the target and interleaving",
  "One test sends two messages from one goroutine with queue and batch size one and sleeps six seconds.",
  [OB],
  [("bounded queue, one consumer", OB+": Send/loop"), ("batch buffer emptied only after it was written", OB+": flush")],
  ["writes to the target", "return of Send"],
  [("queue", "messages accepted and not yet taken by the writing goroutine", OB+": evtChan"), ("batch", "messages taken and not yet written", OB+": buf/currNum")])

p("C10", "Closing an asynchronous output flushes all that was accepted and is always safe",
  "When any call to close an asynchronous output returns, every message whose sending had finished before that call began has been written to the target. Closing may be called any number of times, from any goroutines and concurrently with sending, immediately after creation or when the queue is full: no call panics or blocks forever. Messages sent after a close has returned are ignored without error, and nothing is written after it.",
  ["schedules", "histories"],
  "every interleaving of any number of senders and closers with the writing goroutine, including before that goroutine first runs",
  "The only test closes once, after a six-second sleep, with nothing queued and checks nothing afterwards.",
  [OB, M, "internal/log4g.go"],
  [("closed flag and queue closing made atomic with sending", OB+": Close/Send"), ("close waits for the writing goroutine", OB+": wait"), ("writing goroutine drains the queue before ending", OB+": loop")],
  ["writes to the target at the return of Close", "return of Send and Close"])

p("C11", "Asynchronous messages are written in full batches or at the next periodic flush",
  "An asynchronous output submits messages to the target in batches of exactly the configured number, counting only messages that meet the threshold, as soon as that many are pending. A smaller number of pending messages is written no later than the next periodic flush (five seconds), or at close; batches are never larger than configured and an idle period never changes, repeats or withholds them.",
  ["histories", "schedules", "inputs"],
  "every sequence of sends (above and below the threshold), idle periods and closing, for every batch size",
  "The test waits six seconds for one batch of size one; partial batches and repeated periods are not tested.",
  [OB],
  [("count and flush", OB+": loop"), ("periodic ticker", OB+": loop")],
  ["individual writes to the target and their time"])

p("C12", "Concurrent logging to a synchronous output keeps records whole, once, in order",
  "When several goroutines log to the same synchronous console, file or memory output, each message appears in it exactly once as one unbroken record, also across file rolls; the messages of a goroutine appear in the order it logged them, and a message logged after another call returned appears after it. When a logging call has returned, its record is already in the target.",
  ["schedules", "inputs"],
  "every number of goroutines, loggers and messages, of any length, and every interleaving",
  "No test logs from more than one goroutine.",
  [OB, RW, "internal/output_memory.go", "internal/output_console.go"],
  [("one write per record", OB+": baseOutput.Send"), ("lock around roll and write", RW+": Write")],
  ["content of the target"])

p("C13", "Rolling by size loses and reorders nothing and respects the size limit",
  "For a file rolled by size, the backups in the order of their numbers followed by the current file contain exactly the messages written, in order and unbroken, except the oldest whole files removed or archived because of the backup limit. Every write goes to a file that was below the size limit just before it, also in the first write after a restart, and the file is rolled only when it had reached the limit. A backup gets the number after the highest existing one, and content found at start is kept and continued.",
  ["histories", "inputs", "configurations"],
  "every sequence of messages of any length, restarts at any point, any limit, both naming modes, and any files already present in the directory",
  "Tests make at most one roll with one fixed message size and compare only file names, never content.",
  [RW, OR, FS],
  [("roll decision", RW+": needsToRoll"), ("rename to next number", RW+": roll/getNewHistoryRollFileName"), ("size taken from the file when opened", RW+": createFileAndFolderIfNeeded")],
  ["directory listing and file contents after every write"],
  [("current file", "name, size and content of the file being written", RW+": currentFile/currentFileSize"), ("history", "backup files of this log, in order", RW+": getSortedLogHistory")])

p("C14", "Rolling by time puts each period's messages in that period's backup",
  "For a file rolled by time, the first write in a new period first renames the file to a backup labelled with the period it was being written in, and the message goes to a new file; no other write rolls. Within one run the backup labelled with a period holds exactly that run's messages of that period, in order, and the current file those of the current period; periods without messages produce no backup. After a restart the existing file is kept and continued.",
  ["histories", "inputs", "configurations"],
  "every sequence of writes and period changes (skipping any number of periods) and restarts, for time patterns that give each period a distinct label, both naming modes, and a clock that does not go back",
  "No test uses rolling by time at all (it would have to wait for real days).",
  [RW, OR],
  [("label comparison on every write", RW+": rollingFileWriterTime.needsToRoll"), ("label of the finished period", RW+": getNewHistoryRollFileName")],
  ["directory listing and file contents after every write"])

p("C15", "Only the newest backups are kept, and nothing else is ever touched",
  "After every roll at most the configured number of backups of the log remains, and they are the newest ones, by number or by period rather than by name. No other file of the directory is removed, renamed or changed: not directories, other logs, archives or files whose names merely resemble a backup. Backups left over from earlier runs count.",
  ["histories", "configurations", "inputs"],
  "every initial directory content (any number of entries, look-alike names, gaps, leading zeros, two-digit numbers, directories), limit, naming mode and sequence of rolls and restarts",
  "Tests roll once with at most one pre-existing backup and two look-alikes.",
  [RW, FS],
  [("name filter", RW+": hasRollName/isFileRollNameValid"), ("ordering", RW+": sortFileRollNamesAsc"), ("removal of the oldest", RW+": deleteOldRolls"), ("complete listing of regular files", FS+": getDirFilePaths")],
  ["directory listing after every write"])

p("C16", "With archiving on, a backup is removed only after its content is in an archive",
  "When compression is configured, every backup that leaves the backup limit is, at that moment, available as a compressed file (zip or gzip, as configured) in the log directory, named after the backup and containing exactly its bytes; no temporary or partial file is left behind. So archives, backups and current file together always hold every message ever written, in order.",
  ["histories", "configurations"],
  "every sequence of writes, rolls and restarts for each archive type, rolling type, naming mode and limit",
  "Two tests check that an archive file name appears, with empty content and an internal option that configuration cannot set.",
  [RW, OR, "internal/archive/zip/zip.go", "internal/archive/gzip/gzip.go"],
  [("archive to temporary file, then rename, then delete the backup", RW+": archiveExplodedLogs/deleteOldRolls"), ("configuration of the archive", OR+": NewRollingOutput")],
  ["archive files read back with an independent decompressor"])

p("C17", "A failed roll costs no message and logging recovers",
  "If rolling a file fails at any step - listing, renaming, changing mode, archiving or removing - the message being written and all later ones still go to the log in order and nothing already written is lost, and as soon as the obstacle is gone rolling works again. Even when the file itself cannot be opened or written, only the messages logged meanwhile may be lost and logging resumes with the first message after the obstacle disappears.",
  ["fault_sequences", "histories"],
  "every placement of failures (of single system calls, an obstructing directory, the current file or the whole directory removed or replaced) over a history of writes and rolls",
  "No test makes any file operation fail.",
  [RW],
  [("roll failure does not abort the write", RW+": Write"), ("reopening on the next write", RW+": createFileAndFolderIfNeeded")],
  ["directory contents after each write under injected faults"])

p("C18", "Output options mean what is documented",
  "Size limits are read as bytes or with the suffix K, M or G as that many KiB, MiB or GiB, and are 10 MiB when missing, zero, negative or not a number (left open for values ending in G); the number of backups, queue size and batch size are used as given within their allowed range, replaced by the default when missing, zero, negative or not a number, and capped at the maximum. An unknown or missing threshold lets every level through and a level name is recognised in any letter case; file, backup and directory permissions written in octal with a leading 0 (01 to 0777) are the ones used, and what is no number, zero or larger means the defaults (0600, 0500, 0760); and naming, archive, async and type options select the documented behaviour.",
  ["inputs", "configurations"],
  "every value of every option of the console and rolling file outputs (sizes up to 2^62 bytes), alone and combined",
  "No test observes the effect of any option parsed from a configuration.",
  [OR, OB, "internal/output_console.go"],
  [("option parsing", OR+": getMaxSize/getMaxRolls/getFileMode"), ("option parsing", OB+": GetQueueSize/GetBatchNum/GetThresholdLvl")],
  ["size at which a roll happens, number of backups kept, file modes, queue capacity, batch length, records passed"])

p("C19", "Copying or extending an archive preserves every entry",
  "Copying an archive to an archive of the same or another kind yields exactly the same sequence of entries, each with its name and bytes, repeated names included; a gzip file holds one entry, and copying more than one to it reports an error instead of dropping any, as does anything that cannot be read or written. Backups over the limit that are collected in one archive file are appended to it in order, before they are removed; it always contains every backup that was ever put in it, in order and once (unless removing a backup failed or the process died before it), and is replaced in one step: if an update fails, or the process dies during it, the previous archive stays intact and the backups remain.",
  ["inputs", "histories"],
  "every sequence of entries (any number, empty, binary or large contents, any names, repeated names), every pair of kinds, chains of copies, and every history of updates",
  "Tests copy one or two short entries once between kinds; the collecting archive is never exercised.",
  ["internal/archive/archive.go", "internal/archive/zip/zip.go", "internal/archive/tar/tar.go", "internal/archive/gzip/gzip.go", RW],
  [("same-kind streaming and buffered copy", "internal/archive/archive.go: Copy"), ("rebuild into temporary file, then rename", RW+": archiveUnexplodedLogs")],
  ["entries read back with the standard library"])

p("C20", "Log files, backups and directories get the configured permissions",
  "Every log file the library creates has the configured file permission, every directory it creates for it the configured directory permission (each reduced by the process mask), and every backup exactly the configured backup permission from the roll on; files that already exist keep their mode until rolled. Invalid, missing or out-of-range permissions fall back to the documented restrictive defaults.",
  ["configurations", "histories"],
  "every combination of permissions, mask, naming mode, rolling type and history of writes, rolls and restarts",
  "No test looks at a file mode.",
  [RW, OR, FS],
  [("mode given at creation", RW+": createFileAndFolderIfNeeded"), ("mode set after rename", RW+": roll"), ("parsing", OR+": getFileMode")],
  ["file modes after every write"])

p("C21", "One named output is one instance, and closing the manager closes them all",
  "However many loggers name an output, and however they come to be obtained, concurrently or not, at most one instance of it is created, with the formatter it names, and all of them share it. Closing the manager - by call, repeated or concurrent, or because the process is interrupted or terminated by a signal - closes every output created from configuration, so that everything logged to asynchronous ones before has been written when it returns.",
  ["histories", "schedules", "configurations"],
  "every configuration sharing outputs between loggers, every order or concurrency of obtaining loggers, reconfigurations that keep definitions, and every number of closings",
  "No test shares an output between loggers or looks at its number of instances; closing is called once with nothing to flush.",
  [M, "internal/log4g.go"],
  [("cache by name under the lock", M+": GetLoggerOutputs"), ("closing every cached output", M+": Close"), ("signal handler", "internal/log4g.go: init")],
  ["calls of a registered output creator", "Close calls on outputs", "content after Close"])

p("C22", "System log messages carry the severity of their level",
  "Every message of a level from trace to critical that meets the output's threshold is sent to the system log exactly once for each such output, in order, with the configured tag, its rendered text, and the severity of its level: debug for trace and debug, info, warning, error and critical for the others. Messages below the threshold are not sent. After a close or an interruption of the system log, sending goes on with the next message.",
  ["inputs", "histories", "configurations"],
  "every level and threshold, every tag and text, every sequence of messages, closes and interruptions of the daemon",
  "The only test that creates such an output fails without a system log daemon and never sends a message.",
  ["internal/output_syslog.go"],
  [("mapping from level to severity", "internal/output_syslog.go: Send")],
  ["datagrams at the system log socket"])

p("C23", "Reconfiguring while logging is safe and each message sees one output list",
  "Levels, outputs and whole configurations may be changed while other goroutines log: no call crashes, and every message that is enabled throughout is delivered exactly once to every output of exactly one output list that was in force for its logger at some moment during the call - never to a mixture or a part of one. A call that starts after a change has returned uses the changed settings.",
  ["schedules", "histories"],
  "every interleaving of logging calls with changes of level, of outputs and of the configuration",
  "No test changes anything while logging, and none runs two goroutines.",
  [L, F, M],
  [("snapshot of the outputs under a lock", L+": write"), ("settings replaced under the same lock", L+": SetLevel/SetOutputs")],
  ["events reaching registered outputs", "process staying alive"])

p("C24", "A killed process loses no completed message and a restart continues cleanly",
  "If the process is killed at any instant, also in the middle of a roll, every message whose synchronous logging call had returned is still present exactly once in current file, backups or archives (or had been removed by the backup limit), unbroken and in order; at most the message being written is missing, and the logger itself never leaves a part of it. A restarted process continues from that state: numbering goes on, the backup limit is restored at the next roll, and no later message is lost.",
  ["crash_points", "histories"],
  "every point of every write, including between any two file operations of a roll and of archiving, followed by a restart, repeatedly",
  "No test kills or restarts a process.",
  [RW, OB],
  [("unbuffered append", RW+": Write"), ("rename before new file; archive renamed into place before deletion", RW+": roll/archiveExplodedLogs/deleteOldRolls")],
  ["directory contents after the kill and after the restart"])

p("C25", "Records show what was logged, as it was when it was logged",
  "The message of a record is the format of the call with its arguments put in as by fmt.Sprintf, the arguments alone as by fmt.Sprint if there is no format, and the format unchanged if there are no arguments. Message and fields show arguments and field values as they were during the logging call, in every output, synchronous or asynchronous, whatever the program does with them, with the argument list or with the list of fields afterwards. Arguments and fields may themselves log when they are printed. Level, logger and time of a record are those of the call, the time lying between its beginning and its end. Arguments and fields of a message that no output writes are not printed.",
  ["histories", "inputs", "schedules"],
  "every format and list of arguments and fields of any type (values, slices, maps, pointers, things that print themselves), every history of logging calls and changes of what they refer to, while records wait in queues for any time",
  "Tests log constant strings and look at the record at once; no argument or field is changed after the call.",
  [OB, L, "api/logger_api.go", "internal/format_text.go", "internal/format_parser.go"],
  [("message of an event", "api/logger_api.go: Message"), ("record rendered before Send returns", OB+": asyncOutput.Send"), ("context of a writer", L+": WithFields")],
  ["records in the targets"],
  [("queue", "records rendered and not yet written", OB+": evtChan")])

p("C26", "A registered creator makes everything of its type from then on",
  "From the moment a creator for a type of outputs or formatters has been registered - a new type, or in place of a registered or built-in one - every output or formatter of that type created afterwards is made by it, from exactly the options the configuration gives; what exists already stays. Each name is made at most once. An output is given the formatter its configuration names before its first message and gets every message meant for it, as an event that stays as it is for as long as the output holds on to it; what the formatter returns is written by the built-in outputs as it is. If nobody registered a type, or its creator reports an error, the loggers concerned keep what they had, and the output is made as soon as a creator is registered or succeeds and the logger is configured again or first obtained. All this may happen while other goroutines log, obtain loggers and configure.",
  ["histories", "configurations", "schedules"],
  "every history of registering creators (own and replacing types, versions that fail), setting configurations and obtaining loggers, every option text, every sharing of outputs and formatters between loggers, and any goroutines logging meanwhile",
  "The tests register the built-in creators once, at the start; no test registers its own output or formatter, replaces a creator, or has one fail.",
  [M, F, "internal/log4g.go", OB, "api/logger_mange.go"],
  [("creators by type, under the manager's lock", M+": RegisterOutputCreator/RegisterFormatterCreator"), ("outputs and formatters made when first needed", M+": getOutput/getFormatter"), ("formatter handed to the output when it is made", M+": createOutput")],
  ["options given to creators", "formatter given to an output", "events reaching registered outputs", "bytes in files"],
  [("creators", "the creator registered last for each type", M+": outputCreators/formatterCreators"), ("instances", "outputs and formatters made, by name", M+": outputs/formats")])

p("C27", "Outputs do not disturb each other",
  "What an output writes, rolls, archives and removes depends only on the messages it gets, its own configuration and the time. Rolled files of either kind whose names resemble each other, in one directory, written from any goroutines at the same time, each leave exactly the current file, backups and archives - names, contents, permissions - that they would leave alone, and no temporary file. An output that cannot be opened, or whose archives cannot be put in place, takes nothing from the other outputs of its loggers, and stops no logging call.",
  ["configurations", "histories", "schedules"],
  "every set of outputs with limits, backups, archives, patterns, naming modes and permissions of their own, distinct files none of which is named like a backup or archive of another, every way in which loggers share them, and every order and overlap of messages and periods",
  "No test has two file outputs at once; every test of rolling has the directory to itself.",
  [RW, OR, OB, FS, "internal/archive", L],
  [("own state and lock per writer", RW+": rollingFileWriter"), ("temporary archives with names of their own", RW+": tempArchiveFile"), ("backups recognised by their exact name", RW+": hasRollName/isFileRollNameValid"), ("every output of a logger is called", L+": write")],
  ["the whole directory after every message or round of messages", "bytes in archives"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
