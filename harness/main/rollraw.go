package main

import (
	"encoding/json"
	"os"
	"runtime"
	"syscall"
	"time"
)

func init() { runtime.LockOSThread() }

// rollRaw writes and acknowledges each finished write with one byte, so that the
// process can be killed or its system calls made to fail from outside.
func rollRaw(script []byte) {
	runtime.LockOSThread()
	var h rollHist
	parse(script, &h)
	time.Sleep(secs(h.Start))
	syscall.Umask(h.Mask)
	if h.Cwd != "" {
		must(os.Chdir(h.Dir + "/" + h.Cwd))
	}
	o, err := newRolling(h.Cfg, h.Dir)
	must(err)
	ack := func(c byte) { syscall.Write(int(resultFile.Fd()), []byte{c}) }
	ack('S')
	for i := range h.Ops {
		op := &h.Ops[i]
		switch op.Op {
		case "write":
			if p := guard(func() { sendRun(o, op.Byte, op.Len) }); p != "" {
				bs, _ := json.Marshal(p)
				ack('P')
				resultFile.Write(bs)
				os.Exit(8)
			}
			ack('W')
		case "tick":
			time.Sleep(secs(op.Secs))
		}
	}
	ack('E')
	os.Exit(0)
}

func init() {
	modes["rollraw"] = func(script []byte) interface{} {
		rollRaw(script)
		return nil
	}
}
