ID, PROP = 'c25-pooled-buffer', 'C25'
NEEDS = 'two records waiting in the queue of an asynchronous output at the same time'
BREAKS = 'the buffer a record was rendered into is reused while the record waits in the queue'
EDITS = [('internal/format_text.go', 'import (\n\t"bytes"\n', 'import (\n\t"bytes"\n\t"sync"\n'),
 ('internal/format_text.go', '\tvar buf bytes.Buffer\n\tf.strFormatter.Format(e, &buf)\n\treturn buf.Bytes()\n', '\tbuf := bufs.Get().(*bytes.Buffer)\n\tdefer bufs.Put(buf)\n\tbuf.Reset()\n\tf.strFormatter.Format(e, buf)\n\treturn buf.Bytes()\n'),
 ('internal/format_text.go', '// Format a logger event to byte array\n', 'var bufs = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\n// Format a logger event to byte array\n')]
DEMO = r'''package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

type slow struct {
	open chan bool
	text string
}

func (s *slow) Write(p []byte) (int, error) {
	<-s.open
	s.text += string(p)
	return len(p), nil
}

func main() {
	w := &slow{open: make(chan bool)}
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}\n"})
	if err != nil {
		panic(err)
	}
	o := internal.NewAsyncOutput(w, api.All, 100, 1)
	o.SetFormatter(f)
	want := ""
	for i := 0; i < 50; i++ {
		o.Send(&api.Event{Time: time.Now(), Format: "message %d", Arguments: []interface{}{i}, Level: api.Info, Ctx: context.Background()})
		want += fmt.Sprintf("message %d\n", i)
	}
	close(w.open)
	o.Close()
	if w.text != want {
		fmt.Println(w.text)
		os.Exit(1)
	}
}
'''
