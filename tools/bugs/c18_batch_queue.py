import os
T = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "parts", "demo_file.txt")).read()
ID = 'c18-batch-from-queue'
PROP = 'C18'
NEEDS = 'an asynchronous output with a queue smaller than its batch: the batch is cut to the size of the queue'
BREAKS = 'fewer records than batch_num are written together'
EDITS = [('internal/output_rolling.go', '\t\tr.Output = NewAsyncOutput(w, GetThresholdLvl(cfg["threshold"]),\n\t\t\tGetQueueSize(cfg["queue_size"]), GetBatchNum(cfg["batch_num"]))', '\t\t// no more than the queue can hold at once\n\t\tqueue, batch := GetQueueSize(cfg["queue_size"]), GetBatchNum(cfg["batch_num"])\n\t\tif batch > queue {\n\t\t\tbatch = queue\n\t\t}\n\t\tr.Output = NewAsyncOutput(w, GetThresholdLvl(cfg["threshold"]), queue, batch)')]
DEMO = T.replace("SETUP", "").replace("OUT", '{"name": "o", "type": "size_rolling_file", "format": "f", "file": "logs/a", "async": "true", "queue_size": "5", "batch_num": "10"}').replace("BODY", """for i := 0; i < 9; i++ {
		l.Error("x")
	}
	time.Sleep(time.Second)
	if bs, _ := ioutil.ReadFile("logs/a"); len(bs) != 0 {
		fmt.Printf("%q\\n", bs)
		os.Exit(1)
	}""").replace('"os"\n', '"os"\n\t"time"\n')
