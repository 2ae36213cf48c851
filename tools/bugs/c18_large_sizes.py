import os
T = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "parts", "demo_file.txt")).read()
ID = 'c18-large-sizes'
PROP = 'C18'
NEEDS = 'a size limit of 2 GiB or more: the number of bytes is computed in 32 bits'
BREAKS = 'limits from 2 GiB on become negative or small, and the file is rolled far too early'
EDITS = [('internal/output_rolling.go', '\t\treturn int64(size * 1024 * 1024 * 1024)', '\t\treturn int64(int32(size) << 30)'), ('internal/output_rolling.go', '\t\treturn int64(size * 1024 * 1024)', '\t\treturn int64(int32(size) << 20)'), ('internal/output_rolling.go', '\t\treturn int64(size * 1024)', '\t\treturn int64(int32(size) << 10)')]
DEMO = T.replace("SETUP", "").replace("OUT", '{"name": "o", "type": "size_rolling_file", "format": "f", "file": "logs/a", "size": "4G"}').replace("BODY", """l.Error("x")
	l.Error("y")
	if bs, _ := ioutil.ReadFile("logs/a"); string(bs) != "xy" {
		fmt.Printf("%q\\n", bs)
		os.Exit(1)
	}""")
