import os
T = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "parts", "demo_file.txt")).read()
ID = 'c18-permission-width'
PROP = 'C18'
NEEDS = "the permissions 0777, the largest there are"
BREAKS = "0777 is replaced by the default"
EDITS = [('internal/output_rolling.go', '\tif fm > 0777 {\n\t\tret = mode\n\t}', '\tif fm >= 0777 {\n\t\tret = mode\n\t}')]
DEMO = T.replace("SETUP", "").replace("OUT", '{"name": "o", "type": "size_rolling_file", "format": "f", "file": "logs/n/a", "dir_perm": "0777"}').replace("BODY", """l.Error("x")
	fi, err := os.Stat("logs/n")
	if err != nil || fi.Mode().Perm()&0700 != 0700 || fi.Mode().Perm()&0005 != 0005 {
		fmt.Println(fi.Mode(), err)
		os.Exit(1)
	}""")
