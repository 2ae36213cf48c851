package main

import (
	"io/ioutil"
	"os"
	"strconv"
	"testing"
	"testing/synctest"

	"github.com/xtfly/log4g"
)

var clockModes = map[string]func(t *testing.T, script []byte) interface{}{}

func TestZZClock(t *testing.T) {
	fd, _ := strconv.Atoi(os.Getenv("VERIF_FD"))
	resultFile = os.NewFile(uintptr(fd), "result")
	f, ok := clockModes[os.Getenv("VERIF_MODE")]
	if !ok {
		t.Fatal("unknown mode")
	}
	script, err := ioutil.ReadAll(os.Stdin)
	must(err)
	emit(f(t, script))
}

func init() {
	clockModes["rollraw"] = func(t *testing.T, script []byte) interface{} {
		synctest.Test(t, func(t *testing.T) { rollRaw(script) })
		return nil
	}
	clockModes["async"] = func(t *testing.T, script []byte) interface{} {
		var hs []asyncHist
		parse(script, &hs)
		res := make([][]*asyncObs, len(hs))
		for i := range hs {
			synctest.Test(t, func(t *testing.T) {
				res[i] = runAsyncHist(&hs[i], func(_ int, obs func() *asyncObs) *asyncObs { synctest.Wait(); return obs() })
			})
		}
		return res
	}
	clockModes["options"] = func(t *testing.T, script []byte) (res interface{}) {
		synctest.Test(t, func(t *testing.T) {
			res = runOptions(script, synctest.Wait)
			log4g.GetManager().Close()
		})
		return res
	}
	clockModes["neighbours"] = func(t *testing.T, script []byte) (res interface{}) {
		synctest.Test(t, func(t *testing.T) { res = runNeighbours(script) })
		return res
	}
	clockModes["roll"] = func(t *testing.T, script []byte) interface{} {
		var hs []rollHist
		parse(script, &hs)
		res := make([]rollRes, len(hs))
		settle = synctest.Wait
		for i := range hs {
			synctest.Test(t, func(t *testing.T) { res[i] = runRollHist(&hs[i]) })
			os.RemoveAll(hs[i].Dir)
		}
		return res
	}
}
