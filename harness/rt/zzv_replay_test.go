package HARNESS

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime/debug"
	"testing"
)

type vCase struct {
	Fn     string
	Params map[string]string
	Inputs map[string]uint64
}

type vResult struct {
	I      int
	Status string // ok, assert, panic, stop
	Msg    string
	Obs    []string
	Covers []string
	Stack  string
}

func TestVReplay(t *testing.T) {
	inF := os.Getenv("VERIF_REPLAY")
	if inF == "" {
		t.Skip()
	}
	debug.SetMaxStack(256 << 20)
	b, err := ioutil.ReadFile(inF)
	if err != nil {
		t.Fatal(err)
	}
	var cs []vCase
	if err := json.Unmarshal(b, &cs); err != nil {
		t.Fatal(err)
	}
	of, err := os.Create(os.Getenv("VERIF_REPLAY_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(of)
	for i := range cs {
		r := vReplayOne(&cs[i])
		r.I = i
		j, _ := json.Marshal(r)
		fmt.Fprintf(w, "%s\n", j)
		w.Flush()
	}
	of.Close()
}

func vReplayOne(c *vCase) (r vResult) {
	f := vTable[c.Fn]
	if f == nil {
		return vResult{Status: "missing", Msg: c.Fn}
	}
	dir, err := ioutil.TempDir("", "verif-replay")
	if err != nil {
		return vResult{Status: "missing", Msg: err.Error()}
	}
	vcur = &vRun{in: c.Inputs, params: c.Params, ctr: map[string]int{}, dir: dir}
	defer func() {
		e := recover()
		if vcur.out != nil {
			os.Stdout = vcur.oldOut
			vcur.out.Close()
		}
		os.RemoveAll(dir)
		r.Obs = vcur.obs
		r.Covers = vcur.covers
		switch x := e.(type) {
		case nil:
			r.Status = "ok"
		case vStopT:
			r.Status, r.Msg = "stop", x.why
		case vFailT:
			r.Status, r.Msg = "assert", x.msg
		default:
			r.Status, r.Msg = "panic", fmt.Sprint(e)
			r.Stack = string(debug.Stack())
		}
	}()
	f()
	return
}
