package vxlisp

// Native bodies of the harness primitives.  The symbolic engine replaces them; in a replay
// they hand out the recorded values in the order they are asked for.

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type vxVal struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type vxCase struct {
	Fn     string         `json:"fn"`
	Params map[string]int `json:"params"`
	Vals   []vxVal        `json:"vals"`
	Repeat int            `json:"repeat"`
}

type vxOutcome struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

type vxStop struct{ status, label string }

type vxState struct {
	c      *vxCase
	pos    int
	obs    []string
	covers []string
	dir    string
}

var vxCur *vxState

func vxNext(name string) int64 {
	if vxCur.pos >= len(vxCur.c.Vals) {
		panic(vxStop{"drift", "more values wanted: " + name})
	}
	v := vxCur.c.Vals[vxCur.pos]
	vxCur.pos++
	if v.Name != name {
		panic(vxStop{"drift", "wanted " + name + ", recorded " + v.Name})
	}
	return v.Val
}

func vxSymbolic() bool                      { return false }
func vxByte(name string) byte               { return byte(vxNext(name)) }
func vxByteIn(name string, set string) byte { return byte(vxNext(name)) }
func vxInt(name string, lo, hi int) int     { return int(vxNext(name)) }
func vxBool(name string) bool               { return vxNext(name) == 1 }
func vxChoice(name string, n int) int       { return int(vxNext(name)) }
func vxConcrete(s string) string            { return s }
func vxTrace(s string)                      {}
func vxMapOrder(n int)                      {}
func vxKnown(id string, cond bool)          {}
func vxParam(name string) int               { return vxCur.c.Params[name] }
func vxCover(label string)                  { vxCur.covers = append(vxCur.covers, label) }
func vxObserve(label string, s string) {
	vxCur.obs = append(vxCur.obs, strconv.QuoteToASCII(label+"="+s))
}

func vxAssume(b bool) {
	if !b {
		panic(vxStop{"assume", ""})
	}
}

func vxAssert(b bool, label string) {
	if !b {
		panic(vxStop{"fail", label})
	}
}

func vxTempDir() string {
	d, err := os.MkdirTemp("", "vxverif")
	if err != nil {
		panic(vxStop{"drift", err.Error()})
	}
	vxCur.dir = d
	return d
}

// vxStr is a text of n symbolic bytes.
func vxStr(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vxByte(name)
	}
	return string(b)
}

// vxStrIn is a text of n symbolic characters out of set.
func vxStrIn(name string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = vxByteIn(name, set)
	}
	return string(b)
}

// vxPick is one of the given texts.
func vxPick(name string, texts ...string) string {
	return texts[vxChoice(name, len(texts))]
}

func vxRun(c *vxCase) (o vxOutcome) {
	st := &vxState{c: c}
	vxCur = st
	defer func() {
		if st.dir != "" {
			os.Chdir("/")
			os.RemoveAll(st.dir)
		}
		o.Obs, o.Covers = st.obs, st.covers
		if r := recover(); r != nil {
			if s, ok := r.(vxStop); ok {
				o.Status, o.Label = s.status, s.label
				return
			}
			o.Status = "panic"
			o.Label = fmt.Sprint(r)
		}
	}()
	f := vxHarness[c.Fn]
	if f == nil {
		return vxOutcome{Status: "drift", Label: "no harness " + c.Fn}
	}
	f()
	return vxOutcome{Status: "ok"}
}

func vxRead(s string) (*vxtextblock, *vxmsgblock) {
	return TextblockParse(NewTextblockFromText(s))
}

var vxHarness = map[string]func(){}

// VerifMain replays the cases of a file and prints one outcome per case.
func VerifMain() {
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var cases []*vxCase
	if err := json.Unmarshal(b, &cases); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, c := range cases {
		n := c.Repeat
		if n < 1 {
			n = 1
		}
		var o vxOutcome
		for i := 0; i < n; i++ {
			done := make(chan vxOutcome, 1)
			go func() { done <- vxRun(c) }()
			select {
			case o = <-done:
			case <-time.After(15 * time.Second):
				o = vxOutcome{Status: "timeout"}
			}
			if o.Status != "ok" {
				break
			}
		}
		j, _ := json.Marshal(o)
		os.Stdout.WriteString("\n@@" + string(j) + "\n")
		if o.Status == "timeout" {
			os.Exit(0)
		}
	}
}

var _ = strings.Index
