package zzsym

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
)

type caseRec struct {
	Harness string    `json:"harness"`
	Values  []NDVal   `json:"values"`
	Sched   []SchedEv `json:"sched"`
}

type resRec struct {
	Kind string   `json:"kind"`
	Msg  string   `json:"msg"`
	Out  []string `json:"out"`
}

// Bound picks a bound by tier.
func Bound(quick, thorough int) int {
	if os.Getenv("ZZSYM_TIER") == "thorough" {
		return thorough
	}
	return quick
}

// RunCases is the native driver: replay each recorded case.
func RunCases(hs map[string]func()) {
	data, err := os.ReadFile(os.Getenv("ZZSYM_CASES"))
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Getenv("ZZSYM_OUT"))
	if err != nil {
		panic(err)
	}
	var cs []caseRec
	if err := json.Unmarshal(data, &cs); err != nil {
		panic(err)
	}
	for _, c := range cs {
		onResult = func(kind, msg string) {
			b, _ := json.Marshal(resRec{Kind: kind, Msg: msg, Out: Out})
			out.Write(append(b, '\n'))
		}
		if len(c.Sched) > 0 {
			startSched(c.Sched)
		}
		r := runCase(hs[c.Harness], c.Values)
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
		if len(c.Sched) > 0 {
			out.Close()
			if failed(r.Kind) {
				os.Exit(3)
			}
			return // the other goroutines are left where they are
		}
	}
	out.Close()
}

func failed(k string) bool { return k != "ok" && k != "assume" && k != "diverged" }

func runCase(f func(), v []NDVal) (r resRec) {
	defer func() {
		r.Out = Out
		if x := recover(); x != nil {
			if s, ok := x.(Stop); ok {
				r.Kind, r.Msg = s.Kind, s.Msg
				return
			}
			r.Kind = "panic"
			r.Msg = fmt.Sprint(x) + "\n" + trimStack(string(debug.Stack()))
		}
	}()
	if f == nil {
		return resRec{Kind: "diverged", Msg: "no such harness"}
	}
	Load(v)
	f()
	return resRec{Kind: "ok"}
}

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}
