package symrun

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strings"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

type req struct {
	Func   string           `json:"func"`
	Setup  []string         `json:"setup"`
	Params map[string]int64 `json:"params"`
	Dirty  bool             `json:"dirty"`
	Repeat int              `json:"repeat"`
	Light  bool             `json:"light"`
	Cases  [][]uint64       `json:"cases"`
}

type res struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

// Main runs recorded witnesses natively.
func Main(funcs map[string]func()) {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	var q req
	if err := json.Unmarshal(b, &q); err != nil {
		os.Exit(3)
	}
	f := funcs[q.Func]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", q.Func)
		os.Exit(3)
	}
	sym.Light = q.Light
	debug.SetMaxStack(512 << 20)
	sym.Start(nil, q.Params)
	for _, s := range q.Setup {
		funcs[s]()
	}
	if q.Repeat < 1 {
		q.Repeat = 1
	}
	for _, c := range q.Cases {
		var r res
		for k := 0; k < q.Repeat; k++ {
			if q.Dirty {
				sym.Dirty()
			}
			r = one(f, c, q.Params)
			if r.Status == "assert" || r.Status == "panic" {
				break
			}
		}
		o, _ := json.Marshal(r)
		fmt.Println("RES " + string(o))
	}
	sym.Clean()
}

func one(f func(), in []uint64, ps map[string]int64) (r res) {
	defer func() {
		x := recover()
		r.Obs = sym.Observations()
		switch x := x.(type) {
		case nil:
		case sym.AssertFail:
			r.Status, r.Msg = "assert", x.Msg
		case sym.AssumeFail:
			r.Status = "assume"
		default:
			r.Status = "panic"
			r.Msg = fmt.Sprint(x)
			st := strings.Split(string(debug.Stack()), "\n")
			for i, l := range st {
				if strings.Contains(l, "panic(") && i+3 < len(st) {
					r.Msg += " @ " + strings.TrimSpace(st[i+2]) + " " + strings.TrimSpace(st[i+3])
					break
				}
			}
		}
	}()
	sym.Start(in, ps)
	r.Status = "ok"
	f()
	return
}
