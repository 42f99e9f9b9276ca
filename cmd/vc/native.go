package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif/engine"
)

// nativeRunner compiles the harness package natively from /repo's tree.
type nativeRunner struct {
	pkg  string
	dir  string
	bins map[string]string
}

func newNative(pkg string) *nativeRunner {
	d, _ := os.MkdirTemp("", "vcnative")
	return &nativeRunner{pkg: pkg, dir: d, bins: map[string]string{}}
}

func (n *nativeRunner) close() { os.RemoveAll(n.dir) }

var reFunc = regexp.MustCompile(`(?m)^func ((?:H|Setup)[A-Za-z0-9_]*)\(\) \{`)

func (n *nativeRunner) genMain() (string, error) {
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", n.pkg, "*.go"))
	var names []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		for _, m := range reFunc.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\th \"" + zzBase + n.pkg + "\"\n\t\"" + zzBase + "symrun\"\n)\n\nvar funcs = map[string]func(){\n")
	for _, x := range names {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", x, x)
	}
	sb.WriteString("}\n\nfunc main() { symrun.Main(funcs) }\n")
	p := filepath.Join(n.dir, "main.go")
	return p, os.WriteFile(p, []byte(sb.String()), 0o644)
}

// build compiles the runner; mode is "", "race" or "asan".
func (n *nativeRunner) build(mode string) error {
	if n.bins[mode] != "" {
		return nil
	}
	mp, err := n.genMain()
	if err != nil {
		return err
	}
	ov, err := overlayFor(n.pkg)
	if err != nil {
		return err
	}
	ov[filepath.Join(repoDir, "internal/zzverif/zzrun/main.go")] = mp
	op := filepath.Join(n.dir, "overlay.json")
	if err := engine.WriteOverlay(op, ov); err != nil {
		return err
	}
	bin := filepath.Join(n.dir, "run"+mode)
	args := []string{"build", "-overlay", op, "-o", bin}
	switch mode {
	case "race":
		args = append(args, "-race")
	case "asan":
		args = append(args, "-asan")
	case "checkptr":
		args = append(args, "-gcflags=all=-d=checkptr")
	}
	args = append(args, zzBase+"zzrun")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	if mode == "race" || mode == "asan" {
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	n.bins[mode] = bin
	return nil
}

type runReq struct {
	Func   string           `json:"func"`
	Setup  []string         `json:"setup"`
	Params map[string]int64 `json:"params"`
	Dirty  bool             `json:"dirty"`
	Repeat int              `json:"repeat"`
	Light  bool             `json:"light"`
	Cases  [][]uint64       `json:"cases"`
}

type runRes struct {
	Status string   `json:"status"` // ok, assume, assert, panic
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

// exec runs cases in one process; a crash is reported through err text.
func (n *nativeRunner) exec(mode string, rq runReq, timeout time.Duration) ([]runRes, string, bool) {
	b, _ := json.Marshal(rq)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bins[mode], "run")
	cmd.Stdin = bytes.NewReader(b)
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB", "ASAN_OPTIONS=detect_leaks=0", "GORACE=halt_on_error=1")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var rs []runRes
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "RES ") {
			var r runRes
			if json.Unmarshal([]byte(l[4:]), &r) == nil {
				rs = append(rs, r)
			}
		}
	}
	if ctx.Err() != nil {
		return rs, "timeout", true
	}
	if err != nil {
		e := se.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		return rs, strings.TrimSpace(e), true
	}
	return rs, "", false
}

func (r *jobResult) req() runReq {
	return runReq{Func: r.job.Func, Setup: r.job.Setup, Params: r.params, Repeat: 1}
}

// validate replays sampled path witnesses natively and compares observations.
func (n *nativeRunner) validate(r *jobResult) (int, []string) {
	if len(r.rep.Samples) == 0 {
		return 0, nil
	}
	rq := r.req()
	rq.Light = true
	for _, s := range r.rep.Samples {
		in := s.Inputs
		if in == nil {
			in = []uint64{}
		}
		rq.Cases = append(rq.Cases, in)
	}
	rs, crash, bad := n.exec("", rq, 120*time.Second)
	var out []string
	if bad {
		out = append(out, fmt.Sprintf("%s: native run crashed after %d cases: %s", r.job.Func, len(rs), crash))
	}
	ok := 0
	for i, x := range rs {
		s := r.rep.Samples[i]
		if x.Status != "ok" || strings.Join(x.Obs, ";") != strings.Join(s.Obs, ";") {
			out = append(out, fmt.Sprintf("%s inputs=%x: symbolic %v native %s %s %v", r.job.Func, s.Inputs, s.Obs, x.Status, x.Msg, x.Obs))
			continue
		}
		ok++
	}
	return ok, out
}

// confirm replays a candidate violation against the natively compiled code.
func (n *nativeRunner) confirm(r *jobResult, v *engine.Violation) (string, bool) {
	in := v.Inputs
	if in == nil {
		in = []uint64{}
	}
	rq := r.req()
	rq.Cases = [][]uint64{in}
	last := ""
	try := func(mode string, dirty bool, repeat int) bool {
		if err := n.build(mode); err != nil {
			last = mode + " build failed: " + err.Error()
			return false
		}
		rq.Dirty, rq.Repeat = dirty, repeat
		to := 20 * time.Second
		if mode != "" || repeat > 1 {
			to = 60 * time.Second
		}
		rs, crash, bad := n.exec(mode, rq, to)
		if bad {
			last = "crash: " + firstLines(crash, 6)
			if crash == "timeout" {
				last = "no termination within " + to.String()
			}
			return true
		}
		if len(rs) == 0 {
			last = "no result"
			return false
		}
		x := rs[len(rs)-1]
		last = x.Status + " " + x.Msg
		return x.Status == "assert" || x.Status == "panic"
	}
	if r.job.Fresh {
		for _, mode := range []string{"", "race"} {
			if mode == "" && v.Kind == "race" {
				continue
			}
			t0 := time.Now()
			for i := 0; i < 60 && time.Since(t0) < 40*time.Second; i++ {
				if try(mode, false, 90) {
					return last, true
				}
			}
		}
		return last, false
	}
	if try("", false, 1) || try("", true, 1) {
		return last, true
	}
	if r.job.Ord || v.Kind == "deadlock" || v.Kind == "race" {
		if try("", false, 3000) {
			return last, true
		}
	}
	if v.Kind == "memory" || v.Kind == "race" {
		if v.Kind == "memory" && try("asan", false, 1) {
			return last, true
		}
		if v.Kind == "memory" && try("checkptr", false, 1) {
			return last, true
		}
		if v.Kind == "race" && try("race", false, 500) {
			return last, true
		}
	}
	return last, false
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

type replayDoc struct {
	Property string           `json:"property"`
	Harness  string           `json:"harness"`
	Func     string           `json:"func"`
	Pkg      string           `json:"pkg"`
	Setup    []string         `json:"setup"`
	Params   map[string]int64 `json:"params"`
	Inputs   []uint64         `json:"inputs"`
	Kind     string           `json:"kind"`
	Msg      string           `json:"msg"`
	Trace    string           `json:"trace"`
	Native   string           `json:"native"`
	Ord      bool             `json:"ord"`
	Fresh    bool             `json:"fresh"`
	How      string           `json:"how"`
}

func writeReplay(path, id string, r *jobResult, v *engine.Violation, out string) {
	d := replayDoc{id, v.Harness, r.job.Func, r.job.Pkg, r.job.Setup, r.params, v.Inputs, v.Kind, v.Msg, v.Trace, out, r.job.Ord, r.job.Fresh,
		"bash /verif/run.sh replay " + path}
	b, _ := json.MarshalIndent(d, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		return 2
	}
	n := newNative(d.Pkg)
	defer n.close()
	if err := n.build(""); err != nil {
		fmt.Println(err)
		return 2
	}
	r := &jobResult{job: &Job{Pkg: d.Pkg, Func: d.Func, Setup: d.Setup, Ord: d.Ord, Fresh: d.Fresh}, params: d.Params}
	out, ok := n.confirm(r, &engine.Violation{Kind: d.Kind, Msg: d.Msg, Inputs: d.Inputs})
	fmt.Printf("%s %v: %s\n", d.Harness, d.Inputs, out)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.Property, path)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
