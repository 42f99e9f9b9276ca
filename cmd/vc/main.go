// Command vc runs the solver-based checks of /verif against /repo.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/engine"
)

const (
	modPath = "github.com/cloudwego/prutal"
	zzBase  = modPath + "/internal/zzverif/"
)

var (
	verifDir = envOr("VERIF_DIR", "/verif")
	repoDir  = envOr("VERIF_REPO", "/repo")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Job is one harness explored under one set of bounds.
type Job struct {
	Pkg   string // harness package: codec, gen, ...
	Func  string
	Setup []string
	Q, T  []map[string]int64 // parameter sets per tier (T nil: same as Q)
	Lim   func(*engine.Limits)
	Reach []string
	Scope string // what the harness covers and its bounds, for the evidence
	Ord   bool   // outcome may depend on map order or schedule: repeat replays
	Fresh bool   // what is replayed only happens once per process: repeat in many processes
	Sec   int    // time cap per parameter set in seconds (quick)
}

// Prop is one property's check.
type Prop struct {
	ID          string
	Title       string
	Jobs        []Job
	Assumptions []string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vc check ID quick|thorough | vc replay FILE | vc list | vc run PKG.FUNC k=v...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID, p.Title)
		}
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier == "" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "run":
		os.Exit(runOne(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

func inScope(s string) bool {
	return strings.HasPrefix(s, modPath) && !strings.Contains(s, "/zzverif/")
}

// overlayFor maps harness sources into the repository tree.
func overlayFor(pkg string) (map[string]string, error) {
	m := map[string]string{}
	for _, d := range append([]string{"sym", "ref", "symrun"}, pkg) {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", d, "*.go"))
		for _, f := range fs {
			m[filepath.Join(repoDir, "internal/zzverif", d, filepath.Base(f))] = f
		}
	}
	// files injected into the packages under check (exported access only)
	root := filepath.Join(verifDir, "harness", "inject", pkg)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			m[filepath.Join(repoDir, rel)] = p
		}
		return nil
	})
	return m, nil
}

func load(pkg string) (*engine.Program, error) {
	ov, err := overlayFor(pkg)
	if err != nil {
		return nil, err
	}
	return engine.Load(engine.LoadConfig{Dir: repoDir, Overlay: ov, Patterns: []string{zzBase + pkg}, SymPath: zzBase + "sym",
		InScope: inScope, Env: os.Environ()})
}

type jobResult struct {
	job    *Job
	params map[string]int64
	rep    *engine.Report
	funcs  []string
}

func setups(j *Job) []string {
	var out []string
	for _, s := range j.Setup {
		out = append(out, zzBase+j.Pkg+"."+s)
	}
	return out
}

func exploreJob(base *engine.Program, j *Job, params map[string]int64, tier string, cross bool) (*jobResult, error) {
	p := base.Fresh()
	if err := p.Boot([]string{zzBase + j.Pkg}, setups(j), params); err != nil {
		return nil, err
	}
	lim := engine.DefaultLimits()
	if j.Lim != nil {
		j.Lim(&lim)
	}
	if v, ok := params["sw"]; ok {
		lim.MaxSwitch = int(v)
	}
	sec := j.Sec
	if sec == 0 {
		sec = 40
	}
	if tier == "thorough" {
		sec *= 4
	}
	opt := engine.Options{Harness: j.Pkg + "." + j.Func, Lim: lim, Params: params, Main: []string{"z3-new", "-in"}, TimeoutMS: 20000,
		Samples: 40, Deadline: time.Now().Add(time.Duration(sec) * time.Second)}
	if v := os.Getenv("VC_WORKERS"); v != "" {
		opt.Workers, _ = strconv.Atoi(v)
	}
	if cross {
		opt.Cross = []string{"cvc5", "--incremental", "--produce-models", "--tlimit-per=20000"}
	}
	rep, err := p.Explore(zzBase+j.Pkg, j.Func, opt)
	if err != nil {
		return nil, err
	}
	return &jobResult{job: j, params: params, rep: rep, funcs: p.HitFunctions()}, nil
}

func findProp(id string) *Prop {
	for i := range props {
		if props[i].ID == id {
			return &props[i]
		}
	}
	return nil
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness,omitempty"`
	Msg      string `json:"msg,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func knownFindings() []finding {
	var out []finding
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil && f.Status == "known" {
			out = append(out, f)
		}
	}
	return out
}

func check(id, tier string) int {
	pr := findProp(id)
	if pr == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cross := tier == "thorough" || os.Getenv("VC_CROSS") != ""
	var results []*jobResult
	progs := map[string]*engine.Program{}
	native := map[string]*nativeRunner{}
	nerr := map[string]chan error{}
	for i := range pr.Jobs {
		pk := pr.Jobs[i].Pkg
		if native[pk] == nil {
			n := newNative(pk)
			native[pk] = n
			ch := make(chan error, 1)
			nerr[pk] = ch
			go func() { ch <- n.build("") }()
		}
	}
	defer func() {
		for _, n := range native {
			n.close()
		}
	}()
	for i := range pr.Jobs {
		j := &pr.Jobs[i]
		p := progs[j.Pkg]
		if p == nil {
			var err error
			if p, err = load(j.Pkg); err != nil {
				fmt.Println("load failed:", err)
				return 2
			}
			progs[j.Pkg] = p
		}
		sets := j.Q
		if tier == "thorough" && j.T != nil {
			sets = j.T
		}
		if sets == nil {
			sets = []map[string]int64{{}}
		}
		for _, ps := range sets {
			r, err := exploreJob(p, j, ps, tier, cross)
			if err != nil {
				fmt.Println("explore failed:", j.Func, err)
				return 2
			}
			results = append(results, r)
			fmt.Printf("%s %s %v: paths=%v pending=%d asserts=%d queries=%d wall=%.1fs\n", id, j.Func, ps, r.rep.Paths, r.rep.Pending, r.rep.Asserts, r.rep.Solver.Queries, r.rep.Wall.Seconds())
		}
	}
	for pk, ch := range nerr {
		if err := <-ch; err != nil {
			fmt.Println("native build failed:", pk, err)
			return 2
		}
	}
	// translator validation
	validated, mismatches := 0, []string{}
	var vmu sync.Mutex
	var vwg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, r := range results {
		r := r
		vwg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; vwg.Done() }()
			n, bad := native[r.job.Pkg].validate(r)
			vmu.Lock()
			validated += n
			mismatches = append(mismatches, bad...)
			vmu.Unlock()
		}()
	}
	vwg.Wait()
	sort.Strings(mismatches)
	// replay candidate violations
	kf := knownFindings()
	type known struct{ f finding }
	knownHit := map[string]finding{}
	nviol, unconfirmed := 0, []string{}
	printed := map[string]bool{}
	rdir := filepath.Join(verifDir, "evidence", "replay")
	for _, r := range results {
		cands := append(append([]*engine.Violation(nil), r.rep.Violations...), r.rep.Hangs...)
		for _, v := range cands {
			vkey := v.Harness + "|" + v.Kind + "|" + v.Msg
			if printed[vkey] {
				continue
			}
			isKnown := false
			for _, f := range kf {
				if f.Property == id && f.Harness == v.Harness && f.Msg == v.Msg {
					knownHit[f.Msg] = f
					isKnown = true
				}
			}
			if isKnown {
				continue
			}
			out, confirmed := native[r.job.Pkg].confirm(r, v)
			if !confirmed {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s: %s (native: %s) inputs=%x", v.Harness, v.Kind, v.Msg, out, v.Inputs))
				continue
			}
			printed[vkey] = true
			nviol++
			os.MkdirAll(rdir, 0o755)
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, nviol))
			writeReplay(path, id, r, v, out)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  %s %s: %s\n  native replay: %s\n  inputs=%x\n", v.Harness, v.Kind, v.Msg, out, v.Inputs)
		}
	}
	var kk []string
	for m := range knownHit {
		kk = append(kk, m)
	}
	sort.Strings(kk)
	for _, m := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, knownHit[m].What)
	}
	for _, m := range mismatches {
		fmt.Println("VALIDATION-MISMATCH:", m)
	}
	for _, m := range unconfirmed {
		fmt.Println("UNCONFIRMED:", m)
	}
	for _, r := range results {
		for _, t := range r.job.Reach {
			if r.rep.Reached[t] == 0 {
				fmt.Println("VACUITY:", r.job.Func, "never reached", t)
			}
		}
		for _, n := range r.rep.TopNotes(4) {
			fmt.Println("NOTE:", r.job.Func, n)
		}
		for i, e := range r.rep.Solver.Errors {
			if i < 3 {
				fmt.Println("SOLVER:", e)
			}
		}
	}
	writeEvidence(pr, tier, seed, results, validated, mismatches, unconfirmed, kk, nviol, time.Since(t0), cross)
	strict := os.Getenv("VC_STRICT") != ""
	if nviol > 0 {
		return 1
	}
	if strict && (len(mismatches) > 0 || len(unconfirmed) > 0) {
		return 3
	}
	fmt.Printf("OK property=%s tier=%s wall=%.1fs validated=%d\n", id, tier, time.Since(t0).Seconds(), validated)
	return 0
}

func runOne(args []string) int {
	name := args[0]
	i := strings.IndexByte(name, '.')
	j := &Job{Pkg: name[:i], Func: name[i+1:]}
	// reuse registered setup and limits
	for _, p := range props {
		for k := range p.Jobs {
			if p.Jobs[k].Pkg == j.Pkg && p.Jobs[k].Func == j.Func {
				*j = p.Jobs[k]
			}
		}
	}
	ps := map[string]int64{}
	for _, a := range args[1:] {
		kv := strings.SplitN(a, "=", 2)
		if kv[0] == "setup" {
			j.Setup = append(j.Setup, kv[1])
			continue
		}
		ps[kv[0]], _ = strconv.ParseInt(kv[1], 10, 64)
	}
	p, err := load(j.Pkg)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r, err := exploreJob(p, j, ps, "quick", os.Getenv("VC_CROSS") != "")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rep := r.rep
	fmt.Printf("paths=%v pending=%d forks=%d asserts=%d steps=%d reached=%v unkBr=%d unkAssert=%d wall=%v\n", rep.Paths, rep.Pending, rep.Forks, rep.Asserts, rep.Steps, rep.Reached, rep.UnknownBr, rep.AssertUnk, rep.Wall)
	s := rep.Solver
	fmt.Printf("solver: q=%d sat=%d unsat=%d unk=%d prop=%d propUnsat=%d cache=%d time=%v cross=%d/%d\n", s.Queries, s.Sat, s.Unsat, s.Unknown, s.Asserts, s.AssertUnsat, s.CacheHits, s.Time, s.CrossChecked, s.CrossDisagree)
	for _, n := range rep.TopNotes(8) {
		fmt.Println("NOTE", n)
	}
	for i, e := range s.Errors {
		if i < 3 {
			fmt.Println("SOLVER", e)
		}
	}
	n := newNative(j.Pkg)
	defer n.close()
	if err := n.build(""); err != nil {
		fmt.Println("native build:", err)
		return 2
	}
	k, bad := n.validate(r)
	fmt.Println("validated", k, "mismatch", len(bad))
	for i, b := range bad {
		if i < 5 {
			fmt.Println("  MISMATCH", b)
		}
	}
	seen := map[string]bool{}
	for _, v := range append(append([]*engine.Violation(nil), rep.Violations...), rep.Hangs...) {
		if seen[v.Kind+v.Msg] {
			continue
		}
		seen[v.Kind+v.Msg] = true
		out, ok := n.confirm(r, v)
		fmt.Printf("CAND %s: %s inputs=%x confirmed=%v native=%s\n%s\n", v.Kind, v.Msg, v.Inputs, ok, out, v.Trace)
	}
	return 0
}
