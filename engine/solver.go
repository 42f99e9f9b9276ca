package engine

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res uint8

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// SolverStats counts the work handed to the SMT solver.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown int64
	Asserts                      int64 // property assertion queries
	AssertUnsat                  int64
	CacheHits                    int64
	CrossChecked                 int64
	CrossDisagree                int64
	Time                         time.Duration
	Errors                       []string
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Asserts += o.Asserts
	s.AssertUnsat += o.AssertUnsat
	s.CacheHits += o.CacheHits
	s.CrossChecked += o.CrossChecked
	s.CrossDisagree += o.CrossDisagree
	s.Time += o.Time
	s.Errors = append(s.Errors, o.Errors...)
}

type solverProc struct {
	argv     []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[int]bool
	gen      *Builder
}

func (p *solverProc) start(timeoutMS int) error {
	argv := p.argv
	p.cmd = exec.Command(argv[0], argv[1:]...)
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	p.out = bufio.NewReaderSize(o, 1<<16)
	if err := p.cmd.Start(); err != nil {
		return err
	}
	p.declared = map[int]bool{}
	pre := "(set-option :produce-models true)\n"
	if strings.Contains(argv[0], "z3") {
		pre += fmt.Sprintf("(set-option :timeout %d)\n", timeoutMS)
	}
	pre += "(set-logic QF_BV)\n"
	_, err = io.WriteString(p.in, pre)
	return err
}

func (p *solverProc) kill() {
	if p.cmd != nil && p.cmd.Process != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	p.cmd = nil
}

// Solver decides satisfiability of conjunctions over one Builder's terms.
type Solver struct {
	b         *Builder
	main      *solverProc
	cross     *solverProc
	crossAll  bool
	TimeoutMS int
	Stats     SolverStats
	cache     map[string]cacheEnt
	widths    []uint8
}

type cacheEnt struct {
	r     Res
	model []uint64
	vars  []int
}

func NewSolver(b *Builder, mainArgv, crossArgv []string, timeoutMS int) *Solver {
	s := &Solver{b: b, TimeoutMS: timeoutMS, cache: map[string]cacheEnt{}}
	s.main = &solverProc{argv: mainArgv}
	if len(crossArgv) > 0 {
		s.cross = &solverProc{argv: crossArgv}
	}
	return s
}

func (s *Solver) Close() {
	s.main.kill()
	if s.cross != nil {
		s.cross.kill()
	}
}

func (s *Solver) script(p *solverProc, body string, vars []int, want bool) (Res, []uint64, error) {
	if p.cmd == nil || p.gen != s.b {
		p.kill()
		if err := p.start(s.TimeoutMS); err != nil {
			return Unknown, nil, err
		}
		p.gen = s.b
	}
	var sb strings.Builder
	for _, i := range vars {
		if p.declared[i] {
			continue
		}
		p.declared[i] = true
		if w := s.b.vt.width(i); w == 0 {
			fmt.Fprintf(&sb, "(declare-const %s Bool)\n", s.b.smtVar(i))
		} else {
			fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", s.b.smtVar(i), w)
		}
	}
	sb.WriteString("(push 1)\n")
	sb.WriteString(body)
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(p.in, sb.String()); err != nil {
		p.kill()
		return Unknown, nil, err
	}
	line, err := p.out.ReadString('\n')
	if err != nil {
		p.kill()
		return Unknown, nil, fmt.Errorf("solver died: %v", err)
	}
	line = strings.TrimSpace(line)
	var r Res
	switch line {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
		r = Unknown
	default:
		p.kill()
		return Unknown, nil, fmt.Errorf("solver said %q for:\n%s", line, body)
	}
	var model []uint64
	if r == Sat && want && len(vars) > 0 {
		sb.Reset()
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(s.b.smtVar(v))
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		if _, err := io.WriteString(p.in, sb.String()); err != nil {
			p.kill()
			return Unknown, nil, err
		}
		txt, err := readSexp(p.out)
		if err != nil {
			p.kill()
			return Unknown, nil, err
		}
		model, err = parseModel(txt, len(vars))
		if err != nil {
			p.kill()
			return Unknown, nil, fmt.Errorf("%v: %s", err, txt)
		}
	}
	if _, err := io.WriteString(p.in, "(pop 1)\n"); err != nil {
		p.kill()
	}
	return r, model, nil
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		c, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				r.ReadString('\n')
				return sb.String(), nil
			}
		} else if depth == 0 && c != ' ' && c != '\n' && c != '\r' {
			return sb.String(), fmt.Errorf("unexpected solver output")
		}
	}
}

func parseModel(t string, n int) ([]uint64, error) {
	if strings.HasPrefix(strings.TrimSpace(t), "(error") {
		return nil, fmt.Errorf("solver error")
	}
	var out []uint64
	f := strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '(' || r == ')' || r == '\n' || r == '\r' })
	for i := 0; i+1 < len(f); i += 2 {
		v := f[i+1]
		var x uint64
		var err error
		switch {
		case strings.HasPrefix(v, "#x"):
			x, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "true":
			x = 1
		case v == "false":
		case v == "_": // (_ bvN w)
			x, err = strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
			i += 2
		default:
			return nil, fmt.Errorf("bad model value %q", v)
		}
		if err != nil {
			return nil, err
		}
		out = append(out, x)
	}
	if len(out) != n {
		return nil, fmt.Errorf("model size %d want %d", len(out), n)
	}
	return out, nil
}

// Check decides the conjunction cs. On Sat it returns values for vars (ids, in
// increasing order) occurring in cs. prop marks a property assertion query.
func (s *Solver) Check(cs []*Expr, prop bool) (Res, []int, []uint64) {
	ids := make([]uint32, len(cs))
	var vs *varset
	for i, c := range cs {
		ids[i] = c.id
		vs = unionVars(vs, c.vars)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	kb := make([]byte, 0, len(ids)*4)
	for _, id := range ids {
		kb = append(kb, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	key := string(kb)
	if prop {
		s.Stats.Asserts++
	}
	if ce, ok := s.cache[key]; ok && !prop {
		s.Stats.CacheHits++
		return ce.r, ce.vars, ce.model
	}
	var vars []int
	if vs != nil {
		for wi, x := range vs.ids {
			for x != 0 {
				i := bits.TrailingZeros64(x)
				vars = append(vars, wi*64+i)
				x &= x - 1
			}
		}
	}
	var sb strings.Builder
	for _, c := range cs {
		sb.WriteString("(assert ")
		s.b.SMT(&sb, c)
		sb.WriteString(")\n")
	}
	t0 := time.Now()
	r, model, err := s.script(s.main, sb.String(), vars, true)
	if err != nil {
		s.Stats.Errors = append(s.Stats.Errors, err.Error())
		r = Unknown
	}
	if s.cross != nil && (prop || s.crossAll) {
		r2, _, err2 := s.script(s.cross, sb.String(), vars, false)
		if err2 != nil {
			s.Stats.Errors = append(s.Stats.Errors, "cross: "+err2.Error())
		} else if r2 != Unknown {
			s.Stats.CrossChecked++
			if r != Unknown && r != r2 {
				s.Stats.CrossDisagree++
				s.Stats.Errors = append(s.Stats.Errors, fmt.Sprintf("solvers disagree (%v/%v) on:\n%s", r, r2, sb.String()))
				r = Unknown
			}
		}
	}
	s.Stats.Time += time.Since(t0)
	s.Stats.Queries++
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
		if prop {
			s.Stats.AssertUnsat++
		}
	default:
		s.Stats.Unknown++
	}
	if r != Unknown {
		s.cache[key] = cacheEnt{r, model, vars}
	}
	return r, vars, model
}
