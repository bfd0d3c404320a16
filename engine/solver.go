package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver is one incremental SMT process. The assertion stack is kept in step
// with the longest common prefix of consecutive path conditions.
type Solver struct {
	f        *TermFactory
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	declared map[int]bool
	defined  map[int]bool
	heavy    map[int]bool
	timeout  int // ms
	log      *os.File

	queries   int
	sat       int
	unsat     int
	unknown   int
	errors    int
	time      time.Duration
	maxQ      time.Duration
	maxTries  int
	deadline  time.Time
	name      string
	args      []string
	restarts  int
	defsCount int
}

func NewSolver(f *TermFactory, timeoutMs int) *Solver {
	s := &Solver{f: f, timeout: timeoutMs, heavy: map[int]bool{}, name: "z3-new", args: []string{"-in", "-smt2"}}
	if e := os.Getenv("SYMGO_SOLVER"); e != "" {
		p := strings.Fields(e)
		s.name, s.args = p[0], p[1:]
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.declared = map[int]bool{}
	s.defined = map[int]bool{}
	s.defsCount = 0
	s.cmd = exec.Command(s.name, s.args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	if p := os.Getenv("SYMGO_SMTLOG"); p != "" && s.log == nil {
		s.log, _ = os.Create(fmt.Sprintf("%s.%d", p, s.cmd.Process.Pid))
	}
	if strings.Contains(s.name, "z3") {
		s.w(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	}
	s.w("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic ALL)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.restarts++
	s.start()
}

func (s *Solver) w(str string) {
	s.in.WriteString(str)
	if s.log != nil {
		s.log.WriteString(str)
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t)
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

// needs collects undefined subterms in dependency order
func (s *Solver) collect(t *Term, out *[]*Term, seen map[int]bool) {
	if seen[t.id] || t.op == OConst {
		return
	}
	if t.op == OVar {
		if s.declared[t.id] {
			return
		}
	} else if s.defined[t.id] {
		return
	}
	seen[t.id] = true
	for _, a := range t.args {
		s.collect(a, out, seen)
	}
	*out = append(*out, t)
}

func (s *Solver) defText(t *Term) string {
	var sb strings.Builder
	n := "t" + strconv.Itoa(t.id)
	end := ")\n"
	if s.isHeavy(t) {
		sb.WriteString("(define-fun " + n + " () " + t.sort.smt() + " ")
	} else {
		sb.WriteString("(declare-const " + n + " " + t.sort.smt() + ")\n(assert (= " + n + " ")
		end = "))\n"
	}
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.c>>8, t.c&0xff, s.ref(t.args[0]))
	case OZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.sort.w-t.args[0].sort.w, s.ref(t.args[0]))
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.sort.w-t.args[0].sort.w, s.ref(t.args[0]))
	case OFtoF:
		fmt.Fprintf(&sb, "(%s RNE %s)", tofp(t.sort.w), s.ref(t.args[0]))
	case OSItoF:
		fmt.Fprintf(&sb, "(%s RNE %s)", tofp(t.sort.w), s.ref(t.args[0]))
	case OUItoF:
		if t.sort.w == 32 {
			fmt.Fprintf(&sb, "((_ to_fp_unsigned 8 24) RNE %s)", s.ref(t.args[0]))
		} else {
			fmt.Fprintf(&sb, "((_ to_fp_unsigned 11 53) RNE %s)", s.ref(t.args[0]))
		}
	case OFtoSI:
		fmt.Fprintf(&sb, "((_ fp.to_sbv %d) RTZ %s)", t.sort.w, s.ref(t.args[0]))
	case OFtoUI:
		fmt.Fprintf(&sb, "((_ fp.to_ubv %d) RTZ %s)", t.sort.w, s.ref(t.args[0]))
	default:
		sb.WriteByte('(')
		sb.WriteString(opSMT[t.op])
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a))
		}
		sb.WriteByte(')')
	}
	sb.WriteString(end)
	return sb.String()
}

func tofp(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

// Check decides sat(pc... & extra...). On sat a model over all variables known is returned.
func (s *Solver) Check(pc []*Term, extra ...*Term) (SatResult, *Model) {
	for _, t := range extra {
		if t == s.f.ff {
			return Unsat, nil
		}
	}
	t0 := time.Now()
	s.queries++
	// the solver's own time limit is not always kept: a watchdog ends it
	lim := 2*time.Duration(s.timeout)*time.Millisecond + 5*time.Second
	if !s.deadline.IsZero() {
		left := time.Until(s.deadline) + 3*time.Second
		if left < 0 {
			s.unknown++
			return Unknown, nil
		}
		if left < lim {
			lim = left
		}
	}
	proc := s.cmd.Process
	dog := time.AfterFunc(lim, func() { proc.Kill() })
	res, m := s.check1(pc, extra)
	dog.Stop()
	d := time.Since(t0)
	s.time += d
	if d > s.maxQ {
		s.maxQ = d
	}
	switch res {
	case Sat:
		s.sat++
	case Unsat:
		s.unsat++
	default:
		s.unknown++
	}
	return res, m
}

func (s *Solver) check1(pc []*Term, extra []*Term) (SatResult, *Model) {
	if s.defsCount > 60000 {
		s.restart()
	}
	// definitions are global declarations and survive pops
	var need []*Term
	seen := map[int]bool{}
	for _, t := range pc {
		s.collect(t, &need, seen)
	}
	for _, t := range extra {
		s.collect(t, &need, seen)
	}
	if len(need) > 0 {
		var sb strings.Builder
		for _, t := range need {
			if t.op == OVar {
				fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", t.name, t.sort.smt())
				s.declared[t.id] = true
			} else {
				sb.WriteString(s.defText(t))
				s.defined[t.id] = true
			}
		}
		s.defsCount += len(need)
		s.w(sb.String())
	}
	// light terms are assumptions, so that the solver keeps what it learned;
	// terms over floats and non-linear arithmetic are asserted temporarily
	var as, hv []string
	for _, l := range [2][]*Term{pc, extra} {
		for _, t := range l {
			if t.op == OConst && t.c != 0 {
				continue
			}
			if s.isHeavy(t) || t.op == OConst {
				hv = append(hv, s.ref(t))
			} else {
				as = append(as, s.ref(t))
			}
		}
	}
	if len(hv) > 0 {
		s.w("(push 1)\n")
		for _, h := range hv {
			s.w("(assert " + h + ")\n")
		}
	}
	s.w("(check-sat-assuming (" + strings.Join(as, " ") + "))\n")
	s.in.Flush()
	line, err := s.readLine()
	res := Unknown
	switch {
	case err != nil:
		s.errors++
		s.restart()
		return Unknown, nil
	case line == "sat":
		res = Sat
	case line == "unsat":
		res = Unsat
	case strings.HasPrefix(line, "(error"):
		s.errors++
		if os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", line)
		}
		s.restart()
		return Unknown, nil
	}
	var m *Model
	if res == Sat {
		m = s.getModel()
		if m == nil {
			s.restart()
			return Unknown, nil
		}
	}
	if len(hv) > 0 {
		s.w("(pop 1)\n")
	}
	return res, m
}

// isHeavy tells whether the term contains floating point or non-linear arithmetic.
func (s *Solver) isHeavy(t *Term) bool {
	if t.op == OConst || t.op == OVar {
		return false
	}
	if h, ok := s.heavy[t.id]; ok {
		return h
	}
	h := false
	switch t.op {
	case OMul, OUDiv, OSDiv, OURem, OSRem, OShl, OLShr, OAShr:
		h = t.sort.w > 8
		for _, a := range t.args {
			if t.op != OUDiv && t.op != OSDiv && t.op != OURem && t.op != OSRem && a.op == OConst {
				h = false
			}
		}
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq, OFSqrt, OFNeg, OFAbs, OFtoF, OSItoF, OUItoF, OFtoSI, OFtoUI, OFtoBits, OBitstoF:
		h = true
	}
	for _, a := range t.args {
		if h {
			break
		}
		h = s.isHeavy(a)
	}
	s.heavy[t.id] = h
	return h
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) getModel() *Model {
	var vs []*Term
	for _, v := range s.f.vars {
		if s.declared[v.id] {
			vs = append(vs, v)
		}
	}
	m := NewModel()
	if len(vs) == 0 {
		return m
	}
	s.w("(get-value (")
	for _, v := range vs {
		s.w("|" + v.name + "| ")
	}
	s.w("))\n")
	s.in.Flush()
	// read balanced parens
	depth := 0
	var sb strings.Builder
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		if b == '|' {
			inq = !inq
		}
		if !inq {
			if b == '(' {
				depth++
			}
			if b == ')' {
				depth--
			}
		}
		sb.WriteByte(b)
		if depth == 0 && sb.Len() > 1 && b == ')' {
			break
		}
	}
	toks := tokenize(sb.String())
	if len(toks) > 1 && toks[1] == "error" {
		s.errors++
		return nil
	}
	// ((|a| val) (|b| val) ...)
	i := 1
	idx := 0
	for i < len(toks) && toks[i] == "(" {
		i++
		i++ // name
		v := vs[idx]
		idx++
		val, ni := parseVal(toks, i, v.sort)
		i = ni
		if i < len(toks) && toks[i] == ")" {
			i++
		}
		m.vals[v.name] = val
	}
	return m
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()|", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func parseNum(tok string) uint64 {
	if tok == "true" {
		return 1
	}
	if tok == "false" {
		return 0
	}
	if strings.HasPrefix(tok, "#x") {
		v, _ := strconv.ParseUint(tok[2:], 16, 64)
		return v
	}
	if strings.HasPrefix(tok, "#b") {
		v, _ := strconv.ParseUint(tok[2:], 2, 64)
		return v
	}
	v, _ := strconv.ParseUint(tok, 10, 64)
	return v
}

func parseVal(toks []string, i int, s Sort) (uint64, int) {
	if toks[i] != "(" {
		return parseNum(toks[i]), i + 1
	}
	// (fp s e m) | (_ NaN 8 24) | (_ +oo ..) | (_ -zero ..) | (_ bv5 8)
	if toks[i+1] == "fp" {
		sg, e, m := parseNum(toks[i+2]), parseNum(toks[i+3]), parseNum(toks[i+4])
		if s.w == 32 {
			return sg<<31 | e<<23 | m, i + 6
		}
		return sg<<63 | e<<52 | m, i + 6
	}
	if toks[i+1] == "_" {
		j := i
		for toks[j] != ")" {
			j++
		}
		switch toks[i+2] {
		case "NaN":
			if s.w == 32 {
				return 0x7fc00000, j + 1
			}
			return 0x7ff8000000000001, j + 1
		case "+oo":
			if s.w == 32 {
				return 0x7f800000, j + 1
			}
			return 0x7ff0000000000000, j + 1
		case "-oo":
			if s.w == 32 {
				return 0xff800000, j + 1
			}
			return 0xfff0000000000000, j + 1
		case "+zero":
			return 0, j + 1
		case "-zero":
			return 1 << (s.w - 1), j + 1
		}
		if strings.HasPrefix(toks[i+2], "bv") {
			v, _ := strconv.ParseUint(toks[i+2][2:], 10, 64)
			return v, j + 1
		}
	}
	panic(engineErr{"cannot parse model value"})
}
