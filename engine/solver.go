package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// SMT back end: one z3 process per engine, spoken to over a pipe in SMT-LIB.
// Each query is sent on its own: the conditions connected to the queried one
// through shared variables, over bit-vectors. A variable that only occurs under
// piecewise-constant functions is replaced by the index of its equivalence
// class (the inputs on which all functions in the query agree), which is exact
// and keeps the Unicode tables small.

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

type Solver struct {
	bin                       string
	ctx                       *TermCtx
	cmd                       *exec.Cmd
	in                        io.WriteCloser
	out                       *bufio.Reader
	buf                       bytes.Buffer
	vcache                    map[*Term][]*Term
	errors                    int
	Queries                   int
	NSat                      int
	NUnsat                    int
	NUnknown                  int
	Cached                    int
	Time                      time.Duration
	timeout                   int // ms
	log                       *os.File
	sinceRst                  int
	cache                     map[string]*qres
	classes                   map[string]*classing
	lia                       *z3proc
	IntQ, IntFail, IntUnknown int
}

type qres struct {
	r SatResult
	m map[*Term]uint64
}

var (
	solverBin = "z3-new"
	noInt     = os.Getenv("VERIF_NO_INT") != ""
)

func NewSolver(ctx *TermCtx, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, timeout: timeoutMs, bin: solverBin, vcache: map[*Term][]*Term{}, cache: map[string]*qres{}, classes: map[string]*classing{}}
	if p := os.Getenv("VERIF_SMT_LOG"); p != "" {
		s.log, _ = os.Create(fmt.Sprintf("%s.%p.smt2", p, s))
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.buf.Reset()
	s.sinceRst = 0
	s.cmdf("(set-option :timeout %d)", s.timeout)
	s.cmdf("(set-logic QF_BV)")
}

func (s *Solver) Close() {
	if s.lia != nil {
		s.lia.close()
		s.lia = nil
	}
	s.closeBV()
}

func (s *Solver) closeBV() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) cmdf(f string, a ...any) {
	fmt.Fprintf(&s.buf, f, a...)
	s.buf.WriteByte('\n')
}

func (s *Solver) flush() {
	if s.log != nil {
		s.log.Write(s.buf.Bytes())
	}
	s.in.Write(s.buf.Bytes())
	s.buf.Reset()
}

func (s *Solver) readLine() string {
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return "(error \"solver died\")"
		}
		if line = strings.TrimSpace(line); line != "" {
			return line
		}
	}
}

func cstr(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

// varsOf lists the variables a term depends on.
func (s *Solver) varsOf(t *Term) []*Term {
	if t.uv != nil {
		return []*Term{t.uv}
	}
	if v, ok := s.vcache[t]; ok {
		return v
	}
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			out = append(out, t)
			return
		}
		if t.uv != nil {
			rec(t.uv)
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.d)
	}
	rec(t)
	s.vcache[t] = out
	return out
}

// slice returns the conditions connected to extra (all of them if extra is nil).
func (s *Solver) slice(pc []*Term, extra *Term) []*Term {
	if extra == nil {
		return pc
	}
	in := map[*Term]bool{}
	for _, v := range s.varsOf(extra) {
		in[v] = true
	}
	used := make([]bool, len(pc))
	out := []*Term{extra}
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			vs := s.varsOf(c)
			hit := false
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range vs {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// Check decides pc ∧ extra (extra may be nil). On Sat the model covers the
// variables of the decided component; values of other variables come from base.
func (s *Solver) Check(pc []*Term, extra *Term, base map[*Term]uint64) (SatResult, map[*Term]uint64) {
	if base == nil && extra != nil {
		pc = append(append([]*Term{}, pc...), extra)
		extra = nil
	}
	conds := s.slice(pc, extra)
	ids := make([]int, 0, len(conds))
	seen := map[int32]bool{}
	var cs []*Term
	for _, c := range conds {
		if c.isTrue() || seen[c.id] {
			continue
		}
		if c.isFalse() {
			return Unsat, nil
		}
		seen[c.id] = true
		cs = append(cs, c)
		ids = append(ids, int(c.id))
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	q := s.cache[key]
	if q == nil {
		q = s.query(cs)
		if q.r != Unknown {
			s.cache[key] = q
		}
	} else {
		s.Cached++
	}
	if q.r != Sat {
		return q.r, nil
	}
	m := make(map[*Term]uint64, len(base)+len(q.m))
	for k, v := range base {
		m[k] = v
	}
	for k, v := range q.m {
		m[k] = v
	}
	return Sat, m
}

type classing struct {
	rep []uint64           // a representative per class
	val map[*Term][]uint64 // value per class of each function
}

// setCond splits a condition that is a set of values of one variable.
func setCond(t *Term) (pw *Term, want uint64, ok bool) {
	want = 1
	for t.op == ONot {
		t = t.a
		want = 1 - want
	}
	if t.op == OPW && t.w == 0 {
		return t, want, true
	}
	return nil, 0, false
}

func (s *Solver) query(conds []*Term) *qres {
	if s.sinceRst > 5000 || s.cmd == nil {
		s.closeBV()
		s.start()
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sinceRst++
	// collect functions and raw occurrences
	raw := map[*Term]bool{}
	pws := map[*Term][]*Term{} // variable -> functions
	seen := map[*Term]bool{}
	var vars []*Term
	isVar := map[*Term]bool{}
	addVar := func(v *Term) {
		if !isVar[v] {
			isVar[v] = true
			vars = append(vars, v)
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar:
			addVar(t)
			if t.w > 8 || t.w == 0 {
				raw[t] = true
			} else {
				raw[t] = true
			}
			return
		case OPW:
			addVar(t.a)
			pws[t.a] = append(pws[t.a], t)
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.d)
	}
	sets := map[*Term][]*Term{}
	var rest []*Term
	for _, c := range conds {
		if p, _, ok := setCond(c); ok {
			addVar(p.a)
			sets[p.a] = append(sets[p.a], c)
			continue
		}
		rest = append(rest, c)
		rec(c)
	}
	doms := map[*Term][]rgn{}
	for _, v := range vars {
		d := []rgn{{v.dlo, v.dhi}}
		if v.w == 0 {
			d = []rgn{{0, 1}}
		}
		for _, c := range sets[v] {
			p, want, _ := setCond(c)
			d = pwRestrict(p, d, want)
		}
		if len(d) == 0 {
			s.NUnsat++
			return &qres{r: Unsat}
		}
		doms[v] = d
	}
	if !noInt {
		if r := s.intQuery(vars, doms, rest); r != nil {
			if r.r == Sat {
				s.NSat++
			} else {
				s.NUnsat++
			}
			return r
		}
	}
	s.cmdf("(push 1)")
	em := &emitter{s: s, done: map[*Term]bool{}, cls: map[*Term]*classing{}}
	type vinfo struct {
		v   *Term
		cls *classing
		d   []rgn
	}
	var vi []vinfo
	for _, v := range vars {
		d := doms[v]
		if raw[v] {
			s.cmdf("(declare-const v%d %s)", v.id, sortStr(v.w))
			if v.w > 0 {
				em.domain(v, d)
			} else if d[0].lo == d[len(d)-1].hi {
				s.cmdf("(assert %s)", map[bool]string{true: "", false: "(not "}[d[0].lo == 1]+"v"+strconv.Itoa(int(v.id))+map[bool]string{true: "", false: ")"}[d[0].lo == 1])
			}
			vi = append(vi, vinfo{v: v, d: d})
			continue
		}
		if len(pws[v]) == 0 {
			vi = append(vi, vinfo{v: v, d: d, cls: &classing{rep: []uint64{d[0].lo}}})
			continue
		}
		cl := classesOf(pws[v], d)
		em.cls[v] = cl
		n := len(cl.rep)
		em.cbits = append(em.cbits, 0)
		if n > 1 {
			w := bitsFor(uint64(n - 1))
			s.cmdf("(declare-const c%d (_ BitVec %d))", v.id, w)
			if uint64(n) != maskOf(w)+1 {
				s.cmdf("(assert (bvult c%d (_ bv%d %d)))", v.id, n, w)
			}
		}
		vi = append(vi, vinfo{v: v, cls: cl})
	}
	for _, c := range rest {
		s.cmdf("(assert %s)", em.ref(c))
	}
	s.cmdf("(check-sat)")
	s.flush()
	line := s.readLine()
	res := &qres{}
	switch line {
	case "sat":
		res.r = Sat
		s.NSat++
		res.m = map[*Term]uint64{}
		var names []string
		for _, x := range vi {
			if x.cls == nil {
				names = append(names, "v"+strconv.Itoa(int(x.v.id)))
			} else if len(x.cls.rep) > 1 {
				names = append(names, "c"+strconv.Itoa(int(x.v.id)))
			}
		}
		vals := s.getValues(names)
		for _, x := range vi {
			if x.cls == nil {
				res.m[x.v] = vals["v"+strconv.Itoa(int(x.v.id))]
			} else if len(x.cls.rep) > 1 {
				res.m[x.v] = x.cls.rep[vals["c"+strconv.Itoa(int(x.v.id))]]
			} else {
				res.m[x.v] = x.cls.rep[0]
			}
		}
	case "unsat":
		res.r = Unsat
		s.NUnsat++
	default:
		s.NUnknown++
		if line != "unknown" && line != "timeout" {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.errors++
		}
		s.closeBV()
		return res
	}
	s.cmdf("(pop 1)")
	return res
}

// classesOf partitions a domain into sets on which all functions agree.
func classesOf(fs []*Term, d []rgn) *classing {
	cl := &classing{val: map[*Term][]uint64{}}
	idx := map[string]int{}
	pos := make([]int, len(fs))
	key := make([]byte, 0, 16*len(fs))
	vals := make([]uint64, len(fs))
	for _, r := range d {
		for i, f := range fs {
			pos[i] = sort.Search(len(f.pw.hi), func(k int) bool { return f.pw.hi[k] >= r.lo })
		}
		lo := r.lo
		for {
			h := r.hi
			key = key[:0]
			for i, f := range fs {
				h = min(h, f.pw.hi[pos[i]])
				v := f.pw.val[pos[i]]
				vals[i] = v
				for k := 0; k < 64; k += 8 {
					key = append(key, byte(v>>k))
				}
			}
			if _, ok := idx[string(key)]; !ok {
				idx[string(key)] = len(cl.rep)
				cl.rep = append(cl.rep, lo)
				for i, f := range fs {
					cl.val[f] = append(cl.val[f], vals[i])
				}
			}
			if h >= r.hi {
				break
			}
			lo = h + 1
			for i, f := range fs {
				if f.pw.hi[pos[i]] == h {
					pos[i]++
				}
			}
		}
	}
	return cl
}

type emitter struct {
	s     *Solver
	done  map[*Term]bool
	cls   map[*Term]*classing
	cbits []int
}

func (em *emitter) domain(v *Term, d []rgn) {
	s := em.s
	if len(d) == 1 {
		if d[0].hi != maskOf(v.w) {
			s.cmdf("(assert (bvule v%d %s))", v.id, cstr(v.w, d[0].hi))
		}
		if d[0].lo != 0 {
			s.cmdf("(assert (bvuge v%d %s))", v.id, cstr(v.w, d[0].lo))
		}
		return
	}
	// balanced membership test
	n := "v" + strconv.Itoa(int(v.id))
	var rec func(i, j int) string
	rec = func(i, j int) string {
		if i == j {
			r := d[i]
			if r.lo == r.hi {
				return "(= " + n + " " + cstr(v.w, r.lo) + ")"
			}
			return "(and (bvuge " + n + " " + cstr(v.w, r.lo) + ") (bvule " + n + " " + cstr(v.w, r.hi) + "))"
		}
		m := (i + j) / 2
		return "(ite (bvule " + n + " " + cstr(v.w, d[m].hi) + ") " + rec(i, m) + " " + rec(m+1, j) + ")"
	}
	s.cmdf("(assert %s)", rec(0, len(d)-1))
}

// ref returns the SMT name of a term, emitting definitions as needed.
func (em *emitter) ref(t *Term) string {
	s := em.s
	switch t.op {
	case OConst:
		return cstr(t.w, t.c)
	case OVar:
		return "v" + strconv.Itoa(int(t.id))
	}
	name := "t" + strconv.Itoa(int(t.id))
	if em.done[t] {
		return name
	}
	em.done[t] = true
	var body string
	switch t.op {
	case OPW:
		if cl := em.cls[t.a]; cl != nil {
			body = em.clsStr(t, cl)
		} else {
			body = em.pwStr("v"+strconv.Itoa(int(t.a.id)), t, 0, len(t.pw.hi)-1)
		}
	case ONot:
		body = "(not " + em.ref(t.a) + ")"
	case OIte:
		body = "(ite " + em.ref(t.a) + " " + em.ref(t.b) + " " + em.ref(t.d) + ")"
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, em.ref(t.a))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, em.ref(t.a))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, em.ref(t.a))
	default:
		body = "(" + opName[t.op] + " " + em.ref(t.a) + " " + em.ref(t.b) + ")"
	}
	s.cmdf("(define-fun %s () %s %s)", name, sortStr(t.w), body)
	return name
}

// clsStr is a function of the class index.
func (em *emitter) clsStr(t *Term, cl *classing) string {
	vals := cl.val[t]
	n := len(cl.rep)
	if n == 1 {
		return cstr(t.w, vals[0])
	}
	c := "c" + strconv.Itoa(int(t.a.id))
	w := bitsFor(uint64(n - 1))
	// runs over class indices
	groups := map[uint64][]string{}
	var order []uint64
	for i, v := range vals {
		if _, ok := groups[v]; !ok {
			order = append(order, v)
		}
		groups[v] = append(groups[v], "(= "+c+" "+cstr(w, uint64(i))+")")
	}
	if len(order) == 1 {
		return cstr(t.w, order[0])
	}
	// the most frequent value is the default
	def := order[0]
	for _, v := range order {
		if len(groups[v]) > len(groups[def]) {
			def = v
		}
	}
	body := cstr(t.w, def)
	for _, v := range order {
		if v == def {
			continue
		}
		cond := groups[v][0]
		if len(groups[v]) > 1 {
			cond = "(or " + strings.Join(groups[v], " ") + ")"
		}
		body = "(ite " + cond + " " + cstr(t.w, v) + " " + body + ")"
	}
	return body
}

func (em *emitter) pwStr(x string, t *Term, i, j int) string {
	if i == j {
		return cstr(t.w, t.pw.val[i])
	}
	m := (i + j) / 2
	var cond string
	if t.a.w == 0 {
		cond = "(not " + x + ")"
	} else {
		cond = "(bvule " + x + " " + cstr(t.a.w, t.pw.hi[m]) + ")"
	}
	return "(ite " + cond + " " + em.pwStr(x, t, i, m) + " " + em.pwStr(x, t, m+1, j) + ")"
}

func (s *Solver) getValues(names []string) map[string]uint64 {
	m := map[string]uint64{}
	if len(names) == 0 {
		return m
	}
	s.buf.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
	s.flush()
	var sb strings.Builder
	depth := 0
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return m
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
		}
		sb.WriteByte(b)
		if depth == 0 && b == ')' {
			break
		}
	}
	txt := sb.String()
	for _, n := range names {
		key := "(" + n + " "
		i := strings.Index(txt, key)
		if i < 0 {
			panic("model: no value for " + n + " in " + txt)
		}
		m[n] = parseVal(txt[i+len(key):])
	}
	return m
}

func parseVal(s string) uint64 {
	s = strings.TrimSpace(s)
	end := strings.IndexAny(s, ") \n")
	if strings.HasPrefix(s, "(_ bv") {
		s = s[5:]
		end = strings.IndexAny(s, " )")
		v, _ := strconv.ParseUint(s[:end], 10, 64)
		return v
	}
	tok := s
	if end >= 0 {
		tok = s[:end]
	}
	switch {
	case tok == "true":
		return 1
	case tok == "false":
		return 0
	case strings.HasPrefix(tok, "#x"):
		v, _ := strconv.ParseUint(tok[2:], 16, 64)
		return v
	case strings.HasPrefix(tok, "#b"):
		v, _ := strconv.ParseUint(tok[2:], 2, 64)
		return v
	}
	panic("cannot parse model value " + s)
}
