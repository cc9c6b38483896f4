package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- choices

// Src is a recorded sequence of random choices. The simplest choice is
// always 0, so a failing case is shrunk by shortening the sequence and
// lowering its elements.
type Src struct {
	state  uint64
	replay []uint64
	random bool
	tape   []uint64
}

func newSrc(seed uint64) *Src { return &Src{state: seed, random: true} }

func replaySrc(tape []uint64) *Src { return &Src{replay: tape} }

func splitmix(state *uint64) uint64 {
	*state += 0x9e3779b97f4a7c15
	z := *state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

const maxTape = 200000

// U returns a number in [0,n); n==0 stands for 2^64
func (s *Src) U(n uint64) uint64 {
	var v uint64
	if s.random {
		v = splitmix(&s.state)
	} else if len(s.tape) < len(s.replay) {
		v = s.replay[len(s.tape)]
	}
	if n != 0 {
		v %= n
	}
	if len(s.tape) > maxTape {
		panic("the generator does not terminate")
	}
	s.tape = append(s.tape, v)
	return v
}

// N returns a number in [0,n)
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.U(uint64(n)))
}

// Range returns a number in [lo,hi]
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Pct is true in p percent of the cases
func (s *Src) Pct(p int) bool { return s.N(100) >= 100-p }

func (s *Src) Bool() bool { return s.N(2) == 1 }

func pick[X any](s *Src, from ...X) X { return from[s.N(len(from))] }

func pickFrom[X any](s *Src, from []X) X { return from[s.N(len(from))] }

// Weighted returns the index of one of the weights
func (s *Src) Weighted(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	n := s.N(total)
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------------------------------------------------------------- cases

// T is the run of one case
type T struct {
	*Src
	verbose bool
	stream  bool
	log     []string
	evals   int
	nontriv []uint64
	tier    string
}

// Logf adds to the description of the case
func (t *T) Logf(format string, args ...interface{}) {
	if t.verbose {
		l := fmt.Sprintf(format, args...)
		if t.stream {
			fmt.Println(l)
		}
		t.log = append(t.log, l)
	}
}

// Eval counts an evaluation that was compared to the oracle
func (t *T) Eval(nontrivial bool, key ...interface{}) {
	t.evals++
	if nontrivial {
		h := fnv.New64a()
		for _, k := range key {
			fmt.Fprint(h, k, "\x00")
		}
		t.nontriv = append(t.nontriv, h.Sum64())
	}
}

var errDiscard = errors.New("discarded case")

func failf(format string, args ...interface{}) error {
	return fmt.Errorf(format, args...)
}

// Prop is a property and how it is checked
type Prop struct {
	ID   string
	Rule string
	// Run generates a case and checks it
	Run func(t *T) error
	// Regress checks fixed inputs, returning the first failure
	Regress func(t *T) error
	// Budget is the time to spend in the quick tier; default 25 s
	Budget time.Duration
	// MinCases is run even if that takes longer than the budget
	MinCases int
	// Workers is the number of processes; default 8
	Workers int
	// CaseLimit is how long a case may take, default 60 s
	CaseLimit time.Duration
	Assume    []string
	// Race tells that a report of the race detector is a violation
	Race bool
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Budget == 0 {
		p.Budget = 25 * time.Second
	}
	if p.Workers == 0 {
		p.Workers = 8
	}
	if p.MinCases == 0 {
		p.MinCases = 100
	}
	if p.CaseLimit == 0 {
		p.CaseLimit = 60 * time.Second
	}
	props[p.ID] = p
}

// runCase runs f, and turns a panic into a failure
func runCase(t *T, f func(*T) error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return f(t)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") && i+2 < len(lines) {
			lines = lines[i+2:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// ---------------------------------------------------------------- shrinking

func failing(p *Prop, tier string, tape []uint64, caseNo *int64) ([]uint64, error) {
	atomic.StoreInt64(caseNo, time.Now().UnixNano())
	t := &T{Src: replaySrc(tape), tier: tier}
	err := runCase(t, p.Run)
	if err == errDiscard {
		err = nil
	}
	return t.tape, err
}

func shrink(p *Prop, tier string, tape []uint64, limit time.Duration, started *int64) []uint64 {
	deadline := time.Now().Add(limit)
	best := tape
	try := func(cand []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		used, err := failing(p, tier, cand, started)
		if err == nil {
			return false
		}
		if len(used) < len(cand) {
			cand = used
		}
		best = append([]uint64(nil), cand...)
		return true
	}
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		for size := len(best) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(best); {
				cand := append(append([]uint64(nil), best[:at]...), best[at+size:]...)
				if try(cand) {
					improved = true
				} else {
					at += size
				}
				if time.Now().After(deadline) {
					return best
				}
			}
		}
		for size := len(best); size >= 1; size /= 2 {
			for at := 0; at+size <= len(best); at += size {
				nonzero := false
				cand := append([]uint64(nil), best...)
				for i := at; i < at+size; i++ {
					nonzero = nonzero || cand[i] != 0
					cand[i] = 0
				}
				if nonzero && try(cand) {
					improved = true
				}
				if time.Now().After(deadline) {
					return best
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for best[i] > 0 {
				lower := func(v uint64) bool {
					cand := append([]uint64(nil), best...)
					cand[i] = v
					return try(cand)
				}
				if lower(best[i]/2) || (i < len(best) && best[i] > 0 && lower(best[i]-1)) {
					improved = true
				} else {
					break
				}
				if i >= len(best) || time.Now().After(deadline) {
					break
				}
			}
		}
	}
	return best
}

// Replay is the content of a replay file
type Replay struct {
	Property string   `json:"property"`
	Failure  string   `json:"failure"`
	Case     []string `json:"case"`
	Tape     []uint64 `json:"tape,omitempty"`
	// Seed, Shard and Index identify cases that end the process
	Seed    uint64 `json:"seed"`
	Shard   int    `json:"shard"`
	Index   int    `json:"index"`
	Regress bool   `json:"regress,omitempty"`
	Tier    string `json:"tier"`
	// Fatal is set if the failure ends the process
	Fatal bool `json:"fatal,omitempty"`
}

func writeReplay(file string, r Replay) {
	data, _ := json.MarshalIndent(r, "", " ")
	os.MkdirAll(filepath.Dir(file), 0o755)
	if err := os.WriteFile(file, append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

func describe(p *Prop, tier string, tape []uint64) ([]string, string) {
	t := &T{Src: replaySrc(tape), verbose: true, tier: tier}
	err := runCase(t, p.Run)
	msg := ""
	if err != nil {
		msg = err.Error()
	}
	return t.log, msg
}

// ---------------------------------------------------------------- worker

type workerReport struct {
	Cases     int
	Discarded int
	Evals     int
	Samples   [][]string
	Failed    bool
	Failure   string
}

func caseSeed(id string, seed uint64, shard, index int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d/%d", id, seed, shard, index)
	s := h.Sum64()
	return splitmix(&s)
}

const (
	exitHang   = 33
	exitMemory = 34
	exitFailed = 31
	exitSetup  = 35
)

// watchdog ends the process if a case takes too long or too much memory
func watchdog(started *int64, limit time.Duration) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		at := atomic.LoadInt64(started)
		if at != 0 && time.Since(time.Unix(0, at)) > limit {
			fmt.Fprintln(os.Stderr, "the case does not end within", limit)
			buf := make([]byte, 1<<16)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(exitHang)
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > 3<<30 {
			fmt.Fprintln(os.Stderr, "the case takes more than 3 GB of memory")
			os.Exit(exitMemory)
		}
	}
}

func worker(p *Prop, tier string, seed uint64, shard int, budget time.Duration, dir string) int {
	debug.SetGCPercent(400)
	started := new(int64)
	go watchdog(started, p.CaseLimit)
	base := filepath.Join(dir, fmt.Sprintf("w%d", shard))
	progress, err := os.Create(base + ".at")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitSetup
	}
	var rep workerReport
	seen := map[uint64]struct{}{}
	finish := func() {
		data, _ := json.Marshal(rep)
		os.WriteFile(base+".json", data, 0o644)
		f, err := os.Create(base + ".hash")
		if err != nil {
			return
		}
		w := bufio.NewWriter(f)
		var b [8]byte
		for h := range seen {
			binary.LittleEndian.PutUint64(b[:], h)
			w.Write(b[:])
		}
		w.Flush()
		f.Close()
	}
	mark := func(i int) {
		progress.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		atomic.StoreInt64(started, time.Now().UnixNano())
	}
	if shard == 0 && p.Regress != nil && os.Getenv("VERIF_NOREGRESS") == "" {
		mark(-1)
		t := &T{Src: newSrc(1), verbose: true, tier: tier}
		err := runCase(t, p.Regress)
		rep.Evals += t.evals
		for _, h := range t.nontriv {
			seen[h] = struct{}{}
		}
		if err != nil {
			rep.Failed = true
			rep.Failure = err.Error()
			if len(t.log) > 40 {
				t.log = t.log[len(t.log)-40:]
			}
			writeReplay(base+".replay", Replay{Property: p.ID, Failure: err.Error(), Case: t.log, Seed: seed, Shard: shard, Index: -1, Regress: true, Tier: tier})
			finish()
			return exitFailed
		}
	}
	begin := time.Now()
	minCases := (p.MinCases + p.Workers - 1) / p.Workers
	for i := 0; ; i++ {
		el := time.Since(begin)
		if el > budget && (i >= minCases || el > 8*budget) {
			break
		}
		mark(i)
		t := &T{Src: newSrc(caseSeed(p.ID, seed, shard, i)), tier: tier}
		t.verbose = i%50 == shard && len(rep.Samples) < 3
		err := runCase(t, p.Run)
		if err == errDiscard {
			rep.Discarded++
			continue
		}
		rep.Cases++
		rep.Evals += t.evals
		for _, h := range t.nontriv {
			if len(seen) < 4000000 {
				seen[h] = struct{}{}
			}
		}
		if t.verbose && len(t.nontriv) > 0 {
			rep.Samples = append(rep.Samples, t.log)
		}
		if err != nil {
			rep.Failed = true
			rep.Failure = err.Error()
			lines, _ := describe(p, tier, t.tape)
			writeReplay(base+".replay", Replay{Property: p.ID, Failure: err.Error(), Case: lines, Tape: t.tape, Seed: seed, Shard: shard, Index: i, Tier: tier})
			finish()
			tape := shrink(p, tier, t.tape, 20*time.Second, started)
			atomic.StoreInt64(started, time.Now().UnixNano())
			if lines, msg := describe(p, tier, tape); msg != "" {
				writeReplay(base+".replay", Replay{Property: p.ID, Failure: msg, Case: lines, Tape: tape, Seed: seed, Shard: shard, Index: i, Tier: tier})
			}
			return exitFailed
		}
	}
	atomic.StoreInt64(started, 0)
	finish()
	return 0
}

// runOne runs one case by its number
func runOne(p *Prop, tier string, seed uint64, shard, index int) int {
	debug.SetGCPercent(400)
	started := new(int64)
	atomic.StoreInt64(started, time.Now().UnixNano())
	go watchdog(started, p.CaseLimit)
	t := &T{Src: newSrc(caseSeed(p.ID, seed, shard, index)), verbose: true, tier: tier}
	run := p.Run
	if index < 0 {
		t.Src = newSrc(1)
		run = p.Regress
	}
	t.stream = true
	err := runCase(t, run)
	if err != nil && err != errDiscard {
		fmt.Println("FAILURE:", err)
		return exitFailed
	}
	return 0
}

// ---------------------------------------------------------------- parent

func parent(p *Prop, tier string, seed uint64, verif string) int {
	begin := time.Now()
	dir, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	budget := p.Budget
	if tier == "thorough" {
		budget = 12 * p.Budget
		if budget > 6*time.Minute {
			budget = 6 * time.Minute
		}
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	findings := knownFindings(verif, p.ID)

	type ended struct {
		shard int
		code  int
		out   string
	}
	var mu sync.Mutex
	cmds := make([]*exec.Cmd, p.Workers)
	ch := make(chan ended, p.Workers)
	for w := 0; w < p.Workers; w++ {
		cmd := exec.Command(exe, "worker", p.ID, tier, fmt.Sprint(seed), fmt.Sprint(w), budget.String(), dir)
		logName := filepath.Join(dir, fmt.Sprintf("w%d.log", w))
		logFile, err := os.Create(logName)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmd.Stdout, cmd.Stderr = logFile, logFile
		mu.Lock()
		cmds[w] = cmd
		mu.Unlock()
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		go func(w int) {
			err := cmd.Wait()
			logFile.Close()
			code := 0
			if err != nil {
				code = 99
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
					code = ee.ExitCode()
				}
			}
			out, _ := os.ReadFile(logName)
			text := headTail(string(out), 20000)
			if isRace(string(out)) {
				text = raceReport(string(out))
			}
			ch <- ended{w, code, text}
		}(w)
	}
	killAll := func() {
		for _, c := range cmds {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
	}
	var violation *Replay
	harnessError := ""
	for n := 0; n < p.Workers; n++ {
		e := <-ch
		if e.code == 0 || violation != nil {
			continue
		}
		base := filepath.Join(dir, fmt.Sprintf("w%d", e.shard))
		if e.code == exitSetup {
			harnessError = e.out
			continue
		}
		if data, err := os.ReadFile(base + ".replay"); err == nil {
			var r Replay
			if json.Unmarshal(data, &r) == nil {
				violation = &r
				killAll()
				continue
			}
		}
		// The worker died: find out if the case does that again
		data, _ := os.ReadFile(base + ".at")
		index, err := strconv.Atoi(strings.TrimSpace(string(data)))
		if err != nil {
			harnessError = "worker ended without a case: " + e.out
			continue
		}
		killAll()
		if p.Race && isRace(e.out) {
			out := raceReport(e.out)
			violation = &Replay{Property: p.ID, Failure: "goroutines interfere with each other\n" + out, Case: strings.Split(headTail(out, 3000), "\n"), Seed: seed, Shard: e.shard, Index: index, Tier: tier, Fatal: true}
			continue
		}
		code, out := runAlone(exe, p, tier, seed, e.shard, index, dir)
		if code == 0 {
			// Not reproduced alone: not a violation by itself
			harnessError = fmt.Sprintf("worker %d ended with %d in case %d, which passes alone:\n%s", e.shard, e.code, index, e.out)
			continue
		}
		what := "the process ends"
		switch code {
		case exitHang:
			what = fmt.Sprintf("evaluation does not end within %v", p.CaseLimit)
		case exitMemory:
			what = "evaluation takes more than 3 GB of memory"
		}
		violation = &Replay{Property: p.ID, Failure: what + "\n" + headTail(out, 6000), Case: strings.Split(headTail(out, 3000), "\n"), Seed: seed, Shard: e.shard, Index: index, Tier: tier, Fatal: true}
	}

	var total workerReport
	distinct := map[uint64]struct{}{}
	for w := 0; w < p.Workers; w++ {
		base := filepath.Join(dir, fmt.Sprintf("w%d", w))
		data, err := os.ReadFile(base + ".json")
		if err != nil {
			continue
		}
		var rep workerReport
		if json.Unmarshal(data, &rep) != nil {
			continue
		}
		total.Cases += rep.Cases
		total.Discarded += rep.Discarded
		total.Evals += rep.Evals
		total.Samples = append(total.Samples, rep.Samples...)
		hashes, _ := os.ReadFile(base + ".hash")
		for i := 0; i+8 <= len(hashes); i += 8 {
			distinct[binary.LittleEndian.Uint64(hashes[i:])] = struct{}{}
		}
	}
	sort.SliceStable(total.Samples, func(i, j int) bool {
		return len(strings.Join(total.Samples[i], "")) < len(strings.Join(total.Samples[j], ""))
	})
	samples := []interface{}{}
	step := len(total.Samples)/6 + 1
	for i := len(total.Samples) / 12; i < len(total.Samples); i += step {
		s := total.Samples[i]
		if len(s) > 30 {
			s = append(append([]string(nil), s[:30]...), fmt.Sprintf("... %d more lines", len(s)-30))
		}
		samples = append(samples, s)
	}
	violations := 0
	if violation != nil {
		violations = 1
		if len(samples) == 0 {
			samples = append(samples, violation.Case)
		}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         total.Evals,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"cases":               total.Cases,
			"discarded_cases":     total.Discarded,
			"workers":             p.Workers,
			"known_findings":      len(findings),
		},
		"wall_s":     time.Since(begin).Seconds(),
		"violations": violations,
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, f := range findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.text)
		if f.demo != nil && !f.demo() {
			fmt.Printf("note: this finding did not show on this run\n")
		}
	}
	if violation != nil {
		file := filepath.Join(verif, "replay", fmt.Sprintf("%s-%d.json", p.ID, time.Now().UnixNano()%1000000000))
		writeReplay(file, *violation)
		for _, l := range violation.Case {
			fmt.Println("  ", l)
		}
		fmt.Println("  ", headTail(violation.Failure, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	if harnessError != "" {
		fmt.Fprintln(os.Stderr, harnessError)
		return 2
	}
	fmt.Printf("OK property=%s cases=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, total.Cases, total.Evals, len(distinct), time.Since(begin).Seconds())
	return 0
}

// isRace tells if what a process has written tells of a race
func isRace(out string) bool {
	return strings.Contains(out, "WARNING: DATA RACE") || strings.Contains(out, "fatal error: concurrent map")
}

func raceReport(out string) string {
	for _, what := range []string{"WARNING: DATA RACE", "fatal error: concurrent map"} {
		if i := strings.Index(out, what); i >= 0 {
			return headTail(out[i:], 6000)
		}
	}
	return headTail(out, 6000)
}

func headTail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
}

func runAlone(exe string, p *Prop, tier string, seed uint64, shard, index int, dir string) (int, string) {
	name := filepath.Join(dir, "alone.log")
	f, err := os.Create(name)
	if err != nil {
		return 0, err.Error()
	}
	cmd := exec.Command(exe, "one", p.ID, tier, fmt.Sprint(seed), fmt.Sprint(shard), fmt.Sprint(index))
	cmd.Stdout, cmd.Stderr = f, f
	err = cmd.Run()
	f.Close()
	out, _ := os.ReadFile(name)
	if err == nil {
		return 0, string(out)
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
		return ee.ExitCode(), string(out)
	}
	return 99, string(out)
}

// replayFile runs the case in a replay file again
func replayFile(file string) int {
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(data, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Property)
		return 2
	}
	if r.Fatal || r.Regress {
		exe, _ := os.Executable()
		dir, _ := os.MkdirTemp("", "vh-replay-")
		defer os.RemoveAll(dir)
		code, out := runAlone(exe, p, r.Tier, r.Seed, r.Shard, r.Index, dir)
		for i := 0; i < 30 && p.Race && code == 0; i++ {
			code, out = runAlone(exe, p, r.Tier, r.Seed, r.Shard, r.Index, dir)
		}
		fmt.Println(headTail(out, 8000))
		if code != 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			return 1
		}
		fmt.Println("the case passes")
		return 0
	}
	started := new(int64)
	atomic.StoreInt64(started, time.Now().UnixNano())
	go watchdog(started, p.CaseLimit)
	lines, msg := describe(p, r.Tier, r.Tape)
	for _, l := range lines {
		fmt.Println("  ", l)
	}
	if msg != "" && msg != errDiscard.Error() {
		fmt.Println("  ", msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	fmt.Println("the case passes")
	return 0
}
