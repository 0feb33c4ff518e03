package hx

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// ---- shared memory layout
//
// One file, mapped by the parent and all workers:
//   [0..8)      stop flag
//   [8..8+8*64) next case index of space k
//   worker k at 4096*(1+k): space, idx, beat, startedAt, noteLen, note...

const (
	maxSpaces  = 64
	pageSize   = 4096
	maxWorkers = 16
	noteMax    = pageSize - 64
)

type shm struct{ mem []byte }

func openShm(path string, create bool) (*shm, error) {
	flags := os.O_RDWR
	if create {
		flags |= os.O_CREATE | os.O_TRUNC
	}
	f, err := os.OpenFile(path, flags, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := pageSize * (1 + maxWorkers)
	if create {
		if err := f.Truncate(int64(size)); err != nil {
			return nil, err
		}
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &shm{mem}, nil
}

func (s *shm) word(off int) *int64 { return (*int64)(unsafe.Pointer(&s.mem[off])) }
func (s *shm) stop() *int64        { return s.word(0) }
func (s *shm) next(k int) *int64   { return s.word(8 + 8*k) }
func (s *shm) w(k, field int) *int64 {
	return s.word(pageSize*(1+k) + 8*field)
}

// ---- worker

type worker struct {
	s  *shm
	id int
}

func (w *worker) beat() { atomic.AddInt64(w.s.w(w.id, 2), 1) }
func (w *worker) note(t string) {
	b := []byte(t)
	if len(b) > noteMax {
		b = b[:noteMax]
	}
	base := pageSize*(1+w.id) + 64
	atomic.StoreInt64(w.s.w(w.id, 4), 0)
	copy(w.s.mem[base:], b)
	atomic.StoreInt64(w.s.w(w.id, 4), int64(len(b)))
	w.beat()
}

// Failure is a failing case.
type Failure struct {
	Space string   `json:"space"`
	Index int64    `json:"index"`
	Key   string   `json:"key"`
	Msg   string   `json:"msg"`
	Note  string   `json:"note,omitempty"`
	Trail []string `json:"trail,omitempty"`
}

type workerResult struct {
	Evals, Steps, Traces int64
	StatesCapped         bool
	Outcomes             map[string]int64
	Skips                map[string]int64
	Samples              []string
	Failures             []Failure // first failure per key
	PerSpace             map[string]int64
	Deadline             bool
}

// NewEnvForTest is an Env without a worker process.
func NewEnvForTest() *Env { return newEnv(false, 1, nil) }

func newEnv(thorough bool, seed int64, w *worker) *Env {
	return &Env{Thorough: thorough, Seed: seed, states: map[uint64]struct{}{}, outcomes: map[string]int64{},
		skips: map[string]int64{}, sampleEvery: 97, w: w}
}

// runCase runs one case; it returns a failure or nil.
func runCase(e *Env, sp *Space, idx int64) (f *Failure) {
	e.trail = nil
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failSignal:
				f = &Failure{Space: sp.Name, Index: idx, Key: v.Key, Msg: v.Msg, Trail: e.trail}
			case skipSignal:
				e.skips[v.reason]++
			default:
				f = &Failure{Space: sp.Name, Index: idx, Key: "panic", Msg: fmt.Sprintf("panic: %v", r), Trail: append(e.trail, stackLines()...)}
			}
			if f != nil && e.w != nil {
				n := int(atomic.LoadInt64(e.w.s.w(e.w.id, 4)))
				base := pageSize*(1+e.w.id) + 64
				f.Note = string(e.w.s.mem[base : base+n])
			}
		}
	}()
	e.evals++
	sp.Run(e, idx)
	if len(e.samples) < 3 && e.evals%e.sampleEvery < 3 {
		e.samples = append(e.samples, fmt.Sprintf("%s, case %d: judged, no violation (./check --replay with {space,index} re-runs it)", sp.Name, idx))
	}
	return nil
}

func stackLines() []string {
	st := strings.Split(string(debug.Stack()), "\n")
	if len(st) > 60 {
		st = st[:60]
	}
	return st
}

// WorkerMain is the entry point of worker processes.
func WorkerMain(args []string) {
	// args: id tier seed shmPath workerID resultPath deadlineUnix [only space:idx]
	id, tier, seedS, shmPath, widS, resPath, deadS := args[0], args[1], args[2], args[3], args[4], args[5], args[6]
	only := ""
	if len(args) > 7 {
		only = args[7]
	}
	log.SetOutput(io.Discard)
	seed, _ := strconv.ParseInt(seedS, 10, 64)
	wid, _ := strconv.Atoi(widS)
	deadN, _ := strconv.ParseInt(deadS, 10, 64)
	deadline := time.Unix(deadN, 0)
	c := Find(id)
	s, err := openShm(shmPath, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	lim := uint64(3) << 30
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	w := &worker{s, wid}
	e := newEnv(tier == "thorough", seed, w)
	spaces := c.Spaces(e.Thorough)
	res := workerResult{PerSpace: map[string]int64{}}
	known := map[string]bool{}
	if only != "" {
		e.verbose = true
	}
	record := func(f *Failure) bool {
		// one failure per key is enough; stop on the first not yet listed
		if known[f.Key] {
			return false
		}
		known[f.Key] = true
		res.Failures = append(res.Failures, *f)
		return !isKnown(id, f.Key)
	}
	e.soft = func(key, msg string) bool {
		if !isKnown(id, key) {
			return false
		}
		record(&Failure{Key: key, Msg: msg})
		return true
	}
loop:
	for k := range spaces {
		sp := &spaces[k]
		if only != "" {
			i := strings.LastIndex(only, ":")
			if only[:i] != sp.Name {
				continue
			}
			idx, _ := strconv.ParseInt(only[i+1:], 10, 64)
			w.setCase(k, idx)
			if f := runCase(e, sp, idx); f != nil {
				record(f)
			}
			break
		}
		batch := sp.Batch
		if batch <= 0 {
			batch = sp.N / 2000
			if batch < 1 {
				batch = 1
			}
			if batch > 256 {
				batch = 256
			}
		}
		for {
			lo := atomic.AddInt64(s.next(k), batch) - batch
			if lo >= sp.N {
				break
			}
			hi := lo + batch
			if hi > sp.N {
				hi = sp.N
			}
			for i := lo; i < hi; i++ {
				if atomic.LoadInt64(s.stop()) != 0 {
					break loop
				}
				if (i&15) == 0 || batch == 1 {
					if time.Now().After(deadline) {
						res.Deadline = true
						break loop
					}
				}
				w.setCase(k, i)
				if f := runCase(e, sp, i); f != nil {
					if record(f) {
						atomic.StoreInt64(s.stop(), 1)
						break loop
					}
				}
				res.PerSpace[sp.Name]++
			}
		}
	}
	w.setCase(-1, -1)
	res.Evals, res.Steps, res.Traces = e.evals, e.steps, e.traces
	res.StatesCapped = e.statesCapped
	res.Outcomes, res.Skips, res.Samples = e.outcomes, e.skips, e.samples
	// states go to a binary file
	buf := make([]byte, 0, 8*len(e.states))
	for h := range e.states {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	os.WriteFile(resPath+".states", buf, 0o600)
	j, _ := json.Marshal(&res)
	os.WriteFile(resPath+".tmp", j, 0o600)
	os.Rename(resPath+".tmp", resPath)
	os.Exit(0)
}

func (w *worker) setCase(space int, idx int64) {
	atomic.StoreInt64(w.s.w(w.id, 0), int64(space))
	atomic.StoreInt64(w.s.w(w.id, 1), idx)
	atomic.StoreInt64(w.s.w(w.id, 4), 0)
	w.beat()
}

// ---- known findings

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

// VerifDir is where /verif is.
var VerifDir = "/verif"

var knownCache *knownFile

func loadKnown() *knownFile {
	if knownCache == nil {
		knownCache = &knownFile{}
		if b, err := os.ReadFile(filepath.Join(VerifDir, "known_findings.json")); err == nil {
			if err := json.Unmarshal(b, knownCache); err != nil {
				fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			}
		}
	}
	return knownCache
}

func isKnown(id, key string) bool {
	for _, f := range loadKnown().Findings {
		if f.Property == id && f.Key == key {
			return true
		}
	}
	return false
}

func knownWhat(id, key string) string {
	for _, f := range loadKnown().Findings {
		if f.Property == id && f.Key == key {
			return f.What
		}
	}
	return ""
}

// ---- parent

type proc struct {
	cmd     *exec.Cmd
	wid     int
	res     string
	stderr  string
	done    chan error
	lastB   int64
	lastT   time.Time
	started time.Time
}

func spawn(self, id, tier string, seed int64, shmPath, scratch string, wid, gen int, deadline time.Time, only string) (*proc, error) {
	res := filepath.Join(scratch, fmt.Sprintf("res.%d.%d", wid, gen))
	errf := res + ".stderr"
	args := []string{"worker", id, tier, fmt.Sprint(seed), shmPath, fmt.Sprint(wid), res, fmt.Sprint(deadline.Unix())}
	if only != "" {
		args = append(args, only)
	}
	cmd := exec.Command(self, args...)
	ef, err := os.Create(errf)
	if err != nil {
		return nil, err
	}
	defer ef.Close()
	cmd.Stderr = ef
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, wid: wid, res: res, stderr: errf, done: make(chan error, 1), lastT: time.Now(), started: time.Now()}
	go func() { p.done <- cmd.Wait() }()
	return p, nil
}

func tailFile(p string, n int) string {
	f, err := os.Open(p)
	if err != nil {
		return ""
	}
	defer f.Close()
	b := make([]byte, n)
	m, _ := io.ReadFull(f, b)
	return string(bytes.TrimSpace(b[:m]))
}

// Options of a run.
type Options struct {
	Tier   string
	Seed   int64
	Budget time.Duration
	Jobs   int
}

// HangLimit is how long a worker may stay in one step before it counts as
// endless; steps take milliseconds.
var HangLimit = 60 * time.Second

// RunCheck runs the check of a property and returns the exit code.
func RunCheck(id string, o Options) int {
	c := Find(id)
	if c == nil {
		fmt.Printf("no check for %s\n", id)
		return 2
	}
	start := time.Now()
	self, _ := os.Executable()
	scratch, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	os.Setenv("MC_SCRATCH", scratch)
	shmPath := filepath.Join(scratch, "shm")
	s, err := openShm(shmPath, true)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	spaces := c.Spaces(o.Tier == "thorough")
	if len(spaces) > maxSpaces {
		fmt.Println("too many spaces")
		return 2
	}
	deadline := start.Add(o.Budget)
	hard := deadline.Add(HangLimit + 30*time.Second)
	jobs := o.Jobs
	if jobs <= 0 {
		jobs = runtime.NumCPU()
	}
	if jobs > maxWorkers {
		jobs = maxWorkers
	}

	type suspect struct {
		f    Failure
		hang bool
	}
	var suspects []suspect
	var lost []string
	agg := workerResult{Outcomes: map[string]int64{}, Skips: map[string]int64{}, PerSpace: map[string]int64{}}
	states := map[uint64]struct{}{}
	merge := func(p *proc) bool {
		b, err := os.ReadFile(p.res)
		if err != nil {
			return false
		}
		var r workerResult
		if json.Unmarshal(b, &r) != nil {
			return false
		}
		agg.Evals += r.Evals
		agg.Steps += r.Steps
		agg.Traces += r.Traces
		agg.StatesCapped = agg.StatesCapped || r.StatesCapped
		agg.Deadline = agg.Deadline || r.Deadline
		for k, v := range r.Outcomes {
			agg.Outcomes[k] += v
		}
		for k, v := range r.Skips {
			agg.Skips[k] += v
		}
		for k, v := range r.PerSpace {
			agg.PerSpace[k] += v
		}
		for _, x := range r.Samples {
			if len(agg.Samples) < 8 {
				agg.Samples = append(agg.Samples, x)
			}
		}
		for _, f := range r.Failures {
			suspects = append(suspects, suspect{f: f})
		}
		if sb, err := os.ReadFile(p.res + ".states"); err == nil {
			for i := 0; i+8 <= len(sb); i += 8 {
				states[binary.LittleEndian.Uint64(sb[i:])] = struct{}{}
			}
		}
		return true
	}
	crashFailure := func(p *proc, what string) (Failure, bool) {
		k := atomic.LoadInt64(s.w(p.wid, 0))
		idx := atomic.LoadInt64(s.w(p.wid, 1))
		if k < 0 || int(k) >= len(spaces) {
			return Failure{}, false
		}
		n := int(atomic.LoadInt64(s.w(p.wid, 4)))
		base := pageSize*(1+p.wid) + 64
		note := string(s.mem[base : base+n])
		return Failure{Space: spaces[k].Name, Index: idx, Key: what, Msg: what + ": " + tailFile(p.stderr, 1500), Note: note}, true
	}
	live := map[int]*proc{}
	gen := 0
	restarts := 0
	for w := 0; w < jobs; w++ {
		p, err := spawn(self, id, o.Tier, o.Seed, shmPath, scratch, w, gen, deadline, "")
		if err != nil {
			fmt.Println(err)
			return 2
		}
		live[w] = p
	}
	var internal []string
	for len(live) > 0 {
		time.Sleep(20 * time.Millisecond)
		for w, p := range live {
			select {
			case err := <-p.done:
				delete(live, w)
				if merge(p) {
					continue
				}
				// abnormal end: attribute to the case it was in
				what := "process terminated"
				if err != nil {
					what += " (" + err.Error() + ")"
				}
				f, ok := crashFailure(p, what)
				f.Key = "terminated"
				if !ok {
					internal = append(internal, what+": "+tailFile(p.stderr, 800))
					continue
				}
				lost = append(lost, fmt.Sprintf("%s:%d", f.Space, f.Index))
				suspects = append(suspects, suspect{f: f})
				atomic.StoreInt64(s.stop(), 1)
			default:
				b := atomic.LoadInt64(s.w(w, 2))
				if b != p.lastB {
					p.lastB, p.lastT = b, time.Now()
				} else if time.Since(p.lastT) > HangLimit || time.Now().After(hard) {
					syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
					<-p.done
					delete(live, w)
					f, ok := crashFailure(p, "no progress")
					f.Key = "hang"
					if ok {
						suspects = append(suspects, suspect{f: f, hang: true})
						lost = append(lost, fmt.Sprintf("%s:%d", f.Space, f.Index))
						atomic.StoreInt64(s.stop(), 1)
					}
				}
			}
		}
		_ = restarts
	}
	// confirm suspects by replaying them in fresh processes
	violations := 0
	var confirmed []Failure
	knownHit := map[string]bool{}
	var unconfirmed []string
	sort.SliceStable(suspects, func(i, j int) bool { return suspects[i].f.Index < suspects[j].f.Index })
	for _, su := range suspects {
		if isKnown(id, su.f.Key) {
			knownHit[su.f.Key] = true
			continue
		}
		if violations > 0 {
			continue
		}
		times, need := 5, 1
		if su.hang {
			times = 2
		}
		hits := 0
		var last Failure
		for t := 0; t < times; t++ {
			f, bad := Replay(self, id, o, su.f.Space, su.f.Index, scratch, shmPath)
			if bad {
				hits++
				last = f
			}
		}
		if hits >= need {
			if last.Key != "" && isKnown(id, last.Key) {
				knownHit[last.Key] = true
				continue
			}
			violations++
			last.Msg = fmt.Sprintf("%s [reproduced %d/%d]", last.Msg, hits, times)
			confirmed = append(confirmed, last)
		} else {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s:%d %s %s", su.f.Space, su.f.Index, su.f.Key, su.f.Msg))
		}
	}
	var total, doneN int64
	bounds := map[string]interface{}{}
	for i := range spaces {
		total += spaces[i].N
		doneN += agg.PerSpace[spaces[i].Name]
		bounds[spaces[i].Name] = map[string]interface{}{"cases": spaces[i].N, "completed": agg.PerSpace[spaces[i].Name], "bound": spaces[i].Bound}
	}
	exhaustive := doneN == total && len(lost) == 0 && !agg.Deadline
	keys := make([]string, 0)
	for k := range knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, knownWhat(id, k))
	}
	cov := map[string]interface{}{
		"samples":                agg.Samples,
		"exhaustive":             exhaustive,
		"spaces":                 bounds,
		"outcomes":               agg.Outcomes,
		"distinct_outcome_kinds": len(agg.Outcomes),
		"not_judged":             agg.Skips,
		"states_capped":          agg.StatesCapped,
		"workers":                jobs,
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed_suspects"] = unconfirmed
	}
	if len(internal) > 0 {
		cov["internal_errors"] = internal
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = len(states)
		cov["transitions"] = agg.Steps
		cov["traces_validated_against_impl"] = agg.Traces
		cov["rule"] = c.Rule
	default:
		cov["evaluations"] = agg.Evals
		cov["distinct_nontrivial"] = len(states)
		cov["rule"] = c.Rule
		cov["api_calls"] = agg.Steps
	}
	ev := map[string]interface{}{
		"property": id, "tier": o.Tier, "seed": o.Seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if agg.Samples == nil {
		cov["samples"] = []string{}
	}
	os.MkdirAll(filepath.Join(VerifDir, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(VerifDir, "evidence", id+".json"), append(j, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: cases=%d/%d evals=%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n",
		id, doneN, total, agg.Evals, len(states), agg.Steps, agg.Traces, len(agg.Outcomes), exhaustive, time.Since(start).Seconds())
	for _, u := range unconfirmed {
		fmt.Println("unconfirmed suspect (not reproduced, not reported):", u)
	}
	if violations > 0 {
		f := confirmed[0]
		dir := filepath.Join(VerifDir, "out", "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, sanitize(f.Space), f.Index))
		rep := map[string]interface{}{"property": id, "tier": o.Tier, "seed": o.Seed, "failure": f,
			"how": "/verif/check --replay " + path}
		j, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, j, 0o644)
		msg := f.Msg
		if len(msg) > 1500 {
			msg = msg[:1500]
		}
		fmt.Printf("  %s:%d [%s] %s\n", f.Space, f.Index, f.Key, msg)
		if f.Note != "" {
			fmt.Printf("  at: %s\n", f.Note)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if len(internal) > 0 {
		fmt.Println("internal errors:", strings.Join(internal, "; "))
		return 2
	}
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

var replayGen int

// Replay runs one case in a fresh process and tells whether it fails.
func Replay(self, id string, o Options, space string, idx int64, scratch, shmPath string) (Failure, bool) {
	replayGen++
	rs := shmPath + fmt.Sprintf(".replay%d", replayGen)
	s, err := openShm(rs, true)
	if err != nil {
		return Failure{}, false
	}
	p, err := spawn(self, id, o.Tier, o.Seed, rs, scratch, 0, 1000+replayGen, time.Now().Add(time.Hour), fmt.Sprintf("%s:%d", space, idx))
	if err != nil {
		return Failure{}, false
	}
	f := Failure{Space: space, Index: idx}
	readNote := func() {
		n := int(atomic.LoadInt64(s.w(0, 4)))
		f.Note = string(s.mem[pageSize+64 : pageSize+64+n])
	}
	for {
		select {
		case err := <-p.done:
			b, rerr := os.ReadFile(p.res)
			if rerr == nil {
				var r workerResult
				if json.Unmarshal(b, &r) == nil {
					if len(r.Failures) > 0 {
						return r.Failures[0], true
					}
					return f, false
				}
			}
			f.Key = "terminated"
			f.Msg = fmt.Sprintf("process terminated (%v): %s", err, tailFile(p.stderr, 1500))
			readNote()
			return f, true
		case <-time.After(100 * time.Millisecond):
			b := atomic.LoadInt64(s.w(0, 2))
			if b != p.lastB {
				p.lastB, p.lastT = b, time.Now()
			} else if time.Since(p.lastT) > HangLimit/2 {
				syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
				<-p.done
				f.Key, f.Msg = "hang", fmt.Sprintf("no progress for %v", HangLimit/2)
				readNote()
				return f, true
			}
		}
	}
}

// ReplayFile replays a replay file in this process's children.
func ReplayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property, Tier string
		Seed           int64
		Failure        Failure
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	self, _ := os.Executable()
	scratch, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(scratch)
	os.Setenv("MC_SCRATCH", scratch)
	f, bad := Replay(self, r.Property, Options{Tier: r.Tier, Seed: r.Seed}, r.Failure.Space, r.Failure.Index, scratch, filepath.Join(scratch, "shm"))
	if !bad {
		fmt.Println("does not fail")
		return 0
	}
	for _, l := range f.Trail {
		fmt.Println("   ", l)
	}
	fmt.Printf("%s:%d [%s] %s\n", f.Space, f.Index, f.Key, f.Msg)
	if f.Note != "" {
		fmt.Println("at:", f.Note)
	}
	return 1
}
