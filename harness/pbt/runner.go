package pbt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one executable property.
type Prop struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Quick       int    // cases in the quick tier
	Thorough    int    // cases in the thorough tier
	Run         func(*T)
	Assumptions []string
	// Directed cases run before the generated ones (they are replayed as
	// case indexes < len(Directed)); used for exhaustive enumerations.
	Exhaustive bool
	// MaxWorkers limits the number of worker processes (0: number of CPUs).
	MaxWorkers int
	// Setup runs once per process before the first case.
	Setup func()
}

type failRec struct {
	Index   int
	Msg     string
	Desc    string
	Choices []uint64
	Shrunk  bool
}

type workerOut struct {
	Evals    int
	Cases    int
	Skipped  int
	Nontriv  int
	Labels   map[string]int
	Samples  []string
	Fail     *failRec
	Finished bool
	// Died counts the cases that ended the process for want of memory, which
	// says nothing about the property; they are left out.
	Died  int
	Error string
}

// Replay is what a replay file holds.
type Replay struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Index    int      `json:"case_index"`
	Choices  []uint64 `json:"choices"`
	Crash    bool     `json:"crashes_process"`
	Variant  string   `json:"variant,omitempty"`
	Message  string   `json:"message"`
	Case     string   `json:"case"`
	HowTo    string   `json:"how_to_replay"`
}

// finding is one line "finding: property=<id> match=/<regexp>/ <text>" of the
// known findings file; the expression over the failure message singles the
// finding out. Lines "fixed: ..." are a record and suppress nothing.
type finding struct {
	Property, Match, Text string
}

var props = map[string]*Prop{}

// Register adds a property to this binary.
func Register(p *Prop) { props[p.ID] = p }

var (
	fProp     = flag.String("prop", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Int64("seed", 1, "seed")
	fEvidence = flag.String("evidence", "", "evidence file to write")
	fReplays  = flag.String("replays", "", "directory for replay files")
	fReplay   = flag.String("replay", "", "replay file to run")
	fKnown    = flag.String("known", "", "known findings file")
	fWorker   = flag.Int("worker", -1, "worker index")
	fOf       = flag.Int("of", 1, "number of workers")
	fDir      = flag.String("dir", "", "scratch directory of this run")
	fCases    = flag.Int("cases", 0, "number of cases (0: tier default)")
	fOne      = flag.String("one", "", "run the choices in this file in this process")
	fVariant  = flag.String("variant", "", "how this binary was built, if not in the usual way")
	fOneIdx   = flag.Int("oneidx", 0, "case index of -one")
	fOneGen   = flag.Bool("onegen", false, "generate case -oneidx instead of reading choices")
	fFrom     = flag.Int("from", 0, "with -worker, the case to go on with after the process died")
	fGuided   = flag.String("guided", "", "search with this test binary, guided by coverage")
	fFuzzTime = flag.Int("fuzztime", 300, "with -guided, for how many seconds")
	fOneBytes = flag.String("onebytes", "", "run the choices encoded in this file in this process")
	fSoft     = flag.Int("soft", 0, "soft wall limit in seconds")
)

// ScratchDir is a directory private to this process.
func ScratchDir() string { return *fDir }

var (
	cpuLimit   = 120 * time.Second
	blockLimit = 240 * time.Second
	// fast gives verdicts only: for trying many changes to the code.
	fast = os.Getenv("VERIF_FAST") != ""
)

// Main runs the command line.
func Main() {
	flag.Parse()
	if fast {
		cpuLimit, blockLimit = 15*time.Second, 40*time.Second
	}
	p, ok := props[*fProp]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	switch {
	case *fWorker >= 0:
		worker(p)
	case *fGuided != "":
		os.Exit(guided(p))
	case *fOne != "" || *fOneGen || *fOneBytes != "":
		one(p)
	case *fReplay != "":
		os.Exit(replay(p))
	default:
		os.Exit(parent(p))
	}
}

func newT(p *Prop, idx int) *T {
	t := NewSeeded(p.ID, *fSeed, idx)
	t.Thorough = *fTier == "thorough"
	return t
}

func isolate() {
	debug.SetMemoryLimit(1 << 30)
	debug.SetGCPercent(1000) // the live heap is small
}

// one runs a single case in this process; exit 3 = property failed,
// anything abnormal = crash.
func one(p *Prop) {
	isolate()
	if p.Setup != nil {
		p.Setup()
	}
	var t *T
	if *fOneGen {
		t = newT(p, *fOneIdx)
	} else if *fOneBytes != "" {
		b, err := os.ReadFile(*fOneBytes)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		t = NewBytes(b)
		t.Thorough = *fTier == "thorough"
	} else {
		b, err := os.ReadFile(*fOne)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		var c []uint64
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		t = NewReplay(c, *fOneIdx)
		t.Thorough = *fTier == "thorough"
	}
	os.WriteFile(filepath.Join(*fDir, "one.desc"), nil, 0o666)
	t.onDesc = func(s string) { os.WriteFile(filepath.Join(*fDir, "one.desc"), []byte(s), 0o666) }
	t.onRec = filepath.Join(*fDir, "one.rec")
	o := Run(t, p.Run)
	if o.Failed {
		fmt.Println(o.Msg)
		os.Exit(3)
	}
	os.Exit(0)
}

func worker(p *Prop) {
	isolate()
	if p.Setup != nil {
		p.Setup()
	}
	n := *fCases
	out := workerOut{Labels: map[string]int{}}
	pf, err := os.OpenFile(filepath.Join(*fDir, fmt.Sprintf("progress.%d", *fWorker)), os.O_CREATE|os.O_RDWR, 0o666)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var pb [8]byte
	hashes := map[uint64]struct{}{}
	start := time.Now()
	procs := runtime.GOMAXPROCS(0)
	first := *fWorker
	if *fFrom > 0 {
		first = *fFrom
		if b, err := os.ReadFile(outFile(*fDir, *fWorker)); err == nil {
			json.Unmarshal(b, &out)
		}
		hb, _ := os.ReadFile(filepath.Join(*fDir, fmt.Sprintf("hashes.%d", *fWorker)))
		for i := 0; i+8 <= len(hb); i += 8 {
			hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
		out.Died++
	}
	saved := time.Now()
	for idx := first; idx < n; idx += *fOf {
		if time.Since(saved) > 5*time.Second {
			writeOut(&out, hashes)
			saved = time.Now()
		}
		if *fSoft > 0 && time.Since(start) > time.Duration(*fSoft)*time.Second {
			break
		}
		binary.LittleEndian.PutUint64(pb[:], uint64(idx)+1)
		pf.WriteAt(pb[:], 0)
		runtime.GOMAXPROCS(procs)
		t := newT(p, idx)
		o := Run(t, p.Run)
		out.Cases++
		out.Evals += 1 + t.evals
		if o.Skipped {
			out.Skipped++
			continue
		}
		for k, v := range t.labels {
			out.Labels[k] += v
		}
		if t.nontriv {
			hashes[t.hash()] = struct{}{}
			if len(out.Samples) < 2 && t.desc.Len() > 0 && t.desc.Len() < 3000 {
				out.Samples = append(out.Samples, fmt.Sprintf("case %d: %s", idx, t.desc.String()))
			}
		}
		if o.Failed {
			f := &failRec{Index: idx, Msg: o.Msg, Desc: t.desc.String(), Choices: t.rec}
			out.Fail = f
			writeOut(&out, hashes) // in case shrinking crashes the process
			shrinkIn(p, f)
			break
		}
	}
	out.Finished = true
	writeOut(&out, hashes)
	os.Exit(0)
}

func shrinkIn(p *Prop, f *failRec) {
	if fast {
		return
	}
	t0 := time.Now()
	tries := 0
	budget := func() bool { return tries < 4000 && time.Since(t0) < 20*time.Second }
	best := *f
	Shrink(f.Choices, func(c []uint64) (bool, []uint64) {
		tries++
		t := NewReplay(c, f.Index)
		t.Thorough = *fTier == "thorough"
		o := Run(t, p.Run)
		if !o.Failed {
			return false, nil
		}
		if len(t.rec) < len(best.Choices) || (len(t.rec) == len(best.Choices)) {
			best.Msg, best.Desc, best.Choices = o.Msg, t.desc.String(), append([]uint64(nil), t.rec...)
		}
		return true, t.rec
	}, budget)
	best.Shrunk = true
	*f = best
}

func writeOut(out *workerOut, hashes map[uint64]struct{}) {
	out.Nontriv = len(hashes)
	b, err := json.Marshal(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var hb bytes.Buffer
	for h := range hashes {
		binary.Write(&hb, binary.LittleEndian, h)
	}
	os.WriteFile(filepath.Join(*fDir, fmt.Sprintf("hashes.%d", *fWorker)), hb.Bytes(), 0o666)
	f := outFile(*fDir, *fWorker)
	os.WriteFile(f+".tmp", b, 0o666)
	os.Rename(f+".tmp", f)
}

func outFile(dir string, worker int) string {
	return filepath.Join(dir, fmt.Sprintf("out.%d", worker))
}

func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	fs := strings.Fields(s)
	if len(fs) < 14 {
		return 0
	}
	u, _ := strconv.Atoi(fs[11])
	k, _ := strconv.Atoi(fs[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

type runRes struct {
	hang bool
	code int
	sig  string
	out  string
}

// watch starts cmd and waits for it, ending it when its current case makes no
// progress: cpuLimit of processor time in one case, or blockLimit without
// using the processor.
func watch(cmd *exec.Cmd, progress func() uint64, stop <-chan struct{}) runRes {
	var buf limited
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return runRes{code: 4, out: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var last uint64 = ^uint64(0)
	var cpu0 time.Duration
	var wall0 time.Time
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	kill := func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL); <-done }
	for {
		select {
		case err := <-done:
			r := runRes{out: buf.String()}
			if err != nil {
				r.code = cmd.ProcessState.ExitCode()
				if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
					r.sig = ws.Signal().String()
					r.code = -1
				}
			}
			return r
		case <-stop:
			kill()
			return runRes{sig: "stopped", code: -2, out: buf.String()}
		case <-tick.C:
			p := progress()
			c := cpuTime(cmd.Process.Pid)
			if p != last {
				last, cpu0, wall0 = p, c, time.Now()
				continue
			}
			if c-cpu0 > cpuLimit {
				kill()
				return runRes{hang: true, out: fmt.Sprintf("case did not end within %v of processor time", cpuLimit)}
			}
			if time.Since(wall0) > blockLimit && c-cpu0 < 5*time.Second {
				kill()
				return runRes{hang: true, out: fmt.Sprintf("case blocked for %v without using the processor", blockLimit)}
			}
		}
	}
}

type limited struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *limited) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

func self() string {
	s, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return s
}

// isCrash tells a crash caused by the code under test from one that says
// nothing about it (out of memory, killed from outside).
func isCrash(r runRes) bool {
	if r.hang {
		return true
	}
	if wantsMemory(r) {
		return false
	}
	return strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:") || strings.Contains(r.out, "WARNING: DATA RACE")
}

func wantsMemory(r runRes) bool {
	return strings.Contains(r.out, "out of memory") || strings.Contains(r.out, "cannot allocate memory") ||
		strings.Contains(r.out, "failed to create new OS thread") || strings.Contains(r.out, "resource temporarily unavailable")
}

func runOne(p *Prop, dir string, idx int, choices []uint64, gen bool) (runRes, string, []uint64) {
	return runCase(p, dir, idx, choices, nil, gen)
}

func runCase(p *Prop, dir string, idx int, choices []uint64, raw []byte, gen bool) (runRes, string, []uint64) {
	d, err := os.MkdirTemp(dir, "one")
	if err != nil {
		return runRes{code: 4, out: err.Error()}, "", nil
	}
	defer os.RemoveAll(d)
	args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-dir", d, "-oneidx", fmt.Sprint(idx)}
	if raw != nil {
		bf := filepath.Join(d, "bytes")
		os.WriteFile(bf, raw, 0o666)
		args = append(args, "-onebytes", bf)
	} else if gen {
		args = append(args, "-onegen")
	} else {
		cf := filepath.Join(d, "choices")
		b, _ := json.Marshal(choices)
		os.WriteFile(cf, b, 0o666)
		args = append(args, "-one", cf)
	}
	cmd := exec.Command(self(), args...)
	r := watch(cmd, func() uint64 { return 0 }, nil)
	desc, _ := os.ReadFile(filepath.Join(d, "one.desc"))
	rec, _ := os.ReadFile(filepath.Join(d, "one.rec"))
	var rc []uint64
	for i := 0; i+8 <= len(rec); i += 8 {
		rc = append(rc, binary.LittleEndian.Uint64(rec[i:]))
	}
	return r, string(desc), rc
}

func parent(p *Prop) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp(*fDir, "run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := *fCases
	if n == 0 {
		n = p.Quick
		if *fTier == "thorough" {
			n = p.Thorough
		}
	}
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	if p.MaxWorkers > 0 && w > p.MaxWorkers {
		w = p.MaxWorkers
	}
	if w > n {
		w = n
	}
	soft := *fSoft
	if soft == 0 {
		soft = 240
		if *fTier == "thorough" {
			soft = 3 * 3600
		}
	}
	type res struct {
		i int
		r runRes
	}
	ch := make(chan res, w)
	stop := make(chan struct{})
	spawn := func(i, from int) {
		left := soft - int(time.Since(t0).Seconds())
		if left < 1 {
			left = 1
		}
		args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-dir", dir, "-from", fmt.Sprint(from),
			"-worker", fmt.Sprint(i), "-of", fmt.Sprint(w), "-cases", fmt.Sprint(n), "-soft", fmt.Sprint(left)}
		cmd := exec.Command(self(), args...)
		pfn := filepath.Join(dir, fmt.Sprintf("progress.%d", i))
		go func(i int) {
			ch <- res{i, watch(cmd, func() uint64 { return readProgress(pfn) }, stop)}
		}(i)
	}
	for i := 0; i < w; i++ {
		spawn(i, 0)
	}
	// about one damaged file in 40000 declares a legal picture that is too big
	mayDie := 8 + n/4000
	var fail *failRec
	crash := false
	errMsg := ""
	stopped := false
	stopAll := func() {
		if !stopped {
			stopped = true
			close(stop)
		}
	}
	agg := workerOut{Labels: map[string]int{}}
	hashes := map[uint64]struct{}{}
	for k := 0; k < w; k++ {
		x := <-ch
		var o workerOut
		b, err := os.ReadFile(outFile(dir, x.i))
		if err == nil {
			json.Unmarshal(b, &o)
		}
		if o.Fail == nil && !o.Finished && x.r.sig != "stopped" && fail == nil && errMsg == "" && mayDie > 0 && !isCrash(x.r) {
			if idx := int(readProgress(filepath.Join(dir, fmt.Sprintf("progress.%d", x.i)))) - 1; idx >= 0 && (x.r.sig == "killed" || wantsMemory(x.r)) {
				mayDie--
				spawn(x.i, idx+w)
				k--
				continue
			}
		}
		agg.Died += o.Died
		agg.Evals += o.Evals
		agg.Cases += o.Cases
		agg.Skipped += o.Skipped
		for l, c := range o.Labels {
			agg.Labels[l] += c
		}
		agg.Samples = append(agg.Samples, o.Samples...)
		hb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hashes.%d", x.i)))
		for i := 0; i+8 <= len(hb); i += 8 {
			hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
		if o.Fail != nil {
			if fail == nil || (crash && o.Fail.Shrunk) {
				fail, crash = o.Fail, false
			}
			stopAll()
			continue
		}
		if x.r.sig == "stopped" || o.Finished {
			continue
		}
		// the worker died
		idx := int(readProgress(filepath.Join(dir, fmt.Sprintf("progress.%d", x.i)))) - 1
		if idx < 0 || fail != nil {
			if idx < 0 {
				errMsg = fmt.Sprintf("worker %d ended before its first case: code %d %s\n%s", x.i, x.r.code, x.r.sig, x.r.out)
			}
			continue
		}
		if !isCrash(x.r) {
			errMsg = fmt.Sprintf("worker %d died in case %d: code %d %s\n%s", x.i, idx, x.r.code, x.r.sig, tail(x.r.out))
			continue
		}
		stopAll()
		if fast {
			fail, crash = &failRec{Index: idx, Msg: x.r.out}, true
		} else if f := confirmCrash(p, dir, idx, x.r); f != nil {
			fail, crash = f, true
		} else if errMsg == "" {
			errMsg = fmt.Sprintf("worker %d died in case %d and the case did not fail again: code %d %s\n%s", x.i, idx, x.r.code, x.r.sig, tail(x.r.out))
		}
	}
	code := 0
	violations := 0
	if fail != nil {
		if kf := matchKnown(p, fail.Msg); kf != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, kf.Text)
		} else {
			violations = 1
			path := writeReplay(p, fail, crash)
			fmt.Printf("%s\n--- case\n%s\n", tail(fail.Msg), tail(fail.Desc))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			code = 1
		}
	} else if errMsg != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", errMsg)
		code = 2
	}
	writeEvidence(p, &agg, len(hashes), n, w, time.Since(t0), violations)
	fmt.Printf("property=%s tier=%s seed=%d cases=%d/%d evaluations=%d distinct_nontrivial=%d wall=%.1fs exit=%d\n",
		p.ID, *fTier, *fSeed, agg.Cases, n, agg.Evals, len(hashes), time.Since(t0).Seconds(), code)
	return code
}

func tail(s string) string {
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

func readProgress(fn string) uint64 {
	b, err := os.ReadFile(fn)
	if err != nil || len(b) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}

// confirmCrash reruns a case that ended its process. A crash that needs a
// particular schedule is retried.
func confirmCrash(p *Prop, dir string, idx int, first runRes) *failRec {
	tries := 12
	if first.hang {
		tries = 1
	}
	var last *failRec
	for i := 0; i < tries; i++ {
		r, desc, rec := runOne(p, dir, idx, nil, true)
		if r.code == 3 {
			return &failRec{Index: idx, Msg: r.out, Desc: desc, Choices: rec}
		}
		if r.code == 0 && !r.hang || !isCrash(r) {
			// A panic or a race happened, even if it needs a particular
			// schedule to happen again; a case that did not end may have
			// been held up by something else.
			if !first.hang {
				last = &failRec{Index: idx, Msg: fmt.Sprintf("the process was brought down (not every time: it was not in %d runs of the case afterwards):\n%s", i+1, first.out), Desc: desc, Choices: rec}
			}
			continue
		}
		f := &failRec{Index: idx, Msg: "the process was brought down:\n" + r.out, Desc: desc, Choices: rec}
		if i > 0 || r.hang || len(rec) == 0 {
			return f // needs a schedule: no shrinking
		}
		t0 := time.Now()
		Shrink(rec, func(c []uint64) (bool, []uint64) {
			r, desc, rec := runOne(p, dir, idx, c, false)
			if r.code == 3 || (r.code != 0 && isCrash(r)) {
				f.Msg, f.Desc, f.Choices = "the process was brought down:\n"+r.out, desc, rec
				return true, rec
			}
			return false, nil
		}, func() bool { return time.Since(t0) < 40*time.Second })
		f.Shrunk = true
		return f
	}
	return last
}

func loadKnown() []finding {
	if *fKnown == "" {
		return nil
	}
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return nil
	}
	var fs []finding
	re := regexp.MustCompile(`^finding: property=(\S+) match=/(.*)/ (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			fs = append(fs, finding{m[1], m[2], m[3]})
		}
	}
	return fs
}

func matchKnown(p *Prop, msg string) *finding {
	for _, f := range loadKnown() {
		f := f
		if f.Property != p.ID || f.Match == "" {
			continue
		}
		if re, err := regexp.Compile(f.Match); err == nil && re.MatchString(msg) {
			return &f
		}
	}
	return nil
}

func writeReplay(p *Prop, f *failRec, crash bool) string {
	dir := *fReplays
	os.MkdirAll(dir, 0o777)
	r := Replay{Property: p.ID, Seed: *fSeed, Tier: *fTier, Index: f.Index, Choices: f.Choices, Crash: crash, Variant: *fVariant,
		Message: f.Msg, Case: f.Desc, HowTo: "bash /verif/check.sh " + p.ID + " replay <this file>"}
	b, _ := json.MarshalIndent(r, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-case%d%s.json", p.ID, *fSeed, f.Index, *fVariant))
	os.WriteFile(path, b, 0o666)
	return path
}

func replay(p *Prop) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	*fTier, *fSeed = r.Tier, r.Seed
	dir, err := os.MkdirTemp(*fDir, "replay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	tries := 1
	if r.Crash {
		tries = 20
	}
	for i := 0; i < tries; i++ {
		x, desc, _ := runOne(p, dir, r.Index, r.Choices, false)
		if x.code == 3 || (x.code != 0 || x.hang) && isCrash(x) {
			fmt.Printf("%s\n--- case\n%s\nVIOLATION property=%s replay=%s\n", tail(x.out), tail(desc), p.ID, *fReplay)
			return 1
		}
		if x.code != 0 {
			fmt.Fprintln(os.Stderr, x.out)
			return 2
		}
	}
	fmt.Println("the replayed case passes")
	return 0
}

func writeEvidence(p *Prop, agg *workerOut, distinct, planned, workers int, wall time.Duration, violations int) {
	if *fEvidence == "" {
		return
	}
	sort.Strings(agg.Samples)
	if len(agg.Samples) > 5 {
		agg.Samples = agg.Samples[:5]
	}
	if agg.Samples == nil {
		agg.Samples = []string{}
	}
	if p.Assumptions == nil {
		p.Assumptions = []string{}
	}
	cov := map[string]interface{}{
		"evaluations":         agg.Evals,
		"distinct_nontrivial": distinct,
		"rule":                p.Rule,
		"samples":             agg.Samples,
		"cases_generated":     agg.Cases,
		"cases_planned":       planned,
		"cases_discarded":     agg.Skipped + agg.Died,
		"workers":             workers,
		"classes":             agg.Labels,
	}
	if *fVariant != "" {
		// another run of the same check: it is added to the evidence of the first one
		var ev map[string]interface{}
		b, err := os.ReadFile(*fEvidence)
		if err != nil || json.Unmarshal(b, &ev) != nil {
			return
		}
		c, ok := ev["coverage"].(map[string]interface{})
		if !ok {
			return
		}
		c["as_"+*fVariant+"_build"] = map[string]interface{}{"seed": *fSeed, "evaluations": agg.Evals, "distinct_nontrivial": distinct, "cases_generated": agg.Cases}
		w, _ := ev["wall_s"].(float64)
		ev["wall_s"] = w + wall.Seconds()
		n, _ := ev["violations"].(float64)
		ev["violations"] = int(n) + violations
		b, _ = json.MarshalIndent(ev, "", " ")
		os.WriteFile(*fEvidence, append(b, '\n'), 0o666)
		return
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
		"assumptions": p.Assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(*fEvidence), 0o777)
	os.WriteFile(*fEvidence, append(b, '\n'), 0o666)
}
