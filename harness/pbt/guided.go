package pbt

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// FuzzTarget returns the function that the coverage-guided search calls with
// the choices of a case as bytes.  It returns what is wrong, if anything is.
func FuzzTarget() func(b []byte) string {
	p, ok := props[os.Getenv("VERIF_FUZZ_PROP")]
	if !ok {
		return func([]byte) string { return "" }
	}
	isolate()
	if d, err := os.MkdirTemp(os.Getenv("VERIF_FUZZ_DIR"), "w"); err == nil {
		*fDir = d
	}
	if p.Setup != nil {
		p.Setup()
	}
	procs := runtime.GOMAXPROCS(0)
	return func(b []byte) string {
		runtime.GOMAXPROCS(procs)
		o := Run(NewBytes(b), p.Run)
		runtime.GOMAXPROCS(procs)
		if o.Failed {
			return o.Msg
		}
		return ""
	}
}

var fuzzLine = regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+) \(total: (\d+)\)`)

// guided runs the native coverage-guided fuzzer on the choices of the cases.
func guided(p *Prop) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp(*fDir, "guided")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	corpus := filepath.Join(dir, "testdata", "fuzz", "FuzzProp")
	if err := os.MkdirAll(corpus, 0o777); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if p.Setup != nil {
		p.Setup()
	}
	procs := runtime.GOMAXPROCS(0)
	seeds := 0
	for i := 0; i < 600 && time.Since(t0) < time.Minute; i++ {
		t := newT(p, i)
		t.Thorough = false
		t.encOn = true
		Run(t, p.Run)
		if len(t.enc) > 4000 {
			continue
		}
		b := []byte("go test fuzz v1\n[]byte(" + strconv.QuoteToASCII(string(t.enc)) + ")\n")
		os.WriteFile(filepath.Join(corpus, fmt.Sprintf("seed-%d", i)), b, 0o666)
		seeds++
	}
	runtime.GOMAXPROCS(procs)
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	var n, k, c, died int
	var found []byte
	var log string
	stuck := false
	end := time.Now().Add(time.Duration(*fFuzzTime) * time.Second)
	for found == nil && !stuck && died < 100 {
		left := int(time.Until(end).Seconds())
		if left < 2 {
			break
		}
		cmd := exec.Command(*fGuided, "-test.run=^$", "-test.fuzz=^FuzzProp$", fmt.Sprintf("-test.fuzztime=%ds", left),
			"-test.fuzzminimizetime=40x", "-test.fuzzcachedir="+filepath.Join(dir, "cache"), fmt.Sprintf("-test.parallel=%d", w), "-test.timeout=0")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_FUZZ_PROP="+p.ID, "VERIF_FUZZ_DIR="+dir)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(time.Duration(left)*time.Second + 10*time.Minute):
			stuck = true
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		log = out.String()
		var m []string
		for _, m = range fuzzLine.FindAllStringSubmatch(log, -1) {
		}
		if m != nil {
			x, _ := strconv.Atoi(m[1])
			n += x
			x, _ = strconv.Atoi(m[2])
			k += x
			c, _ = strconv.Atoi(m[3])
		}
		// what it found
		fs, _ := os.ReadDir(corpus)
		for _, f := range fs {
			if strings.HasPrefix(f.Name(), "seed-") {
				continue
			}
			fn := filepath.Join(corpus, f.Name())
			b, _ := os.ReadFile(fn)
			os.Remove(fn)
			s := string(b)
			if i, j := strings.Index(s, "[]byte("), strings.LastIndexByte(s, ')'); i >= 0 && j > i {
				if u, err := strconv.Unquote(s[i+7 : j]); err == nil {
					found = append([]byte{}, u...)
				}
			}
		}
		if found != nil {
			r, _, _ := runCase(p, dir, 0, nil, found, false)
			if r.code != 3 && !r.hang && !(r.code != 0 && isCrash(r)) && strings.Contains(log, "fuzzing process") {
				// the worker was ended, for want of memory for example
				found = nil
				died++
			}
		}
		if m == nil && found == nil {
			died += 10
		}
	}
	code, violations := 0, 0
	switch {
	case found != nil:
		r, desc, rec := runCase(p, dir, 0, nil, found, false)
		f := &failRec{Msg: r.out, Desc: desc, Choices: rec}
		if r.code == 3 || r.code != 0 && isCrash(r) || r.hang {
			crash := r.code != 3
			if !r.hang {
				t1 := time.Now()
				Shrink(rec, func(c []uint64) (bool, []uint64) {
					r, desc, rec := runOne(p, dir, 0, c, false)
					if r.code == 3 || r.code != 0 && isCrash(r) {
						f.Msg, f.Desc, f.Choices = r.out, desc, rec
						return true, rec
					}
					return false, nil
				}, func() bool { return time.Since(t1) < 40*time.Second })
			}
			if kf := matchKnown(p, f.Msg); kf != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, kf.Text)
				break
			}
			violations, code = 1, 1
			*fVariant = "guided"
			path := writeReplay(p, f, crash)
			fmt.Printf("%s\n--- case\n%s\n", tail(f.Msg), tail(f.Desc))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		} else {
			code = 2
			fmt.Fprintf(os.Stderr, "ERROR: a case that failed in the guided search does not fail again\n%s\n", tail(log[max(0, len(log)-4000):]))
		}
	case stuck:
		code = 2
		fmt.Fprintln(os.Stderr, "ERROR: the guided search did not end")
	case n == 0:
		code = 2
		fmt.Fprintln(os.Stderr, "ERROR: the guided search did nothing:", tail(log))
	}
	addGuided(n, k, c, seeds, died, time.Since(t0), violations)
	fmt.Printf("property=%s guided executions=%d new_coverage=%d corpus=%d wall=%.1fs exit=%d\n", p.ID, n, k, c, time.Since(t0).Seconds(), code)
	return code
}

// addGuided adds the search to the evidence of the run before it.
func addGuided(n, interesting, corpus, seeds, died int, wall time.Duration, violations int) {
	if *fEvidence == "" {
		return
	}
	var ev map[string]interface{}
	b, err := os.ReadFile(*fEvidence)
	if err != nil || json.Unmarshal(b, &ev) != nil {
		return
	}
	c, ok := ev["coverage"].(map[string]interface{})
	if !ok {
		return
	}
	c["coverage_guided"] = map[string]interface{}{"executions": n, "reached_new_coverage": interesting, "corpus": corpus, "seed_cases": seeds, "workers_ended": died}
	w, _ := ev["wall_s"].(float64)
	ev["wall_s"] = w + wall.Seconds()
	v, _ := ev["violations"].(float64)
	ev["violations"] = int(v) + violations
	b, _ = json.MarshalIndent(ev, "", " ")
	os.WriteFile(*fEvidence, append(b, '\n'), 0o666)
}
