package pbt

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Property is one executable property.
type Property struct {
	ID          string
	Rule        string
	Quick       int // cases in the quick tier
	Thorough    int // cases in the thorough tier
	Run         func(*T)
	Findings    []Finding // known findings, keyed by name; active only when listed in the file
	Regressions []Regression
	Assumptions []string
	// NoMemLimit lifts the address-space limit (needed under the race detector).
	NoMemLimit bool
	// Concurrent properties run several goroutines: a race report or a crash of
	// the worker is a violation, even if it does not recur in a second run.
	Concurrent bool
	// Procs is the number of worker processes (default 8).
	Procs int
}

// Finding is a recorded genuine defect: Reproduce returns a description of
// the failure as long as the defect is present and "" otherwise.
type Finding struct {
	Name      string
	Reproduce func() string
}

// Regression is a saved minimal input; Check returns "" when the property holds on it.
type Regression struct {
	Name  string
	Check func() string
}

var registry = map[string]*Property{}

func Register(p *Property) { registry[p.ID] = p }

type findingLine struct{ Name, What string }

var listed = map[string]bool{}

// Listed reports whether a finding is listed in the known-findings file.
func Listed(name string) bool { return listed[name] }

func loadFindings(path, prop string) []findingLine {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []findingLine
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C05 id=F1 <what fails>
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(fs) < 3 || !strings.HasPrefix(fs[1], "id=") {
			continue
		}
		name := strings.TrimPrefix(fs[1], "id=")
		listed[name] = true
		if fs[0] == "property="+prop {
			out = append(out, findingLine{name, fs[2]})
		}
	}
	return out
}

type workerResult struct {
	Evals     int
	Discarded int
	Labels    map[string]int
	Hashes    []uint64
	NonTriv   int
	Samples   []string
	Excluded  map[string]int
	Failures  []Failure
	Done      bool
}

// Failure is one (shrunk) failing case.
type Failure struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Seed     int64             `json:"seed"`
	Index    int               `json:"index"`
	Message  string            `json:"message"`
	Input    map[string]string `json:"input"`
	Choices  []uint64          `json:"choices"`
	Kind     string            `json:"kind"`
}

var (
	fTier      = flag.String("tier", "quick", "quick or thorough")
	fSeed      = flag.Int64("seed", 1, "")
	fRoot      = flag.String("root", "/verif", "")
	fWorker    = flag.Int("worker", -1, "")
	fStride    = flag.Int("stride", 8, "")
	fScratch   = flag.String("scratch", "", "")
	fCases     = flag.Int("cases", 0, "override the number of cases")
	fKeep      = flag.Int("keep", 1, "number of failures to collect before stopping")
	fOnly      = flag.Int("only", -1, "run only this case")
	fReplay    = flag.String("replay", "", "replay a failure file")
	fBudget    = flag.Int("budget", 0, "wall seconds after which the run stops early (inconclusive for the rest)")
	fStats     = flag.Bool("stats", false, "print the label distribution")
	fNoShrink  = flag.Bool("noshrink", false, "")
	fEvidence  = flag.String("evidence", "", "")
	fFindings  = flag.String("findings", "", "")
	startClock = time.Now()
)

// Tier returns the running tier.
func Tier() string { return *fTier }

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return *fTier == "thorough" }

// Scratch returns a directory the case may use; it is removed after the run.
func Scratch() string { return *fScratch }

const cpuLimitSec = 60

func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: hmcheck PROPERTY [flags]")
		os.Exit(2)
	}
	id := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	if id == "list" {
		var ids []string
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	if *fFindings == "" {
		*fFindings = filepath.Join(*fRoot, "known_findings.txt")
	}
	lines := loadFindings(*fFindings, id)
	if *fWorker >= 0 || *fOnly >= 0 {
		worker(p)
		return
	}
	if *fReplay != "" {
		replay(p)
		return
	}
	os.Exit(parent(p, lines))
}

func numCases(p *Property) int {
	if *fCases > 0 {
		return *fCases
	}
	if Thorough() {
		return p.Thorough
	}
	return p.Quick
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func setLimits(p *Property) {
	runtime.GOMAXPROCS(4)
	if !p.NoMemLimit {
		lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		debug.SetMemoryLimit(2 << 30)
	}
	debug.SetMaxStack(512 << 20)
}

func worker(p *Property) {
	setLimits(p)
	n := numCases(p)
	res := workerResult{Labels: map[string]int{}, Excluded: map[string]int{}}
	out := filepath.Join(*fScratch, fmt.Sprintf("res%d.json", *fWorker))
	st, err := os.OpenFile(filepath.Join(*fScratch, fmt.Sprintf("state%d", *fWorker)), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	stopFile := filepath.Join(*fScratch, "stop")
	seen := map[uint64]bool{}
	buf := make([]byte, 8)
	first, step, last := *fWorker, *fStride, n
	if *fOnly >= 0 {
		first, step, last = *fOnly, n+1, *fOnly+1
		lim := syscall.Rlimit{Cur: cpuLimitSec, Max: cpuLimitSec + 5}
		_ = syscall.Setrlimit(syscall.RLIMIT_CPU, &lim)
	}
	budget := time.Duration(*fBudget) * time.Second
	for i := first; i < last; i += step {
		if i%64 == first%64 {
			if _, err := os.Stat(stopFile); err == nil {
				break
			}
			if budget > 0 && time.Since(startClock) > budget {
				break
			}
		}
		binary.LittleEndian.PutUint64(buf, uint64(i)+1)
		st.WriteAt(buf, 0)
		t := newT(*fSeed, p.ID, *fTier, i, n)
		o := runCase(t, p.Run)
		if o.discarded {
			res.Discarded++
			for k, v := range t.excluded {
				res.Excluded[k] += v
			}
			continue
		}
		res.Evals++
		for k, v := range t.labels {
			_ = v
			res.Labels[k]++
		}
		for _, k := range t.nontrivial {
			res.NonTriv++
			h := hash64(k)
			if !seen[h] {
				seen[h] = true
				res.Hashes = append(res.Hashes, h)
			}
		}
		if t.sample != "" && len(res.Samples) < 2 && len(t.nontrivial) > 0 && i > n/3 {
			res.Samples = append(res.Samples, t.sample)
		}
		if o.failed {
			fl := Failure{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: i, Message: o.msg, Choices: t.choices, Kind: "oracle"}
			nt := t
			if *fOnly < 0 && !*fNoShrink {
				if len(res.Failures)+1 >= *fKeep {
					os.WriteFile(stopFile, nil, 0o644)
				}
				deadline := time.Now().Add(25 * time.Second)
				busy := filepath.Join(*fScratch, fmt.Sprintf("shrinking%d", *fWorker))
				os.WriteFile(busy, nil, 0o644)
				c, bt, bo := shrink(t.choices, i, p.Run, 6000, func() bool { return time.Now().After(deadline) })
				os.Remove(busy)
				if c != nil {
					fl.Choices, fl.Message, nt = c, bo.msg, bt
				} else {
					fl.Message += "\n(note: the failure did not recur when the case was re-run in the same process)"
				}
			}
			fl.Input = map[string]string{}
			for _, nn := range nt.notes {
				fl.Input[nn.K] = nn.V
			}
			res.Failures = append(res.Failures, fl)
			if len(res.Failures) >= *fKeep {
				os.WriteFile(stopFile, nil, 0o644)
				break
			}
		}
	}
	res.Done = true
	b, _ := json.Marshal(res)
	os.WriteFile(out+".tmp", b, 0o644)
	os.Rename(out+".tmp", out)
}

func cpuTicks(pid int) (int64, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, false
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0, false
	}
	a, _ := strconv.ParseInt(f[11], 10, 64)
	c, _ := strconv.ParseInt(f[12], 10, 64)
	return a + c, true
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 16000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func parent(p *Property, lines []findingLine) int {
	scratch, err := os.MkdirTemp("", "hmcheck-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	self, _ := os.Executable()
	procs := p.Procs
	if procs == 0 {
		procs = 8
	}
	n := numCases(p)
	if *fBudget == 0 {
		if Thorough() {
			*fBudget = 720
		} else {
			*fBudget = 330
		}
	}
	var mu sync.Mutex
	var fails []Failure
	addFail := func(f Failure) { mu.Lock(); fails = append(fails, f); mu.Unlock() }
	broken := ""

	// known findings and saved regressions first
	*fScratch = filepath.Join(scratch, "pre")
	os.MkdirAll(*fScratch, 0o755)
	runGuarded := func(name string, f func() string) (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("panic: %v", r)
			}
		}()
		return f()
	}
	regs := 0
	for _, r := range p.Regressions {
		regs++
		if s := runGuarded(r.Name, r.Check); s != "" {
			addFail(Failure{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: -1, Message: s, Kind: "regression", Input: map[string]string{"regression": r.Name}})
		}
	}
	for _, l := range lines {
		for _, f := range p.Findings {
			if f.Name == l.Name {
				if s := runGuarded(f.Name, f.Reproduce); s != "" {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, l.What)
				}
			}
		}
	}

	if len(fails) == 0 {
		var wg sync.WaitGroup
		for w := 0; w < procs; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				supervise(p, self, scratch, w, procs, addFail, func(s string) { mu.Lock(); broken = s; mu.Unlock() })
			}()
		}
		wg.Wait()
	}
	// merge
	total := workerResult{Labels: map[string]int{}, Excluded: map[string]int{}}
	all := map[uint64]bool{}
	for w := 0; w < procs; w++ {
		b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("res%d.json", w)))
		if err != nil {
			continue
		}
		var r workerResult
		if json.Unmarshal(b, &r) != nil {
			continue
		}
		total.Evals += r.Evals
		total.Discarded += r.Discarded
		total.NonTriv += r.NonTriv
		for k, v := range r.Labels {
			total.Labels[k] += v
		}
		for k, v := range r.Excluded {
			total.Excluded[k] += v
		}
		for _, h := range r.Hashes {
			all[h] = true
		}
		if len(r.Samples) > 0 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		for _, f := range r.Failures {
			addFail(f)
		}
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Index < fails[j].Index })
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{"(no sample)"}
	}
	early := total.Evals+total.Discarded < n && len(fails) == 0
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evals + regs,
			"distinct_nontrivial": len(all),
			"rule":                p.Rule,
			"samples":             total.Samples,
			"nontrivial":          total.NonTriv,
			"discarded":           total.Discarded,
			"excluded_by_finding": total.Excluded,
			"labels":              total.Labels,
			"cases_planned":       n,
			"stopped_early":       early,
			"saved_regressions":   regs,
		},
		"wall_s":      time.Since(startClock).Seconds(),
		"violations":  len(fails),
		"assumptions": p.Assumptions,
	}
	if p.Assumptions == nil {
		delete(ev, "assumptions")
	}
	ep := *fEvidence
	if ep == "" {
		ep = filepath.Join(*fRoot, "evidence", p.ID+".json")
	}
	os.MkdirAll(filepath.Dir(ep), 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(ep, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1fs\n", p.ID, *fTier, *fSeed, total.Evals+regs, len(all), total.Discarded, time.Since(startClock).Seconds())
	if *fStats {
		var ks []string
		for k := range total.Labels {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-50s %8d  %5.1f%%\n", k, total.Labels[k], 100*float64(total.Labels[k])/float64(max(1, total.Evals)))
		}
		fmt.Println("  excluded:", total.Excluded)
		for _, s := range total.Samples {
			fmt.Println("  sample:", s)
		}
	}
	if len(fails) > 0 {
		dir := filepath.Join(filepath.Dir(ep), "replay")
		os.MkdirAll(dir, 0o755)
		for i, f := range fails {
			if i >= *fKeep && i > 0 && *fKeep == 1 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, *fTier, *fSeed, f.Index))
			b, _ := json.MarshalIndent(f, "", "  ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Println(indent(short(f.Message)))
			var ks []string
			for k := range f.Input {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Printf("    %s: %s\n", k, short(f.Input[k]))
			}
		}
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "check error:", broken)
		return 2
	}
	return 0
}

// short keeps console output readable; the replay file has the whole text.
func short(s string) string {
	if len(s) > 3000 {
		return s[:3000] + " …"
	}
	return s
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func baseArgs(p *Property, scratch string, w, procs int) []string {
	return []string{p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-root", *fRoot, "-findings", *fFindings,
		"-worker", fmt.Sprint(w), "-stride", fmt.Sprint(procs), "-scratch", scratch, "-cases", fmt.Sprint(numCases(p)),
		"-keep", fmt.Sprint(*fKeep), "-budget", fmt.Sprint(*fBudget)}
}

func supervise(p *Property, self, scratch string, w, procs int, addFail func(Failure), setBroken func(string)) {
	args := baseArgs(p, scratch, w, procs)
	if *fNoShrink {
		args = append(args, "-noshrink")
	}
	cmd := exec.Command(self, args...)
	errb := &tail{}
	cmd.Stderr = errb
	cmd.Stdout = errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		setBroken(err.Error())
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var lastIdx uint64
	var cpu0 int64
	stuck := false
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	read := func() uint64 {
		b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("state%d", w)))
		if err != nil || len(b) < 8 {
			return 0
		}
		return binary.LittleEndian.Uint64(b)
	}
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			c, ok := cpuTicks(cmd.Process.Pid)
			if !ok {
				continue
			}
			if i := read(); i != lastIdx {
				lastIdx, cpu0 = i, c
			} else if _, e := os.Stat(filepath.Join(scratch, fmt.Sprintf("shrinking%d", w))); (c-cpu0)/100 > 150 || e != nil && (c-cpu0)/100 > 50 {
				// more than 50 CPU-seconds in one case, or 150 with the shrinking
				// (which is capped at 25 s wall on at most 4 threads): look at
				// that case alone
				stuck = true
				cmd.Process.Kill()
				err = <-done
				break loop
			}
		}
	}
	if _, e := os.Stat(filepath.Join(scratch, fmt.Sprintf("res%d.json", w))); e == nil && err == nil {
		return
	}
	// the worker died or was killed: decide on the case it was running, alone
	idx := int(read()) - 1
	if d := string(errb.b); !stuck && idx >= 0 && p.Concurrent && (strings.Contains(d, "DATA RACE") || strings.Contains(d, "fatal error: ") || strings.Contains(d, "panic: ") || strings.Contains(d, "NO PROGRESS")) && !strings.Contains(d, "out of memory") && !strings.Contains(d, "cannot allocate") {
		// a data race (or crash in one of several goroutines) happened in this schedule
		os.WriteFile(filepath.Join(scratch, "stop"), nil, 0o644)
		addFail(Failure{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: idx, Message: "in case " + fmt.Sprint(idx) + ":\n" + string(clip(errb.b, 6000)), Kind: "schedule"})
		return
	}
	if idx < 0 {
		setBroken(fmt.Sprintf("worker %d died before its first case: %v\n%s", w, err, errb.b))
		return
	}
	sub := filepath.Join(scratch, fmt.Sprintf("only%d", w))
	os.MkdirAll(sub, 0o755)
	a := append(baseArgs(p, sub, w, procs), "-only", fmt.Sprint(idx))
	c2 := exec.Command(self, a...)
	e2 := &tail{}
	c2.Stderr, c2.Stdout = e2, e2
	c2.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err2 := c2.Run()
	msg := ""
	if err2 != nil {
		if ee, ok := err2.(*exec.ExitError); ok {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL) {
				msg = fmt.Sprintf("no result within %d CPU-seconds (%v)", cpuLimitSec, ws.Signal())
			} else {
				msg = "the process died: " + err2.Error() + "\n" + string(clip(e2.b, 3000))
			}
		}
	} else if stuck {
		setBroken(fmt.Sprintf("worker %d seemed stuck on case %d, which finishes alone", w, idx))
		return
	}
	if msg == "" {
		// the case alone reports an ordinary failure, or passes
		b, e := os.ReadFile(filepath.Join(sub, fmt.Sprintf("res%d.json", w)))
		var r workerResult
		if e == nil && json.Unmarshal(b, &r) == nil && len(r.Failures) > 0 {
			addFail(r.Failures[0])
			return
		}
		setBroken(fmt.Sprintf("worker %d died (%v) on case %d, which passes alone\n%s", w, err, idx, clip(errb.b, 3000)))
		return
	}
	os.WriteFile(filepath.Join(scratch, "stop"), nil, 0o644)
	addFail(Failure{Property: p.ID, Tier: *fTier, Seed: *fSeed, Index: idx, Message: msg, Kind: "crash"})
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func replay(p *Property) {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	d, _ := os.MkdirTemp("", "hmreplay")
	defer os.RemoveAll(d)
	*fScratch = d
	*fTier = f.Tier
	var t *T
	if f.Choices != nil {
		t = replayT(f.Choices, f.Index)
	} else {
		t = newT(f.Seed, f.Property, f.Tier, f.Index, numCases(p))
	}
	o := runCase(t, p.Run)
	for _, n := range t.notes {
		fmt.Printf("%s: %s\n", n.K, n.V)
	}
	if o.failed {
		fmt.Println("FAILS:", o.msg)
		os.RemoveAll(d)
		os.Exit(1)
	}
	fmt.Println("passes", o.discarded)
}
