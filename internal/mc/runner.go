package mc

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Runner runs checks.
type Runner struct {
	Root    string // of /verif
	Tier    string
	Seed    int
	Props   map[string]*Property
	Scratch string
	Known   []KnownFinding
	Verbose bool
}

// Main is the entry point of the checker.
func Main(props []*Property) {
	var (
		prop    = flag.String("prop", "", "property to check")
		tier    = flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
		child   = flag.Bool("child", false, "run as a worker")
		shard   = flag.Int("shard", 0, "")
		nshard  = flag.Int("nshard", 1, "")
		slot    = flag.String("slot", "", "")
		out     = flag.String("out", "", "")
		budget  = flag.Duration("budget", 0, "")
		replay  = flag.String("replay", "", "replay a counterexample")
		root    = flag.String("root", "/verif", "")
		list    = flag.Bool("list", false, "list the checks as JSON")
		only    = flag.String("space", "", "only this space")
		verbose = flag.Bool("v", false, "")
		workers = flag.Int("workers", 0, "")
	)
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	m := map[string]*Property{}
	for _, p := range props {
		m[p.ID] = p
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Runner{Root: *root, Tier: *tier, Seed: seed, Props: m, Known: LoadKnown(filepath.Join(*root, "known_findings.jsonl")), Verbose: *verbose}

	switch {
	case *list:
		type entry struct{ Property, Technique, Level, LevelNote string }
		var l []entry
		for _, p := range props {
			l = append(l, entry{p.ID, p.Technique, p.Level, p.LevelNote})
		}
		json.NewEncoder(os.Stdout).Encode(l)
	case *replay != "":
		r.replay(*replay)
	case *child:
		r.child(m[*prop], *shard, *nshard, *slot, *out, *budget, *only)
	default:
		p := m[*prop]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			os.Exit(2)
		}
		os.Exit(r.check(p, *budget, *only, *workers))
	}
}

func (r *Runner) knownKeys(p string) map[string]bool {
	m := map[string]bool{}
	for _, k := range r.Known {
		if k.Kind == "known" && k.Property == p {
			for _, key := range k.Keys {
				m[key] = true
			}
		}
	}
	return m
}

// child explores one shard of every space.
func (r *Runner) child(p *Property, shard, nshard int, slotPath, out string, budget time.Duration, only string) {
	// A runaway allocation must not take the sandbox down.
	lim := syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30}
	if !p.NoMemLimit {
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(200)

	var slot *Slot
	if slotPath != "" {
		var err error
		if slot, err = OpenSlot(slotPath); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	timeout := p.CaseTimeout
	if timeout == 0 {
		timeout = 60 * time.Second
	}
	var beat int64
	progress := func() { atomic.AddInt64(&beat, 1) }
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			if n := atomic.LoadInt64(&beat); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > timeout {
				fmt.Fprintf(os.Stderr, "mc: case has been running for %v\n", timeout)
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
	}()

	deadline := time.Now().Add(budget)
	res := Result{Samples: map[string][]string{}, Known: map[string]bool{}}
	known := r.knownKeys(p.ID)
	for _, s := range p.Spaces(r.Tier) {
		s := s
		if only != "" && s.Name != only {
			continue
		}
		if s.Thorough && r.Tier != "thorough" || s.Quick && r.Tier != "quick" {
			continue
		}
		st, viol, hit := explore(p, &s, r.Tier, shard, nshard, deadline, known, slot, func() { progress() })
		progress()
		res.Spaces = append(res.Spaces, st)
		if len(st.Samples) > 0 {
			res.Samples[s.Name] = st.Samples
		}
		res.Violations = append(res.Violations, viol...)
		for k := range hit {
			res.Known[k] = true
		}
		if len(res.Violations) > 0 {
			break
		}
	}
	data, _ := json.Marshal(res)
	if err := os.WriteFile(out, data, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

type tail struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.buf.Len() < 1<<16 {
		t.buf.Write(p)
	}
	return len(p), nil
}

func (t *tail) String() string {
	s := t.buf.String()
	if len(s) > 3000 {
		s = s[:3000] + "\n..."
	}
	return s
}

// runShard runs one worker process to its end.
func (r *Runner) runShard(p *Property, shard, nshard int, budget time.Duration, only string) (res *Result, slot *Slot, log string, err error) {
	slotPath := filepath.Join(r.Scratch, fmt.Sprintf("slot%d", shard))
	outPath := filepath.Join(r.Scratch, fmt.Sprintf("out%d", shard))
	os.Remove(slotPath)
	os.Remove(outPath)
	if slot, err = OpenSlot(slotPath); err != nil {
		return nil, nil, "", err
	}
	cmd := exec.Command(os.Args[0], "-child", "-prop", p.ID, "-tier", r.Tier, "-root", r.Root,
		"-shard", strconv.Itoa(shard), "-nshard", strconv.Itoa(nshard), "-slot", slotPath, "-out", outPath,
		"-budget", budget.String(), "-space", only)
	var t tail
	cmd.Stderr = &t
	cmd.Stdout = &t
	runErr := cmd.Run()
	data, readErr := os.ReadFile(outPath)
	if runErr == nil && readErr == nil {
		res = &Result{}
		if err := json.Unmarshal(data, res); err != nil {
			return nil, slot, t.String(), err
		}
		if r.Verbose {
			os.Stderr.WriteString(t.String())
		}
		return res, slot, t.String(), nil
	}
	return nil, slot, t.String(), fmt.Errorf("worker: %v", runErr)
}

// replayProcess replays a case in a process of its own.
func (r *Runner) replayProcess(v Violation, timeout time.Duration) (crashed bool, log string) {
	path := filepath.Join(r.Scratch, fmt.Sprintf("confirm-%d.json", time.Now().UnixNano()))
	data, _ := json.Marshal(v)
	os.WriteFile(path, data, 0o600)
	cmd := exec.Command(os.Args[0], "-replay", path, "-root", r.Root, "-tier", r.Tier)
	var t tail
	cmd.Stderr = &t
	cmd.Stdout = &t
	if err := cmd.Start(); err != nil {
		return false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 1 {
			return true, t.String()
		}
		return false, t.String()
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return true, fmt.Sprintf("did not end within %v", timeout)
	}
}

func (r *Runner) check(p *Property, budget time.Duration, only string, workers int) int {
	start := time.Now()
	if budget == 0 {
		budget = 420 * time.Second
		if r.Tier == "thorough" {
			budget = 780 * time.Second
		}
	}
	var err error
	if r.Scratch, err = os.MkdirTemp("", "mc-"+p.ID+"-"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(r.Scratch)

	var total Result
	if p.External != nil {
		total = p.External(r)
	} else {
		n := workers
		if n == 0 {
			n = runtime.NumCPU()
			if n > 8 {
				n = 8
			}
			if p.Workers > 0 && n > p.Workers {
				n = p.Workers
			}
		}
		results := make([]*Result, n)
		crashes := make([]*Violation, n)
		var infra atomic.Value
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for attempt := 0; attempt < 3; attempt++ {
					res, slot, log, err := r.runShard(p, i, n, budget, only)
					if err == nil {
						results[i] = res
						return
					}
					if slot == nil {
						infra.Store(err.Error())
						return
					}
					space, choices := slot.Get()
					v := Violation{Property: p.ID, Space: space, Choices: choices, Tier: r.Tier, Crash: true,
						What: fmt.Sprintf("the process died or hung (%v):\n%s", err, log)}
					if space != "" {
						timeout := 2 * p.CaseTimeout
						if timeout == 0 {
							timeout = 120 * time.Second
						}
						if again, log2 := r.replayProcess(v, timeout); again {
							v.What = fmt.Sprintf("the process dies or hangs (%v):\n%s", err, log2)
							crashes[i] = &v
							return
						}
						if attempt == 1 {
							// Twice in the same shard, but not alone: it depends on the history.
							crashes[i] = &v
							return
						}
					}
					infra.Store(err.Error() + "\n" + log)
				}
			}(i)
		}
		wg.Wait()
		total = merge(results, crashes)
		for i := range results {
			if results[i] == nil && crashes[i] == nil {
				fmt.Fprintln(os.Stderr, "mc: a worker failed:", infra.Load())
				return 2
			}
		}
	}
	return r.report(p, total, time.Since(start))
}

func merge(results []*Result, crashes []*Violation) Result {
	total := Result{Samples: map[string][]string{}, Known: map[string]bool{}}
	byName := map[string]*SpaceStats{}
	for _, c := range crashes {
		if c != nil {
			total.Violations = append(total.Violations, *c)
		}
	}
	for _, res := range results {
		if res == nil {
			continue
		}
		for _, st := range res.Spaces {
			t := byName[st.Name]
			if t == nil {
				t = &SpaceStats{Name: st.Name, Bounds: st.Bounds, Complete: true}
				byName[st.Name] = t
				total.Spaces = append(total.Spaces, t)
			}
			t.Leaves += st.Leaves
			t.States += st.States
			t.Transitions += st.Transitions
			t.Traces += st.Traces
			t.Complete = t.Complete && st.Complete
			if st.Seconds > t.Seconds {
				t.Seconds = st.Seconds
			}
			if st.MaxChoices > t.MaxChoices {
				t.MaxChoices = st.MaxChoices
			}
		}
		for k, s := range res.Samples {
			if len(total.Samples[k]) < 2 {
				total.Samples[k] = append(total.Samples[k], s...)
			}
		}
		for k := range res.Known {
			total.Known[k] = true
		}
		total.Violations = append(total.Violations, res.Violations...)
	}
	return total
}

// report prints the verdict and writes the evidence.
func (r *Runner) report(p *Property, total Result, wall time.Duration) int {
	sort.SliceStable(total.Violations, func(i, j int) bool {
		return len(total.Violations[i].Choices) < len(total.Violations[j].Choices)
	})
	var states, transitions, traces, leaves int64
	exhaustive := true
	for _, s := range total.Spaces {
		states += s.States
		transitions += s.Transitions
		traces += s.Traces
		leaves += s.Leaves
		exhaustive = exhaustive && s.Complete
	}
	var samples []string
	names := []string{}
	for k := range total.Samples {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		l := total.Samples[k]
		if len(l) > 2 {
			l = []string{l[0], l[len(l)-1]}
		}
		for _, s := range l {
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			samples = append(samples, k+": "+s)
		}
	}
	coverage := map[string]interface{}{
		"states":                        states,
		"transitions":                   transitions,
		"traces_validated_against_impl": traces,
		"executions":                    leaves,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"spaces":                        total.Spaces,
		"counting": "states: configurations (inputs of the model) reached; transitions: steps the reference model took on them; " +
			"traces_validated_against_impl: results of the real code compared with the result the model gives; executions: leaves of the choice tree run on the real code",
	}
	for k, v := range total.Extra {
		coverage[k] = v
	}
	ev := map[string]interface{}{
		"property":    p.ID,
		"tier":        r.Tier,
		"seed":        r.Seed,
		"level":       p.Level,
		"coverage":    coverage,
		"assumptions": p.Assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  len(total.Violations),
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.Root, "evidence", p.ID+".json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, s := range total.Spaces {
		fmt.Printf("%s %-28s executions %9d states %10d transitions %11d compared %10d %6.1fs complete=%v\n",
			p.ID, s.Name, s.Leaves, s.States, s.Transitions, s.Traces, s.Seconds, s.Complete)
	}
	for _, k := range r.Known {
		if k.Kind != "known" || k.Property != p.ID {
			continue
		}
		seen := 0
		for _, key := range k.Keys {
			if total.Known[key] {
				seen++
			}
		}
		if seen > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d of %d listed inputs)\n", p.ID, k.What, seen, len(k.Keys))
		}
	}
	if len(total.Violations) == 0 {
		fmt.Printf("%s: held on everything explored (%.1fs, exhaustive=%v)\n", p.ID, wall.Seconds(), exhaustive)
		return 0
	}
	dir := filepath.Join(r.Root, "replay")
	os.MkdirAll(dir, 0o755)
	for i, v := range total.Violations {
		if i >= 3 {
			break
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.ID, i))
		data, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, data, 0o644)
		what := v.What
		if len(what) > 1500 {
			what = what[:1500] + "..."
		}
		fmt.Printf("%s: space %s, choices %v:\n  %s\n", p.ID, v.Space, v.Choices, strings.ReplaceAll(what, "\n", "\n  "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	return 1
}

func (r *Runner) replay(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(data, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := r.Props[v.Property]
	if p == nil || p.Spaces == nil {
		fmt.Println("replay: recorded finding:", v.What)
		os.Exit(2)
	}
	viol := Replay(p, v)
	for _, v := range viol {
		fmt.Printf("reproduced: %s\n", v.What)
	}
	if len(viol) > 0 {
		os.Exit(1)
	}
	fmt.Println("replay: no violation")
	os.Exit(0)
}
