// Command check decides one property against the working tree of the
// repository and writes its evidence file.
//
//	check C01                    run the check (tier from VERIF_TIER)
//	check C01 --replay FILE      run one saved case
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type result struct {
	Part        string            `json:"part"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Failure     *failure          `json:"failure"`
	Findings    map[string]string `json:"findings"`
	Excluded    int               `json:"excluded"`
	Error       string            `json:"error"`
	Replayed    bool              `json:"replayed"`
	WallS       float64           `json:"wall_s"`
}

type failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Mode     string          `json:"mode"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
}

var (
	verif = "/verif"
	repo  = "/repo"
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func main() {
	if d, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
			verif = d
		}
	}
	if len(os.Args) < 2 {
		fatal("usage: check ID [--replay FILE]")
	}
	if os.Args[1] == "--setup" {
		setup()
		return
	}
	id := os.Args[1]
	p, ok := table[id]
	if !ok {
		fatal("unknown property %s", id)
	}
	if p.shards == 0 {
		p.shards = 2
	}
	if p.deep == 0 {
		p.deep = max(p.shards, 6/len(p.modes))
	}
	if p.timeout == 0 {
		p.timeout = 300
	}
	replayFile := ""
	for i := 2; i+1 < len(os.Args); i++ {
		if os.Args[i] == "--replay" {
			replayFile = os.Args[i+1]
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	start := time.Now()

	if err := os.MkdirAll(filepath.Join(verif, ".build"), 0o755); err != nil {
		fatal("%v", err)
	}
	var err error
	scratch, err = os.MkdirTemp(filepath.Join(verif, ".build"), "run-")
	if err != nil {
		fatal("%v", err)
	}
	defer cleanup()
	if err := prepareModule(); err != nil {
		fatal("%v", err)
	}

	if replayFile != "" {
		code := doReplay(id, p, replayFile)
		cleanup()
		os.Exit(code)
	}

	// build every mode, side by side
	bins := make([]string, len(p.modes))
	errs := make([]error, len(p.modes))
	notes := make([]string, len(p.modes))
	var wg sync.WaitGroup
	for i, m := range p.modes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bins[i], notes[i], errs[i] = build(p.pkg, m)
		}()
	}
	wg.Wait()
	for i, e := range errs {
		if e != nil {
			fatal("build (%s): %v", p.modes[i], e)
		}
	}

	known, fixed := readKnown(id)
	nsh := p.shards
	timeout := time.Duration(p.timeout) * time.Second
	if tier == "thorough" {
		nsh = p.deep
		timeout = 40 * time.Minute
	}
	type job struct {
		mode, bin string
		shard     int
	}
	var jobs []job
	for i, m := range p.modes {
		for s := 0; s < nsh; s++ {
			jobs = append(jobs, job{m, bins[i], s})
		}
	}
	var mu sync.Mutex
	var all []procResult
	sem := make(chan struct{}, max(2, runtime.NumCPU()))
	var stop bool
	for _, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			skip := stop
			mu.Unlock()
			if skip {
				return
			}
			r := runProc(id, j.mode, j.bin, tier, uint64(seed)*1000+uint64(j.shard)+1, known, timeout, "")
			mu.Lock()
			all = append(all, r)
			if r.failure != nil {
				stop = true
			}
			mu.Unlock()
		}()
	}
	wg.Wait()

	var fails []failure
	var errors []string
	for _, r := range all {
		if r.failure != nil {
			fails = append(fails, *r.failure)
		}
		errors = append(errors, r.errors...)
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })

	ev, found, vacuous := evidence(id, p, tier, seed, all, notes, fixed)
	for k, what := range known {
		if w, ok := found[k]; ok {
			what = firstLine(w)
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, what)
	}
	ev["violations"] = len(fails)
	ev["wall_s"] = float64(int(time.Since(start).Seconds()*100)) / 100
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	if len(fails) > 0 {
		f := fails[0]
		path := saveReplay(f)
		fmt.Printf("%s part %s (%s build): %s\n", id, f.Part, f.Mode, f.Error)
		fmt.Printf("case: %s\n", clip(string(f.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		cleanup()
		os.Exit(1)
	}
	if len(errors) > 0 {
		for _, e := range errors {
			fmt.Fprintln(os.Stderr, "check error:", clip(e, 4000))
		}
		cleanup()
		os.Exit(2)
	}
	if vacuous != "" {
		fatal("vacuous: %s", vacuous)
	}
	cov := ev["coverage"].(map[string]any)
	fmt.Printf("%s held on %v cases (%v distinct non-trivial) in %.1fs\n", id, cov["evaluations"], cov["distinct_nontrivial"], time.Since(start).Seconds())
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " …"
	}
	return s
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}

func saveReplay(f failure) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	h.Write(f.Case)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", f.Property, f.Part, h.Sum32()))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// ------------------------------------------------------------------- build

func env() []string {
	var out []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GONOSUMDB", "GONOSUMCHECK", "GOSUMDB", "GO111MODULE", "GOTRACEBACK", "GODEBUG", "GOMAXPROCS", "GORACE", "INTEGRATION_TEST":
			continue
		}
		if strings.HasPrefix(k, "PBT_") {
			continue
		}
		out = append(out, kv)
	}
	return append(out, "GOFLAGS=-mod=mod -modfile="+filepath.Join(scratch, "go.mod"), "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "GO111MODULE=on")
}

// prepareModule makes the module file of this run: ours, with the repository's
// checksums, so that a changed go.mod of the repository is followed.
func prepareModule() error {
	mod, err := os.ReadFile(filepath.Join(verif, "go.mod"))
	if err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(verif, "go.sum"))
	if err != nil {
		return err
	}
	rs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(scratch, "go.mod"), mod, 0o644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(scratch, "go.sum"), append(append(sum, '\n'), rs...), 0o644)
}

func build(pkg, mode string) (bin, note string, err error) {
	bin = filepath.Join(scratch, "t-"+mode)
	args := []string{"test", "-c", "-vet=off", "-o", bin}
	switch mode {
	case "inst":
		dir := filepath.Join(scratch, "inst")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return "", "", err
		}
		ov, err := instrument(repo, dir)
		if err != nil {
			return "", "", err
		}
		out, err := goCmd(append(args, "-overlay", ov, "./props/"+pkg))
		if err == nil {
			return bin, "", nil
		}
		// the instrumented copy does not build: judge the plain one
		if out2, err2 := goCmd(append(args, "./props/"+pkg)); err2 != nil {
			return "", "", fmt.Errorf("%v\n%s", err2, out2)
		}
		return bin, "the instrumented build failed, schedules were not explored: " + clip(out, 300), nil
	case "race":
		args = append(args, "-race")
	}
	out, err := goCmd(append(args, "./props/"+pkg))
	if err != nil {
		return "", "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, "", nil
}

func goCmd(args []string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = verif
	c.Env = env()
	b, err := c.CombinedOutput()
	return string(b), err
}

// --------------------------------------------------------------------- run

type procResult struct {
	results []result
	mode    string
	failure *failure
	errors  []string
}

var envErr = regexp.MustCompile(`out of memory|cannot allocate memory|failed to create new OS thread|resource temporarily unavailable|too many open files|no space left on device`)

func runProc(id, mode, bin, tier string, seed uint64, known map[string]string, timeout time.Duration, replay string) (pr procResult) {
	pr.mode = mode
	out, err := os.MkdirTemp(scratch, "out-")
	if err != nil {
		pr.errors = append(pr.errors, err.Error())
		return
	}
	var ks []string
	for k := range known {
		ks = append(ks, id+" "+k)
	}
	sort.Strings(ks)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-test.run", "^Test"+id+"$", "-test.timeout", "0", "-test.v=false")
	c.Dir = filepath.Join(verif, "props", table[id].pkg)
	c.Env = append(env(), "PBT_OUT="+out, "PBT_MODE="+mode, "PBT_TIER="+tier, "PBT_KNOWN="+strings.Join(ks, "\n"),
		fmt.Sprintf("PBT_SEED=%d", seed), "GOTRACEBACK=all", "PBT_VERIF="+verif, "TMPDIR="+out)
	if replay != "" {
		c.Env = append(c.Env, "PBT_REPLAY="+replay)
	} else {
		c.Env = append(c.Env, "PBT_REGRESS="+filepath.Join(verif, "regress"))
	}
	if mode == "race" {
		c.Env = append(c.Env, "GORACE=halt_on_error=1 exitcode=66")
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 5 * time.Second
	err = c.Run()
	if c.Process != nil {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	}
	files, _ := filepath.Glob(filepath.Join(out, "result-*.json"))
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		var r result
		if e := json.Unmarshal(b, &r); e != nil {
			pr.errors = append(pr.errors, e.Error())
			continue
		}
		pr.results = append(pr.results, r)
		if r.Failure != nil && pr.failure == nil {
			pr.failure = r.Failure
		}
		if r.Error != "" {
			pr.errors = append(pr.errors, r.Part+": "+r.Error)
		}
	}
	log := buf.String()
	if ctx.Err() != nil {
		pr.errors = append(pr.errors, fmt.Sprintf("%s (%s): no answer within %v", id, mode, timeout))
		return
	}
	var xe *exec.ExitError
	if err == nil || pr.failure != nil {
		return
	}
	if !errors.As(err, &xe) || xe.ExitCode() < 0 {
		pr.errors = append(pr.errors, fmt.Sprintf("%s (%s): %v\n%s", id, mode, err, tail(log)))
		return
	}
	// the process died in the middle of a case
	cur, _ := filepath.Glob(filepath.Join(out, "current-*.json"))
	if len(cur) == 1 && !envErr.MatchString(log) {
		b, _ := os.ReadFile(cur[0])
		var f failure
		if json.Unmarshal(b, &f) == nil {
			f.Error = fmt.Sprintf("the process died (exit %d): %s", xe.ExitCode(), crash(log))
			pr.failure = &f
			return
		}
	}
	pr.errors = append(pr.errors, fmt.Sprintf("%s (%s): exit %d\n%s", id, mode, xe.ExitCode(), tail(log)))
	return
}

func crash(log string) string {
	for _, m := range []string{"WARNING: DATA RACE", "panic: ", "fatal error: "} {
		if i := strings.Index(log, m); i >= 0 {
			return clip(log[i:], 2500)
		}
	}
	return tail(log)
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}

func doReplay(id string, p property, file string) int {
	abs, _ := filepath.Abs(file)
	b, err := os.ReadFile(abs)
	if err != nil {
		fatal("%v", err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}
	if f.Mode == "" {
		f.Mode = p.modes[0]
	}
	bin, _, err := build(p.pkg, f.Mode)
	if err != nil {
		fatal("%v", err)
	}
	r := runProc(id, f.Mode, bin, "quick", 1, nil, 10*time.Minute, abs)
	if r.failure != nil {
		fmt.Printf("%s part %s: %s\n", id, r.failure.Part, r.failure.Error)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, abs)
		return 1
	}
	if len(r.errors) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(r.errors, "\n"))
		return 2
	}
	for _, x := range r.results {
		if x.Replayed {
			fmt.Printf("%s: the case passes\n", id)
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no part took the replay file")
	return 2
}

// ---------------------------------------------------------------- evidence

func evidence(id string, p property, tier string, seed int64, all []procResult, notes []string, fixed []string) (map[string]any, map[string]string, string) {
	type agg struct {
		rule   string
		evals  int
		hashes map[uint64]bool
		labels map[string]int
		modes  map[string]int
		excl   int
		wall   float64
	}
	parts := map[string]*agg{}
	var order []string
	var samples []any
	found := map[string]string{}
	sampled := map[string]int{}
	for _, pr := range all {
		for _, r := range pr.results {
			a := parts[r.Part]
			if a == nil {
				a = &agg{rule: r.Rule, hashes: map[uint64]bool{}, labels: map[string]int{}, modes: map[string]int{}}
				parts[r.Part] = a
				order = append(order, r.Part)
			}
			a.evals += r.Evaluations
			a.modes[pr.mode] += r.Evaluations
			a.excl += r.Excluded
			a.wall += r.WallS
			for _, h := range r.Hashes {
				a.hashes[h] = true
			}
			for k, v := range r.Labels {
				a.labels[k] += v
			}
			for _, s := range r.Samples {
				if sampled[r.Part] < 2 {
					sampled[r.Part]++
					samples = append(samples, map[string]any{"part": r.Part, "case": s})
				}
			}
			for k, v := range r.Findings {
				found[k] = v
			}
		}
	}
	sort.Strings(order)
	evals, nontriv := 0, 0
	var rules []string
	pm := map[string]any{}
	vacuous := ""
	for _, n := range order {
		a := parts[n]
		evals += a.evals
		nontriv += len(a.hashes)
		rules = append(rules, n+": "+a.rule)
		pm[n] = map[string]any{"evaluations": a.evals, "distinct_nontrivial": len(a.hashes), "by_build": a.modes, "classes": a.labels, "excluded_known_findings": a.excl, "cpu_wall_s": float64(int(a.wall*10)) / 10}
		if len(a.hashes) < 2 && a.evals > 0 {
			vacuous = "part " + n + " made fewer than two distinct non-trivial cases"
		}
	}
	if evals == 0 {
		vacuous = "nothing was evaluated"
	}
	cov := map[string]any{
		"evaluations": evals, "distinct_nontrivial": nontriv,
		"rule": strings.Join(rules, " || "), "samples": samples, "parts": pm,
	}
	var assumptions []string
	for _, n := range notes {
		if n != "" {
			assumptions = append(assumptions, n)
		}
	}
	assumptions = append(assumptions, "the Go toolchain, testing/synctest's fake clock and the third-party modules behave as documented")
	if len(fixed) > 0 {
		cov["regressions_replayed"] = fixed
	}
	return map[string]any{"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions}, found, vacuous
}

// readKnown reads the findings of a property that are listed and not repaired
// ("finding: property=ID key=KEY what"), and the repaired ones.
func readKnown(id string) (map[string]string, []string) {
	known := map[string]string{}
	var fixed []string
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return known, nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[1] != "property="+id {
			continue
		}
		switch {
		case f[0] == "finding:" && strings.HasPrefix(f[2], "key="):
			known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		case f[0] == "fixed:":
			fixed = append(fixed, l)
		}
	}
	return known, fixed
}

// setup warms the build cache.
func setup() {
	os.MkdirAll(filepath.Join(verif, ".build"), 0o755)
	var err error
	scratch, err = os.MkdirTemp(filepath.Join(verif, ".build"), "setup-")
	if err != nil {
		fatal("%v", err)
	}
	defer cleanup()
	if err := prepareModule(); err != nil {
		fatal("%v", err)
	}
	if out, err := goCmd([]string{"vet", "-vettool=/bin/true", "./cmd/..."}); err != nil {
		_ = out
	}
	pk := map[string]bool{}
	for _, p := range table {
		for _, m := range p.modes {
			if m == "race" {
				pk["-race "+p.pkg] = true
			} else {
				pk[p.pkg] = true
			}
		}
	}
	var names []string
	for k := range pk {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		pkg := strings.TrimPrefix(k, "-race ")
		args := []string{"test", "-c", "-vet=off", "-o", filepath.Join(scratch, "t")}
		if pkg != k {
			args = append(args, "-race")
		}
		if out, err := goCmd(append(args, "./props/"+pkg)); err != nil {
			fatal("%v\n%s", err, out)
		}
	}
	fmt.Println("setup done:", len(names), "test binaries build")
}
