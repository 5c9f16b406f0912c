package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	flagWorker  = flag.String("worker", "", "worker: result file")
	flagFrom    = flag.Int("from", 0, "worker: first case")
	flagStep    = flag.Int("step", 1, "worker: step")
	flagTo      = flag.Int("to", 0, "worker: end")
	flagSeed    = flag.Uint64("seed", 1, "seed")
	flagTier    = flag.String("tier", "quick", "tier")
	flagScratch = flag.String("scratch", "", "scratch directory")
	flagReplay  = flag.String("replay", "", "replay file")
	flagCases   = flag.Int("cases", 0, "number of cases (overrides the tier)")
	flagVerbose = flag.Bool("v", false, "print inconclusive cases")
	flagVerif   = flag.String("verif", "/verif", "where evidence goes")
)

const (
	caseCPULimit  = 60 * time.Second // CPU time of one case, more is a hang
	caseIdleLimit = 40               // seconds in which a case does nothing at all, more is a hang
	rlimitAS      = 12 << 30
)

func main() {
	flag.Parse()
	if *flagWorker != "" {
		worker()
		return
	}
	if *flagReplay != "" {
		replay()
		return
	}
	if flag.NArg() != 1 || properties[flag.Arg(0)] == nil {
		fatal("usage: vh [flags] <property>")
	}
	os.Exit(parent(properties[flag.Arg(0)]))
}

func (p *property) cases() int {
	if *flagCases > 0 {
		return *flagCases
	}
	if *flagTier == "thorough" {
		return p.thorough
	}
	return p.quick
}

// ---------------------------------------------------------------- worker

func worker() {
	p := properties[flag.Arg(0)]
	if p == nil {
		fatal("unknown property")
	}
	if !raceBuild {
		lim := syscall.Rlimit{Cur: rlimitAS, Max: rlimitAS}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(512 << 20)
	_ = os.MkdirAll(*flagScratch, 0o755)
	if err := os.Chdir(*flagScratch); err != nil {
		fatal("%v", err)
	}
	// The code under test prints: keep that out of the way
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		_ = syscall.Dup2(int(null.Fd()), 1)
	}
	cur, err := os.Create(*flagWorker + ".cur")
	if err != nil {
		fatal("%v", err)
	}
	var current atomic.Int64
	var started atomic.Int64
	current.Store(-1)
	go func() { // watches for a case that does not end
		idle, at, used := 0, int64(-1), cpu()
		for {
			time.Sleep(time.Second)
			now := cpu()
			if i := current.Load(); i < 0 || i != at || now-used > 20*time.Millisecond {
				idle, at = 0, i
			} else {
				idle++
			}
			used = now
			if current.Load() >= 0 && (idle >= caseIdleLimit || now-time.Duration(started.Load()) > caseCPULimit) {
				what := "HANG"
				if idle >= caseIdleLimit {
					what = "HANG, waiting for ever,"
				}
				fmt.Fprintf(os.Stderr, "%s case %d\n", what, current.Load())
				os.Exit(66)
			}
		}
	}()

	res := workerResult{Counts: map[string]int64{}, Why: map[string]int64{}}
	for i := *flagFrom; i < *flagTo; i += *flagStep {
		started.Store(int64(cpu()))
		current.Store(int64(i))
		_, _ = cur.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		c := newCtx(p, *flagSeed, i, *flagTier == "thorough", *flagScratch)
		v := runCase(p, c)
		res.Evaluations++
		for k, n := range c.counts {
			res.Counts[k] += n
		}
		if c.skipped != "" {
			res.Inconclusive++
			res.Why[firstLine(c.skipped)]++
			if *flagVerbose {
				fmt.Fprintf(os.Stderr, "case %d inconclusive: %s\n", i, c.skipped)
			}
		} else {
			res.Keys = append(res.Keys, c.keys...)
		}
		if c.sample != nil && len(res.Samples) < 2 && c.skipped == "" {
			res.Samples = append(res.Samples, c.sample)
		}
		if v != nil {
			res.Violations = append(res.Violations, *v)
			if len(res.Violations) >= 3 {
				break
			}
		}
	}
	current.Store(-1)
	writeJSON(*flagWorker, res)
}

func cpu() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// ---------------------------------------------------------------- parent

type crash struct {
	index int
	kind  string
	text  string
}

var crashText = regexp.MustCompile(`(?m)^(fatal error: .*|runtime: goroutine stack exceeds.*|panic: .*|WARNING: DATA RACE|HANG.* case.*|unexpected fault address.*)$`)

// ours lists what the workers read: they run as an unprivileged user, who
// sees only copies of it.
var ours = map[string]string{"vss.json": "/repo/internal/vssgen/vss.json", "index.html": "/repo/index.html",
	"page.js": os.Getenv("VERIF_DIR") + "/web/page.js", "web.test": os.Getenv("VERIF_WEBBIN"), "vh": "/proc/self/exe"}

// prepare opens a directory to the workers and puts there what they read.
func prepare(dir string) {
	if err := os.Chmod(dir, 0o755); err != nil {
		fatal("%v", err)
	}
	for name, from := range ours {
		b, err := os.ReadFile(from)
		if err != nil {
			continue // what needs it will say so
		}
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o755); err != nil {
			fatal("%v", err)
		}
	}
}

// asset is the worker's copy of one of the files.
func asset(name string) string {
	return filepath.Join(os.Getenv("VH_ASSETS"), name)
}

const nobody = 65534

// unprivileged is a command of this program, run by a user who owns
// nothing but the scratch directory.
func unprivileged(dir, scratch string, args ...string) *exec.Cmd {
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(filepath.Join(dir, "vh"), args...)
	cmd.Dir = scratch
	cmd.Env = []string{"VH_ASSETS=" + dir, "HOME=" + scratch, "TMPDIR=" + scratch, "PATH=/usr/local/bin:/usr/bin:/bin",
		"GORACE=halt_on_error=1 exitcode=77", "GOTRACEBACK=single"}
	if os.Getuid() == 0 {
		if err := os.Chown(scratch, nobody, nobody); err != nil {
			fatal("%v", err)
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	return cmd
}

// spawn runs one worker and returns its result or how it crashed.
func spawn(p *property, dir string, n, from, step, to int) (*workerResult, *crash, error) {
	scratch := filepath.Join(dir, "w"+strconv.Itoa(n))
	out := filepath.Join(scratch, "result.json")
	args := []string{"-worker", out, "-from", strconv.Itoa(from), "-step", strconv.Itoa(step),
		"-to", strconv.Itoa(to), "-seed", strconv.FormatUint(*flagSeed, 10), "-tier", *flagTier, "-scratch", filepath.Join(scratch, "s")}
	if *flagVerbose {
		args = append(args, "-v")
	}
	cmd := unprivileged(dir, scratch, append(args, p.id)...)
	var stderr bytes.Buffer
	cmd.Stderr = &capped{buf: &stderr}
	cmd.Env = append(cmd.Env, "GOMAXPROCS="+procs(p))
	err := cmd.Run()
	if *flagVerbose {
		os.Stderr.Write(stderr.Bytes())
	}
	if err == nil {
		b, err := os.ReadFile(out)
		if err != nil {
			return nil, nil, err
		}
		var r workerResult
		if err := json.Unmarshal(b, &r); err != nil {
			return nil, nil, err
		}
		return &r, nil, nil
	}
	idx := -1
	if b, e := os.ReadFile(out + ".cur"); e == nil {
		if n, e := strconv.Atoi(strings.TrimSpace(string(b))); e == nil {
			idx = n
		}
	}
	m := crashText.FindString(stderr.String())
	if m == "" {
		return nil, nil, fmt.Errorf("worker %d ended in case %d: %v\n%s", n, idx, err, stderr.String())
	}
	return nil, &crash{idx, m, stderr.String()}, nil
}

func procs(p *property) string {
	if p.single || raceBuild {
		return strconv.Itoa(runtime.NumCPU())
	}
	return "2"
}

type capped struct{ buf *bytes.Buffer }

func (c *capped) Write(b []byte) (int, error) {
	c.buf.Write(b)
	if c.buf.Len() > 1<<19 { // how it ends is what tells
		c.buf.Next(c.buf.Len() - 1<<18)
	}
	return len(b), nil
}

func parent(p *property) int {
	start := time.Now()
	n := p.cases()
	dir, err := os.MkdirTemp("", "vh-"+p.id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	prepare(dir)
	workers := runtime.NumCPU()
	if p.single {
		workers = 1
	}
	if workers > n {
		workers = n
	}
	var (
		wg      sync.WaitGroup
		mu      sync.Mutex
		total   = workerResult{Counts: map[string]int64{}, Why: map[string]int64{}}
		crashes []crash
		errs    []error
		keys    = map[uint64]bool{}
	)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, cr, err := spawn(p, dir, w, w, workers, n)
			mu.Lock()
			defer mu.Unlock()
			switch {
			case err != nil:
				errs = append(errs, err)
			case cr != nil:
				crashes = append(crashes, *cr)
			default:
				total.Evaluations += r.Evaluations
				total.Inconclusive += r.Inconclusive
				for k, v := range r.Counts {
					total.Counts[k] += v
				}
				for k, v := range r.Why {
					total.Why[k] += v
				}
				for _, k := range r.Keys {
					keys[k] = true
				}
				total.Samples = append(total.Samples, r.Samples...)
				total.Violations = append(total.Violations, r.Violations...)
			}
		}()
	}
	wg.Wait()
	confirmed := false
	for _, cr := range crashes {
		// A crash of the process: run the case on its own to see that it is the case's
		kind := cr.kind
		if hung := strings.HasPrefix(kind, "HANG"); hung && confirmed {
			continue // one is enough
		} else if strings.Contains(kind, "out of memory") || hung && !(raceBuild && strings.Contains(kind, "for ever")) {
			r, again, err := spawn(p, dir, 1000+cr.index, cr.index, 1, cr.index+1)
			if err != nil {
				errs = append(errs, err)
				continue
			}
			if again == nil {
				total.Inconclusive++
				total.Why[kind+" did not happen again"]++
				total.Violations = append(total.Violations, r.Violations...)
				continue
			}
			confirmed = confirmed || hung
		}
		total.Violations = append(total.Violations, caseResult{cr.index, "crash:" + kind, "the process crashed: " + kind,
			strings.Split(cr.text, "\n")})
		total.Evaluations += int64(cr.index/workers) + 1
	}

	sort.Slice(total.Violations, func(i, j int) bool { return total.Violations[i].Index < total.Violations[j].Index })
	known := loadKnown(p.id)
	var reported []caseResult
	seenKnown := map[string]bool{}
	for _, v := range total.Violations {
		if what, ok := known[v.Key]; ok {
			if !seenKnown[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, what)
				seenKnown[v.Key] = true
			}
			continue
		}
		reported = append(reported, v)
	}
	writeEvidence(p, &total, len(keys), reported, time.Since(start))
	if len(reported) > 0 {
		v := reported[0]
		rdir := filepath.Join(*flagVerif, "evidence", "replays")
		_ = os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", p.id, *flagSeed, v.Index))
		writeJSON(path, map[string]any{"property": p.id, "seed": *flagSeed, "tier": *flagTier, "index": v.Index,
			"key": v.Key, "what": v.Msg, "steps": v.Log,
			"how": fmt.Sprintf("cd /verif && ./check.sh %s -replay %s", p.id, path)})
		fmt.Printf("%s case %d [%s]: %s\n", p.id, v.Index, v.Key, strings.ToValidUTF8(trim(v.Msg, 2000), "\ufffd"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		return 2
	}
	for w, k := range total.Why {
		fmt.Fprintf(os.Stderr, "inconclusive %d: %s\n", k, w)
	}
	for _, name := range p.needs {
		if total.Counts[name] == 0 {
			fmt.Fprintf(os.Stderr, "ERROR: nothing observed for %q\n", name)
			return 2
		}
	}
	if total.Inconclusive*2 > total.Evaluations {
		fmt.Fprintf(os.Stderr, "ERROR: %d of %d cases had no verdict\n", total.Inconclusive, total.Evaluations)
		return 2
	}
	fmt.Printf("%s held: %d cases, %d distinct, %d without verdict, %.1fs\n", p.id, total.Evaluations, len(keys), total.Inconclusive, time.Since(start).Seconds())
	return 0
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeEvidence(p *property, t *workerResult, distinct int, viol []caseResult, d time.Duration) {
	cov := map[string]any{
		"evaluations":         t.Evaluations,
		"distinct_nontrivial": distinct,
		"rule":                p.rule,
		"inconclusive":        t.Inconclusive,
	}
	for k, v := range t.Counts {
		cov["observed: "+k] = v
	}
	if len(t.Samples) > 3 {
		t.Samples = t.Samples[:3]
	}
	if len(t.Samples) > 0 {
		cov["samples"] = t.Samples
	}
	_ = os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0o755)
	writeJSON(filepath.Join(*flagVerif, "evidence", p.id+".json"), map[string]any{
		"property": p.id, "tier": *flagTier, "seed": *flagSeed, "level": "exploration",
		"coverage": cov, "assumptions": p.assume, "wall_s": d.Seconds(), "violations": len(viol),
	})
}

// loadKnown reads the open findings of a property: lines
// "open: property=<id> key=<key> <what fails>" of known_findings.txt.
func loadKnown(id string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(filepath.Join(*flagVerif, "known_findings.txt"))
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.SplitN(line, " ", 4)
		if len(f) == 4 && f[0] == "open:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			known[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return known
}

func replay() {
	b, err := os.ReadFile(*flagReplay)
	if err != nil {
		fatal("%v", err)
	}
	var r struct {
		Property, Tier string
		Seed           uint64
		Index          int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	p := properties[r.Property]
	if p == nil {
		fatal("unknown property %s", r.Property)
	}
	dir := *flagScratch
	if dir == "" { // hand it to an unprivileged process
		if dir, err = os.MkdirTemp("", "vh-replay-"); err != nil {
			fatal("%v", err)
		}
		prepare(dir)
		file := filepath.Join(dir, "replay.json")
		if err := os.WriteFile(file, b, 0o644); err != nil {
			fatal("%v", err)
		}
		cmd := unprivileged(dir, filepath.Join(dir, "w"), "-replay", file, "-scratch", filepath.Join(dir, "w"))
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		err := cmd.Run()
		_ = os.RemoveAll(dir)
		if err != nil {
			os.Exit(1)
		}
		return
	}
	if err := os.Chdir(dir); err != nil {
		fatal("%v", err)
	}
	*flagTier = r.Tier
	c := newCtx(p, r.Seed, r.Index, r.Tier == "thorough", dir)
	v := runCase(p, c)
	for _, l := range c.log {
		fmt.Println(l)
	}
	switch {
	case v != nil:
		fmt.Printf("violated [%s]: %s\n", v.Key, v.Msg)
		os.Exit(1)
	case c.skipped != "":
		fmt.Println("no verdict:", c.skipped)
	default:
		fmt.Println("held")
	}
}
