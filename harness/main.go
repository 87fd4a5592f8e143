package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The driver re-executes itself as a worker, so that a fatal runtime error (data race report, concurrent map
// access, stack exhaustion) in the monitored code is observed from outside rather than ending the check.

type workerReport struct {
	Counts  map[string]int
	Classes map[string][]string
	Seen    []string
	Evals   int64
	Samples []any
	Viols   []Violation
	Known   map[string]string
	Errs    []string
}

func main() {
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "verification root")
	caseIdx := flag.Int("case", -1, "run just this case")
	worker := flag.String("worker", "", "internal: write the worker report here")
	list := flag.Bool("list", false, "list the properties")
	isRace := flag.Bool("israce", false, "tells whether a property needs the race build")
	cases := flag.Int("cases", 0, "override the number of cases")
	shard := flag.Int("shard", 0, "internal: the part of the cases this worker runs")
	cold := flag.Bool("cold", false, "internal: make the first calls of a process, as standard input says")
	flag.Parse()
	if *list {
		for _, k := range sortedKeys(props) {
			fmt.Println(k)
		}
		return
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}
	if *isRace {
		fmt.Println(p.Race)
		return
	}
	if *cold {
		runCold(p)
		return
	}
	n := p.Quick
	if *tier == "thorough" {
		n = p.Deep
	}
	if *cases > 0 {
		n = *cases
	}
	if *worker != "" {
		runWorker(p, *tier, *seed, *verif, *caseIdx, n, *worker, *shard)
		return
	}
	os.Exit(drive(p, *tier, *seed, *verif, *caseIdx, n))
}

func replayDir() string {
	if d := os.Getenv("VERIF_REPLAY_DIR"); d != "" {
		return d
	}
	return "/tmp/verif-replay"
}

func runWorker(p *Prop, tier string, seed int64, verif string, only, n int, out string, shard int) {
	shards := max(p.Shards, 1)
	debug.SetMemoryLimit(12 << 30)
	time.Local = time.FixedZone("elsewhere", 5*3600+1800) // a program that forgets the time zone must show
	debug.SetMaxStack(512 << 20)
	x := &Ctx{Prop: p, Tier: tier, Seed: seed, counts: map[string]int{}, seenSet: map[string]struct{}{},
		classes: map[string]map[string]struct{}{}, knownHit: map[string]string{}, shard: shard, Scratch: filepath.Dir(out), Replay: replayDir(),
		known: loadKnown(filepath.Join(verif, "known_findings.txt"))}
	if p.Setup != nil {
		p.Setup(x)
	}
	workers := runtime.GOMAXPROCS(0)
	if p.Serial {
		workers = 1
	}
	// journal: which case each worker is in, for a crash post-mortem and for the hang watchdog
	cur := make([]atomic.Int64, workers)
	since := make([]atomic.Int64, workers)
	for i := range cur {
		cur[i].Store(-1)
	}
	var next atomic.Int64
	var done atomic.Bool
	jf, _ := os.Create(out + ".journal")
	go func() {
		for !done.Load() {
			time.Sleep(500 * time.Millisecond)
			for i := range cur {
				ci := cur[i].Load()
				if ci >= 0 && time.Now().UnixNano()-since[i].Load() > int64(hangLimit) {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					fmt.Fprintf(os.Stderr, "VERIF-HANG case=%d\n%s\n", ci, buf)
					os.Exit(97)
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)-1)*shards + shard
				if only >= 0 {
					if i >= shards {
						return
					}
					i = only
				}
				if i >= n && only < 0 {
					return
				}
				since[w].Store(time.Now().UnixNano())
				cur[w].Store(int64(i))
				if jf != nil {
					jf.WriteAt([]byte(fmt.Sprintf("%-20d\n", i)), int64(w*21))
				}
				runCase(x, p, i, func() { since[w].Store(time.Now().UnixNano()) })
				cur[w].Store(-1)
				x.mu.Lock()
				stop := len(x.viols) >= 4
				x.mu.Unlock()
				if stop {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	done.Store(true)
	if p.Finish != nil && only < 0 && shard == 0 {
		p.Finish(x)
	}
	rep := workerReport{Counts: x.counts, Classes: map[string][]string{}, Seen: sortedKeys(x.seenSet), Evals: x.evals.Load(), Samples: x.samples, Viols: x.viols, Known: x.knownHit, Errs: x.errs}
	for k, m := range x.classes {
		rep.Classes[k] = sortedKeys(m)
	}
	b, err := json.Marshal(rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

const hangLimit = 120 * time.Second

func runCase(x *Ctx, p *Prop, i int, beat func()) {
	c := &Case{prop: p, Idx: i, Name: fmt.Sprintf("%s/%d", p.ID, i), R: newR(x.Seed, "|", p.ID, "|", i), ctx: x, beat: beat}
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			site := panicSite(st)
			if strings.HasPrefix(site, "github.com/") || strings.HasPrefix(site, "sigs.k8s.io/") {
				c.ViolationK("panic:"+site, "panic in the code under test (stage %s): %v at %s", c.stage, e, site)
			} else {
				x.harnessError("case %d: harness panic: %v\n%s", i, e, st)
			}
		}
	}()
	x.evals.Add(1)
	p.Run(c)
}

// raceReports reads the reports of the race detector: those of the code under test (or of memory it hands out),
// and how many lie entirely within gordf, the RDF parser it uses, which is known to race with itself.
func raceReports(dir string) (ours []string, foreign int) {
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			inside, gordf := true, false
			for _, s := range raceSites(rep) {
				if strings.HasPrefix(s, "github.com/spdx/gordf") {
					gordf = true
				} else if s != "?" { // "?": the detector no longer knew the stack
					inside = false
				}
			}
			if inside && gordf {
				foreign++
			} else {
				ours = append(ours, rep)
			}
		}
	}
	return ours, foreign
}

// raceSites names, for both accesses of a report, the innermost function that is not the standard library's.
func raceSites(rep string) []string {
	var sites []string
	access, found := false, false
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.Contains(l, " by goroutine ") || strings.Contains(l, " by main goroutine"):
			access, found = true, false
		case t == "" || strings.HasPrefix(t, "Goroutine "):
			if access && !found {
				sites = append(sites, "?")
			}
			access = false
		case access && !found && (strings.HasPrefix(t, "main.") || strings.Contains(t, ".") && strings.Contains(strings.SplitN(t, "/", 2)[0], ".") && strings.Contains(t, "/")) && !strings.HasPrefix(t, "/"):
			sites, found = append(sites, strings.TrimSuffix(t, "()")), true
		}
	}
	return sites
}

// workerEnd is how one worker process ended.
type workerEnd struct {
	rep            workerReport
	crash, journal string // it crashed in, or hung in, the code under test
	broken         string // it ended in any other way
	stderr         []byte
}

// runPlainRoot runs a command, if asked for without the privilege of reading what the permissions of a file deny,
// where that can be had.
func runPlainRoot(cmd *exec.Cmd, plain bool) error {
	if !plain {
		return cmd.Run()
	}
	done := make(chan error, 1)
	go func() {
		runtime.LockOSThread()              // and never unlocked: the thread ends with the goroutine
		for _, c := range []uintptr{1, 2} { // CAP_DAC_OVERRIDE, CAP_DAC_READ_SEARCH
			syscall.RawSyscall(syscall.SYS_PRCTL, 24 /* PR_CAPBSET_DROP */, c, 0)
		}
		if err := cmd.Start(); err != nil {
			done <- err
			return
		}
		done <- cmd.Wait()
	}()
	return <-done
}

func runPart(self string, args []string, out, covDir string, plainRoot bool) (e workerEnd) {
	dir := filepath.Dir(out)
	cmd := exec.Command(self, args...)
	ef, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stdout = os.Stderr
	cmd.Stderr = ef
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOCOVERDIR="+covDir, "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=5 atexit_sleep_ms=20 log_path="+filepath.Join(dir, "race"))
	werr := runPlainRoot(cmd, plainRoot)
	ef.Close()
	e.stderr, _ = os.ReadFile(filepath.Join(dir, "stderr"))
	if werr == nil {
		b, err := os.ReadFile(out)
		if err != nil || json.Unmarshal(b, &e.rep) != nil {
			e.broken = "no worker report\n" + clip(string(e.stderr), 4000)
		}
		return e
	}
	j, _ := os.ReadFile(out + ".journal")
	e.journal = string(j)
	s := string(e.stderr)
	switch {
	case cmd.ProcessState.ExitCode() == 97:
		e.crash = fmt.Sprintf("a monitored call did not return within %v", hangLimit)
	case strings.Contains(s, "fatal error: concurrent map") || strings.Contains(s, "stack overflow") || strings.Contains(s, "goroutine stack exceeds") || strings.Contains(s, "all goroutines are asleep"):
		e.crash = "fatal runtime error: " + firstLine(s, "fatal error")
	case strings.Contains(s, "panic: ") && strings.Contains(s, "github.com/spdx/tools-golang"):
		e.crash = "panic outside the monitored goroutine: " + firstLine(s, "panic: ")
	default:
		e.broken = fmt.Sprintf("worker ended with %v\n%s", werr, clip(s, 8000))
	}
	return e
}

func drive(p *Prop, tier string, seed int64, verif string, only, n int) int {
	scratch, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	out := filepath.Join(scratch, "report.json")
	covDir := filepath.Join(scratch, "cov")
	os.MkdirAll(covDir, 0o755)
	self, _ := os.Executable()
	shards := max(p.Shards, 1)
	if only >= 0 {
		shards = 1
	}
	ends := make([]workerEnd, shards)
	var wg sync.WaitGroup
	for k := range ends {
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := out
			if k > 0 {
				o = filepath.Join(scratch, fmt.Sprintf("part%d", k), "report.json")
				os.MkdirAll(filepath.Dir(o), 0o755)
			}
			args := []string{"-prop", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-verif", verif, "-worker", o, "-shard", strconv.Itoa(k), "-cases", strconv.Itoa(n)}
			if only >= 0 {
				args = append(args, "-case", strconv.Itoa(only))
			}
			ends[k] = runPart(self, args, o, covDir, p.PlainRoot)
		}()
	}
	wg.Wait()
	rep, seen, classes := workerReport{Counts: map[string]int{}, Known: map[string]string{}}, map[string]bool{}, map[string]map[string]bool{}
	crash, journal, broken := "", "", ""
	var stderr []byte
	for _, e := range ends {
		if e.crash != "" && crash == "" {
			crash, journal, stderr = e.crash, e.journal, e.stderr
		}
		if e.broken != "" {
			broken = e.broken
		}
		for k, v := range e.rep.Counts {
			rep.Counts[k] += v
		}
		for _, k := range e.rep.Seen {
			seen[k] = true
		}
		for c, l := range e.rep.Classes {
			if classes[c] == nil {
				classes[c] = map[string]bool{}
			}
			for _, k := range l {
				classes[c][k] = true
			}
		}
		rep.Evals += e.rep.Evals
		rep.Samples = append(rep.Samples, e.rep.Samples...)
		rep.Viols = append(rep.Viols, e.rep.Viols...)
		rep.Errs = append(rep.Errs, e.rep.Errs...)
		for k, v := range e.rep.Known {
			rep.Known[k] = v
		}
	}
	if len(rep.Samples) > 4 {
		rep.Samples = rep.Samples[:4]
	}
	if broken != "" && crash == "" && len(rep.Viols) == 0 {
		fmt.Fprintln(os.Stderr, "check error: "+broken)
		return 2
	}
	distinct := map[string]int{}
	for c, m := range classes {
		distinct[c] = len(m)
	}
	races, foreign := raceReports(scratch)
	if p.Race {
		rep.Counts["race_reports_inside_gordf_only"] = foreign
	}
	if len(races) > 0 && crash == "" {
		crash = fmt.Sprintf("%d data races reported by the Go race detector, the first between %s", len(races), strings.Join(raceSites(races[0]), " and "))
		stderr = []byte(strings.Join(races, "\n"))
	}
	if crash != "" {
		path := filepath.Join(replayDir(), fmt.Sprintf("%s-%s-%d-crash.json", p.ID, tier, seed))
		os.MkdirAll(replayDir(), 0o755)
		b, _ := json.MarshalIndent(map[string]any{"property": p.ID, "tier": tier, "seed": seed, "message": crash,
			"cases_in_flight": strings.Fields(journal), "log": clip(string(stderr), 60000),
			"rerun": fmt.Sprintf("VERIF_SEED=%d ./check.sh %s %s", seed, p.ID, tier)}, "", "  ")
		os.WriteFile(path, b, 0o644)
		rep.Viols = append(rep.Viols, Violation{Case: "worker", Msg: crash, Replay: path})
	}
	cov := packageCoverage(covDir)
	coverage := map[string]any{
		"evaluations":         rep.Evals,
		"distinct_nontrivial": len(seen),
		"rule":                p.Rule,
		"samples":             rep.Samples,
		"counters":            rep.Counts,
		"distinct_states":     distinct,
	}
	if len(cov) > 0 {
		coverage["statements_reached_percent"] = cov
	}
	if len(rep.Samples) == 0 {
		coverage["samples"] = []any{}
	}
	if len(rep.Known) > 0 {
		coverage["known_findings_seen"] = rep.Known
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
		"assumptions": p.Assume, "wall_s": time.Since(startTime).Seconds(), "violations": len(rep.Viols),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if only < 0 {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, k := range sortedKeys(rep.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, rep.Known[k])
	}
	for _, v := range rep.Viols {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, v.Replay)
		fmt.Printf("  %s: %s\n", v.Case, clip(v.Msg, 1500))
	}
	if len(rep.Viols) > 0 {
		return 1
	}
	if len(rep.Errs) > 0 {
		fmt.Fprintf(os.Stderr, "check error: %s\n", strings.Join(rep.Errs, "\n"))
		return 2
	}
	if only < 0 {
		for _, k := range p.Need {
			if rep.Counts[k] == 0 {
				fmt.Fprintf(os.Stderr, "check error: nothing was observed for %q: the run decided nothing\n", k)
				return 2
			}
		}
		if len(seen) < p.MinSeen || len(seen) < 2 {
			fmt.Fprintf(os.Stderr, "check error: only %d distinct observations\n", len(seen))
			return 2
		}
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", p.ID, tier, rep.Evals, len(seen), time.Since(startTime).Seconds())
	return 0
}

func firstLine(s, sub string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, sub) {
			return l
		}
	}
	return ""
}

func packageCoverage(dir string) map[string]string {
	b, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).Output()
	if err != nil {
		return nil
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && strings.HasPrefix(f[0], "github.com/spdx/tools-golang") && f[2] != "0.0%" {
			m[strings.TrimPrefix(f[0], "github.com/spdx/tools-golang/")] = f[2]
		}
	}
	return m
}
