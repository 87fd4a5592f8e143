package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// R is the only source of randomness: a PCG stream per (seed, property, case).
type R struct{ *rand.Rand }

func newR(parts ...any) *R {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	var a, b uint64
	for i := 0; i < 8; i++ {
		a = a<<8 | uint64(h[i])
		b = b<<8 | uint64(h[8+i])
	}
	return &R{rand.New(rand.NewPCG(a, b))}
}

func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return r.IntN(n)
}
func (r *R) Chance(p float64) bool { return r.Float64() < p }
func (r *R) In(lo, hi int) int     { return lo + r.N(hi-lo+1) }
func pick[T any](r *R, s []T) T    { return s[r.N(len(s))] }

// Case is one monitored execution. Monitors report through it.
type Case struct {
	prop  *Prop
	Idx   int
	Name  string
	R     *R
	ctx   *Ctx
	notes []string
	input []byte // what to write to the replay file besides the coordinates
	stage string
	viol  bool
	beat  func() // tells the watch over hanging cases that this one moves on
}

// Violationf reports that the property is broken by this case.
func (c *Case) Violationf(format string, a ...any) {
	c.viol = true
	c.ctx.violation(c, fmt.Sprintf(format, a...), "")
}

// ViolationK is Violationf with a stable key, which known_findings may list.
func (c *Case) ViolationK(key, format string, a ...any) {
	c.viol = true
	c.ctx.violation(c, fmt.Sprintf(format, a...), key)
}

// Input remembers the concrete input for the replay file.
func (c *Case) Input(b []byte)         { c.input = b }
func (c *Case) Stage(s string)         { c.stage = s; c.beat() }
func (c *Case) Tier() string           { return c.ctx.Tier }
func (c *Case) Thorough() bool         { return c.ctx.Tier == "thorough" }
func (c *Case) Count(k string)         { c.ctx.Count(k, 1) }
func (c *Case) CountN(k string, n int) { c.ctx.Count(k, n) }

// Seen records a distinct non-trivial observation signature.
func (c *Case) Seen(sig ...any) { c.ctx.seen(fmt.Sprint(sig...)) }

// Distinct records a named class of observed states.
func (c *Case) Distinct(class string, sig ...any) { c.ctx.distinct(class, fmt.Sprint(sig...)) }
func (c *Case) Sample(v any)                      { c.ctx.sample(v) }

// Ctx is one run of one property's check.
type Ctx struct {
	Prop     *Prop
	Tier     string
	Seed     int64
	Scratch  string
	Replay   string
	mu       sync.Mutex
	counts   map[string]int
	seenSet  map[string]struct{}
	classes  map[string]map[string]struct{}
	samples  []any
	viols    []Violation
	evals    atomic.Int64
	known    map[string]string
	knownHit map[string]string
	errs     []string
	shard    int
}

type Violation struct {
	Case   string
	Msg    string
	Key    string
	Replay string
}

func (x *Ctx) Count(k string, n int) {
	x.mu.Lock()
	x.counts[k] += n
	x.mu.Unlock()
}
func hsh(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:10])
}
func (x *Ctx) seen(s string) {
	k := hsh(s)
	x.mu.Lock()
	x.seenSet[k] = struct{}{}
	x.mu.Unlock()
}
func (x *Ctx) distinct(class, s string) {
	k := hsh(s)
	x.mu.Lock()
	m := x.classes[class]
	if m == nil {
		m = map[string]struct{}{}
		x.classes[class] = m
	}
	m[k] = struct{}{}
	x.mu.Unlock()
}
func (x *Ctx) sample(v any) {
	x.mu.Lock()
	if len(x.samples) < 4 {
		x.samples = append(x.samples, v)
	}
	x.mu.Unlock()
}

func (x *Ctx) harnessError(format string, a ...any) {
	x.mu.Lock()
	if len(x.errs) < 20 {
		x.errs = append(x.errs, fmt.Sprintf(format, a...))
	}
	x.mu.Unlock()
}

func (x *Ctx) violation(c *Case, msg, key string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if key != "" {
		if what, ok := x.known[x.Prop.ID+" "+key]; ok {
			x.knownHit[key] = what
			return
		}
	}
	if len(x.viols) >= 8 {
		return
	}
	name := fmt.Sprintf("%s-%s-%d-%d.json", x.Prop.ID, x.Tier, x.Seed, len(x.viols))
	if x.shard > 0 {
		name = fmt.Sprintf("%s-%s-%d-%d-%d.json", x.Prop.ID, x.Tier, x.Seed, x.shard, len(x.viols))
	}
	path := filepath.Join(x.Replay, name)
	inp := string(c.input)
	b, _ := json.MarshalIndent(map[string]any{
		"property": x.Prop.ID, "tier": x.Tier, "seed": x.Seed, "case_index": c.Idx, "case": c.Name,
		"stage": c.stage, "message": msg, "key": key, "input": inp,
		"rerun": fmt.Sprintf("VERIF_SEED=%d ./check.sh %s %s -case %d", x.Seed, x.Prop.ID, x.Tier, c.Idx),
	}, "", "  ")
	if err := os.MkdirAll(x.Replay, 0o755); err == nil {
		_ = os.WriteFile(path, b, 0o644)
	}
	x.viols = append(x.viols, Violation{c.Name, msg, key, path})
}

// Prop is one registered check.
type Prop struct {
	ID        string
	Rule      string
	Race      bool // the worker must be built with -race
	Quick     int
	Deep      int
	Assume    []string
	Setup     func(x *Ctx)
	Run       func(c *Case)
	Finish    func(x *Ctx)
	Serial    bool
	Shards    int      // worker processes that share the cases (1 if 0)
	PlainRoot bool     // permissions of files count, even for root
	MinSeen   int      // fewer distinct observations than this: the run decided nothing
	Need      []string // counters that must be non-zero, or the run decided nothing
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// guard runs f and reports a panic in it as a violation. what names the call.
func (c *Case) guard(what string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			c.ViolationK("panic:"+panicSite(st), "%s panicked: %v at %s", what, p, panicSite(st))
			ok = false
		}
	}()
	f()
	return true
}

// panicSite names the topmost function of the code under test (or of a library it calls) on a panicking stack.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	afterPanic := false
	first := ""
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			afterPanic = true
			continue
		}
		if !afterPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		fn := l
		if i := strings.LastIndex(fn, "("); i > 0 {
			fn = fn[:i]
		}
		if strings.HasPrefix(fn, "runtime.") {
			continue
		}
		if first == "" {
			first = fn
		}
		if strings.HasPrefix(fn, "github.com/spdx/tools-golang") {
			return fn
		}
		if strings.HasPrefix(fn, "main.") {
			break
		}
	}
	return first
}

func loadKnown(path string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return m
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := strings.TrimSpace(s.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=<id> key=<key> | <what fails>
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		head, what, _ := strings.Cut(l, "|")
		var id, key string
		for _, f := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				id = v
			}
			if v, ok := strings.CutPrefix(f, "key="); ok {
				key = v
			}
		}
		if id != "" && key != "" {
			m[id+" "+key] = strings.TrimSpace(what)
		}
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("…(%d bytes)", len(s))
}

var startTime = time.Now()
