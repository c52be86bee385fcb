package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check context: counts what the monitors observed, records violations.

type Violation struct {
	Key    string // short stable key of the failing thing
	Msg    string
	Replay string
}

type Ctx struct {
	ID, Tier string
	Seed     int64
	Thorough bool
	start    time.Time

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	samples  []map[string]string
	counts   map[string]int64
	viol     []Violation
	violKeys map[string]bool
	known    []string
	assume   []string
	stop     atomic.Bool
	findings []Finding
	rule     string
}

type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Dialect  string `json:"dialect,omitempty"`
	Kind     string `json:"kind,omitempty"`
	Input    string `json:"input,omitempty"`
	Before   string `json:"before,omitempty"`
	After    string `json:"after,omitempty"`
	Arg      string `json:"arg,omitempty"`
	What     string `json:"what"`
}

var verifDir = envOr("VERIF_DIR", "/verif")
var workDir string // scratch directory of this run

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func (c *Ctx) count(k string, n int64) {
	c.mu.Lock()
	c.counts[k] += n
	c.mu.Unlock()
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// eval records one oracle evaluation; sig identifies the non trivial case it judged.
func (c *Ctx) eval(sig string) {
	h := hash64(sig)
	c.mu.Lock()
	c.evals++
	if sig != "" {
		c.distinct[h] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) sample(in, obs string) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, map[string]string{"input": clip(in, 600), "observed": clip(obs, 600)})
	}
	c.mu.Unlock()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// printable leaves out what a terminal or a reader of UTF-8 cannot show.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' || r == 0x7f {
			return ' '
		}
		return r
	}, strings.ToValidUTF8(s, "?"))
}

var maxViolations = func() int { n, _ := strconv.Atoi(envOr("VERIF_MAX", "8")); return n }()

// violate records a violation; detail is stored in the replay file.
func (c *Ctx) violate(key, msg, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, f := range c.findings {
		if f.Property == c.ID && f.Key == key {
			c.known = append(c.known, f.Key+": "+f.What)
			return
		}
	}
	if c.violKeys[key] || len(c.viol) >= maxViolations {
		if len(c.viol) >= maxViolations {
			c.stop.Store(true)
		}
		return
	}
	c.violKeys[key] = true
	dir := filepath.Join(verifDir, "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", c.ID, len(c.viol)+1))
	body := fmt.Sprintf("property: %s\ntier: %s seed: %d\ncase: %s\n\n%s\n\n%s\n", c.ID, c.Tier, c.Seed, key, msg, detail)
	_ = os.WriteFile(p, []byte(body), 0o644)
	c.viol = append(c.viol, Violation{key, msg, p})
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
	fmt.Printf("  %s: %s\n", key, printable(clip(strings.ReplaceAll(msg, "\n", " | "), 500)))
}

// rng derives a deterministic generator for case i of stream s.
func (c *Ctx) rng(stream string, i int) *rand.Rand {
	return rand.New(rand.NewSource(int64(hash64(fmt.Sprintf("%d/%s/%s/%d", c.Seed, c.ID, stream, i)))))
}

func (c *Ctx) n(quick, thorough int) int {
	n := quick
	if c.Thorough {
		n = thorough
	}
	if pc, err := strconv.Atoi(envOr("VERIF_SCALE", "")); err == nil { // development: a share of the cases, in percent
		n = (n*pc + 99) / 100
	}
	return n
}

// parallel runs n cases of a stream on all cores.
func (c *Ctx) parallel(stream string, n int, f func(i int, r *rand.Rand)) {
	c.parallelN(stream, n, runtime.NumCPU(), f)
}

func (c *Ctx) parallelN(stream string, n, workers int, f func(i int, r *rand.Rand)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.stop.Load() {
					return
				}
				if only := os.Getenv("VERIF_CASE"); only != "" && only != fmt.Sprintf("%s/%d", stream, i) {
					continue
				}
				f(i, c.rng(stream, i))
			}
		}()
	}
	wg.Wait()
	if os.Getenv("VERIF_TIMING") != "" {
		fmt.Printf("timing: %s at %.1fs\n", stream, time.Since(c.start).Seconds())
	}
}

type prop struct {
	level string
	rule  string
	run   func(c *Ctx)
}

var props = map[string]prop{}

func newCtx(id, tier string, p prop) *Ctx {
	seed, err := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = int64(hash64(os.Getenv("VERIF_SEED")))
	}
	c := &Ctx{ID: id, Tier: tier, Seed: seed, Thorough: tier == "thorough", start: time.Now(), distinct: map[uint64]struct{}{}, counts: map[string]int64{}, violKeys: map[string]bool{}, rule: p.rule}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		var kf struct {
			Findings []Finding `json:"findings"`
		}
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
		for _, f := range kf.Findings {
			if f.Property == id {
				c.findings = append(c.findings, f)
			}
		}
	}
	return c
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness PROPERTY TIER")
		os.Exit(2)
	}
	id, tier := os.Args[1], os.Args[2]
	p, ok := props[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	if os.Getenv("VERIF_CHILD") == "" {
		supervise(id, tier)
	}
	c := newCtx(id, tier, p)
	go c.watch(p)
	var err error
	workDir, err = os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	// stale replays of this property
	if old, _ := filepath.Glob(filepath.Join(verifDir, "evidence", "replay", id+"-*.txt")); old != nil {
		for _, o := range old {
			_ = os.Remove(o)
		}
	}
	p.run(c)
	_ = os.RemoveAll(workDir)
	sort.Strings(c.known)
	for _, k := range uniq(c.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, printable(k))
	}
	c.writeEvidence(p)
	fmt.Printf("%s %s seed=%d evaluations=%d distinct=%d violations=%d %.1fs\n", id, tier, c.Seed, c.evals, len(c.distinct), len(c.viol), time.Since(c.start).Seconds())
	if len(c.viol) > 0 {
		os.Exit(1)
	}
	if c.evals == 0 && os.Getenv("VERIF_CASE") == "" {
		fmt.Fprintln(os.Stderr, "the monitors observed nothing: no answer")
		os.Exit(2)
	}
}

func uniq(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			out = append(out, x)
		}
	}
	return out
}

func (c *Ctx) writeEvidence(p prop) {
	ks := make([]string, 0)
	for k := range c.counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	obs := map[string]any{}
	for _, k := range ks {
		obs[k] = c.counts[k]
	}
	viol := []map[string]string{}
	for _, v := range c.viol {
		viol = append(viol, map[string]string{"key": v.Key, "message": clip(v.Msg, 2000), "replay": v.Replay})
	}
	samples := []any{}
	for _, s := range c.samples {
		samples = append(samples, s)
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": p.level,
		"coverage": map[string]any{
			"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule,
			"samples": samples, "observed": obs,
		},
		"wall_s":     time.Since(c.start).Seconds(),
		"violations": viol, "known_findings": uniq(c.known), "assumptions": c.assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
