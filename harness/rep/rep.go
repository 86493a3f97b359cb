// Package rep reports the outcome of a check: the evidence file, VIOLATION and KNOWN-FINDING lines, and replay files.
package rep

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// VerifDir is the root of the verification framework
var VerifDir = "/verif"

// R is the report of one check
type R struct {
	lock       sync.Mutex
	ID         string
	Tier       string
	Seed       int64
	Level      string
	Rule       string
	start      time.Time
	evals      int
	distinct   map[uint64]struct{}
	counters   map[string]int64
	sets       map[string]map[uint64]struct{}
	samples    []interface{}
	violations []violation
	known      map[string]string
	knownHit   map[string]bool
	assume     []string
}

type violation struct {
	What   string      `json:"what"`
	Detail interface{} `json:"detail"`
}

// New creates a report
func New(id, level, rule string, seed int64, tier string) *R {
	r := &R{ID: id, Tier: tier, Seed: seed, Level: level, Rule: rule, start: time.Now(),
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, sets: map[string]map[uint64]struct{}{},
		known: map[string]string{}, knownHit: map[string]bool{}}
	r.loadKnown()
	return r
}

// loadKnown reads the known findings: lines like "finding: property=C05 id=<id> <text>"
func (r *R) loadKnown() {
	f, err := os.Open(filepath.Join(VerifDir, "known-findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property="+r.ID+" id=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+r.ID+" id=")
		ps := strings.SplitN(l, " ", 2)
		r.known[ps[0]] = ps[1]
	}
}

// Thorough is true for the thorough tier
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// N selects the number of cases for the tier
func (r *R) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func hash(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// Case counts one evaluated case. The text identifies it, and is empty when the case is trivial
func (r *R) Case(text string) {
	r.lock.Lock()
	r.evals++
	if text != "" {
		r.distinct[hash(text)] = struct{}{}
	}
	r.lock.Unlock()
}

// Add adds to a counter of what the monitors observed
func (r *R) Add(name string, n int) {
	r.lock.Lock()
	r.counters[name] += int64(n)
	r.lock.Unlock()
}

// Get returns a counter
func (r *R) Get(name string) int64 {
	r.lock.Lock()
	defer r.lock.Unlock()
	return r.counters[name]
}

// Seen adds to a set of distinct observations
func (r *R) Seen(set, text string) {
	r.lock.Lock()
	s := r.sets[set]
	if s == nil {
		s = map[uint64]struct{}{}
		r.sets[set] = s
	}
	s[hash(text)] = struct{}{}
	r.lock.Unlock()
}

// SeenCount returns the size of a set of distinct observations
func (r *R) SeenCount(set string) int {
	r.lock.Lock()
	defer r.lock.Unlock()
	return len(r.sets[set])
}

// Progress changes as long as cases are evaluated
func (r *R) Progress() int64 {
	r.lock.Lock()
	defer r.lock.Unlock()
	n := int64(r.evals) + int64(len(r.violations))
	for _, v := range r.counters {
		n += v
	}
	return n
}

// Sample retains an actual case
func (r *R) Sample(v interface{}) {
	r.lock.Lock()
	if len(r.samples) < 5 {
		r.samples = append(r.samples, v)
	}
	r.lock.Unlock()
}

// Assume records an assumption
func (r *R) Assume(s string) { r.assume = append(r.assume, s) }

// Violation records a violation of the property
func (r *R) Violation(what string, detail interface{}) {
	r.lock.Lock()
	r.violations = append(r.violations, violation{what, detail})
	r.lock.Unlock()
}

// Violations returns the number of violations so far
func (r *R) Violations() int {
	r.lock.Lock()
	defer r.lock.Unlock()
	return len(r.violations)
}

// Known records that the known finding with the given id was observed. It is a violation if it isn't listed
func (r *R) Known(id, what string, detail interface{}) {
	r.lock.Lock()
	_, ok := r.known[id]
	if ok {
		r.knownHit[id] = true
	}
	r.lock.Unlock()
	if !ok {
		r.Violation(what, detail)
	}
}

// Finish writes the evidence, prints the outcome, and returns the exit code
func (r *R) Finish() int {
	cov := map[string]interface{}{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Rule,
		"samples":             r.samples,
	}
	obs := map[string]interface{}{}
	for k, v := range r.counters {
		obs[k] = v
	}
	for k, v := range r.sets {
		obs["distinct "+k] = len(v)
	}
	cov["observed"] = obs
	if r.samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": len(r.violations)}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	bs, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("cannot marshal evidence:", err)
		return 2
	}
	dir := filepath.Join(VerifDir, "evidence")
	_ = os.MkdirAll(dir, 0755)
	if err = os.WriteFile(filepath.Join(dir, r.ID+".json"), append(bs, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	ids := make([]string, 0)
	for id := range r.knownHit {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", r.ID, id, r.known[id])
	}
	fmt.Printf("%s: %d cases, %d distinct, observed %v\n", r.ID, r.evals, len(r.distinct), obs)
	if len(r.violations) == 0 {
		return 0
	}
	rd := filepath.Join(dir, "replay")
	_ = os.MkdirAll(rd, 0755)
	for i, v := range r.violations {
		if i >= 10 {
			fmt.Printf("... and %d more\n", len(r.violations)-i)
			break
		}
		fn := filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", r.ID, r.Seed, i))
		bs, _ := json.MarshalIndent(map[string]interface{}{"property": r.ID, "seed": r.Seed, "tier": r.Tier,
			"what": v.What, "detail": v.Detail, "rerun": "VERIF_SEED=" + fmt.Sprint(r.Seed) + " VERIF_TIER=" + r.Tier + " bash /verif/check.sh " + r.ID}, "", " ")
		_ = os.WriteFile(fn, append(bs, '\n'), 0644)
		fmt.Printf("%s\n", v.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, fn)
	}
	return 1
}
