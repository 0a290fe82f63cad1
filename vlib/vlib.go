// Package vlib is the shared harness: it runs a generated-input property with
// rapid, counts and classifies the generated cases, and writes the statistics
// the runner turns into evidence.
package vlib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Opts describes one executable statement of a property.
type Opts struct {
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // cases per shard, quick tier
	Thorough int    // cases per shard, thorough tier
	Steps    int    // average number of state machine steps (default 30)
}

// C collects what one run of a test generated.
type C struct {
	mu         sync.Mutex
	start      time.Time
	inCase     bool
	evals      int
	distinct   map[uint64]struct{}
	labels     map[string]int
	samples    []string
	nextSample int
	curNT      bool
	curSample  string
}

// NonTrivial marks the current case non-trivial; key identifies it (distinct
// keys are counted).
func (c *C) NonTrivial(key ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, key...)
	c.mu.Lock()
	c.curNT = true
	if len(c.distinct) < 4000000 {
		c.distinct[h.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

// Label counts a class of generated cases.
func (c *C) Label(l string) {
	c.mu.Lock()
	if c.labels == nil {
		c.labels = map[string]int{}
	}
	c.labels[l]++
	c.mu.Unlock()
}

// Sample offers a printable form of the current case.
func (c *C) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	if c.evals >= c.nextSample && len(c.samples) < 6 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.curSample = s
	}
	c.mu.Unlock()
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Replaying reports whether a saved failure is being replayed.
func Replaying() bool { return os.Getenv("VERIF_REPLAY") != "" }

func caseHang() time.Duration {
	if s := os.Getenv("VERIF_HANG_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	return 200 * time.Second
}

// Check runs prop over generated cases.
func Check(t *testing.T, o Opts, prop func(rt *rapid.T, c *C)) {
	c := &C{distinct: map[uint64]struct{}{}, labels: map[string]int{}}
	n := o.Quick
	if Thorough() {
		n = o.Thorough
		if n == 0 {
			n = 10 * o.Quick
		}
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			n = int(float64(n)*f) + 1
		}
	}
	if n == 0 {
		n = 100
	}
	steps := o.Steps
	if steps == 0 {
		steps = 30
	}
	if Replaying() {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.steps", strconv.Itoa(steps))

	begin := time.Now()
	done := make(chan struct{})
	go func() { // a single case normally takes milliseconds; one that never returns is a hang
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
				c.mu.Lock()
				hung := c.inCase && time.Since(c.start) > caseHang()
				ev := c.evals
				c.mu.Unlock()
				if hung {
					buf := make([]byte, 1<<20)
					k := runtime.Stack(buf, true)
					fmt.Printf("VERIF-HANG test=%s case=%d did not return in %v\n%s\n", t.Name(), ev, caseHang(), buf[:k])
					os.Exit(77)
				}
			}
		}
	}()
	defer func() {
		close(done)
		c.write(t.Name(), o.Rule, time.Since(begin))
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c.mu.Lock()
		c.evals++
		c.inCase = true
		c.start = time.Now()
		c.curNT = false
		c.curSample = ""
		c.mu.Unlock()
		defer func() {
			c.mu.Lock()
			c.inCase = false
			if c.curNT {
				c.labels["(non-trivial)"]++
				if c.curSample != "" && c.evals >= c.nextSample {
					c.samples = append(c.samples, c.curSample)
					c.nextSample = c.evals*3 + 1
				}
			}
			c.mu.Unlock()
		}()
		prop(rt, c)
	})
}

type stats struct {
	Test     string         `json:"test"`
	Rule     string         `json:"rule"`
	Evals    int            `json:"evals"`
	Distinct []uint64       `json:"distinct"`
	Labels   map[string]int `json:"labels"`
	Samples  []string       `json:"samples"`
	WallS    float64        `json:"wall_s"`
}

func (c *C) write(name, rule string, d time.Duration) {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		return
	}
	s := stats{Test: name, Rule: rule, Evals: c.evals, Labels: c.labels, Samples: c.samples, WallS: d.Seconds()}
	for k := range c.distinct {
		s.Distinct = append(s.Distinct, k)
	}
	sort.Slice(s.Distinct, func(i, j int) bool { return s.Distinct[i] < s.Distinct[j] })
	b, err := json.Marshal(s)
	if err == nil {
		os.WriteFile(filepath.Join(dir, name+".json"), b, 0644)
	}
}

// Catch runs f and returns the value it panicked with (nil if it did not).
func Catch(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			p = r
		}
	}()
	f()
	return nil
}

// Known reports (once per process and finding) that a listed finding was seen.
var knownOnce sync.Map

// KnownFinding prints the marker line for a listed finding; the runner turns it
// into a KNOWN-FINDING line only if the finding is in /verif/known_findings.txt.
func KnownFinding(id string) {
	if _, loaded := knownOnce.LoadOrStore(id, true); !loaded {
		fmt.Printf("VERIF-KNOWN %s\n", id)
	}
}

// TempDir makes a scratch directory that is removed when the case ends.
func TempDir(rt *rapid.T) string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case")
	if err != nil {
		panic(err)
	}
	rt.Cleanup(func() { os.RemoveAll(d) })
	return d
}
