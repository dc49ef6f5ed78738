// Package pk runs property-based checks: scenarios are plain data drawn by
// rapid, executed by a deterministic function against the real code, counted,
// shrunk on failure and replayable from a JSON file without rapid.
package pk

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// C collects what one case exercised.
type C struct {
	nontrivial bool
	classes    []string
	excluded   []string
	known      []string
}

// NonTrivial marks the case as non-trivial by the leg's rule.
func (c *C) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the case as non-trivial when b holds.
func (c *C) NonTrivialIf(b bool) {
	if b {
		c.nontrivial = true
	}
}

// Class counts the case under a label.
func (c *C) Class(l string) { c.classes = append(c.classes, l) }

// ClassIf counts the case under a label when b holds.
func (c *C) ClassIf(b bool, l string) {
	if b {
		c.classes = append(c.classes, l)
	}
}

// Infra aborts the check as an error of the machinery (never a violation).
func Infra(format string, a ...interface{}) {
	panic(infra{fmt.Sprintf(format, a...)})
}

type infra struct{ s string }

type result struct {
	Leg         string         `json:"leg"`
	Evaluations int            `json:"evaluations"`
	Planned     int            `json:"planned"`
	Skipped     int            `json:"skipped"`
	Hashes      []string       `json:"hashes"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Failure     *failure       `json:"failure,omitempty"`
	Infra       string         `json:"infra,omitempty"`
	Done        bool           `json:"done"`
}

type failure struct {
	Leg      string          `json:"leg"`
	Error    string          `json:"error"`
	Scenario json.RawMessage `json:"scenario"`
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

var caseStart struct {
	sync.Mutex
	t   time.Time
	on  bool
	leg string
}

func watchdog(limit time.Duration) {
	for {
		time.Sleep(2 * time.Second)
		caseStart.Lock()
		stuck := caseStart.on && time.Since(caseStart.t) > limit
		caseStart.Unlock()
		if stuck {
			// Dump everything and stop: the driver decides from the stacks
			// whether this is a lock deadlock in the code under test or
			// just no answer.
			buf := make([]byte, 16<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "VERIF-STUCK\n%s\nVERIF-STUCK-END\n", buf[:n])
			os.Exit(97)
		}
	}
}

var wdOnce sync.Once

// Check runs leg with generated scenarios (or replays one).
// The number of cases is -rapid.checks; VERIF_BUDGET_S bounds the real time
// (cases beyond it are skipped and counted as such, never judged).
func Check[S any](t *testing.T, leg string, gen func(*rapid.T) S, exec func(*C, S) error) {
	wdOnce.Do(func() { go watchdog(time.Duration(envInt("VERIF_CASE_LIMIT_S", 90)) * time.Second) })
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		replay(t, leg, f, exec)
		return
	}
	out := os.Getenv("VERIF_OUT")
	budget := time.Duration(envInt("VERIF_BUDGET_S", 150)) * time.Second
	begin := time.Now()
	res := &result{Leg: leg, Classes: map[string]int{}}
	seen := map[string]bool{}
	var lastFail *failure
	shrinkBegin := time.Time{}
	save := func() {
		if out == "" {
			return
		}
		res.Hashes = res.Hashes[:0]
		for h := range seen {
			res.Hashes = append(res.Hashes, h)
		}
		sort.Strings(res.Hashes)
		res.Failure = lastFail
		b, err := json.Marshal(res)
		if err == nil {
			os.WriteFile(out+".tmp", b, 0644)
			os.Rename(out+".tmp", out)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if i, ok := r.(infra); ok {
				res.Infra = i.s
				save()
				t.Fatalf("INFRA: %s", i.s)
			}
			panic(r)
		}
	}()
	journal := out + ".journal"
	rapid.Check(t, func(rt *rapid.T) {
		s := gen(rt)
		if lastFail == nil && time.Since(begin) > budget {
			res.Skipped++
			return
		}
		// While shrinking an expensive case, stop judging after a while: a
		// passing verdict only makes the shrinker keep the last failure.
		if lastFail != nil && os.Getenv("VERIF_SHRINK_S") != "" &&
			time.Since(shrinkBegin) > time.Duration(envInt("VERIF_SHRINK_S", 20))*time.Second {
			if b, _ := json.Marshal(s); string(b) == string(lastFail.Scenario) {
				rt.Fatalf("property violated")
			}
			return
		}
		b, err := json.Marshal(s)
		if err != nil {
			Infra("scenario does not marshal: %v", err)
		}
		if out != "" {
			os.WriteFile(journal, []byte(fmt.Sprintf(`{"leg":%q,"scenario":%s}`, leg, b)), 0644)
		}
		c := &C{}
		err = run(leg, c, s, exec)
		if lastFail == nil {
			res.Evaluations++
			for _, l := range dedup(c.classes) {
				res.Classes[l]++
			}
			if c.nontrivial {
				res.NonTrivial++
				h := fnv.New64a()
				h.Write([]byte(leg))
				h.Write(b)
				k := strconv.FormatUint(h.Sum64(), 36)
				if !seen[k] {
					seen[k] = true
					// keep a few samples, spread over the run
					if n := len(seen); n <= 2 || n&(n-1) == 0 {
						sm := string(b)
						if len(sm) > 1500 {
							sm = sm[:1500] + "...(cut)"
						}
						if len(res.Samples) >= 6 {
							res.Samples = append(res.Samples[:2], res.Samples[3:]...)
						}
						res.Samples = append(res.Samples, sm)
					}
				}
			}
		}
		if err != nil {
			if lastFail == nil {
				shrinkBegin = time.Now()
			}
			lastFail = &failure{Leg: leg, Error: clip(err.Error(), 8000), Scenario: b}
			save()
			rt.Fatalf("property violated") // constant text: rapid compares it when it shrinks
		}
	})
	// reached only without failure (rapid.Check calls FailNow otherwise)
	res.Done = true
	save()
	os.Remove(journal)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(cut)"
	}
	return s
}

func dedup(l []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range l {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func run[S any](leg string, c *C, s S, exec func(*C, S) error) (err error) {
	caseStart.Lock()
	caseStart.t, caseStart.on, caseStart.leg = time.Now(), true, leg
	caseStart.Unlock()
	defer func() {
		caseStart.Lock()
		caseStart.on = false
		caseStart.Unlock()
		if r := recover(); r != nil {
			if _, ok := r.(infra); ok {
				panic(r)
			}
			st := make([]byte, 8192)
			st = st[:runtime.Stack(st, false)]
			// only a panic raised inside the code under test is a violation
			if underTest(string(st)) {
				err = fmt.Errorf("panic: %v\n%s", r, st)
				return
			}
			panic(infra{fmt.Sprintf("harness panic: %v\n%s", r, st)})
		}
	}()
	return exec(c, s)
}

func underTest(stack string) bool {
	return strings.Contains(stack, "github.com/cybozu-go/aptutil/")
}

func replay[S any](t *testing.T, leg, file string, exec func(*C, S) error) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	if f.Leg != leg {
		return
	}
	var s S
	if err := json.Unmarshal(f.Scenario, &s); err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	n := envInt("VERIF_REPEAT", 1)
	for i := 0; i < n; i++ {
		c := &C{}
		if err := run(leg, c, s, exec); err != nil {
			t.Fatalf("REPLAY-FAIL: %v", err)
		}
		fmt.Printf("REPLAY-OK classes=%v nontrivial=%v\n", c.classes, c.nontrivial)
	}
}

// Odds is true in about one of n draws, and shrinks towards false.
func Odds(t *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

// Uniform draws 0..n-1 without rapid's bias towards small values; it shrinks
// towards zero all the same when n is at most 1024.
func Uniform(t *rapid.T, label string, n int) int {
	v := 0
	for i, b := range rapid.SliceOfN(rapid.Bool(), 20, 20).Draw(t, label) {
		if b {
			v |= 1 << i
		}
	}
	return v % n
}
