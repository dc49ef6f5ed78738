package cacherp

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/pk"
	"verifharness/simnet"
)

// ---- C05: failures that take their time ------------------------------------

// SlowScenario lets one client per file ask again and again while upstream
// takes its time to fail.
type SlowScenario struct {
	W     World
	Par   Params
	Files []SlowFile
}

// SlowFile is the history of one file.
type SlowFile struct {
	F     int
	Plans []SlowPlan // one per upstream request, then it works
	Asks  []int      // ms between an answer and the next request
}

// SlowPlan is one upstream answer.
type SlowPlan struct {
	Kind     string
	Pre, Mid int // ms
}

func slowGen(t *rapid.T) SlowScenario {
	s := SlowScenario{W: worldGen(1, 1).Draw(t, "world")}
	s.Par = Params{Check: 100000000, Period: rapid.SampledFrom([]int{3, 1, 10, 60}).Draw(t, "period"), MaxConns: rapid.SampledFrom([]int{10, 0, 2, 1}).Draw(t, "conns")}
	ms := rapid.SampledFrom([]int{0, 0, 40, 900, 2500, 4000, 9500, 30000, 61000, 200000})
	file := rapid.Custom(func(t *rapid.T) SlowFile {
		// none of them is an index, so nothing is listed
		f := SlowFile{F: rapid.SampledFrom([]int{fA, fB, fC, fReadme, fD, fMissing, fDsc}).Draw(t, "f")}
		f.Plans = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SlowPlan {
			return SlowPlan{rapid.SampledFrom(faultKinds).Draw(t, "kind"), ms.Draw(t, "pre"), ms.Draw(t, "mid")}
		}), 0, 4).Draw(t, "plans")
		f.Asks = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 500, 900, 1001, 2990, 3010, 9990, 10010, 59990, 60010}), 1, 9).Draw(t, "asks")
		return f
	})
	s.Files = rapid.SliceOfNDistinct(file, 1, 4, func(f SlowFile) int { return f.F }).Draw(t, "files")
	return s
}

func TestC05_slow(t *testing.T) {
	pk.Check(t, "C05_slow", slowGen, func(c *pk.C, s SlowScenario) error {
		dir, clean := scratch()
		defer clean()
		var mu sync.Mutex
		remembered, slow := 0, 0
		err := pk.Bubble(t, func() error {
			w := newWorld(s.W)
			sv := newSvc(dir, w, s.Par)
			defer sv.restore()
			n := map[string]int{} // upstream requests by name
			plans := map[string][]SlowPlan{}
			for _, f := range s.Files {
				plans[w.name(0, w.cur[0], f.F)] = f.Plans
			}
			sv.planned = func(p int, name string, r *simnet.Req) (simnet.Resp, bool) {
				mu.Lock()
				defer mu.Unlock()
				k := n[name]
				n[name]++
				if k >= len(plans[name]) {
					return simnet.Resp{}, false
				}
				pl := plans[name][k]
				r2 := w.fault(pl.Kind, p, name)
				r2.Pre, r2.Mid = time.Duration(pl.Pre)*time.Millisecond, time.Duration(pl.Mid)*time.Millisecond
				return r2, true
			}
			if e := sv.start(); e != nil {
				pk.Infra("NewCacher: %v", e)
			}
			defer sv.stop()
			period := time.Duration(s.Par.Period) * time.Second
			errs := make(chan error, len(s.Files))
			for i, f := range s.Files {
				go func(i int, f SlowFile) {
					errs <- func() error {
						name := w.name(0, w.cur[0], f.F)
						p := prefixName(0) + "/" + name
						count := func() int {
							mu.Lock()
							defer mu.Unlock()
							return n[name]
						}
						var cached []byte
						var have bool
						var status int
						var until time.Time
						for j, dt := range f.Asks {
							time.Sleep(time.Duration(dt)*time.Millisecond + time.Duration(i+1)*time.Microsecond)
							if time.Now().Equal(until) {
								time.Sleep(time.Millisecond)
							}
							now, before := time.Now(), count()
							what := fmt.Sprintf("%s, request %d (%v)", p, j, now)
							a := sv.request("GET", p)
							made := count() - before
							switch {
							case a.Panic != "":
								return fmt.Errorf("%s: panic %s", what, a.Panic)
							case have:
								if made > 0 || a.Status != 200 || !bytes.Equal(a.Body, cached) {
									return fmt.Errorf("%s: it is cached; status %d with %d upstream requests", what, a.Status, made)
								}
								continue
							case now.Before(until):
								if made > 0 || a.Status != status {
									return fmt.Errorf("%s: %v after the failure (%d) became known, which is remembered for %v: status %d with %d upstream requests",
										what, now.Sub(until.Add(-period)), status, period, a.Status, made)
								}
								mu.Lock()
								remembered++
								mu.Unlock()
								continue
							case made != 1:
								return fmt.Errorf("%s: nothing is known: status %d with %d upstream requests", what, a.Status, made)
							}
							if a.Status == 200 {
								have, cached = true, a.Body
								continue
							}
							status, until = a.Status, a.End.Add(period)
							if a.End.Sub(now) >= time.Second {
								mu.Lock()
								slow++
								mu.Unlock()
							}
						}
						return nil
					}()
				}(i, f)
			}
			for range s.Files {
				select {
				case e := <-errs:
					if e != nil {
						return e
					}
				case <-time.After(24 * time.Hour):
					return fmt.Errorf("requests are not answered")
				}
			}
			return nil
		})
		c.ClassIf(remembered > 0, "remembered")
		c.ClassIf(slow > 0, "slow failure")
		c.NonTrivialIf(remembered > 0 && slow > 0)
		return err
	})
}
