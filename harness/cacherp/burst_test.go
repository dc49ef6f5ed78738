package cacherp

import (
	"bytes"
	"fmt"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"verifharness/fsx"
	"verifharness/pk"
	"verifharness/simnet"
)

// Burst: a storm of failures, then a measured burst of downloads.
type Burst struct {
	Max    int      // max_conns
	Storm  []string // fault of each storm request
	Gap    int      // ms between storm requests
	NA, NB int      // files requested from the two hosts in the burst
	Dup    int      // clients per file
	Lat    int      // ms
	Fail   string   // fault that every burst file meets ("" none)
	Disk   int      // storm: fail the n-th file operation (0 none)
	Same   bool     // both prefixes on one host
}

func burstGen(t *rapid.T) Burst {
	b := Burst{
		Max: rapid.SampledFrom([]int{1, 2, 3, 10, 0, 5}).Draw(t, "max"), Gap: rapid.SampledFrom([]int{0, 1, 50}).Draw(t, "gap"),
		NA: rapid.IntRange(1, 12).Draw(t, "na"), NB: rapid.IntRange(0, 6).Draw(t, "nb"), Dup: rapid.IntRange(1, 3).Draw(t, "dup"),
		Lat: rapid.SampledFrom([]int{100, 7, 1000}).Draw(t, "lat"), Same: pk.Odds(t, "same", 4),
	}
	b.Storm = rapid.SliceOfN(rapid.SampledFrom(append([]string{"refuse", "down", "hangbody"}, faultKinds...)), 0, 14).Draw(t, "storm")
	if pk.Odds(t, "fail", 5) {
		b.Fail = rapid.SampledFrom([]string{"404", "500", "refuse", "trunc"}).Draw(t, "failkind")
	}
	if pk.Odds(t, "disk", 4) {
		b.Disk = rapid.IntRange(1, 12).Draw(t, "diskop")
	}
	return b
}

func burstBody(p, i int) []byte { return bytes.Repeat([]byte(fmt.Sprintf("file %d %d;", p, i)), 5) }

func TestC06_burst(t *testing.T) {
	pk.Check(t, "C06_burst", burstGen, func(c *pk.C, sc Burst) error {
		dir, clean := scratch()
		defer clean()
		c.NonTrivialIf(sc.Max > 0 && sc.NA > 1)
		c.ClassIf(len(sc.Storm) > 0, "after failures")
		c.ClassIf(sc.Disk > 0, "disk failure")
		c.ClassIf(sc.Max > 0 && sc.NA > sc.Max, "more files than slots")
		err := pk.Bubble(t, func() error {
			w := newWorld(World{Hosts: []int{0, boolInt(!sc.Same)}, Flavor: []int{0, 0}, Vers: [][]Ver{{{Listed: 15, Mask: 7, RMask: 7}}, {{Listed: 15, Mask: 7, RMask: 7}}}})
			s := newSvc(dir, w, Params{Check: 100000, Period: 1, MaxConns: sc.Max})
			defer s.restore()
			lat := time.Duration(sc.Lat) * time.Millisecond
			s.planned = func(p int, name string, r *simnet.Req) (simnet.Resp, bool) {
				var i int
				if n, _ := fmt.Sscanf(name, "storm/%d", &i); n == 1 {
					k := sc.Storm[i]
					if k == "down" {
						k = "refuse"
					}
					w.st[p][0].files[name] = burstBody(p, 1000+i)
					resp := w.fault(k, p, name)
					resp.Pre = time.Duration(10+i) * time.Millisecond
					return resp, true
				}
				if n, _ := fmt.Sscanf(name, "burst/%d", &i); n == 1 {
					w.st[p][0].files[name] = burstBody(p, i)
					resp := w.fault(sc.Fail, p, name)
					resp.Pre = lat
					return resp, true
				}
				return simnet.Resp{Status: 404}, true
			}
			fs := &fsx.FS{Root: dir, FailAt: sc.Disk, FailN: 3, Errno: syscall.ENOSPC}
			if err := s.start(); err != nil {
				pk.Infra("NewCacher: %v", err)
			}
			defer s.stop()
			fsx.Install(fs)
			var wg sync.WaitGroup
			ask := func(p string, f func(*answerOf)) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					a := s.request("GET", p)
					if f != nil {
						f(a)
					}
				}()
			}
			for i := range sc.Storm {
				ask(fmt.Sprintf("%s/storm/%d", prefixName(i%2), i), nil)
				time.Sleep(time.Duration(sc.Gap) * time.Millisecond)
			}
			ended := waitFor(24*time.Hour, wg.Wait)
			fsx.Uninstall()
			if !ended {
				return fmt.Errorf("requests that met failures were never answered")
			}
			time.Sleep(5 * time.Second)
			before := s.net.Len()
			t0 := time.Now()
			var mu sync.Mutex
			var bad []string
			last := [2]time.Time{}
			for p, n := range []int{sc.NA, sc.NB} {
				for i := 0; i < n; i++ {
					for d := 0; d < sc.Dup; d++ {
						p, i := p, i
						ask(fmt.Sprintf("%s/burst/%d", prefixName(p), i), func(a *answerOf) {
							mu.Lock()
							defer mu.Unlock()
							if a.End.After(last[p]) {
								last[p] = a.End
							}
							switch {
							case sc.Fail == "" && (a.Status != 200 || !bytes.Equal(a.Body, burstBody(p, i))):
								bad = append(bad, fmt.Sprintf("file %d of %s: answer %d %q", i, prefixName(p), a.Status, a.Body))
							case sc.Fail == "404" && a.Status != 404, sc.Fail != "" && sc.Fail != "404" && a.Status < 500:
								bad = append(bad, fmt.Sprintf("file %d of %s: answer %d for failing upstream", i, prefixName(p), a.Status))
							}
						})
					}
				}
			}
			if !waitFor(24*time.Hour, wg.Wait) {
				return fmt.Errorf("after %d failures, %d of max_conns=%d: burst requests are never answered", len(sc.Storm), sc.NA, sc.Max)
			}
			mu.Lock()
			defer mu.Unlock()
			if len(bad) > 0 {
				return fmt.Errorf("%d wrong answers, first: %s", len(bad), bad[0])
			}
			synctest.Wait()
			log := s.net.Log()[before:]
			if len(log) != sc.NA+sc.NB {
				return fmt.Errorf("%d clients each for %d files caused %d upstream requests", sc.Dup, sc.NA+sc.NB, len(log))
			}
			rounds := func(n int) time.Duration {
				if sc.Max == 0 {
					return time.Duration(boolInt(n > 0)) * lat
				}
				return time.Duration((n+sc.Max-1)/sc.Max) * lat
			}
			na, nb := sc.NA, sc.NB
			if sc.Same {
				na += nb
				if last[1].After(last[0]) {
					last[0] = last[1]
				}
				nb = 0
			}
			if d := last[0].Sub(t0); d != rounds(na) {
				return fmt.Errorf("max_conns=%d: %d files of %v each took %v, want %v", sc.Max, na, lat, d, rounds(na))
			}
			if nb > 0 {
				if d := last[1].Sub(t0); d != rounds(nb) {
					return fmt.Errorf("max_conns=%d: %d files of the other host took %v, want %v", sc.Max, nb, d, rounds(nb))
				}
			}
			if m := simnet.MaxOverlap(log, time.Now(), func(r *simnet.Req) bool { return r.Host == hostName(0) }); sc.Max > 0 && m > sc.Max {
				return fmt.Errorf("%d requests at once, max_conns=%d", m, sc.Max)
			}
			return nil
		})
		return err
	})
}
