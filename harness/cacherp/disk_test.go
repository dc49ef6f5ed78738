package cacherp

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/fsx"
	"verifharness/pk"
)

// ---- C05: the local disk fails while items are stored ------------------------

// DiskScenario asks for files one after the other; some requests meet failing
// file-system operations.
type DiskScenario struct {
	W    World
	Par  Params
	Asks []DiskAsk
}

// DiskAsk is one request; the At-th operation of kind Op (any if empty) and
// the N-1 following ones fail while it is served.
type DiskAsk struct {
	P, F, V int
	Dt      int // ms
	At, N   int
	Op      string
	Errno   int
	Restart bool
}

var diskErrnos = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EROFS}

func diskGen(t *rapid.T) DiskScenario {
	s := DiskScenario{W: worldGen(2, 1).Draw(t, "world")}
	s.Par = Params{Check: 100000000, Period: rapid.SampledFrom([]int{3, 1, 20, 600}).Draw(t, "period"), MaxConns: rapid.SampledFrom([]int{10, 1, 0}).Draw(t, "conns")}
	one := rapid.Custom(func(t *rapid.T) DiskAsk {
		a := DiskAsk{P: rapid.IntRange(0, len(s.W.Vers)-1).Draw(t, "p")}
		a.F = rapid.SampledFrom([]int{fRelease, fRelease, fPackages, fPackagesGz, fA, fA, fB, fC, fSources, fDsc, fReadme, fReadme, fMissing}).Draw(t, "f")
		a.V = rapid.SampledFrom([]int{-1, -1, 0, 1, 2}).Draw(t, "v")
		a.Dt = rapid.SampledFrom([]int{0, 0, 300, 2500, 4000, 30000, 700000}).Draw(t, "dt")
		if rapid.IntRange(0, 2).Draw(t, "fail") > 0 {
			a.At = rapid.IntRange(1, 8).Draw(t, "at")
			a.N = rapid.SampledFrom([]int{1, 1, 2, 100}).Draw(t, "n")
			a.Op = rapid.SampledFrom([]string{"", "create", "write", "sync", "link", "mkdir", "close"}).Draw(t, "op")
			if a.Op != "" {
				a.At = 1
			}
			a.Errno = rapid.IntRange(0, len(diskErrnos)-1).Draw(t, "errno")
		}
		a.Restart = rapid.IntRange(0, 11).Draw(t, "restart") == 11
		return a
	})
	s.Asks = rapid.SliceOfN(one, 2, 16).Draw(t, "asks")
	return s
}

// clone copies what a prediction changes.
func (m *model) clone() *model {
	c := *m
	c.info, c.own = copyMap(m.info), copyMap(m.own)
	c.meta, c.items = copyMap(m.meta), map[string]*item{}
	for p, it := range m.items {
		x := *it
		c.items[p] = &x
	}
	c.results = map[string]*result{}
	for p, r := range m.results {
		x := *r
		c.results[p] = &x
	}
	c.tick = copyMap(m.tick)
	return &c
}

func copyMap[V any](m map[string]V) map[string]V {
	r := map[string]V{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func TestC05_disk(t *testing.T) {
	pk.Check(t, "C05_disk", diskGen, func(c *pk.C, sc DiskScenario) error {
		dir, clean := scratch()
		defer clean()
		return pk.Bubble(t, func() error {
			w := newWorld(sc.W)
			s := newSvc(dir, w, sc.Par)
			defer s.restore()
			if e := s.start(); e != nil {
				pk.Infra("NewCacher: %v", e)
			}
			defer func() { s.stop() }()
			m := newModel(s, sc.Par)
			seen := 0
			met, litter := 0, false
			for i, a := range sc.Asks {
				d := time.Duration(a.Dt)*time.Millisecond + time.Duration(i%7+1)*time.Millisecond
				target := time.Now().Add(d)
				for bad := true; bad; {
					bad = false
					for _, r := range m.results {
						if r.until.Equal(target) {
							bad, target = true, target.Add(time.Millisecond)
						}
					}
				}
				time.Sleep(time.Until(target))
				if a.Restart {
					if !s.stop() {
						return nil // C11
					}
					m.restart(time.Now())
					if e := s.start(); e != nil {
						return fmt.Errorf("ask %d: restart failed: %v", i, e)
					}
					if m.amb != "" {
						c.Class("ended early: model undetermined")
						return nil
					}
				}
				now := time.Now()
				if a.V >= 0 && a.V < len(sc.W.Vers[a.P]) {
					s.setVersion(a.P, a.V)
				}
				full := prefixName(a.P) + "/" + w.name(a.P, w.cur[a.P], a.F)
				before := m.clone()
				ws, wb, wr := m.get(full, now)
				if m.amb != "" {
					c.Class("ended early: model undetermined")
					return nil
				}
				fs := &fsx.FS{Root: dir, FailAt: a.At, FailN: a.N, Errno: diskErrnos[a.Errno]}
				if a.Op != "" {
					fs.FailKinds = func(op *fsx.Op) bool { return op.Kind == a.Op }
				}
				fsx.Install(fs)
				var an *answerOf
				ok := waitFor(3*time.Hour, func() { an = s.request("GET", full) })
				reqs := s.newReqs(&seen)
				fsx.Uninstall()
				if !ok {
					return fmt.Errorf("ask %d: GET %s was not answered (failed operations: %v)", i, full, fs.Failed)
				}
				what := fmt.Sprintf("ask %d: GET %s", i, full)
				if len(fs.Failed) > 0 {
					what += fmt.Sprintf(" (failing: %v)", fs.Failed[0])
				}
				if e := cmpReqs(reqs, wr); e != "" {
					return fmt.Errorf("%s: %s (answered %d)", what, e, an.Status)
				}
				for _, op := range fs.Failed {
					litter = litter || op.Kind == "remove"
				}
				switch {
				case ws == 200 && an.Status == 200:
					if !bytes.Equal(an.Body, wb) {
						return fmt.Errorf("%s: got %.80q want %.80q", what, an.Body, wb)
					}
				case ws == 200 && len(fs.Failed) > 0 && an.Status >= 500 && an.Status <= 599:
					// not stored: everything else stays as it was
					met++
					c.Class("not stored: " + fs.Failed[0].Kind + " failed")
					m = before
					m.results[full] = &result{status: 5, exact: an.Status, until: now.Add(time.Duration(sc.Par.Period) * time.Second)}
					if _, e := os.Stat(filepath.Join(dir, store(full), full+".cache")); e != nil {
						delete(m.meta, full)
						delete(m.items, full)
					}
				case ws == 5 && an.Status >= 500 && an.Status <= 599:
					if r := m.results[full]; r != nil {
						if r.exact == 0 {
							r.exact = an.Status
						} else if r.exact != an.Status {
							return fmt.Errorf("%s: status %d, remembered failure was %d", what, an.Status, r.exact)
						}
					}
				case ws == an.Status:
				case ws >= 400 && len(fs.Failed) > 0 && an.Status >= 500:
					m.results[full] = &result{status: 5, exact: an.Status, until: now.Add(time.Duration(sc.Par.Period) * time.Second)}
				default:
					return fmt.Errorf("%s: status %d, want %d", what, an.Status, ws)
				}
				if e := s.cmpDirs(m); e != "" && !(litter && strings.Contains(e, "stray file")) {
					return fmt.Errorf("%s: answered %d, then the stores are not as expected: %s", what, an.Status, e)
				}
			}
			c.NonTrivialIf(met > 0)
			// the disk is fine again
			time.Sleep(time.Duration(sc.Par.Period)*time.Second + time.Millisecond)
			for p := range sc.W.Vers {
				for f := 0; f < nFiles; f++ {
					full := prefixName(p) + "/" + w.name(p, w.cur[p], f)
					time.Sleep(time.Millisecond)
					ws, wb, wr := m.get(full, time.Now())
					if m.amb != "" {
						return nil
					}
					var an *answerOf
					if !waitFor(3*time.Hour, func() { an = s.request("GET", full) }) {
						return fmt.Errorf("later, GET %s is not answered", full)
					}
					if e := cmpReqs(s.newReqs(&seen), wr); e != "" {
						return fmt.Errorf("later, GET %s: %s (answered %d)", full, e, an.Status)
					}
					if (ws == 5 && an.Status < 500) || (ws != 5 && ws != an.Status) || (ws == 200 && !bytes.Equal(an.Body, wb)) {
						return fmt.Errorf("later, GET %s: %d %.60q, want %d %.60q", full, an.Status, an.Body, ws, wb)
					}
				}
			}
			return nil
		})
	})
}

func store(p string) string {
	if isIndex(p) {
		return "meta"
	}
	return "cache"
}
