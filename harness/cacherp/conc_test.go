package cacherp

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cybozu-go/well"
	"pgregory.net/rapid"

	"verifharness/idx"
	"verifharness/pk"
	"verifharness/simnet"
)

// CEv is an event of a concurrent history.
type CEv struct {
	K    string // req head switch fault
	P, F int
	V    int
	N    int // identical requests at this instant
	Dt   int // ms since the previous event
	Kind string
}

// CScenario is a concurrent history.
type CScenario struct {
	W    World
	Par  Params
	Lat  []int // ms, picked by path and ordinal
	Evs  []CEv
	Stop int // ms: when the service is stopped (0: never)
	Drop int // prefix whose mapping is removed by a restart in the middle (-1 none)
	Hang []int
}

func concGen(faults int, stop bool) func(*rapid.T) CScenario {
	return func(t *rapid.T) CScenario {
		var s CScenario
		s.W = worldGen(2, 2).Draw(t, "world")
		s.Par = Params{Check: rapid.SampledFrom([]int{4, 2, 9}).Draw(t, "check"), Period: rapid.SampledFrom([]int{1, 2, 0, 5}).Draw(t, "period"),
			MaxConns: rapid.SampledFrom([]int{10, 2, 1, 0, 3}).Draw(t, "conns")}
		s.Lat = rapid.SliceOfN(rapid.SampledFrom([]int{1, 5, 30, 200, 700, 1500, 3000, 6000}), 1, 5).Draw(t, "lat")
		ev := rapid.Custom(func(t *rapid.T) CEv {
			kinds := []string{"req", "req", "req", "apt", "apt", "switch", "head"}
			for i := 0; i < faults; i++ {
				kinds = append(kinds, "fault")
			}
			e := CEv{K: rapid.SampledFrom(kinds).Draw(t, "k"), N: 1}
			e.P = rapid.IntRange(0, len(s.W.Vers)-1).Draw(t, "p")
			switch e.K {
			case "req", "head", "fault":
				e.F = rapid.SampledFrom([]int{fRelease, fPackages, fA, fRelease, fPackages, fA, fB, fPackagesGz, fReadme, fSources, fTrans, fMissing, fGpg, fDsc}).Draw(t, "f")
				if e.K == "fault" {
					e.Kind = rapid.SampledFrom(faultKinds).Draw(t, "kind")
					if faults > 4 && pk.Odds(t, "hangs", 8) {
						e.Kind = rapid.SampledFrom([]string{"hang", "hangbody"}).Draw(t, "hang")
					}
					e.V = rapid.IntRange(0, 2).Draw(t, "times")
				} else {
					e.N = rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(t, "n")
				}
			case "apt":
				e.F = rapid.IntRange(0, len(aptRuns)-1).Draw(t, "run")
			case "switch":
				e.V = rapid.IntRange(0, len(s.W.Vers[e.P])-1).Draw(t, "v")
			}
			e.Dt = rapid.OneOf(rapid.SampledFrom([]int{0, 1, 10, 100, 500, 1000, 4000}), rapid.IntRange(0, 3000)).Draw(t, "dt")
			return e
		})
		s.Evs = rapid.SliceOfN(ev, 2, 18).Draw(t, "evs")
		for _, e := range s.Evs {
			if strings.HasPrefix(e.Kind, "hang") && s.Par.Check < 60 {
				// a hanging exchange lasts half an hour
				s.Par.Check *= 60
			}
		}
		s.Drop = -1
		if stop {
			s.Stop = rapid.OneOf(rapid.SampledFrom([]int{1, 100, 1000, 4001, 9000}), rapid.IntRange(1, 25000)).Draw(t, "stop")
			if pk.Odds(t, "drop", 4) {
				s.Drop = rapid.IntRange(0, len(s.W.Vers)-1).Draw(t, "dropped")
			}
			if pk.Odds(t, "hangs", 3) {
				s.Hang = rapid.SliceOfN(rapid.IntRange(0, nFiles-1), 1, 3).Draw(t, "hang")
			}
		}
		return s
	}
}

type creq struct {
	p    string
	head bool
	a    *answerOf
	s    time.Time
}

type concStats struct {
	reqs, joined, overl, validated, superseded, midUpdate, failures, queued int
	tie                                                                     bool
	answeredAfterStop, pendingAtStop                                        int
}

// exchange is an upstream request seen by the oracle.
type exchange struct {
	r          *simnet.Req
	p          string
	ok         bool // complete and not contradicting the listing at its end
	rejected   bool
	superseded bool
}

// runConc plays the history; it returns mismatches by property.
func runConc(t *testing.T, sc CScenario, st *concStats) (mis []*mismatch, err error) {
	dir, clean := scratch()
	defer clean()
	err = pk.Bubble(t, func() error {
		w := newWorld(sc.W)
		s := newSvc(dir, w, sc.Par)
		defer s.restore()
		nth := map[string]int{}
		s.latency = func(r *simnet.Req) (time.Duration, time.Duration) {
			k := r.Host + r.Path
			h := len(path.Base(r.Path)) + nth[k]*3
			nth[k]++
			l := sc.Lat[h%len(sc.Lat)]
			// unique ends: microseconds by request number
			d := time.Duration(l)*time.Millisecond + time.Duration(r.Seq*13+7)*time.Microsecond
			return d / 2, d - d/2
		}
		hang := map[string]bool{}
		for _, f := range sc.Hang {
			for p := range sc.W.Vers {
				hang[prefixName(p)+"/"+w.name(p, 0, f)] = true
			}
		}
		if len(hang) > 0 {
			s.planned = func(p int, name string, r *simnet.Req) (simnet.Resp, bool) {
				if hang[prefixName(p)+"/"+name] {
					m := simnet.Hang
					if len(name)%2 == 0 {
						m = simnet.HangBody
					}
					b, _ := w.at(p, w.cur[p], name)
					return simnet.Resp{Body: b, Mode: m}, true
				}
				return simnet.Resp{}, false
			}
		}
		if e := s.start(); e != nil {
			pk.Infra("NewCacher: %v", e)
		}
		var mu sync.Mutex
		var all []*creq
		var wg sync.WaitGroup
		launch := func(p string, head bool) {
			q := &creq{p: p, head: head, s: time.Now()}
			mu.Lock()
			all = append(all, q)
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				m := "GET"
				if head {
					m = "HEAD"
				}
				a := s.request(m, p)
				mu.Lock()
				q.a = a
				mu.Unlock()
			}()
		}
		pending := func() int {
			mu.Lock()
			defer mu.Unlock()
			n := 0
			for _, q := range all {
				if q.a == nil {
					n++
				}
			}
			return n
		}
		begin := time.Now()
		stopAt := begin.Add(time.Duration(sc.Stop) * time.Millisecond)
		stopped := false
		dropped := false
		fail := func(m *mismatch) error { mis = append(mis, m); return nil }
		for i, e := range sc.Evs {
			if sc.Drop >= 0 && !dropped && i == len(sc.Evs)/2 {
				// restart without one of the mappings
				if !waitFor(2*time.Hour, wg.Wait) {
					return fail(mm("C05 C11", "requests unanswered"))
				}
				if !s.stop() {
					return fail(mm("C11", "the service did not stop"))
				}
				delete(s.cfg.Mapping, prefixName(sc.Drop))
				if e := s.start(); e != nil {
					return fail(mm("C07", "restart failed: %v", e))
				}
				begin = time.Now()
				stopAt = begin.Add(time.Duration(sc.Stop) * time.Millisecond)
				dropped = true
			}
			d := time.Duration(e.Dt)*time.Millisecond + 100*time.Nanosecond
			if sc.Stop > 0 && time.Now().Add(d).After(stopAt) {
				break
			}
			time.Sleep(d)
			switch e.K {
			case "switch":
				s.setVersion(e.P, e.V)
			case "fault":
				for k := 0; k <= e.V; k++ {
					s.queueFault(prefixName(e.P)+"/"+w.name(e.P, w.cur[e.P], e.F), e.Kind)
				}
			case "req", "head":
				for k := 0; k < e.N; k++ {
					launch(prefixName(e.P)+"/"+w.name(e.P, w.cur[e.P], e.F), e.K == "head")
				}
			case "apt":
				for _, f := range aptRuns[e.F] {
					launch(prefixName(e.P)+"/"+w.name(e.P, w.cur[e.P], f), false)
				}
			}
		}
		if sc.Stop > 0 {
			if d := time.Until(stopAt); d > 0 {
				time.Sleep(d)
			}
			st.pendingAtStop = pending()
			well.Cancel(nil)
			t0 := time.Now()
			// clients that come while the service is going down
			for p := range sc.W.Vers {
				for _, f := range []int{fRelease, fA, fReadme} {
					launch(prefixName(p)+"/"+w.name(p, w.cur[p], f), false)
				}
			}
			if !waitFor(2*time.Second, wg.Wait) {
				var l []string
				mu.Lock()
				for _, q := range all {
					if q.a == nil {
						l = append(l, fmt.Sprintf("%s (asked %v before the stop)", q.p, t0.Sub(q.s)))
					}
				}
				mu.Unlock()
				mis = append(mis, mm("C11", "clients left without an answer after the stop: %v", l))
			}
			if !waitFor(2*time.Second, func() { well.Wait() }) {
				mis = append(mis, mm("C11", "background activity did not end"))
			}
			stopped = true
			return nil
		}
		if !waitFor(72*time.Hour, wg.Wait) {
			mis = append(mis, mm("C05 C06 C12", "%d requests were never answered", pending()))
			if s.net.Runway {
				mis[0].text += " (unbounded upstream requests)"
			}
		} else {
			// afterwards: two refreshes later everything is current
			time.Sleep(time.Duration(2*sc.Par.Check)*time.Second + 20*time.Second)
			s.mu.Lock()
			s.faults = map[string][]string{}
			s.mu.Unlock()
			time.Sleep(time.Duration(2*sc.Par.Check+sc.Par.Period)*time.Second + 20*time.Second)
			for p := range sc.W.Vers {
				for _, f := range []int{fRelease, fPackages, fA, fB, fSources, fDsc} {
					launch(prefixName(p)+"/"+w.name(p, w.cur[p], f), false)
					if !waitFor(72*time.Hour, wg.Wait) {
						mis = append(mis, mm("C05 C06 C12", "final request was never answered"))
						return nil
					}
				}
			}
		}
		_ = stopped
		synctest.Wait()
		mu.Lock()
		now := time.Now()
		mis = append(mis, judgeConc(s, w, sc, all, now, st)...)
		mu.Unlock()
		if !s.stop() {
			mis = append(mis, mm("C11", "the service did not stop"))
		}
		return nil
	})
	return mis, err
}

type rec struct {
	t time.Time
	r idx.Rec
}

func judgeConc(s *svc, w *world, sc CScenario, all []*creq, now time.Time, st *concStats) (mis []*mismatch) {
	log := s.net.Log()
	var xs []*exchange
	for _, r := range log {
		p, name := s.locate(r)
		if p < 0 {
			mis = append(mis, mm("C09 C05", "request for unknown upstream path %s%s", r.Host, r.Path))
			continue
		}
		xs = append(xs, &exchange{r: r, p: prefixName(p) + "/" + name})
	}
	sort.SliceStable(xs, func(i, j int) bool { return xs[i].r.End.Before(xs[j].r.End) })
	// single flight and limits
	for i, x := range xs {
		for _, y := range xs[i+1:] {
			if x.p == y.p && x.r.Start.Before(y.r.End) && y.r.Start.Before(x.r.End) {
				mis = append(mis, mm("C06", "two upstream requests for %s overlap: [%v,%v] and [%v,%v]", x.p, x.r.Start.Sub(zero), x.r.End.Sub(zero), y.r.Start.Sub(zero), y.r.End.Sub(zero)))
			}
		}
	}
	for h := 0; h < 3; h++ {
		n := simnet.MaxOverlap(log, now, func(r *simnet.Req) bool { return r.Host == hostName(h) })
		if n > 1 {
			st.overl++
		}
		if sc.Par.MaxConns > 0 && n > sc.Par.MaxConns {
			mis = append(mis, mm("C06", "%d requests to %s at once, max_conns is %d", n, hostName(h), sc.Par.MaxConns))
		}
		if sc.Par.MaxConns > 0 && n == sc.Par.MaxConns {
			st.queued++
		}
	}
	// knowledge over time
	known := map[string][]rec{}
	bodies := map[string][]*exchange{}
	for i, x := range xs {
		if i > 0 && xs[i-1].r.End.Equal(x.r.End) && (isIndex(x.p) || isIndex(xs[i-1].p)) && x.r.Complete && xs[i-1].r.Complete {
			st.tie = true
			return nil
		}
		if !x.r.Complete {
			continue
		}
		if k := known[x.p]; len(k) > 0 && !k[len(k)-1].r.Same(idx.Of(x.p, x.r.Resp.Body)) {
			x.rejected = true
			// was it the listing that changed under way?  Then the data is
			// to be fetched anew, and this exchange excuses no failure.
			cur := k[len(k)-1]
			x.superseded = cur.t.After(x.r.Start) && cur.t.Before(x.r.End)
			for _, o := range k[:len(k)-1] {
				if o.t.Before(x.r.Start) && o.r.Same(cur.r) || !o.t.Before(x.r.Start) {
					x.superseded = false
				}
			}
			continue
		}
		x.ok = true
		bodies[x.p] = append(bodies[x.p], x)
		pre, name := split(x.p)
		if l, ok := w.listsOf(prefixIndex(pre), name, x.r.Resp.Body); ok && isIndex(name) {
			for _, r := range l {
				r.Path = pre + "/" + r.Path
				known[r.Path] = append(known[r.Path], rec{x.r.End, r})
			}
		}
	}
	period := time.Duration(sc.Par.Period) * time.Second
	for _, q := range all {
		if q.a == nil {
			continue
		}
		st.reqs++
		a := q.a
		if a.Panic != "" {
			mis = append(mis, mm("C08 C05", "%s: panic %s", q.p, a.Panic))
			continue
		}
		var cand []idx.Rec
		var active *idx.Rec
		changed := false
		for i := range known[q.p] {
			k := known[q.p][i]
			if !k.t.After(q.s) {
				active = &known[q.p][i].r
				if k.t.Equal(q.s) {
					cand = append(cand, k.r)
					if i > 0 {
						cand = append(cand, known[q.p][i-1].r)
					}
				}
			} else if !k.t.After(a.End) {
				cand = append(cand, k.r)
				changed = true
			}
		}
		if active != nil {
			cand = append(cand, *active)
		}
		if changed {
			st.midUpdate++
		}
		if a.Status == 200 {
			if q.head {
				continue
			}
			o := idx.Of(q.p, a.Body)
			ok := false
			for _, r := range cand {
				ok = ok || r.Same(o)
			}
			if active == nil {
				for _, x := range bodies[q.p] {
					ok = ok || (!x.r.End.After(a.End) && bytes.Equal(x.r.Resp.Body, a.Body))
				}
			}
			if !ok {
				tags := "C01"
				for _, x := range xs {
					if x.p == q.p && x.r.Complete && bytes.Equal(x.r.Resp.Body, a.Body) && active != nil {
						tags = "C01 C02"
					}
				}
				mis = append(mis, mm(tags, "%s asked at %v answered at %v: body %.60q matches none of the checksums known then %+v", q.p, q.s.Sub(zero), a.End.Sub(zero), a.Body, cand))
			}
			if active != nil {
				st.validated++
			}
			continue
		}
		st.failures++
		if unsupported(q.p) && a.Status == 404 {
			continue
		}
		// a failure must come from an upstream exchange for this path
		why, tags := false, "C05 C06"
		for _, x := range xs {
			if x.p != q.p || x.r.End.After(a.End) || x.r.End.Before(q.s.Add(-period)) {
				continue
			}
			stt := x.r.Resp.Status
			if stt == 0 {
				stt = 200
			}
			switch {
			case stt < 100:
				why = why || a.Status >= 500
			case stt != 200:
				// an error page that breaks off may count either way
				why = why || stt == a.Status || (a.Status >= 500 && x.r.Resp.Mode != simnet.OK)
			case x.superseded:
				tags = "C05 C02"
			case !x.r.Complete, x.rejected:
				why = why || a.Status >= 500
			}
		}
		if !why {
			mis = append(mis, mm(tags, "%s asked at %v answered %d at %v although no upstream exchange explains it", q.p, q.s.Sub(zero), a.Status, a.End.Sub(zero)))
		}
	}
	return mis
}

var zero = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func concLeg(t *testing.T, leg, prop string, gen func(*rapid.T) CScenario, rule func(*concStats) bool) {
	pk.Check(t, leg, gen, func(c *pk.C, sc CScenario) error {
		var st concStats
		mis, err := runConc(t, sc, &st)
		c.ClassIf(st.overl > 0, "overlapping upstream requests")
		c.ClassIf(st.validated > 0, "listed file delivered")
		c.ClassIf(st.midUpdate > 0, "listing changed during a request")
		c.ClassIf(st.failures > 0, "failure answered")
		c.ClassIf(st.queued > 0, "limit reached")
		c.ClassIf(st.tie, "tie: not judged")
		c.ClassIf(st.pendingAtStop > 0, "requests pending at the stop")
		c.NonTrivialIf(rule(&st))
		for _, m := range mis {
			if m.has(prop) || os.Getenv("VERIF_STRICT") != "" {
				return fmt.Errorf("%s", m.text)
			}
		}
		if _, ok := err.(*pk.Deadlock); ok && prop == "C12" {
			return err
		}
		if len(mis) > 0 {
			c.Class("other property: " + strings.Join(mis[0].tags, " "))
			return nil
		}
		if d, ok := err.(*pk.Deadlock); ok {
			if prop == "C11" {
				return d
			}
			return nil
		}
		return err
	})
}

func TestC01_conc(t *testing.T) {
	concLeg(t, "C01_conc", "C01", concGen(3, false), func(s *concStats) bool { return s.midUpdate > 0 || s.validated > 0 })
}

func TestC02_conc(t *testing.T) {
	concLeg(t, "C02_conc", "C02", concGen(1, false), func(s *concStats) bool { return s.midUpdate > 0 })
}

func TestC05_conc(t *testing.T) {
	concLeg(t, "C05_conc", "C05", concGen(5, false), func(s *concStats) bool { return s.failures > 0 })
}

func TestC06_conc(t *testing.T) {
	concLeg(t, "C06_conc", "C06", concGen(2, false), func(s *concStats) bool { return s.overl > 0 || s.queued > 0 })
}

func TestC11_stop(t *testing.T) {
	concLeg(t, "C11_stop", "C11", concGen(2, true), func(s *concStats) bool { return s.pendingAtStop > 0 })
}

// TestC12_svc is meant for a race build: the detector is the oracle, besides
// the answers themselves.
func TestC12_svc(t *testing.T) {
	concLeg(t, "C12_svc", "C12", func(t *rapid.T) CScenario {
		s := concGen(2, false)(t)
		if pk.Odds(t, "stops", 3) {
			s.Stop = rapid.IntRange(1, 9000).Draw(t, "stop")
		}
		return s
	}, func(s *concStats) bool { return s.overl > 0 || s.pendingAtStop > 0 })
}
