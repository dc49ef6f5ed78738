package mirrorp

import (
	"syscall"
	"testing"

	"pgregory.net/rapid"

	"verifharness/fsx"
	"verifharness/pk"
)

// emphasis of a generated history
type emph struct {
	mirs    int
	vers    int
	steps   int
	faults  int // 1 in n runs has faults; 0 never
	hard    bool
	junk    bool
	sw      bool
	cancel  bool
	maxes   []int
	cfg     bool
	ups     bool
	lose    bool
	bad     bool
	late    bool // faults aim at what an update has to fetch
	edits   []string
	noMulti bool
}

func faultsGen(t *rapid.T, hard bool, mirs int) []Fault {
	n := rapid.IntRange(1, 4).Draw(t, "nfaults")
	var l []Fault
	for i := 0; i < n; i++ {
		f := Fault{M: rapid.IntRange(0, mirs-1).Draw(t, "fm"), F: pk.Uniform(t, "ff", 200), N: rapid.IntRange(1, 5).Draw(t, "fn"),
			Kind: rapid.SampledFrom(softKinds).Draw(t, "fk")}
		if hard && pk.Odds(t, "hard", 3) {
			if rapid.Bool().Draw(t, "exhausted") {
				f.N = rapid.SampledFrom([]int{6, 0, 7}).Draw(t, "fn2")
			} else {
				f.Kind = rapid.SampledFrom(hardKinds).Draw(t, "hk")
				f.N = 0
			}
		} else if hard && pk.Odds(t, "then hard", 5) {
			f.Then = rapid.SampledFrom(hardKinds).Draw(t, "then")
		}
		l = append(l, f)
	}
	return l
}

// lateFaults are few faults, most of them final and on files that the
// published version has not got.
func lateFaults(t *rapid.T, mirs int) []Fault {
	var l []Fault
	for i := 0; i < rapid.IntRange(1, 2).Draw(t, "nfaults"); i++ {
		f := Fault{M: rapid.IntRange(0, mirs-1).Draw(t, "fm"), F: pk.Uniform(t, "ff", 50)*4 + rapid.SampledFrom([]int{3, 3, 3, 3, 0}).Draw(t, "ft")}
		if pk.Odds(t, "soft", 4) {
			f.Kind, f.N = rapid.SampledFrom(softKinds).Draw(t, "fk"), rapid.SampledFrom([]int{6, 0, 7, 1, 5}).Draw(t, "fn")
		} else {
			f.Kind = rapid.SampledFrom(hardKinds).Draw(t, "hk")
		}
		l = append(l, f)
	}
	return l
}

func runStep(t *rapid.T, e emph, mirs int) Step {
	s := Step{K: "run", Dt: rapid.IntRange(0, 3).Draw(t, "dt")}
	s.Soon = pk.Odds(t, "soon", 6)
	if mirs > 1 && !e.noMulti {
		s.Ids = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "ids")
	}
	maxes := e.maxes
	if maxes == nil {
		maxes = []int{0, 1, 2, 10, 3}
	}
	s.Max = rapid.SampledFrom(maxes).Draw(t, "max")
	if rapid.Bool().Draw(t, "delayed") {
		s.Delays = rapid.SliceOfN(rapid.IntRange(0, 9), 1, 8).Draw(t, "delays")
	}
	s.Chunk = pk.Odds(t, "chunk", 5)
	switch {
	case e.late:
		s.Faults = lateFaults(t, mirs)
	case e.faults > 0 && pk.Odds(t, "faulty", e.faults):
		s.Faults = faultsGen(t, e.hard, mirs)
	}
	if e.bad && pk.Odds(t, "bad set-up", 4) {
		s.Bad = rapid.IntRange(1, 3).Draw(t, "bad")
	}
	if e.sw && pk.Odds(t, "switching", 3) {
		s.SwAt = 1 + pk.Uniform(t, "swat", 60)
		s.M = rapid.IntRange(0, mirs-1).Draw(t, "swm")
		s.V = rapid.IntRange(0, e.vers-1).Draw(t, "swv")
	}
	if e.cancel && pk.Odds(t, "cancelled", 3) {
		s.Cancel = 1 + pk.Uniform(t, "cancel", 60)
		if s.Delays == nil {
			s.Delays = []int{1, 4, 2}
		}
	}
	return s
}

func scenGen(t *rapid.T, e emph) Scen {
	var sc Scen
	n := 1
	if e.mirs > 1 && rapid.Bool().Draw(t, "several") {
		n = rapid.IntRange(2, e.mirs).Draw(t, "mirs")
	}
	for i := 0; i < n; i++ {
		sc.Mirs = append(sc.Mirs, mirGen(e.vers, e.edits).Draw(t, "mir"))
		if e.late && pk.Odds(t, "all of it", 2) {
			sc.Mirs[i].Cfg = Cfg{Suites: 3, Secs: 127, Archs: 15, Source: true}
		}
	}
	runs := rapid.IntRange(1+boolInt(e.late), e.steps).Draw(t, "runs")
	for i := 0; i < runs; i++ {
		if i > 0 {
			if e.late {
				for k := range sc.Mirs {
					sc.Steps = append(sc.Steps, Step{K: "up", M: k, V: (i + rapid.IntRange(0, 1).Draw(t, "upv")) % e.vers})
				}
			}
			for k := rapid.IntRange(0, 2-2*boolInt(e.late)).Draw(t, "between"); k > 0; k-- {
				kinds := []string{"up", "up", "up"}
				if e.cfg {
					kinds = append(kinds, "cfg")
				}
				if n > 1 {
					kinds = append(kinds, "off", "on")
				}
				if e.junk {
					kinds = append(kinds, "junk", "junk", "alias")
				}
				if e.lose {
					kinds = append(kinds, "lose")
				}
				s := Step{K: rapid.SampledFrom(kinds).Draw(t, "k"), M: rapid.IntRange(0, n-1).Draw(t, "m"), V: rapid.IntRange(0, 6).Draw(t, "v")}
				if s.K == "up" {
					s.V = rapid.IntRange(0, e.vers-1).Draw(t, "upv")
				}
				if s.K == "lose" {
					s.V = pk.Uniform(t, "lost", 300)
				}
				if s.K == "cfg" {
					c := cfgGen.Draw(t, "newcfg")
					s.Cfg = &c
				}
				sc.Steps = append(sc.Steps, s)
			}
		} else if e.junk && rapid.Bool().Draw(t, "junkfirst") {
			sc.Steps = append(sc.Steps, Step{K: "junk", V: rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 5}).Draw(t, "jv")})
		}
		e := e
		if e.late && i == 0 {
			e.late, e.faults = false, 0
		}
		sc.Steps = append(sc.Steps, runStep(t, e, n))
	}
	return sc
}

func leg(name string, e emph, o opts, tag string, nontrivial func(h *hist) bool) func(t *testing.T) {
	return func(t *testing.T) {
		pk.Check(t, name, func(t *rapid.T) Scen { return scenGen(t, e) }, func(c *pk.C, sc Scen) error {
			h, err := play(t, c, sc, o, tag)
			c.NonTrivialIf(nontrivial(h))
			return err
		})
	}
}

func TestM01_watch(t *testing.T) {
	leg("M01_watch", emph{mirs: 2, vers: 3, steps: 4, faults: 3, hard: true, sw: true, cancel: true, cfg: true, junk: true}, opts{watch: true}, "M01",
		func(h *hist) bool { return h.incr })(t)
}

// TestM01_skew: upstreams caught between two of their own versions.
func TestM01_skew(t *testing.T) {
	e := emph{mirs: 2, vers: 3, steps: 3, cfg: true, sw: true, faults: 6, hard: true, edits: []string{"skew", "skew", "tags", "tags", "skew", "tags", "skew", "tag", "tag"}}
	pk.Check(t, "M01_skew", func(t *rapid.T) Scen {
		sc := scenGen(t, e)
		for i := range sc.Mirs {
			for k := range sc.Mirs[i].Repo.Suites {
				if !pk.Odds(t, "as drawn", 3) {
					sc.Mirs[i].Repo.Suites[k].ByHash = 1
				}
			}
		}
		return sc
	}, func(c *pk.C, sc Scen) error {
		h, err := play(t, c, sc, opts{}, "M01")
		c.NonTrivialIf(h.incr || h.failedRuns > 0)
		return err
	})
}

// TestX02_stop: runs told to stop while upstream is in trouble.
func TestX02_stop(t *testing.T) {
	e := emph{mirs: 2, vers: 2, steps: 2, faults: 1, hard: true, cancel: true}
	pk.Check(t, "X02_stop", func(t *rapid.T) Scen {
		sc := scenGen(t, e)
		for i := range sc.Steps {
			if s := &sc.Steps[i]; s.K == "run" && !pk.Odds(t, "to the end", 3) {
				s.Cancel = rapid.SampledFrom([]int{1, 500, 1000, 3000, 7000, 15000}).Draw(t, "phase") + pk.Uniform(t, "cancel", 1000)*rapid.SampledFrom([]int{1, 8, 16}).Draw(t, "stretch")
			}
		}
		return sc
	}, func(c *pk.C, sc Scen) error {
		h, err := play(t, c, sc, opts{}, "X02")
		c.NonTrivialIf(h.failedRuns > 0)
		return err
	})
}

func TestM02_faults(t *testing.T) {
	leg("M02_faults", emph{mirs: 2, vers: 3, steps: 3, faults: 1, hard: true, lose: true, edits: []string{"broken", "broken", "broken", "broken", "bhoff"}}, opts{}, "M02",
		func(h *hist) bool { return h.failedRuns > 0 })(t)
}

func TestM02_update(t *testing.T) {
	leg("M02_update", emph{mirs: 2, vers: 4, steps: 3, late: true, edits: []string{"tags", "tags", "tags", "add", "add", "tags", "slot"}}, opts{}, "M02",
		func(h *hist) bool { return h.failedRuns > 0 })(t)
}

func TestM03_fresh(t *testing.T) {
	leg("M03_fresh", emph{mirs: 2, vers: 2, steps: 2, cfg: true}, opts{}, "M03",
		func(h *hist) bool { return h.good > 0 && h.items > 0 })(t)
}

func TestM04_partial(t *testing.T) {
	leg("M04_partial", emph{mirs: 1, vers: 1, steps: 2, cfg: true}, opts{}, "M04",
		func(h *hist) bool { return h.good > 0 && h.partial })(t)
}

func TestM05_incr(t *testing.T) {
	leg("M05_incr", emph{mirs: 2, vers: 4, steps: 4, cfg: true, faults: 5, hard: true}, opts{}, "M05",
		func(h *hist) bool { return h.incr })(t)
}

func TestM06_retry(t *testing.T) {
	leg("M06_retry", emph{mirs: 1, vers: 3, steps: 3, faults: 1, hard: true, edits: []string{"stale", "skew", "stale", "skew", "byhash"}}, opts{}, "M06",
		func(h *hist) bool { return h.faulted > 0 })(t)
}

func TestM07_gc(t *testing.T) {
	leg("M07_gc", emph{mirs: 3, vers: 3, steps: 5, faults: 3, hard: true, junk: true, cancel: true, cfg: true, bad: true}, opts{}, "M07",
		func(h *hist) bool { return h.runs > 1 })(t)
}

// TestM09_hist looks at whole histories with left-overs that lead elsewhere.
func TestM09_hist(t *testing.T) {
	leg("M09_hist", emph{mirs: 2, vers: 2, steps: 3, faults: 4, hard: true, junk: true, cfg: true, bad: true}, opts{}, "M09",
		func(h *hist) bool { return len(h.outside) > 0 })(t)
}

func TestM10_conns(t *testing.T) {
	leg("M10_conns", emph{mirs: 2, vers: 2, steps: 2, faults: 3, hard: true, maxes: []int{1, -1, 2, 3, 7, 10, 1}}, opts{}, "M10",
		func(h *hist) bool { return h.good > 0 })(t)
}

func TestM11_order(t *testing.T) {
	leg("M11_order", emph{mirs: 2, vers: 3, steps: 4, cfg: true, faults: 4}, opts{durable: true}, "M11",
		func(h *hist) bool { return h.incr })(t)
}

// faultLeg plays a history twice: once to count the operations of its last
// run, once with something happening at one of them.
func faultLeg(name, tag string, e emph, mk func(sc Scen, n int) opts) func(t *testing.T) {
	return func(t *testing.T) {
		pk.Check(t, name, func(t *rapid.T) Scen {
			sc := scenGen(t, e)
			sc.Point = pk.Uniform(t, "point", 1000)
			sc.Kind = rapid.SampledFrom([]string{"EIO", "ENOSPC", "EACCES", "ENOSPC*", "EIO*", "sync", "link", "late", "late"}).Draw(t, "errno")
			return sc
		}, func(c *pk.C, sc Scen) error {
			h, err := play(t, &pk.C{}, sc, mk(sc, 0), tag)
			if err != nil {
				return err
			}
			if h.ops == 0 {
				return nil
			}
			n := h.ops
			if k := mk(sc, 1).kinds; k != nil {
				n = 0
				for _, op := range h.fs.Log {
					if op.N > h.fs.Count()-h.ops && k(op) {
						n++
					}
				}
				if n == 0 {
					return nil
				}
			}
			at := 1 + sc.Point*n/1000
			if sc.Kind == "late" { // when everything has arrived
				if at = n - sc.Point%45; at < 1 {
					at = 1
				}
			}
			h, err = play(t, c, sc, mk(sc, at), tag)
			c.NonTrivialIf(h.hit)
			return err
		})
	}
}

func TestM02_local(t *testing.T) {
	faultLeg("M02_local", "M02", emph{mirs: 2, vers: 3, steps: 2, cfg: true}, func(sc Scen, n int) opts {
		o := opts{failAt: n, failN: 1, errno: syscall.EIO, after: n > 0, log: true}
		switch sc.Kind {
		case "ENOSPC", "ENOSPC*":
			o.errno = syscall.ENOSPC
		case "EACCES":
			o.errno = syscall.EACCES
		case "sync":
			o.kinds = func(op *fsx.Op) bool { return op.Kind == "sync" }
		case "link":
			o.kinds = func(op *fsx.Op) bool {
				return op.Kind == "link" || op.Kind == "mkdir" || op.Kind == "rename" || op.Kind == "symlink"
			}
		}
		if sc.Kind == "ENOSPC*" || sc.Kind == "EIO*" {
			o.failN = 1 << 30
			o.kinds = func(op *fsx.Op) bool { return op.Kind != "remove" && op.Kind != "removeall" }
		}
		return o
	})(t)
}

func TestM11_sync(t *testing.T) {
	faultLeg("M11_sync", "M11", emph{mirs: 1, vers: 2, steps: 2}, func(sc Scen, n int) opts {
		return opts{failAt: n, failN: 1, errno: syscall.EIO, durable: true, log: true, kinds: func(op *fsx.Op) bool { return op.Kind == "sync" }}
	})(t)
}

func TestM13_kill(t *testing.T) {
	faultLeg("M13_kill", "M13", emph{mirs: 2, vers: 3, steps: 3, cfg: true, junk: true}, func(sc Scen, n int) opts {
		return opts{freeze: n, after: n > 0}
	})(t)
}

// TestM08_rival tries a second run in the middle of the last run of a
// history, then one more run.
func TestM08_rival(t *testing.T) {
	faultLeg("M08_rival", "M08", emph{mirs: 3, vers: 3, steps: 2, cfg: true, junk: true, faults: 3, hard: true, cancel: true}, func(sc Scen, n int) opts {
		return opts{second: n, stale: sc.Kind == "sync" || sc.Kind == "link", after: n > 0}
	})(t)
}

// TestM08_held puts runs into a history while another process holds the lock.
func TestM08_held(t *testing.T) {
	pk.Check(t, "M08_held", func(t *rapid.T) Scen {
		sc := scenGen(t, emph{mirs: 2, vers: 3, steps: 3, cfg: true, faults: 3, hard: true, cancel: true})
		i := rapid.IntRange(0, len(sc.Steps)-1).Draw(t, "at")
		l := append([]Step(nil), sc.Steps[:i]...)
		l = append(l, Step{K: "held", V: rapid.IntRange(0, 1).Draw(t, "n")})
		sc.Steps = append(l, sc.Steps[i:]...)
		return sc
	}, func(c *pk.C, sc Scen) error {
		h, err := play(t, c, sc, opts{after: true}, "M08")
		c.NonTrivialIf(h.hit)
		return err
	})
}

// TestM03_order is run by a race-detector build.
func TestM03_order(t *testing.T) {
	leg("M03_order", emph{mirs: 2, vers: 2, steps: 2, faults: 3, maxes: []int{10, -1, 4}}, opts{}, "M03",
		func(h *hist) bool { return h.good > 0 && h.items > 0 })(t)
}
