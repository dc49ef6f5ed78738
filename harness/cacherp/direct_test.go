package cacherp

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/pk"
	"verifharness/simnet"
)

// ---- C05: paths as the callers of Get spell them ---------------------------

// DirectScenario asks Cacher.Get for paths the HTTP front end would have
// cleaned.
type DirectScenario struct {
	W    World
	Par  Params
	Asks []Ask
}

// Ask is one call.
type Ask struct {
	Form, F int
	Dt      int // ms before the call
}

// spelled gives the path in one of several spellings.
func spelled(form int, name string) string {
	p := prefixName(0) + "/" + name
	switch form {
	case 1:
		return prefixName(0) + "//" + name
	case 2:
		return prefixName(0) + "/./" + name
	case 3:
		return prefixName(0) + "/x/../" + name
	case 4:
		return p + "/"
	case 5:
		return p + "/."
	case 6:
		return prefixName(0)
	case 7:
		return prefixName(0) + "/"
	case 8:
		return "/" + p
	case 9:
		return "//" + p
	case 10:
		return prefixName(0) + "/../" + name
	case 11:
		return prefixName(0) + "/" + name + "/.."
	case 12:
		return prefixName(0) + "/../../../../" + name
	case 13:
		return ""
	case 14:
		return "/"
	case 15:
		return "nosuch/" + name
	}
	return p
}

func directGen(t *rapid.T) DirectScenario {
	s := DirectScenario{W: worldGen(1, 1).Draw(t, "world")}
	s.Par = Params{Check: 100000, Period: rapid.SampledFrom([]int{3, 1, 20}).Draw(t, "period"), MaxConns: rapid.SampledFrom([]int{10, 1, 0}).Draw(t, "conns")}
	s.Asks = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Ask {
		return Ask{Form: rapid.IntRange(0, 15).Draw(t, "form"), F: rapid.IntRange(0, nFiles-1).Draw(t, "f"),
			Dt: rapid.SampledFrom([]int{0, 0, 10, 700, 1500, 4000}).Draw(t, "dt")}
	}), 1, 10).Draw(t, "asks")
	return s
}

func TestC05_direct(t *testing.T) {
	pk.Check(t, "C05_direct", directGen, func(c *pk.C, s DirectScenario) error {
		dir, clean := scratch()
		defer clean()
		odd := false
		err := pk.Bubble(t, func() error {
			w := newWorld(s.W)
			sv := newSvc(dir, w, s.Par)
			defer sv.restore()
			if e := sv.start(); e != nil {
				pk.Infra("NewCacher: %v", e)
			}
			defer sv.stop()
			seen := 0
			type memo struct {
				status int
				until  time.Time
			}
			failed := map[string]memo{}
			for i, a := range s.Asks {
				time.Sleep(time.Duration(a.Dt)*time.Millisecond + time.Millisecond)
				p := spelled(a.Form, w.name(0, w.cur[0], a.F))
				var status int
				var body []byte
				var gerr error
				var pan interface{}
				now := time.Now()
				if !waitFor(3*time.Hour, func() {
					defer func() { pan = recover() }()
					st, f, e := sv.c.Get(p)
					status, gerr = st, e
					if f != nil {
						buf := make([]byte, 1<<16)
						n, _ := f.Read(buf)
						body = buf[:n]
						f.Close()
					}
				}) {
					return fmt.Errorf("ask %d: Get(%q) does not return (%d upstream requests)", i, p, sv.net.Len())
				}
				if pan != nil {
					return fmt.Errorf("ask %d: Get(%q) panics: %v", i, p, pan)
				}
				reqs := sv.newReqs(&seen)
				if sv.net.Runway || len(reqs) > 1 {
					return fmt.Errorf("ask %d: Get(%q) made %d upstream requests", i, p, len(reqs))
				}
				if status < 100 {
					return fmt.Errorf("ask %d: Get(%q) gives status %d (error %v)", i, p, status, gerr)
				}
				if m, ok := failed[p]; ok && now.Before(m.until) {
					if len(reqs) > 0 || status != m.status {
						return fmt.Errorf("ask %d: Get(%q) gave %d and within the period gives %d, with %d upstream requests", i, p, m.status, status, len(reqs))
					}
				}
				if status == 200 {
					// what is delivered is what an upstream request for
					// this very path brought
					if len(reqs) == 1 && string(body) != string(reqs[0].Resp.Body) {
						return fmt.Errorf("ask %d: Get(%q) delivers %.60q, upstream sent %.60q", i, p, body, reqs[0].Resp.Body)
					}
				} else if len(reqs) == 1 {
					failed[p] = memo{status, now.Add(time.Duration(s.Par.Period) * time.Second)}
				}
				odd = odd || a.Form > 0
			}
			return nil
		})
		c.NonTrivialIf(odd)
		return err
	})
}

// ---- C05: an upstream that never answers -----------------------------------

// HangScenario sends a volley of requests of which some never end upstream.
type HangScenario struct {
	W    World
	Par  Params
	Reqs []HangReq
}

// HangReq is one client request.
type HangReq struct {
	F    int
	At   int // ms
	Kind string
}

func hangGen(t *rapid.T) HangScenario {
	s := HangScenario{W: worldGen(1, 1).Draw(t, "world")}
	s.Par = Params{Check: 100000000, Period: rapid.SampledFrom([]int{3, 60, 7200}).Draw(t, "period"), MaxConns: rapid.SampledFrom([]int{1, 2, 10, 0}).Draw(t, "conns")}
	s.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) HangReq {
		return HangReq{F: rapid.IntRange(0, nFiles-1).Draw(t, "f"), At: rapid.IntRange(0, 3000).Draw(t, "at"),
			Kind: rapid.SampledFrom([]string{"hang", "hangbody", "", ""}).Draw(t, "kind")}
	}), 1, 9).Draw(t, "reqs")
	return s
}

func TestC05_hang(t *testing.T) {
	pk.Check(t, "C05_hang", hangGen, func(c *pk.C, s HangScenario) error {
		dir, clean := scratch()
		defer clean()
		hung := 0
		err := pk.Bubble(t, func() error {
			w := newWorld(s.W)
			sv := newSvc(dir, w, s.Par)
			defer sv.restore()
			if e := sv.start(); e != nil {
				pk.Infra("NewCacher: %v", e)
			}
			defer sv.stop()
			kinds := map[string]string{} // one kind per path
			for _, r := range s.Reqs {
				n := w.name(0, 0, r.F)
				if kinds[n] == "" {
					kinds[n] = r.Kind
				}
			}
			sv.planned = func(p int, name string, r *simnet.Req) (simnet.Resp, bool) {
				return w.fault(kinds[name], p, name), true
			}
			type out struct {
				i int
				a *answerOf
			}
			ch := make(chan out)
			for i, r := range s.Reqs {
				i, r := i, r
				go func() {
					time.Sleep(time.Duration(r.At) * time.Millisecond)
					ch <- out{i, sv.request("GET", prefixName(0)+"/"+w.name(0, 0, r.F))}
				}()
			}
			// A request that hangs is given up after half an hour; at worst
			// all of them wait for one another.
			limit := time.NewTimer(time.Duration(len(s.Reqs)+1) * time.Hour)
			defer limit.Stop()
			for range s.Reqs {
				var o out
				select {
				case o = <-ch:
				case <-limit.C:
					return fmt.Errorf("requests are not answered within %d hours (%d upstream requests)", len(s.Reqs)+1, sv.net.Len())
				}
				name := w.name(0, 0, s.Reqs[o.i].F)
				if o.a.Panic != "" {
					return fmt.Errorf("request %d (%s): panic %s", o.i, name, o.a.Panic)
				}
				if unsupported(name) {
					continue
				}
				body, ok := w.at(0, 0, name)
				switch {
				case strings.HasPrefix(kinds[name], "hang"):
					if kinds[name] == "hangbody" && len(body) == 0 {
						continue // an error status, or nothing that is missing
					}
					hung++
					if o.a.Status < 500 || o.a.Status > 599 {
						return fmt.Errorf("request %d: upstream never ends the answer for %s, status %d, want a 5xx", o.i, name, o.a.Status)
					}
				case !ok:
					if o.a.Status != 404 {
						return fmt.Errorf("request %d: %s is not there upstream, status %d, want 404", o.i, name, o.a.Status)
					}
				case o.a.Status == 200 && string(o.a.Body) != string(body):
					return fmt.Errorf("request %d: %s: got %.60q", o.i, name, o.a.Body)
				case o.a.Status != 200 && o.a.Status < 500:
					return fmt.Errorf("request %d: %s: status %d although upstream has it", o.i, name, o.a.Status)
				}
			}
			return nil
		})
		c.NonTrivialIf(hung > 0)
		return err
	})
}

// ---- C05: a file larger than the whole cache --------------------------------

// HugeScenario requests a file that exceeds the capacity by Extra bytes among
// ordinary ones.
type HugeScenario struct {
	Extra int
	Asks  []int // 0: the huge file, others: ordinary files
	Conns int
}

// TestC05_huge: seconds and gigabytes per case, so few cases.
func TestC05_huge(t *testing.T) {
	var huge []byte
	pk.Check(t, "C05_huge", func(t *rapid.T) HugeScenario {
		s := HugeScenario{Extra: rapid.SampledFrom([]int{1, 4096, 100000, 0}).Draw(t, "extra"), Conns: rapid.SampledFrom([]int{1, 0, 5}).Draw(t, "conns")}
		s.Asks = append([]int{0}, rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2}), 1, 3).Draw(t, "asks")...)
		return s
	}, func(c *pk.C, s HugeScenario) error {
		dir, clean := scratch()
		defer clean()
		if huge == nil {
			huge = make([]byte, gibib+1<<20)
		}
		err := pk.Bubble(t, func() error {
			w := newWorld(World{Vers: [][]Ver{{{}}}, Hosts: []int{0}, Flavor: []int{0}})
			sv := newSvc(dir, w, Params{Check: 100000, Period: 3, MaxConns: s.Conns})
			defer sv.restore()
			sv.net.SetLimit(6)
			body := func(a int) []byte {
				if a == 0 {
					return huge[:gibib+int64(s.Extra)]
				}
				return []byte(fmt.Sprintf("ordinary file %d", a))
			}
			sv.planned = func(p int, name string, r *simnet.Req) (simnet.Resp, bool) {
				for a := 0; a < 3; a++ {
					if name == fmt.Sprintf("pool/f%d.deb", a) {
						return simnet.Resp{Body: body(a)}, true
					}
				}
				return simnet.Resp{}, false
			}
			if e := sv.start(); e != nil {
				pk.Infra("NewCacher: %v", e)
			}
			defer sv.stop()
			seen := 0
			for i, a := range s.Asks {
				time.Sleep(10 * time.Second)
				p := prefixName(0) + fmt.Sprintf("/pool/f%d.deb", a)
				var status int
				var size int64
				var head string
				done := waitFor(3*time.Hour, func() {
					st, f, _ := sv.c.Get(p)
					status = st
					if f != nil {
						if fi, e := f.Stat(); e == nil {
							size = fi.Size()
						}
						b := make([]byte, 20)
						n, _ := f.Read(b)
						head = string(b[:n])
						f.Close()
					}
				})
				reqs := sv.newReqs(&seen)
				if !done || len(reqs) > 1 {
					return fmt.Errorf("ask %d: %q made %d upstream requests (answered: %v)", i, p, len(reqs), done)
				}
				want := body(a)
				wh := string(want[:min(20, len(want))])
				if status != 200 || size != int64(len(want)) || head != wh[:min(len(wh), len(head))] || head == "" {
					return fmt.Errorf("ask %d: %q gives status %d with %d bytes, upstream has %d", i, p, status, size, len(want))
				}
			}
			return nil
		})
		c.ClassIf(s.Extra > 0, "larger than the capacity")
		c.NonTrivialIf(s.Extra > 0)
		return err
	})
}
