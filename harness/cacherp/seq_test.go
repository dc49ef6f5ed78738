package cacherp

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"verifharness/idx"
	"verifharness/pk"
	"verifharness/simnet"
)

// Op is one step of a history.
type Op struct {
	K    string // get head wait switch fault restart fill
	P, F int
	V    int
	Dt   int // ms that pass before the step
	Kind string
}

// Scenario is a sequential history.
type Scenario struct {
	W   World
	Par Params
	Ops []Op
}

const gibib = int64(1 << 30)

// ---- reference model -------------------------------------------------------

type item struct {
	content []byte
	size    int64 // for fillers
	clock   int
}

type result struct {
	status int // exact status, or 5 for "some 5xx"
	exact  int // the status really seen for a 5
	until  time.Time
}

type model struct {
	s       *svc
	w       *world
	par     Params
	info    map[string]idx.Rec
	own     map[string]idx.Rec
	meta    map[string][]byte
	items   map[string]*item
	clock   int
	results map[string]*result
	tick    map[string]time.Time // maintained path -> next refresh
	faults  map[string][]string
	amb     string // the model cannot predict further
	listedT map[string]bool
	evicted int
	// metaFill is the size of the filler among the index files.
	metaFill int64
}

func newModel(s *svc, par Params) *model {
	return &model{s: s, w: s.w, par: par, info: map[string]idx.Rec{}, own: map[string]idx.Rec{}, meta: map[string][]byte{},
		items: map[string]*item{}, results: map[string]*result{}, tick: map[string]time.Time{}, faults: map[string][]string{}}
}

func split(p string) (string, string) {
	i := strings.IndexByte(p, '/')
	if i < 0 {
		return p, ""
	}
	return p[:i], p[i+1:]
}

func prefixIndex(n string) int {
	for i := 0; i < 3; i++ {
		if prefixName(i) == n {
			return i
		}
	}
	return -1
}

func maintained(p string) bool {
	b := path.Base(p)
	return b == "Release" || b == "InRelease"
}

func (m *model) known(p string) (idx.Rec, bool) {
	if r, ok := m.info[p]; ok {
		return r, true
	}
	r, ok := m.own[p]
	return r, ok
}

func (m *model) stored(p string) ([]byte, bool) {
	if isIndex(p) {
		b, ok := m.meta[p]
		return b, ok
	}
	if it, ok := m.items[p]; ok {
		return it.content, true
	}
	return nil, false
}

func (m *model) used() int64 {
	var u int64
	for _, it := range m.items {
		u += it.size
	}
	return u
}

func (m *model) evict() {
	for m.used() > gibib && len(m.items) > 1 {
		var old string
		for p, it := range m.items {
			if old == "" || it.clock < m.items[old].clock {
				old = p
			}
		}
		delete(m.items, old)
		m.evicted++
	}
}

func (m *model) put(p string, b []byte) {
	if isIndex(p) {
		m.meta[p] = b
		return
	}
	m.items[p] = &item{content: b, size: int64(len(b)), clock: m.clock}
	m.clock++
	m.evict()
}

// download predicts one upstream exchange for p at time now.
func (m *model) download(p string, now time.Time) (status int) {
	pre, name := split(p)
	pi := prefixIndex(pre)
	kind := ""
	if q := m.faults[p]; len(q) > 0 {
		kind, m.faults[p] = q[0], q[1:]
	}
	r := m.w.fault(kind, pi, name)
	st := r.Status
	if st == 0 {
		st = 200
	}
	if st < 100 {
		st = 5 // no valid answer at all
	}
	switch r.Mode {
	case simnet.Refuse, simnet.Garbage:
		st = 5
	case simnet.Trunc, simnet.TruncChunk:
		if st == 200 {
			st = 5
		}
	}
	if st == 200 {
		if want, ok := m.info[p]; ok && !want.Same(idx.Of(p, r.Body)) {
			st = 5
		}
	}
	if st != 200 {
		m.results[p] = &result{status: st, until: now.Add(time.Duration(m.par.Period) * time.Second)}
		return st
	}
	delete(m.results, p)
	m.take(p, r.Body, now)
	return 200
}

// take stores a body and its listings.
func (m *model) take(p string, body []byte, now time.Time) {
	pre, name := split(p)
	m.put(p, body)
	if isIndex(name) {
		if l, ok := m.w.listsOf(prefixIndex(pre), name, body); ok {
			for _, r := range l {
				r.Path = pre + "/" + r.Path
				m.info[r.Path] = r
			}
		}
		_, a := m.info[p]
		_, b := m.own[p]
		if !a && !b && maintained(p) {
			m.tick[p] = now.Add(time.Duration(m.par.Check) * time.Second)
		}
	}
	m.own[p] = idx.Of(p, body)
}

// ticks plays the refreshes up to now; it returns the predicted requests.
func (m *model) ticks(now time.Time) []string {
	var reqs []string
	for {
		var p string
		for q, t := range m.tick {
			if !t.After(now) && (p == "" || t.Before(m.tick[p]) || (t.Equal(m.tick[p]) && q < p)) {
				p = q
			}
		}
		if p == "" {
			return reqs
		}
		t := m.tick[p]
		m.tick[p] = t.Add(time.Duration(m.par.Check) * time.Second)
		reqs = append(reqs, p)
		m.download(p, t)
		if path.Base(p) == "Release" {
			reqs = append(reqs, p+".gpg")
			m.download(p+".gpg", t)
		}
	}
}

// get predicts a client request: the status, the body and upstream requests.
func (m *model) get(p string, now time.Time) (status int, body []byte, reqs []string) {
	pre, name := split(p)
	if prefixIndex(pre) < 0 || prefixIndex(pre) >= len(m.w.w.Vers) {
		return 404, nil, nil
	}
	if unsupported(name) {
		return 404, nil, nil
	}
	serve := func() ([]byte, bool) {
		want, ok := m.known(p)
		b, ok2 := m.stored(p)
		if ok && ok2 && want.Same(idx.Of(p, b)) {
			if it := m.items[p]; it != nil && !isIndex(p) {
				it.clock = m.clock
				m.clock++
			}
			return b, true
		}
		return nil, false
	}
	if b, ok := serve(); ok {
		return 200, b, nil
	}
	if r := m.results[p]; r != nil {
		if now.Before(r.until) {
			return r.status, nil, nil
		}
		delete(m.results, p)
	}
	reqs = append(reqs, p)
	if st := m.download(p, now); st != 200 {
		return st, nil, reqs
	}
	b, ok := serve()
	if !ok {
		m.amb = "stored item not servable"
	}
	return 200, b, reqs
}

// restart predicts a restart at time now.
func (m *model) restart(now time.Time) {
	m.info, m.own = map[string]idx.Rec{}, map[string]idx.Rec{}
	m.results = map[string]*result{}
	m.tick = map[string]time.Time{}
	add := func(p string) {
		pre, name := split(p)
		l, ok := m.w.listsOf(prefixIndex(pre), name, m.meta[p])
		if !ok {
			return
		}
		for _, r := range l {
			r.Path = pre + "/" + r.Path
			if o, ok := m.info[r.Path]; ok && o != r {
				m.amb = "two cached indices disagree"
			}
			m.info[r.Path] = r
		}
	}
	for _, p := range sortedKeys(m.meta) {
		if maintained(p) {
			add(p)
		}
	}
	for _, p := range sortedKeys(m.meta) {
		if maintained(p) {
			continue
		}
		if r, ok := m.info[p]; ok && !r.Same(idx.Of(p, m.meta[p])) {
			continue
		}
		add(p)
	}
	for _, p := range sortedKeys(m.meta) {
		if _, ok := m.info[p]; !ok {
			m.own[p] = idx.Of(p, m.meta[p])
			if maintained(p) {
				m.tick[p] = now.Add(time.Duration(m.par.Check) * time.Second)
			}
		}
	}
	// the items are found in directory-walk order
	l := sortedKeys(m.items)
	sort.Slice(l, func(i, j int) bool { return walkLess(l[i]+".cache", l[j]+".cache") })
	m.clock = 0
	for _, p := range l {
		m.items[p].clock = m.clock
		m.clock++
	}
	m.evict()
}

func walkLess(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// mismatch is a difference between service and model, with the properties it
// contradicts.
type mismatch struct {
	tags []string
	text string
}

func (m *mismatch) has(t string) bool {
	for _, x := range m.tags {
		if x == t {
			return true
		}
	}
	return false
}

func mm(tags string, f string, a ...interface{}) *mismatch {
	return &mismatch{strings.Fields(tags), fmt.Sprintf(f, a...)}
}

func seqOps(t *rapid.T, w World, faults, restarts, fills int, max int) []Op {
	check := []int{1, 1, 2, 3, 5, 8}
	opGen := rapid.Custom(func(t *rapid.T) Op {
		kinds := []string{"get", "get", "get", "apt", "apt", "switch", "upgrade", "upgrade", "head", "wait"}
		for i := 0; i < faults; i++ {
			kinds = append(kinds, "fault")
		}
		for i := 0; i < restarts; i++ {
			kinds = append(kinds, "restart")
		}
		for i := 0; i < fills; i++ {
			kinds = append(kinds, "fill")
		}
		o := Op{K: rapid.SampledFrom(kinds).Draw(t, "k")}
		o.P = rapid.IntRange(0, len(w.Vers)-1).Draw(t, "p")
		switch o.K {
		case "get", "head", "fault":
			o.F = rapid.SampledFrom([]int{fRelease, fRelease, fPackages, fPackagesGz, fA, fA, fB, fC, fPackagesXz, fSources, fDsc, fTrans, fReadme, fReadme, fGpg, fD, fMissing, fLzma, fByHash}).Draw(t, "f")
			if o.K == "fault" {
				o.Kind = rapid.SampledFrom(faultKinds).Draw(t, "kind")
				o.V = rapid.IntRange(0, 2).Draw(t, "times")
			}
		case "apt", "upgrade":
			o.V = rapid.IntRange(0, len(w.Vers[o.P])-1).Draw(t, "v")
			o.F = rapid.IntRange(0, len(aptRuns)-1).Draw(t, "run")
		case "switch":
			o.V = rapid.IntRange(0, len(w.Vers[o.P])-1).Draw(t, "v")
		}
		switch rapid.IntRange(0, 9).Draw(t, "dtk") {
		case 7:
			o.Dt = 1000 * rapid.SampledFrom(check).Draw(t, "dts")
		case 8:
			o.Dt = rapid.IntRange(500, 4000).Draw(t, "dtm")
		case 9:
			o.Dt = 1000 * rapid.IntRange(5, 45).Draw(t, "dtl")
		}
		return o
	})
	return rapid.SliceOfN(opGen, 3, max).Draw(t, "ops")
}

// aptRuns are typical client sessions: update, then install.
var aptRuns = [][]int{{fRelease, fPackages, fA}, {fRelease, fPackagesGz, fA, fB, fC}, {fRelease, fPackagesXz, fB, fD}, {fRelease, fGpg, fSources, fDsc},
	{fRelease, fTrans, fPackagesGz, fA}, {fPackages, fA, fB}, {fRelease, fByHash, fPackages, fC}}

func expand(ops []Op, par Params) []Op {
	var l []Op
	for _, o := range ops {
		if o.K == "upgrade" {
			// the repository changes, the next refresh passes, a client comes
			l = append(l, Op{K: "switch", P: o.P, V: o.V, Dt: o.Dt})
			o.K, o.Dt = "apt", par.Check*1000+1
		}
		if o.K != "apt" {
			l = append(l, o)
			continue
		}
		for _, f := range aptRuns[o.F] {
			l = append(l, Op{K: "get", P: o.P, F: f, Dt: o.Dt})
			o.Dt = 0
		}
	}
	return l
}

func scenarioGen(maxPrefix, faults, restarts, fills, maxOps int) func(*rapid.T) Scenario {
	return func(t *rapid.T) Scenario {
		var s Scenario
		s.W = worldGen(maxPrefix, 1).Draw(t, "world")
		s.Par = Params{Check: rapid.SampledFrom([]int{10, 7, 3, 60}).Draw(t, "check"), Period: rapid.SampledFrom([]int{3, 1, 2, 20, 0}).Draw(t, "period"),
			MaxConns: rapid.SampledFrom([]int{10, 1, 0, 2}).Draw(t, "conns")}
		s.Ops = seqOps(t, s.W, faults, restarts, fills, maxOps)
		return s
	}
}

type seqStats struct {
	gets, hits, ok, upstream, failures, remembered, refresh, restarts, afterRestartHits, afterRestartMiss, superseded, evictRefetch, rejected int
	amb                                                                                                                                       bool
}

// runSeq plays the history against the service and the model.
func runSeq(t *testing.T, sc Scenario, st *seqStats) (mis *mismatch, err error) {
	dir, clean := scratch()
	defer clean()
	err = pk.Bubble(t, func() error {
		w := newWorld(sc.W)
		s := newSvc(dir, w, sc.Par)
		defer s.restore()
		if e := s.start(); e != nil {
			if _, x := os.Stat(dir); x != nil {
				pk.Infra("NewCacher: %v", e)
			}
			mis = mm("X01", "a valid configuration (%+v) is refused: %v", sc.Par, e)
			return nil
		}
		m := newModel(s, sc.Par)
		defer func() {
			if !s.stop() && mis == nil {
				mis = mm("C11", "the service did not stop")
			}
		}()
		seen := 0
		touched := map[string]bool{} // since the restart
		restarted := false
		everHad := map[string][][]byte{} // bodies that went out completely
		for i, o := range expand(sc.Ops, sc.Par) {
			// time: never at an instant where a timer of the service fires
			d := time.Duration(o.Dt)*time.Millisecond + time.Duration(i%7+1)*time.Millisecond
			target := time.Now().Add(d)
			for bad := true; bad; {
				bad = false
				for _, r := range m.results {
					if r.until.Equal(target) {
						bad = true
					}
				}
				for _, x := range m.tick {
					dd := target.Sub(x) % (time.Duration(sc.Par.Check) * time.Second)
					if dd == 0 {
						bad = true
					}
				}
				if bad {
					target = target.Add(time.Millisecond)
				}
			}
			time.Sleep(time.Until(target))
			now := time.Now()
			want := m.ticks(now)
			st.refresh += len(want)
			if e := cmpReqs(s.newReqs(&seen), want); e != "" {
				tags := "C02"
				if restarted {
					tags += " C07"
				}
				mis = mm(tags, "step %d: refreshes while waiting: %s", i, e)
				return nil
			}
			if m.amb != "" {
				st.amb = true
				return nil
			}
			name := ""
			if o.K == "get" || o.K == "head" || o.K == "fault" {
				name = w.name(o.P, w.cur[o.P], o.F)
			}
			full := prefixName(o.P) + "/" + name
			switch o.K {
			case "wait":
			case "switch":
				s.setVersion(o.P, o.V)
			case "fault":
				for k := 0; k <= o.V; k++ {
					s.queueFault(full, o.Kind)
					m.faults[full] = append(m.faults[full], o.Kind)
				}
			case "restart", "fill", "fillmeta":
				if !s.stop() {
					mis = mm("C11 C07", "step %d: the service did not stop", i)
					return nil
				}
				if o.K == "fill" {
					if e := s.fill(m); e != nil {
						pk.Infra("fill: %v", e)
					}
				}
				if o.K == "fillmeta" {
					if e := s.fillMeta(m); e != nil {
						pk.Infra("fill: %v", e)
					}
				}
				m.restart(time.Now())
				if m.amb != "" {
					st.amb = true
				}
				st.restarts++
				restarted = true
				touched = map[string]bool{}
				if e := s.start(); e != nil {
					mis = mm("C07", "step %d: restart failed: %v", i, e)
					return nil
				}
				if st.amb {
					return nil
				}
			case "get", "head":
				st.gets++
				method := "GET"
				if o.K == "head" {
					method = "HEAD"
				}
				_, listed := m.info[full]
				had, hadOK := m.stored(full)
				_, rem := m.results[full]
				if rem {
					rem = now.Before(m.results[full].until)
				}
				inStore := m.items[full] != nil || isIndex(full)
				ws, wb, wr := m.get(full, now)
				var a *answerOf
				if !waitFor(3*time.Hour, func() { a = s.request(method, full) }) {
					mis = mm("C05", "step %d: %s %s was not answered (%d upstream requests so far)", i, method, full, s.net.Len())
					return nil
				}
				if s.net.Runway {
					mis = mm("C05", "step %d: %s %s caused unbounded upstream requests", i, method, full)
					return nil
				}
				reqs := s.newReqs(&seen)
				for _, r := range reqs {
					if r.Complete {
						everHad[full] = append(everHad[full], r.Resp.Body)
					}
				}
				desc := fmt.Sprintf("step %d: %s %s", i, method, full)
				first := restarted && !touched[full]
				touched[full] = true
				rt := ""
				if first {
					rt = " C07"
				}
				// C01: whatever the model says, a delivered body must match
				if a.Status == 200 && method == "GET" {
					if r, ok := m.info[full]; ok && !r.Same(idx.Of(full, a.Body)) {
						tags := "C01" + rt
						if hadOK && bytes.Equal(had, a.Body) {
							tags += " C02"
						}
						mis = mm(tags, "%s: body of %d bytes contradicts the known checksums %+v: %.80q", desc, len(a.Body), r, a.Body)
						return nil
					}
					okBody := hadOK && bytes.Equal(had, a.Body)
					for _, b := range everHad[full] {
						okBody = okBody || bytes.Equal(b, a.Body)
					}
					if !okBody {
						mis = mm("C01"+rt, "%s: body is no complete upstream response: %.80q", desc, a.Body)
						return nil
					}
				}
				if e := cmpReqs(reqs, wr); e != "" {
					tags := "C05" + rt
					if len(reqs) < len(wr) && hadOK && listed && !rem {
						tags += " C02"
					}
					mis = mm(tags, "%s: %s (answered %d)", desc, e, a.Status)
					return nil
				}
				switch {
				case ws == 5:
					if a.Status < 500 || a.Status > 599 {
						mis = mm("C05"+rt, "%s: status %d, want a 5xx", desc, a.Status)
						return nil
					}
					if r := m.results[full]; r != nil {
						if r.exact == 0 {
							r.exact = a.Status
						} else if r.exact != a.Status {
							mis = mm("C05", "%s: status %d, remembered failure was %d", desc, a.Status, r.exact)
							return nil
						}
					}
				case ws != a.Status:
					mis = mm("C05"+rt, "%s: status %d, want %d", desc, a.Status, ws)
					return nil
				}
				if ws == 200 {
					if method == "HEAD" {
						if len(a.Body) != 0 || a.Len != fmt.Sprint(len(wb)) {
							mis = mm("C08 C05", "%s: HEAD length %q body %d, want length %d", desc, a.Len, len(a.Body), len(wb))
							return nil
						}
					} else if !bytes.Equal(a.Body, wb) {
						mis = mm("C01 C02"+rt, "%s: got %.80q want %.80q", desc, a.Body, wb)
						return nil
					}
				}
				// statistics
				st.upstream += len(wr)
				if ws == 200 {
					st.ok++
					if len(wr) == 0 {
						st.hits++
						if first {
							st.afterRestartHits++
						}
					} else if first && hadOK {
						st.afterRestartMiss++
					}
					if len(wr) > 0 && hadOK && listed {
						st.superseded++
					}
					if len(wr) > 0 && !inStore && listed && m.evicted > 0 {
						st.evictRefetch++
					}
				} else {
					st.failures++
					if rem && len(wr) == 0 {
						st.remembered++
					}
					if ws == 5 && listed && len(wr) > 0 {
						st.rejected++
					}
				}
				if m.amb != "" {
					st.amb = true
					return nil
				}
			}
			// the stores hold exactly what the model says
			if e := s.cmpDirs(m); e != "" {
				mis = mm("C10 C03", "step %d (%s): %s", i, o.K, e)
				return nil
			}
		}
		return nil
	})
	return mis, err
}

// newReqs returns the upstream requests since the last call.
func (s *svc) newReqs(seen *int) []*simnet.Req {
	synctest.Wait() // the upstream side of finished exchanges is recorded
	l := s.net.Log()
	r := l[*seen:]
	*seen = len(l)
	return r
}

func cmpReqs(got []*simnet.Req, want []string) string {
	var g []string
	for _, r := range got {
		host, p := r.Host, r.Path
		pre := "?" + host
		for i := 0; i < 3; i++ {
			if strings.HasPrefix(p, fmt.Sprintf("/repo%d/", i)) {
				pre, p = prefixName(i), p[len("/repo0/"):]
			}
		}
		g = append(g, pre+"/"+p)
	}
	w := append([]string(nil), want...)
	sort.Strings(g)
	sort.Strings(w)
	if strings.Join(g, "\n") == strings.Join(w, "\n") {
		return ""
	}
	if len(g) > 12 {
		g = append(g[:12], "...")
	}
	return fmt.Sprintf("upstream requests %q, want %q", g, w)
}

// fill adds a filler file to the item directory, so that the capacity is
// nearly used up.
func (s *svc) fill(m *model) error {
	d := filepath.Join(s.dir, "cache", "zfill")
	if err := os.MkdirAll(d, 0755); err != nil {
		return err
	}
	n := 0
	for p := range m.items {
		if strings.HasPrefix(p, "zfill/") {
			n++
		}
	}
	free := gibib - m.used()
	// leave room for about two items fewer than are there now
	size := free - 20
	if n > 0 || size <= 0 {
		return nil
	}
	f, err := os.Create(filepath.Join(d, fmt.Sprintf("f%d.cache", n)))
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(size); err != nil {
		return err
	}
	m.items[fmt.Sprintf("zfill/f%d", n)] = &item{size: size}
	return nil
}

// fillMeta adds a file larger than the capacity to the index directory, to
// which no limit applies.
func (s *svc) fillMeta(m *model) error {
	if m.metaFill > 0 {
		return nil
	}
	m.metaFill = gibib + 5
	d := filepath.Join(s.dir, "meta", "zfill")
	if err := os.MkdirAll(d, 0755); err != nil {
		return err
	}
	f, err := os.Create(filepath.Join(d, "f.cache"))
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(m.metaFill)
}

// cmpDirs compares the two directories with the model.
func (s *svc) cmpDirs(m *model) string {
	var d []string
	check := func(dir string, want map[string]int64, get func(string) []byte) {
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return nil
			}
			rel, _ := filepath.Rel(dir, p)
			if !strings.HasSuffix(rel, ".cache") {
				d = append(d, "stray file "+rel)
				return nil
			}
			rel = strings.TrimSuffix(rel, ".cache")
			n, ok := want[rel]
			if !ok {
				d = append(d, "unexpected file "+rel+" in "+filepath.Base(dir))
				return nil
			}
			if n != fi.Size() {
				d = append(d, fmt.Sprintf("%s has %d bytes, want %d", rel, fi.Size(), n))
			} else if b := get(rel); b != nil {
				if g, e := os.ReadFile(p); e != nil || !bytes.Equal(g, b) {
					d = append(d, fmt.Sprintf("%s holds other content", rel))
				}
			}
			delete(want, rel)
			return nil
		})
		for k := range want {
			d = append(d, "missing file "+k+" in "+filepath.Base(dir))
		}
	}
	w := map[string]int64{}
	for p, b := range m.meta {
		w[p] = int64(len(b))
	}
	if m.metaFill > 0 {
		w["zfill/f"] = m.metaFill
	}
	check(filepath.Join(s.dir, "meta"), w, func(p string) []byte { return m.meta[p] })
	w = map[string]int64{}
	for p, it := range m.items {
		w[p] = it.size
	}
	check(filepath.Join(s.dir, "cache"), w, func(p string) []byte { return m.items[p].content })
	sort.Strings(d)
	return strings.Join(d, "; ")
}

func seqLeg(t *testing.T, leg, prop string, gen func(*rapid.T) Scenario, rule func(*seqStats) bool) {
	pk.Check(t, leg, gen, func(c *pk.C, sc Scenario) error {
		var st seqStats
		mis, err := runSeq(t, sc, &st)
		for _, x := range []struct {
			b bool
			l string
		}{{st.hits > 0, "cache hit"}, {st.failures > 0, "failure"}, {st.remembered > 0, "remembered failure"}, {st.refresh > 0, "refresh"}, {st.afterRestartHits > 0, "hit after restart"},
			{st.afterRestartMiss > 0, "refetch after restart"}, {st.superseded > 0, "superseded content refetched"}, {st.evictRefetch > 0, "refetch after eviction"}, {st.rejected > 0, "data rejected"}, {st.amb, "ended early: model undetermined"}} {
			c.ClassIf(x.b, x.l)
		}
		c.NonTrivialIf(rule(&st))
		if mis != nil {
			if mis.has(prop) {
				return fmt.Errorf("%s", mis.text)
			}
			c.Class("other property: " + strings.Join(mis.tags, " "))
			return nil
		}
		if d, ok := err.(*pk.Deadlock); ok {
			if prop == "C11" || prop == "C05" {
				return d
			}
			return nil
		}
		return err
	})
}

func TestC01_seq(t *testing.T) {
	seqLeg(t, "C01_seq", "C01", scenarioGen(2, 5, 1, 0, 22), func(s *seqStats) bool { return s.rejected > 0 || s.superseded > 0 })
}

func TestC02_seq(t *testing.T) {
	seqLeg(t, "C02_seq", "C02", scenarioGen(2, 1, 1, 0, 22), func(s *seqStats) bool { return s.refresh > 0 })
}

// flakyGen keeps an eye on maintained files while their refreshes fail.
func flakyGen(t *rapid.T) Scenario {
	s := Scenario{W: worldGen(2, 1).Draw(t, "world")}
	s.Par = Params{Check: rapid.SampledFrom([]int{3, 2, 5, 10}).Draw(t, "check"), Period: rapid.SampledFrom([]int{1, 2, 4, 12}).Draw(t, "period"),
		MaxConns: rapid.SampledFrom([]int{10, 1, 0}).Draw(t, "conns")}
	for p := range s.W.Vers {
		s.Ops = append(s.Ops, Op{K: "apt", P: p})
	}
	op := rapid.Custom(func(t *rapid.T) Op {
		o := Op{K: rapid.SampledFrom([]string{"fault", "wait", "get", "fault", "upgrade", "switch", "wait", "restart"}).Draw(t, "k"), P: rapid.IntRange(0, len(s.W.Vers)-1).Draw(t, "p"),
			F: rapid.SampledFrom([]int{fRelease, fRelease, fGpg, fPackages, fA}).Draw(t, "f")}
		switch o.K {
		case "fault":
			o.Kind, o.V = rapid.SampledFrom(faultKinds).Draw(t, "kind"), rapid.IntRange(0, 1).Draw(t, "times")
		case "wait", "get":
			o.Dt = 1000 * s.Par.Check * rapid.IntRange(0, 3).Draw(t, "intervals")
		case "switch", "upgrade":
			o.V = rapid.IntRange(0, len(s.W.Vers[o.P])-1).Draw(t, "v")
			o.F = rapid.IntRange(0, len(aptRuns)-1).Draw(t, "run")
		}
		return o
	})
	s.Ops = append(s.Ops, rapid.SliceOfN(op, 4, 20).Draw(t, "ops")...)
	return s
}

func TestC02_flaky(t *testing.T) {
	seqLeg(t, "C02_flaky", "C02", flakyGen, func(s *seqStats) bool { return s.refresh > 1 })
}

func TestC05_seq(t *testing.T) {
	seqLeg(t, "C05_seq", "C05", scenarioGen(1, 8, 0, 0, 22), func(s *seqStats) bool { return s.failures > 0 })
}

// memoryGen aims at failures that follow each other on a maintained path
// while the ones before are still remembered.
func memoryGen(t *rapid.T) Scenario {
	s := Scenario{W: worldGen(1, 1).Draw(t, "world")}
	s.W.Flavor[0] = 1
	s.Par = Params{Check: rapid.SampledFrom([]int{3, 2, 5, 10}).Draw(t, "check"), Period: rapid.SampledFrom([]int{4, 7, 12, 20, 3}).Draw(t, "period"),
		MaxConns: rapid.SampledFrom([]int{10, 0}).Draw(t, "conns")}
	kind := func(n string) Op {
		return Op{K: "fault", F: fGpg, Kind: rapid.SampledFrom(faultKinds).Draw(t, n), V: rapid.IntRange(0, 4).Draw(t, n+" times")}
	}
	// the signature meets failure after failure
	for i := 0; i <= rapid.IntRange(1, 4).Draw(t, "faults"); i++ {
		s.Ops = append(s.Ops, kind("kind"))
	}
	s.Ops = append(s.Ops, Op{K: "get", F: fRelease})
	op := rapid.Custom(func(t *rapid.T) Op {
		o := Op{K: rapid.SampledFrom([]string{"get", "get", "get", "head", "fault", "wait", "switch"}).Draw(t, "k"), F: rapid.SampledFrom([]int{fGpg, fGpg, fGpg, fGpg, fRelease, fPackages}).Draw(t, "f"),
			Dt: rapid.SampledFrom([]int{0, 100, 900, 1500, 2500, 3500, 6000, 9000, 13000}).Draw(t, "dt")}
		switch o.K {
		case "fault":
			o.Kind, o.V = rapid.SampledFrom(faultKinds).Draw(t, "kind"), rapid.IntRange(0, 3).Draw(t, "times")
		case "switch":
			o.V = rapid.IntRange(0, len(s.W.Vers[0])-1).Draw(t, "v")
		}
		return o
	})
	s.Ops = append(s.Ops, rapid.SliceOfN(op, 3, 18).Draw(t, "ops")...)
	return s
}

func TestC05_memory(t *testing.T) {
	seqLeg(t, "C05_memory", "C05", memoryGen, func(s *seqStats) bool { return s.remembered > 0 })
}

// TestC10_meta: the capacity is that of the item files; index files are not
// evicted however large they are.  (A start hashes the filler, so this takes
// seconds and gigabytes per case: few cases.)
func TestC10_meta(t *testing.T) {
	seqLeg(t, "C10_meta", "C10", func(t *rapid.T) Scenario {
		s := scenarioGen(2, 0, 0, 0, 12)(t)
		s.Ops = append([]Op{{K: "apt"}, {K: "fillmeta"}}, s.Ops...)
		return s
	}, func(s *seqStats) bool { return s.restarts > 0 && s.ok > 0 })
}

func TestC07_seq(t *testing.T) {
	seqLeg(t, "C07_seq", "C07", scenarioGen(2, 1, 3, 0, 22), func(s *seqStats) bool { return s.afterRestartHits > 0 || s.afterRestartMiss > 0 })
}

func TestC10_evict(t *testing.T) {
	seqLeg(t, "C10_evict", "C10", scenarioGen(2, 0, 0, 2, 26), func(s *seqStats) bool { return s.evictRefetch > 0 })
}
