package mirrorp

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cybozu-go/aptutil/mirror"
	"github.com/cybozu-go/well"

	"verifharness/fsx"
	"verifharness/idx"
	"verifharness/pk"
	"verifharness/simnet"
)

// Step is one step of a mirror directory's history.
type Step struct {
	K      string // run up cfg off on junk alias held lose
	M, V   int
	Cfg    *Cfg    `json:",omitempty"`
	Ids    int     `json:",omitempty"` // run: bits of the mirrors named, 0 all configured
	Dt     int     `json:",omitempty"` // seconds before it, plus one
	Soon   bool    `json:",omitempty"` // run: at once, in the same second
	Max    int     `json:",omitempty"` // run: max_conns
	Delays []int   `json:",omitempty"` // run: response times in ms
	Faults []Fault `json:",omitempty"`
	SwAt   int     `json:",omitempty"` // run: at this request upstream M goes to version V
	Cancel int     `json:",omitempty"` // run: interrupted after so many ms
	Chunk  bool    `json:",omitempty"`
	Bad    int     `json:",omitempty"` // run: 1, 2: a mirror cannot be set up, 3: is named twice
}

// Scen is a generated history.
type Scen struct {
	Mirs  []Mir
	Steps []Step
	Point int    `json:",omitempty"` // per mille of the last run's file-system operations
	Kind  string `json:",omitempty"` // what happens there
}

// opts selects the instruments.
type opts struct {
	watch   bool // check the published names after every operation
	durable bool
	log     bool
	failAt  int // file-system operation of the last run that fails
	failN   int
	kinds   func(*fsx.Op) bool
	errno   error
	freeze  int  // operation at which the last run dies
	after   bool // after the last run, one more healthy run
	second  int  // operation of the last run at which another run is tried
	stale   bool // a whole run takes place after the last one has opened the lock file
}

// hist executes a history.
type hist struct {
	*sim
	c                          *pk.C
	o                          opts
	fs                         *fsx.FS
	cfgs                       map[int]Cfg
	pubs                       map[int]*pub
	vcfg                       map[string]Cfg // version directory -> configuration it was built with
	links                      map[string]bool
	errs                       []taggedErr
	runs                       int
	ops                        int // mutating operations of the last run
	good                       int // successful runs
	crashed                    bool
	dirty                      bool // a cancelled run may have left things behind
	dur                        *durability
	incr                       bool
	hit                        bool // the failure or death happened
	failedRuns, faulted, items int
	partial                    bool
	hurt                       bool // a run with a local failure reported success
	skews                      map[string]bool
	lost                       map[int]bool // something vanished from the published version
	outside                    map[string]bool
}

type taggedErr struct {
	tags string
	err  error
}

func (h *hist) bad(tags, format string, a ...interface{}) {
	h.errs = append(h.errs, taggedErr{tags, fmt.Errorf(format, a...)})
}

// verdict is the first error with the tag.
func (h *hist) verdict(tag string) error {
	for _, e := range h.errs {
		if in(strings.Fields(e.tags), tag) {
			return e.err
		}
	}
	return nil
}

func play(t *testing.T, c *pk.C, sc Scen, o opts, tag string) (h *hist, err error) {
	dir, clean := scratch()
	defer clean()
	md := filepath.Join(dir, "mirror")
	if e := os.Mkdir(md, 0755); e != nil {
		pk.Infra("%v", e)
	}
	if e := os.Symlink("mirror", md+"-rival"); e != nil {
		pk.Infra("%v", e)
	}
	h = &hist{c: c, o: o, cfgs: map[int]Cfg{}, pubs: map[int]*pub{}, vcfg: map[string]Cfg{}, links: map[string]bool{}, skews: map[string]bool{}, lost: map[int]bool{}, outside: map[string]bool{}}
	err = pk.Bubble(t, func() error {
		h.sim = newSim(md, sc.Mirs)
		defer h.restore()
		for i, m := range sc.Mirs {
			h.cfgs[i] = m.Cfg
		}
		h.fs = &fsx.FS{Root: md, KeepLog: o.durable || o.log}
		fsx.Install(h.fs)
		defer fsx.Uninstall()
		if o.durable {
			h.dur = newDurability(md)
			h.fs.Before, h.fs.After = h.dur.before, h.dur.after
		}
		last := -1
		for i, s := range sc.Steps {
			if s.K == "run" {
				last = i
			}
		}
		for i, s := range sc.Steps {
			h.step(s, i == last)
			if h.verdict(tag) != nil {
				time.Sleep(2 * time.Hour)
				return h.verdict(tag)
			}
			if i == last {
				break
			}
		}
		if o.after {
			h.step(Step{K: "run", Soon: sc.Point%3 == 0}, false)
		}
		time.Sleep(2 * time.Hour) // let stray goroutines of failed runs end
		if h.fs.Escapes != nil {
			h.bad("M09 M01 M07", "file-system changes outside the mirror directory: %q", h.fs.Escapes)
		}
		for p := range h.outside {
			if _, e := os.Stat(p); e != nil {
				h.bad("M09 M01 M07", "%s, outside of the mirror directory, is gone", p)
			}
		}
		if h.net.Runway {
			h.bad("M10 M06", "endless requests")
		}
		return h.verdict(tag)
	})
	return h, err
}

func (h *hist) step(s Step, last bool) {
	m := s.M % len(h.ups)
	switch s.K {
	case "up":
		h.cur[m] = s.V % len(h.ups[m].st)
	case "cfg":
		if s.Cfg != nil {
			h.cfgs[m] = *s.Cfg
		}
	case "off":
		if len(h.cfgs) > 1 {
			delete(h.cfgs, m)
		}
	case "on":
		if _, ok := h.cfgs[m]; !ok {
			h.cfgs[m] = h.ups[m].m.Cfg
		}
	case "junk":
		h.junk(s)
	case "alias":
		// a name the operator gave to a published version
		if p := h.pubs[m]; p != nil {
			n := fmt.Sprintf("alias-%d", s.V)
			if os.Symlink(p.target, filepath.Join(h.dir, n)) == nil {
				h.links[n] = true
			}
		}
	case "held":
		h.held(s)
	case "lose":
		h.lose(m, s.V)
	case "run":
		h.run1(s, last)
	}
}

// held runs while somebody else holds the lock.
func (h *hist) held(s Step) {
	lf, err := os.OpenFile(filepath.Join(h.dir, ".lock"), os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		pk.Infra("%v", err)
	}
	defer lf.Close()
	if err := syscall.Flock(int(lf.Fd()), syscall.LOCK_EX); err != nil {
		pk.Infra("%v", err)
	}
	tree := fsx.Tree(h.dir)
	n, k := h.fs.Count(), h.net.Len()
	for i := 0; i <= s.V%2; i++ {
		err, ok := h.sim.run(h.config(h.cfgs, 5), nil)
		synctest.Wait()
		switch {
		case !ok:
			h.bad("M08", "a run waits for the lock instead of failing")
			return
		case err == nil:
			h.bad("M08", "a run reported success while the lock was held")
		case h.net.Len() != k:
			h.bad("M08", "a run contacted upstream while the lock was held")
		case h.fs.Count() != n || fmt.Sprint(fsx.Tree(h.dir)) != fmt.Sprint(tree):
			h.bad("M08", "a run changed the directory while the lock was held")
		}
	}
	h.hit = true
	h.c.Class("lock held by another process")
}

func (h *hist) junk(s Step) {
	id := mirNames[s.M%len(mirNames)]
	mk := func(p, content string) {
		p = filepath.Join(h.dir, p)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(content), 0644)
	}
	switch s.V % 6 {
	case 0: // abandoned version
		mk("."+id+".19991231_235958/"+id+"/dists/stable/Release", "old")
		mk("."+id+".19991231_235958/_tmp123", "x")
	case 1:
		mk("."+id+".19991231_235959/info.json", "{")
	case 2:
		mk("stray", "x")
	case 3:
		os.Symlink(filepath.Join(h.dir, "."+id+".19991231_235957", id), filepath.Join(h.dir, id+".tmp"))
		os.MkdirAll(filepath.Join(h.dir, "."+id+".19991231_235957", id), 0755)
	case 4:
		os.MkdirAll(filepath.Join(h.dir, "subdir/deep/deeper"), 0755)
		mk("subdir/.lock", "x")
	case 5: // a left-over link that leads elsewhere
		d := filepath.Join(filepath.Dir(h.dir), "elsewhere", id)
		syscall.Mkdir(filepath.Dir(d), 0755) // not seen by the hooks
		syscall.Mkdir(d, 0755)
		if fd, err := syscall.Open(filepath.Join(d, "keep"), syscall.O_CREAT|syscall.O_WRONLY, 0644); err == nil {
			syscall.Close(fd)
			h.outside[filepath.Join(d, "keep")] = true
		}
		os.Symlink(d, filepath.Join(h.dir, id+".tmp"))
	}
}

// lose removes something from a published version, as a repaired file
// system or an operator might.
func (h *hist) lose(m, v int) {
	p := h.pubs[m]
	if p == nil {
		return
	}
	if v%8 == 7 {
		if os.Remove(filepath.Join(h.dir, p.dir, "info.json")) == nil {
			h.lost[m] = true
			h.c.Class("records lost")
		}
		return
	}
	var l []string
	for f := range p.tree {
		l = append(l, f)
	}
	if len(l) == 0 {
		return
	}
	sort.Strings(l)
	f := l[v%len(l)]
	if err := os.Remove(filepath.Join(h.dir, mirNames[m], f)); err != nil {
		pk.Infra("%v", err)
	}
	delete(p.tree, f)
	h.lost[m] = true
	h.c.Class("published file lost")
}

// check reads all published names and compares or judges them.
func (h *hist) snapshot(tags string) map[int]*pub {
	out := map[int]*pub{}
	for i := range h.ups {
		p, err := h.published(mirNames[i])
		if err != nil {
			h.bad(tags, "mirror %s: %v", mirNames[i], err)
			continue
		}
		if p != nil {
			out[i] = p
		}
	}
	return out
}

func (h *hist) run1(s Step, last bool) {
	if !s.Soon {
		time.Sleep(time.Duration(s.Dt+1) * time.Second)
	}
	h.runs++
	run := map[int]bool{}
	var ids []string
	for i := range h.ups {
		if _, ok := h.cfgs[i]; !ok {
			continue
		}
		if s.Ids == 0 || s.Ids&(1<<i) != 0 {
			run[i] = true
			if s.Ids != 0 {
				ids = append(ids, mirNames[i])
			}
		}
	}
	if len(run) == 0 {
		ids = nil
		for i := range h.cfgs {
			run[i] = true
		}
	}
	before := h.snapshot("M01 M02 M07")
	for i := range h.pubs {
		if d := samePub(h.pubs[i], before[i]); d != "" {
			h.bad("M01", "mirror %s changed between runs: %s", mirNames[i], d)
		}
	}
	max := s.Max
	if max == 0 {
		max = 10
	}
	if max < 0 {
		max = 0
	}
	c := h.config(h.cfgs, max)
	if s.Chunk && s.Max == 0 {
		c = h.config(h.cfgs, -1) // default
	}
	wanted := map[int]map[string]bool{}
	h.fresh = func(m int, p string) bool {
		if wanted[m] == nil {
			wanted[m] = h.ups[m].wanted(h.cfgs[m], h.state(m))
		}
		if !wanted[m][p] {
			return false
		}
		q := h.pubs[m]
		if q == nil {
			return true
		}
		b, ok := q.tree[p]
		return !ok || string(b) != string(h.state(m).files[p])
	}
	qs := h.setFaults(s.Faults)
	c, ids, dup := h.badSetup(s, c, ids, run)
	h.mu.Lock()
	h.delays, h.chunk, h.nreq = s.Delays, s.Chunk, 0
	h.minPre = 0
	if len(s.Delays) > 0 {
		h.minPre = time.Millisecond
	}
	h.onReq = nil
	switched := -1
	if s.SwAt > 0 {
		h.onReq = func(n int) {
			if n == s.SwAt {
				switched = s.M % len(h.ups)
				h.cur[switched] = s.V % len(h.ups[switched].st)
			}
		}
	}
	h.mu.Unlock()
	if last {
		h.fs.FailAt, h.fs.FailN, h.fs.FailKinds, h.fs.Errno = h.o.failAt, h.o.failN, h.o.kinds, h.o.errno
		h.fs.FailSeen = 0
		if h.o.freeze > 0 {
			h.fs.FreezeAt = h.fs.Count() + h.o.freeze
		}
	}
	var w *watcher
	if h.o.watch {
		w = newWatcher(h, run, before)
		h.fs.Before, h.fs.After = w.before, w.after
	}
	start, ops := h.net.Len(), h.fs.Count()
	var signaled time.Time
	if s.Cancel > 0 {
		timer := time.AfterFunc(time.Duration(s.Cancel)*time.Millisecond, func() { well.Cancel(errors.New("signaled")) })
		defer timer.Stop()
		signaled = time.Now().Add(time.Duration(s.Cancel) * time.Millisecond)
	}
	if h.dur != nil {
		h.dur.start(before, mirNames[:len(h.ups)])
	}
	if last && h.o.second > 0 {
		if h.o.stale {
			h.overtaken(c, ids, s)
		} else {
			h.rival(h.fs.Count()+h.o.second, c, s)
		}
	}
	err, ok := h.sim.run(c, ids)
	if over := time.Since(signaled); s.Cancel > 0 && ok && over > 0 {
		h.c.Class("still running when signaled")
		if over > 2*time.Second {
			h.bad("X02", "run %d went on for %v after it was told to stop", h.runs, over)
		}
	}
	synctest.Wait()
	if last && h.o.second > 0 {
		h.fs.Before, h.fs.Opened = nil, nil
	}
	h.ops = h.fs.Count() - ops
	h.onReq = nil
	if w != nil {
		h.fs.Before, h.fs.After = nil, nil
		if w.err != nil {
			h.bad("M01", "%v", w.err)
		}
	}
	log := h.net.Log()[start:]
	frozen := h.fs.Frozen
	failed := len(h.fs.Failed) > 0 && last
	hitKind := ""
	if failed {
		hitKind = h.fs.Failed[0].Kind
	}
	if last {
		h.fs.FailAt, h.fs.FreezeAt = 0, 0
		h.fs.Frozen = false
		h.fs.Failed = nil
	}
	if !ok {
		h.bad("M10 M06 M02 M03", "run %d never ended (max_conns %d)", h.runs, max)
		return
	}
	if s.Cancel > 0 && err == nil {
		// it may have been faster
	}
	after := h.snapshot("M01 M02 M13 M07")
	changed := map[int]bool{}
	for i := range h.ups {
		d := samePub(before[i], after[i])
		if d == "" {
			continue
		}
		changed[i] = true
		if !run[i] {
			h.bad("M01 M07 M02", "mirror %s, not part of run %d, changed: %s", mirNames[i], h.runs, d)
			continue
		}
		p := after[i]
		if p == nil || before[i] != nil && p.target == before[i].target {
			h.bad("M01 M02 M13", "mirror %s changed in place: %s", mirNames[i], d)
			continue
		}
		h.vcfg[p.dir] = h.cfgs[i]
		for _, su := range h.ups[i].reps[h.cur[i]].Suites {
			if su.Skew {
				h.skews[p.dir] = true
			}
		}
		if p.unreadable != "" {
			h.bad("M03", "mirror %s: %s is not readable for everyone", mirNames[i], p.unreadable)
		}
		// whatever the run says, what is visible must be one complete version
		if e := h.ups[i].judge(h.cfgs[i], p.tree, nil, h.absent(i)); e != nil {
			h.bad("M01 M02 M03 M13 M04 M05 M06 M09", "run %d (%v) published mirror %s inconsistently: %v", h.runs, err, mirNames[i], e)
		}
	}
	if err == nil {
		for i := range run {
			if !changed[i] {
				h.bad("M02 M03 M05 M13 M06", "run %d reported success, but mirror %s was not updated", h.runs, mirNames[i])
			}
		}
	}
	h.pubs = after

	// what had to happen
	fatal, uncertain, mayFail := "", switched >= 0 || s.Cancel > 0 || frozen || failed, dup
	if s.Bad > 0 && !dup {
		fatal = "a mirror that cannot be set up"
	}
	absent := map[int]map[string]bool{}
	softHits, hardHits := 0, 0
	tries := map[string]int{} // an index and its by-hash names share one budget of retries
	shared := map[string]bool{}
	h.mu.Lock()
	for k, q := range qs {
		if q.hits == 0 {
			continue
		}
		m := int(k[0] - '0')
		p := k[2:]
		st := h.state(m)
		rel := isRelName(p) && !strings.Contains(p, "binary-")
		kind := q.kind
		if soft(kind) {
			softHits++
			d := filepath.Dir(p)
			if i := strings.Index(p, "by-hash/"); i >= 0 {
				d = filepath.Clean(p[:i])
				shared[fmt.Sprint(m, d)] = true
			}
			if !rel {
				tries[fmt.Sprint(m, d)] += q.hits
			}
			if q.n == 0 || q.n > 5 {
				fatal = p + ": " + kind
				continue
			}
			if q.hits2 == 0 {
				continue
			}
			kind = q.then
		}
		hardHits++
		four := strings.HasPrefix(kind, "4")
		_, offered := st.files[p]
		switch {
		case rel && four:
			if absent[m] == nil {
				absent[m] = map[string]bool{}
			}
			absent[m][p] = true
		case rel && strings.HasSuffix(p, ".gpg") && kind != "204" && kind != "206" && kind != "300":
			uncertain = true // nothing to tell it by
		case rel && !offered && kind == "206":
			fatal = p + ": " + kind
		case rel:
			fatal = p + ": " + kind
		case kind == "404" && isIndexPath(h.ups[m], st, p):
			if absent[m] == nil {
				absent[m] = map[string]bool{}
			}
			absent[m][p] = true
		case (kind == "wrong" || kind == "short" || kind == "long" || kind == "empty") && h.hasByhash(m, st, p):
			// the by-hash location has it
			h.c.Class("by-hash fallback")
		case !offered && isIndexPath(h.ups[m], st, p):
			fatal = p + ": " + kind
		default:
			fatal = p + ": " + kind
		}
	}
	h.mu.Unlock()
	skewed := false
	stricts := map[int]*state{}
	for i := range run {
		st := h.state(i)
		if a := absent[i]; a != nil {
			n := &state{files: map[string][]byte{}}
			for p, b := range st.files {
				if !a[p] {
					n.files[p] = b
				}
			}
			st = n
		}
		stricts[i] = st
		if h.lost[i] {
			mayFail = true
		}
		if p := h.ups[i].broken(h.cfgs[i], st); p != "" {
			fatal = "broken index " + p
			h.c.Class("broken index")
		}
		for _, n := range h.ups[i].suites(h.cfgs[i]) {
			if !h.ups[i].listsAny(st, n) {
				fatal = "no usable release file for suite " + suiteDir(h.ups[i].m.Flat, n)
			}
		}
		if h.conflicted(i, h.cfgs[i]) {
			skewed = true
		}
	}
	prev := false
	for i := range run {
		prev = prev || before[i] != nil
	}
	also := ""
	if prev {
		also += " M05"
	}
	if softHits+hardHits > 0 || h.anyStale(run) {
		also += " M06"
	}
	if h.crashed {
		also += " M13"
	}
	if h.hurt {
		also += " M02"
	}
	if s.Soon || h.o.second > 0 || h.o.after {
		also += " M08"
	}
	for d := range shared {
		mayFail = mayFail || tries[d] > 5
	}
	switch {
	case fatal != "" && err == nil && !uncertain:
		h.bad("M02 M06", "run %d reported success although a file could not be obtained (%s)", h.runs, fatal)
	case fatal == "" && err != nil && !uncertain && !skewed && !mayFail:
		h.bad("M03 M04 M10 M07"+also, "run %d failed although everything was available: %v", h.runs, err)
	case fatal == "" && err == nil && switched < 0:
		for i := range run {
			if after[i] == nil {
				continue
			}
			if e := h.ups[i].judge(h.cfgs[i], after[i].tree, stricts[i], nil); e != nil {
				h.bad("M03 M02 M04"+also, "run %d succeeded, but mirror %s is not what upstream has: %v", h.runs, mirNames[i], e)
			}
		}
	}
	if err != nil && !frozen && s.Cancel == 0 {
		// only a run in which one of several mirrors failed may have updated some
		n := 0
		for i := range run {
			if changed[i] {
				n++
			}
		}
		late := failed && (hitKind == "remove" || hitKind == "removeall" || hitKind == "sync")
		if n == len(run) && !late {
			h.bad("M02", "run %d reported an error (%v), but updated every mirror", h.runs, err)
		}
		if len(run) == 1 && n == 1 && !late {
			h.bad("M02 M01", "failed run %d (%v) changed the published mirror", h.runs, err)
		}
	}
	if failed && err == nil {
		switch hitKind {
		case "remove", "removeall", "close", "chmod":
		case "write":
			// downloaded again, or else the tree is incomplete
			h.hurt = true
		default:
			h.bad("M02 M11", "run %d reported success although a %s failed", h.runs, hitKind)
		}
	}
	// garbage collection
	links := map[string]bool{}
	for n := range h.links {
		links[n] = true
	}
	for i := range after {
		links[mirNames[i]] = true
	}
	if !frozen && s.Cancel == 0 && !(failed && (hitKind == "remove" || hitKind == "removeall")) {
		if e := h.listing(links); e != nil {
			t := "M07"
			if h.crashed {
				t += " M13"
			}
			if err == nil && strings.Contains(e.Error(), "in version directory") {
				t += " M03"
			}
			h.bad(t, "after run %d (%v): %v", h.runs, err, e)
		}
	}
	for n := range h.links {
		if st, e := os.Stat(filepath.Join(h.dir, n)); e != nil || !st.IsDir() {
			h.bad("M07 M01", "the version that link %s referred to is gone after run %d", n, h.runs)
		}
	}
	lost := map[int]bool{}
	for i := range h.lost {
		lost[i] = true
	}
	for i := range changed {
		if run[i] {
			delete(h.lost, i)
		}
	}
	h.logs(log, before, lost, run, err, max, s, stricts, switched >= 0, failed)
	if h.dur != nil {
		h.dur.finish(h, before, after, err)
	}
	if err == nil {
		h.good++
		h.incr = h.incr || prev
	}
	if frozen {
		h.crashed = true
	}
	h.hit = h.hit || failed || frozen
	if err != nil {
		h.failedRuns++
	}
	if softHits+hardHits > 0 {
		h.faulted++
	}
	for i := range run {
		if err == nil && after[i] != nil {
			h.items += len(after[i].tree)
			h.partial = h.partial || len(after[i].tree) > 2 && len(after[i].tree) < len(h.state(i).files)
		}
	}
	h.c.ClassIf(err == nil, "run succeeded")
	h.c.ClassIf(err != nil, "run failed")
	h.c.ClassIf(softHits > 0, "retried")
	h.c.ClassIf(hardHits > 0, "hard fault met")
	h.c.ClassIf(skewed, "conflicting upstream")
	h.c.ClassIf(prev && err == nil, "incremental")
	h.c.ClassIf(failed, "file-system failure: "+hitKind)
	h.c.ClassIf(frozen, "killed")
	h.c.ClassIf(switched >= 0, "upstream switched during the run")
	h.c.ClassIf(s.Cancel > 0 && err != nil, "interrupted")
}

// badSetup makes one of the mirrors of a run impossible to set up, the last
// one if the run takes them in the given order.
func (h *hist) badSetup(s Step, c *mirror.Config, ids []string, run map[int]bool) (*mirror.Config, []string, bool) {
	if s.Bad == 0 {
		return c, ids, false
	}
	ids = nil
	for i := range h.ups {
		if run[i] {
			ids = append(ids, mirNames[i])
		}
	}
	last := ids[len(ids)-1]
	switch s.Bad {
	case 1:
		mc := *c.Mirrors[last]
		mc.Suites = append(append([]string(nil), mc.Suites...), "mixed/", "mixed")
		c.Mirrors[last] = &mc
	case 2:
		ids = append(ids, "unheard-of")
	default:
		ids = append(ids, ids[0])
		return c, ids, true
	}
	h.c.Class("mirror that cannot be set up")
	return c, ids, false
}

// broken tells of an index that the configuration needs, that upstream offers
// and that cannot be understood.
func (u *upstream) broken(c Cfg, st *state) string {
	for _, n := range u.suites(c) {
		dir := suiteDir(u.m.Flat, n)
		for _, name := range relNames {
			p := dirJoin(dir, name)
			b, ok := st.files[p]
			if !ok {
				continue
			}
			for _, r := range u.rel[key(p, b)].recs {
				if _, ok := st.files[r.Path]; !ok {
					continue
				}
				for k, info := range u.bad {
					i := strings.Index(k, "\x00")
					if k[:i] == r.Path && r.Same(idx.Of(r.Path, []byte(k[i+1:]))) && u.selects(c, info) {
						return r.Path
					}
				}
			}
		}
	}
	return ""
}

// rival starts another run on the same directory when the file-system
// operation with the given number is about to happen. The directory and the
// upstreams have other names for it, which tells its actions from those of
// the run in progress.
// overtaken lets a whole run take place when the next one has just opened the
// lock file; a rival follows later.
func (h *hist) overtaken(c *mirror.Config, ids []string, s Step) {
	var once atomic.Bool
	h.fs.Opened = func(p string) {
		if filepath.Base(p) != ".lock" || !once.CompareAndSwap(false, true) {
			return
		}
		h.sim.run(c, ids)
		h.c.Class("overtaken by another run")
		well.VerifReset()
		h.rival(h.fs.Count()+h.o.second, c, s)
	}
}

func (h *hist) rival(at int, c *mirror.Config, s Step) {
	link := h.dir + "-rival"
	cfgs := map[int]Cfg{}
	for i := range h.ups {
		if i == s.M%len(h.ups) || s.V%2 == 0 {
			cfgs[i] = h.ups[i].m.Cfg
		}
	}
	c2 := h.config(cfgs, 3)
	c2.Dir = link
	for _, m := range c2.Mirrors {
		m.URL.Host = "rival.example"
	}
	var started atomic.Bool
	acted := make(chan string, 1000)
	h.net.SetWatch(func(r *simnet.Req) {
		if r.Host == "rival.example" {
			acted <- "a request for " + r.Path
		}
	})
	h.fs.Before = func(op *fsx.Op) {
		if op.Kind != "symlink" && (op.Path == link || strings.HasPrefix(op.Path, link+"/")) || strings.HasPrefix(op.Path2, link+"/") {
			select {
			case acted <- op.String():
			default:
			}
			return
		}
		if op.N < at || filepath.Base(op.Path) == ".lock" || !started.CompareAndSwap(false, true) {
			return // (before the lock file exists, no run is in progress)
		}
		done := make(chan error, 1)
		go func() { done <- mirror.Run(c2, nil) }()
		t := time.NewTimer(time.Hour)
		defer t.Stop()
		select {
		case err := <-done:
			if err == nil {
				h.bad("M08", "a second run reported success while a run was in progress at %v", op)
			}
		case a := <-acted:
			h.bad("M08", "a second run acted while a run was in progress at %v: %s", op, a)
			return
		case <-t.C:
			h.bad("M08", "a second run waits instead of failing (at %v)", op)
			return
		}
		select {
		case a := <-acted:
			h.bad("M08", "a second run acted while a run was in progress at %v: %s", op, a)
		default:
		}
		h.hit = true
		h.c.Class("second run at " + op.Kind)
	}
}

// absent tells the files of a mirror that upstream denied in this run.
func (h *hist) absent(m int) func(string) bool {
	return func(p string) bool {
		h.mu.Lock()
		defer h.mu.Unlock()
		q := h.faults[fmt.Sprintf("%d\x00%s", m, p)]
		return q != nil && (q.hits > 0 && q.kind == "404" || q.hits2 > 0 && q.then == "404")
	}
}

func (h *hist) anyStale(run map[int]bool) bool {
	for i := range run {
		for _, s := range h.ups[i].reps[h.cur[i]].Suites {
			if s.Stale > 0 || s.Skew {
				return true
			}
		}
	}
	return false
}

// listsAny: does any parsable release file of the suite list something?
func (u *upstream) listsAny(st *state, n int) bool {
	for bit, name := range relNames {
		p := dirJoin(suiteDir(u.m.Flat, n), name)
		if b, ok := st.files[p]; ok && bit != 1 && len(u.rel[key(p, b)].recs) > 0 {
			return true
		}
	}
	return false
}

// isIndexPath: is p listed by a release file of the state?
func isIndexPath(u *upstream, st *state, p string) bool {
	_, _, ok := u.listing(st, p)
	return ok
}

func (u *upstream) listing(st *state, p string) (relInfo, int, bool) {
	var ri relInfo
	n := 0
	for k, r := range u.rel {
		i := strings.Index(k, "\x00")
		if b, ok := st.files[k[:i]]; !ok || string(b) != k[i+1:] {
			continue
		}
		for _, rec := range r.recs {
			if rec.Path == p {
				n++
				ri = r
			}
		}
	}
	return ri, n, n > 0
}

// versions counts the different contents the release files list for p.
func (u *upstream) versions(st *state, p string) int {
	seen := map[string]bool{}
	for k, r := range u.rel {
		i := strings.Index(k, "\x00")
		if b, ok := st.files[k[:i]]; !ok || string(b) != k[i+1:] {
			continue
		}
		for _, rec := range r.recs {
			if rec.Path == p {
				seen[fmt.Sprint(rec)] = true
			}
		}
	}
	return len(seen)
}

func (h *hist) hasByhash(m int, st *state, p string) bool {
	u := h.ups[m]
	ri, _, ok := u.listing(st, p)
	if !ok || !ri.byhash {
		return false
	}
	_, offered := st.files[p]
	return offered
}

// logs checks what the requests of a run tell.
func (h *hist) logs(log []*simnet.Req, before map[int]*pub, lost, run map[int]bool, err error, max int, s Step, stricts map[int]*state, switched, failed bool) {
	for _, r := range log {
		if i, _ := h.locate(r); i < 0 || !run[i] {
			h.bad("M08 M03 M06", "request for %s %s, which no mirror of this run needs", r.Host, r.Path)
		}
		if r.Method != "GET" {
			h.bad("M03", "%s request", r.Method)
		}
	}
	for i := range run {
		n := simnet.MaxOverlap(log, time.Now(), func(r *simnet.Req) bool { m, _ := h.locate(r); return m == i })
		if max > 0 && n > max {
			h.bad("M10", "run %d had %d requests in progress with max_conns %d", h.runs, n, max)
		}
		if len(s.Delays) > 0 && max > 0 && s.Cancel == 0 && err == nil {
			want := max
			if want > 7 {
				want = 7 // every suite starts with seven files
			}
			if n < want {
				h.bad("M10", "run %d never had more than %d requests in progress with max_conns %d and enough to do", h.runs, n, max)
			}
		}
		h.c.ClassIf(n > 1, "parallel")
		h.c.ClassIf(max > 0 && n == max, "limit reached")
	}
	for _, r := range log {
		h.c.ClassIf(strings.Contains(r.Path, "/by-hash/"), "by-hash location used")
	}
	for k, rs := range h.attempts(log) {
		if failed {
			break // local failures count as failed attempts
		}
		m := int(k[0] - '0')
		if k[0] == '-' {
			continue
		}
		p := k[2:]
		if switched || h.ups[m].versions(h.state(m), p) > 1 {
			continue // several versions of p are wanted
		}
		if len(rs) > 6 {
			h.bad("M06 M10", "%q was requested %d times in one run", p, len(rs))
		}
		for j := 2; j < len(rs); j++ {
			if g1, g2 := rs[j-1].Start.Sub(rs[j-2].End), rs[j].Start.Sub(rs[j-1].End); g2 <= g1 || g1 <= 0 {
				h.bad("M06", "pauses between attempts for %q do not grow: %v then %v", p, g1, g2)
			}
		}
		for j, r := range rs {
			if r.Complete && j < len(rs)-1 {
				h.bad("M06 M05", "%q was requested again after a complete answer", p)
			}
		}
		if rel := isRelName(p) && !strings.Contains(p, "binary-"); rel || before[m] == nil || switched {
			continue
		}
		// unchanged files are not fetched again
		b, ok := before[m].tree[p]
		var now []byte
		if ok && stricts[m] != nil {
			now, ok = stricts[m].files[p]
		}
		if ok && stricts[m] != nil && string(b) == string(now) && !strings.Contains(p, "/by-hash/") {
			skew := false
			for _, su := range h.ups[m].reps[h.cur[m]].Suites {
				skew = skew || su.Skew || su.Stale > 0
			}
			if !skew && !h.skews[before[m].dir] && !lost[m] {
				h.bad("M05", "run %d fetched %q again, which the published version already had", h.runs, p)
			}
		}
	}
}
