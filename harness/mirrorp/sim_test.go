package mirrorp

import (
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/cybozu-go/aptutil/mirror"
	"github.com/cybozu-go/log"
	"github.com/cybozu-go/well"

	"verifharness/idx"
	"verifharness/pk"
	"verifharness/simnet"
)

func TestMain(m *testing.M) {
	syscall.Umask(022)
	log.DefaultLogger().SetOutput(io.Discard)
	log.DefaultLogger().SetThreshold(0)
	os.Exit(m.Run())
}

// scratch makes a fresh directory for one case.
func scratch() (string, func()) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		pk.Infra("scratch: %v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

// waitFor runs f in a goroutine and gives it d of virtual time.
func waitFor(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

// Fault disturbs the upstream requests for one file during one run.
type Fault struct {
	M    int // mirror
	F    int // file number, see faultPath
	Kind string
	N    int    // how many requests in a row (0: all)
	Then string `json:",omitempty"` // what happens to all later ones
}

// retried failures, and others
var softKinds = []string{"refuse", "500", "trunc", "503", "truncchunk", "garbage", "502", "599", "504", "501"}
var hardKinds = []string{"wrong", "404", "404", "404", "short", "403", "410", "empty", "long", "204", "206", "401", "429", "300"}

func soft(k string) bool { return in(softKinds, k) }

type faultQ struct {
	kind  string
	n     int
	hits  int
	then  string
	hits2 int // of the second kind
}

// sim is a mirror directory with its upstreams.
type sim struct {
	dir     string // mirror directory
	ups     []*upstream
	cur     []int
	net     *simnet.Net
	restore func()

	mu     sync.Mutex
	faults map[string]*faultQ // mirror number NUL path
	delays []int
	minPre time.Duration
	hold   func(r *simnet.Req) bool // hang this request
	onReq  func(n int)
	nreq   int
	chunk  bool
	fresh  func(m int, p string) bool // is not in the published version
}

func newSim(dir string, mirs []Mir) *sim {
	s := &sim{dir: dir, faults: map[string]*faultQ{}}
	for i, m := range mirs {
		s.ups = append(s.ups, newUpstream(i, m))
	}
	s.cur = make([]int, len(mirs))
	s.net = simnet.New(s.answer)
	s.net.SetLimit(20000)
	s.restore = s.net.Install()
	return s
}

func (s *sim) state(m int) *state { return s.ups[m].st[s.cur[m]] }

// locate maps a request to a mirror and the path inside its repository.
func (s *sim) locate(r *simnet.Req) (int, string) {
	for i, u := range s.ups {
		if r.Host == u.host() && strings.HasPrefix(r.Path, u.basePath()) {
			return i, r.Path[len(u.basePath()):]
		}
	}
	return -1, ""
}

func (s *sim) answer(r *simnet.Req) simnet.Resp {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.nreq++
	if s.onReq != nil {
		s.onReq(s.nreq)
	}
	m, p := s.locate(r)
	if m < 0 || r.Query != "" {
		return simnet.Resp{Status: 404, Body: []byte("unknown")}
	}
	resp := simnet.Resp{}
	if b, ok := s.state(m).files[p]; ok {
		resp.Body = b
	} else {
		resp.Status, resp.Body = 404, []byte("no such file")
	}
	h := fnv.New32a()
	h.Write([]byte(p))
	resp.Pre = s.minPre
	if len(s.delays) > 0 {
		d := s.delays[int(h.Sum32()%uint32(len(s.delays)))]
		resp.Pre += time.Duration(d) * time.Millisecond
		resp.Mid = time.Duration(d%3) * time.Millisecond
	}
	if s.chunk && len(resp.Body) > 0 {
		resp.Mode = simnet.Chunked
	}
	if q := s.faults[fmt.Sprintf("%d\x00%s", m, p)]; q != nil && (q.n == 0 || q.hits < q.n) {
		q.hits++
		spoil(&resp, q.kind, p)
	} else if q != nil && q.then != "" {
		q.hits2++
		spoil(&resp, q.then, p)
	}
	if s.hold != nil && s.hold(r) {
		resp.Mode = simnet.Hang
	}
	return resp
}

func spoil(r *simnet.Resp, kind, p string) {
	b := r.Body
	switch kind {
	case "refuse":
		r.Mode = simnet.Refuse
	case "garbage":
		r.Mode = simnet.Garbage
	case "trunc":
		r.Mode = simnet.Trunc
	case "truncchunk":
		r.Mode = simnet.TruncChunk
	case "wrong", "short", "long", "empty":
		r.Status = 0
		n := len(b)
		switch kind {
		case "short":
			n = n / 2
		case "long":
			n += 7
		case "empty":
			n = 0
		}
		if kind == "wrong" && n == 0 {
			n = 3
		}
		nb := make([]byte, n)
		for i := range nb {
			nb[i] = 'z'
		}
		if !isRelName(p) && kind != "empty" {
			copy(nb, b)
			if kind == "wrong" && len(b) > 0 {
				nb[len(b)/2] ^= 1
			}
			if kind == "wrong" && len(b) == 0 || kind == "long" {
				nb[n-1] = '?'
			}
			if kind == "short" && len(b) < 2 {
				nb = []byte("zz")
			}
		}
		if isRelName(p) && kind == "empty" {
			nb = []byte("z")
		}
		if string(nb) == string(b) {
			nb = []byte("zzz")
		}
		r.Body = nb
	default:
		fmt.Sscan(kind, &r.Status)
		if r.Status != 206 {
			r.Body = []byte("error page " + kind)
		}
	}
}

func (s *sim) setFaults(fs []Fault) map[string]*faultQ {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.faults = map[string]*faultQ{}
	for _, f := range fs {
		m := f.M % len(s.ups)
		p := s.faultPath(m, f.F)
		if strings.HasSuffix(p, "Release.gpg") && !soft(f.Kind) && f.Kind[0] != '4' {
			f.Kind = "404" // other content could not be told from the right one
		}
		if !soft(f.Kind) || f.N == 0 || strings.HasSuffix(p, "Release.gpg") {
			f.Then = ""
		}
		k := fmt.Sprintf("%d\x00%s", m, p)
		if _, ok := s.faults[k]; !ok {
			s.faults[k] = &faultQ{kind: f.Kind, n: f.N, then: f.Then}
		}
	}
	return s.faults
}

// faultPath picks a file of the current version, needed ones mostly.
func (s *sim) faultPath(m, f int) string {
	st, u := s.state(m), s.ups[m]
	var rel, ind, items []string
	for _, p := range st.order {
		switch {
		case isRelName(p) && !strings.Contains(p, "binary-"):
			rel = append(rel, p)
		case strings.Contains(p, "/by-hash/"):
		case strings.HasPrefix(p, "dists/") || u.m.Flat && (strings.Contains(p, "Packages") || strings.Contains(p, "Sources")):
			ind = append(ind, p)
		default:
			items = append(items, p)
		}
	}
	l := [][]string{ind, rel, items, items}[f%4]
	if f%4 == 3 && s.fresh != nil {
		var l2 []string
		for _, p := range l {
			if s.fresh(m, p) {
				l2 = append(l2, p)
			}
		}
		if l2 != nil {
			l = l2
		}
	}
	if len(l) == 0 {
		l = st.order
	}
	return l[(f/4)%len(l)]
}

// config decodes the TOML rendering of a configuration.
func (s *sim) config(cfgs map[int]Cfg, max int) *mirror.Config {
	var b strings.Builder
	fmt.Fprintf(&b, "dir = %q\n", s.dir)
	if max >= 0 {
		fmt.Fprintf(&b, "max_conns = %d\n", max)
	}
	for i, u := range s.ups {
		if c, ok := cfgs[i]; ok {
			b.WriteString(u.toml(c))
		}
	}
	c := mirror.NewConfig()
	md, err := toml.Decode(b.String(), c)
	if err != nil {
		pk.Infra("config: %v\n%s", err, b.String())
	}
	if len(md.Undecoded()) > 0 {
		pk.Infra("config keys: %v", md.Undecoded())
	}
	return c
}

// run runs the mirror command's core; ok is false when it never ended.
func (s *sim) run(c *mirror.Config, ids []string) (err error, ok bool) {
	well.VerifReset()
	ok = waitFor(240*time.Hour, func() { err = mirror.Run(c, ids) })
	return
}

// pub is what is published under a name.
type pub struct {
	target string
	dir    string // version directory (base name)
	tree   map[string][]byte

	unreadable string
}

// published reads a published link; nil when there is none.
func (s *sim) published(id string) (*pub, error) {
	l := filepath.Join(s.dir, id)
	t, err := os.Readlink(l)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, fmt.Errorf("published name %s is no link: %v", id, err)
	}
	st, err := os.Stat(l)
	if err != nil || !st.IsDir() {
		return nil, fmt.Errorf("published link %s leads nowhere (%s): %v", id, t, err)
	}
	p := &pub{target: t, tree: map[string][]byte{}}
	real, err := filepath.EvalSymlinks(l)
	if err != nil {
		return nil, err
	}
	p.dir = filepath.Base(filepath.Dir(real))
	err = readTree(real, "", p)
	return p, err
}

func readTree(d, rel string, out *pub) error {
	if st, err := os.Stat(d); err == nil && st.Mode().Perm()&0555 != 0555 {
		out.unreadable = rel
	}
	ents, err := os.ReadDir(d)
	if err != nil {
		return err
	}
	for _, e := range ents {
		r := rel + e.Name()
		switch {
		case e.IsDir():
			if err := readTree(filepath.Join(d, e.Name()), r+"/", out); err != nil {
				return err
			}
		case e.Type().IsRegular():
			b, err := os.ReadFile(filepath.Join(d, e.Name()))
			if err != nil {
				return err
			}
			out.tree[r] = b
			if st, err := e.Info(); err == nil && st.Mode().Perm()&0444 != 0444 {
				out.unreadable = r
			}
		default:
			return fmt.Errorf("%s is neither a file nor a directory", r)
		}
	}
	return nil
}

func sameTree(a, b map[string][]byte) string {
	for p := range a {
		if _, ok := b[p]; !ok {
			return fmt.Sprintf("%q is gone", p)
		}
	}
	for p, x := range b {
		y, ok := a[p]
		if !ok {
			return fmt.Sprintf("%q is new", p)
		}
		if string(x) != string(y) {
			return fmt.Sprintf("%q changed", p)
		}
	}
	return ""
}

func samePub(a, b *pub) string {
	switch {
	case a == nil && b == nil:
		return ""
	case a == nil:
		return "it was not published before"
	case b == nil:
		return "it is not published any more"
	case a.target != b.target:
		return fmt.Sprintf("the link went from %s to %s", a.target, b.target)
	}
	return sameTree(a.tree, b.tree)
}

// listing checks that the mirror directory holds only the lock file, links
// and the version directories they lead to, and that those hold only their
// tree and the saved records.
func (s *sim) listing(links map[string]bool) error {
	ents, err := os.ReadDir(s.dir)
	if err != nil {
		return err
	}
	use := map[string]string{}
	for _, e := range ents {
		if e.Type()&os.ModeSymlink != 0 {
			if !links[e.Name()] {
				return fmt.Errorf("left-over link %s", e.Name())
			}
			real, err := filepath.EvalSymlinks(filepath.Join(s.dir, e.Name()))
			if err != nil {
				return fmt.Errorf("link %s leads nowhere", e.Name())
			}
			use[filepath.Base(filepath.Dir(real))] = filepath.Base(real)
		}
	}
	for _, e := range ents {
		n := e.Name()
		if n == ".lock" || e.Type()&os.ModeSymlink != 0 {
			continue
		}
		sub, ok := use[n]
		if !ok {
			return fmt.Errorf("left-over %s", n)
		}
		in, err := os.ReadDir(filepath.Join(s.dir, n))
		if err != nil {
			return err
		}
		for _, x := range in {
			if x.Name() != sub && x.Name() != "info.json" {
				return fmt.Errorf("left-over %s in version directory %s", x.Name(), n)
			}
		}
	}
	return nil
}

// conflicted reports whether the current version contradicts itself: two
// indices that the configuration selects list different content for a path.
func (s *sim) conflicted(m int, c Cfg) bool {
	u, st := s.ups[m], s.state(m)
	items := map[string]idx.Rec{}
	bad := false
	for _, n := range u.suites(c) {
		dir := suiteDir(u.m.Flat, n)
		listed := map[string]bool{}
		var recs []idx.Rec
		byhash := map[string]bool{}
		for _, name := range relNames {
			p := dirJoin(dir, name)
			b, ok := st.files[p]
			if !ok {
				continue
			}
			for _, r := range u.rel[key(p, b)].recs {
				listed[r.Path] = true
				bh := u.rel[key(p, b)].byhash
				for _, q := range recs {
					bad = bad || !bh && q.Path == r.Path && q.Conflicts(r)
				}
				recs = append(recs, r)
				byhash[r.Path] = bh
			}
		}
		for _, r := range recs {
			b, ok := st.files[r.Path]
			if !ok || r.Same(idx.Of(r.Path, b)) {
				continue
			}
			// obtainable under a by-hash name, or not at all
			kept := false
			for _, q := range recs {
				if q.Path != r.Path || !byhash[r.Path] {
					continue
				}
				for _, n := range byhashNames(q) {
					b, ok := st.files[n]
					kept = kept || ok && r.Same(idx.Of(r.Path, b))
				}
			}
			bad = bad || !kept
		}
		for k, info := range u.idx {
			i := strings.Index(k, "\x00")
			p, body := k[:i], k[i+1:]
			hit := false
			for _, r := range recs {
				hit = hit || r.Path == p && r.Same(idx.Of(p, []byte(body)))
			}
			if !hit || !u.selects(c, info) {
				continue
			}
			for _, r := range info.recs {
				if listed[r.Path] {
					continue
				}
				b, ok := st.files[r.Path]
				if !ok || !r.Same(idx.Of(r.Path, b)) {
					bad = true
				}
				items[r.Path] = r
			}
		}
	}
	return bad
}

func dirJoin(a, b string) string {
	if a == "" {
		return b
	}
	return a + "/" + b
}

// attempts groups the requests of one run by mirror and path.
func (s *sim) attempts(log []*simnet.Req) map[string][]*simnet.Req {
	m := map[string][]*simnet.Req{}
	for _, r := range log {
		i, p := s.locate(r)
		k := fmt.Sprintf("%d\x00%s", i, p)
		m[k] = append(m[k], r)
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}
