package mirrorp

import (
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/pk"
)

// The shipped programs as processes, against an HTTP server on the loopback
// interface, run by an unprivileged user inside a scratch directory.

const nobody = 65534

const procLimit = 45 * time.Second

var progOnce sync.Once
var progDir string

// prog copies the programs to where the unprivileged user can run them.
func prog(name string) string {
	progOnce.Do(func() {
		src := os.Getenv("VERIF_PROGS")
		if src == "" {
			pk.Infra("VERIF_PROGS is not set")
		}
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			base = os.TempDir()
		} else if base != "/dev/shm" {
			os.Chmod(base, 0755)
		}
		d, err := os.MkdirTemp(base, "progs")
		if err != nil {
			pk.Infra("%v", err)
		}
		os.Chmod(d, 0755)
		for _, n := range []string{"go-apt-mirror", "go-apt-cacher"} {
			b, err := os.ReadFile(filepath.Join(src, n))
			if err == nil {
				err = os.WriteFile(filepath.Join(d, n), b, 0755)
			}
			if err != nil {
				pk.Infra("%v", err)
			}
		}
		progDir = d
	})
	return filepath.Join(progDir, name)
}

// pscratch makes a scratch directory that belongs to the unprivileged user.
func pscratch() (string, func()) {
	d, clean := scratch()
	own(d)
	return d, clean
}

func own(p string) {
	if os.Geteuid() == 0 {
		if err := os.Chown(p, nobody, nobody); err != nil {
			pk.Infra("%v", err)
		}
	}
}

// proc is a running program.
type proc struct {
	cmd  *exec.Cmd
	out  *bytes.Buffer
	done chan error
}

func start(dir string, env []string, name string, args ...string) *proc {
	c := exec.Command(prog(name), args...)
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "CANCELLATION_DELAY_SECONDS=0", "no_proxy="}, env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if os.Geteuid() == 0 {
		c.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}
	}
	p := &proc{cmd: c, out: new(bytes.Buffer), done: make(chan error, 1)}
	c.Stdout, c.Stderr = p.out, p.out
	for i := 0; ; i++ {
		err := c.Start()
		if err == nil {
			break
		}
		if i < 20 && errors.Is(err, syscall.ETXTBSY) {
			time.Sleep(20 * time.Millisecond)
			c2 := *c
			c = &c2
			p.cmd = c
			continue
		}
		pk.Infra("start %s: %v", name, err)
	}
	go func() { p.done <- c.Wait() }()
	return p
}

// wait gives the exit code; ok is false when the program had to be killed.
func (p *proc) wait(d time.Duration) (code int, ok bool) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-p.done:
		p.done <- nil
		return p.cmd.ProcessState.ExitCode(), true
	case <-t.C:
		p.kill()
		return -1, false
	}
}

func (p *proc) kill() {
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	<-p.done
	p.done <- nil
}

// reachesTest tells what a crashing program would print.
func (p *proc) crashed() bool {
	s := p.out.String()
	return strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "SIGSEGV")
}

func (p *proc) tail() string {
	s := p.out.String()
	if len(s) > 1500 {
		s = s[:500] + " ... " + s[len(s)-1000:]
	}
	return s
}

var ports struct {
	mu   sync.Mutex
	next int
}

// listen takes a port that nobody else is going to take once it is free again: checks run beside
// each other, so every process has a loopback address of its own, and no port is used twice.
func listen() net.Listener {
	ports.mu.Lock()
	defer ports.mu.Unlock()
	if ports.next == 0 {
		ports.next = 2000 + int(time.Now().UnixNano()/1000%28000)
	}
	pid := os.Getpid()
	var last error
	for i := 0; i < 1000; i++ {
		if ports.next++; ports.next > 60000 {
			ports.next = 2000
		}
		ln, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:%d", 1+pid>>16&63, pid>>8&255, pid&255, ports.next))
		if err == nil {
			return ln
		}
		last = err
	}
	pk.Infra("listen: %v", last)
	return nil
}

// web is the upstream server.
type web struct {
	ln  net.Listener
	srv *http.Server
	mu  sync.Mutex
	h   func(w http.ResponseWriter, r *http.Request)
}

func newWeb(h func(w http.ResponseWriter, r *http.Request)) *web {
	ln := listen()
	w := &web{ln: ln, h: h}
	w.srv = &http.Server{Handler: http.HandlerFunc(h), ErrorLog: nil}
	go w.srv.Serve(ln)
	return w
}

func (w *web) addr() string { return w.ln.Addr().String() }
func (w *web) close()       { w.srv.Close() }

// site serves upstream models.
type site struct {
	*web
	mu    sync.Mutex
	ups   []*upstream
	cur   []int
	proxy bool
	style int // see wantsQuirk
	n     int
	paths map[string]int
	onReq func(n int, m int, p string, w http.ResponseWriter) bool // true: answered
	alien int                                                      // requests under other names
	inNow int
	inMax int
}

func newSite(mirs []Mir, proxy bool, style int) *site {
	s := &site{proxy: proxy, style: style, paths: map[string]int{}, cur: make([]int, len(mirs))}
	for i, m := range mirs {
		s.ups = append(s.ups, newUpstream(i, m))
	}
	s.web = newWeb(s.serve)
	return s
}

// wantsQuirk picks the files that the server delivers in a special way: bit 0
// of the style is content encoding, bit 1 redirects, bit 2 delivery in pieces.
func (s *site) wantsQuirk(bit int, p string) bool {
	h := fnv.New32a()
	fmt.Fprintf(h, "%d %s", bit, p)
	return s.style&(1<<bit) != 0 && h.Sum32()%5 < 2
}

const movedTo = "/moved.here"

func (s *site) serve(w http.ResponseWriter, r *http.Request) {
	m, p := -1, r.URL.Path
	moved := strings.HasPrefix(p, movedTo)
	p = strings.TrimPrefix(p, movedTo)
	if !moved && s.wantsQuirk(1, p) {
		to := *r.URL
		to.RawQuery = ""
		if s.proxy {
			to.Scheme, to.Host = "http", r.Host
		}
		to.Path = movedTo + p
		to.RawPath = ""
		codes := []int{301, 302, 307, 308}
		w.Header().Set("Location", to.String())
		w.WriteHeader(codes[len(p)%len(codes)])
		return
	}
	for i, u := range s.ups {
		if r.URL.IsAbs() || s.proxy {
			if r.Host == u.host() && strings.HasPrefix(p, u.basePath()) {
				m, p = i, p[len(u.basePath()):]
				break
			}
		} else if pre := fmt.Sprintf("/h%d", i) + u.basePath(); strings.HasPrefix(p, pre) {
			m, p = i, p[len(pre):]
			break
		}
	}
	s.mu.Lock()
	s.n++
	n := s.n
	s.inNow++
	if s.inNow > s.inMax {
		s.inMax = s.inNow
	}
	if m < 0 {
		s.alien++
	} else {
		s.paths[fmt.Sprintf("%d\x00%s", m, p)]++
	}
	f := s.onReq
	s.mu.Unlock()
	defer func() { s.mu.Lock(); s.inNow--; s.mu.Unlock() }()
	if m < 0 {
		http.Error(w, "unknown", 404)
		return
	}
	if f != nil && f(n, m, p, w) {
		return
	}
	s.mu.Lock()
	b, ok := s.ups[m].st[s.cur[m]].files[p]
	s.mu.Unlock()
	if !ok {
		http.Error(w, "no such file", 404)
		return
	}
	w.Header().Set("Content-Type", "application/octet-stream")
	if s.wantsQuirk(0, p) && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") && r.Header.Get("Range") == "" {
		w.Header().Set("Content-Encoding", "gzip")
		z := gzip.NewWriter(w)
		z.Write(b)
		z.Close()
		return
	}
	if s.wantsQuirk(2, p) {
		for len(b) > 1 {
			w.Write(b[:len(b)/2])
			b = b[len(b)/2:]
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		}
	}
	w.Write(b)
}

// env and url are how a program reaches the site.
func (s *site) env() []string {
	if s.proxy {
		return []string{"http_proxy=http://" + s.addr()}
	}
	return nil
}

func (s *site) url(i int) string {
	u := s.ups[i]
	if s.proxy {
		return u.url()
	}
	return strings.Replace(u.url(), "http://"+u.host(), fmt.Sprintf("http://%s/h%d", s.addr(), i), 1)
}

func (s *site) toml(md string, cfgs map[int]Cfg, max int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "dir = %q\n", md)
	if max >= 0 {
		fmt.Fprintf(&b, "max_conns = %d\n", max)
	}
	for i, u := range s.ups {
		if c, ok := cfgs[i]; ok {
			b.WriteString(strings.Replace(u.toml(c), fmt.Sprintf("%q", u.url()), fmt.Sprintf("%q", s.url(i)), 1))
		}
	}
	return b.String()
}

func writeFile(p, content string) {
	if err := os.WriteFile(p, []byte(content), 0644); err != nil {
		pk.Infra("%v", err)
	}
}

// PStep is one run of go-apt-mirror.
type PStep struct {
	K   string // ok deny kill term rival
	V   []int  // version of each upstream
	At  int    // at this request
	F   int    // deny: which item
	Ids int
	Max int
}

// PScen is a history of processes.
type PScen struct {
	Mirs  []Mir
	Proxy bool
	Style int // how the upstream delivers, see wantsQuirk
	Steps []PStep
}

func pscen(kinds []string, steps int) func(t *rapid.T) PScen {
	return func(t *rapid.T) PScen {
		s := PScen{Proxy: rapid.Bool().Draw(t, "proxy"), Style: rapid.IntRange(0, 7).Draw(t, "style")}
		for i := rapid.IntRange(1, 2).Draw(t, "mirs"); i > 0; i-- {
			s.Mirs = append(s.Mirs, mirGen(3, nil).Draw(t, "mir"))
		}
		for i := rapid.IntRange(1, steps).Draw(t, "steps"); i > 0; i-- {
			st := PStep{K: rapid.SampledFrom(kinds).Draw(t, "k"), At: 1 + pk.Uniform(t, "at", 40), F: pk.Uniform(t, "f", 200),
				Ids: rapid.IntRange(0, 3).Draw(t, "ids"), Max: rapid.SampledFrom([]int{-1, 0, 1, 2, 5}).Draw(t, "max")}
			for range s.Mirs {
				st.V = append(st.V, rapid.IntRange(0, 2).Draw(t, "v"))
			}
			s.Steps = append(s.Steps, st)
		}
		return s
	}
}

func (s PScen) exec(c *pk.C) error {
	top, clean := pscratch()
	defer clean()
	md := filepath.Join(top, "mirror")
	if err := os.Mkdir(md, 0755); err != nil {
		pk.Infra("%v", err)
	}
	own(md)
	st := newSite(s.Mirs, s.Proxy, s.Style)
	defer st.close()
	sm := &sim{dir: md, ups: st.ups, cur: st.cur}
	cfgs := map[int]Cfg{}
	for i, m := range s.Mirs {
		cfgs[i] = m.Cfg
	}
	conf := filepath.Join(top, "mirror.toml")
	steps := append(append([]PStep(nil), s.Steps...), PStep{K: "ok"}) // a healthy run ends every history
	pubs := map[int]*pub{}
	snapshot := func() (map[int]*pub, error) {
		m := map[int]*pub{}
		for i := range st.ups {
			p, err := sm.published(mirNames[i])
			if err != nil {
				return nil, fmt.Errorf("mirror %s: %v", mirNames[i], err)
			}
			if p != nil {
				m[i] = p
			}
		}
		return m, nil
	}
	for k, step := range steps {
		for i := range st.cur {
			if len(step.V) > i {
				st.mu.Lock()
				st.cur[i] = step.V[i]
				st.mu.Unlock()
			}
		}
		if k == 0 {
			step.Ids = 0
		}
		run := map[int]bool{}
		args := []string{"-f", conf}
		for i := range st.ups {
			if step.Ids&(1<<i) != 0 {
				run[i] = true
				args = append(args, mirNames[i])
			}
		}
		if len(run) == 0 {
			args = args[:2]
			for i := range st.ups {
				run[i] = true
			}
		}
		writeFile(conf, st.toml(md, cfgs, step.Max))
		conflict := false
		for i := range run {
			conflict = conflict || sm.conflicted(i, cfgs[i])
			for _, n := range st.ups[i].suites(cfgs[i]) {
				conflict = conflict || !st.ups[i].listsAny(sm.state(i), n)
			}
		}
		var denied string
		st.mu.Lock()
		st.n, st.alien, st.onReq, st.paths = 0, 0, nil, map[string]int{}
		st.mu.Unlock()
		reached := make(chan struct{})
		release := make(chan struct{})
		switch step.K {
		case "deny":
			// an item of the first mirror
			var l []string
			for _, p := range sm.state(0).order {
				if strings.HasPrefix(p, "pool") {
					l = append(l, p)
				}
			}
			if len(l) > 0 {
				denied = l[step.F%len(l)]
			}
			st.mu.Lock()
			st.onReq = func(n, m int, p string, w http.ResponseWriter) bool {
				if m == 0 && p == denied {
					http.Error(w, "no", 404)
					return true
				}
				return false
			}
			st.mu.Unlock()
		case "kill", "term", "rival":
			st.mu.Lock()
			st.onReq = func(n, m int, p string, w http.ResponseWriter) bool {
				if n == step.At {
					close(reached)
				}
				if n >= step.At {
					select {
					case <-release:
					case <-time.After(procLimit):
					}
				}
				return false
			}
			st.mu.Unlock()
		}
		pr := start(top, st.env(), "go-apt-mirror", args...)
		hit := false
		switch step.K {
		case "kill", "term", "rival":
			select {
			case <-reached:
				hit = true
			case err := <-pr.done:
				pr.done <- err
			case <-time.After(procLimit):
			}
		}
		if hit {
			c.Class(step.K)
			switch step.K {
			case "kill":
				pr.kill()
				close(release)
			case "term":
				syscall.Kill(pr.cmd.Process.Pid, syscall.SIGTERM)
				if step.At%2 == 0 {
					// requests stay pending
					_, ok := pr.wait(procLimit / 2)
					close(release)
					if !ok {
						pr.kill()
						return fmt.Errorf("step %d: go-apt-mirror did not end on SIGTERM while requests were pending\n%s", k, pr.tail())
					}
					c.Class("SIGTERM with requests pending")
				} else {
					time.Sleep(5 * time.Millisecond)
					close(release)
				}
			case "rival":
				err := s.rival(st, sm, md, top, cfgs)
				close(release)
				if err != nil {
					pr.kill()
					return fmt.Errorf("step %d: %v", k, err)
				}
			}
		}
		code, ok := pr.wait(procLimit)
		if !ok {
			return fmt.Errorf("step %d (%s): go-apt-mirror did not end\n%s", k, step.K, pr.tail())
		}
		if pr.crashed() {
			return fmt.Errorf("step %d (%s): go-apt-mirror crashed\n%s", k, step.K, pr.tail())
		}
		st.mu.Lock()
		alien, hits := st.alien, st.paths["0\x00"+denied]
		st.mu.Unlock()
		if alien > 0 {
			return fmt.Errorf("step %d: %d requests outside the repositories", k, alien)
		}
		now, err := snapshot()
		if err != nil {
			return fmt.Errorf("step %d (%s): %v", k, step.K, err)
		}
		stopped := hit && step.K != "rival"
		switch {
		case stopped:
		case denied != "" && hits > 0:
			c.Class("item denied")
			if code == 0 {
				return fmt.Errorf("step %d: exit status 0 although %q could not be obtained", k, denied)
			}
			if d := samePub(pubs[0], now[0]); d != "" {
				return fmt.Errorf("step %d: the failed run changed the mirror: %s", k, d)
			}
		case conflict:
		case code != 0:
			return fmt.Errorf("step %d (%s): exit status %d although everything was available\n%s", k, step.K, code, pr.tail())
		}
		for i := range st.ups {
			d := samePub(pubs[i], now[i])
			switch {
			case d == "":
				if run[i] && code == 0 && !stopped {
					return fmt.Errorf("step %d: success, but mirror %s was not updated", k, mirNames[i])
				}
			case !run[i]:
				return fmt.Errorf("step %d: mirror %s, not named, changed: %s", k, mirNames[i], d)
			case now[i] == nil || pubs[i] != nil && pubs[i].target == now[i].target:
				return fmt.Errorf("step %d: mirror %s changed in place: %s", k, mirNames[i], d)
			default:
				var strict *state
				if !stopped && code == 0 {
					strict = sm.state(i)
				}
				if e := st.ups[i].judge(cfgs[i], now[i].tree, strict, nil); e != nil {
					return fmt.Errorf("step %d (%s): published mirror %s: %v", k, step.K, mirNames[i], e)
				}
			}
		}
		if !stopped {
			links := map[string]bool{}
			for i := range now {
				links[mirNames[i]] = true
			}
			if e := sm.listing(links); e != nil {
				return fmt.Errorf("after step %d (%s): %v", k, step.K, e)
			}
		}
		pubs = now
		c.NonTrivialIf(code == 0 && k > 0 || hit)
	}
	return nil
}

// rival starts a second process while the first one is at work.
func (s PScen) rival(st *site, sm *sim, md, top string, cfgs map[int]Cfg) error {
	conf := filepath.Join(top, "rival.toml")
	other := newSite(s.Mirs, false, 0)
	defer other.close()
	writeFile(conf, other.toml(md, cfgs, 3))
	names := func() string {
		ents, err := os.ReadDir(md)
		if err != nil {
			pk.Infra("%v", err)
		}
		var l []string
		for _, e := range ents {
			// The first process may still be publishing a mirror whose
			// requests are done, so links come and go; the dated directories
			// all exist before its first request.
			if e.IsDir() {
				l = append(l, e.Name())
			}
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	n := names()
	pr := start(top, nil, "go-apt-mirror", "-f", conf)
	code, ok := pr.wait(procLimit)
	switch {
	case !ok:
		return fmt.Errorf("a second process waits instead of failing")
	case code == 0:
		return fmt.Errorf("a second process succeeded while the first was at work")
	case other.n > 0:
		return fmt.Errorf("a second process contacted upstream while the first was at work")
	case names() != n:
		return fmt.Errorf("a second process changed the directory: %s, before %s", names(), n)
	}
	return nil
}

func progLeg(name string, kinds []string, steps int) func(t *testing.T) {
	return func(t *testing.T) {
		pk.Check(t, name, pscen(kinds, steps), func(c *pk.C, s PScen) error { return s.exec(c) })
	}
}

func TestX02_mirror(t *testing.T) { progLeg("X02_mirror", []string{"ok", "ok", "deny", "term"}, 2)(t) }
func TestM13_proc(t *testing.T)   { progLeg("M13_proc", []string{"kill", "kill", "ok"}, 2)(t) }
func TestM08_proc(t *testing.T)   { progLeg("M08_proc", []string{"rival"}, 1)(t) }

// ---- go-apt-cacher

// CScen is a session with go-apt-cacher.
type CScen struct {
	Mirs    []Mir
	Proxy   bool
	Style   int
	Chain   bool // go-apt-mirror in between
	Order   int
	Par     int
	Restart bool
	Hang    bool
	Max     int
	Fresh   int // check_interval 1 and this cache_period, when not negative
}

// shuffle is a deterministic permutation.
func shuffle(l []string, seed int) []string {
	out := append([]string(nil), l...)
	x := uint32(seed)*2654435761 + 12345
	for i := len(out) - 1; i > 0; i-- {
		x = x*1664525 + 1013904223
		j := int(x>>8) % (i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type cachers struct {
	top, conf string
	env       []string
	pr        *proc
	addr      string
}

// up starts go-apt-cacher and waits until it answers.
func (k *cachers) up(write func(addr string)) error {
	for try := 0; ; try++ {
		ln := listen()
		k.addr = ln.Addr().String()
		ln.Close()
		write(k.addr)
		k.pr = start(k.top, k.env, "go-apt-cacher", "-f", k.conf)
		end := time.Now().Add(procLimit)
		for time.Now().Before(end) {
			cn, err := net.Dial("tcp", k.addr)
			if err == nil {
				cn.Close()
				return nil
			}
			select {
			case e := <-k.pr.done:
				k.pr.done <- e
				if try < 5 && strings.Contains(k.pr.out.String(), "address already in use") {
					goto again
				}
				return fmt.Errorf("go-apt-cacher ended at once: %s", k.pr.tail())
			case <-time.After(5 * time.Millisecond):
			}
		}
		k.pr.kill()
		return fmt.Errorf("go-apt-cacher does not listen on %s", k.addr)
	again:
	}
}

func (k *cachers) get(prefix, p string) (int, []byte, error) {
	u := &url.URL{Scheme: "http", Host: k.addr, Path: "/" + prefix + "/" + p}
	ctx, cancel := context.WithTimeout(context.Background(), procLimit)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, "GET", u.String(), nil)
	if err != nil {
		pk.Infra("%v", err)
	}
	tr := &http.Transport{DisableKeepAlives: true, DisableCompression: true}
	resp, err := tr.RoundTrip(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

// term stops the program politely.
func (k *cachers) term() error {
	syscall.Kill(k.pr.cmd.Process.Pid, syscall.SIGTERM)
	code, ok := k.pr.wait(procLimit)
	if !ok {
		return fmt.Errorf("go-apt-cacher did not exit on SIGTERM\n%s", k.pr.tail())
	}
	if k.pr.crashed() {
		return fmt.Errorf("go-apt-cacher crashed\n%s", k.pr.tail())
	}
	if code != 0 {
		return fmt.Errorf("go-apt-cacher exited with status %d on SIGTERM\n%s", code, k.pr.tail())
	}
	return nil
}

func TestX02_cacher(t *testing.T) {
	pk.Check(t, "X02_cacher", func(t *rapid.T) CScen {
		s := CScen{Proxy: rapid.Bool().Draw(t, "proxy"), Style: rapid.IntRange(0, 7).Draw(t, "style"), Chain: rapid.Bool().Draw(t, "chain"), Order: rapid.IntRange(0, 1000).Draw(t, "order"),
			Par: rapid.SampledFrom([]int{1, 4, 10}).Draw(t, "par"), Restart: rapid.Bool().Draw(t, "restart"), Hang: pk.Odds(t, "hang", 3),
			Max: rapid.SampledFrom([]int{0, 1, 3, 10}).Draw(t, "max"), Fresh: rapid.SampledFrom([]int{-1, -1, -1, -1, -1, 0, 3, 60}).Draw(t, "fresh")}
		for i := rapid.IntRange(1, 2).Draw(t, "mirs"); i > 0; i-- {
			m := mirGen(1, nil).Draw(t, "mir")
			for i := range m.Repo.Suites {
				m.Repo.Suites[i].Stale = 0 // upstream agrees with itself
			}
			s.Mirs = append(s.Mirs, m)
		}
		return s
	}, func(c *pk.C, s CScen) error { return s.exec(c) })
}

func (s CScen) exec(c *pk.C) error {
	top, clean := pscratch()
	defer clean()
	up := newSite(s.Mirs, s.Proxy, s.Style)
	defer up.close()
	// what the cacher's upstreams offer: prefix -> path -> content
	offer := map[string]map[string][]byte{}
	urls := map[string]string{}
	env := up.env()
	var closeAll []func()
	closeAll = append(closeAll, up.close)
	if s.Chain {
		md := filepath.Join(top, "mirror")
		os.Mkdir(md, 0755)
		own(md)
		cfgs := map[int]Cfg{}
		for i, m := range s.Mirs {
			cfgs[i] = m.Cfg
		}
		conf := filepath.Join(top, "mirror.toml")
		writeFile(conf, up.toml(md, cfgs, 4))
		sm := &sim{dir: md, ups: up.ups, cur: up.cur}
		for i := range s.Mirs {
			if sm.conflicted(i, cfgs[i]) {
				return nil
			}
			for _, n := range up.ups[i].suites(cfgs[i]) {
				if !up.ups[i].listsAny(sm.state(i), n) {
					return nil
				}
			}
		}
		pr := start(top, up.env(), "go-apt-mirror", "-f", conf)
		if code, ok := pr.wait(procLimit); !ok || code != 0 {
			return fmt.Errorf("go-apt-mirror: exit status %d\n%s", code, pr.tail())
		}
		front := newWeb(func(w http.ResponseWriter, r *http.Request) {
			// like a web server whose root is the mirror directory
			f, err := os.Open(filepath.Join(md, filepath.FromSlash(strings.TrimPrefix(r.URL.Path, "/"))))
			if err != nil {
				http.Error(w, "not found", 404)
				return
			}
			defer f.Close()
			if st, err := f.Stat(); err != nil || st.IsDir() {
				http.Error(w, "not found", 404)
				return
			}
			io.Copy(w, f)
		})
		defer front.close()
		closeAll = append(closeAll, front.close)
		for i := range s.Mirs {
			p, err := sm.published(mirNames[i])
			if err != nil || p == nil {
				return fmt.Errorf("mirror %s was not published: %v", mirNames[i], err)
			}
			if e := up.ups[i].judge(cfgs[i], p.tree, sm.state(i), nil); e != nil {
				return fmt.Errorf("published mirror %s: %v", mirNames[i], e)
			}
			offer[mirNames[i]] = p.tree
			urls[mirNames[i]] = "http://" + front.addr() + "/" + mirNames[i]
		}
		env = nil
	} else {
		for i := range s.Mirs {
			offer[mirNames[i]] = up.ups[i].st[0].files
			urls[mirNames[i]] = up.url(i)
		}
	}
	meta, cache := filepath.Join(top, "spool", "meta"), filepath.Join(top, "spool", "cache")
	k := &cachers{top: top, conf: filepath.Join(top, "cacher.toml"), env: env}
	write := func(addr string) {
		var b strings.Builder
		fmt.Fprintf(&b, "listen_address = %q\nmeta_dir = %q\ncache_dir = %q\nmax_conns = %d\n", addr, meta, cache, s.Max)
		if s.Fresh >= 0 {
			fmt.Fprintf(&b, "check_interval = 1\ncache_period = %d\n", s.Fresh)
		}
		b.WriteString("[mapping]\n")
		for _, n := range sortedKeys(urls) {
			fmt.Fprintf(&b, "%s = %q\n", n, urls[n])
		}
		writeFile(k.conf, b.String())
	}
	if err := k.up(write); err != nil {
		return err
	}
	defer func() { k.pr.kill() }()
	var all []string
	for n, files := range offer {
		for p := range files {
			switch path.Ext(p) {
			case ".lzma", ".lz":
				continue // not supported for indices
			}
			all = append(all, n+"/"+p)
		}
	}
	sort.Strings(all)
	// files no index lists are not known after a restart
	listed := map[string]bool{}
	for i := range s.Mirs {
		files, n := offer[mirNames[i]], mirNames[i]+"/"
		for p, b := range files {
			if isRelName(p) {
				listed[n+p] = true
			}
			for _, r := range up.ups[i].rel[key(p, b)].recs {
				listed[n+r.Path] = true
			}
		}
		for p, b := range files {
			if info, ok := up.ups[i].idx[key(p, b)]; ok && listed[n+p] {
				for _, r := range info.recs {
					listed[n+r.Path] = true
				}
			}
		}
	}
	check := func(when string, order int, need map[string]bool) error {
		jobs := make(chan string)
		errs := make(chan error, s.Par)
		for i := 0; i < s.Par; i++ {
			go func() {
				var first error
				for x := range jobs {
					if first != nil {
						continue
					}
					n, p, _ := strings.Cut(x, "/")
					st, b, err := k.get(n, p)
					if need != nil && !need[x] && err == nil && st != 200 {
						continue
					}
					switch {
					case err != nil:
						first = fmt.Errorf("%s: %q of %s: %v\n%s", when, p, n, err, k.pr.tail())
					case st != 200 || !bytes.Equal(b, offer[n][p]):
						first = fmt.Errorf("%s: %q of %s: status %d, %d bytes, upstream has %d bytes (same %v)", when, p, n, st, len(b), len(offer[n][p]), bytes.Equal(b, offer[n][p]))
					}
				}
				errs <- first
			}()
		}
		for _, x := range shuffle(all, order) {
			jobs <- x
		}
		close(jobs)
		var err error
		for i := 0; i < s.Par; i++ {
			if e := <-errs; e != nil {
				err = e
			}
		}
		return err
	}
	if err := check("first", s.Order, nil); err != nil {
		return err
	}
	if st, _, err := k.get(mirNames[0], "no/such/file"); err != nil || st != 404 {
		return fmt.Errorf("a file upstream does not have: status %d, %v", st, err)
	}
	if st, _, err := k.get("unknown", "dists/stable/Release"); err != nil || st != 404 {
		return fmt.Errorf("an unknown prefix: status %d, %v", st, err)
	}
	hung := make(chan struct{}, 10)
	if s.Hang && !s.Chain {
		up.mu.Lock()
		stop := make(chan struct{})
		defer close(stop)
		up.onReq = func(n, m int, p string, w http.ResponseWriter) bool {
			if p == "hanging" {
				hung <- struct{}{}
				select {
				case <-stop:
				case <-time.After(2 * procLimit):
				}
				return true
			}
			return false
		}
		up.mu.Unlock()
		go k.get(mirNames[0], "hanging")
		select {
		case <-hung:
			c.Class("request pending at SIGTERM")
		case <-time.After(procLimit):
		}
		if err := k.term(); err != nil {
			return err
		}
		c.NonTrivial()
		return nil
	}
	for _, f := range closeAll {
		f()
	}
	if s.Fresh >= 0 {
		// the refreshes of the indices fail meanwhile
		time.Sleep(1300 * time.Millisecond)
		c.Class("failing refreshes")
	}
	if err := check("with upstream gone", s.Order+1, nil); err != nil {
		return err
	}
	if err := k.term(); err != nil {
		return err
	}
	if s.Restart {
		if err := k.up(write); err != nil {
			return err
		}
		if err := check("restarted with upstream gone", s.Order+2, listed); err != nil {
			return err
		}
		if err := k.term(); err != nil {
			return err
		}
		c.Class("restarted")
	}
	c.ClassIf(s.Chain, "behind go-apt-mirror")
	c.NonTrivialIf(len(all) > 3)
	return nil
}
