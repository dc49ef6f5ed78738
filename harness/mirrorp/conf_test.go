package mirrorp

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/cybozu-go/aptutil/cacher"
	"github.com/cybozu-go/aptutil/mirror"
	"pgregory.net/rapid"

	"verifharness/idx"
	"verifharness/pk"
)

// Configuration files: valid ones with zero to two defects.

// table is a TOML table with its keys in order.
type table struct {
	name string
	keys []string
	val  map[string]string
}

func (t *table) set(k, v string) {
	if _, ok := t.val[k]; !ok {
		t.keys = append(t.keys, k)
	}
	t.val[k] = v
}

func (t *table) del(k string) {
	var l []string
	for _, x := range t.keys {
		if x != k {
			l = append(l, x)
		}
	}
	t.keys = l
	delete(t.val, k)
}

type document struct {
	tabs []*table
	raw  string // appended
}

func (d *document) tab(name string) *table {
	for _, t := range d.tabs {
		if t.name == name {
			return t
		}
	}
	t := &table{name: name, val: map[string]string{}}
	d.tabs = append(d.tabs, t)
	return t
}

func (d *document) rename(from, to string) {
	d.tab(from).name = to
}

func (d *document) String() string {
	var b strings.Builder
	for _, t := range d.tabs {
		if t.name != "" {
			fmt.Fprintf(&b, "[%s]\n", t.name)
		}
		for _, k := range t.keys {
			fmt.Fprintf(&b, "%s = %s\n", k, t.val[k])
		}
	}
	return b.String() + d.raw
}

func quote(s string) string { return fmt.Sprintf("%q", s) }

// Defect is something wrong in a configuration.
type Defect struct{ K, V int }

// XScen is a configuration and what is wrong with it.
type XScen struct {
	Cacher  bool
	Flat    bool
	Two     bool // a second, healthy mirror or prefix
	Named   bool // name the mirrors on the command line
	Old     bool // something has been published before
	Spell   int  // of directories
	Max     int
	Defects []Defect
	Log     int
}

var badKeys = []string{"unknown", "dirs", "max_conn", "max-conns", "suite", "urls", "logs", "listen_addr", "mirrors", "cache_cap", "architecture", "filenames"}
var badURLs = []string{"ftp://%s/u", "file:///u", "%s/u", "//%s/u", "httpx://%s/u", "://%s", "", "https+x://%s/u", "rsync://%s/u"}
var badIDs = []string{"Ubuntu", "a.b", "ubu ntu", "", "..", ".", "a/b", "ubuntu/", "ubuntu\n", "übuntu", "../x", "a+b"}
var badPrefixes = []string{"Ubuntu", "ubu ntu", "", "..", ".", "a/b", "ubuntu/", "ubuntu\n", "übuntu", "a+b", "a%41"}
var badRel = []string{"mirror", "./mirror", ".", "mirror/..", "../cwd/mirror", "mirror/"}

const (
	dKey = iota
	dLogKey
	dTabKey
	dTable
	dScheme
	dID
	dDir
	dRelDir
	dLimit
	dLog
	dType
	dSyntax
	dAbsent
	dURL     // mirror: no url; cacher: unparsable url
	dArg     // mirror: unknown name; cacher: same directories
	dSuites  // mirror: none; cacher: bad check_interval
	dMixed   // mirror: flat and not; cacher: bad cache_capacity
	dFlatSec // mirror: flat with sections or architectures; cacher: bad address
	nDefects
)

var defectNames = []string{"unknown key", "unknown log key", "unknown table key", "unknown table", "scheme", "identifier", "no directory", "relative directory",
	"negative limit", "log", "type", "syntax", "no file", "url", "argument or same directories", "suites or interval", "mixed suites or capacity", "flat sections or address"}

const nPool = 14

func TestX01_config(t *testing.T) {
	pk.Check(t, "X01_config", func(t *rapid.T) XScen {
		s := XScen{Cacher: rapid.Bool().Draw(t, "cacher"), Flat: pk.Odds(t, "flat", 3), Two: pk.Odds(t, "two", 3), Named: pk.Odds(t, "named", 3),
			Old: rapid.Bool().Draw(t, "old"), Spell: pk.Uniform(t, "spell", 6), Max: rapid.SampledFrom([]int{-1, -1, 0, 1, 2, 5}).Draw(t, "max"),
			Log: rapid.IntRange(0, 5).Draw(t, "log")}
		for n := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 1, 2}).Draw(t, "n"); n > 0; n-- {
			s.Defects = append(s.Defects, Defect{pk.Uniform(t, "k", nDefects), pk.Uniform(t, "v", 12)})
		}
		return s
	}, func(c *pk.C, s XScen) error { return s.exec(c) })
}

// tiny is an upstream with a flat or an ordinary suite.
func tiny(flat bool) map[string][]byte {
	files := map[string][]byte{}
	var recs []idx.Rec
	for i := 0; i < nPool; i++ {
		p := fmt.Sprintf("pool/p%02d.deb", i)
		b := []byte(fmt.Sprintf("deb number %d", i))
		files[p] = b
		recs = append(recs, idx.Of(p, b))
	}
	dir, rel := "dists/stable/", "main/binary-amd64/Packages"
	if flat {
		dir, rel = "", "Packages"
	}
	pkgs := idx.Packages(recs)
	files[dir+rel] = pkgs
	files[dir+"Release"] = idx.Release([]idx.Rec{idx.Of(rel, pkgs)}, "")
	return files
}

const logFile = "cwd/the.log"

// logged judges what a successful session wrote to its log.
func (s XScen) logged(top, out string) error {
	if s.Log == 4 {
		if b := readAll(filepath.Join(top, logFile)); !strings.Contains(b, "\n") {
			return fmt.Errorf("log.filename is given, but the file holds %q", b)
		}
		return nil
	}
	lines := 0
	for _, l := range strings.Split(out, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		lines++
		switch s.Log {
		case 2:
			var v map[string]interface{}
			if err := json.Unmarshal([]byte(l), &v); err != nil {
				return fmt.Errorf("log.format is json, but a line is %.300q", l)
			}
		case 3:
			if strings.Contains(l, "severity=info") || strings.Contains(l, "severity=debug") || strings.Contains(l, "severity=warn") {
				return fmt.Errorf("log.level is error, but a line is %.300q", l)
			}
		}
	}
	if lines == 0 && s.Log != 3 {
		return errors.New("nothing was logged")
	}
	return nil
}

// census lists everything below a directory.
func census(d string) map[string]string {
	m := map[string]string{}
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			pk.Infra("%v", err)
		}
		r, _ := filepath.Rel(d, p)
		switch {
		case fi.IsDir():
			m[r] = "directory"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[r] = "link to " + l
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				pk.Infra("%v", err)
			}
			m[r] = "file " + string(b)
		}
		return nil
	})
	return m
}

func (s XScen) doc(top, upAddr, addr string) (*document, []string) {
	d := &document{}
	g := d.tab("")
	spell := func(n string) string {
		p := filepath.Join(top, n)
		switch s.Spell {
		case 1:
			return p + "/"
		case 2:
			return filepath.Join(top) + "//" + n
		case 3:
			return filepath.Join(top) + "/./" + n + "/."
		case 4:
			return filepath.Join(top) + "/cwd/../" + n
		case 5:
			return filepath.Join(top, "link", n) // link -> .
		}
		return p
	}
	var args []string
	log := d.tab("log")
	switch s.Log {
	case 1:
		log.set("level", quote("debug"))
	case 2:
		log.set("format", quote("json"))
	case 3:
		log.set("level", quote("error"))
		log.set("format", quote("logfmt"))
	case 4:
		log.set("filename", quote(filepath.Join(top, logFile)))
	}
	if s.Cacher {
		g.set("listen_address", quote(addr))
		g.set("meta_dir", quote(spell("meta")))
		g.set("cache_dir", quote(spell("cache")))
		m := d.tab("mapping")
		m.set("ubuntu", quote("http://"+upAddr+"/up"))
		if s.Two {
			m.set("other.2", quote("http://"+upAddr+"/up/"))
			m.keys[len(m.keys)-1] = `"other.2"`
			m.val[`"other.2"`] = m.val["other.2"]
		}
	} else {
		g.set("dir", quote(spell("mirror")))
		ids := []string{"ubuntu"}
		if s.Two {
			ids = append(ids, "other_2")
		}
		for _, id := range ids {
			m := d.tab("mirror." + id)
			m.set("url", quote("http://"+upAddr+"/up"))
			if s.Flat {
				m.set("suites", `["/"]`)
			} else {
				m.set("suites", `["stable"]`)
				m.set("sections", `["main"]`)
				m.set("architectures", `["amd64"]`)
			}
			if s.Named {
				args = append(args, id)
			}
		}
	}
	if s.Max >= 0 {
		g.set("max_conns", fmt.Sprint(s.Max))
	}
	return d, args
}

// spoil puts a defect into a configuration; false: it does not apply.
func (s XScen) spoil(f Defect, d *document, args []string, upAddr string) ([]string, bool) {
	g, m := d.tab(""), (*table)(nil)
	if s.Cacher {
		m = d.tab("mapping")
	} else {
		m = d.tab("mirror.ubuntu")
	}
	key := badKeys[f.V%len(badKeys)]
	pick := func(l []string) string { return l[f.V%len(l)] }
	switch f.K {
	case dKey:
		g.set(key, []string{"1", `"x"`, "[]", "true"}[f.V%4])
	case dLogKey:
		d.tab("log").set(key, `"x"`)
	case dTabKey:
		if s.Cacher {
			g.set("x"+key, `"y"`)
		} else {
			m.set(key, []string{`"x"`, "[]", "true"}[f.V%3])
		}
	case dTable:
		d.tab("tab_"+strings.Replace(key, "-", "_", -1)).set("x", "1")
	case dScheme:
		u := pick(badURLs)
		if strings.Contains(u, "%s") {
			u = fmt.Sprintf(u, upAddr)
		}
		if s.Cacher {
			m.set("ubuntu", quote(u))
		} else {
			m.set("url", quote(u))
		}
	case dID:
		if s.Cacher {
			m.set(quote(pick(badPrefixes)), quote("http://"+upAddr+"/up"))
		} else {
			id := pick(badIDs)
			d.rename("mirror.ubuntu", "mirror."+quote(id))
			for i := range args {
				if args[i] == "ubuntu" {
					args[i] = id
				}
			}
		}
	case dDir:
		k := "dir"
		if s.Cacher {
			k = []string{"meta_dir", "cache_dir"}[f.V%2]
		}
		g.del(k)
		if f.V >= 6 {
			g.set(k, `""`)
		}
	case dRelDir:
		k := "dir"
		if s.Cacher {
			k = []string{"meta_dir", "cache_dir"}[f.V%2]
		}
		g.set(k, quote(pick(badRel)))
	case dLimit:
		g.set("max_conns", []string{"-1", "-10"}[f.V%2])
	case dLog:
		if f.V%2 == 0 {
			d.tab("log").set("level", quote("loud"))
		} else {
			d.tab("log").set("format", quote("xml"))
		}
	case dType:
		g.set("max_conns", pick([]string{`"10"`, "[1]", "1.5", "true", "{}"}))
	case dSyntax:
		d.raw += pick([]string{"x = \n", "[log\n", "= 1\n", "x = \"a\n", "]\n", "[log]\n[log]\n"})
	case dURL:
		if s.Cacher {
			m.set("ubuntu", quote(pick([]string{"http://[::1/u", "http://a b/", "http://h:port/", "%zz"})))
		} else if f.V%3 == 0 {
			m.set("url", quote(pick([]string{"http://[::1/u", "http://a b/", "http://h:port/", "%zz"})))
		} else {
			m.del("url")
		}
	case dArg:
		if s.Cacher {
			v := strings.Trim(g.val["meta_dir"], `"`)
			g.set("cache_dir", quote(v+[]string{"", "/", "/.", "//"}[f.V%4]))
		} else {
			args = append(args, pick([]string{"unknown", "", "ubuntu/", "UBUNTU", "../ubuntu", ".lock"}))
			if f.V%2 == 0 {
				args[0], args[len(args)-1] = args[len(args)-1], args[0]
			}
		}
	case dSuites:
		if s.Cacher {
			g.set("check_interval", pick([]string{"0", "-1", "-600"}))
		} else if f.V%2 == 0 {
			m.del("suites")
		} else {
			m.set("suites", "[]")
		}
	case dMixed:
		if s.Cacher {
			g.set("cache_capacity", pick([]string{"0", "-1", "-100"}))
		} else {
			m.set("suites", pick([]string{`["/", "stable"]`, `["stable", "/"]`, `["stable", "testing", "x/"]`, `["x/", "/", "testing"]`}))
			if f.V%3 == 0 {
				m.del("sections")
				m.del("architectures")
			}
		}
	case dFlatSec:
		if s.Cacher {
			g.set("listen_address", quote(pick([]string{"127.0.0.1:99999", "127.0.0.1", "nonsense:x", "192.0.2.1:3142"})))
		} else {
			m.set("suites", `["x/", "/"]`)
			m.del("sections")
			m.del("architectures")
			if f.V%3 != 0 {
				m.set("sections", `["main"]`)
			}
			if f.V%3 != 1 {
				m.set("architectures", `["amd64"]`)
			}
		}
	}
	return args, true
}

func (s XScen) exec(c *pk.C) error {
	top, clean := pscratch()
	defer clean()
	for _, n := range []string{"cwd", "cwd/mirror", "cwd/mirror/precious", "mirror"} {
		if err := os.Mkdir(filepath.Join(top, n), 0755); err != nil {
			pk.Infra("%v", err)
		}
		own(filepath.Join(top, n))
	}
	for _, n := range []string{"cwd/notes", "cwd/mirror/notes", "cwd/mirror/precious/data"} {
		writeFile(filepath.Join(top, n), "precious")
		own(filepath.Join(top, n))
	}
	if err := os.Symlink(".", filepath.Join(top, "link")); err != nil {
		pk.Infra("%v", err)
	}
	files := tiny(s.Flat)
	limit := s.Max
	if limit < 0 {
		limit = 10
	}
	if limit == 0 || limit > nPool {
		limit = nPool
	}
	bar := &barrier{}
	var mu sync.Mutex
	reqs := 0
	up := newWeb(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		reqs++
		mu.Unlock()
		p := strings.TrimPrefix(r.URL.Path, "/up/")
		b, ok := files[p]
		if !ok {
			http.Error(w, "no", 404)
			return
		}
		if strings.HasPrefix(p, "pool/") {
			bar.enter()
			defer bar.leave()
		}
		w.Write(b)
	})
	defer up.close()
	conf := filepath.Join(top, "conf.toml")
	name := "go-apt-mirror"
	if s.Cacher {
		name = "go-apt-cacher"
	}
	write := func(addr string) []string {
		d, args := s.doc(top, up.addr(), addr)
		writeFile(conf, d.String())
		return append([]string{"-f", conf}, args...)
	}
	cwd := filepath.Join(top, "cwd")
	if !s.Cacher && (s.Old || len(s.Defects) == 0) {
		if len(s.Defects) == 0 && !s.Two {
			bar.arm(limit)
		}
		pr := start(cwd, nil, name, write("")...)
		err := bar.judge(c, pr.done)
		code, ok := pr.wait(procLimit)
		switch {
		case err != nil:
			return fmt.Errorf("max_conns=%d (-1: not given): %v", s.Max, err)
		case !ok:
			return fmt.Errorf("a valid configuration: go-apt-mirror did not end\n%s", pr.tail())
		case code != 0 || pr.crashed():
			return fmt.Errorf("a valid configuration: exit status %d\n%s\n%s", code, readAll(conf), pr.tail())
		}
		for p, b := range files {
			g, err := os.ReadFile(filepath.Join(top, "mirror", "ubuntu", p))
			if err != nil || !bytes.Equal(g, b) {
				return fmt.Errorf("a valid configuration: file %q was not mirrored to dir: %v\n%s", p, err, readAll(conf))
			}
		}
		if err := s.logged(top, pr.out.String()); err != nil {
			return err
		}
	}
	if s.Cacher && (s.Old || len(s.Defects) == 0) {
		k := &cachers{top: cwd, conf: conf}
		if err := k.up(func(a string) { write(a) }); err != nil {
			return fmt.Errorf("a valid configuration: %v\n%s", err, readAll(conf))
		}
		err := s.session(c, k, bar, limit, files)
		if err == nil {
			err = k.term()
		} else {
			k.pr.kill()
		}
		if err != nil {
			return fmt.Errorf("max_conns=%d (-1: not given): %v\n%s", s.Max, err, readAll(conf))
		}
		if err := s.logged(top, k.pr.out.String()); err != nil {
			return err
		}
		for _, n := range []string{"meta", "cache"} {
			if len(census(filepath.Join(top, n))) < 2 {
				return fmt.Errorf("a valid configuration: nothing was stored in %s_dir", n)
			}
		}
	}
	if len(s.Defects) == 0 {
		c.Class("valid")
		c.NonTrivial()
		return nil
	}
	ln := listen()
	addr := ln.Addr().String()
	ln.Close()
	d, args := s.doc(top, up.addr(), addr)
	for _, f := range s.Defects {
		args, _ = s.spoil(f, d, args, up.addr())
	}
	absent := false
	for _, f := range s.Defects {
		absent = absent || f.K == dAbsent
		c.Class(defectNames[f.K])
	}
	if absent {
		os.Remove(conf)
	} else {
		writeFile(conf, d.String())
	}
	mu.Lock()
	reqs = 0
	mu.Unlock()
	before := census(top)
	pr := start(cwd, nil, name, append([]string{"-f", conf}, args...)...)
	code, ok := pr.wait(procLimit)
	mu.Lock()
	n := reqs
	mu.Unlock()
	what := fmt.Sprintf("%s %q with %v and the configuration\n%s", name, args, s.Defects, d)
	switch {
	case !ok:
		return fmt.Errorf("not refused: %s\n%s", what, pr.tail())
	case pr.crashed():
		return fmt.Errorf("crashed: %s\n%s", what, pr.tail())
	case code == 0:
		return fmt.Errorf("not refused: %s\n%s", what, pr.tail())
	case n > 0:
		return fmt.Errorf("contacted upstream before refusing: %s\n%s", what, pr.tail())
	}
	after := census(top)
	var diffs []string
	for p, v := range before {
		if after[p] != v && p != logFile {
			diffs = append(diffs, fmt.Sprintf("%s: %s, before %s", p, after[p], v))
		}
	}
	for p, v := range after {
		if _, ok := before[p]; ok {
			continue
		}
		base := filepath.Base(p)
		switch {
		case p == logFile:
		case !s.Cacher && base == ".lock" && v == "file ":
		case s.Cacher && v == "directory" && (p == "meta" || p == "cache"):
		default:
			diffs = append(diffs, fmt.Sprintf("%s: %s, new", p, v))
		}
	}
	if len(diffs) > 0 {
		sort.Strings(diffs)
		return fmt.Errorf("refused, but the file system changed (%s): %s", strings.Join(diffs, "; "), what)
	}
	c.NonTrivial()
	return nil
}

func readAll(p string) string {
	b, _ := os.ReadFile(p)
	return string(b)
}

// session sends more requests than there may be connections.
func (s XScen) session(c *pk.C, k *cachers, bar *barrier, limit int, files map[string][]byte) error {
	if st, b, err := k.get("ubuntu", relPath(s.Flat)); err != nil || st != 200 || !bytes.Equal(b, files[relPath(s.Flat)]) {
		return fmt.Errorf("Release: status %d, %v", st, err)
	}
	bar.arm(limit)
	errs := make(chan error, nPool)
	for i := 0; i < nPool; i++ {
		go func() {
			p := fmt.Sprintf("pool/p%02d.deb", i)
			st, b, err := k.get("ubuntu", p)
			if err != nil || st != 200 || !bytes.Equal(b, files[p]) {
				err = fmt.Errorf("%s: status %d, %v", p, st, err)
			}
			errs <- err
		}()
	}
	err := bar.judge(c, nil)
	for i := 0; i < nPool; i++ {
		if e := <-errs; e != nil && err == nil {
			err = e
		}
	}
	return err
}

func relPath(flat bool) string {
	if flat {
		return "Release"
	}
	return "dists/stable/Release"
}

// barrier holds requests until the expected number has come together.
type barrier struct {
	mu     sync.Mutex
	armed  bool
	want   int
	in     int
	max    int
	full   chan struct{}
	gate   chan struct{}
	opened bool
}

func (b *barrier) arm(want int) {
	b.armed, b.want, b.full, b.gate = true, want, make(chan struct{}), make(chan struct{})
}

func (b *barrier) enter() {
	b.mu.Lock()
	b.in++
	if b.in > b.max {
		b.max = b.in
		if b.armed && b.max == b.want {
			close(b.full)
		}
	}
	hold := b.armed
	b.mu.Unlock()
	if hold {
		<-b.gate
	}
}

func (b *barrier) leave() {
	b.mu.Lock()
	b.in--
	b.mu.Unlock()
}

// judge waits for the expected number of simultaneous requests and looks for more.
func (b *barrier) judge(c *pk.C, ended <-chan error) error {
	if !b.armed {
		return nil
	}
	var err error
	select {
	case <-b.full:
		time.Sleep(30 * time.Millisecond)
	case <-time.After(procLimit / 2):
		b.mu.Lock()
		err = fmt.Errorf("only %d simultaneous requests, expected %d", b.max, b.want)
		b.mu.Unlock()
	}
	close(b.gate)
	b.mu.Lock()
	b.armed = false
	if b.max > b.want && err == nil {
		err = fmt.Errorf("%d simultaneous requests, expected %d", b.max, b.want)
	}
	b.mu.Unlock()
	c.Class("limit measured")
	return err
}

// DScen is a subset of the keys with values.
type DScen struct {
	Cacher bool
	Keys   int
	N      []int
	S      []string
	L      []string
}

// TestX01_defaults decodes partial configurations over the defaults.
func TestX01_defaults(t *testing.T) {
	pk.Check(t, "X01_defaults", func(t *rapid.T) DScen {
		word := rapid.StringMatching(`[a-z0-9/._:-]{0,8}`)
		return DScen{Cacher: rapid.Bool().Draw(t, "cacher"), Keys: rapid.IntRange(0, 1<<11-1).Draw(t, "keys"),
			N: rapid.SliceOfN(rapid.IntRange(-3, 100000), 4, 4).Draw(t, "n"), S: rapid.SliceOfN(word, 8, 8).Draw(t, "s"),
			L: rapid.SliceOfN(word, 0, 3).Draw(t, "l")}
	}, func(c *pk.C, s DScen) error {
		var b strings.Builder
		key := func(i int, k string, v interface{}) bool {
			if s.Keys&(1<<i) == 0 {
				return false
			}
			switch x := v.(type) {
			case string:
				fmt.Fprintf(&b, "%s = %q\n", k, x)
			case []string:
				fmt.Fprintf(&b, "%s = %s\n", k, tomlList(x))
			default:
				fmt.Fprintf(&b, "%s = %v\n", k, x)
			}
			return true
		}
		c.NonTrivialIf(s.Keys&15 != 15 && s.Keys&15 != 0)
		if s.Cacher {
			want := &cacher.Config{Addr: ":3142", CheckInterval: 600, CachePeriod: 3, CacheCapacity: 1, MaxConns: 10}
			if key(0, "listen_address", s.S[0]) {
				want.Addr = s.S[0]
			}
			if key(1, "check_interval", s.N[0]) {
				want.CheckInterval = s.N[0]
			}
			if key(2, "cache_period", s.N[1]) {
				want.CachePeriod = s.N[1]
			}
			if key(3, "cache_capacity", s.N[2]) {
				want.CacheCapacity = s.N[2]
			}
			if key(4, "max_conns", s.N[3]) {
				want.MaxConns = s.N[3]
			}
			if key(5, "meta_dir", s.S[1]) {
				want.MetaDirectory = s.S[1]
			}
			if key(6, "cache_dir", s.S[2]) {
				want.CacheDirectory = s.S[2]
			}
			b.WriteString("[log]\n")
			if key(7, "level", s.S[3]) {
				want.Log.Level = s.S[3]
			}
			if key(8, "filename", s.S[4]) {
				want.Log.Filename = s.S[4]
			}
			b.WriteString("[mapping]\n")
			if key(9, "ubuntu", s.S[5]) {
				want.Mapping = map[string]string{"ubuntu": s.S[5]}
			}
			got := cacher.NewConfig()
			md, err := toml.Decode(b.String(), &got)
			if err != nil || len(md.Undecoded()) > 0 {
				return fmt.Errorf("cannot decode: %v %v\n%s", err, md.Undecoded(), b.String())
			}
			if want.Mapping == nil && len(got.Mapping) == 0 {
				got.Mapping = nil
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("decoded %+v, expected %+v", got, want)
			}
			return nil
		}
		want := &mirror.Config{MaxConns: 10}
		mc := &mirror.MirrConfig{}
		if key(0, "max_conns", s.N[0]) {
			want.MaxConns = s.N[0]
		}
		if key(1, "dir", s.S[0]) {
			want.Dir = s.S[0]
		}
		b.WriteString("[log]\n")
		if key(2, "format", s.S[1]) {
			want.Log.Format = s.S[1]
		}
		b.WriteString("[mirror.x-1]\n")
		if key(3, "suites", s.L) {
			mc.Suites = s.L
		}
		if key(4, "sections", s.L) {
			mc.Sections = s.L
		}
		if key(5, "architectures", s.L) {
			mc.Architectures = s.L
		}
		if key(6, "mirror_source", s.N[1]%2 == 0) {
			mc.Source = s.N[1]%2 == 0
		}
		u := "http://example.com/" + strings.Trim(s.S[2], "/.:")
		hasURL := key(7, "url", u)
		got := mirror.NewConfig()
		md, err := toml.Decode(b.String(), got)
		if err != nil || len(md.Undecoded()) > 0 {
			return fmt.Errorf("cannot decode: %v %v\n%s", err, md.Undecoded(), b.String())
		}
		g := got.Mirrors["x-1"]
		if g == nil {
			return fmt.Errorf("no mirror decoded from\n%s", b.String())
		}
		if hasURL {
			if r := g.Resolve("dists/a").String(); r != strings.TrimSuffix(u, "/")+"/dists/a" {
				return fmt.Errorf("%q leads to %q", u, r)
			}
		}
		same := func(a, b []string) bool { return strings.Join(a, "\n") == strings.Join(b, "\n") && len(a) == len(b) }
		if got.MaxConns != want.MaxConns || got.Dir != want.Dir || got.Log != want.Log || g.Source != mc.Source ||
			!same(g.Suites, mc.Suites) || !same(g.Sections, mc.Sections) || !same(g.Architectures, mc.Architectures) {
			return fmt.Errorf("decoded %+v %+v, expected %+v %+v", got, g, want, mc)
		}
		return nil
	})
}

var _ = io.EOF
var _ = syscall.SIGTERM
