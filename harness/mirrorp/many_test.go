package mirrorp

import (
	"fmt"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/cybozu-go/aptutil/mirror"
	"verifharness/fsx"
	"verifharness/idx"
	"verifharness/pk"
	"verifharness/simnet"
)

// ManyScen is a repository with as many files as real ones have (well, a
// thousandth of them), mirrored twice with some changes between.
type ManyScen struct {
	N, Secs, Archs int // items, sections, architectures
	Change         int // every Change-th item is another one in the second version (0: none)
	Drop           int // every Drop-th is gone
	Exts           int // bits: plain gz xz
	ByHash         bool
	Max            int
	Delay          int  // ms, varied by file
	Fail           int  // every Fail-th item needs a second attempt
	Lose           bool // one item cannot be obtained in the second run
	Salt           int
}

func manyGen(t *rapid.T) ManyScen {
	return ManyScen{
		N: 1 + pk.Uniform(t, "n", 400), Secs: 1 + pk.Uniform(t, "secs", 12), Archs: rapid.IntRange(1, 3).Draw(t, "archs"),
		Change: rapid.SampledFrom([]int{0, 1, 2, 5, 50}).Draw(t, "change"), Drop: rapid.SampledFrom([]int{0, 3, 20}).Draw(t, "drop"),
		Exts: rapid.IntRange(1, 7).Draw(t, "exts"), ByHash: rapid.Bool().Draw(t, "byhash"),
		Max:   rapid.SampledFrom([]int{10, 1, 0, 3, 64, 200}).Draw(t, "max"),
		Delay: rapid.SampledFrom([]int{5, 0, 1, 40}).Draw(t, "delay"), Fail: rapid.SampledFrom([]int{0, 0, 11, 60}).Draw(t, "fail"),
		Lose: pk.Odds(t, "lose", 4), Salt: rapid.IntRange(0, 50).Draw(t, "salt"),
	}
}

var manyArchs = []string{"amd64", "i386", "arm64"}

// render gives the files of version v, and those a full mirror has.
func (s ManyScen) render(v int) map[string][]byte {
	files := map[string][]byte{}
	lists := map[string][]idx.Rec{}
	for i := 0; i < s.N; i++ {
		if v > 0 && s.Drop > 0 && i%s.Drop == 1 {
			continue
		}
		tag := 0
		if v > 0 && s.Change > 0 && i%s.Change == 0 {
			tag = 1
		}
		sec, arch := i%s.Secs, (i/7)%s.Archs
		p := fmt.Sprintf("pool/s%d/%c/p%d/p%d_%d.deb", sec, 'a'+i%26, i, i, s.Salt)
		b := []byte(fmt.Sprintf("%04d %04d %s", i, tag, strings.Repeat("y", i%97)))
		files[p] = b
		k := fmt.Sprintf("s%d/binary-%s/Packages", sec, manyArchs[arch])
		lists[k] = append(lists[k], idx.Of(p, b))
	}
	var rel []idx.Rec
	for a := 0; a < s.Archs; a++ {
		for sec := 0; sec < s.Secs; sec++ {
			k := fmt.Sprintf("s%d/binary-%s/Packages", sec, manyArchs[a])
			text := idx.Packages(lists[k])
			for b, e := range []string{"", ".gz", ".xz"} {
				if s.Exts&(1<<b) == 0 {
					continue
				}
				body := idx.Compress(e, text)
				r := idx.Of(k+e, body)
				rel = append(rel, r)
				files["dists/x/"+k+e] = body
				if s.ByHash {
					dir := path.Dir("dists/x/" + k)
					files[dir+"/by-hash/SHA256/"+r.SHA256] = body
					files[dir+"/by-hash/SHA1/"+r.SHA1] = body
					files[dir+"/by-hash/MD5Sum/"+r.MD5] = body
				}
			}
		}
	}
	bh := ""
	if s.ByHash {
		bh = "yes"
	}
	files["dists/x/Release"] = idx.Release(rel, bh)
	return files
}

func (s ManyScen) exec(c *pk.C, md, tag string) error {
	vers := []map[string][]byte{s.render(0), s.render(1)}
	cur := 0
	lost := ""
	var mu sync.Mutex
	tries := map[string]int{}
	net := simnet.New(func(r *simnet.Req) simnet.Resp {
		mu.Lock()
		defer mu.Unlock()
		p := strings.TrimPrefix(r.Path, "/some/where/")
		d := time.Duration(s.Delay*(1+len(p)%3)) * time.Millisecond
		b, ok := vers[cur][p]
		if !ok || p == lost {
			return simnet.Resp{Status: 404, Body: []byte("no"), Pre: d}
		}
		tries[p]++
		if s.Fail > 0 && len(b)%s.Fail == 1 && tries[p] == 1 && strings.HasPrefix(p, "pool/") {
			return simnet.Resp{Status: 503, Body: []byte("later"), Pre: d}
		}
		return simnet.Resp{Body: b, Pre: d}
	})
	net.SetLimit(20000)
	defer net.Install()()
	fs := &fsx.FS{Root: md}
	fsx.Install(fs)
	defer fsx.Uninstall()
	sm := &sim{dir: md}
	bad := func(tags, f string, a ...interface{}) error {
		for _, t := range strings.Fields(tags) {
			if t == tag {
				return fmt.Errorf(f, a...)
			}
		}
		return errOther
	}
	seen := 0
	run := func() (error, []*simnet.Req, bool) {
		time.Sleep(3 * time.Second)
		mu.Lock()
		tries = map[string]int{}
		mu.Unlock()
		cf := mirror.NewConfig()
		cf.Dir, cf.MaxConns = md, s.Max
		m := &mirror.MirrConfig{Suites: []string{"x"}, Architectures: manyArchs[:s.Archs]}
		for i := 0; i < s.Secs; i++ {
			m.Sections = append(m.Sections, fmt.Sprintf("s%d", i))
		}
		u, _ := url.Parse("http://many.example/some/where/")
		m.URL.URL = u
		cf.Mirrors = map[string]*mirror.MirrConfig{"ubuntu": m}
		err, ok := sm.run(cf, nil)
		time.Sleep(time.Minute)
		l := net.Log()
		l, seen = l[seen:], len(l)
		return err, l, ok
	}
	for k := 0; k < 2; k++ {
		mu.Lock()
		cur = k
		before, err := sm.published("ubuntu")
		if err != nil {
			mu.Unlock()
			return bad("M01 M02 M03", "before run %d: %v", k+1, err)
		}
		fetch := map[string]bool{}
		for p, b := range vers[k] {
			if strings.HasPrefix(p, "pool/") && (before == nil || string(before.tree[p]) != string(b)) {
				fetch[p] = true
			}
		}
		if k == 1 && s.Lose {
			for _, p := range sortedKeys(fetch) {
				if lost = p; len(p)%5 == s.Salt%5 {
					break
				}
			}
		}
		mu.Unlock()
		rerr, log, ok := run()
		if !ok {
			return bad("M10 M06 M02 M03", "run %d never ended", k+1)
		}
		after, err := sm.published("ubuntu")
		if err != nil {
			return bad("M01 M02 M03", "after run %d (%v): %v", k+1, rerr, err)
		}
		n := simnet.MaxOverlap(log, time.Now(), func(*simnet.Req) bool { return true })
		if s.Max > 0 && n > s.Max {
			return bad("M10", "run %d had %d requests in progress with max_conns %d", k+1, n, s.Max)
		}
		if lost != "" && k == 1 {
			c.Class("item lost")
			if rerr == nil {
				return bad("M02", "run %d reported success although %q of %d items could not be obtained", k+1, lost, len(fetch))
			}
			if d := samePub(before, after); d != "" {
				return bad("M02 M01", "failed run %d changed the mirror: %s", k+1, d)
			}
			continue
		}
		if rerr != nil {
			return bad("M03 M10 M06", "run %d over %d items failed although everything was available: %v", k+1, s.N, rerr)
		}
		want := map[string]bool{}
		for p := range vers[k] {
			want[p] = true
		}
		for p, b := range after.tree {
			if string(vers[k][p]) != string(b) {
				return bad("M03 M05", "run %d: published %q is not what upstream has", k+1, p)
			}
			delete(want, p)
		}
		if len(want) > 0 {
			l := sortedKeys(want)
			return bad("M03 M02 M05", "run %d: %d files are not published, e.g. %q", k+1, len(l), l[0])
		}
		got := map[string]int{}
		for _, r := range log {
			got[strings.TrimPrefix(r.Path, "/some/where/")]++
		}
		for p, j := range got {
			switch {
			case !strings.HasPrefix(p, "pool/"):
			case !fetch[p]:
				return bad("M05", "run %d: %q is requested although the published version has it", k+1, p)
			case j > 2:
				return bad("M05 M06", "run %d: %q is requested %d times", k+1, p, j)
			}
		}
		if s.Delay > 0 && s.Max > 0 && s.Fail == 0 && len(fetch) >= s.Max && n < s.Max {
			return bad("M10", "run %d never had more than %d requests in progress with max_conns %d and %d items to fetch", k+1, n, s.Max, len(fetch))
		}
		c.ClassIf(s.Max > 0 && n == s.Max, "limit reached")
		ents, _ := os.ReadDir(md)
		var left []string
		for _, e := range ents {
			if e.Name() != "ubuntu" && e.Name() != ".lock" && e.Name() != after.dir {
				left = append(left, e.Name())
			}
		}
		if len(left) > 0 {
			return bad("M07", "after run %d: left over %q", k+1, left)
		}
	}
	return nil
}

var errOther = fmt.Errorf("of another property")

func manyLeg(name, tag string, nontrivial func(s ManyScen) bool) func(t *testing.T) {
	return func(t *testing.T) {
		pk.Check(t, name, manyGen, func(c *pk.C, s ManyScen) error {
			top, clean := scratch()
			defer clean()
			md := filepath.Join(top, "mirror")
			if err := os.Mkdir(md, 0755); err != nil {
				pk.Infra("%v", err)
			}
			c.NonTrivialIf(nontrivial(s))
			err := pk.Bubble(t, func() error {
				err := s.exec(c, md, tag)
				time.Sleep(2 * time.Hour)
				return err
			})
			if err == errOther {
				c.Class("other property")
				return nil
			}
			return err
		})
	}
}

func TestM02_many(t *testing.T) {
	manyLeg("M02_many", "M02", func(s ManyScen) bool { return s.Lose && s.N > 100 })(t)
}
func TestM03_many(t *testing.T) {
	manyLeg("M03_many", "M03", func(s ManyScen) bool { return s.N > 100 })(t)
}
func TestM05_many(t *testing.T) {
	manyLeg("M05_many", "M05", func(s ManyScen) bool { return s.N > 100 && s.Change != 1 })(t)
}
func TestM10_many(t *testing.T) {
	manyLeg("M10_many", "M10", func(s ManyScen) bool { return s.N > 100 && s.Max > 0 })(t)
}
