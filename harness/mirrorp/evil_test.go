package mirrorp

import (
	"fmt"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/cybozu-go/aptutil/mirror"
	"pgregory.net/rapid"

	"verifharness/fsx"
	"verifharness/idx"
	"verifharness/pk"
	"verifharness/simnet"
)

// Evil is a hostile entry of an index file.
type Evil struct {
	Place int // 0 Packages, 1 Sources directory, 2 Sources file, 3 Release, 4 nested Release, 5 diff Index
	T     int // template
	Up    int // how far up
}

// EvilScen is a mirror with a good version, then hostile entries.
type EvilScen struct {
	Flat, ByHash bool
	Fresh        bool // no good version before
	Mask         int
	Format       int // compression of the indices
	Evils        []Evil
	Max          int
}

var evilTemplates = []string{
	"x", "a/../../x", "/abs/x", "//x/y", "..", ".", "", "a/./../..//../y/", "{OLD}/ubuntu/pool/good.deb", "{OLD}/info.json", "info.json", ".lock",
	"{B}/debian-sec/pool/good.deb", "debian-sec", "ubuntu", "ubuntu.tmp", "{NEW}/ubuntu/pool/good.deb", "{NEW}/_tmp1", "..a/x", "%2e%2e/%2e%2e/x", "..\\..\\x",
	"dists/../../../x", "./././../../x", "dists/stable/Release", "dists/stable", "pool/good.deb", "pool/good.deb/x", "pool", "a\x00b",
	strings.Repeat("n", 300), "dists/stable/main/binary-amd64/Packages/z", "x/" + strings.Repeat("../", 40) + "tmp/evil", "../mirror/ubuntu/pool/good.deb", "a/..", "InRelease", "by-hash/SHA256/x",
}

const evilBody = "EVIL"

func evilExt(f int) string { return []string{"", ".gz", ".xz"}[f%3] }

// climbs tells whether p, relative to the repository, leads out of it.
func climbs(p string) bool {
	if strings.HasPrefix(p, "/") {
		return false // the root directory is its own parent
	}
	depth := 0
	for _, e := range strings.Split(p, "/") {
		switch e {
		case "", ".":
		case "..":
			depth--
			if depth < 0 {
				// may it come back in? only by name, never lexically
				return true
			}
		default:
			depth++
		}
	}
	return false
}

// render gives the files of the upstream; out tells whether a selected entry
// leads out of the repository.
func (s EvilScen) render(evils []Evil, subst func(string) string) (files map[string][]byte, out bool, odd bool) {
	files = map[string][]byte{}
	ext := evilExt(s.Format)
	good := []byte("good")
	files["pool/good.deb"], files["pool/src/good.dsc"] = good, good
	dir, comp := "dists/stable", "main/binary-amd64/"
	src := "main/source/"
	if s.Flat {
		dir, comp, src = "", "", ""
	}
	mask := s.Mask & 7
	if mask == 0 {
		mask = 7
	}
	spell := func(e Evil) string {
		t := subst(evilTemplates[e.T%len(evilTemplates)])
		if strings.HasPrefix(t, "/") {
			return t
		}
		return strings.Repeat("../", e.Up) + t
	}
	rec := func(p string) idx.Rec { r := idx.Of(p, []byte(evilBody)); return r.Mask(mask) }
	pk := []idx.Rec{idx.Of("pool/good.deb", good).Mask(mask)}
	srcs := []idx.Src{{Dir: "pool/src", Files: []idx.Rec{idx.Of("good.dsc", good).Mask(mask)}}}
	var rel, nested, diff []idx.Rec
	seen := map[string]bool{}
	for _, e := range evils {
		p := spell(e)
		if strings.ContainsAny(p, " \n") || seen[fmt.Sprint(e.Place%6, p)] {
			continue
		}
		seen[fmt.Sprint(e.Place%6, p)] = true
		odd = true
		switch e.Place % 6 {
		case 0:
			if p == "" {
				continue
			}
			pk = append(pk, rec(p))
			out = out || climbs(p)
		case 1:
			if p == "" {
				continue
			}
			srcs = append(srcs, idx.Src{Dir: p, Files: []idx.Rec{rec("e.dsc")}})
			out = out || climbs(p)
		case 2:
			if p == "" {
				continue
			}
			srcs = append(srcs, idx.Src{Dir: "pool/src2", Files: []idx.Rec{rec(p)}})
			out = out || climbs("pool/src2/"+p)
		case 3:
			if p == "" {
				continue
			}
			rel = append(rel, rec(p))
			out = out || climbs(path.Join(dir, "./")+"/"+p)
			if dir == "" {
				out = out || climbs(p)
			}
		case 4:
			if p == "" || s.Flat {
				continue
			}
			nested = append(nested, rec(p))
		case 5:
			if p == "" || s.Flat {
				continue
			}
			diff = append(diff, rec(p))
		}
	}
	add := func(p string, b []byte, r []idx.Rec) []idx.Rec {
		files[path.Join(dir, p)] = b
		return append(r, idx.Of(p, b).Mask(mask))
	}
	var list []idx.Rec
	list = add(comp+"Packages"+ext, idx.Compress(ext, idx.Packages(pk)), list)
	list = add(src+"Sources"+ext, idx.Compress(ext, idx.Sources(srcs)), list)
	if len(nested) > 0 {
		list = add("main/binary-amd64/Release", idx.Release(nested, ""), list)
	}
	if len(diff) > 0 {
		var b strings.Builder
		b.WriteString("SHA1-Current: 0 0\nSHA256-History:\n")
		for _, r := range diff {
			fmt.Fprintf(&b, " %s %d %s\n", r.SHA256, r.Size, r.Path)
		}
		list = add("main/binary-amd64/Packages.diff/Index", []byte(b.String()), list)
	}
	bh := ""
	if s.ByHash {
		bh = "yes"
	}
	files[path.Join(dir, "Release")] = idx.Release(append(list, rel...), bh)
	return
}

func TestM09_evil(t *testing.T) {
	pk.Check(t, "M09_evil", func(t *rapid.T) EvilScen {
		return EvilScen{
			Flat: pk.Odds(t, "flat", 3), ByHash: rapid.Bool().Draw(t, "byhash"), Fresh: pk.Odds(t, "fresh", 4),
			Mask: rapid.SampledFrom([]int{7, 4, 1, 6}).Draw(t, "mask"), Format: rapid.IntRange(0, 2).Draw(t, "format"),
			Max: rapid.SampledFrom([]int{10, 1, 3}).Draw(t, "max"),
			Evils: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Evil {
				return Evil{rapid.SampledFrom([]int{0, 0, 1, 2, 3, 3, 4, 5}).Draw(t, "place"), pk.Uniform(t, "template", len(evilTemplates)), rapid.IntRange(0, 6).Draw(t, "up")}
			}), 1, 3).Draw(t, "evils"),
		}
	}, func(c *pk.C, s EvilScen) error {
		top, clean := scratch()
		defer clean()
		md := filepath.Join(top, "mirror")
		if err := os.Mkdir(md, 0755); err != nil {
			pk.Infra("%v", err)
		}
		return pk.Bubble(t, func() error {
			err := s.exec(c, md)
			time.Sleep(2 * time.Hour)
			return err
		})
	})
}

func (s EvilScen) exec(c *pk.C, md string) error {
	repos := map[string]map[string][]byte{}
	var outside []string
	net := simnet.New(func(r *simnet.Req) simnet.Resp {
		rest := strings.TrimPrefix(r.Path, "/some/where/")
		if rest == r.Path {
			outside = append(outside, r.Path)
		}
		for h, files := range repos {
			if h != r.Host {
				continue
			}
			if b, ok := files[rest]; ok {
				return simnet.Resp{Body: b}
			}
			if b := path.Base(rest); strings.HasPrefix(b, "Release.") || strings.HasPrefix(b, "InRelease") {
				return simnet.Resp{Status: 404, Body: []byte("no")}
			}
			if strings.Contains(rest, "/by-hash/") || strings.HasPrefix(rest, "by-hash/") {
				for _, b := range files {
					if r := idx.Of("", b); path.Base(rest) == r.SHA256 || path.Base(rest) == r.MD5 || path.Base(rest) == r.SHA1 {
						return simnet.Resp{Body: b}
					}
				}
			}
		}
		return simnet.Resp{Body: []byte(evilBody)}
	})
	defer net.Install()()
	fs := &fsx.FS{Root: md, KeepLog: true}
	fsx.Install(fs)
	defer fsx.Uninstall()
	sm := &sim{dir: md}
	conf := func(ids ...string) *mirror.Config {
		cf := mirror.NewConfig()
		cf.Dir, cf.MaxConns = md, s.Max
		cf.Mirrors = map[string]*mirror.MirrConfig{}
		for _, id := range []string{"ubuntu", "debian-sec"} {
			m := &mirror.MirrConfig{Source: true}
			if s.Flat && id == "ubuntu" {
				m.Suites = []string{"/"}
			} else {
				m.Suites, m.Sections, m.Architectures = []string{"stable"}, []string{"main"}, []string{"amd64"}
			}
			u, _ := url.Parse("http://" + id + ".example/some/where/")
			m.URL.URL = u
			cf.Mirrors[id] = m
		}
		return cf
	}
	run := func(id string) (error, bool) {
		time.Sleep(3 * time.Second)
		err, ok := sm.run(conf(), []string{id})
		synctest.Wait()
		return err, ok
	}
	same := func(x string) string { return x }
	b := s
	b.Flat = false
	repos["debian-sec.example"], _, _ = b.render(nil, same)
	repos["ubuntu.example"], _, _ = s.render(nil, same)
	links := map[string]bool{"debian-sec": true, "ubuntu": true}
	ids := []string{"debian-sec", "ubuntu"}
	if s.Fresh {
		ids = ids[:1]
	}
	for _, id := range ids {
		err, _ := run(id)
		if len(fs.Escapes) > 0 {
			return fmt.Errorf("changes outside the mirror directory (good run: %v): %q", err, fs.Escapes)
		}
		if err != nil {
			pk.Infra("good run of %s: %v", id, err)
		}
	}
	pubA, err := sm.published("ubuntu")
	if err != nil {
		pk.Infra("%v", err)
	}
	pubB, err := sm.published("debian-sec")
	if err != nil || pubB == nil {
		pk.Infra("%v", err)
	}
	oldA := ".ubuntu.19990101_000000"
	if pubA != nil {
		oldA = pubA.dir
	}
	newA := ".ubuntu." + time.Now().Add(3*time.Second).Format("20060102_150405")
	subst := func(x string) string {
		return strings.NewReplacer("{OLD}", oldA, "{B}", pubB.dir, "{NEW}", newA).Replace(x)
	}
	files, out, odd := s.render(s.Evils, subst)
	repos["ubuntu.example"] = files
	outside = nil
	n := len(fs.Log)
	rerr, ok := run("ubuntu")
	if !ok {
		return fmt.Errorf("the run never ended")
	}
	c.NonTrivialIf(odd)
	c.ClassIf(out, "entry outside the repository")
	c.ClassIf(rerr != nil, "run failed")
	c.ClassIf(rerr == nil, "run succeeded")
	if len(fs.Escapes) > 0 {
		return fmt.Errorf("changes outside the mirror directory (run: %v): %q", rerr, fs.Escapes)
	}
	before := map[string]bool{pubB.dir: true, oldA: true, "debian-sec": true}
	for _, op := range fs.Log[n:] {
		dst := op.Path
		switch op.Kind {
		case "link", "rename", "symlink":
			dst = op.Path2
		case "sync", "close":
			continue
		}
		rel, err := filepath.Rel(fs.Root, dst)
		if err != nil {
			return fmt.Errorf("%v", err)
		}
		first := strings.SplitN(rel, "/", 2)[0]
		switch {
		case strings.HasPrefix(op.Kind, "remove"):
			// old and partial versions may go, mirrors in use may not
			if first == pubB.dir || first == "debian-sec" || first == ".lock" || first == "." {
				return fmt.Errorf("the run (%v) removes %s", rerr, rel)
			}
			if first == oldA && rerr != nil {
				return fmt.Errorf("the failed run (%v) removes %s", rerr, rel)
			}
		case before[first]:
			return fmt.Errorf("the run (%v) makes a change in another version: %v", rerr, op)
		case rel == "ubuntu" || rel == "ubuntu.tmp" || rel == ".lock":
			if op.Kind == "create" || op.Kind == "link" || op.Kind == "mkdir" || op.Kind == "write" && rel != ".lock" {
				return fmt.Errorf("the run (%v) puts content into %s: %v", rerr, rel, op)
			}
		case first == newA && rel != newA:
			// in the version being built: the tree, records, downloads in progress
			second := strings.SplitN(rel, "/", 3)[1]
			if second != "ubuntu" && second != "info.json" && !strings.HasPrefix(second, "_tmp") || op.Kind == "link" && second != "ubuntu" {
				return fmt.Errorf("the run (%v) puts %s beside the tree being built", rerr, rel)
			}
		case rel == newA && op.Kind == "mkdir":
		default:
			return fmt.Errorf("the run (%v) changes %s: %v", rerr, rel, op)
		}
	}
	for _, p := range outside {
		// absolute names are below the host's root, climbing ones are refused
		if !strings.Contains(p, "abs") && !strings.HasPrefix(p, "/x/y") && !strings.HasPrefix(p, "//") {
			return fmt.Errorf("%q was requested, outside the repository", p)
		}
	}
	b2, err := sm.published("debian-sec")
	if err != nil {
		return err
	}
	if d := samePub(pubB, b2); d != "" {
		return fmt.Errorf("the run (%v) changed another mirror: %s", rerr, d)
	}
	a2, err := sm.published("ubuntu")
	if err != nil {
		return err
	}
	if rerr != nil {
		if d := samePub(pubA, a2); d != "" {
			return fmt.Errorf("the failed run (%v) changed the mirror: %s", rerr, d)
		}
		if a2 == nil {
			delete(links, "ubuntu")
		}
	} else {
		if a2 == nil || a2.dir != newA {
			return fmt.Errorf("the run succeeded without publishing %s", newA)
		}
		for p, want := range map[string]string{"pool/good.deb": "good", "pool/src/good.dsc": "good"} {
			if relisted(files, p) {
				continue // the Release file contradicts the index
			}
			if string(a2.tree[p]) != want {
				return fmt.Errorf("published %q has other content than listed", p)
			}
		}
		for p, b := range files {
			if got, ok := a2.tree[p]; ok && string(got) != string(b) && !(strings.HasPrefix(p, "pool/") && relisted(files, p)) {
				return fmt.Errorf("published %q has other content than upstream", p)
			}
		}
	}
	return sm.listing(links)
}

// relisted: does the Release file name p?
func relisted(files map[string][]byte, p string) bool {
	for n, b := range files {
		if path.Base(n) != "Release" {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 3 && strings.HasPrefix(l, " ") && path.Join(path.Dir(n), f[2]) == p {
				return true
			}
		}
	}
	return false
}
