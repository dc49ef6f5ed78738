package mirrorp

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verifharness/idx"
	"verifharness/pk"
)

// The upstream model: plain data, rendered to bytes by code that shares
// nothing with the library under test.

// Slot is one index of a suite, possibly in several compressions.
type Slot struct {
	K     int   // kind
	Sec   int   // section
	Arch  int   // architecture
	Fmt   int   // bits: listed compressions (plain gz bz2 xz lzma)
	Miss  int   // bits: listed, but not offered by upstream
	Items []int // what it lists
}

const (
	kPackages = iota
	kSources
	kSubRelease // dists/s/main/binary-amd64/Release
	kI18nIndex
	kTranslation
	kContents
	kDiffIndex
	kOther
	nKinds
)

var exts = []string{"", ".gz", ".bz2", ".xz", ".lzma"}

// Suite is a suite in one version.
type Suite struct {
	N      int // name
	ByHash int // 0 not announced, 1 yes, 2 no
	Rel    int // bits: which of the seven release files exist
	RMask  int // digests in Release*
	IMask  int // digests in InRelease* (a superset or subset of RMask)
	Mask   int // digests in Packages and Sources
	Rev    int
	Slots  []Slot
	Stale  int  // >0: that index has other content at its plain location (by-hash suites)
	Skew   bool // Release is of the version before, InRelease of this one
	BhOff  int  `json:",omitempty"` // bits (MD5Sum SHA1 SHA256): by-hash locations upstream does not have
	Broken int  `json:",omitempty"` // >0: that index cannot be understood
}

// Repo is one version of an upstream repository.
type Repo struct {
	Suites []Suite
	Tags   []int // content of each item
}

// Edit turns one version into the next.
type Edit struct {
	K       string
	S, I, V int
	Slot    *Slot `json:",omitempty"`
}

// Cfg is what a mirror is configured to select.
type Cfg struct {
	Suites int // bits over the repository's suites
	Secs   int // bits over secNames
	Archs  int // bits over archNames
	Source bool
	Spell  int
}

// Mir is a mirror with its upstream history.
type Mir struct {
	Flat  bool
	Base  int
	Repo  Repo
	Edits [][]Edit // version k+1 = version k with these
	Cfg   Cfg
}

var secNames = []string{"main", "free", "non-free", "contrib", "main/debian-installer", "xmain", "free/debian-installer", "Main"}
var archNames = []string{"amd64", "i386", "kfreebsd-amd64", "all", "amd64v3", "AMD64"}
var suiteNames = []string{"stable", "stable-updates", "stable/updates", "v1.2"}
var flatNames = []string{"/", "sub/", "x/y.z/", "14.04/"}
var relNames = []string{"Release", "Release.gpg", "Release.gz", "Release.bz2", "InRelease", "InRelease.gz", "InRelease.bz2"}
var mirNames = []string{"ubuntu", "debian-sec", "x_1"}
var bases = []string{"http://h%d.example/debian", "http://h%d.example:8080/", "http://h%d.example/a%%20b/c/", "http://h%d.example"}

const nDebs, nSrcs = 8, 4
const nItems = nDebs + nSrcs

var debNames = [nDebs]string{"pool/main/a/a_1_amd64.deb", "pool/main/b/b_1.0+x~2.deb", "pool/c c.deb", "pool/free/é%41.deb",
	"pool/x/d:e.deb", "pool/main/a/a_2_all.deb", "top.deb", "pool/q/f?x=1&y#z.deb"}

// flatSpell: how flat repositories spell Filename.
func debPath(i int) string { return debNames[i] }

func debBody(m, i, tag int) []byte {
	switch {
	case i == 6 && tag%4 == 0:
		return []byte{} // an empty file
	case i == 5:
		return []byte(strings.Repeat(fmt.Sprintf("%d big %04d ", m, tag), 4500))
	}
	return []byte(fmt.Sprintf("deb %d %d %04d %s", m, i, tag, strings.Repeat("x", 5+tag/2*3+i)))
}

type namedBody struct {
	path string
	body []byte
}

func srcFiles(m, i, tag int) (string, []namedBody) {
	d := fmt.Sprintf("pool/src/s%d", i)
	return d, []namedBody{
		{fmt.Sprintf("s%d_1.dsc", i), []byte(fmt.Sprintf("dsc %d %d %04d", m, i, tag))},
		{fmt.Sprintf("s%d_1.orig.tar.gz", i), []byte(fmt.Sprintf("tar %d %d %04d %s", m, i, tag/2, strings.Repeat("t", 20)))},
	}
}

// idxInfo says what an index body lists.
type idxInfo struct {
	kind      int
	sec, arch string
	recs      []idx.Rec
}

type relInfo struct {
	byhash bool
	recs   []idx.Rec // full paths
}

// state is a rendered version.
type state struct {
	files map[string][]byte // offered by upstream
	order []string
}

// upstream is a mirror's rendered history.
type upstream struct {
	m    Mir
	n    int
	reps []Repo
	st   []*state
	rel  map[string]relInfo // path NUL body
	idx  map[string]idxInfo
	bad  map[string]idxInfo // indices that cannot be understood
}

func key(p string, b []byte) string { return p + "\x00" + string(b) }

func suiteName(flat bool, n int) string {
	if flat {
		return flatNames[n%len(flatNames)]
	}
	return suiteNames[n%len(suiteNames)]
}

// suiteDir is where a suite's Release lives.
func suiteDir(flat bool, n int) string {
	s := suiteName(flat, n)
	if flat {
		return strings.Trim(path.Clean("/"+s), "/")
	}
	return "dists/" + s
}

func clone(r Repo) Repo {
	n := Repo{Tags: append([]int(nil), r.Tags...)}
	for _, s := range r.Suites {
		s2 := s
		s2.Slots = nil
		for _, sl := range s.Slots {
			sl.Items = append([]int(nil), sl.Items...)
			s2.Slots = append(s2.Slots, sl)
		}
		n.Suites = append(n.Suites, s2)
	}
	return n
}

func apply(r Repo, es []Edit) Repo {
	n := clone(r)
	for i := range n.Suites {
		n.Suites[i].Skew, n.Suites[i].Stale, n.Suites[i].Broken = false, 0, 0
	}
	for _, e := range es {
		s := &n.Suites[e.S%len(n.Suites)]
		var sl *Slot
		if len(s.Slots) > 0 {
			sl = &s.Slots[e.I%len(s.Slots)]
		}
		switch e.K {
		case "tag":
			n.Tags[e.I%nItems] = e.V
		case "tags":
			for i := range n.Tags {
				if (e.V*67+e.I*5)>>(i%10)&1 == 0 {
					n.Tags[i] = (n.Tags[i] + 1) % 4
				}
			}
		case "rev":
			s.Rev++
		case "byhash":
			s.ByHash = e.V % 3
		case "rel":
			s.Rel = fixRel(e.V)
		case "stale":
			s.Stale = 1 + e.I
		case "skew":
			s.Skew = true
		case "broken":
			s.Broken = 1 + e.V
		case "bhoff":
			s.BhOff = e.V % 8
		case "add":
			if sl != nil {
				sl.Items = append(sl.Items, e.V%nItems)
			}
		case "del":
			if sl != nil && len(sl.Items) > 0 {
				k := e.V % len(sl.Items)
				sl.Items = append(sl.Items[:k:k], sl.Items[k+1:]...)
			}
		case "fmt":
			if sl != nil && e.V%32 != 0 {
				sl.Fmt = e.V % 32
			}
		case "miss":
			if sl != nil {
				sl.Miss = e.V % 32
			}
		case "slot":
			if e.Slot != nil {
				s.Slots = append(s.Slots, *e.Slot)
			}
		case "rmslot":
			if len(s.Slots) > 1 {
				k := e.I % len(s.Slots)
				s.Slots = append(s.Slots[:k:k], s.Slots[k+1:]...)
			}
		}
	}
	return n
}

// fixRel keeps at least one parsable release file.
func fixRel(b int) int {
	b %= 128
	if b&^2 == 0 {
		b |= 1
	}
	return b
}

func newUpstream(n int, m Mir) *upstream {
	u := &upstream{m: m, n: n, rel: map[string]relInfo{}, idx: map[string]idxInfo{}, bad: map[string]idxInfo{}}
	r := m.Repo
	u.reps = append(u.reps, r)
	for _, es := range m.Edits {
		r = apply(r, es)
		u.reps = append(u.reps, r)
	}
	for v := range u.reps {
		u.st = append(u.st, u.render(v))
	}
	return u
}

type listed struct {
	rec  idx.Rec // relative to the suite directory
	body []byte
	miss bool
}

// indices renders the indices of a suite.
func (u *upstream) indices(r Repo, s Suite) []listed {
	dir := suiteDir(u.m.Flat, s.N)
	var out []listed
	nth := 0
	seen := map[string]bool{}
	for _, sl := range s.Slots {
		sec, arch := secNames[sl.Sec%len(secNames)], archNames[sl.Arch%len(archNames)]
		k := sl.K % nKinds
		if u.m.Flat {
			sec, arch = "", ""
			if k != kPackages && k != kSources && k != kContents {
				k = kPackages
			}
		}
		var rel string
		var text []byte
		var recs []idx.Rec
		mask := s.Mask
		if mask == 0 {
			mask = 7
		}
		dup := map[int]bool{}
		switch k {
		case kPackages:
			rel = path.Join(sec, "binary-"+arch, "Packages")
			if u.m.Flat {
				rel = "Packages"
			}
			var spelled []idx.Rec
			for _, it := range sl.Items {
				i := it % nDebs
				if dup[i] {
					continue
				}
				dup[i] = true
				rec := idx.Of(debPath(i), debBody(u.n, i, r.Tags[i])).Mask(mask)
				recs = append(recs, rec)
				if u.m.Flat {
					rec.Path = "./" + rec.Path
				}
				spelled = append(spelled, rec)
			}
			text = idx.Packages(spelled)
		case kSources:
			rel = path.Join(sec, "source", "Sources")
			if u.m.Flat {
				rel = "Sources"
			}
			var srcs []idx.Src
			for _, it := range sl.Items {
				i := nDebs + it%nSrcs
				if dup[i] {
					continue
				}
				dup[i] = true
				d, fs := srcFiles(u.n, i, r.Tags[i])
				src := idx.Src{Dir: d}
				for _, f := range fs {
					rec := idx.Of(f.path, f.body).Mask(mask)
					src.Files = append(src.Files, rec)
					rec.Path = d + "/" + f.path
					recs = append(recs, rec)
				}
				srcs = append(srcs, src)
			}
			text = idx.Sources(srcs)
		case kSubRelease:
			rel = path.Join(sec, "binary-"+arch, "Release")
			text = []byte(fmt.Sprintf("Archive: stable\nComponent: %s\nArchitecture: %s\nX-Rev: %d\n", sec, arch, r.Tags[0]/2))
		case kI18nIndex:
			rel = path.Join(sec, "i18n", "Index")
			var l []idx.Rec
			for _, it := range sl.Items {
				if dup[it%3] {
					continue
				}
				dup[it%3] = true
				p, b := u.translation(r, sec, it%3)
				rec := idx.Of(path.Base(p), b).Mask(2)
				l = append(l, rec)
				rec.Path = path.Join(dir, p)
				recs = append(recs, rec)
			}
			text = idx.Release(l, "")
		case kTranslation:
			p, b := u.translation(r, sec, sl.Arch%3)
			rel, text = p, b
		case kContents:
			rel = path.Join(sec, "Contents-"+arch+".gz")
			if u.m.Flat {
				rel = "Contents.gz"
			}
			text = []byte(fmt.Sprintf("contents %d %s", r.Tags[1], strings.Repeat("c", 30)))
		case kDiffIndex:
			rel = path.Join(sec, "binary-"+arch, "Packages.diff", "Index")
			text = []byte(fmt.Sprintf("SHA1-Current: 1234567890123456789012345678901234567890 %d\nSHA1-History:\n 1234567890123456789012345678901234567890 12 2015-01-01\n", r.Tags[2]))
		case kOther:
			rel = path.Join(sec, []string{"Contents-source.gz", "dep11/Components-amd64.yml", "cnf/Commands-amd64.xz", "binary-amd64/Packages-old.gz"}[sl.Arch%4])
			text = []byte(fmt.Sprintf("other %s %d", rel, r.Tags[4]))
		}
		f := sl.Fmt % 32
		if f == 0 || k > kI18nIndex {
			f = 1
		}
		for b, e := range exts {
			if f&(1<<b) == 0 || seen[rel+e] {
				continue
			}
			seen[rel+e] = true
			var body []byte
			if e == ".lzma" {
				body = append([]byte("]\x00\x00"), text...)
			} else {
				body = idx.Compress(e, text)
			}
			broken := s.Broken > 0 && e != ".lzma" && (k == kPackages || k == kSources) && s.Broken%3 == nth%3
			if k == kPackages || k == kSources {
				nth++
			}
			if broken {
				body = breakIndex(s.Broken/3, e, text)
				u.bad[key(path.Join(dir, rel+e), body)] = idxInfo{k, sec, arch, nil}
			}
			out = append(out, listed{idx.Of(rel+e, body), body, sl.Miss&(1<<b) != 0})
			if e != ".lzma" && k <= kI18nIndex && !broken {
				u.idx[key(path.Join(dir, rel+e), body)] = idxInfo{k, sec, arch, recs}
			}
		}
	}
	return out
}

// breakIndex spoils an index, whose checksums will be right.
func breakIndex(how int, ext string, text []byte) []byte {
	if how%4 == 0 && ext != "" {
		b := idx.Compress(ext, text)
		return b[:len(b)-1-len(b)/4]
	}
	more := []string{"this is no field\n", "Package: x\n", "this is no field\n", "Package: x\nFilename: pool/z.deb\nDirectory: pool\nSize: 12x\nFiles:\n zz 12 f\n"}[how%4]
	b := append([]byte(nil), text...)
	if len(b) > 0 {
		b = append(b, '\n')
	}
	return idx.Compress(ext, append(b, more...))
}

func (u *upstream) translation(r Repo, sec string, i int) (string, []byte) {
	return path.Join(sec, "i18n", "Translation-"+[]string{"en", "de", "ja"}[i]+".bz2"), []byte(fmt.Sprintf("trans %d %d", i/2, r.Tags[3]))
}

func byhashPath(p, alg, hex string) string { return path.Join(path.Dir(p), "by-hash", alg, hex) }

func byhashNames(r idx.Rec) []string {
	var l []string
	if r.MD5 != "" {
		l = append(l, byhashPath(r.Path, "MD5Sum", r.MD5))
	}
	if r.SHA1 != "" {
		l = append(l, byhashPath(r.Path, "SHA1", r.SHA1))
	}
	if r.SHA256 != "" {
		l = append(l, byhashPath(r.Path, "SHA256", r.SHA256))
	}
	return l
}

func isRelName(p string) bool {
	b := path.Base(p)
	for _, n := range relNames {
		if n == b {
			return true
		}
	}
	return false
}

func (u *upstream) render(v int) *state {
	r := u.reps[v]
	st := &state{files: map[string][]byte{}}
	for i := 0; i < nDebs; i++ {
		st.files[debPath(i)] = debBody(u.n, i, r.Tags[i])
	}
	for i := nDebs; i < nItems; i++ {
		d, fs := srcFiles(u.n, i, r.Tags[i])
		for _, f := range fs {
			st.files[d+"/"+f.path] = f.body
		}
	}
	for _, sec := range secNames {
		for i := 0; i < 3; i++ {
			for _, s := range r.Suites {
				if !u.m.Flat {
					p, b := u.translation(r, sec, i)
					st.files[path.Join(suiteDir(false, s.N), p)] = b
				}
			}
		}
	}
	done := map[string]bool{}
	for si, s := range r.Suites {
		dir := suiteDir(u.m.Flat, s.N)
		if done[dir] {
			continue
		}
		done[dir] = true
		list := u.indices(r, s)
		var old []listed
		var olds Suite
		if s.Skew && v > 0 && s.Broken == 0 {
			olds = u.reps[v-1].Suites[si]
			if olds.ByHash%3 == s.ByHash%3 && olds.Broken == 0 {
				old = u.indices(u.reps[v-1], olds)
			}
		}
		for _, l := range list {
			p := path.Join(dir, l.rec.Path)
			if l.miss {
				delete(st.files, p)
				continue
			}
			st.files[p] = l.body
		}
		if s.ByHash == 1 {
			offered := 7 &^ s.BhOff & digests(s) // one that every listing names, if it is not all
			if old != nil {
				offered &= digests(olds)
			}
			if offered == 0 {
				offered = 7
			}
			for _, ll := range [][]listed{list, old} {
				for _, l := range ll {
					if l.miss {
						continue
					}
					rec := l.rec
					rec.Path = path.Join(dir, rec.Path)
					for _, n := range byhashNames(rec.Mask(offered)) {
						st.files[n] = l.body
					}
				}
			}
			if s.Stale > 0 && len(list) > 0 {
				l := list[(s.Stale-1)%len(list)]
				if !l.miss {
					p := path.Join(dir, l.rec.Path)
					st.files[p] = append([]byte("other "), l.body...)
				}
			}
		}
		bh := []string{"", "yes", "no"}[s.ByHash%3]
		mk := func(s Suite, list []listed, mask int) []byte {
			var recs []idx.Rec
			for _, l := range list {
				recs = append(recs, l.rec.Mask(mask))
			}
			return idx.Release(recs, bh, fmt.Sprintf("X-Revision: %d", s.Rev))
		}
		rm, im := masksOf(s)
		rel := mk(s, list, rm)
		rlist := list
		if old != nil {
			rel, rlist = mk(olds, old, rm), old
		}
		in := idx.ClearSign(mk(s, list, im))
		full := func(list []listed, mask int) []idx.Rec {
			var recs []idx.Rec
			for _, l := range list {
				r := l.rec.Mask(mask)
				r.Path = path.Join(dir, r.Path)
				recs = append(recs, r)
			}
			return recs
		}
		put := func(bit int, body []byte, recs []idx.Rec) {
			if fixRel(s.Rel)&(1<<bit) == 0 {
				return
			}
			p := path.Join(dir, relNames[bit])
			st.files[p] = body
			if bit != 1 {
				u.rel[key(p, body)] = relInfo{s.ByHash%3 == 1, recs}
			}
		}
		put(0, rel, full(rlist, rm))
		sig := fmt.Sprintf("-----BEGIN PGP SIGNATURE-----\nrev %d\n", s.Rev)
		if (s.N+s.Rev)%4 == 3 {
			sig = ""
		}
		put(1, []byte(sig), nil)
		put(2, idx.Compress(".gz", rel), full(rlist, rm))
		if fixRel(s.Rel)&8 != 0 {
			put(3, idx.Compress(".bz2", rel), full(rlist, rm))
		}
		put(4, in, full(list, im))
		put(5, idx.Compress(".gz", in), full(list, im))
		if fixRel(s.Rel)&64 != 0 {
			put(6, idx.Compress(".bz2", in), full(list, im))
		}
	}
	for p := range st.files {
		st.order = append(st.order, p)
	}
	sort.Strings(st.order)
	return st
}

// masksOf gives the digests in Release* and InRelease*.
func masksOf(s Suite) (int, int) {
	fix := func(m int) int {
		if m&7 == 0 {
			return 7
		}
		return m & 7
	}
	rm, im := fix(s.RMask), fix(s.IMask)
	if rm&im != rm && rm&im != im {
		im = rm
	}
	return rm, im
}

// digests are those that all release files of the suite have.
func digests(s Suite) int {
	rm, im := masksOf(s)
	return rm & im
}

// suites lists the suite numbers (deduplicated) a configuration selects.
func (u *upstream) suites(c Cfg) []int {
	var l []int
	seen := map[string]bool{}
	for i, s := range u.m.Repo.Suites {
		if c.Suites&(1<<i) != 0 || c.Suites&(1<<len(u.m.Repo.Suites)-1) == 0 {
			n := suiteName(u.m.Flat, s.N)
			if !seen[n] {
				seen[n] = true
				l = append(l, s.N)
			}
		}
	}
	return l
}

func (c Cfg) secs() []string {
	var l []string
	for i, s := range secNames {
		if c.Secs&(1<<i) != 0 {
			l = append(l, s)
		}
	}
	return l
}

func (c Cfg) archs() []string {
	var l []string
	for i, s := range archNames {
		if c.Archs&(1<<i) != 0 {
			l = append(l, s)
		}
	}
	return l
}

func in(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// selects is the specification of partial mirrors.
func (u *upstream) selects(c Cfg, i idxInfo) bool {
	switch i.kind {
	case kPackages:
		return u.m.Flat || in(c.secs(), i.sec) && (i.arch == "all" || in(c.archs(), i.arch))
	case kSources:
		return c.Source && (u.m.Flat || in(c.secs(), i.sec))
	}
	return true
}

// wanted are the files that the selected indices of a version list (for
// aiming faults; judge decides what has to be there).
func (u *upstream) wanted(c Cfg, st *state) map[string]bool {
	w := map[string]bool{}
	for _, n := range u.suites(c) {
		dir := suiteDir(u.m.Flat, n) + "/"
		for p, b := range st.files {
			if i, ok := u.idx[key(p, b)]; ok && (u.m.Flat || strings.HasPrefix(p, dir)) && u.selects(c, i) {
				for _, r := range i.recs {
					w[r.Path] = true
				}
			}
		}
	}
	return w
}

// judge decides whether tree (path -> content) is one complete, consistent
// version for the configuration; with a strict state it must be that one.
// Paths that absent admits need not be there (nil: none).
func (u *upstream) judge(c Cfg, tree map[string][]byte, strict *state, absent func(string) bool) error {
	used := map[string]bool{}
	have := func(p string, r idx.Rec) error {
		b, ok := tree[p]
		if !ok {
			return fmt.Errorf("%q is missing", p)
		}
		used[p] = true
		r.Path = p
		if !r.Same(idx.Of(p, b)) {
			return fmt.Errorf("%q does not match its checksums", p)
		}
		return nil
	}
	everOffered := func(p string) bool {
		if absent != nil && absent(p) {
			return false
		}
		if strict != nil {
			_, ok := strict.files[p]
			return ok
		}
		for _, s := range u.st {
			if _, ok := s.files[p]; !ok {
				return false
			}
		}
		return true
	}
	for _, n := range u.suites(c) {
		dir := suiteDir(u.m.Flat, n)
		list := map[string][]idx.Rec{}
		byhash, found := true, 0
		for bit, name := range relNames {
			p := path.Join(dir, name)
			b, ok := tree[p]
			if strict != nil {
				sb, sok := strict.files[p]
				if ok != sok {
					return fmt.Errorf("%q: published %v, offered %v", p, ok, sok)
				}
				if string(b) != string(sb) {
					return fmt.Errorf("%q is not what upstream has", p)
				}
			}
			if !ok {
				continue
			}
			used[p] = true
			if bit == 1 {
				continue
			}
			ri, ok := u.rel[key(p, b)]
			if !ok {
				return fmt.Errorf("%q is not a release file upstream ever had", p)
			}
			found++
			byhash = byhash && ri.byhash
			for _, r := range ri.recs {
				base := path.Base(r.Path)
				if !c.Source && strings.TrimSuffix(base, path.Ext(base)) == "Sources" {
					continue
				}
				list[r.Path] = append(list[r.Path], r)
			}
		}
		if found == 0 {
			return fmt.Errorf("no release file of suite %s", dir)
		}
		for p, recs := range list {
			bodies := map[string]bool{}
			if b, ok := tree[p]; ok {
				used[p] = true
				good := false
				for _, r := range recs {
					if !r.Same(idx.Of(p, b)) {
						continue
					}
					good = true
					for _, q := range recs {
						if !byhash && q.Conflicts(r) {
							return fmt.Errorf("index %q cannot match both %+v and %+v", p, q, r)
						}
					}
				}
				if !good {
					return fmt.Errorf("index %q does not match its checksums", p)
				}
				bodies[string(b)] = true
			} else if everOffered(p) {
				return fmt.Errorf("index %q is missing", p)
			}
			if byhash {
				for _, r := range recs {
					names := byhashNames(r)
					n := 0
					for _, bh := range names {
						if b, ok := tree[bh]; ok {
							n++
							if err := have(bh, r); err != nil {
								return fmt.Errorf("by-hash: %v", err)
							}
							bodies[string(b)] = true
						}
					}
					some := false
					for _, bh := range names {
						some = some || everOffered(bh)
					}
					if n != len(names) && (n != 0 || some && everOffered(p)) {
						return fmt.Errorf("index %q lacks by-hash names (has %d of %d)", p, n, len(names))
					}
				}
				for b := range bodies {
					r := idx.Of(p, []byte(b))
					for _, bh := range byhashNames(r) {
						if _, ok := tree[bh]; ok {
							if err := have(bh, r); err != nil {
								return fmt.Errorf("by-hash: %v", err)
							}
						}
					}
				}
			}
			for b := range bodies {
				info, ok := u.idx[key(p, []byte(b))]
				if !ok || !u.selects(c, info) {
					continue
				}
				for _, r := range info.recs {
					if _, ok := list[r.Path]; ok {
						continue
					}
					if err := have(r.Path, r); err != nil {
						return fmt.Errorf("listed by %q: %v", p, err)
					}
				}
			}
		}
	}
	var extra []string
	for p := range tree {
		if !used[p] {
			extra = append(extra, p)
		}
	}
	if extra != nil {
		sort.Strings(extra)
		return fmt.Errorf("not described by any selected index: %q", extra)
	}
	return nil
}

// toml renders the configuration of one mirror.
func (u *upstream) toml(c Cfg) string {
	var b strings.Builder
	fmt.Fprintf(&b, "[mirror.%s]\nurl = %q\n", mirNames[u.n], u.url())
	var su []string
	for _, n := range u.suites(c) {
		su = append(su, suiteName(u.m.Flat, n))
	}
	fmt.Fprintf(&b, "suites = %s\n", tomlList(su))
	if !u.m.Flat {
		secs := c.secs()
		if c.Spell%4 == 3 && len(secs) > 0 {
			secs[0] += "/"
		}
		fmt.Fprintf(&b, "sections = %s\narchitectures = %s\n", tomlList(secs), tomlList(c.archs()))
	}
	if c.Source || c.Spell%2 == 1 {
		fmt.Fprintf(&b, "mirror_source = %v\n", c.Source)
	}
	return b.String()
}

func tomlList(l []string) string {
	var q []string
	for _, s := range l {
		q = append(q, fmt.Sprintf("%q", s))
	}
	return "[" + strings.Join(q, ", ") + "]"
}

func (u *upstream) url() string { return fmt.Sprintf(bases[u.m.Base%len(bases)], u.n) }

// host and basePath are what the server sees.
func (u *upstream) host() string {
	s := strings.TrimPrefix(u.url(), "http://")
	if i := strings.Index(s, "/"); i >= 0 {
		s = s[:i]
	}
	return s
}

func (u *upstream) basePath() string {
	s := strings.TrimPrefix(u.url(), "http://"+u.host())
	s = strings.ReplaceAll(s, "%20", " ")
	if !strings.HasSuffix(s, "/") {
		s += "/"
	}
	return s
}

// ---- generators

var slotGen = rapid.Custom(func(t *rapid.T) Slot {
	s := Slot{
		K:     rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "kind"),
		Sec:   rapid.IntRange(0, len(secNames)-1).Draw(t, "sec"),
		Arch:  rapid.IntRange(0, len(archNames)-1).Draw(t, "arch"),
		Fmt:   rapid.SampledFrom([]int{1, 2, 3, 8, 10, 4, 11, 16, 18, 15}).Draw(t, "fmt"),
		Items: rapid.SliceOfN(rapid.IntRange(0, nItems-1), 0, 5).Draw(t, "items"),
	}
	if pk.Odds(t, "missing", 4) {
		s.Miss = rapid.IntRange(1, 31).Draw(t, "miss")
	}
	return s
})

var masks = []int{7, 7, 4, 1, 6, 5, 2, 3}

func suiteGen(n int) *rapid.Generator[Suite] {
	return rapid.Custom(func(t *rapid.T) Suite {
		s := Suite{
			N:      n,
			ByHash: rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, "byhash"),
			Rel:    rapid.SampledFrom([]int{1, 16, 19, 17, 3, 21, 5, 64, 8, 127, 32}).Draw(t, "rel"),
			RMask:  rapid.SampledFrom(masks).Draw(t, "rmask"),
			IMask:  rapid.SampledFrom(masks).Draw(t, "imask"),
			Mask:   rapid.SampledFrom(masks).Draw(t, "mask"),
			Slots:  rapid.SliceOfN(slotGen, 1, 6).Draw(t, "slots"),
		}
		if s.ByHash == 1 && pk.Odds(t, "stale", 4) {
			s.Stale = rapid.IntRange(1, 8).Draw(t, "which")
		}
		if s.ByHash == 1 && rapid.Bool().Draw(t, "partly by-hash") {
			s.BhOff = rapid.IntRange(1, 7).Draw(t, "bhoff")
		}
		return s
	})
}

var cfgGen = rapid.Custom(func(t *rapid.T) Cfg {
	return Cfg{
		Suites: rapid.SampledFrom([]int{3, 1, 2}).Draw(t, "suites"),
		Secs:   rapid.SampledFrom([]int{255, 1, 2, 3, 4, 16, 17, 0, 9, 64, 127, 128, 63}).Draw(t, "secs"),
		Archs:  rapid.SampledFrom([]int{63, 1, 2, 3, 0, 4, 32, 47}).Draw(t, "archs"),
		Source: rapid.Bool().Draw(t, "source"),
		Spell:  rapid.IntRange(0, 3).Draw(t, "spell"),
	}
})

func editGen(kinds []string) *rapid.Generator[Edit] {
	return rapid.Custom(func(t *rapid.T) Edit {
		e := Edit{K: rapid.SampledFrom(kinds).Draw(t, "k"), S: rapid.IntRange(0, 1).Draw(t, "s"), I: rapid.IntRange(0, nItems-1).Draw(t, "i"), V: rapid.IntRange(0, 127).Draw(t, "v")}
		if e.K == "tag" {
			e.V %= 8
		}
		if e.K == "slot" {
			s := slotGen.Draw(t, "slot")
			e.Slot = &s
		}
		return e
	})
}

var allEdits = []string{"tags", "tags", "tag", "tag", "tag", "add", "add", "del", "rev", "fmt", "miss", "slot", "rmslot", "byhash", "rel", "stale", "skew"}

func mirGen(vers int, more []string) *rapid.Generator[Mir] {
	return rapid.Custom(func(t *rapid.T) Mir {
		m := Mir{
			Flat: pk.Odds(t, "flat", 4),
			Base: rapid.IntRange(0, len(bases)-1).Draw(t, "base"),
			Cfg:  cfgGen.Draw(t, "cfg"),
		}
		ns := 1
		if pk.Odds(t, "two suites", 3) {
			ns = 2
		}
		first := rapid.IntRange(0, 3).Draw(t, "suite")
		for i := 0; i < ns; i++ {
			m.Repo.Suites = append(m.Repo.Suites, suiteGen((first+i)%4).Draw(t, "suite"))
		}
		m.Repo.Tags = rapid.SliceOfN(rapid.IntRange(0, 3), nItems, nItems).Draw(t, "tags")
		for v := 1; v < vers; v++ {
			m.Edits = append(m.Edits, rapid.SliceOfN(editGen(append(more, allEdits...)), 1, 4).Draw(t, "edits"))
		}
		return m
	})
}
