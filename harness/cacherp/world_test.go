package cacherp

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"path"
	"strings"

	"pgregory.net/rapid"

	"verifharness/idx"
	"verifharness/pk"
)

// Ver is one state of a prefix's repository.
type Ver struct {
	Tag     [4]int // content of the packages a..d
	Listed  int    // which of them Packages lists (bits)
	LTag    int    // bit i: Packages lists package i with the NEXT tag (inconsistent upstream)
	Dsc     int
	Trans   int
	Readme  int
	Mask    int       // digests in Packages/Sources
	RMask   int       // digests in Release
	Broken  int       // 0 fine, 1 Packages is not parsable, 2 Release is not parsable, 3 Sources
	Rev     int       // makes the Release file differ
	Hostile []Hostile `json:",omitempty"` // entries aimed at other prefixes
	NoIdx   int       // bit i: index kind i is not listed in Release (0 plain,1 gz,2 xz,3 Sources)
}

// Hostile is an index entry with an odd path; Rel puts it into the Release
// file instead of Packages.
type Hostile struct {
	Path string
	Rel  bool
	Tag  int
}

// World is the upstream: per prefix a list of versions.
type World struct {
	Hosts  []int   // prefix -> host number
	Flavor []int   // prefix -> 0 InRelease, 1 Release + Release.gpg
	Vers   [][]Ver // prefix -> versions
	Aux    []bool  `json:",omitempty"` // prefix -> the component's name sorts before that of the release file
}

// file numbers
const (
	fRelease = iota // InRelease or Release, by flavour
	fGpg
	fPackages
	fPackagesGz
	fPackagesXz
	fSources
	fA
	fB
	fC
	fD
	fDsc
	fTrans
	fReadme
	fMissing
	fLzma
	fByHash
	nFiles
)

var fileNames = [nFiles]string{"", "dists/s/Release.gpg", "dists/s/main/binary-amd64/Packages", "dists/s/main/binary-amd64/Packages.gz",
	"dists/s/main/binary-amd64/Packages.xz", "dists/s/main/source/Sources.gz", "pool/a.deb", "pool/b/b_1.0+x.deb", "pool/c~1.deb", "pool/d d.deb",
	"pool/src/a.dsc", "dists/s/main/i18n/Translation-en.bz2", "README", "pool/missing.deb", "dists/s/main/binary-amd64/Packages.lzma", ""}

func prefixName(i int) string { return []string{"ubuntu", "debian", "x.y_z-1"}[i] }
func hostName(i int) string   { return []string{"h0.example", "h1.example:8080", "h2.example"}[i] }

func debContent(p, i, tag int) []byte {
	// same size for neighbouring tags, so that only digests tell them apart
	return []byte(fmt.Sprintf("deb %s %c %04d %s", prefixName(p), 'a'+i, tag, strings.Repeat("x", 10+tag/2*7+i)))
}

// state is a rendered version.
type state struct {
	files   map[string][]byte // path inside the prefix -> content
	lists   map[string][]idx.Rec
	byhash  string
	release string
}

type world struct {
	w   World
	st  [][]*state
	cur []int
}

func newWorld(w World) *world {
	r := &world{w: w, cur: make([]int, len(w.Vers))}
	for p := range w.Vers {
		var l []*state
		for v := range w.Vers[p] {
			l = append(l, render(p, w.Flavor[p], w.aux(p), w.Vers[p][v]))
		}
		r.st = append(r.st, l)
	}
	return r
}

func (w World) aux(p int) bool { return p < len(w.Aux) && w.Aux[p] }

// fileName is where file f is.
func fileName(aux bool, f int) string {
	if aux {
		return strings.Replace(fileNames[f], "/main/", "/Aux/", 1)
	}
	return fileNames[f]
}

func dists(rel string) string { return path.Join("dists/s", rel) }

func render(p, flavor int, aux bool, v Ver) *state {
	fn := func(f int) string { return fileName(aux, f) }
	s := &state{files: map[string][]byte{}, lists: map[string][]idx.Rec{}}
	debs := []int{fA, fB, fC, fD}
	var recs []idx.Rec
	for i, f := range debs {
		s.files[fn(f)] = debContent(p, i, v.Tag[i])
		if v.Listed&(1<<i) != 0 {
			t := v.Tag[i]
			if v.LTag&(1<<i) != 0 {
				t ^= 1 // same size, other content
			}
			recs = append(recs, idx.Of(fn(f), debContent(p, i, t)).Mask(v.Mask))
		}
	}
	dsc := []byte(fmt.Sprintf("dsc %d %d\n%s", p, v.Dsc, strings.Repeat("y", v.Dsc/2)))
	s.files[fn(fDsc)] = dsc
	s.files[fn(fTrans)] = []byte(fmt.Sprintf("trans %d %d", p, v.Trans))
	s.files["README"] = []byte(fmt.Sprintf("readme %d of %s %s", v.Readme, prefixName(p), strings.Repeat("r", v.Readme)))
	for _, h := range v.Hostile {
		if !h.Rel {
			r := idx.Of(h.Path, debContent(1-p%2, 0, 100+h.Tag))
			recs = append(recs, r)
		}
	}
	// file names with a space cannot be listed in Sources, but can in Packages
	pkgs := idx.Packages(recs)
	if v.Broken == 1 {
		pkgs = append([]byte("this is not a control file\n"), pkgs...)
	}
	dm := v.Mask
	if dm == 0 {
		dm = 1
	}
	drec := idx.Of("a.dsc", dsc).Mask(dm)
	srcs := idx.Sources([]idx.Src{{Dir: "pool/src", Files: []idx.Rec{drec}}})
	if v.Broken == 3 {
		srcs = append(srcs, []byte("Files:\n zz\n")...)
	}
	s.files[fn(fPackages)] = pkgs
	s.files[fn(fPackagesGz)] = idx.Compress(".gz", pkgs)
	s.files[fn(fPackagesXz)] = idx.Compress(".xz", pkgs)
	s.files[fn(fSources)] = idx.Compress(".gz", srcs)
	if v.Broken != 1 {
		for _, f := range []int{fPackages, fPackagesGz, fPackagesXz} {
			s.lists[fn(f)] = recs
		}
	}
	if v.Broken != 3 {
		d := drec
		d.Path = "pool/src/a.dsc"
		s.lists[fn(fSources)] = []idx.Rec{d}
	}
	var rel, full []idx.Rec
	for i, f := range []int{fPackages, fPackagesGz, fPackagesXz, fSources, fTrans} {
		if i < 4 && v.NoIdx&(1<<i) != 0 {
			continue
		}
		n := fn(f)
		r := idx.Of(strings.TrimPrefix(n, "dists/s/"), s.files[n]).Mask(v.RMask)
		rel = append(rel, r)
		r.Path = n
		full = append(full, r)
	}
	for _, h := range v.Hostile {
		if h.Rel {
			rel = append(rel, idx.Of(h.Path, debContent(1-p%2, 0, 100+h.Tag)))
		}
	}
	text := idx.Release(rel, "yes", fmt.Sprintf("X-Revision: %d", v.Rev))
	if v.Broken == 2 {
		text = append([]byte("MD5Sum:\n zz 12 main/x\n"), text...)
	}
	if flavor == 0 {
		s.release = dists("InRelease")
		s.files[s.release] = idx.ClearSign(text)
	} else {
		s.release = dists("Release")
		s.files[s.release] = text
		s.files[dists("Release.gpg")] = []byte(fmt.Sprintf("-----BEGIN PGP SIGNATURE-----\nrev %d\n", v.Rev))
	}
	if v.Broken != 2 {
		s.lists[s.release] = full
	}
	h := sha256.Sum256(s.files[fn(fPackagesGz)])
	s.byhash = path.Dir(fn(fPackagesGz)) + "/by-hash/SHA256/" + hex.EncodeToString(h[:])
	s.files[s.byhash] = s.files[fn(fPackagesGz)]
	return s
}

// name is the request path (below the prefix) of file f in version v.
func (w *world) name(p, v, f int) string {
	switch f {
	case fRelease:
		return w.st[p][v].release
	case fByHash:
		return w.st[p][v].byhash
	}
	return fileName(w.w.aux(p), f)
}

// at returns the content upstream has for path below prefix p in version v.
func (w *world) at(p, v int, name string) ([]byte, bool) {
	b, ok := w.st[p][v].files[name]
	return b, ok
}

// isIndex is an independent copy of the documented classification.
func isIndex(p string) bool {
	b := path.Base(p)
	for _, e := range []string{".gz", ".bz2", ".xz", ".lzma", ".lz"} {
		if strings.HasSuffix(b, e) {
			b = strings.TrimSuffix(b, e)
			break
		}
	}
	switch b {
	case "Release", "Release.gpg", "InRelease", "Packages", "Sources", "Index":
		return true
	}
	return false
}

func unsupported(p string) bool {
	return isIndex(p) && (strings.HasSuffix(p, ".lzma") || strings.HasSuffix(p, ".lz"))
}

// listsOf finds what an index body lists (nil when it is broken), by looking
// the body up among the rendered ones.
func (w *world) listsOf(p int, name string, body []byte) ([]idx.Rec, bool) {
	for _, s := range w.st[p] {
		if b, ok := s.files[name]; ok && bytes.Equal(b, body) {
			l, ok := s.lists[name]
			return l, ok
		}
	}
	return nil, false
}

var verGen = rapid.Custom(func(t *rapid.T) Ver {
	v := Ver{
		Listed: rapid.SampledFrom([]int{15, 7, 3, 1, 0, 11}).Draw(t, "listed"),
		Dsc:    rapid.IntRange(0, 3).Draw(t, "dsc"),
		Trans:  rapid.IntRange(0, 2).Draw(t, "trans"),
		Readme: rapid.IntRange(0, 2).Draw(t, "readme"),
		Mask:   rapid.SampledFrom([]int{7, 7, 7, 1, 4, 2, 6, 5, 3}).Draw(t, "mask"),
		RMask:  rapid.SampledFrom([]int{7, 7, 7, 1, 4, 6, 5}).Draw(t, "rmask"),
		Rev:    rapid.IntRange(0, 3).Draw(t, "rev"),
	}
	for i := range v.Tag {
		v.Tag[i] = rapid.IntRange(0, 3).Draw(t, "tag")
	}
	if pk.Odds(t, "inconsistent", 8) {
		v.LTag = rapid.IntRange(1, 15).Draw(t, "ltag")
	}
	if pk.Odds(t, "broken", 8) {
		v.Broken = rapid.IntRange(1, 3).Draw(t, "brokenkind")
	}
	if pk.Odds(t, "noidx", 6) {
		v.NoIdx = rapid.IntRange(1, 15).Draw(t, "noidxbits")
	}
	return v
})

func worldGen(maxPrefix, minVers int) *rapid.Generator[World] {
	return rapid.Custom(func(t *rapid.T) World {
		n := rapid.IntRange(1, maxPrefix).Draw(t, "prefixes")
		var w World
		for i := 0; i < n; i++ {
			w.Hosts = append(w.Hosts, rapid.IntRange(0, 2).Draw(t, "host"))
			w.Flavor = append(w.Flavor, rapid.IntRange(0, 1).Draw(t, "flavor"))
			w.Aux = append(w.Aux, pk.Odds(t, "aux", 3))
			w.Vers = append(w.Vers, rapid.SliceOfN(verGen, minVers, 4).Draw(t, "vers"))
		}
		return w
	})
}
