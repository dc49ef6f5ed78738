package aptp

import (
	"bytes"
	"errors"
	"fmt"
	"path"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/cybozu-go/aptutil/apt"
	"verifharness/idx"
	"verifharness/pk"
)

type entry struct {
	R    idx.Rec
	Dot  bool // spelled with a leading "./"
	Self bool // a self entry of a Release file: must be ignored
	Rep  bool // its lines are repeated
}

type index struct {
	Kind    string // Release InRelease Index Packages Sources
	Dir     string
	Ext     string
	PGP     bool
	CRLF    bool
	Upper   bool // digests in upper case
	ByHash  string
	Entries []entry
	SrcDirs []string
	Group   []int // entry -> source directory (Sources)
	Order   []int // section order
	Blank   int   // trailing blank lines
	Noise   []string
	Split   []int // compressed members (gz, xz): split points per mille
	Chunks  []int
	Block   int64 // xz: block size
	Pad     int   // xz: 4-byte units of stream padding
}

func indexGen(t *rapid.T) index {
	x := index{
		Kind:   rapid.SampledFrom([]string{"Packages", "Release", "Sources", "InRelease", "Index"}).Draw(t, "kind"),
		Dir:    rapid.SampledFrom([]string{"", "dists/stable", "dists/stable/updates", "a", "dists/s/main/binary-amd64"}).Draw(t, "dir"),
		Ext:    rapid.SampledFrom([]string{"", "", ".gz", ".gz", ".xz", ".bz2"}).Draw(t, "ext"),
		CRLF:   pk.Odds(t, "crlf", 6),
		Upper:  pk.Odds(t, "upper", 8),
		ByHash: rapid.SampledFrom([]string{"", "yes", "yes", "no", "yesterday", "yes, please", "nyes", "no yes", "eyes", "ye"}).Draw(t, "byhash"),
		Blank:  rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "blank"),
		Order:  rapid.Permutation([]int{0, 1, 2}).Draw(t, "order"),
		Chunks: rapid.SliceOfN(rapid.IntRange(1, 700), 0, 3).Draw(t, "chunks"),
		Noise: rapid.SliceOfN(rapid.SampledFrom([]string{"X-Extra: 1", "# comment", "Description: long\n text: here\n .", "Changelogs: https://x/@CHANGEPATH@", "Empty:", "SHA512: " + strings.Repeat("0f", 64), "Checksums-Sha512:\n " + strings.Repeat("0f", 64) + " 7 zz_1.dsc",
			"Package-List:\n foo deb admin optional arch=any", "Description-md5: 0123456789abcdef0123456789abcdef", "SHA3-256: 12"}), 0, 3).Draw(t, "noise"),
	}
	x.PGP = x.Kind == "InRelease" || (x.Kind == "Release" && pk.Odds(t, "pgp", 8))
	min := 0
	if x.Kind != "Packages" {
		min = 1
	}
	l := rapid.SliceOfN(recGen(cleanPathGen, min), 0, 7).Draw(t, "entries")
	seen := map[string]bool{}
	if x.Kind == "Sources" {
		x.SrcDirs = rapid.SliceOfN(cleanPathGen, 1, 3).Draw(t, "srcdirs")
	}
	for i, r := range l {
		e := entry{R: r, Dot: pk.Odds(t, "dot", 6), Rep: pk.Odds(t, "rep", 8)}
		key := r.Path
		if x.Kind == "Sources" {
			e.R.Path = path.Base(r.Path)
			g := rapid.IntRange(0, len(x.SrcDirs)-1).Draw(t, "group")
			x.Group = append(x.Group, g)
			key = path.Join(x.SrcDirs[g], e.R.Path)
			e.Dot = false
		}
		if x.Kind == "Packages" {
			e.Rep = false
		}
		if seen[key] {
			if x.Kind == "Sources" {
				x.Group = x.Group[:len(x.Group)-1]
			}
			continue
		}
		if x.Kind != "Packages" && x.Kind != "Sources" && (r.Path == "Release" || r.Path == "InRelease" || r.Path == "Release.gpg") {
			e.Self = true
		}
		_ = i
		seen[key] = true
		x.Entries = append(x.Entries, e)
	}
	if (x.Kind == "Release" || x.Kind == "InRelease") && pk.Odds(t, "self", 3) {
		for _, n := range []string{"Release", "Release.gpg", "InRelease"} {
			if !seen[n] {
				x.Entries = append(x.Entries, entry{R: idx.Of(n, []byte(n)), Self: true})
			}
		}
	}
	if x.Ext == ".xz" && pk.Odds(t, "blocks", 2) {
		x.Block = rapid.SampledFrom([]int64{64, 200, 1000}).Draw(t, "block")
		x.Pad = rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "pad")
	}
	if (x.Ext == ".gz" || x.Ext == ".xz") && pk.Odds(t, "split", 3) {
		x.Split = []int{rapid.IntRange(0, 1000).Draw(t, "splitat")}
	}
	return x
}

func (x index) path() string { return path.Join(x.Dir, x.Kind+x.Ext) }

func (x index) hx(s string) string {
	if x.Upper {
		return strings.ToUpper(s)
	}
	return s
}

// plain renders the uncompressed index and the records it lists.
func (x index) plain() (text []byte, want []idx.Rec) {
	var b strings.Builder
	ind := func(r idx.Rec, e entry) string {
		if e.Dot {
			return "./" + r.Path
		}
		return r.Path
	}
	switch x.Kind {
	case "Packages":
		for i, e := range x.Entries {
			if i > 0 {
				b.WriteString("\n")
			}
			fmt.Fprintf(&b, "Package: p%d\n", i)
			for k, n := range x.Noise {
				if (k+i)%2 == 0 {
					b.WriteString(n + "\n")
				}
			}
			fl := []string{fmt.Sprintf("Filename: %s\nSize: %d\n", ind(e.R, e), e.R.Size), "", ""}
			if e.R.MD5 != "" {
				fl[1] += "MD5sum: " + x.hx(e.R.MD5) + "\n"
			}
			if e.R.SHA1 != "" {
				fl[1] += "SHA1: " + x.hx(e.R.SHA1) + "\n"
			}
			if e.R.SHA256 != "" {
				fl[2] += "SHA256:  " + x.hx(e.R.SHA256) + " \n"
			}
			for _, o := range x.Order {
				b.WriteString(fl[o])
			}
			want = append(want, e.R)
		}
	case "Sources":
		heads := []string{"Files:", "Checksums-Sha1:", "Checksums-Sha256:"}
		first := true
		for g, dir := range x.SrcDirs {
			if !first {
				b.WriteString("\n")
			}
			first = false
			fmt.Fprintf(&b, "Package: s%d\nDirectory: %s\n", g, dir)
			for _, n := range x.Noise {
				b.WriteString(n + "\n")
			}
			for _, o := range x.Order {
				var sec string
				for i, e := range x.Entries {
					if x.Group[i] != g {
						continue
					}
					dg := []string{e.R.MD5, e.R.SHA1, e.R.SHA256}[o]
					if dg != "" {
						sec += fmt.Sprintf(" %s %d %s\n", x.hx(dg), e.R.Size, e.R.Path)
						if e.Rep {
							sec += fmt.Sprintf(" %s %d %s\n", x.hx(dg), e.R.Size, e.R.Path)
						}
					}
				}
				if sec != "" {
					b.WriteString(heads[o] + "\n" + sec)
				}
			}
		}
		for i, e := range x.Entries {
			r := e.R
			r.Path = path.Join(x.SrcDirs[x.Group[i]], r.Path)
			want = append(want, r)
		}
	default:
		b.WriteString("Origin: Verif\nSuite: x\n")
		if x.ByHash != "" {
			b.WriteString("Acquire-By-Hash: " + x.ByHash + "\n")
		}
		for _, n := range x.Noise {
			b.WriteString(n + "\n")
		}
		heads := []string{"MD5Sum:", "SHA1:", "SHA256:"}
		for _, o := range x.Order {
			var sec string
			for _, e := range x.Entries {
				dg := []string{e.R.MD5, e.R.SHA1, e.R.SHA256}[o]
				if dg != "" {
					sec += fmt.Sprintf(" %s\t%16d %s\n", x.hx(dg), e.R.Size, ind(e.R, e))
					if e.Rep {
						sec += fmt.Sprintf(" %s %d %s\n", x.hx(dg), e.R.Size, ind(e.R, e))
					}
				}
			}
			if sec != "" {
				b.WriteString(heads[o] + "\n" + sec)
			}
		}
		for _, e := range x.Entries {
			if !e.Self {
				r := e.R
				r.Path = path.Join(x.Dir, r.Path)
				want = append(want, r)
			}
		}
	}
	b.WriteString(strings.Repeat("\n", x.Blank))
	text = []byte(b.String())
	if x.PGP {
		text = idx.ClearSign(text)
	}
	if x.CRLF {
		text = idx.CRLF(text)
	}
	return
}

func (x index) bytes() ([]byte, []idx.Rec) {
	text, want := x.plain()
	comp := func(b []byte) []byte {
		if x.Ext == ".xz" {
			return append(idx.XZ(b, x.Block), make([]byte, 4*x.Pad)...)
		}
		return idx.Compress(x.Ext, b)
	}
	if len(x.Split) > 0 && (x.Ext == ".gz" || x.Ext == ".xz") {
		k := len(text) * x.Split[0] / 1000
		return append(append([]byte{}, comp(text[:k])...), comp(text[k:])...), want
	}
	return comp(text), want
}

func TestA02_extract(t *testing.T) {
	pk.Check(t, "A02_extract", indexGen, func(c *pk.C, x index) error {
		data, want := x.bytes()
		fil, d, err := apt.ExtractFileInfo(x.path(), &idx.Chunked{Data: data, Chunks: x.Chunks, Limit: -1})
		c.NonTrivialIf(len(want) >= 2)
		c.Class(x.Kind)
		c.Class("ext" + x.Ext)
		c.ClassIf(len(x.Split) > 0, "multi-member")
		c.ClassIf(x.Block > 0 && int64(len(data)) > x.Block, "xz-blocks")
		c.ClassIf(x.Pad > 0, "xz-padding")
		partial := false
		for _, r := range want {
			partial = partial || r.MD5 == "" || r.SHA1 == "" || r.SHA256 == ""
		}
		c.ClassIf(partial, "partial-digests")
		if err != nil {
			return fmt.Errorf("well-formed %s refused: %v", x.path(), err)
		}
		if df := diffRecs(fil, want); df != "" {
			return errors.New(x.path() + ": " + df)
		}
		if x.Kind == "Release" || x.Kind == "InRelease" {
			if d == nil {
				return errors.New("no Release paragraph returned")
			}
			if got := apt.SupportByHash(d); got != (strings.TrimSpace(x.ByHash) == "yes") {
				return fmt.Errorf("Acquire-By-Hash: %q reported as by-hash=%v", x.ByHash, got)
			}
		}
		// the compression makes no difference
		plainName := strings.TrimSuffix(x.path(), x.Ext)
		text, _ := x.plain()
		fil2, _, err := apt.ExtractFileInfo(plainName, bytes.NewReader(text))
		if err != nil {
			return fmt.Errorf("plain form refused: %v", err)
		}
		if df := diffRecs(fil2, want); df != "" {
			return errors.New("plain form: " + df)
		}
		return nil
	})
}

// manyIndex stands for an index with as many entries as real ones have.
type manyIndex struct {
	Kind, Dir, Ext string
	N, Mask, Salt  int
	PGP            bool
	Chunk          int
}

func (m manyIndex) index() index {
	x := index{Kind: m.Kind, Dir: m.Dir, Ext: m.Ext, PGP: m.PGP, Order: []int{m.Salt % 3, (m.Salt + 1) % 3, (m.Salt + 2) % 3}, ByHash: "yes"}
	if m.Chunk > 0 {
		x.Chunks = []int{m.Chunk}
	}
	for i := 0; i < m.N; i++ {
		n := fmt.Sprintf("pool/%c/p%d/p%d_%d%s.deb", 'a'+i%26, i/7, i, m.Salt, strings.Repeat("x", (i*m.Salt)%41))
		r := idx.Of(n, []byte(fmt.Sprint(n, i)))
		r.Size += uint64(i) << (m.Salt % 30)
		k := m.Mask
		if k == 0 {
			k = 1 + (i*13+m.Salt)%7
		}
		if k&1 == 0 {
			r.MD5 = ""
		}
		if k&2 == 0 {
			r.SHA1 = ""
		}
		if k&4 == 0 {
			r.SHA256 = ""
		}
		if x.Kind == "Sources" {
			r.Path = path.Base(n)
			g := i / 3
			for len(x.SrcDirs) <= g {
				x.SrcDirs = append(x.SrcDirs, fmt.Sprintf("pool/s%d", len(x.SrcDirs)))
			}
			x.Group = append(x.Group, g)
		}
		x.Entries = append(x.Entries, entry{R: r})
	}
	return x
}

func TestA02_many(t *testing.T) {
	pk.Check(t, "A02_many", func(t *rapid.T) manyIndex {
		return manyIndex{
			Kind: rapid.SampledFrom([]string{"Packages", "Release", "Sources", "InRelease", "Index"}).Draw(t, "kind"),
			Dir:  rapid.SampledFrom([]string{"", "dists/stable"}).Draw(t, "dir"),
			Ext:  rapid.SampledFrom([]string{"", ".gz", ".xz", ".bz2"}).Draw(t, "ext"),
			N:    1 + pk.Uniform(t, "n", 1000), Mask: rapid.SampledFrom([]int{7, 4, 0, 3, 1}).Draw(t, "mask"), Salt: rapid.IntRange(0, 99).Draw(t, "salt"),
			PGP: rapid.Bool().Draw(t, "pgp"), Chunk: rapid.SampledFrom([]int{0, 4096, 1, 511}).Draw(t, "chunk"),
		}
	}, func(c *pk.C, m manyIndex) error {
		if m.Kind == "InRelease" {
			m.PGP = true
		} else if m.Kind != "Release" {
			m.PGP = false
		}
		if m.Kind != "Sources" && m.Ext != ".bz2" && m.Salt%8 == 7 {
			m.N *= 4
		}
		c.ClassIf(m.N > 5000, "more than 5000 entries")
		x := m.index()
		data, want := x.bytes()
		c.NonTrivialIf(m.N > 100)
		c.Class(m.Kind + m.Ext)
		fil, _, err := apt.ExtractFileInfo(x.path(), &idx.Chunked{Data: data, Chunks: x.Chunks, Limit: -1})
		if err != nil {
			return fmt.Errorf("well-formed %s of %d entries refused: %v", x.path(), m.N, err)
		}
		if df := diffRecs(fil, want); df != "" {
			return fmt.Errorf("%s of %d entries: %s", x.path(), m.N, df)
		}
		return nil
	})
}

// A shared file may be listed by several sources, with all digests each time.
type sharedSrc struct {
	Orig idx.Rec
	N    int
	Own  []idx.Rec
}

func TestA02_shared(t *testing.T) {
	pk.Check(t, "A02_shared", func(t *rapid.T) sharedSrc {
		s := sharedSrc{Orig: recGen(segGen, 7).Draw(t, "orig"), N: rapid.IntRange(2, 4).Draw(t, "n")}
		s.Own = rapid.SliceOfN(recGen(segGen, 7), s.N, s.N).Draw(t, "own")
		return s
	}, func(c *pk.C, s sharedSrc) error {
		var srcs []idx.Src
		want := map[string]idx.Rec{}
		for i := 0; i < s.N; i++ {
			own := s.Own[i]
			own.Path = fmt.Sprintf("own%d", i)
			srcs = append(srcs, idx.Src{Dir: "pool/s", Files: []idx.Rec{s.Orig, own}})
			for _, r := range []idx.Rec{s.Orig, own} {
				r.Path = path.Join("pool/s", r.Path)
				want[r.Path] = r
			}
		}
		var wl []idx.Rec
		for _, r := range want {
			wl = append(wl, r)
		}
		c.NonTrivial()
		fil, _, err := apt.ExtractFileInfo("main/source/Sources", bytes.NewReader(idx.Sources(srcs)))
		if err != nil {
			return err
		}
		if df := diffRecs(fil, wl); df != "" {
			return errors.New(df)
		}
		return nil
	})
}
