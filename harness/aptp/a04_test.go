package aptp

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"path"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/cybozu-go/aptutil/apt"
	"verifharness/idx"
	"verifharness/pk"
)

func content(seed int64, n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(seed)).Read(b)
	return b
}

var lenGen = rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{0, 1, 511, 512, 4096, 32767, 32768, 32769, 65536, 100000, 200001}), rapid.IntRange(0, 70000))

type copyCase struct {
	Seed   int64
	N      int
	Path   string
	Chunks []int
	Src    int // -1: no source failure; else per mille
	Dst    int // -1: no destination failure
	Short  bool
	Mask   int
	Mut    string
	MutAt  int
	Err    int
	Other  uint64 // size first given to a record that is then calculated
}

type limitedWriter struct {
	buf   bytes.Buffer
	limit int
	short bool
}

var errDst = errors.New("destination failed")

func (w *limitedWriter) Write(p []byte) (int, error) {
	if w.limit >= 0 && w.buf.Len()+len(p) > w.limit {
		k := w.limit - w.buf.Len()
		w.buf.Write(p[:k])
		if w.short {
			return k, nil
		}
		return k, errDst
	}
	return w.buf.Write(p)
}

func flipHex(s string, at int) string {
	if s == "" {
		return s
	}
	b := []byte(s)
	i := at % len(b)
	if b[i] == '0' {
		b[i] = '1'
	} else {
		b[i] = '0'
	}
	return string(b)
}

func TestA04_copy(t *testing.T) {
	pk.Check(t, "A04_copy", func(t *rapid.T) copyCase {
		c := copyCase{Seed: rapid.Int64Range(0, 1000).Draw(t, "seed"), N: lenGen.Draw(t, "n"), Path: cleanPathGen.Draw(t, "path"),
			Chunks: rapid.SliceOfN(rapid.IntRange(1, 40000), 0, 4).Draw(t, "chunks"), Src: -1, Dst: -1,
			Mask: rapid.IntRange(0, 7).Draw(t, "mask"), MutAt: rapid.IntRange(0, 63).Draw(t, "mutat"),
			Mut: rapid.SampledFrom([]string{"", "", "path", "size+", "size-", "size32", "md5", "sha1", "sha256", "content", "len"}).Draw(t, "mut")}
		c.Other = sizeGen.Draw(t, "other")
		switch rapid.IntRange(0, 5).Draw(t, "fault") {
		case 4:
			c.Src = rapid.IntRange(0, 1000).Draw(t, "src")
			c.Err = errIdxGen.Draw(t, "err")
		case 5:
			c.Dst = rapid.IntRange(0, 999).Draw(t, "dst")
			c.Short = rapid.Bool().Draw(t, "short")
		}
		return c
	}, func(c *pk.C, s copyCase) error {
		data := content(s.Seed, s.N)
		src := &idx.Chunked{Data: data, Chunks: s.Chunks, Limit: -1}
		if len(s.Chunks) == 1 {
			src.Chunks = append(src.Chunks, 32768) // bound the number of reads
		}
		dst := &limitedWriter{limit: -1}
		if s.Src >= 0 {
			src.Limit, src.Err = s.N*s.Src/1000, readerErrs[s.Err]
		}
		if s.Dst >= 0 && s.N > 0 {
			dst.limit, dst.short = s.N*s.Dst/1000, s.Short
		}
		fi, err := apt.CopyWithFileInfo(dst, src, s.Path)
		if s.Src >= 0 || (s.Dst >= 0 && s.N > 0) {
			c.Class("failing-copy")
			c.NonTrivial()
			if err == nil || fi != nil {
				return fmt.Errorf("failing copy reported record %v, error %v", fi, err)
			}
			return nil
		}
		if err != nil {
			return err
		}
		if !bytes.Equal(dst.buf.Bytes(), data) {
			return fmt.Errorf("copied %d bytes differ from the %d source bytes", dst.buf.Len(), s.N)
		}
		want := idx.Of(s.Path, data)
		if got := ofFI(fi); got != want {
			return fmt.Errorf("measured %+v, want %+v", got, want)
		}
		fi2 := apt.MakeFileInfoNoChecksum(s.Path, uint64(s.N))
		if fi2.HasChecksum() {
			return errors.New("record without checksums claims to have some")
		}
		if got := ofFI(fi2); got != want.Mask(0) {
			return fmt.Errorf("record without checksums is %+v", got)
		}
		fi2.CalcChecksums(data)
		if got := ofFI(fi2); got != want || !fi2.HasChecksum() {
			return fmt.Errorf("calculated %+v, want %+v", got, want)
		}
		fi3 := apt.MakeFileInfoNoChecksum(s.Path, s.Other)
		fi3.CalcChecksums(content(s.Seed+1, s.N/2+1))
		fi3.CalcChecksums(data)
		if got := ofFI(fi3); got != want {
			return fmt.Errorf("calculated %+v for a record first made with size %d, want %+v", got, s.Other, want)
		}
		// comparison with an expected record deviating in one place
		exp := want.Mask(s.Mask)
		switch s.Mut {
		case "path":
			exp.Path += "x"
		case "size+":
			exp.Size++
		case "size-":
			exp.Size--
		case "size32":
			exp.Size += 1 << 32
		case "md5":
			exp.MD5 = flipHex(exp.MD5, s.MutAt)
		case "sha1":
			exp.SHA1 = flipHex(exp.SHA1, s.MutAt)
		case "sha256":
			exp.SHA256 = flipHex(exp.SHA256, s.MutAt)
		case "content":
			exp = idx.Of(s.Path, content(s.Seed+5000, s.N)).Mask(s.Mask)
		case "len":
			exp = idx.Of(s.Path, append(append([]byte{}, data...), 0)).Mask(s.Mask)
		}
		c.NonTrivialIf(s.Mask != 0)
		c.Class("mut-" + s.Mut)
		if got := mkFI(exp).Same(fi); got != exp.Same(want) {
			return fmt.Errorf("expected %+v against content %+v: Same = %v", exp, want, got)
		}
		if !fi.Same(fi2) || !fi2.Same(fi) {
			return errors.New("two measurements of the same content differ")
		}
		return nil
	})
}

// pairs of arbitrary records, either side with any digest subset
type samePair struct {
	A idx.Rec
	B idx.Rec
}

// variant derives a record from a by a few edits, so that pairs agree often.
func variant(t *rapid.T, a idx.Rec) idx.Rec {
	b := a
	for _, e := range rapid.SliceOfN(rapid.IntRange(0, 9), 0, 2).Draw(t, "edits") {
		switch e {
		case 0:
			b.MD5 = ""
		case 1:
			b.SHA1 = ""
		case 2:
			b.SHA256 = ""
		case 3:
			b.MD5 = flipHex(b.MD5, rapid.IntRange(0, 31).Draw(t, "at"))
		case 4:
			b.SHA1 = flipHex(b.SHA1, rapid.IntRange(0, 39).Draw(t, "at"))
		case 5:
			b.SHA256 = flipHex(b.SHA256, rapid.IntRange(0, 63).Draw(t, "at"))
		case 6:
			b.Size ^= 1 << rapid.IntRange(0, 62).Draw(t, "bit")
		case 7:
			b.Path = "z/" + b.Path
		case 8:
			b.Path = "z" + b.Path
		}
	}
	return b
}

func pairGen(t *rapid.T) samePair {
	a := recGen(cleanPathGen, 0).Draw(t, "a")
	return samePair{a, variant(t, a)}
}

func TestA04_same(t *testing.T) {
	pk.Check(t, "A04_same", pairGen, func(c *pk.C, s samePair) error {
		a, b := mkFI(s.A), mkFI(s.B)
		c.ClassIf(s.A.Same(s.B), "agree")
		c.NonTrivialIf(s.A != s.B)
		if got := a.Same(b); got != s.A.Same(s.B) {
			return fmt.Errorf("%+v against %+v: Same = %v", s.A, s.B, got)
		}
		if got := b.Same(a); got != s.B.Same(s.A) {
			return fmt.Errorf("%+v against %+v: Same = %v", s.B, s.A, got)
		}
		if !a.Same(a) || !a.Same(mkFI(s.A)) {
			return errors.New("record differs from itself")
		}
		return nil
	})
}

// ---- A05 -------------------------------------------------------------------

type jsonCase struct {
	L     []samePair
	Map   bool
	Raw   []string // paths of records made for a body, kept as they are given
	Reuse bool     // decode into records that hold other values
}

func TestA05_roundtrip(t *testing.T) {
	pk.Check(t, "A05_roundtrip", func(t *rapid.T) jsonCase {
		return jsonCase{rapid.SliceOfN(rapid.Custom(pairGen), 1, 4).Draw(t, "l"), rapid.Bool().Draw(t, "map"),
			rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]string{"", ".", "..", "a//b", "./a", "a/", "/a", "a/../b", "../a", "a/./b", "a b", "a\"b\\", "<&>", "\u2028"}), cleanPathGen), 0, 3).Draw(t, "raw"),
			rapid.Bool().Draw(t, "reuse")}
	}, func(c *pk.C, s jsonCase) error {
		back := map[string]*apt.FileInfo{}
		orig := map[string]*apt.FileInfo{}
		for i, p := range s.L {
			orig[fmt.Sprint("a", i)] = mkFI(p.A)
			orig[fmt.Sprint("b", i)] = mkFI(p.B)
			if p.A.MD5 == "" && p.A.SHA1 == "" && p.A.SHA256 == "" {
				orig[fmt.Sprint("n", i)] = apt.MakeFileInfoNoChecksum(p.A.Path, p.A.Size)
			}
		}
		for i, p := range s.Raw {
			orig[fmt.Sprint("r", i)] = apt.MakeFileInfoNoChecksum(p, uint64(i))
			fi, err := apt.CopyWithFileInfo(io.Discard, strings.NewReader(p), p)
			if err != nil {
				return err
			}
			orig[fmt.Sprint("s", i)] = fi
		}
		if s.Map {
			b, err := json.Marshal(orig)
			if err != nil {
				return err
			}
			if err := json.Unmarshal(b, &back); err != nil {
				return err
			}
		} else {
			for k, fi := range orig {
				b, err := json.Marshal(fi)
				if err != nil {
					return err
				}
				x := &apt.FileInfo{}
				if s.Reuse {
					y := *orig["a0"]
					x = &y
				}
				if err := json.Unmarshal(b, x); err != nil {
					return err
				}
				back[k] = x
			}
		}
		c.NonTrivial()
		for k, fi := range orig {
			x, ok := back[k]
			if !ok || x == nil {
				return errors.New("record lost: " + k)
			}
			if x.MD5SumPath() != fi.MD5SumPath() || x.SHA1Path() != fi.SHA1Path() || x.SHA256Path() != fi.SHA256Path() {
				return fmt.Errorf("by-hash locations changed: %q %q %q became %q %q %q", fi.MD5SumPath(), fi.SHA1Path(), fi.SHA256Path(), x.MD5SumPath(), x.SHA1Path(), x.SHA256Path())
			}
			if x.Path() != fi.Path() || x.Size() != fi.Size() || x.HasChecksum() != fi.HasChecksum() {
				return fmt.Errorf("path, size or checksum presence changed: %+v %v became %+v %v", ofFI(fi), fi.HasChecksum(), ofFI(x), x.HasChecksum())
			}
			for k2, o := range orig {
				if x.Same(o) != fi.Same(o) || o.Same(x) != o.Same(fi) || x.Same(back[k2]) != fi.Same(o) {
					return fmt.Errorf("verdict of %+v against %+v changed by the round trip", ofFI(fi), ofFI(o))
				}
			}
		}
		return nil
	})
}

type badJSON struct {
	R     idx.Rec
	Field int
	Bad   string
}

func TestA05_malformed(t *testing.T) {
	pk.Check(t, "A05_malformed", func(t *rapid.T) badJSON {
		return badJSON{recGen(cleanPathGen, 7).Draw(t, "r"), rapid.IntRange(0, 2).Draw(t, "field"),
			rapid.SampledFrom([]string{"z", "abc", "0x12", "g0", " 00", "00 ", "é"}).Draw(t, "bad")}
	}, func(c *pk.C, s badJSON) error {
		b, err := json.Marshal(mkFI(s.R))
		if err != nil {
			return err
		}
		dg := []string{s.R.MD5, s.R.SHA1, s.R.SHA256}[s.Field]
		if strings.Count(string(b), `"`+dg+`"`) != 1 {
			return nil // another encoding of digests: nothing to mangle here
		}
		c.NonTrivial()
		bad := strings.Replace(string(b), `"`+dg+`"`, `"`+s.Bad+`"`, 1)
		var fi apt.FileInfo
		if err := json.Unmarshal([]byte(bad), &fi); err == nil {
			return fmt.Errorf("malformed digest accepted: %s", bad)
		}
		return nil
	})
}

// ---- A06 -------------------------------------------------------------------

type classify struct {
	Dir, Base, Ext string
}

var metaRe = regexp.MustCompile(`(^|/)(Release|Release\.gpg|InRelease|Packages|Sources|Index)(\.gz|\.bz2|\.xz|\.lzma|\.lz)?$`)

func TestA06_classify(t *testing.T) {
	pk.Check(t, "A06_classify", func(t *rapid.T) classify {
		return classify{
			rapid.SampledFrom([]string{"", "", "dists/stable/main/binary-amd64/", "a.b/", "Packages/", "x.gz/", "/", "by-hash/", "Release.d/"}).Draw(t, "dir"),
			rapid.OneOf(rapid.SampledFrom([]string{"Release", "Release.gpg", "InRelease", "Packages", "Sources", "Index", "Packages.diff", "release", "PACKAGES", "XPackages", "Packagesx", "Packages-x", "InRelease.gpg", "Contents-amd64", "Contents", "Translation-en", "Translation", "Components-amd64.yml", "Release-file", "Releases", "Package", "Source", "index", "Commands-amd64", "icons-64x64.tar", "md5sums", "MD5SUMS", "SHA256SUMS", "Diff_Index", "by-hash", ""}), segGen).Draw(t, "base"),
			rapid.SampledFrom([]string{"", "", ".gz", ".bz2", ".xz", ".lzma", ".lz", ".gpg", ".zst", ".Z", ".gz.gz", ".xz.gz", ".gpg.gz", "gz", ".tgz", ".", ".GZ", ".lz4"}).Draw(t, "ext"),
		}
	}, func(c *pk.C, s classify) error {
		p := s.Dir + s.Base + s.Ext
		if p == "" || strings.HasSuffix(p, "/") {
			return nil
		}
		want := metaRe.MatchString(p)
		c.ClassIf(want, "index")
		c.NonTrivialIf(want || s.Ext != "")
		if got := apt.IsMeta(p); got != want {
			return fmt.Errorf("IsMeta(%q) = %v", p, got)
		}
		ext := path.Ext(p)
		text := idx.Release([]idx.Rec{idx.Of("a", nil)}, "yes")
		switch {
		case strings.Contains(path.Base(p), "Packages"):
			text = idx.Packages([]idx.Rec{idx.Of("a", nil)})
		case strings.Contains(path.Base(p), "Sources"):
			text = idx.Sources([]idx.Src{{Dir: "d", Files: []idx.Rec{idx.Of("a", nil)}}})
		case strings.Contains(path.Base(p), "gpg"):
			text = []byte("-----BEGIN PGP SIGNATURE-----\n")
		}
		data := text
		if ext == ".gz" || ext == ".bz2" || ext == ".xz" {
			data = idx.Compress(ext, text)
		}
		fil, _, err := apt.ExtractFileInfo(p, bytes.NewReader(data))
		if !want {
			if err == nil {
				return fmt.Errorf("ExtractFileInfo accepts the non-index %q", p)
			}
			return nil
		}
		sup := ext != ".lzma" && ext != ".lz"
		if apt.IsSupported(p) != sup {
			return fmt.Errorf("IsSupported(%q) = %v", p, !sup)
		}
		if sup != (err == nil) {
			return fmt.Errorf("%q: supported %v, extraction error %v", p, sup, err)
		}
		n := 1
		if strings.Contains(path.Base(p), "gpg") || !sup {
			n = 0
		}
		if len(fil) != n {
			return fmt.Errorf("%q: %d files extracted, want %d", p, len(fil), n)
		}
		return nil
	})
}

type byhash struct {
	R      idx.Rec
	Prefix string
}

func TestA06_paths(t *testing.T) {
	pk.Check(t, "A06_paths", func(t *rapid.T) byhash {
		return byhash{recGen(cleanPathGen, 0).Draw(t, "r"), rapid.SampledFrom([]string{"ubuntu", "a", "x.y_z-1", "ubuntu/", "./a", "a/b"}).Draw(t, "prefix")}
	}, func(c *pk.C, s byhash) error {
		fi := mkFI(s.R)
		c.NonTrivialIf(s.R.MD5+s.R.SHA1+s.R.SHA256 != "")
		check := func(fi *apt.FileInfo, p string) error {
			if fi.Path() != p || fi.Size() != s.R.Size {
				return fmt.Errorf("path %q size %d, want %q %d", fi.Path(), fi.Size(), p, s.R.Size)
			}
			dir := ""
			if i := strings.LastIndex(p, "/"); i >= 0 {
				dir = p[:i+1]
			}
			for _, x := range []struct{ got, alg, hex string }{{fi.MD5SumPath(), "MD5Sum", s.R.MD5}, {fi.SHA1Path(), "SHA1", s.R.SHA1}, {fi.SHA256Path(), "SHA256", s.R.SHA256}} {
				want := ""
				if x.hex != "" {
					want = dir + "by-hash/" + x.alg + "/" + x.hex
				}
				if x.got != want {
					return fmt.Errorf("by-hash location %q, want %q", x.got, want)
				}
			}
			return nil
		}
		if err := check(fi, s.R.Path); err != nil {
			return err
		}
		pre := fi.AddPrefix(s.Prefix)
		if err := check(fi, s.R.Path); err != nil {
			return fmt.Errorf("original altered by AddPrefix: %v", err)
		}
		return check(pre, strings.TrimSuffix(strings.TrimPrefix(s.Prefix, "./"), "/")+"/"+s.R.Path)
	})
}
