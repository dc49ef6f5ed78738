package aptp

import (
	"bytes"
	"errors"
	"fmt"
	"path"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/cybozu-go/aptutil/apt"
	"verifharness/idx"
	"verifharness/pk"
)

// ---- damaged compressed streams -------------------------------------------

type damage struct {
	X    index
	Kind string // trunc, flip
	At   int    // per 10000 of the stream
	Bit  int
	All  bool // try every position of a small stream
}

func TestA03_damage(t *testing.T) {
	pk.Check(t, "A03_damage", func(t *rapid.T) damage {
		d := damage{X: indexGen(t), Kind: rapid.SampledFrom([]string{"trunc", "flip"}).Draw(t, "kind"),
			At: rapid.IntRange(0, 9999).Draw(t, "at"), Bit: rapid.IntRange(0, 7).Draw(t, "bit"), All: pk.Odds(t, "all", 3)}
		if d.X.Ext == "" {
			d.X.Ext = rapid.SampledFrom([]string{".gz", ".xz", ".bz2"}).Draw(t, "ext2")
		}
		d.X.Split, d.X.Pad = nil, 0
		return d
	}, func(c *pk.C, d damage) error {
		data, want := d.X.bytes()
		d.X.Chunks = nil
		c.Class(d.Kind + d.X.Ext)
		c.NonTrivialIf(len(want) >= 1)
		at := []int{len(data) * d.At / 10000}
		if d.All && len(data) < 1500 {
			c.Class("every-position")
			at = at[:0]
			for i := range data {
				at = append(at, i)
			}
		}
		for _, k := range at {
			bad := append([]byte{}, data...)
			if d.Kind == "trunc" {
				bad = bad[:k]
			} else {
				bad[k] ^= 1 << d.Bit
			}
			fil, _, err := apt.ExtractFileInfo(d.X.path(), &idx.Chunked{Data: bad, Chunks: d.X.Chunks, Limit: -1})
			if err != nil {
				if len(fil) != 0 {
					return fmt.Errorf("%s byte %d: error %v together with %d files", d.Kind, k, err, len(fil))
				}
				continue
			}
			if d.Kind == "trunc" {
				return fmt.Errorf("%s truncated to %d of %d bytes accepted with %d files", d.X.path(), k, len(data), len(fil))
			}
			// a flip in an unprotected header byte may be harmless: then
			// nothing may differ.
			if df := diffRecs(fil, want); df != "" {
				return fmt.Errorf("%s with bit %d of byte %d/%d flipped accepted with other contents: %s", d.X.path(), d.Bit, k, len(data), df)
			}
		}
		return nil
	})
}

// ---- readers that fail ------------------------------------------------------

type brokenIndex struct {
	X   index
	At  int // per 1000 of the data; 1000: all bytes arrive, then the failure
	Err int
	All bool
}

func TestA03_reader(t *testing.T) {
	pk.Check(t, "A03_reader", func(t *rapid.T) brokenIndex {
		return brokenIndex{indexGen(t), rapid.OneOf(rapid.IntRange(0, 1000), rapid.Just(1000)).Draw(t, "at"), errIdxGen.Draw(t, "err"), pk.Odds(t, "all", 5)}
	}, func(c *pk.C, d brokenIndex) error {
		data, want := d.X.bytes()
		c.NonTrivialIf(len(want) >= 1)
		c.Class("ext" + d.X.Ext)
		at := []int{len(data) * d.At / 1000}
		if d.All && len(data) < 1500 {
			c.Class("every-position")
			for i := 0; i <= len(data); i++ {
				at = append(at, i)
			}
		}
		for _, k := range at {
			fil, _, err := apt.ExtractFileInfo(d.X.path(), &idx.Chunked{Data: data, Chunks: d.X.Chunks, Limit: k, Err: readerErrs[d.Err]})
			if err == nil {
				return fmt.Errorf("%s: reading failed after %d of %d bytes (%v), accepted with %d files", d.X.path(), k, len(data), readerErrs[d.Err], len(fil))
			}
			if len(fil) != 0 {
				return fmt.Errorf("%s: error %v together with %d files", d.X.path(), err, len(fil))
			}
		}
		return nil
	})
}

// ---- entries that lack or mangle required data ----------------------------

type mangle struct {
	X     index
	Kind  string
	Which int
	Bad   string
}

func TestA03_mangle(t *testing.T) {
	pk.Check(t, "A03_mangle", func(t *rapid.T) mangle {
		m := mangle{X: indexGen(t), Which: rapid.IntRange(0, 9).Draw(t, "which"),
			Kind: rapid.SampledFrom([]string{"size", "digest", "nofile", "nosize", "fields", "field+"}).Draw(t, "kind")}
		if m.Kind == "size" {
			m.Bad = rapid.SampledFrom([]string{"abc", "-1", "1.5", "0x10", "18446744073709551616", "1e3", "12k"}).Draw(t, "badsize")
		} else if m.Kind == "digest" {
			m.Bad = rapid.SampledFrom([]string{"zz", "abc", "d41d8cd98f00b204e9800998ecf8427", "d41d8cd98f00b204e9800998ecf8427g", "-", "0x00"}).Draw(t, "baddigest")
		}
		return m
	}, func(c *pk.C, m mangle) error {
		text, want := m.X.plain()
		if len(want) == 0 {
			return nil
		}
		lines := strings.Split(strings.ReplaceAll(string(text), "\r\n", "\n"), "\n")
		// collect candidate lines
		var cand []int
		for i, l := range lines {
			f := strings.Fields(l)
			var ok bool
			switch m.X.Kind {
			case "Packages":
				switch m.Kind {
				case "size", "nosize":
					ok = strings.HasPrefix(l, "Size:")
				case "nofile":
					ok = strings.HasPrefix(l, "Filename:")
				case "digest":
					ok = strings.HasPrefix(l, "MD5sum:") || strings.HasPrefix(l, "SHA1:") || strings.HasPrefix(l, "SHA256:")
				}
			case "Sources":
				if m.Kind == "nofile" {
					ok = strings.HasPrefix(l, "Directory:")
					break
				}
				fallthrough
			default:
				ok = m.Kind != "nofile" && strings.HasPrefix(l, " ") && len(f) == 3 && idx.Hex(strings.ToLower(f[0])) && len(f[0]) >= 32 && len(f[0]) <= 64 // not the digests that are not read
			}
			if ok {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return nil
		}
		k := cand[m.Which%len(cand)]
		l := lines[k]
		f := strings.Fields(l)
		switch {
		case m.X.Kind == "Packages" && (m.Kind == "nosize" || m.Kind == "nofile"),
			m.X.Kind == "Sources" && m.Kind == "nofile":
			lines = append(lines[:k], lines[k+1:]...)
		case m.X.Kind == "Packages" && (m.Kind == "size" || m.Kind == "digest"):
			lines[k] = f[0] + " " + m.Bad
		case m.Kind == "size":
			lines[k] = fmt.Sprintf(" %s %s %s", f[0], m.Bad, f[2])
		case m.Kind == "digest":
			lines[k] = fmt.Sprintf(" %s %s %s", m.Bad, f[1], f[2])
		case m.Kind == "fields" || m.Kind == "nosize":
			lines[k] = fmt.Sprintf(" %s %s", f[0], f[2])
		case m.Kind == "field+":
			lines[k] = l + " extra"
		default:
			return nil
		}
		c.NonTrivial()
		c.Class(m.X.Kind + "-" + m.Kind)
		bad := idx.Compress(m.X.Ext, []byte(strings.Join(lines, "\n")))
		fil, _, err := apt.ExtractFileInfo(m.X.path(), bytes.NewReader(bad))
		if err == nil {
			return fmt.Errorf("%s with a mangled line %q -> %q accepted (%d files)", m.X.path(), l, lines[k], len(fil))
		}
		if len(fil) != 0 {
			return errors.New("error together with files")
		}
		return nil
	})
}

// ---- hostile paths ---------------------------------------------------------

type hostile struct {
	Kind string
	Dir  string
	Ext  string
	Name []string // path elements
	Sep  string
	Lead string
	Src  string
	Good idx.Rec
}

var hostSeg = rapid.SampledFrom([]string{"..", "..", "..", ".", "", "a", "etc", "...", "..a", "passwd", "pool", "%2e%2e", "..\\..", "\\"})

func TestA03_paths(t *testing.T) {
	pk.Check(t, "A03_paths", func(t *rapid.T) hostile {
		return hostile{
			Kind: rapid.SampledFrom([]string{"Packages", "Release", "Sources", "InRelease", "Index"}).Draw(t, "kind"),
			Dir:  rapid.SampledFrom([]string{"", "dists/x", "a"}).Draw(t, "dir"),
			Ext:  rapid.SampledFrom([]string{"", ".gz"}).Draw(t, "ext"),
			Name: rapid.SliceOfN(hostSeg, 1, 6).Draw(t, "name"),
			Sep:  rapid.SampledFrom([]string{"/", "/", "//"}).Draw(t, "sep"),
			Lead: rapid.SampledFrom([]string{"", "", "/", "./"}).Draw(t, "lead"),
			Src:  rapid.SampledFrom([]string{"pool/a", "..", "../x", ".", "/"}).Draw(t, "src"),
			Good: recGen(cleanPathGen, 7).Draw(t, "good"),
		}
	}, func(c *pk.C, h hostile) error {
		name := h.Lead + strings.Join(h.Name, h.Sep)
		if name == "" {
			return nil
		}
		r := h.Good
		r.Path = name
		var text []byte
		switch h.Kind {
		case "Packages":
			text = idx.Packages([]idx.Rec{h.Good, r})
		case "Sources":
			text = idx.Sources([]idx.Src{{Dir: h.Src, Files: []idx.Rec{r}}})
		default:
			text = idx.Release([]idx.Rec{h.Good, r}, "yes")
			if h.Kind == "InRelease" {
				text = idx.ClearSign(text)
			}
		}
		fil, _, err := apt.ExtractFileInfo(path.Join(h.Dir, h.Kind+h.Ext), bytes.NewReader(idx.Compress(h.Ext, text)))
		c.NonTrivialIf(strings.Contains(name, "..") || strings.Contains(h.Src, ".."))
		c.ClassIf(err != nil, "refused")
		if err != nil {
			if len(fil) != 0 {
				return errors.New("error together with files")
			}
			return nil
		}
		for _, fi := range fil {
			if p := path.Clean(fi.Path()); p == ".." || strings.HasPrefix(p, "../") {
				return fmt.Errorf("%s entry %q (dir %q): accepted path %q leads above the repository root", h.Kind, name, h.Src, fi.Path())
			}
			if p := fi.Path(); p != path.Clean(p) {
				return fmt.Errorf("accepted path %q is not clean", p)
			}
		}
		return nil
	})
}

// ---- arbitrary bytes --------------------------------------------------------

type junk struct {
	Name string
	Base int // 0 random, else mutated valid index
	X    index
	Data []byte
	Muts []mut
}

type mut struct {
	At, Del int
	Ins     string
}

var insGen = rapid.OneOf(rapid.SampledFrom([]string{"\n", "\n\n", ":", " ", "\t", "#", "..", "\r", "\x00", "\xff", "-----BEGIN PGP SIGNATURE-----\n", "-----BEGIN PGP SIGNED MESSAGE-----\n", "Size: ", "MD5Sum:\n", " 0 0 0\n", "Directory: x\n", "Filename: y\n"}), rapid.StringN(0, 6, 12))

func TestA03_junk(t *testing.T) {
	names := []string{"Release", "InRelease", "Packages", "Sources", "Index", "Release.gz", "Packages.gz", "Sources.xz", "Packages.bz2", "Index.gz", "Release.gpg", "Packages.xz", "Sources.bz2", "a/Packages.lz", "Release.lzma", "foo"}
	pk.Check(t, "A03_junk", func(t *rapid.T) junk {
		j := junk{Base: rapid.IntRange(0, 3).Draw(t, "base")}
		if j.Base == 0 {
			j.Name = rapid.SampledFrom(names).Draw(t, "name")
			j.Data = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "data")
		} else {
			j.X = indexGen(t)
			j.Muts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mut {
				return mut{rapid.IntRange(0, 9999).Draw(t, "at"), rapid.SampledFrom([]int{0, 0, 1, 5, 40}).Draw(t, "del"), insGen.Draw(t, "ins")}
			}), 1, 4).Draw(t, "muts")
		}
		return j
	}, func(c *pk.C, j junk) error {
		data, name := j.Data, j.Name
		if j.Base > 0 {
			name = j.X.path()
			data, _ = j.X.plain()
			for _, m := range j.Muts {
				at := len(data) * m.At / 10000
				end := at + m.Del
				if end > len(data) {
					end = len(data)
				}
				data = append(append(append([]byte{}, data[:at]...), m.Ins...), data[end:]...)
			}
			data = idx.Compress(j.X.Ext, data)
			c.NonTrivial()
		}
		c.NonTrivialIf(len(data) > 8)
		r := &countReader{r: bytes.NewReader(data)}
		fil, _, err := apt.ExtractFileInfo(name, r)
		c.ClassIf(err == nil, "accepted")
		if err != nil && len(fil) != 0 {
			return fmt.Errorf("error %v together with %d files", err, len(fil))
		}
		for _, fi := range fil {
			if p := fi.Path(); p == ".." || strings.HasPrefix(p, "../") {
				return fmt.Errorf("accepted path %q leads above the repository root", p)
			}
		}
		p := apt.NewParser(bytes.NewReader(data))
		for i := 0; ; i++ {
			q, err := p.Read()
			if err != nil {
				if q != nil {
					return errors.New("paragraph together with an error")
				}
				break
			}
			if i > len(data)+2 {
				return errors.New("parser does not terminate")
			}
		}
		return nil
	})
}

type countReader struct {
	r *bytes.Reader
	n int
}

func (c *countReader) Read(p []byte) (int, error) {
	c.n++
	return c.r.Read(p)
}
