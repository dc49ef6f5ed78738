// Package idx renders Debian control files and index files from plain models.
// It shares no code with the library under test.
package idx

import (
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"os/exec"
	"strings"

	"github.com/ulikunitz/xz"
)

// Rec is one listed file: digests are lower-case hex, "" means not listed.
type Rec struct {
	Path   string
	Size   uint64
	MD5    string
	SHA1   string
	SHA256 string
}

// Of measures data.
func Of(path string, data []byte) Rec {
	m := md5.Sum(data)
	s1 := sha1.Sum(data)
	s2 := sha256.Sum256(data)
	return Rec{path, uint64(len(data)), hex.EncodeToString(m[:]), hex.EncodeToString(s1[:]), hex.EncodeToString(s2[:])}
}

// Mask keeps the digests selected by bits 1 (md5), 2 (sha1), 4 (sha256).
func (r Rec) Mask(m int) Rec {
	if m&1 == 0 {
		r.MD5 = ""
	}
	if m&2 == 0 {
		r.SHA1 = ""
	}
	if m&4 == 0 {
		r.SHA256 = ""
	}
	return r
}

// Same is the reference comparison: expected record r against measured t.
func (r Rec) Same(t Rec) bool {
	return r.Path == t.Path && r.Size == t.Size &&
		(r.MD5 == "" || r.MD5 == t.MD5) &&
		(r.SHA1 == "" || r.SHA1 == t.SHA1) &&
		(r.SHA256 == "" || r.SHA256 == t.SHA256)
}

// Conflicts tells that no file can match both r and t.
func (r Rec) Conflicts(t Rec) bool {
	differ := func(a, b string) bool { return a != "" && b != "" && a != b }
	return r.Size != t.Size || differ(r.MD5, t.MD5) || differ(r.SHA1, t.SHA1) || differ(r.SHA256, t.SHA256)
}

// Packages renders a Packages file (Path = Filename as spelled).
func Packages(recs []Rec) []byte {
	var b bytes.Buffer
	for i, r := range recs {
		if i > 0 {
			b.WriteString("\n")
		}
		fmt.Fprintf(&b, "Package: p%d\nVersion: 1.%d\nArchitecture: amd64\n", i, i)
		fmt.Fprintf(&b, "Filename: %s\nSize: %d\n", r.Path, r.Size)
		if r.MD5 != "" {
			fmt.Fprintf(&b, "MD5sum: %s\n", r.MD5)
		}
		if r.SHA1 != "" {
			fmt.Fprintf(&b, "SHA1: %s\n", r.SHA1)
		}
		if r.SHA256 != "" {
			fmt.Fprintf(&b, "SHA256: %s\n", r.SHA256)
		}
		b.WriteString("Description: a package\n with a long\n .\n description\n")
	}
	return b.Bytes()
}

// Sources renders a Sources file; each source has a directory and files whose
// Path is the bare name.
type Src struct {
	Dir   string
	Files []Rec
}

func Sources(srcs []Src) []byte {
	var b bytes.Buffer
	for i, s := range srcs {
		if i > 0 {
			b.WriteString("\n")
		}
		fmt.Fprintf(&b, "Package: s%d\nFormat: 3.0 (quilt)\nDirectory: %s\n", i, s.Dir)
		section(&b, "Files:", s.Files, func(r Rec) string { return r.MD5 })
		section(&b, "Checksums-Sha1:", s.Files, func(r Rec) string { return r.SHA1 })
		section(&b, "Checksums-Sha256:", s.Files, func(r Rec) string { return r.SHA256 })
	}
	return b.Bytes()
}

func section(b *bytes.Buffer, head string, recs []Rec, f func(Rec) string) {
	n := 0
	for _, r := range recs {
		if d := f(r); d != "" {
			if n == 0 {
				b.WriteString(head + "\n")
			}
			n++
			fmt.Fprintf(b, " %s %d %s\n", d, r.Size, r.Path)
		}
	}
}

// Release renders a Release file listing recs by Path.
func Release(recs []Rec, byhash string, extra ...string) []byte {
	var b bytes.Buffer
	b.WriteString("Origin: Verif\nSuite: stable\nDate: Thu, 01 Jan 2015 00:00:00 UTC\n")
	if byhash != "" {
		b.WriteString("Acquire-By-Hash: " + byhash + "\n")
	}
	for _, x := range extra {
		b.WriteString(x + "\n")
	}
	// fields of real release files, which mean nothing here
	sum := 0
	for _, r := range recs {
		sum += int(r.Size) + len(r.Path)
	}
	if sum%2 == 1 {
		b.WriteString("Valid-Until: Thu, 08 Jan 2015 00:00:00 UTC\nLabel: Verif\nCodename: v\nArchitectures: amd64 i386\nComponents: main free\n")
	}
	if sum%3 == 1 {
		b.WriteString("NotAutomatic: yes\nButAutomaticUpgrades: yes\nDescription: words\nChangelogs: no\n")
	}
	section(&b, "MD5Sum:", recs, func(r Rec) string { return r.MD5 })
	section(&b, "SHA1:", recs, func(r Rec) string { return r.SHA1 })
	section(&b, "SHA256:", recs, func(r Rec) string { return r.SHA256 })
	return b.Bytes()
}

// ClearSign wraps text in a PGP clear-signature envelope.
func ClearSign(text []byte) []byte {
	var b bytes.Buffer
	b.WriteString("-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\n")
	b.Write(text)
	if len(text) > 0 && text[len(text)-1] != '\n' {
		b.WriteByte('\n')
	}
	b.WriteString("-----BEGIN PGP SIGNATURE-----\nVersion: GnuPG v1\n\niQIcBAEBCAAGBQJW\nabcdef==\n=ABCD\n-----END PGP SIGNATURE-----\n")
	return b.Bytes()
}

// Exts lists the supported compressions.
var Exts = []string{"", ".gz", ".bz2", ".xz"}

// XZ compresses to xz, with blocks of the given size when it is positive.
func XZ(data []byte, block int64) []byte {
	var b bytes.Buffer
	w, err := xz.WriterConfig{DictCap: 1 << 16, BlockSize: block}.NewWriter(&b)
	if err != nil {
		panic(err)
	}
	w.Write(data)
	w.Close()
	return b.Bytes()
}

var bz2cache = map[string][]byte{}

// Compress compresses data for ext, deterministically.
func Compress(ext string, data []byte) []byte {
	switch ext {
	case "":
		return data
	case ".gz":
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write(data)
		w.Close()
		return b.Bytes()
	case ".xz":
		return XZ(data, 0)
	case ".bz2":
		if len(data) < 1<<16 {
			if c, ok := bz2cache[string(data)]; ok {
				return c
			}
		}
		cmd := exec.Command("/usr/bin/bzip2", "-c")
		cmd.Stdin = bytes.NewReader(data)
		out, err := cmd.Output()
		if err != nil {
			panic(err)
		}
		if len(data) < 1<<16 {
			if len(bz2cache) > 2000 {
				bz2cache = map[string][]byte{}
			}
			bz2cache[string(data)] = out
		}
		return out
	}
	panic("unknown ext " + ext)
}

// Chunked is a reader that returns data in the given chunk sizes (cycled) and
// ends with err (io.EOF when nil) after limit bytes (limit < 0: all).
type Chunked struct {
	Data   []byte
	Chunks []int
	Limit  int
	Err    error
	i, n   int
}

func (c *Chunked) Read(p []byte) (int, error) {
	end := len(c.Data)
	if c.Limit >= 0 && c.Limit < end {
		end = c.Limit
	}
	if c.n >= end {
		if c.Err != nil {
			return 0, c.Err
		}
		return 0, io.EOF
	}
	k := len(p)
	if len(c.Chunks) > 0 {
		k = c.Chunks[c.i%len(c.Chunks)]
		c.i++
		if k < 1 {
			k = 1
		}
	}
	if k > len(p) {
		k = len(p)
	}
	if k > end-c.n {
		k = end - c.n
	}
	copy(p, c.Data[c.n:c.n+k])
	c.n += k
	return k, nil
}

// CRLF converts line ends.
func CRLF(b []byte) []byte { return bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n")) }

// Hex reports whether s is non-empty lower-case hex.
func Hex(s string) bool {
	return s != "" && strings.Trim(s, "0123456789abcdef") == ""
}
