package aptp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"

	"pgregory.net/rapid"

	"github.com/cybozu-go/aptutil/apt"
	"verifharness/idx"
	"verifharness/pk"
)

// ofFI observes a record through its public interface.
func ofFI(fi *apt.FileInfo) idx.Rec {
	r := idx.Rec{Path: fi.Path(), Size: fi.Size()}
	r.MD5 = lastElem(fi.MD5SumPath())
	r.SHA1 = lastElem(fi.SHA1Path())
	r.SHA256 = lastElem(fi.SHA256Path())
	return r
}

func lastElem(p string) string {
	if p == "" {
		return ""
	}
	return path.Base(p)
}

func sortRecs(l []idx.Rec) {
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
}

// diffRecs compares as sets (a path listed twice may be reported twice).
func diffRecs(got []*apt.FileInfo, want []idx.Rec) string {
	g := map[idx.Rec]bool{}
	for _, fi := range got {
		if fi == nil {
			return "nil record"
		}
		g[ofFI(fi)] = true
	}
	w := map[idx.Rec]bool{}
	for _, r := range want {
		w[r] = true
	}
	var d []string
	for r := range w {
		if !g[r] {
			d = append(d, fmt.Sprintf("missing %+v", r))
		}
	}
	for r := range g {
		if !w[r] {
			d = append(d, fmt.Sprintf("unexpected %+v", r))
		}
	}
	sort.Strings(d)
	if len(d) > 6 {
		d = d[:6]
	}
	return strings.Join(d, "\n")
}

// mkFI makes a record with exactly the digests of r, through index parsing
// (Packages format), the way the programs obtain their records.
func mkFI(r idx.Rec) *apt.FileInfo {
	l, _, err := apt.ExtractFileInfo("Packages", bytes.NewReader(idx.Packages([]idx.Rec{r})))
	if err != nil || len(l) != 1 {
		pk.Infra("cannot build record %+v: %v", r, err)
	}
	return l[0]
}

// readerErrs are the ways in which a reader may fail; none of them is a clean
// end of the text.
var readerErrs = []error{
	errors.New("broken reader"),
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	io.ErrShortWrite,
	os.ErrDeadlineExceeded,
	context.Canceled,
	fmt.Errorf("lost connection: %w", io.EOF),
	fmt.Errorf("lost connection: %w", io.ErrUnexpectedEOF),
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET},
	syscall.EINTR,
}

var errIdxGen = rapid.IntRange(0, len(readerErrs)-1)

var hexGen = func(n int) *rapid.Generator[string] { return rapid.StringMatching(fmt.Sprintf(`[0-9a-f]{%d}`, 2*n)) }

var segGen = rapid.OneOf(
	rapid.SampledFrom([]string{"pool", "main", "a", "b", "dists", "stable", "x_1.0-1_amd64.deb", "libfoo++.deb", "a~b:1%20.deb", "Packages", "Release", "by-hash", ".hidden", "..x", "x..", "é"}),
	rapid.StringMatching(`[A-Za-z0-9_][A-Za-z0-9+~%:@=,._-]{0,10}`))

// cleanPath draws a relative clean path of 1..4 elements.
var cleanPathGen = rapid.Custom(func(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(segGen, 1, 4).Draw(t, "segs"), "/")
})

var sizeGen = rapid.OneOf(rapid.Uint64Range(0, 100), rapid.SampledFrom([]uint64{0, 1, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1<<53 + 1, 1<<63 - 1}), rapid.Uint64Range(0, 1<<63-1))

func recGen(p *rapid.Generator[string], minMask int) *rapid.Generator[idx.Rec] {
	return rapid.Custom(func(t *rapid.T) idx.Rec {
		r := idx.Rec{Path: p.Draw(t, "path"), Size: sizeGen.Draw(t, "size"),
			MD5: hexGen(16).Draw(t, "md5"), SHA1: hexGen(20).Draw(t, "sha1"), SHA256: hexGen(32).Draw(t, "sha256")}
		return r.Mask(rapid.IntRange(minMask, 7).Draw(t, "mask"))
	})
}
