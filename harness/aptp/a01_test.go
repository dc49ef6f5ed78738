package aptp

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/cybozu-go/aptutil/apt"
	"verifharness/idx"
	"verifharness/pk"
)

// ---- generators -----------------------------------------------------------

type fld struct {
	Name  string
	First string   // text after the colon, as written (may have blanks around)
	Cont  []string // continuation lines, each as written without the leading blank
	Lead  []string // leading blank of each continuation line
	Cmt   []int    // comment line before continuation i (0 = before the field line)
	Long  int      // pad the first line (or last continuation) to this length
}

type para struct{ Fields []fld }

type doc struct {
	Paras  []para
	Lead   int   // blank lines before the first paragraph
	Seps   []int // blank lines after paragraph i
	CRLF   bool
	PGP    bool
	NoEOL  bool
	Chunks []int
}

var nameGen = rapid.OneOf(
	rapid.SampledFrom([]string{"Package", "Filename", "Size", "MD5Sum", "SHA256", "Description", "X-a", "a"}),
	rapid.StringMatching(`[A-Za-z][A-Za-z0-9_.+-]{0,12}`))

var textGen = rapid.OneOf(
	rapid.StringMatching(`[a-z0-9:#./<>@ \t-]{0,30}`),
	rapid.SampledFrom([]string{"", " ", "\t ", ".", ":", "#x", "a: b", "http://x/y", "é ü", "-----BEGIN PGP SIGNATURE-----x", "yes"}),
	rapid.StringMatching(`[^\r\n]{0,20}`))

func contGen(t *rapid.T) string {
	s := textGen.Draw(t, "cont")
	if strings.Trim(s, " \t") == "" {
		return "."
	}
	return s
}

type paraSep struct {
	P   para
	Sep int
}

func paraGen(long bool) *rapid.Generator[paraSep] {
	return rapid.Custom(func(t *rapid.T) paraSep {
		var p para
		used := map[string]bool{}
		for j, f := range rapid.SliceOfN(fldGen(long), 1, 5).Draw(t, "fields") {
			if used[strings.ToLower(f.Name)] {
				continue
			}
			used[strings.ToLower(f.Name)] = true
			if j == 0 && strings.Trim(f.First, " \t") == "" && len(f.Cont) == 0 {
				f.First = " v" // a paragraph has at least one non-empty field
			}
			p.Fields = append(p.Fields, f)
		}
		return paraSep{p, rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(t, "sep")}
	})
}

func fldGen(long bool) *rapid.Generator[fld] {
	return rapid.Custom(func(t *rapid.T) fld {
		f := fld{Name: nameGen.Draw(t, "name"), First: textGen.Draw(t, "first")}
		for c, nc := 0, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "nc"); c < nc; c++ {
			f.Cont = append(f.Cont, contGen(t))
			f.Lead = append(f.Lead, rapid.SampledFrom([]string{" ", " ", "\t", "  \t"}).Draw(t, "ws"))
		}
		if pk.Odds(t, "hascmt", 6) {
			f.Cmt = []int{rapid.IntRange(0, len(f.Cont)).Draw(t, "cmt")}
		}
		if pk.Odds(t, "haslong", 30) {
			f.Long = rapid.SampledFrom([]int{4094, 4095, 4096, 4097, 8192, 65536, 70000}).Draw(t, "long")
			if long {
				f.Long = rapid.SampledFrom([]int{65535, 300000, 1000000, 1048500}).Draw(t, "long2")
			}
		}
		return f
	})
}

func docGen(t *rapid.T, long bool) doc {
	d := doc{
		Lead:  rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "lead"),
		CRLF:  pk.Odds(t, "crlf", 5),
		PGP:   pk.Odds(t, "pgp", 4),
		NoEOL: pk.Odds(t, "noeol", 5),
	}
	ps := rapid.SliceOfN(paraGen(long), 0, 6).Draw(t, "paras")
	n := len(ps)
	for _, p := range ps {
		d.Paras = append(d.Paras, p.P)
		d.Seps = append(d.Seps, p.Sep)
	}
	if n > 0 && rapid.Bool().Draw(t, "notrail") {
		d.Seps[n-1] = 0
	}
	d.Chunks = rapid.SliceOfN(rapid.IntRange(1, 5000), 0, 4).Draw(t, "chunks")
	return d
}

func (f fld) pad(s string, line int) string {
	if f.Long > 0 && line == len(f.Cont) && len(s) < f.Long {
		return s + strings.Repeat("x", f.Long-len(s))
	}
	return s
}

// lines renders a field; values are what a reader must report.
func (f fld) lines() (lines []string, values []string) {
	cm := func(i int) {
		for _, c := range f.Cmt {
			if c == i {
				lines = append(lines, "# comment: with colon", "#")
			}
		}
	}
	cm(0)
	l := f.pad(f.Name+":"+f.First, 0)
	lines = append(lines, l)
	if v := strings.Trim(l[len(f.Name)+1:], " \t"); v != "" {
		values = append(values, v)
	}
	for i, c := range f.Cont {
		if i > 0 {
			cm(i)
		}
		l := f.pad(f.Lead[i]+c, i+1)
		lines = append(lines, l)
		values = append(values, strings.Trim(l, " \t"))
	}
	if len(f.Cont) > 0 {
		cm(len(f.Cont))
	}
	return
}

func (d doc) render() (text []byte, want []map[string][]string) {
	var b strings.Builder
	b.WriteString(strings.Repeat("\n", d.Lead))
	for i, p := range d.Paras {
		m := map[string][]string{}
		for _, f := range p.Fields {
			ls, vs := f.lines()
			for _, l := range ls {
				b.WriteString(l + "\n")
			}
			if len(vs) > 0 {
				m[f.Name] = vs
			}
		}
		want = append(want, m)
		sep := d.Seps[i]
		if sep == 0 && i < len(d.Paras)-1 {
			sep = 1
		}
		b.WriteString(strings.Repeat("\n", sep))
	}
	text = []byte(b.String())
	if d.PGP {
		text = idx.ClearSign(text)
	} else if d.NoEOL {
		text = []byte(strings.TrimRight(string(text), "\n"))
	}
	if d.CRLF {
		text = idx.CRLF(text)
	}
	return
}

func readAll(r io.Reader, max int) (got []map[string][]string, err error, sticky bool) {
	p := apt.NewParser(r)
	for i := 0; i <= max; i++ {
		var q apt.Paragraph
		q, err = p.Read()
		if err != nil {
			_, e2 := p.Read()
			_, e3 := p.Read()
			return got, err, e2 == err && e3 == err && q == nil
		}
		got = append(got, q)
	}
	return got, errors.New("too many paragraphs"), true
}

func firstDiff(got, want []map[string][]string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("paragraph %d of %d lost: %s", i, len(want), short(want[i]))
		}
		if !reflect.DeepEqual(got[i], want[i]) {
			return fmt.Sprintf("paragraph %d: got %s, want %s", i, short(got[i]), short(want[i]))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d paragraphs invented: %s", len(got)-len(want), short(got[len(want)]))
	}
	return ""
}

func short(x interface{}) string {
	s := fmt.Sprintf("%q", x)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// chunks keeps the number of reads of a large text bounded.
func (d doc) chunks(n int) []int {
	var l []int
	for _, k := range d.Chunks {
		if n > 20000 && k < n/100 {
			k += n / 100
		}
		l = append(l, k)
	}
	return l
}

func execDoc(c *pk.C, d doc) error {
	text, want := d.render()
	got, err, sticky := readAll(&idx.Chunked{Data: text, Chunks: d.chunks(len(text)), Limit: -1}, len(want)+1)
	c.NonTrivialIf(len(want) >= 2 || (d.PGP && len(want) == 1))
	c.ClassIf(d.PGP, "pgp")
	c.ClassIf(d.CRLF, "crlf")
	c.ClassIf(d.Lead > 0 || anyOver(d.Seps, 1), "extra-blank-lines")
	c.ClassIf(len(text) > 4096, "over-one-buffer")
	c.ClassIf(len(text) > 65536, "over-64KiB")
	if df := firstDiff(got, want); df != "" {
		return fmt.Errorf("%s (end: %v)\ntext: %s", df, err, short(string(text)))
	}
	if err != io.EOF {
		return fmt.Errorf("end of document reported as %v", err)
	}
	if !sticky {
		return errors.New("end of document does not stick")
	}
	return nil
}

func anyOver(l []int, n int) bool {
	for _, x := range l {
		if x > n {
			return true
		}
	}
	return false
}

func TestA01_doc(t *testing.T) {
	pk.Check(t, "A01_doc", func(t *rapid.T) doc { return docGen(t, false) }, execDoc)
}

func TestA01_long(t *testing.T) {
	pk.Check(t, "A01_long", func(t *rapid.T) doc { return docGen(t, true) }, execDoc)
}

// ---- malformed documents and failing readers ------------------------------

type badDoc struct {
	D     doc
	Kind  string // line, cont, toolong, reader
	Para  int    // which paragraph is hit
	Field int
	Off   int // for reader: offset (per mille of the text)
	Bad   string
	Err   int
}

func TestA01_fail(t *testing.T) {
	pk.Check(t, "A01_fail", func(t *rapid.T) badDoc {
		b := badDoc{D: docGen(t, false)}
		b.D.PGP = b.D.PGP && rapid.Bool().Draw(t, "keeppgp")
		b.Kind = rapid.SampledFrom([]string{"line", "line", "cont", "toolong", "reader", "reader"}).Draw(t, "kind")
		b.Para = rapid.IntRange(0, 5).Draw(t, "para")
		b.Field = rapid.IntRange(0, 5).Draw(t, "field")
		b.Off = rapid.IntRange(0, 1000).Draw(t, "off")
		b.Err = errIdxGen.Draw(t, "err")
		b.Bad = rapid.SampledFrom([]string{"-----BEGIN PGP SIGNATURE-----", "-----BEGIN PGP SIGNATURE", "-----END PGP SIGNATURE-----", "-----BEGIN PGP MESSAGE-----", "-----", "- -----BEGIN PGP SIGNATURE-----", "nocolon", "no colon here", "-", "=", "é", "\x00", "<html>"}).Draw(t, "bad")
		return b
	}, func(c *pk.C, b badDoc) error {
		d := b.D
		if b.Kind == "reader" {
			text, want := d.render()
			lim := len(text) * b.Off / 1000
			if d.PGP {
				// a signature is skipped to the end; the failure is still due
				c.Class("pgp")
			}
			got, err, sticky := readAll(&idx.Chunked{Data: text, Chunks: d.chunks(len(text)), Limit: lim, Err: readerErrs[b.Err]}, len(want)+1)
			c.NonTrivialIf(len(want) > 1 && lim > 0)
			c.Class("reader-failure")
			return judgePrefix(got, want, len(want), err, sticky, string(text[:lim]))
		}
		if len(d.Paras) == 0 {
			return nil
		}
		pi := b.Para % len(d.Paras)
		p := d.Paras[pi]
		fi := b.Field % (len(p.Fields) + 1)
		var bad string
		switch b.Kind {
		case "line":
			bad = b.Bad
			if d.PGP && bad == "-----BEGIN PGP SIGNATURE-----" {
				bad += "-" // inside an envelope that line is no defect
			}
		case "cont":
			bad, fi = " continuation without a field", 0
		case "toolong":
			bad = "Long: " + strings.Repeat("y", 1100000)
		}
		// render by hand with the bad line inserted before field fi of pi
		var sb strings.Builder
		sb.WriteString(strings.Repeat("\n", d.Lead))
		var want []map[string][]string
		for i, p := range d.Paras {
			m := map[string][]string{}
			for j, f := range p.Fields {
				if i == pi && j == fi {
					sb.WriteString(bad + "\n")
				}
				ls, vs := f.lines()
				sb.WriteString(strings.Join(ls, "\n") + "\n")
				if len(vs) > 0 {
					m[f.Name] = vs
				}
			}
			if i == pi && fi == len(p.Fields) {
				sb.WriteString(bad + "\n")
			}
			want = append(want, m)
			sep := d.Seps[i]
			if sep == 0 {
				sep = 1
			}
			sb.WriteString(strings.Repeat("\n", sep))
		}
		text := []byte(sb.String())
		if d.PGP {
			text = idx.ClearSign(text)
		}
		if d.CRLF {
			text = idx.CRLF(text)
		}
		got, err, sticky := readAll(&idx.Chunked{Data: text, Chunks: d.chunks(len(text)), Limit: -1}, len(want)+1)
		c.NonTrivialIf(pi > 0)
		c.Class("malformed-" + b.Kind)
		return judgePrefix(got, want, pi, err, sticky, string(text))
	})
}

// judgePrefix: got must be a prefix of want with at most max paragraphs, and
// the end must be a sticky error other than io.EOF.
func judgePrefix(got, want []map[string][]string, max int, err error, sticky bool, text string) error {
	if len(got) > max {
		return fmt.Errorf("%d paragraphs returned, only %d precede the damage (end: %v)\ntext: %s", len(got), max, err, short(text))
	}
	for i := range got {
		if !reflect.DeepEqual(got[i], want[i]) {
			return fmt.Errorf("damaged paragraph %d returned as valid: got %s, want %s", i, short(got[i]), short(want[i]))
		}
	}
	if err == io.EOF {
		return fmt.Errorf("damage reported as a clean end after %d paragraphs\ntext: %s", len(got), short(text))
	}
	if !sticky {
		return fmt.Errorf("error %v does not stick", err)
	}
	return nil
}
