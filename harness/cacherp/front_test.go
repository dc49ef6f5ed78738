package cacherp

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"mime"
	"mime/multipart"
	"net"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/cybozu-go/aptutil/cacher"
	"pgregory.net/rapid"

	"verifharness/fsx"
	"verifharness/pk"
	"verifharness/simnet"
)

// pipeListener accepts in-memory connections.
type pipeListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newPipeListener() *pipeListener {
	return &pipeListener{ch: make(chan net.Conn), done: make(chan struct{})}
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return &net.UnixAddr{Name: "pipe", Net: "unix"} }

// odd files the upstream has besides the normal repository.
var oddNames = []string{"we ird+%3F#1.txt", "a;b=c&d@e:f,g$h!.deb", "été/ü 漢.deb", "a", "a.cache/b", "..x/...", "x.cache", "pct%2Fslash.deb", "100%.deb", "back\\slash", "q?mark.deb", "'quo\"te'.deb", "nul\x00.deb", "bad\xff\xfeutf8.deb", "_tmp123", "tilde~1:2.0.deb", strings.Repeat("n", 251) + ".deb", "long/" + strings.Repeat("d", 260) + "/f.deb", "-dash", "<>{}|^`.deb", "plus+plus", "*.deb", "ctl\x01\x7f.deb", "empty.bin", "big.deb"}

func oddContent(i int) []byte {
	if oddNames[i] == "empty.bin" {
		return []byte{}
	}
	if oddNames[i] == "big.deb" {
		return bytes.Repeat([]byte("0123456789abcde\n"), 9000)
	}
	return []byte(fmt.Sprintf("odd file number %d: %q", i, oddNames[i]))
}

// FReq is one front-end request.
type FReq struct {
	Method string
	Kind   string // file odd path raw
	F      int
	Esc    int // escaping style
	Slash  int // leading slashes
	Raw    string
	Range  string
	Proto  int // 0 HTTP/1.1, 1 HTTP/1.0
	Body   int
	Fault  string
	Lost   bool // somebody removed the cached copy just before
}

// Front is a list of raw requests.
type Front struct {
	W    World
	Reqs []FReq
}

var rawTargets = []string{"/", "//", "/.", "/..", "/../../etc/passwd", "/ubuntu", "/ubuntu/", "/ubuntu//", "/ubuntu/..", "/ubuntu/../", "/ubuntu/../../secret", "/%2e%2e/secret", "/ubuntu/%2e%2e/%2e%2e/secret", "/ubuntu%2f..%2f..%2fsecret",
	"/nosuch/dists/s/Release", "/Ubuntu/README", "/ubuntu2/README", "/ubuntu.cache", "/meta/ubuntu/README.cache", "/ubuntu/pool/", "/ubuntu/pool/.", "/ubuntu/./README", "/ubuntu/pool/../README", "/ubuntu///README", "/ubuntu/README?x=1", "/ubuntu/README;v=2", "http://elsewhere.example/ubuntu/README", "http://h0.example/repo0/README",
	"/ubuntu/%00", "/%00", "/ubuntu/dists/s/main/binary-amd64/Packages.lzma", "/ubuntu/dists/s/main/binary-amd64/Packages.lz", "/ubuntu/x/Release.lz", "/ubuntu/Index.lzma", "/ubuntu/README/", "/ubuntu/dists", "/ubuntu/dists/s", "/ubuntu/dists/s/InRelease/x", "/secret", "/secret.cache", "/ubuntu/README.cache", "/ubuntu/_tmp1", "/debian", "/x.y_z-1/README", "/-", "/.cache", "/ubuntu/.cache"}

func frontGen(t *rapid.T) Front {
	var s Front
	s.W = worldGen(2, 1).Draw(t, "world")
	for p := range s.W.Vers {
		s.W.Vers[p][0].LTag = 0 // the indices are right
	}
	one := rapid.Custom(func(t *rapid.T) FReq {
		var r FReq
		r.Method = rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "HEAD", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "get", "FOO", "CONNECT"}).Draw(t, "method")
		r.Kind = rapid.SampledFrom([]string{"file", "odd", "raw", "odd", "file", "soup"}).Draw(t, "kind")
		switch r.Kind {
		case "file":
			r.F = rapid.IntRange(0, nFiles-1).Draw(t, "f")
		case "odd":
			r.F = pk.Uniform(t, "odd", len(oddNames))
		case "raw":
			r.Raw = rawTargets[pk.Uniform(t, "raw", len(rawTargets))]
		case "soup":
			n := rapid.IntRange(1, 8).Draw(t, "n")
			r.Raw = rapid.SampledFrom([]string{"/ubuntu", "/ubuntu", "", "/debian", "/meta", "/cache"}).Draw(t, "pre")
			for i := 0; i < n; i++ {
				r.Raw += "/" + rapid.SampledFrom([]string{"..", ".", "", "%2e%2e", "%2f", "a", "Release", "Packages.gz", "a.cache", "%00", "..%2f", "%5c", "é", "dists", "pool", "Release.lz", "secret", "%c3%28", "...", "%ff"}).Draw(t, "seg")
			}
		}
		r.Esc = rapid.IntRange(0, 2).Draw(t, "esc")
		r.Slash = rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(t, "slash")
		if pk.Odds(t, "ranged", 2) {
			num := rapid.SampledFrom([]string{"0", "1", "5", "9", "10", "20", "33", "100", "99999", "18446744073709551615", "9223372036854775807", "", "07", "-1", "x"})
			n := rapid.IntRange(1, 3).Draw(t, "nr")
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, num.Draw(t, "a")+"-"+num.Draw(t, "b"))
			}
			r.Range = "bytes=" + strings.Join(l, rapid.SampledFrom([]string{",", ", "}).Draw(t, "sep"))
			if pk.Odds(t, "unit", 10) {
				r.Range = rapid.SampledFrom([]string{"items=0-1", "bytes", "bytes=", "0-1", "bytes=abc"}).Draw(t, "odd range")
			}
		}
		r.Proto = rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "proto")
		r.Body = rapid.SampledFrom([]int{0, 0, 5}).Draw(t, "body")
		if pk.Odds(t, "faulty", 8) {
			r.Fault = rapid.SampledFrom([]string{"500", "404", "refuse", "trunc", "503"}).Draw(t, "fault")
		}
		r.Lost = pk.Odds(t, "lost", 10)
		return r
	})
	s.Reqs = rapid.SliceOfN(one, 2, 14).Draw(t, "reqs")
	return s
}

func escapePath(p string, style int) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == '/':
			b.WriteByte(c)
		case style == 0:
			return (&url.URL{Path: p}).EscapedPath()
		case style == 1 && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~+:", c) >= 0):
			b.WriteByte(c)
		case style == 1:
			fmt.Fprintf(&b, "%%%02X", c)
		default:
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

type rng struct{ a, b int64 } // inclusive

// wantRanges parses a Range header: the satisfiable ranges, and whether the
// header is well-formed.
func wantRanges(h string, size int64) (l []rng, wellFormed bool) {
	if !strings.HasPrefix(h, "bytes=") {
		return nil, false
	}
	for _, s := range strings.Split(h[6:], ",") {
		s = strings.TrimSpace(s)
		i := strings.IndexByte(s, '-')
		if i < 0 {
			return nil, false
		}
		as, bs := s[:i], s[i+1:]
		digits := func(s string) bool {
			for _, c := range s {
				if c < '0' || c > '9' {
					return false
				}
			}
			return true
		}
		if !digits(as) || !digits(bs) || (as == "" && bs == "") {
			return nil, false
		}
		num := func(s string) int64 {
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				return 1<<63 - 1
			}
			return n
		}
		if len(as) > 18 || len(bs) > 18 {
			return nil, false // beyond what must be understood
		}
		if as == "" {
			n := num(bs)
			if n > size {
				n = size
			}
			if n == 0 {
				return nil, false // the standard library has its own idea of this one
			}
			l = append(l, rng{size - n, size - 1})
			continue
		}
		a := num(as)
		b := size - 1
		if bs != "" {
			b = num(bs)
			if b < a {
				return nil, false
			}
			if b > size-1 {
				b = size - 1
			}
		}
		if a >= size {
			continue
		}
		l = append(l, rng{a, b})
	}
	return l, true
}

func checkRange(res *http.Response, body, want []byte, h string) string {
	size := int64(len(want))
	l, ok := wantRanges(h, size)
	var total int64
	for _, r := range l {
		total += r.b - r.a + 1
	}
	part := func(cr string, b []byte, r rng) string {
		if exp := fmt.Sprintf("bytes %d-%d/%d", r.a, r.b, size); cr != exp {
			return fmt.Sprintf("Content-Range %q, want %q", cr, exp)
		}
		if !bytes.Equal(b, want[r.a:r.b+1]) {
			return fmt.Sprintf("range %v delivers %.60q, want %.60q", r, b, want[r.a:r.b+1])
		}
		return ""
	}
	switch res.StatusCode {
	case 200:
		if !bytes.Equal(body, want) {
			return fmt.Sprintf("full body %.60q, want %.60q", body, want)
		}
		if ok && len(l) == 1 && !strings.Contains(h, ",") && size > 0 {
			return fmt.Sprintf("range %q was ignored", h)
		}
		if ok && len(l) > 0 && total < size {
			return fmt.Sprintf("ranges %q were ignored", h)
		}
		return ""
	case 416:
		if ok && len(l) > 0 {
			return fmt.Sprintf("range %q refused for %d bytes", h, size)
		}
		return ""
	case 206:
		if !ok {
			// a header we need not understand: whatever is sent must be what
			// it says it is
			return selfConsistent(res, body, want)
		}
		if len(l) == 0 {
			return fmt.Sprintf("206 for %q of %d bytes", h, size)
		}
		if len(l) == 1 {
			if mt, _, _ := mime.ParseMediaType(res.Header.Get("Content-Type")); mt != "multipart/byteranges" {
				return part(res.Header.Get("Content-Range"), body, l[0])
			}
		}
		_, params, err := mime.ParseMediaType(res.Header.Get("Content-Type"))
		if err != nil {
			return "no multipart content type"
		}
		mr := multipart.NewReader(bytes.NewReader(body), params["boundary"])
		for i := 0; ; i++ {
			p, err := mr.NextRawPart()
			if err == io.EOF {
				if i != len(l) {
					return fmt.Sprintf("%d parts for %q", i, h)
				}
				return ""
			}
			if err != nil || i >= len(l) {
				return fmt.Sprintf("multipart: %v", err)
			}
			b, err := io.ReadAll(p)
			if err != nil {
				return fmt.Sprintf("multipart: %v", err)
			}
			if e := part(p.Header.Get("Content-Range"), b, l[i]); e != "" {
				return e
			}
		}
	}
	return fmt.Sprintf("status %d", res.StatusCode)
}

func selfConsistent(res *http.Response, body, want []byte) string {
	one := func(cr string, b []byte) string {
		var a, z, n int
		if _, err := fmt.Sscanf(cr, "bytes %d-%d/%d", &a, &z, &n); err != nil || a < 0 || z >= len(want) || n != len(want) || a > z+1 {
			return fmt.Sprintf("Content-Range %q of %d bytes", cr, len(want))
		}
		if !bytes.Equal(b, want[a:z+1]) {
			return fmt.Sprintf("Content-Range %q delivers %.60q", cr, b)
		}
		return ""
	}
	mt, params, _ := mime.ParseMediaType(res.Header.Get("Content-Type"))
	if mt != "multipart/byteranges" {
		return one(res.Header.Get("Content-Range"), body)
	}
	mr := multipart.NewReader(bytes.NewReader(body), params["boundary"])
	for {
		p, err := mr.NextRawPart()
		if err == io.EOF {
			return ""
		}
		if err != nil {
			return fmt.Sprintf("multipart: %v", err)
		}
		b, _ := io.ReadAll(p)
		if e := one(p.Header.Get("Content-Range"), b); e != "" {
			return e
		}
	}
}

const secretText = "SECRET-not-for-clients"

func TestC08_front(t *testing.T) {
	pk.Check(t, "C08_front", frontGen, func(c *pk.C, sc Front) error {
		dir, clean := scratch()
		defer clean()
		ranged, odd, refused, gone := 0, 0, 0, 0
		err := pk.Bubble(t, func() error {
			w := newWorld(sc.W)
			s := newSvc(dir, w, Params{Check: 100000, Period: 1, MaxConns: 3})
			defer s.restore()
			for _, n := range []string{"secret", "secret.cache", "README", "README.cache"} {
				os.WriteFile(filepath.Join(dir, n), []byte(secretText), 0644)
			}
			nofault := ""
			s.planned = func(p int, name string, r *simnet.Req) (simnet.Resp, bool) {
				if len(s.faults[prefixName(p)+"/"+name]) > 0 {
					return simnet.Resp{}, false
				}
				for i, n := range oddNames {
					if n == name {
						return simnet.Resp{Body: oddContent(i)}, true
					}
				}
				return simnet.Resp{}, false
			}
			_ = nofault
			fs := &fsx.FS{Root: dir}
			fsx.Install(fs)
			defer fsx.Uninstall()
			if e := s.start(); e != nil {
				pk.Infra("NewCacher: %v", e)
			}
			os.WriteFile(filepath.Join(dir, "meta", "stray.txt"), []byte(secretText), 0644)
			os.WriteFile(filepath.Join(dir, "cache", "_tmp1"), []byte(secretText), 0644)
			defer s.stop()
			ln := newPipeListener()
			srv := &http.Server{Handler: s.h, ErrorLog: nil}
			srv.ErrorLog = discardLog
			go srv.Serve(ln)
			defer srv.Close()
			defer ln.Close()
			raw := func(target string, r FReq) (*http.Response, []byte, error) {
				a, b := net.Pipe()
				ln.ch <- b
				defer a.Close()
				a.SetDeadline(time.Now().Add(2 * time.Hour))
				proto := "HTTP/1.1"
				if r.Proto == 1 {
					proto = "HTTP/1.0"
				}
				var m bytes.Buffer
				fmt.Fprintf(&m, "%s %s %s\r\nHost: cache\r\nConnection: close\r\n", r.Method, target, proto)
				if r.Range != "" {
					fmt.Fprintf(&m, "Range: %s\r\n", r.Range)
				}
				body := ""
				if r.Body > 0 && r.Method != "GET" && r.Method != "HEAD" {
					body = strings.Repeat("b", r.Body)
					fmt.Fprintf(&m, "Content-Length: %d\r\n", len(body))
				}
				fmt.Fprintf(&m, "\r\n%s", body)
				go a.Write(m.Bytes())
				br := bufio.NewReader(a)
				res, err := http.ReadResponse(br, &http.Request{Method: r.Method})
				if err != nil {
					return nil, nil, err
				}
				got, err := io.ReadAll(res.Body)
				if err == nil {
					// nothing may follow
					if rest, _ := io.ReadAll(br); len(rest) > 0 {
						return nil, nil, fmt.Errorf("%d bytes after the response: %.60q", len(rest), rest)
					}
				}
				return res, got, err
			}
			seen := 0
			bodies := map[string][][]byte{} // path -> complete upstream bodies
			lost := map[string]bool{}
			for i, r := range sc.Reqs {
				time.Sleep(2 * time.Second)
				target, full := r.Raw, ""
				if r.Kind == "file" || r.Kind == "odd" {
					name := ""
					if r.Kind == "file" {
						name = w.name(0, 0, r.F)
					} else {
						name = oddNames[r.F]
						odd++
					}
					full = prefixName(0) + "/" + name
					target = strings.Repeat("/", r.Slash) + escapePath(full, r.Esc)
					if r.Lost {
						// once it is cached, somebody removes the file
						raw(target, FReq{Method: "GET"})
						for _, q := range s.newReqs(&seen) {
							if pp, nn := s.locate(q); pp >= 0 && q.Complete {
								bodies[prefixName(pp)+"/"+nn] = append(bodies[prefixName(pp)+"/"+nn], q.Resp.Body)
							}
						}
						time.Sleep(2 * time.Second)
						for _, d := range []string{"meta", "cache"} {
							if os.Remove(filepath.Join(dir, d, full+".cache")) == nil {
								lost[full] = true
								gone++
							}
						}
					}
					if r.Fault != "" && r.Kind == "file" {
						s.queueFault(full, r.Fault)
					}
				}
				if r.Method == "CONNECT" {
					target = "cache:80"
				}
				if target == "" {
					target = "/"
				}
				res, body, err := raw(target, r)
				reqs := s.newReqs(&seen)
				s.queueMu()
				for _, q := range reqs {
					p, name := s.locate(q)
					if p < 0 {
						return fmt.Errorf("%s %q went upstream to %s%s, which belongs to no prefix", r.Method, target, q.Host, q.RawPath)
					}
					if q.Complete {
						bodies[prefixName(p)+"/"+name] = append(bodies[prefixName(p)+"/"+name], q.Resp.Body)
					}
				}
				what := fmt.Sprintf("request %d: %s %q range %q", i, r.Method, target, r.Range)
				if err != nil {
					return fmt.Errorf("%s: no proper response: %v", what, err)
				}
				if bytes.Contains(body, []byte(secretText)) {
					return fmt.Errorf("%s: delivered a file outside the cache", what)
				}
				st := res.StatusCode
				if st == 400 && (r.Method == "CONNECT" || strings.ContainsAny(target, " \x00\x7f")) {
					continue // not HTTP
				}
				switch r.Method {
				case "GET", "HEAD":
				default:
					refused++
					if st != 501 {
						return fmt.Errorf("%s: status %d, want 501", what, st)
					}
					if len(reqs) > 0 {
						return fmt.Errorf("%s: went upstream", what)
					}
					continue
				}
				u, perr := url.ParseRequestURI(target)
				if perr != nil {
					continue
				}
				p := path.Clean("/" + u.Path)[1:]
				pre, name := split(p)
				known := prefixIndex(pre) >= 0 && prefixIndex(pre) < len(sc.W.Vers)
				if full == "" && p != strings.TrimLeft(u.Path, "/") {
					// how dots and doubled slashes are resolved is open, but
					// nothing may be delivered that upstream does not have there
					switch {
					case st == 200 || st == 206:
						if len(bodies[p]) == 0 {
							return fmt.Errorf("%s: delivered %.60q", what, body)
						}
					case st == 416 && r.Range != "", st == 404, st >= 500, st == 301, st == 400:
					default:
						return fmt.Errorf("%s: status %d", what, st)
					}
					if !known && len(reqs) > 0 {
						return fmt.Errorf("%s: went upstream although it lies outside every prefix", what)
					}
					continue
				}
				if !known || unsupported(name) {
					if st != 404 {
						return fmt.Errorf("%s: status %d, want 404", what, st)
					}
					if len(reqs) > 0 {
						return fmt.Errorf("%s: went upstream", what)
					}
					continue
				}
				if st == 200 || st == 206 || st == 416 {
					var want []byte
					okb := false
					for _, b := range bodies[p] {
						if r.Method == "HEAD" {
							okb = okb || res.ContentLength == int64(len(b)) && len(body) == 0
							continue
						}
						if r.Range == "" {
							okb = okb || bytes.Equal(b, body) && st == 200
							continue
						}
						e := checkRange(res, body, b, r.Range)
						if e == "" {
							okb = true
						}
						want = b
					}
					if r.Range != "" {
						ranged++
					}
					if !okb {
						why := ""
						if r.Range != "" && r.Method == "GET" && len(bodies[p]) > 0 {
							why = checkRange(res, body, want, r.Range)
						}
						return fmt.Errorf("%s: status %d length %d body %.60q: not what upstream has (%d complete bodies) %s", what, st, res.ContentLength, body, len(bodies[p]), why)
					}
				} else {
					// a failure must be upstream's doing, or an item that cannot be stored
					explained := lost[p] && st >= 500
					for _, q := range reqs {
						switch {
						case q.Resp.Mode != simnet.OK && q.Resp.Mode != "":
							explained = explained || st >= 500 || st == q.Resp.Status
						case q.Resp.Status != 0 && q.Resp.Status != 200:
							explained = explained || st == q.Resp.Status
						case !q.Complete:
							explained = explained || st >= 500
						default:
							explained = explained || (st >= 500 && unstorable(dir, p))
						}
					}
					if !explained {
						return fmt.Errorf("%s: status %d, upstream answered %s", what, st, upstreamSummary(reqs))
					}
				}
				if r.Method == "HEAD" {
					if len(body) > 0 {
						return fmt.Errorf("%s: HEAD with a body", what)
					}
					// a GET right away must agree
					g := r
					g.Method, g.Range = "GET", ""
					res2, body2, err := raw(target, g)
					for _, q := range s.newReqs(&seen) {
						if pp, nn := s.locate(q); pp >= 0 && q.Complete {
							bodies[prefixName(pp)+"/"+nn] = append(bodies[prefixName(pp)+"/"+nn], q.Resp.Body)
						}
					}
					if err != nil {
						return fmt.Errorf("%s: GET: no proper response: %v", what, err)
					}
					if st == 200 || r.Fault == "" && st == res2.StatusCode {
						if res2.StatusCode != st || (res.ContentLength >= 0 && res.ContentLength != int64(len(body2))) || (st == 200 && res.ContentLength < 0) {
							return fmt.Errorf("%s: HEAD says %d, length %d; GET says %d, length %d", what, st, res.ContentLength, res2.StatusCode, len(body2))
						}
						if st == 200 && mime.TypeByExtension(path.Ext(p)) != "" && res.Header.Get("Content-Type") != res2.Header.Get("Content-Type") {
							return fmt.Errorf("%s: HEAD says Content-Type %q, GET says %q", what, res.Header.Get("Content-Type"), res2.Header.Get("Content-Type"))
						}
						if st == 200 && res.Header.Get("Content-Type") == "" {
							return fmt.Errorf("%s: HEAD without Content-Type", what)
						}
					} else if r.Fault == "" && res2.StatusCode != st {
						return fmt.Errorf("%s: HEAD says %d, GET says %d", what, st, res2.StatusCode)
					}
				}
			}
			// still alive
			time.Sleep(5 * time.Second)
			p := prefixName(0) + "/" + w.name(0, 0, fA)
			res, body, err := raw("/"+p, FReq{Method: "GET"})
			if err != nil || (res.StatusCode == 200) != (len(body) > 0 && res.StatusCode == 200) {
				return fmt.Errorf("afterwards GET /%s: %v", p, err)
			}
			if len(fs.Escapes) > 0 {
				return fmt.Errorf("file operations outside the cache: %v", fs.Escapes)
			}
			for q, v := range fsx.Tree(dir) {
				top := strings.SplitN(q, "/", 2)[0]
				if top != "meta" && top != "cache" && v != "d" && v != "f:"+secretText {
					return fmt.Errorf("file outside the cache directories: %s", q)
				}
			}
			return nil
		})
		c.ClassIf(ranged > 0, "range")
		c.ClassIf(gone > 0, "cached copy removed")
		c.ClassIf(odd > 0, "odd name")
		c.ClassIf(refused > 0, "method refused")
		c.NonTrivialIf(ranged > 0 || odd > 0)
		if d, ok := err.(*pk.Deadlock); ok {
			return d
		}
		return err
	})
}

// unstorable reports whether the file system cannot hold p next to what is
// there already.
func unstorable(dir, p string) bool {
	if strings.ContainsRune(p, 0) {
		return true
	}
	for _, e := range strings.Split(p+".cache", "/") {
		if len(e) > 255 {
			return true
		}
	}
	m := &stModel{dir: filepath.Join(dir, "cache")}
	if isIndex(p) {
		m.dir = filepath.Join(dir, "meta")
	}
	m.items = map[string]*stItem{}
	return m.blocked(p)
}

func upstreamSummary(reqs []*simnet.Req) string {
	var l []string
	for _, q := range reqs {
		l = append(l, fmt.Sprintf("%s -> %d complete=%v", q.RawPath, q.Resp.Status, q.Complete))
	}
	return fmt.Sprint(l)
}

// ---- prefix mapping -------------------------------------------------------

// UMap is a set of registrations and a lookup.
type UMap struct {
	Regs []UReg
	Pre  string
	Rest string
	Lead int
	Bare bool
}

// UReg is a registration.
type UReg struct{ Pre, URL string }

func umapGen(t *rapid.T) UMap {
	var s UMap
	pre := rapid.OneOf(rapid.SampledFrom([]string{"ubuntu", "a", "security.debian.org", "a-b_c.d", "0", "ubuntu-x", "ubun", "-", "_", "a.", ".a", "...", "Ubuntu", "a b", "", ".", "..", "a/b", "é", "a%", "a:b", "a~b", "A", "a\n", "\na", "a+b"}),
		rapid.StringMatching(`[a-z0-9._-]{1,6}`), rapid.StringMatching(`[a-zA-Z0-9._/ -]{1,4}`))
	host := rapid.SampledFrom([]string{"http://archive.example", "https://h.example:8443", "http://h", "http://[::1]:80", "http://user@h.example"})
	pathg := rapid.SampledFrom([]string{"", "/", "/ubuntu", "/ubuntu/", "/a/b/", "/a/b", "/a%2Fb", "/a%20b/", "/a+b/c", "/%C3%A9/", "/a//b", "/x~y/", "/p;q/", "/a%2Fb/"})
	n := rapid.IntRange(1, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		s.Regs = append(s.Regs, UReg{pre.Draw(t, "pre"), host.Draw(t, "host") + pathg.Draw(t, "path")})
	}
	if rapid.Bool().Draw(t, "registered") {
		s.Pre = s.Regs[rapid.IntRange(0, n-1).Draw(t, "which")].Pre
	} else {
		s.Pre = pre.Draw(t, "lookup")
	}
	seg := rapid.OneOf(rapid.SampledFrom([]string{"dists", "pool", "a", "Release", "x_1.0+dfsg-1_amd64.deb", "c~1.deb", "a b", "100%", "%2F", "%41", "q?x=1", "f#g", "a:b", "é", "漢", "...", "..x", ".x", "a;b", "a&b=c", "a@b", "a\\b", "'", "\"", "<>", "a,b", "*", "!$", "[1]", "{}", "|^`", "\x01", "\xff", "http:", "+"}),
		rapid.StringMatching(`[ -.0-~]{1,6}`))
	m := rapid.IntRange(1, 4).Draw(t, "segs")
	var l []string
	for i := 0; i < m; i++ {
		x := seg.Draw(t, "seg")
		if x == "." || x == ".." {
			x = "dot"
		}
		l = append(l, x)
	}
	s.Rest = strings.Join(l, "/")
	s.Lead = rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "lead")
	s.Bare = pk.Odds(t, "bare", 10)
	return s
}

func validPrefixRef(p string) bool {
	if p == "" || p == "." || p == ".." {
		return false
	}
	for i := 0; i < len(p); i++ {
		c := p[i]
		if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-') {
			return false
		}
	}
	return true
}

func TestC09_map(t *testing.T) {
	pk.Check(t, "C09_map", umapGen, func(c *pk.C, sc UMap) error {
		um := make(cacher.URLMap)
		reg := map[string]string{}
		for _, r := range sc.Regs {
			u, err := url.Parse(r.URL)
			if err != nil {
				pk.Infra("%v", err)
			}
			err = um.Register(r.Pre, u)
			if (err == nil) != validPrefixRef(r.Pre) {
				return fmt.Errorf("registering prefix %q: %v", r.Pre, err)
			}
			if err == nil {
				reg[r.Pre] = r.URL
			}
		}
		p := strings.Repeat("/", sc.Lead) + sc.Pre
		if !sc.Bare {
			p += "/" + sc.Rest
		}
		// the first element decides
		key := sc.Pre
		rest := sc.Rest
		full := strings.TrimLeft(p, "/")
		if i := strings.IndexByte(full, '/'); i >= 0 {
			key, rest = full[:i], full[i+1:]
		} else {
			key, rest = full, ""
		}
		if rest != path.Clean("/" + rest)[1:] {
			return nil // the front end never asks for such a path
		}
		got := um.URL(p)
		base, ok := reg[key]
		if !ok {
			if got != nil {
				return fmt.Errorf("%q is under no registered prefix but maps to %s", p, got)
			}
			return nil
		}
		if got == nil {
			return fmt.Errorf("%q maps to nothing, %q is registered for %s", p, key, base)
		}
		// what goes over the wire
		back, err := url.Parse(got.String())
		if err != nil {
			return fmt.Errorf("%q maps to %q, which does not parse: %v", p, got.String(), err)
		}
		i := strings.Index(base, "://")
		scheme, hostpath := base[:i], base[i+3:]
		host, bpath := hostpath, "/"
		if j := strings.IndexByte(hostpath, '/'); j >= 0 {
			host, bpath = hostpath[:j], hostpath[j:]
		}
		if !strings.HasSuffix(bpath, "/") {
			bpath += "/"
		}
		host = strings.TrimPrefix(host, "user@")
		if back.Scheme != scheme || back.Host != host || back.RawQuery != "" || back.Fragment != "" || strings.Contains(got.String(), "#") || strings.Contains(got.String(), "?") {
			return fmt.Errorf("%q maps to %s, which is not on %s://%s", p, got, scheme, host)
		}
		for _, u := range []*url.URL{got, back} {
			if e := u.EscapedPath(); !strings.HasPrefix(e, bpath) {
				return fmt.Errorf("%q maps to path %q, which is not below %q", p, e, bpath)
			} else if d, err := url.PathUnescape(e[len(bpath):]); err != nil || d != rest {
				return fmt.Errorf("%q maps to %s, which names %q below the base, not %q", p, u, d, rest)
			} else if strings.Count(e[len(bpath):], "/") != strings.Count(rest, "/") {
				return fmt.Errorf("%q maps to %s: slashes differ", p, u)
			}
		}
		c.NonTrivialIf(rest != "")
		return nil
	})
}

// ---- isolation ------------------------------------------------------------

var hostilePaths = []string{"../debian/pool/a.deb", "../ubuntu/pool/a.deb", "../../debian/pool/a.deb", "/debian/pool/a.deb", "debian/pool/a.deb", "..", "pool/../../debian/README", "../../../../debian/pool/a.deb",
	"./../debian/README", "../debian/dists/s/main/binary-amd64/Packages", "../debian/dists/s/InRelease", "//debian/pool/a.deb", "pool/a.deb", "../x.y_z-1/pool/a.deb", "x/../../debian/pool/src/a.dsc", "../meta/debian/README"}

func isoGen(t *rapid.T) Scenario {
	s := scenarioGen(2, 2, 1, 0, 20)(t)
	for len(s.W.Vers) < 2 {
		s.W.Vers = append(s.W.Vers, rapid.SliceOfN(verGen, 1, 3).Draw(t, "vers2"))
		s.W.Hosts = append(s.W.Hosts, rapid.IntRange(0, 1).Draw(t, "host2"))
		s.W.Flavor = append(s.W.Flavor, rapid.IntRange(0, 1).Draw(t, "flavor2"))
	}
	s.Par.MaxConns = 0
	h := rapid.Custom(func(t *rapid.T) Hostile {
		return Hostile{Path: rapid.SampledFrom(hostilePaths).Draw(t, "path"), Rel: rapid.Bool().Draw(t, "rel"), Tag: rapid.IntRange(0, 3).Draw(t, "tag")}
	})
	for p := range s.W.Vers {
		for v := range s.W.Vers[p] {
			if pk.Odds(t, "hostile", 2) {
				s.W.Vers[p][v].Hostile = rapid.SliceOfN(h, 1, 3).Draw(t, "hostiles")
			}
		}
	}
	for i := range s.Ops {
		s.Ops[i].P = pk.Uniform(t, "side", 2)
		if n := len(s.W.Vers[s.Ops[i].P]); s.Ops[i].V >= n && s.Ops[i].K != "fault" {
			s.Ops[i].V = n - 1
		}
	}
	return s
}

// twoDirs watches for operations that are neither in the one nor in the other
// directory of the service.
func twoDirs(fs *fsx.FS) func() error {
	var mu sync.Mutex
	var err error
	fs.Before = func(op *fsx.Op) {
		for _, p := range []string{op.Path, op.Path2} {
			if p == "" || op.Kind == "symlink" && p == op.Path {
				continue
			}
			rel, e := filepath.Rel(fs.Root, p)
			if top := strings.SplitN(rel, "/", 2)[0]; e != nil || top != "meta" && top != "cache" {
				mu.Lock()
				if err == nil {
					err = fmt.Errorf("%v, in neither of the two directories", op)
				}
				mu.Unlock()
			}
		}
	}
	return func() error {
		mu.Lock()
		defer mu.Unlock()
		return err
	}
}

// isoRun plays the operations of the chosen prefixes only, at the same times.
func isoRun(t *testing.T, sc Scenario, only int, hostileSeen *int) (answers, upstream []string, err error) {
	dir, clean := scratch()
	defer clean()
	err = pk.Bubble(t, func() error {
		w := newWorld(sc.W)
		s := newSvc(dir, w, sc.Par)
		defer s.restore()
		fs := &fsx.FS{Root: dir}
		outside := twoDirs(fs)
		fsx.Install(fs)
		defer fsx.Uninstall()
		if e := s.start(); e != nil {
			return fmt.Errorf("NewCacher: %v", e)
		}
		up := true
		for i, o := range expand(sc.Ops, sc.Par) {
			time.Sleep(time.Duration(o.Dt)*time.Millisecond + time.Duration(i%7+1)*time.Millisecond + 37*time.Microsecond)
			mine := only < 0 || o.P == only
			name := ""
			if o.K == "get" || o.K == "head" || o.K == "fault" {
				name = w.name(o.P, w.cur[o.P], o.F)
			}
			full := prefixName(o.P) + "/" + name
			switch o.K {
			case "switch":
				if mine {
					s.setVersion(o.P, o.V)
				}
			case "fault":
				if mine {
					for k := 0; k <= o.V; k++ {
						s.queueFault(full, o.Kind)
					}
				}
			case "restart":
				if !s.stop() {
					return nil // C11
				}
				if e := s.start(); e != nil {
					return fmt.Errorf("op %d: restart: %v", i, e)
				}
			case "get", "head":
				if !mine {
					break
				}
				m := "GET"
				if o.K == "head" {
					m = "HEAD"
				}
				var a *answerOf
				if !waitFor(30*time.Hour, func() { a = s.request(m, full) }) {
					return nil // C05
				}
				if hostileSeen != nil && a.Status == 200 {
					*hostileSeen++
				}
				answers = append(answers, fmt.Sprintf("%d:%d op %d %s %s -> %d %q", o.P, i, i, m, full, a.Status, a.Body))
			}
		}
		if up {
			s.stop()
		}
		for _, r := range s.net.Log() {
			p, name := s.locate(r)
			if p < 0 {
				return fmt.Errorf("upstream request %s%s belongs to no prefix", r.Host, r.RawPath)
			}
			upstream = append(upstream, fmt.Sprintf("%d: %016d %s", p, r.Start.Sub(zero), name))
		}
		sort.Strings(upstream)
		if len(fs.Escapes) > 0 {
			return fmt.Errorf("file operations outside the directories: %v", fs.Escapes)
		}
		if e := outside(); e != nil {
			return e
		}
		for q, v := range fsx.Tree(dir) {
			if v == "d" {
				continue
			}
			top := strings.SplitN(q, "/", 2)
			if len(top) < 2 || !strings.HasPrefix(v, "f:") {
				return fmt.Errorf("unexpected %s in the directory", q)
			}
			n := strings.TrimSuffix(top[1], ".cache")
			if n == top[1] {
				continue // temporary file of an ended download
			}
			if (top[0] == "meta") != isIndex(n) {
				return fmt.Errorf("%s is kept in %s", n, top[0])
			}
			if i := prefixIndex(strings.SplitN(n, "/", 2)[0]); i < 0 {
				return fmt.Errorf("%s is kept under no prefix", n)
			}
		}
		return nil
	})
	return
}

func TestC10_iso(t *testing.T) {
	pk.Check(t, "C10_iso", isoGen, func(c *pk.C, sc Scenario) error {
		n, hostile := 0, 0
		ans, ups, err := isoRun(t, sc, -1, &n)
		if _, ok := err.(*pk.Deadlock); ok {
			c.Class("other property: C11")
			return nil
		}
		if err != nil {
			return err
		}
		for _, vs := range sc.W.Vers {
			for _, v := range vs {
				hostile += len(v.Hostile)
			}
		}
		for p := 0; p < 2; p++ {
			a1, u1, err := isoRun(t, sc, p, nil)
			if _, ok := err.(*pk.Deadlock); ok {
				c.Class("other property: C11")
				return nil
			}
			if err != nil {
				return err
			}
			if d := diffOf(ans, a1, fmt.Sprintf("%d:", p)); d != "" {
				return fmt.Errorf("answers under %s depend on the other prefix: %s", prefixName(p), d)
			}
			if d := diffOf(ups, u1, fmt.Sprintf("%d:", p)); d != "" {
				return fmt.Errorf("upstream requests under %s depend on the other prefix: %s", prefixName(p), d)
			}
		}
		c.ClassIf(hostile > 0, "hostile index")
		c.NonTrivialIf(n > 0 && hostile > 0)
		return nil
	})
}

func diffOf(all, part []string, pre string) string {
	var l []string
	for _, x := range all {
		if strings.HasPrefix(x, pre) {
			l = append(l, x)
		}
	}
	var q []string
	for _, x := range part {
		if strings.HasPrefix(x, pre) {
			q = append(q, x)
		}
	}
	for i := 0; i < len(l) || i < len(q); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(l) {
			x = l[i]
		}
		if i < len(q) {
			y = q[i]
		}
		if x != y {
			return fmt.Sprintf("%.300s with it, %.300s without it", x, y)
		}
	}
	return ""
}
