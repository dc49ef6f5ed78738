package cacherp

import (
	"bytes"
	"fmt"
	"io"
	stdlog "log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/cybozu-go/aptutil/cacher"
	"github.com/cybozu-go/log"
	"github.com/cybozu-go/well"

	"verifharness/pk"
	"verifharness/simnet"
)

func TestMain(m *testing.M) {
	log.DefaultLogger().SetOutput(io.Discard)
	log.DefaultLogger().SetThreshold(0)
	os.Exit(m.Run())
}

var discardLog = stdlog.New(io.Discard, "", 0)

// scratch makes a fresh directory for one case.
func scratch() (string, func()) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		pk.Infra("scratch: %v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

// Fault kinds an upstream request can meet.
var faultKinds = []string{"500", "wrong", "404", "trunc", "refuse", "other", "503", "403", "truncchunk", "short", "empty", "garbage", "long", "chunked", "close", "429", "410", "000", "401", "502", "099", "599", "201", "204", "206", "300", "304", "302", "301"}

// fault builds the answer to one upstream request.
func (w *world) fault(kind string, p int, name string) simnet.Resp {
	body, ok := w.at(p, w.cur[p], name)
	r := simnet.Resp{Body: body, Mode: simnet.OK}
	if !ok {
		r.Status, r.Body = 404, []byte("no such file")
	}
	switch kind {
	case "":
	case "000":
		r.Status, r.Body = -1, []byte("no such status")
	case "099":
		r.Status, r.Body = 99, []byte("no such status")
	case "204", "304":
		fmt.Sscan(kind, &r.Status)
		r.Body = nil
	case "201", "206", "300", "301", "302", "401", "403", "404", "410", "429", "500", "502", "503", "599":
		fmt.Sscan(kind, &r.Status)
		r.Body = []byte("error page " + kind)
	case "refuse":
		r.Mode = simnet.Refuse
	case "hang":
		r.Mode = simnet.Hang
	case "hangbody":
		r.Mode = simnet.HangBody
	case "garbage":
		r.Mode = simnet.Garbage
	case "trunc":
		r.Mode = simnet.Trunc
	case "truncchunk":
		r.Mode = simnet.TruncChunk
	case "chunked":
		r.Mode = simnet.Chunked
	case "close":
		r.Mode = simnet.Close
	case "wrong", "short", "long", "empty":
		if ok {
			r.Body = spoil(kind, name, body)
		}
	case "other":
		// a complete body of another version, if any differs
		for v := range w.st[p] {
			if b, ok2 := w.at(p, v, name); ok2 && !bytes.Equal(b, body) {
				r.Body, r.Status = b, 0
				break
			}
		}
	default:
		pk.Infra("fault kind %q", kind)
	}
	return r
}

func spoil(kind, name string, body []byte) []byte {
	if isIndex(name) {
		// never parsable, whatever the compression
		switch kind {
		case "short":
			return bytes.Repeat([]byte("z"), len(body)/2+1)
		case "long":
			return bytes.Repeat([]byte("z"), len(body)+5)
		case "empty":
			return []byte{}
		}
		return bytes.Repeat([]byte("z"), len(body)+boolInt(len(body) == 0))
	}
	b := append([]byte(nil), body...)
	switch kind {
	case "short":
		return b[:len(b)/2]
	case "long":
		return append(b, "tail"...)
	case "empty":
		return []byte{}
	}
	if len(b) > 0 {
		b[len(b)/2] ^= 1
	}
	return b
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Params of a service under test.
type Params struct {
	Check, Period int // seconds
	MaxConns      int
}

// svc is a running cacher in a bubble.
type svc struct {
	dir     string
	cfg     *cacher.Config
	c       *cacher.Cacher
	h       http.Handler
	w       *world
	net     *simnet.Net
	mu      sync.Mutex
	faults  map[string][]string // host path -> queued faults
	latency func(r *simnet.Req) (pre, mid time.Duration)
	restore func()
	planned func(p int, name string, r *simnet.Req) (simnet.Resp, bool)
}

func newSvc(dir string, w *world, pr Params) *svc {
	s := &svc{dir: dir, w: w, faults: map[string][]string{}}
	s.net = simnet.New(s.answer)
	s.restore = s.net.Install()
	cfg := cacher.NewConfig()
	cfg.CheckInterval, cfg.CachePeriod, cfg.MaxConns = pr.Check, pr.Period, pr.MaxConns
	cfg.MetaDirectory = filepath.Join(dir, "meta")
	cfg.CacheDirectory = filepath.Join(dir, "cache")
	cfg.CacheCapacity = 1
	cfg.Mapping = map[string]string{}
	for p := range w.w.Vers {
		cfg.Mapping[prefixName(p)] = baseURL(w, p)
	}
	s.cfg = cfg
	return s
}

// baseURL: with or without trailing slash, by prefix.
func baseURL(w *world, p int) string {
	u := fmt.Sprintf("http://%s/repo%d", hostName(w.w.Hosts[p]), p)
	if p%2 == 0 {
		u += "/"
	}
	return u
}

// locate finds the prefix an upstream request belongs to.
func (s *svc) locate(r *simnet.Req) (int, string) {
	for p := range s.w.w.Vers {
		pre := fmt.Sprintf("/repo%d/", p)
		if r.Host == hostName(s.w.w.Hosts[p]) && strings.HasPrefix(r.Path, pre) {
			return p, r.Path[len(pre):]
		}
	}
	return -1, ""
}

func (s *svc) answer(r *simnet.Req) simnet.Resp {
	s.mu.Lock()
	defer s.mu.Unlock()
	p, name := s.locate(r)
	if p < 0 {
		return simnet.Resp{Status: 404, Body: []byte("unknown")}
	}
	if s.planned != nil {
		if resp, ok := s.planned(p, name, r); ok {
			return resp
		}
	}
	key := prefixName(p) + "/" + name
	kind := ""
	if q := s.faults[key]; len(q) > 0 {
		kind, s.faults[key] = q[0], q[1:]
	}
	resp := s.w.fault(kind, p, name)
	if s.latency != nil {
		resp.Pre, resp.Mid = s.latency(r)
	}
	return resp
}

func (s *svc) queueFault(key, kind string) {
	s.mu.Lock()
	s.faults[key] = append(s.faults[key], kind)
	s.mu.Unlock()
}

func (s *svc) setVersion(p, v int) {
	s.mu.Lock()
	s.w.cur[p] = v
	s.mu.Unlock()
}

func (s *svc) start() error {
	well.VerifReset()
	c, err := cacher.NewCacher(s.cfg)
	if err != nil {
		return err
	}
	s.c = c
	s.h = cacher.NewServer(c, s.cfg).Handler
	return nil
}

// waitFor runs f in a goroutine and gives it d of virtual time.
func waitFor(d time.Duration, f func()) bool {
	ch := make(chan struct{})
	go func() { defer close(ch); f() }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		return false
	}
}

// stop ends the service; false means it did not end within an hour.
func (s *svc) stop() bool {
	well.Cancel(nil)
	return waitFor(time.Hour, func() { well.Wait() })
}

// answerOf is a client's view.
type answerOf struct {
	Status int
	Body   []byte
	Len    string
	Panic  string
	Start  time.Time
	End    time.Time
}

func (s *svc) request(method, p string) *answerOf {
	a := &answerOf{Start: time.Now()}
	r := &http.Request{Method: method, URL: &url.URL{Path: "/" + p}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "cache"}
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if e := recover(); e != nil {
				// the real server would drop the connection
				a.Panic = fmt.Sprint(e)
			}
		}()
		s.h.ServeHTTP(rec, r)
	}()
	if a.Panic != "" {
		a.Status, a.End = 0, time.Now()
		return a
	}
	res := rec.Result()
	a.Status = res.StatusCode
	a.Body, _ = io.ReadAll(res.Body)
	a.Len = res.Header.Get("Content-Length")
	a.End = time.Now()
	return a
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
