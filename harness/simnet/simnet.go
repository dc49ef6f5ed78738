// Package simnet is an in-memory upstream: a raw HTTP/1.1 server over
// net.Pipe with planned faults, latencies and a request log, meant to run in
// virtual time (inside a synctest bubble).
package simnet

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"
)

// Modes of a response.
const (
	OK         = "ok"         // complete, Content-Length
	Chunked    = "chunked"    // complete, chunked coding
	Close      = "close"      // complete, delimited by connection close
	Refuse     = "refuse"     // connection closed before any answer
	Trunc      = "trunc"      // Content-Length says more than is sent
	TruncChunk = "truncchunk" // chunked coding without its end
	Hang       = "hang"       // headers never come
	HangBody   = "hangbody"   // the body stops half-way and never ends
	Garbage    = "garbage"    // not HTTP
)

// Resp is the planned answer.
type Resp struct {
	Status int // 0 means 200
	Body   []byte
	Mode   string
	Pre    time.Duration // before the header
	Mid    time.Duration // in the middle of the body
	Header http.Header
}

// Req is a logged request.
type Req struct {
	Seq        int
	Host       string
	Path       string // decoded
	RawPath    string // as sent
	Query      string
	Method     string
	Header     http.Header
	Start, End time.Time
	Resp       Resp
	Complete   bool // a full 200 body went out
	Open       bool // still in progress
}

// Net is the upstream network.
type Net struct {
	mu     sync.Mutex
	handle func(*Req) Resp
	down   func(host string) bool
	watch  func(*Req)
	log    []*Req
	limit  int // more requests than that in five minutes: a run-away loop, held
	Runway bool
	conns  map[net.Conn]bool
	stale  map[string]Resp // what an HTTP cache on the way still has
}

// New makes a network whose answers come from handle (called in arrival
// order, under a lock).
func New(handle func(*Req) Resp) *Net {
	return &Net{handle: handle, limit: 2000, conns: map[net.Conn]bool{}, stale: map[string]Resp{}}
}

// SetLimit bounds the number of requests within five minutes.
func (n *Net) SetLimit(l int) { n.limit = l }

// SetDown installs a predicate for unreachable hosts.
func (n *Net) SetDown(f func(host string) bool) { n.mu.Lock(); n.down = f; n.mu.Unlock() }

// SetWatch installs a function that sees every request as it arrives.
func (n *Net) SetWatch(f func(*Req)) { n.mu.Lock(); n.watch = f; n.mu.Unlock() }

// Log returns the requests so far.
func (n *Net) Log() []*Req {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Req(nil), n.log...)
}

// Len is the number of requests so far.
func (n *Net) Len() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.log)
}

// throughCache is an ordinary HTTP cache between the client and the origin: a
// request that does not ask for a current answer gets the remembered one.
func (n *Net) throughCache(r *Req, resp Resp) Resp {
	cc := strings.ToLower(strings.Join(r.Header.Values("Cache-Control"), ",") + "," + strings.Join(r.Header.Values("Pragma"), ","))
	key := r.Host + r.RawPath + "?" + r.Query
	current := false
	for _, v := range strings.Split(cc, ",") {
		switch v = strings.ReplaceAll(strings.TrimSpace(v), " ", ""); v {
		case "no-cache", "no-store", "max-age=0":
			current = true
		}
	}
	if old, ok := n.stale[key]; ok && !current {
		old.Pre, old.Mid = resp.Pre, resp.Mid
		return old
	}
	if r.Method == "GET" && (resp.Status == 0 || resp.Status == 200) && (resp.Mode == "" || resp.Mode == OK) {
		n.stale[key] = resp
	}
	return resp
}

// Transport makes a real http.Transport dialling into the network.
func (n *Net) Transport() *http.Transport {
	return &http.Transport{
		DisableKeepAlives:  true,
		DisableCompression: false,
		DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
			n.mu.Lock()
			down := n.down
			run := len(n.log) > 20*n.limit
			if k := len(n.log) - n.limit; k > 0 && time.Since(n.log[k].Start) < 5*time.Minute {
				run = true
			}
			if run {
				n.Runway = true
			}
			n.mu.Unlock()
			if run {
				// hold a run-away loop of the code under test
				<-ctx.Done()
				return nil, ctx.Err()
			}
			host := addr
			if h, p, err := net.SplitHostPort(addr); err == nil && p == "80" {
				host = h
			}
			if down != nil && down(host) {
				n.mu.Lock()
				now := time.Now()
				n.log = append(n.log, &Req{Seq: len(n.log), Host: host, Path: "(dial)", Start: now, End: now})
				n.mu.Unlock()
				return nil, &net.OpError{Op: "dial", Net: network, Err: errors.New("connection refused")}
			}
			a, b := net.Pipe()
			n.mu.Lock()
			n.conns[b] = true
			n.mu.Unlock()
			go n.serve(b)
			return a, nil
		},
	}
}

// Install replaces http.DefaultTransport; the returned function restores it.
func (n *Net) Install() func() {
	old := http.DefaultTransport
	http.DefaultTransport = n.Transport()
	return func() {
		http.DefaultTransport = old
		n.mu.Lock()
		for c := range n.conns {
			c.Close()
		}
		n.mu.Unlock()
	}
}

func (n *Net) serve(c net.Conn) {
	defer func() {
		c.Close()
		n.mu.Lock()
		delete(n.conns, c)
		n.mu.Unlock()
	}()
	br := bufio.NewReader(c)
	hr, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	gone := make(chan struct{})
	go func() {
		var b [1]byte
		for {
			if _, err := c.Read(b[:]); err != nil {
				close(gone)
				return
			}
		}
	}()
	r := &Req{Host: hr.Host, Path: hr.URL.Path, RawPath: hr.URL.EscapedPath(), Query: hr.URL.RawQuery, Method: hr.Method, Header: hr.Header, Open: true}
	n.mu.Lock()
	r.Seq = len(n.log)
	r.Start = time.Now()
	n.log = append(n.log, r)
	if n.watch != nil {
		n.watch(r)
	}
	resp := n.throughCache(r, n.handle(r))
	r.Resp = resp
	n.mu.Unlock()
	end := func(complete bool) {
		n.mu.Lock()
		r.End = time.Now()
		r.Open = false
		r.Complete = complete
		n.mu.Unlock()
	}
	defer func() {
		n.mu.Lock()
		if r.Open {
			r.End = time.Now()
			r.Open = false
		}
		n.mu.Unlock()
	}()
	sleep := func(d time.Duration) bool {
		if d <= 0 {
			return true
		}
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
			return true
		case <-gone:
			return false
		}
	}
	if len(resp.Body) == 0 || resp.Status == 204 || resp.Status == 304 {
		// nothing to pause in: the client is done with the header
		resp.Pre, resp.Mid = resp.Pre+resp.Mid, 0
	}
	if !sleep(resp.Pre) {
		return
	}
	mode := resp.Mode
	if mode == "" {
		mode = OK
	}
	if mode == HangBody && len(resp.Body) == 0 {
		mode = OK
	}
	switch mode {
	case Refuse:
		return
	case Hang:
		<-gone
		return
	case Garbage:
		fmt.Fprintf(c, "SSH-2.0-whatever\r\n\r\n")
		return
	}
	st := resp.Status
	if st == 0 {
		st = 200
	}
	if st < 0 {
		st = 0
	}
	var h strings.Builder
	fmt.Fprintf(&h, "HTTP/1.1 %03d %s\r\n", st, http.StatusText(st))
	for k, vs := range resp.Header {
		for _, v := range vs {
			fmt.Fprintf(&h, "%s: %s\r\n", k, v)
		}
	}
	h.WriteString("Connection: close\r\n")
	body := resp.Body
	nobody := st == 204 || st == 304 || hr.Method == "HEAD"
	if nobody {
		body = nil
	}
	chunk := mode == Chunked || mode == TruncChunk
	switch {
	case chunk:
		h.WriteString("Transfer-Encoding: chunked\r\n")
	case mode == Close:
	case mode == Trunc:
		fmt.Fprintf(&h, "Content-Length: %d\r\n", len(body)+1+len(body)/3)
	default:
		if !nobody {
			fmt.Fprintf(&h, "Content-Length: %d\r\n", len(body))
		}
	}
	h.WriteString("\r\n")
	if _, err := c.Write([]byte(h.String())); err != nil {
		return
	}
	put := func(b []byte) bool {
		if len(b) == 0 {
			return true
		}
		if chunk {
			b = []byte(fmt.Sprintf("%x\r\n%s\r\n", len(b), b))
		}
		_, err := c.Write(b)
		return err == nil
	}
	half := len(body) / 2
	if !put(body[:half]) {
		return
	}
	if mode == HangBody {
		<-gone
		return
	}
	if !sleep(resp.Mid) {
		return
	}
	if !put(body[half:]) {
		return
	}
	if mode == Chunked {
		if _, err := c.Write([]byte("0\r\n\r\n")); err != nil {
			return
		}
	}
	end((mode == OK || mode == Chunked || mode == Close) && st == 200)
}

// MaxOverlap is the largest number of requests admitted by sel that were in
// progress at the same time (touching intervals do not overlap).
func MaxOverlap(log []*Req, now time.Time, sel func(*Req) bool) int {
	type iv struct{ a, b time.Time }
	var l []iv
	for _, r := range log {
		if !sel(r) {
			continue
		}
		e := r.End
		if r.Open || e.IsZero() {
			e = now
		}
		if e.After(r.Start) {
			l = append(l, iv{r.Start, e})
		}
	}
	max := 0
	for _, x := range l {
		n := 0
		for _, y := range l {
			if !y.a.After(x.a) && y.b.After(x.a) {
				n++
			}
		}
		if n > max {
			max = n
		}
	}
	return max
}
