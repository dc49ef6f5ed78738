package cacherp

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/cybozu-go/well"
	"pgregory.net/rapid"

	"verifharness/fsx"
	"verifharness/pk"
)

// Crash is a history cut at one file-system operation.
type Crash struct {
	W       World
	Ops     []Op
	Point   int      // per mille of all operations
	Foreign []string // foreign files in the two directories
	Power   bool     // the power fails: written data not yet synced is lost
	Sync    int      // this sync, and SyncN following ones, fail
	SyncN   int
}

func crashGen(t *rapid.T) Crash {
	var s Crash
	s.W = worldGen(2, 2).Draw(t, "world")
	for i := range s.W.Vers {
		for j := range s.W.Vers[i] {
			s.W.Vers[i][j].Broken = 0
		}
	}
	s.Ops = seqOps(t, s.W, 1, 0, 0, 10)
	s.Point = pk.Uniform(t, "point", 1000)
	s.Foreign = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"README", "ubuntu/NOTES", "ubuntu/pool/x.deb", "other/a.cache.bak", "lost+found/cache"}), 0, 2, rapid.ID[string]).Draw(t, "foreign")
	s.Power = rapid.Bool().Draw(t, "power")
	if rapid.IntRange(0, 3).Draw(t, "syncfails") == 3 {
		s.Sync, s.SyncN = rapid.IntRange(1, 8).Draw(t, "sync"), rapid.IntRange(0, 3).Draw(t, "syncn")
	}
	return s
}

// volatile follows which file contents have reached stable storage.
type volatile struct {
	mu   sync.Mutex
	safe map[uint64]int64 // inode -> length that survives a power failure
}

func inode(p string) (uint64, int64, bool) {
	var st syscall.Stat_t
	if syscall.Lstat(p, &st) != nil || st.Mode&syscall.S_IFMT != syscall.S_IFREG {
		return 0, 0, false
	}
	return st.Ino, st.Size, true
}

func (v *volatile) after(op *fsx.Op) {
	if op.Err != "" {
		return
	}
	ino, size, ok := inode(op.Path)
	if !ok {
		return
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	switch op.Kind {
	case "create":
		if size == 0 {
			v.safe[ino] = 0
		}
	case "write", "truncate":
		if _, ok := v.safe[ino]; !ok {
			v.safe[ino] = 0
		}
	case "sync":
		delete(v.safe, ino)
	}
}

// lose takes away the contents that were never synced.
func (v *volatile) lose(dir string) (lost int) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() {
			return nil
		}
		ino, size, ok := inode(p)
		if n, vol := v.safe[ino]; ok && vol && n < size {
			os.Truncate(p, n)
			lost++
		}
		return nil
	})
	return
}

// storedFiles reads the .cache files of the two directories.
func storedFiles(dir string) map[string]string {
	m := map[string]string{}
	for _, sub := range []string{"meta", "cache"} {
		for p, v := range fsx.Tree(filepath.Join(dir, sub)) {
			if strings.HasPrefix(v, "f:") && strings.HasSuffix(p, ".cache") {
				m[sub+"/"+strings.TrimSuffix(p, ".cache")] = v[2:]
			}
		}
	}
	return m
}

func TestC04_crash(t *testing.T) {
	pk.Check(t, "C04_crash", crashGen, func(c *pk.C, sc Crash) error {
		total, boot := 0, 0
		// first without a crash, to know how many operations there are
		if err := crashRun(t, c, sc, 0, &total, &boot); err != nil {
			return err
		}
		if total == 0 {
			return nil
		}
		if sc.Point < 30 {
			boot = 0 // now and then during the first start
		}
		return crashRun(t, c, sc, boot+1+sc.Point*(total-boot)/1000, &total, &boot)
	})
}

func crashRun(t *testing.T, c *pk.C, sc Crash, at int, total, boot *int) error {
	dir, clean := scratch()
	defer clean()
	return pk.Bubble(t, func() (ret error) {
		w := newWorld(sc.W)
		par := Params{Check: 1000000, Period: 1, MaxConns: 10}
		s := newSvc(dir, w, par)
		defer s.restore()
		// files that are not the cacher's own
		foreign := map[string]string{}
		for _, f := range sc.Foreign {
			for _, sub := range []string{"meta", "cache"} {
				p := filepath.Join(dir, sub, f)
				os.MkdirAll(filepath.Dir(p), 0755)
				if os.WriteFile(p, []byte("foreign "+f), 0644) == nil {
					foreign[p] = "foreign " + f
				}
			}
		}
		vol := &volatile{safe: map[uint64]int64{}}
		fs := &fsx.FS{Root: dir, FreezeAt: at, Goexit: true, KeepLog: true, After: vol.after}
		if sc.Sync > 0 {
			fs.FailAt, fs.FailN = sc.Sync, sc.SyncN+1
			fs.FailKinds = func(op *fsx.Op) bool { return op.Kind == "sync" }
		}
		fsx.Install(fs)
		defer fsx.Uninstall()
		// creating the directories is part of the history
		up := false
		if !waitFor(time.Hour, func() {
			if e := s.start(); e != nil && at == 0 {
				pk.Infra("NewCacher: %v", e)
			}
			up = s.c != nil
		}) {
			pk.Infra("NewCacher did not return")
		}
		if at == 0 {
			*boot = fs.Count()
		}
		var last map[string]string
		complete := map[string][][]byte{}
		inflight := ""
		seen := 0
		if up {
			for _, o := range expand(sc.Ops, Params{Check: 1}) {
				if fs.Frozen {
					break
				}
				time.Sleep(time.Duration(o.Dt+1) * time.Millisecond)
				name := ""
				if o.K == "get" || o.K == "head" || o.K == "fault" {
					name = w.name(o.P, w.cur[o.P], o.F)
				}
				full := prefixName(o.P) + "/" + name
				switch o.K {
				case "switch":
					s.setVersion(o.P, o.V)
				case "fault":
					s.queueFault(full, o.Kind)
				case "get", "head":
					inflight = full
					if !waitFor(24*time.Hour, func() { s.request("GET", full) }) && at == 0 {
						return fmt.Errorf("request for %s was never answered", full)
					}
					for _, r := range s.newReqs(&seen) {
						if r.Complete {
							complete[full] = append(complete[full], r.Resp.Body)
						}
					}
				}
				if fs.Frozen {
					break
				}
				last = storedFiles(dir)
			}
		}
		*total = fs.Count()
		well.Cancel(nil)
		if at == 0 {
			waitFor(time.Hour, func() { well.Wait() })
			return nil
		}
		if !fs.Frozen {
			return nil
		}
		c.NonTrivialIf(len(last) > 0)
		c.ClassIf(len(fs.Failed) > 0, "a sync failed before")
		kind := "none"
		if n := len(fs.Log); n > 0 {
			kind = fs.Log[n-1].Kind
		}
		c.Class("died before " + kind)
		fsx.Uninstall()
		time.Sleep(time.Hour) // the old process is gone
		if sc.Power {
			c.Class("power loss")
			c.ClassIf(vol.lose(dir) > 0, "power loss with unsynced data")
		}
		now := storedFiles(dir)
		// only complete files, for the right path
		for k, v := range now {
			p := k[strings.IndexByte(k, '/')+1:]
			ok := last[k] == v && last != nil
			for _, b := range complete[p] {
				ok = ok || string(b) == v
			}
			if !ok {
				return fmt.Errorf("died before operation %d (%s): %s holds %d bytes that were never completely downloaded for it: %.60q", at, kind, k, len(v), v)
			}
		}
		for k, v := range last {
			p := k[strings.IndexByte(k, '/')+1:]
			if _, ok := now[k]; !ok && p != inflight {
				return fmt.Errorf("died before operation %d (%s) while fetching %s: %s is gone", at, kind, inflight, k)
			} else if ok && now[k] != v && p != inflight {
				return fmt.Errorf("died before operation %d (%s) while fetching %s: %s has changed", at, kind, inflight, k)
			}
		}
		// the next process
		s.queueMu()
		seen = s.net.Len()
		if e := s.start(); e != nil {
			return fmt.Errorf("died before operation %d (%s): restart failed: %v", at, kind, e)
		}
		defer s.stop()
		for p, v := range foreign {
			if b, err := os.ReadFile(p); err != nil || string(b) != v {
				return fmt.Errorf("died before operation %d (%s); after the restart the foreign file %s is no longer as it was: %q, %v", at, kind, p[len(dir)+1:], b, err)
			}
		}
		c.ClassIf(len(foreign) > 0, "foreign files")
		m := newModel(s, par)
		for k, v := range now {
			i := strings.IndexByte(k, '/')
			if p := k[i+1:]; k[:i] == "meta" {
				m.meta[p] = []byte(v)
			} else {
				m.items[p] = &item{content: []byte(v), size: int64(len(v))}
			}
		}
		m.restart(time.Now())
		if m.amb != "" {
			c.Class("model undetermined")
			return nil
		}
		for p := range sc.W.Vers {
			for f := 0; f < nFiles; f++ {
				full := prefixName(p) + "/" + w.name(p, w.cur[p], f)
				time.Sleep(5 * time.Second)
				ws, wb, wr := m.get(full, time.Now())
				var a *answerOf
				if !waitFor(24*time.Hour, func() { a = s.request("GET", full) }) {
					return fmt.Errorf("after the restart %s is never answered", full)
				}
				if e := cmpReqs(s.newReqs(&seen), wr); e != "" {
					return fmt.Errorf("died before operation %d (%s); after the restart GET %s: %s", at, kind, full, e)
				}
				if (ws == 5 && a.Status < 500) || (ws != 5 && a.Status != ws) || (ws == 200 && !bytes.Equal(a.Body, wb)) {
					return fmt.Errorf("died before operation %d (%s); after the restart GET %s: %d %.60q, want %d %.60q", at, kind, full, a.Status, a.Body, ws, wb)
				}
			}
		}
		return nil
	})
}

// queueMu drops all queued faults.
func (s *svc) queueMu() {
	s.mu.Lock()
	s.faults = map[string][]string{}
	s.mu.Unlock()
}

var _ = os.Getenv
