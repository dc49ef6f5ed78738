package cacherp

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/aptutil/cacher"
	"pgregory.net/rapid"

	"verifharness/fsx"
	"verifharness/pk"
)

// stPaths are item paths; some cannot be stored next to each other because
// one's file is another's directory.
var stPaths = []string{"a", "b", "u/a", "u/b", "u/v/c", "d.cache", "u/_tmp1", "w/x y", "w/+é.deb", "a-b", "u.v/c", "z/deep/er/f", "Q", "u/v/d", "e.deb", "u/.hidden", "w/a.gz", "m.cache/n", "m", "longer-name-than-most_1.0~rc1-2_amd64.deb", ".cache"}

// badPaths must be refused.
var badPaths = []string{"", ".", "..", "/abs", "u//a", "./a", "u/../a", "../x", "../../x/y", "u/./a", "a/", "/"}

func stContent(k, size int) []byte {
	b := make([]byte, size)
	for i := range b {
		b[i] = byte('a' + (k*7+i*(k+1))%23)
	}
	return b
}

// StOp is one storage operation.
type StOp struct {
	K    string // ins bad nofile look miss del list load stray vanish old
	P    int
	C    int // content
	Size int
	Part bool // a record without digests
}

// StScenario is a storage history.
type StScenario struct {
	Cap uint64
	Ops []StOp
}

func stGen(t *rapid.T) StScenario {
	var s StScenario
	s.Cap = rapid.SampledFrom([]uint64{100, 10, 0, 37, 250, 1}).Draw(t, "cap")
	npaths := rapid.IntRange(2, len(stPaths)).Draw(t, "paths")
	off := rapid.IntRange(0, len(stPaths)-1).Draw(t, "off")

	sizes := []int{0, 1, 5, 10, 11, 20, 30, 37, 50, 99, 100, 101, 300}
	op := rapid.Custom(func(t *rapid.T) StOp {
		o := StOp{K: rapid.SampledFrom([]string{"ins", "ins", "ins", "ins", "look", "look", "look", "miss", "del", "list", "load", "bad", "nofile", "stray", "vanish", "old"}).Draw(t, "k")}
		o.P = (off + pk.Uniform(t, "p", npaths)) % len(stPaths)
		if o.K == "bad" {
			o.P = rapid.IntRange(0, len(badPaths)-1).Draw(t, "badp")
		}
		o.C = rapid.IntRange(0, 3).Draw(t, "c")
		o.Size = sizes[pk.Uniform(t, "size", len(sizes))]
		o.Part = rapid.IntRange(0, 5).Draw(t, "part") == 5
		return o
	})
	s.Ops = rapid.SliceOfN(op, 6, 40).Draw(t, "ops")
	return s
}

type stItem struct {
	content []byte
	rank    int  // later use, higher rank; items loaded together share one
	vanish  bool // its file was removed by somebody else
}

type stModel struct {
	dir     string
	cap     uint64
	items   map[string]*stItem
	rank    int
	strays  map[string]string
	st      *cacher.Storage
	evicted int
}

func (m *stModel) total() (n uint64) {
	for _, it := range m.items {
		n += uint64(len(it.content))
	}
	return
}

// settle compares the storage with the model, letting the model lose items by
// eviction only as a least-recently-used cache of that capacity may.
func (m *stModel) settle(what string) error {
	listed := map[string]uint64{}
	for _, fi := range m.st.ListAll() {
		if _, dup := listed[fi.Path()]; dup {
			return fmt.Errorf("%s: %q is listed twice", what, fi.Path())
		}
		listed[fi.Path()] = fi.Size()
	}
	var victims []string
	for p, it := range m.items {
		sz, ok := listed[p]
		if !ok {
			victims = append(victims, p)
		} else if sz != uint64(len(it.content)) {
			return fmt.Errorf("%s: %q is listed with size %d, it has %d", what, p, sz, len(it.content))
		}
	}
	for p := range listed {
		if m.items[p] == nil {
			return fmt.Errorf("%s: unexpected item %q", what, p)
		}
	}
	sort.Strings(victims)
	before := m.total()
	if len(victims) > 0 {
		if m.cap == 0 {
			return fmt.Errorf("%s: %q lost although the capacity is unlimited", what, victims)
		}
		if before <= m.cap {
			return fmt.Errorf("%s: %q lost although %d bytes fit in %d", what, victims, before, m.cap)
		}
	}
	lost := map[string]*stItem{}
	top := -1
	for _, p := range victims {
		lost[p] = m.items[p]
		if m.items[p].rank > top {
			top = m.items[p].rank
		}
		delete(m.items, p)
	}
	rest := m.total()
	for p, it := range m.items {
		if it.rank < top {
			return fmt.Errorf("%s: %q evicted before %q, which was used less recently", what, victims, p)
		}
	}
	if len(victims) > 0 {
		m.evicted++
		needed := false
		for _, it := range lost {
			needed = needed || (it.rank == top && rest+uint64(len(it.content)) > m.cap)
		}
		if !needed {
			return fmt.Errorf("%s: %q evicted, more than needed: only %d of %d bytes are used", what, victims, rest, m.cap)
		}
	}
	if m.cap > 0 && rest > m.cap && len(m.items) > 1 {
		return fmt.Errorf("%s: %d bytes kept, capacity is %d", what, rest, m.cap)
	}
	// the disk
	disk := fsx.Tree(m.dir)
	for p, it := range m.items {
		v, ok := disk[p+".cache"]
		if !ok && it.vanish {
			continue
		}
		if !ok {
			return fmt.Errorf("%s: the file of %q is missing", what, p)
		}
		if v != "f:"+string(it.content) {
			return fmt.Errorf("%s: the file of %q holds %.60q, not %.60q", what, p, v, it.content)
		}
		delete(disk, p+".cache")
	}
	for p, v := range m.strays {
		if disk[p] != v {
			return fmt.Errorf("%s: foreign file %q became %.60q", what, p, disk[p])
		}
		delete(disk, p)
	}
	for p, v := range disk {
		if v != "d" {
			return fmt.Errorf("%s: %q is left in the directory", what, p)
		}
	}
	return nil
}

func makeFI(dir, p string, content []byte, part bool) (*apt.FileInfo, string, error) {
	f, err := os.CreateTemp(dir, "t")
	if err != nil {
		return nil, "", err
	}
	defer f.Close()
	fi, err := apt.CopyWithFileInfo(f, bytes.NewReader(content), p)
	if err != nil {
		return nil, "", err
	}
	if part {
		fi = apt.MakeFileInfoNoChecksum(p, uint64(len(content)))
	}
	return fi, f.Name(), nil
}

// blocked reports whether p's file or directory clashes with a stored item.
func (m *stModel) blocked(p string) bool {
	disk := fsx.Tree(m.dir)
	if v, ok := disk[p+".cache"]; ok && (m.items[p] == nil || v == "d") {
		return true
	}
	for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
		if v, ok := disk[d]; ok && v != "d" {
			return true
		}
	}
	return false
}

func TestC03_lru(t *testing.T) {
	pk.Check(t, "C03_lru", stGen, stPlay)
}

// TestC04_reload: reloads find the items and nothing else.
func TestC04_reload(t *testing.T) {
	pk.Check(t, "C04_reload", func(t *rapid.T) StScenario {
		s := stGen(t)
		for i := range s.Ops {
			if o := &s.Ops[i]; o.K != "ins" {
				if k := rapid.SampledFrom([]string{"", "stray", "load", "", ""}).Draw(t, "instead"); k != "" {
					o.K, o.P = k, 0
				}
			}
		}
		s.Ops = append(s.Ops, StOp{K: "load"})
		return s
	}, func(c *pk.C, sc StScenario) error {
		return stPlay(c, sc)
	})
}

func stPlay(c *pk.C, sc StScenario) error {
	{
		base, clean := scratch()
		defer clean()
		dir, tmp := filepath.Join(base, "store"), filepath.Join(base, "tmp")
		if err := os.Mkdir(tmp, 0755); err != nil {
			pk.Infra("%v", err)
		}
		m := &stModel{dir: dir, cap: sc.Cap, items: map[string]*stItem{}, strays: map[string]string{}}
		m.st = cacher.NewStorage(dir, sc.Cap)
		if err := m.st.Load(); err != nil {
			return fmt.Errorf("Load of an empty directory: %v", err)
		}
		held := map[*os.File][]byte{} // handles from earlier lookups
		defer func() {
			for f := range held {
				f.Close()
			}
		}()
		reloads, hits, replaced := 0, 0, 0
		for i, o := range sc.Ops {
			p := ""
			if o.K != "bad" {
				p = stPaths[o.P]
			}
			content := stContent(o.C, o.Size)
			what := fmt.Sprintf("op %d %s %q", i, o.K, p)
			switch o.K {
			case "ins":
				fi, name, err := makeFI(tmp, p, content, o.Part)
				if err != nil {
					pk.Infra("%v", err)
				}
				blocked := m.blocked(p)
				err = m.st.Insert(name, fi)
				os.Remove(name)
				if err != nil {
					if !blocked {
						return fmt.Errorf("%s: %v", what, err)
					}
					c.Class("path blocked by another item")
					break
				}
				if m.items[p] != nil {
					replaced++
				}
				m.rank++
				m.items[p] = &stItem{content: content, rank: m.rank}
			case "bad":
				p = badPaths[o.P]
				what = fmt.Sprintf("op %d %s %q", i, o.K, p)
				fi, name, err := makeFI(tmp, p, content, false)
				if err != nil {
					pk.Infra("%v", err)
				}
				err = m.st.Insert(name, fi)
				os.Remove(name)
				if err == nil {
					return fmt.Errorf("%s: accepted", what)
				}
			case "nofile":
				// the source is missing: nothing, or at most the replaced item, is lost
				fi, name, err := makeFI(tmp, p, content, false)
				if err != nil {
					pk.Infra("%v", err)
				}
				os.Remove(name)
				if err := m.st.Insert(name, fi); err == nil {
					return fmt.Errorf("%s: accepted", what)
				}
				if m.items[p] != nil {
					still := false
					for _, fi := range m.st.ListAll() {
						still = still || fi.Path() == p
					}
					if !still {
						delete(m.items, p)
					}
				}
			case "look", "miss", "old":
				it := m.items[p]
				want := content
				if it != nil && o.K == "look" {
					want = it.content
				}
				if o.K == "old" && it != nil {
					// same size, other bytes
					want = append([]byte(nil), it.content...)
					if len(want) > 0 {
						want[len(want)/2] ^= 1
					}
				}
				fi, name, err := makeFI(tmp, p, want, o.Part && o.K == "look")
				if err != nil {
					pk.Infra("%v", err)
				}
				os.Remove(name)
				match := it != nil && (bytes.Equal(want, it.content) || (o.Part && o.K == "look"))
				f, err := m.st.Lookup(fi)
				if it != nil && it.vanish {
					if err == nil {
						f.Close()
						return fmt.Errorf("%s: found although its file was removed", what)
					}
					m.rank++
					// it may count as used or not: forget about it
					if err := m.st.Delete(p); err != nil {
						return fmt.Errorf("%s: Delete: %v", what, err)
					}
					delete(m.items, p)
					break
				}
				if !match {
					if err == nil {
						b, _ := io.ReadAll(f)
						f.Close()
						return fmt.Errorf("%s: found %.60q although content %.60q was asked for", what, b, want)
					}
					if err != cacher.ErrNotFound {
						return fmt.Errorf("%s: %v instead of not found", what, err)
					}
					break
				}
				if err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				hits++
				b, err := io.ReadAll(f)
				if err != nil || !bytes.Equal(b, it.content) {
					f.Close()
					return fmt.Errorf("%s: read %.60q (%v), stored %.60q", what, b, err, it.content)
				}
				if len(held) < 5 {
					held[f] = it.content
				} else {
					f.Close()
				}
				m.rank++
				it.rank = m.rank
			case "del":
				if err := m.st.Delete(p); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				delete(m.items, p)
			case "vanish":
				if it := m.items[p]; it != nil && p != "m" {
					os.Remove(filepath.Join(dir, p+".cache"))
					it.vanish = true
				}
			case "stray":
				// leftovers and foreign files, which a reload ignores
				n := []string{"_tmp123", "u/notes.txt", "lost+found", "b.cache.old"}[o.C]
				if v, ok := fsx.Tree(dir)[filepath.Dir(n)]; filepath.Dir(n) != "." && (!ok || v != "d") {
					break
				}
				if _, ok := m.strays[n]; ok {
					break
				}
				if o.Part {
					// a link of theirs, named like an item
					n = "ln.cache"
					to := filepath.Join(tmp, "theirs")
					os.WriteFile(to, content, 0644)
					if os.Symlink(to, filepath.Join(dir, n)) == nil {
						m.strays[n] = "l:" + to
					}
					break
				}
				if os.WriteFile(filepath.Join(dir, n), content, 0644) == nil {
					m.strays[n] = "f:" + string(content)
				}
			case "load":
				reloads++
				for p, it := range m.items {
					if it.vanish {
						delete(m.items, p)
					}
				}
				m.rank++
				for _, it := range m.items {
					it.rank = m.rank
				}
				if o.Part && sc.Cap > 0 {
					m.cap = sc.Cap/2 + 1
				} else {
					m.cap = sc.Cap
				}
				m.st = cacher.NewStorage(dir, m.cap)
				if err := m.st.Load(); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				if o.C == 3 {
					// loading again changes nothing
					if err := m.settle(what); err != nil {
						return err
					}
					if err := m.st.Load(); err != nil {
						return fmt.Errorf("%s again: %v", what, err)
					}
				}
			}
			if err := m.settle(what); err != nil {
				return err
			}
		}
		// what was handed out stays readable
		for f, want := range held {
			f.Seek(0, io.SeekStart)
			b, err := io.ReadAll(f)
			if err != nil || !bytes.Equal(b, want) {
				return fmt.Errorf("a file handed out earlier now reads %.60q (%v), want %.60q", b, err, want)
			}
		}
		c.ClassIf(m.evicted > 0, "eviction")
		c.ClassIf(reloads > 0, "reload")
		c.ClassIf(hits > 0, "lookup hit")
		c.ClassIf(replaced > 0, "replacement")
		c.NonTrivialIf(m.evicted > 0 || reloads > 0 && len(m.items) > 0 || replaced > 0)
		return nil
	}
}

// ---- failing operations -------------------------------------------------

// StFault is a storage history with one failing file-system operation.
type StFault struct {
	S    StScenario
	At   int
	Kind string
}

func TestC03_fault(t *testing.T) {
	gen := func(t *rapid.T) StFault {
		s := StFault{S: stGen(t), At: 1 + pk.Uniform(t, "at", 30)}
		var keep []StOp
		for _, o := range s.S.Ops {
			if o.K == "ins" || o.K == "del" || o.K == "look" {
				keep = append(keep, o)
			}
		}
		s.S.Ops = keep
		return s
	}
	pk.Check(t, "C03_fault", gen, func(c *pk.C, sc StFault) error {
		base, clean := scratch()
		defer clean()
		dir := filepath.Join(base, "store")
		tmp, clean2 := scratch()
		defer clean2()
		st := cacher.NewStorage(dir, sc.S.Cap)
		fs := &fsx.FS{Root: base, FailAt: sc.At, FailKinds: func(op *fsx.Op) bool {
			return strings.HasPrefix(op.Path+"|"+op.Path2, dir) || strings.Contains(op.Path2, dir)
		}}
		contents := map[string][][]byte{}
		for i, o := range sc.S.Ops {
			p := stPaths[o.P]
			content := stContent(o.C, o.Size)
			fi, name, err := makeFI(tmp, p, content, false)
			if err != nil {
				pk.Infra("%v", err)
			}
			fsx.Install(fs)
			switch o.K {
			case "ins":
				blocked := (&stModel{dir: dir, items: map[string]*stItem{p: nil}}).blocked(p)
				n := len(fs.Failed)
				// the temporary file lies outside the monitored root
				fsx.Uninstall()
				os.MkdirAll(filepath.Join(base, "in"), 0755)
				src := filepath.Join(base, "in", fmt.Sprint(i))
				os.WriteFile(src, content, 0644)
				fsx.Install(fs)
				err = st.Insert(src, fi)
				contents[p] = append(contents[p], content)
				_ = blocked
				if err != nil && len(fs.Failed) > n && storable(dir, p, st) {
					// the failure is over: the same again goes through
					if e := st.Insert(src, fi); e != nil {
						fsx.Uninstall()
						return fmt.Errorf("op %d: Insert of %q failed once (%v) and fails again although nothing is in its way: %v", i, p, fails(fs), e)
					}
				}
				if err == nil {
					f, e := st.Lookup(fi)
					var got []byte
					if e == nil {
						got, e = io.ReadAll(f)
						f.Close()
					}
					if e != nil || !bytes.Equal(got, content) {
						fsx.Uninstall()
						return fmt.Errorf("op %d: Insert of %q reported success (failed operations %v), but looking it up gives %.60q (%v)", i, p, fails(fs), got, e)
					}
				}
				if err == nil && len(fs.Failed) > n && fs.Failed[n].Kind == "link" {
					fsx.Uninstall()
					return fmt.Errorf("op %d: Insert of %q reported success although linking it failed", i, p)
				}
			case "del":
				n, left := len(fs.Failed), leftover(fs, dir, p)
				err = st.Delete(p)
				if err != nil && len(fs.Failed) > n {
					err = st.Delete(p)
				}
				if err != nil {
					fsx.Uninstall()
					return fmt.Errorf("op %d: Delete of %q: %v (failed operations %v)", i, p, err, fails(fs))
				}
				if fi, e := os.Lstat(filepath.Join(dir, p+".cache")); e == nil && fi.Mode().IsRegular() && !left {
					fsx.Uninstall()
					return fmt.Errorf("op %d: Delete of %q reported success, but its file is still there (failed operations %v)", i, p, fails(fs))
				}
			case "look":
				f, e := st.Lookup(fi)
				if e == nil {
					f.Close()
				}
			}
			fsx.Uninstall()
			os.Remove(name)
			// the listing, the directory and the bound agree
			var total uint64
			l := st.ListAll()
			disk := fsx.Tree(dir)
			for _, fi := range l {
				total += fi.Size()
				v, ok := disk[fi.Path()+".cache"]
				if !ok {
					return fmt.Errorf("op %d %s %q (failed operations %v): %q is listed but has no file", i, o.K, p, fails(fs), fi.Path())
				}
				good := false
				for _, b := range contents[fi.Path()] {
					good = good || v == "f:"+string(b) && len(b) == int(fi.Size())
				}
				if !good {
					return fmt.Errorf("op %d %s %q (failed operations %v): %q is listed with size %d but holds %.60q", i, o.K, p, fails(fs), fi.Path(), fi.Size(), v)
				}
			}
			if sc.S.Cap > 0 && total > sc.S.Cap && len(l) > 1 {
				return fmt.Errorf("op %d %s %q (failed operations %v): %d bytes kept, capacity is %d", i, o.K, p, fails(fs), total, sc.S.Cap)
			}
			// and the accounting: an insertion that fits evicts nothing, checked by the next operations
		}
		// accounting after the fault: filling up to the capacity evicts nothing
		if sc.S.Cap > 0 {
			var total uint64
			l := st.ListAll()
			for _, fi := range l {
				total += fi.Size()
			}
			if total < sc.S.Cap {
				content := stContent(1, int(sc.S.Cap-total))
				src := filepath.Join(base, "filler")
				os.WriteFile(src, content, 0644)
				fi, name, err := makeFI(tmp, "fill/er", content, false)
				if err != nil {
					pk.Infra("%v", err)
				}
				os.Remove(name)
				if err := st.Insert(src, fi); err != nil {
					return fmt.Errorf("the final insertion failed: %v", err)
				}
				if n := len(st.ListAll()); n != len(l)+1 {
					return fmt.Errorf("after failed operations %v: %d of %d bytes used, but an insertion of the rest left %d of %d items", fails(fs), total, sc.S.Cap, n, len(l)+1)
				}
			}
		}
		for _, o := range fs.Failed {
			c.Class("failed " + o.Kind)
		}
		c.NonTrivialIf(len(fs.Failed) > 0)
		return nil
	})
}

// storable tells whether nothing on disk stands in the way of storing p.
func storable(dir, p string, st *cacher.Storage) bool {
	dst := filepath.Join(dir, p+".cache")
	for d := filepath.Dir(dst); len(d) > len(dir); d = filepath.Dir(d) {
		if fi, err := os.Lstat(d); err == nil && !fi.IsDir() {
			return false
		}
	}
	fi, err := os.Lstat(dst)
	if err != nil {
		return os.IsNotExist(err)
	}
	if !fi.Mode().IsRegular() {
		return false
	}
	return true
}

// leftover tells whether an eviction failed to remove the file of p.
func leftover(fs *fsx.FS, dir, p string) bool {
	for _, o := range fs.Failed {
		if o.Kind == "remove" && o.Path == filepath.Join(dir, p+".cache") {
			return true
		}
	}
	return false
}

func fails(fs *fsx.FS) (l []string) {
	for _, o := range fs.Failed {
		l = append(l, o.Kind+" "+filepath.Base(o.Path)+" "+filepath.Base(o.Path2))
	}
	return
}

// ---- concurrency --------------------------------------------------------

// StConc is a set of concurrent storage histories.
type StConc struct {
	Cap  uint64
	Pre  []StOp // before a reload
	Thr  [][]StOp
	Seed int
}

func stConcGen(t *rapid.T) StConc {
	var s StConc
	s.Cap = rapid.SampledFrom([]uint64{60, 0, 20, 150}).Draw(t, "cap")
	npaths := rapid.IntRange(1, 5).Draw(t, "paths")
	op := func(kinds []string) *rapid.Generator[StOp] {
		return rapid.Custom(func(t *rapid.T) StOp {
			o := StOp{K: rapid.SampledFrom(kinds).Draw(t, "k")}
			o.P = rapid.IntRange(0, npaths-1).Draw(t, "p")
			o.C = rapid.IntRange(0, 2).Draw(t, "c")
			o.Size = []int{10, 20, 11, 7, 30}[o.P]
			return o
		})
	}
	s.Pre = rapid.SliceOfN(op([]string{"ins"}), 0, 5).Draw(t, "pre")
	n := rapid.IntRange(2, 5).Draw(t, "threads")
	for i := 0; i < n; i++ {
		s.Thr = append(s.Thr, rapid.SliceOfN(op([]string{"ins", "ins", "look", "look", "look", "del", "list"}), 3, 14).Draw(t, "ops"))
	}
	s.Seed = rapid.IntRange(0, 99).Draw(t, "seed")
	return s
}

func TestC12_storage(t *testing.T) {
	pk.Check(t, "C12_storage", stConcGen, func(c *pk.C, sc StConc) error {
		base, clean := scratch()
		defer clean()
		dir, tmp := filepath.Join(base, "store"), filepath.Join(base, "tmp")
		os.Mkdir(tmp, 0755)
		put := func(st *cacher.Storage, o StOp) (*apt.FileInfo, error) {
			fi, name, err := makeFI(tmp, stPaths[o.P], stContent(o.C, o.Size), false)
			if err != nil {
				pk.Infra("%v", err)
			}
			err = st.Insert(name, fi)
			os.Remove(name)
			return fi, err
		}
		st := cacher.NewStorage(dir, sc.Cap)
		for _, o := range sc.Pre {
			if _, err := put(st, o); err != nil {
				return fmt.Errorf("Insert %q: %v", stPaths[o.P], err)
			}
		}
		st = cacher.NewStorage(dir, sc.Cap)
		if err := st.Load(); err != nil {
			return fmt.Errorf("Load: %v", err)
		}
		// Delays around file-system calls, without any shared state, so
		// that the monitor orders nothing.
		os.VerifHook = delayHook(sc.Seed)
		defer func() { os.VerifHook = nil }()
		var wg sync.WaitGroup
		errs := make([]error, len(sc.Thr))
		hits := make([]int, len(sc.Thr))
		start := make(chan struct{})
		for i, ops := range sc.Thr {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j, o := range ops {
					p := stPaths[o.P]
					switch o.K {
					case "ins":
						fi, err := put(st, o)
						if err != nil {
							errs[i] = fmt.Errorf("thread %d op %d: Insert %q: %v", i, j, p, err)
							return
						}
						_ = fi.Size()
					case "del":
						if err := st.Delete(p); err != nil {
							errs[i] = fmt.Errorf("thread %d op %d: Delete %q: %v", i, j, p, err)
							return
						}
					case "list":
						for _, fi := range st.ListAll() {
							_, _, _, _ = fi.Path(), fi.Size(), fi.MD5SumPath(), fi.SHA1Path()
						}
					case "look":
						want := stContent(o.C, o.Size)
						fi := fiOf(p, want)
						f, err := st.Lookup(fi)
						if err == cacher.ErrNotFound {
							continue
						}
						if err != nil {
							errs[i] = fmt.Errorf("thread %d op %d: Lookup %q: %v", i, j, p, err)
							return
						}
						hits[i]++
						b, err := io.ReadAll(f)
						f.Close()
						if err != nil || !bytes.Equal(b, want) {
							errs[i] = fmt.Errorf("thread %d op %d: Lookup %q delivered %.60q (%v), want %.60q", i, j, p, b, err, want)
							return
						}
					}
				}
			}()
		}
		close(start)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(45 * time.Second):
			return fmt.Errorf("the operations did not end within 45 s")
		}
		os.VerifHook = nil
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		// once quiet: listing, directory and bound agree
		disk := fsx.Tree(dir)
		var total uint64
		l := st.ListAll()
		for _, fi := range l {
			total += fi.Size()
			v, ok := disk[fi.Path()+".cache"]
			if !ok {
				return fmt.Errorf("%q is listed but has no file", fi.Path())
			}
			good := false
			for k := 0; k < 3; k++ {
				good = good || v == "f:"+string(stContent(k, int(fi.Size())))
			}
			if !good {
				return fmt.Errorf("%q holds %.60q", fi.Path(), v)
			}
			delete(disk, fi.Path()+".cache")
			// and it is found by exactly its content
			found := 0
			for k := 0; k < 3; k++ {
				b := stContent(k, int(fi.Size()))
				f, err := st.Lookup(fiOf(fi.Path(), b))
				if err != nil {
					continue
				}
				g, _ := io.ReadAll(f)
				f.Close()
				if !bytes.Equal(g, b) {
					return fmt.Errorf("%q looked up as %.60q holds %.60q", fi.Path(), b, g)
				}
				found++
			}
			if found != 1 {
				return fmt.Errorf("%q holds %.60q and is found under %d contents", fi.Path(), v, found)
			}
		}
		for p, v := range disk {
			if v != "d" {
				return fmt.Errorf("%q is left in the directory but not listed", p)
			}
		}
		if sc.Cap > 0 && total > sc.Cap && len(l) > 1 {
			return fmt.Errorf("%d bytes kept, capacity is %d", total, sc.Cap)
		}
		// the accounting survived
		if sc.Cap > 0 && total < sc.Cap {
			b := stContent(1, int(sc.Cap-total))
			fi, name, err := makeFI(tmp, "fill/er", b, false)
			if err != nil {
				pk.Infra("%v", err)
			}
			if err := st.Insert(name, fi); err != nil {
				return fmt.Errorf("final insertion: %v", err)
			}
			if n := len(st.ListAll()); n != len(l)+1 {
				return fmt.Errorf("%d of %d bytes used, but an insertion of the rest left %d of %d items", total, sc.Cap, n, len(l)+1)
			}
		}
		n := 0
		for _, h := range hits {
			n += h
		}
		c.ClassIf(n > 0, "lookup hit")
		c.ClassIf(len(sc.Pre) > 0, "lazy checksums")
		c.NonTrivialIf(n > 0)
		return nil
	})
}

// fiOf is the record of some content.
func fiOf(p string, b []byte) *apt.FileInfo {
	fi, err := apt.CopyWithFileInfo(io.Discard, bytes.NewReader(b), p)
	if err != nil {
		pk.Infra("%v", err)
	}
	return fi
}
