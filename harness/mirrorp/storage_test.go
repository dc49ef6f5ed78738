package mirrorp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/aptutil/mirror"
	"pgregory.net/rapid"

	"verifharness/idx"
	"verifharness/pk"
)

// StoreOp is one call on a mirror storage.
type StoreOp struct {
	K    string // link hash lookup open reload save
	P, C int    // path, content
	Mask int    // digests of the record (1 md5, 2 sha1, 4 sha256)
	Hash bool
	Alg  int
}

// StoreScen is a list of calls, or one list for each goroutine.
type StoreScen struct {
	Prefix string
	Ops    [][]StoreOp
}

var storePaths = []string{"a", "d/Packages", "d/Packages.gz", "d/x y%41/é", "dists/stable/Release", "Release", "d/Packages/sub", "pool/a/b/c.deb",
	"dists/stable/main/binary-amd64/Packages", "info.json", "_tmp1", "d/by-hash/x"}

func storeContent(c int) []byte {
	switch c {
	case 0:
		return nil
	case 1, 2:
		return bytes.Repeat([]byte{byte('0' + c)}, 20) // same size
	}
	return bytes.Repeat([]byte(fmt.Sprintf("content %d\n", c)), c)
}

// record makes a FileInfo with exactly the digests of r by its JSON form,
// or, with all of them, by measuring.
func record(r idx.Rec, data []byte) *apt.FileInfo {
	if r.MD5 != "" && r.SHA1 != "" && r.SHA256 != "" && data != nil {
		fi, err := apt.CopyWithFileInfo(io.Discard, bytes.NewReader(data), r.Path)
		if err != nil {
			pk.Infra("%v", err)
		}
		return fi
	}
	fi := new(apt.FileInfo)
	b, _ := json.Marshal(map[string]interface{}{"Path": r.Path, "Size": r.Size, "MD5Sum": r.MD5, "SHA1Sum": r.SHA1, "SHA256Sum": r.SHA256})
	if err := json.Unmarshal(b, fi); err != nil {
		pk.Infra("%v", err)
	}
	return fi
}

func recOf(fi *apt.FileInfo) idx.Rec {
	last := func(p string) string {
		if p == "" {
			return ""
		}
		return path.Base(p)
	}
	return idx.Rec{Path: fi.Path(), Size: fi.Size(), MD5: last(fi.MD5SumPath()), SHA1: last(fi.SHA1Path()), SHA256: last(fi.SHA256Path())}
}

// storeModel is the reference.
type storeModel struct {
	dir, prefix string
	st          *mirror.Storage
	info        map[string]idx.Rec
	disk        map[string]int  // path -> content
	poison      map[string]bool // a store failed half-way
	tmp         int
	hits, taken int
}

func (m *storeModel) blocked(p string) bool {
	for q := range m.disk {
		if strings.HasPrefix(q, p+"/") {
			return true
		}
	}
	for d := path.Dir(p); d != "."; d = path.Dir(d) {
		if _, ok := m.disk[d]; ok {
			return true
		}
	}
	return false
}

func hashPath(r idx.Rec, alg int) string {
	switch alg {
	case 0:
		if r.MD5 != "" {
			return byhashPath(r.Path, "MD5Sum", r.MD5)
		}
	case 1:
		if r.SHA1 != "" {
			return byhashPath(r.Path, "SHA1", r.SHA1)
		}
	case 2:
		if r.SHA256 != "" {
			return byhashPath(r.Path, "SHA256", r.SHA256)
		}
	}
	return ""
}

func (m *storeModel) source(c int) string {
	f, err := m.st.TempFile()
	if err != nil {
		pk.Infra("%v", err)
	}
	defer f.Close()
	f.Write(storeContent(c))
	return f.Name()
}

func (m *storeModel) store(o StoreOp) error {
	p := storePaths[o.P%len(storePaths)]
	data := storeContent(o.C)
	r := idx.Of(p, data).Mask(o.Mask)
	src := m.source(o.C)
	defer os.Remove(src)
	_, taken := m.info[p]
	if o.K == "link" {
		err := m.st.StoreLink(record(r, data), src)
		switch {
		case m.poison[p]:
		case taken:
			m.taken++
			if err == nil {
				return fmt.Errorf("StoreLink on the taken path %q succeeded", p)
			}
		case m.blocked(p):
			m.poison[p] = true
			if err == nil {
				return fmt.Errorf("StoreLink of %q succeeded though another file is in the way", p)
			}
		case err != nil:
			if _, ok := m.disk[p]; ok {
				m.poison[p] = true
				return nil
			}
			return fmt.Errorf("StoreLink of %q: %v", p, err)
		default:
			m.info[p], m.disk[p] = r, o.C
		}
		return nil
	}
	block := !taken && m.blocked(p)
	for a := 0; a < 3; a++ {
		if hp := hashPath(r, a); hp != "" && m.blocked(hp) {
			block = true
		}
	}
	err := m.st.StoreLinkWithHash(record(r, data), src)
	if block || m.poison[p] {
		m.poison[p] = true
		for a := 0; a < 3; a++ {
			if hp := hashPath(r, a); hp != "" {
				m.poison[hp] = true
			}
		}
		if block && err == nil && !m.poison[p] {
			return fmt.Errorf("StoreLinkWithHash of %q succeeded though another file is in the way", p)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("StoreLinkWithHash of %q: %v", p, err)
	}
	if taken {
		m.taken++
	} else {
		m.info[p], m.disk[p] = r, o.C
	}
	for a := 0; a < 3; a++ {
		if hp := hashPath(r, a); hp != "" {
			// a record with the same digest in the same directory is
			// replaced (documented)
			m.info[hp] = r
			if _, ok := m.disk[hp]; !ok {
				m.disk[hp] = o.C
			}
		}
	}
	return nil
}

func (m *storeModel) lookup(o StoreOp) error {
	p := storePaths[o.P%len(storePaths)]
	want := idx.Of(p, storeContent(o.C)).Mask(o.Mask)
	hp := ""
	if o.Hash {
		hp = hashPath(want, 2)
	}
	if m.poison[p] || hp != "" && m.poison[hp] {
		return nil
	}
	match := func(k string) bool {
		r, ok := m.info[k]
		return ok && want.Same(r)
	}
	exp := match(p) || hp != "" && match(hp)
	fi, loc := m.st.Lookup(record(want, nil), o.Hash)
	if (fi != nil) != exp {
		return fmt.Errorf("Lookup of %+v (by-hash %v): found %v, stored %v", want, o.Hash, fi != nil, exp)
	}
	if fi == nil {
		if loc != "" {
			return fmt.Errorf("Lookup of %+v found nothing, at %q", want, loc)
		}
		return nil
	}
	m.hits++
	got := recOf(fi)
	if !want.Same(got) {
		return fmt.Errorf("Lookup of %+v returned %+v", want, got)
	}
	if r, ok := m.info[p]; !(ok && r == got) && (hp == "" || m.info[hp] != got) {
		return fmt.Errorf("Lookup of %+v returned %+v, which was not stored so", want, got)
	}
	b, err := os.ReadFile(loc)
	if err != nil {
		return fmt.Errorf("Lookup of %+v: %v", want, err)
	}
	if !want.Same(idx.Of(p, b)) {
		return fmt.Errorf("Lookup of %+v leads to other content", want)
	}
	if rel, err := filepath.Rel(filepath.Join(m.dir, m.prefix), loc); err != nil || strings.HasPrefix(rel, "..") {
		return fmt.Errorf("Lookup of %+v leads to %s", want, loc)
	}
	return nil
}

func (m *storeModel) open(o StoreOp) error {
	p := storePaths[o.P%len(storePaths)]
	if o.Hash {
		p = hashPath(idx.Of(p, storeContent(o.C)), o.Alg%3)
	}
	c, ok := m.disk[p]
	if m.poison[p] || m.blocked(p) {
		return nil
	}
	f, err := m.st.Open(p)
	if (err == nil) != ok {
		return fmt.Errorf("Open(%q): %v, stored %v", p, err, ok)
	}
	if err != nil {
		return nil
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if err != nil || !bytes.Equal(b, storeContent(c)) {
		return fmt.Errorf("Open(%q) does not give what was stored (%v)", p, err)
	}
	return nil
}

func (m *storeModel) reload() error {
	if err := m.st.Save(); err != nil {
		return fmt.Errorf("Save: %v", err)
	}
	return m.load()
}

func (m *storeModel) load() error {
	st, err := mirror.NewStorage(m.dir, m.prefix)
	if err != nil {
		return fmt.Errorf("NewStorage: %v", err)
	}
	if err := st.Load(); err != nil {
		return fmt.Errorf("Load: %v", err)
	}
	m.st = st
	return nil
}

// tree: exactly the stored files.
func (m *storeModel) tree() error {
	if len(m.poison) > 0 {
		return nil
	}
	got := &pub{tree: map[string][]byte{}}
	root := filepath.Join(m.dir, m.prefix)
	if _, err := os.Stat(root); err == nil {
		if err := readTree(root, "", got); err != nil {
			return err
		}
	}
	want := map[string][]byte{}
	for p, c := range m.disk {
		want[p] = storeContent(c)
	}
	if d := sameTree(want, got.tree); d != "" {
		return fmt.Errorf("files of the storage (wanted, found): %s", d)
	}
	return nil
}

func newStoreModel(dir, prefix string) *storeModel {
	m := &storeModel{dir: dir, prefix: prefix, info: map[string]idx.Rec{}, disk: map[string]int{}, poison: map[string]bool{}}
	if err := m.load(); err != nil { // no records yet: empty
		pk.Infra("%v", err)
	}
	return m
}

var storeOpGen = rapid.Custom(func(t *rapid.T) StoreOp {
	return StoreOp{
		K:    rapid.SampledFrom([]string{"link", "hash", "hash", "lookup", "lookup", "lookup", "open", "reload", "save"}).Draw(t, "k"),
		P:    rapid.IntRange(0, len(storePaths)-1).Draw(t, "p"),
		C:    rapid.IntRange(0, 4).Draw(t, "c"),
		Mask: rapid.SampledFrom([]int{7, 7, 7, 4, 1, 6, 3, 5, 2, 0}).Draw(t, "mask"),
		Hash: rapid.Bool().Draw(t, "hash"),
		Alg:  rapid.IntRange(0, 2).Draw(t, "alg"),
	}
})

func TestM12_model(t *testing.T) {
	pk.Check(t, "M12_model", func(t *rapid.T) StoreScen {
		return StoreScen{Prefix: rapid.SampledFrom([]string{"ubuntu", "a-b_1"}).Draw(t, "prefix"),
			Ops: [][]StoreOp{rapid.SliceOfN(storeOpGen, 1, 40).Draw(t, "ops")}}
	}, func(c *pk.C, s StoreScen) error {
		dir, clean := scratch()
		defer clean()
		m := newStoreModel(dir, s.Prefix)
		reloads := 0
		for i, o := range s.Ops[0] {
			var err error
			switch o.K {
			case "link", "hash":
				err = m.store(o)
			case "lookup":
				err = m.lookup(o)
			case "open":
				err = m.open(o)
			case "reload":
				reloads++
				err = m.reload()
			case "save":
				if e := m.st.Save(); e != nil {
					err = fmt.Errorf("Save: %v", e)
				}
			}
			if err == nil {
				err = m.tree()
			}
			if err != nil {
				return fmt.Errorf("operation %d %+v: %v", i, o, err)
			}
		}
		// every stored file must be found, before and after reloading
		for k := 0; k < 2; k++ {
			for pi, p := range storePaths {
				for ci := 0; ci < 5; ci++ {
					for _, mask := range []int{7, 4, 3} {
						for _, h := range []bool{false, true} {
							if err := m.lookup(StoreOp{P: pi, C: ci, Mask: mask, Hash: h}); err != nil {
								return fmt.Errorf("at the end (%s): %v", p, err)
							}
						}
					}
				}
			}
			if err := m.reload(); err != nil {
				return err
			}
		}
		// saving replaces what was saved before
		st, err := mirror.NewStorage(m.dir, m.prefix)
		if err != nil {
			pk.Infra("%v", err)
		}
		if err := st.Save(); err != nil {
			return fmt.Errorf("Save of an empty storage: %v", err)
		}
		if err := m.load(); err != nil {
			return err
		}
		if len(m.poison) == 0 {
			had := m.info
			m.info = map[string]idx.Rec{}
			for _, r := range had {
				if fi, _ := m.st.Lookup(record(r, nil), true); fi != nil {
					return fmt.Errorf("%+v is found after an empty storage was saved in its place", r)
				}
			}
		}
		c.NonTrivialIf(m.hits > 0)
		c.ClassIf(m.taken > 0, "taken path")
		c.ClassIf(reloads > 0, "reloaded")
		c.ClassIf(len(m.poison) > 0, "something in the way")
		return nil
	})
}

// TestM12_conc stores from several goroutines.
func TestM12_conc(t *testing.T) {
	pk.Check(t, "M12_conc", func(t *rapid.T) StoreScen {
		s := StoreScen{Prefix: "m"}
		for i := rapid.IntRange(2, 4).Draw(t, "threads"); i > 0; i-- {
			s.Ops = append(s.Ops, rapid.SliceOfN(storeOpGen, 1, 10).Draw(t, "ops"))
		}
		return s
	}, func(c *pk.C, s StoreScen) error {
		dir, clean := scratch()
		defer clean()
		st, err := mirror.NewStorage(dir, s.Prefix)
		if err != nil {
			pk.Infra("%v", err)
		}
		type outcome struct {
			o   StoreOp
			rec idx.Rec
			err error
		}
		res := make([][]outcome, len(s.Ops))
		errs := make([]error, len(s.Ops))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g, ops := range s.Ops {
			g, ops := g, ops
			var srcs []string
			for _, o := range ops {
				f, err := st.TempFile()
				if err != nil {
					pk.Infra("%v", err)
				}
				f.Write(storeContent(o.C))
				f.Close()
				srcs = append(srcs, f.Name())
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i, o := range ops {
					p := storePaths[o.P%6] // no path is in the way of another
					data := storeContent(o.C)
					r := idx.Of(p, data).Mask(7)
					switch o.K {
					case "link":
						res[g] = append(res[g], outcome{o, r, st.StoreLink(record(r, data), srcs[i])})
					case "hash":
						res[g] = append(res[g], outcome{o, r, st.StoreLinkWithHash(record(r, data), srcs[i])})
					case "lookup":
						if fi, _ := st.Lookup(record(r, data), o.Hash); fi != nil && !r.Same(recOf(fi)) {
							errs[g] = fmt.Errorf("Lookup of %+v returned %+v", r, recOf(fi))
						}
					case "reload", "save":
						if err := st.Save(); err != nil {
							errs[g] = err
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		links, stored := map[string]int{}, map[string]bool{}
		hashed := map[string]idx.Rec{}
		n := 0
		for _, l := range res {
			for _, x := range l {
				n++
				p := x.rec.Path
				switch {
				case x.o.K == "hash" && x.err != nil:
					return fmt.Errorf("StoreLinkWithHash of %q: %v", p, x.err)
				case x.o.K == "hash":
					hashed[hashPath(x.rec, 2)] = x.rec
				case x.err == nil:
					links[p]++
				}
				stored[p] = true
			}
		}
		for p := range stored {
			if links[p] > 1 {
				return fmt.Errorf("%q was stored %d times", p, links[p])
			}
			found := 0
			for ci := 0; ci < 5; ci++ {
				r := idx.Of(p, storeContent(ci))
				fi, loc := st.Lookup(record(r, nil), false)
				if fi == nil {
					continue
				}
				found++
				b, err := os.ReadFile(loc)
				if err != nil || !r.Same(idx.Of(p, b)) {
					return fmt.Errorf("%q does not hold what Lookup says (%v)", p, err)
				}
			}
			if found != 1 {
				return fmt.Errorf("%q is found with %d contents", p, found)
			}
		}
		for hp, r := range hashed {
			f, err := st.Open(hp)
			if err != nil {
				return fmt.Errorf("Open(%q): %v", hp, err)
			}
			b, _ := io.ReadAll(f)
			f.Close()
			if !r.Same(idx.Of(r.Path, b)) {
				return fmt.Errorf("%q holds other content", hp)
			}
		}
		c.NonTrivialIf(n > 1 && len(stored) < n)
		return nil
	})
}
