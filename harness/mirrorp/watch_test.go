package mirrorp

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verifharness/fsx"
)

// watcher looks at every published name after every file-system operation.
type watcher struct {
	h        *hist
	run      map[int]bool
	mu       sync.Mutex
	known    map[int]*pub
	n        int
	err      error
	seen     int // full comparisons
	switches int
}

func newWatcher(h *hist, run map[int]bool, before map[int]*pub) *watcher {
	w := &watcher{h: h, run: run, known: map[int]*pub{}}
	for i, p := range before {
		w.known[i] = p
	}
	return w
}

func (w *watcher) before(op *fsx.Op) {}

func (w *watcher) after(op *fsx.Op) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.err != nil {
		return
	}
	w.n++
	for i := range w.h.ups {
		id := mirNames[i]
		k := w.known[i]
		t, err := os.Readlink(filepath.Join(w.h.dir, id))
		if err != nil {
			if k != nil {
				w.err = fmt.Errorf("after %s: published name %s is gone", op, id)
			}
			continue
		}
		if k == nil || k.target != t {
			p, err := w.h.published(id)
			if err != nil {
				w.err = fmt.Errorf("after %s: %v", op, err)
				return
			}
			if !w.run[i] {
				w.err = fmt.Errorf("after %s: mirror %s, not part of the run, was switched", op, id)
				return
			}
			if err := w.h.ups[i].judge(w.h.cfgs[i], p.tree, nil, w.h.absent(i)); err != nil {
				w.err = fmt.Errorf("after %s: mirror %s was switched to an incomplete version: %v", op, id, err)
				return
			}
			w.switches++
			if k != nil {
				// the old version is intact until after the switch
				if err := w.compareDir(k); err != nil {
					w.err = fmt.Errorf("when mirror %s was switched, the version before it was damaged: %v", id, err)
				}
			}
			w.known[i] = p
			continue
		}
		if w.suspect(op, k) || w.n%40 == 0 {
			w.seen++
			p, err := w.h.published(id)
			if err != nil {
				w.err = fmt.Errorf("after %s: %v", op, err)
				return
			}
			if p == nil || p.target != k.target {
				continue // switched meanwhile; seen after that operation
			}
			if d := samePub(k, p); d != "" {
				w.err = fmt.Errorf("after %s: published mirror %s changed in place: %s", op, id, d)
				return
			}
		}
	}
}

func (w *watcher) compareDir(k *pub) error {
	p := &pub{tree: map[string][]byte{}}
	if err := readTree(k.target, "", p); err != nil {
		return err
	}
	if d := sameTree(k.tree, p.tree); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

// suspect operations may reach published content.
func (w *watcher) suspect(op *fsx.Op, k *pub) bool {
	d := filepath.Join(w.h.dir, k.dir) + "/"
	if strings.HasPrefix(op.Path+"/", d) && op.Kind != "link" || strings.HasPrefix(op.Path2+"/", d) {
		return true
	}
	switch op.Kind {
	case "rename", "truncate", "remove", "removeall":
		return op.Kind != "remove" || !strings.Contains(op.Path, "_tmp")
	}
	return false
}

// durability follows what has reached stable storage.
type durability struct {
	root   string
	mu     sync.Mutex
	files  map[string]*dfile
	dirs   map[string]map[string]bool // directory -> entries added since its last sync
	errs   []string
	pubs   int
	synced int
}

type dfile struct {
	dirty bool
	made  string
}

func newDurability(root string) *durability {
	return &durability{root: root, files: map[string]*dfile{}, dirs: map[string]map[string]bool{}}
}

func (d *durability) entry(p string) {
	dir := filepath.Dir(p)
	if d.dirs[dir] == nil {
		d.dirs[dir] = map[string]bool{}
	}
	d.dirs[dir][filepath.Base(p)] = true
}

func (d *durability) start(before map[int]*pub, names []string) {}

func (d *durability) before(op *fsx.Op) {
	d.mu.Lock()
	defer d.mu.Unlock()
	target := ""
	switch op.Kind {
	case "write", "truncate":
		if f := d.files[op.Path]; f != nil {
			f.dirty = true
		}
	case "rename":
		if filepath.Dir(op.Path2) == d.root {
			if t, err := os.Readlink(op.Path); err == nil {
				target = t
			}
		}
		if !in(mirNames, filepath.Base(op.Path2)) {
			target = ""
		}
	case "symlink":
		if filepath.Dir(op.Path2) == d.root && in(mirNames, filepath.Base(op.Path2)) {
			target = op.Path
		}
	}
	if target == "" {
		return
	}
	// publication: everything it leads to must be on stable storage
	d.pubs++
	vdir := filepath.Dir(target)
	if rel, err := filepath.Rel(d.root, vdir); err != nil || strings.HasPrefix(rel, "..") {
		d.errs = append(d.errs, "published link leads out of the mirror directory: "+target)
		return
	}
	if d.dirs[d.root][filepath.Base(vdir)] {
		d.errs = append(d.errs, fmt.Sprintf("the entry of version directory %s was not forced to stable storage before it was published", filepath.Base(vdir)))
	}
	filepath.Walk(vdir, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if strings.HasPrefix(filepath.Base(p), "_tmp") && filepath.Dir(p) == vdir {
			return nil
		}
		if p != vdir && d.dirs[filepath.Dir(p)][filepath.Base(p)] {
			d.errs = append(d.errs, fmt.Sprintf("the directory entry of %s was not forced to stable storage before publication", p[len(d.root):]))
		}
		if st.Mode().IsRegular() {
			if f := d.files[p]; f != nil && f.dirty {
				d.errs = append(d.errs, fmt.Sprintf("the content of %s was not forced to stable storage before publication", p[len(d.root):]))
			}
		}
		return nil
	})
}

func (d *durability) after(op *fsx.Op) {
	if op.Err != "" {
		return
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	switch op.Kind {
	case "create":
		if d.files[op.Path] == nil {
			d.entry(op.Path)
		}
		d.files[op.Path] = &dfile{dirty: true, made: op.Path}
	case "sync":
		d.synced++
		if st, err := os.Stat(op.Path); err == nil && st.IsDir() {
			delete(d.dirs, op.Path)
		} else if f := d.files[op.Path]; f != nil {
			f.dirty = false
		}
	case "link":
		if f := d.files[op.Path]; f != nil {
			d.files[op.Path2] = f
		} else {
			delete(d.files, op.Path2)
		}
		d.entry(op.Path2)
	case "mkdir":
		d.entry(op.Path)
	case "symlink":
		d.entry(op.Path2)
	case "rename":
		if f := d.files[op.Path]; f != nil {
			d.files[op.Path2] = f
			delete(d.files, op.Path)
		}
		d.entry(op.Path2)
	case "remove":
		delete(d.files, op.Path)
		if m := d.dirs[filepath.Dir(op.Path)]; m != nil {
			delete(m, filepath.Base(op.Path))
		}
		delete(d.dirs, op.Path)
	}
}

func (d *durability) finish(h *hist, before, after map[int]*pub, err error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, e := range d.errs {
		h.bad("M11", "run %d: %s", h.runs, e)
	}
	if err != nil {
		return
	}
	for i := range after {
		if d.dirs[d.root][mirNames[i]] {
			h.bad("M11", "run %d succeeded, but the switch of %s was not forced to stable storage", h.runs, mirNames[i])
		}
	}
}
