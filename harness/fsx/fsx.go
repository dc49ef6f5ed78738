// Package fsx observes and disturbs the file-system operations of the code
// under test through the os overlay: it logs them, fails or freezes chosen
// ones, and stops every mutation outside the scratch root.
package fsx

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
)

// Op is one recorded operation.
type Op struct {
	N     int
	Kind  string
	Path  string // absolute
	Path2 string
	Len   int
	Err   string
	Done  bool
}

// FS is an installed monitor.
type FS struct {
	Root string

	mu      sync.Mutex
	n       int
	Log     []*Op
	KeepLog bool
	Escapes []string // mutations aimed outside Root (stopped)

	// FailAt makes the n-th (1-based) mutating operation that FailKinds
	// admits fail with Errno; FailCount counts those seen.
	FailAt    int
	FailN     int // how many consecutive operations fail (0 means 1)
	FailKinds func(op *Op) bool
	Errno     error
	FailSeen  int
	Failed    []*Op

	// FreezeAt: from the n-th mutating operation on nothing reaches the
	// disk any more, as if the process had died just before it.
	FreezeAt int
	Goexit   bool // end the calling goroutine instead of returning an error
	Frozen   bool

	// Before runs before every mutating operation, After after it, both
	// outside the lock.
	Before func(op *Op)
	After  func(op *Op)

	// Opened runs after every successful opening of a file.
	Opened func(path string)

	// ReadOnly, when set, makes every mutation fail and records it.
	ReadOnly  bool
	Mutations []*Op
}

var cur struct {
	sync.RWMutex
	fs *FS
}

// Install makes f the monitor; Uninstall removes it.
func Install(f *FS) {
	root, err := filepath.EvalSymlinks(f.Root)
	if err != nil {
		panic(err)
	}
	f.Root = root
	cur.Lock()
	cur.fs = f
	cur.Unlock()
	os.VerifHook = hook
}

// Uninstall removes the monitor.
func Uninstall() {
	os.VerifHook = nil
	cur.Lock()
	cur.fs = nil
	cur.Unlock()
}

// Count is the number of mutating operations so far.
func (f *FS) Count() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.n
}

func abs(p string) string {
	if p == "" {
		return ""
	}
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}

// inside resolves the parent directory and reports whether p is in root.
func inside(root, p string) bool {
	if p == "" {
		return true
	}
	dir, base := filepath.Split(p)
	d := filepath.Clean(dir)
	rest := base
	for {
		r, err := filepath.EvalSymlinks(d)
		if err == nil {
			full := filepath.Join(r, rest)
			return full == root || strings.HasPrefix(full, root+"/")
		}
		if d == "/" || d == "." {
			return false
		}
		rest = filepath.Join(filepath.Base(d), rest)
		d = filepath.Dir(d)
	}
}

func hook(vo *os.VerifOp) (func(error), error) {
	cur.RLock()
	f := cur.fs
	cur.RUnlock()
	if f != nil && f.Opened != nil && (vo.Kind == "open" || vo.Kind == "create") {
		o, p := f.Opened, abs(vo.Path)
		after, err := f.hook(vo)
		return func(e error) {
			if after != nil {
				after(e)
			}
			if e == nil {
				o(p)
			}
		}, err
	}
	return f.hook(vo)
}

func (f *FS) hook(vo *os.VerifOp) (func(error), error) {
	if f == nil || vo.Kind == "open" {
		return nil, nil
	}
	p := vo.Path
	if strings.HasPrefix(p, "/dev/std") || strings.HasPrefix(p, "/proc/self/") || p == "/dev/null" || p == "|0" || p == "|1" {
		return nil, nil
	}
	op := &Op{Kind: vo.Kind, Path: abs(p), Path2: vo.Path2, Len: vo.Len}
	target := op.Path
	switch vo.Kind {
	case "rename", "link":
		op.Path2 = abs(vo.Path2)
		target = op.Path2
	case "symlink":
		op.Path2 = abs(vo.Path2)
		op.Path = vo.Path // as written
		target = op.Path2
	}
	ok := inside(f.Root, target)
	if vo.Kind == "rename" || vo.Kind == "link" {
		ok = ok && inside(f.Root, op.Path)
	}
	f.mu.Lock()
	if f.Frozen {
		f.mu.Unlock()
		return f.dead()
	}
	if !ok {
		f.Escapes = append(f.Escapes, fmt.Sprintf("%s %s %s", op.Kind, op.Path, op.Path2))
		f.mu.Unlock()
		return nil, &os.PathError{Op: op.Kind, Path: p, Err: syscall.EPERM}
	}
	if vo.Kind == "create" && vo.Flag&(os.O_TRUNC|os.O_EXCL) == 0 {
		if st, err := os.Lstat(op.Path); err == nil && st.Mode().IsRegular() {
			f.mu.Unlock()
			return nil, nil // opens what is there
		}
	}
	f.n++
	op.N = f.n
	if f.KeepLog {
		f.Log = append(f.Log, op)
	}
	if f.ReadOnly {
		f.Mutations = append(f.Mutations, op)
		f.mu.Unlock()
		return nil, &os.PathError{Op: op.Kind, Path: p, Err: syscall.EROFS}
	}
	if f.FreezeAt > 0 && f.n >= f.FreezeAt {
		f.Frozen = true
		op.Err = "frozen"
		f.mu.Unlock()
		return f.dead()
	}
	if f.FailAt > 0 && (f.FailKinds == nil || f.FailKinds(op)) {
		f.FailSeen++
		n := f.FailN
		if n == 0 {
			n = 1
		}
		if f.FailSeen >= f.FailAt && f.FailSeen < f.FailAt+n {
			e := f.Errno
			if e == nil {
				e = syscall.EIO
			}
			op.Err = e.Error()
			f.Failed = append(f.Failed, op)
			f.mu.Unlock()
			return nil, &os.PathError{Op: op.Kind, Path: p, Err: e}
		}
	}
	before, after := f.Before, f.After
	f.mu.Unlock()
	if before != nil {
		before(op)
	}
	return func(err error) {
		f.mu.Lock()
		if err != nil {
			op.Err = err.Error()
		}
		op.Done = true
		f.mu.Unlock()
		if after != nil {
			after(op)
		}
	}, nil
}

func (f *FS) dead() (func(error), error) {
	if f.Goexit {
		runtime.Goexit()
	}
	return nil, &os.PathError{Op: "frozen", Path: "", Err: syscall.EIO}
}

// Tree lists everything below dir: path -> "d", "f:<content>", "l:<target>".
func Tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == "." {
			return nil
		}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "l:" + t
		case fi.IsDir():
			m[rel] = "d"
		default:
			if fi.Size() > 64<<20 {
				m[rel] = fmt.Sprintf("big:%d", fi.Size())
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				m[rel] = "?:" + err.Error()
				return nil
			}
			m[rel] = "f:" + string(b)
		}
		return nil
	})
	return m
}

func (o *Op) String() string {
	return fmt.Sprintf("operation %d (%s %s %s)", o.N, o.Kind, filepath.Base(o.Path), o.Path2)
}
