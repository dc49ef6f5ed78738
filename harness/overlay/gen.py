#!/usr/bin/env python3
"""gen.py GOROOT GOMODCACHE OUTDIR: writes overlay sources and OUTDIR/overlay.json."""
import sys, os, re, json, shutil
goroot, modcache, out = sys.argv[1:4]
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
osd = os.path.join(goroot, "src/os")
subs = {
 "file.go": [
  (r"^func \(f \*File\) ReadFrom\(", "func (f *File) verifReadFrom("),
  (r"^func \(f \*File\) Write\(", "func (f *File) verifWrite("),
  (r"^func \(f \*File\) WriteAt\(", "func (f *File) verifWriteAt("),
  (r"^func Mkdir\(", "func verifMkdir("),
  (r"^func OpenFile\(", "func verifOpenFile("),
  (r"^func Rename\(", "func verifRename("),
  (r"^func Chmod\(", "func verifChmodPath("),
  (r"^func \(f \*File\) Chmod\(", "func (f *File) verifChmod("),
 ],
 "file_posix.go": [
  (r"^func \(f \*File\) Sync\(", "func (f *File) verifSync("),
  (r"^func \(f \*File\) Truncate\(", "func (f *File) verifTruncate("),
 ],
 "file_unix.go": [
  (r"^func Truncate\(", "func verifTruncatePath("),
  (r"^func Remove\(", "func verifRemove("),
  (r"^func Link\(", "func verifLink("),
  (r"^func Symlink\(", "func verifSymlink("),
 ],
 "path.go": [(r"^func RemoveAll\(", "func verifRemoveAll(")],
}
repl = {}
def put(name, text):
    p = os.path.join(out, name)
    if not (os.path.exists(p) and open(p).read() == text):
        open(p + ".tmp%d" % os.getpid(), "w").write(text); os.replace(p + ".tmp%d" % os.getpid(), p)
    return p
for fn, l in subs.items():
    s = open(os.path.join(osd, fn)).read()
    for a, b in l:
        s, n = re.subn(a, b, s, flags=re.M)
        if n != 1: sys.exit("overlay: %s: %s matched %d times" % (fn, a, n))
    repl[os.path.join(osd, fn)] = put("os_" + fn, s)
repl[os.path.join(osd, "verif_hook.go")] = put("os_verif_hook.go", open(os.path.join(here, "os_hook.go.txt")).read())
# The Go command refuses overlays below GOMODCACHE, so package well is copied
# (outside git) with one added file; go.mod replaces the module by the copy.
src = os.path.join(modcache, "github.com/cybozu-go/well@v1.10.0")
dst = os.path.join(os.path.dirname(os.path.abspath(out)), "well")
os.makedirs(dst, exist_ok=True)
for fn in sorted(os.listdir(src)):
    if (fn.endswith(".go") and not fn.endswith("_test.go")) or fn == "go.mod":
        t = open(os.path.join(src, fn)).read()
        q = os.path.join(dst, fn)
        if not (os.path.exists(q) and open(q).read() == t):
            open(q, "w").write(t)
q = os.path.join(dst, "verif_reset.go")
t = open(os.path.join(here, "well_verif.go.txt")).read()
if not (os.path.exists(q) and open(q).read() == t):
    open(q, "w").write(t)
put("overlay.json", json.dumps({"Replace": repl}, indent=1, sort_keys=True))
