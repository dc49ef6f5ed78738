From 69920207043459c2b20a202adad56da150ae4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 01/34] fix: do not take consecutive or leading blank lines for
 the end of a control file

---
 apt/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apt/parser.go b/apt/parser.go
index 2f7bcb0..ecd03b7 100644
--- a/apt/parser.go
+++ b/apt/parser.go
@@ -63,6 +63,11 @@ L:
 	for p.s.Scan() {
 		switch l := p.s.Text(); {
 		case len(l) == 0:
+			if len(ret) == 0 {
+				// blank lines before a paragraph
+				p.lastField = ""
+				continue
+			}
 			break L
 		case l[0] == '#':
 			continue
-- 
2.43.0


From 86ee36e109f97e086fa76e20d4bc2db5ba2165a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 02/34] fix: keep absent checksums absent when FileInfo is
 loaded from JSON

---
 apt/fileinfo.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index 7d4d0ee..a527a34 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -139,6 +139,15 @@ func (fi *FileInfo) MarshalJSON() ([]byte, error) {
 	return json.Marshal(&fij)
 }
 
+// decodeChecksum decodes a hex string.
+// An empty string means no checksum, for which nil is returned.
+func decodeChecksum(s string) ([]byte, error) {
+	if s == "" {
+		return nil, nil
+	}
+	return hex.DecodeString(s)
+}
+
 // UnmarshalJSON implements json.Unmarshaler
 func (fi *FileInfo) UnmarshalJSON(data []byte) error {
 	var fij fileInfoJSON
@@ -147,15 +156,15 @@ func (fi *FileInfo) UnmarshalJSON(data []byte) error {
 	}
 	fi.path = fij.Path
 	fi.size = uint64(fij.Size)
-	md5sum, err := hex.DecodeString(fij.MD5Sum)
+	md5sum, err := decodeChecksum(fij.MD5Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-	sha1sum, err := hex.DecodeString(fij.SHA1Sum)
+	sha1sum, err := decodeChecksum(fij.SHA1Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-	sha256sum, err := hex.DecodeString(fij.SHA256Sum)
+	sha256sum, err := decodeChecksum(fij.SHA256Sum)
 	if err != nil {
 		return errors.Wrap(err, "UnmarshalJSON for "+fij.Path)
 	}
-- 
2.43.0


From 67a7460af27de33a6367ab782c11e02ca47a309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 03/34] fix: reject index entries whose path leads out of the
 repository

---
 apt/meta.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/apt/meta.go b/apt/meta.go
index 0249cbb..258e7b0 100644
--- a/apt/meta.go
+++ b/apt/meta.go
@@ -85,6 +85,14 @@ func parseChecksum(l string) (p string, size uint64, csum []byte, err error) {
 	return
 }
 
+// checkPath returns an error if p, a cleaned path, leads out of the repository.
+func checkPath(p string) error {
+	if p == ".." || strings.HasPrefix(p, "../") {
+		return errors.New("path is outside of the repository: " + p)
+	}
+	return nil
+}
+
 // getFilesFromRelease parses Release or InRelease file and
 // returns a list of *FileInfo pointed in the file.
 func getFilesFromRelease(p string, r io.Reader) ([]*FileInfo, Paragraph, error) {
@@ -168,6 +176,9 @@ func getFilesFromRelease(p string, r io.Reader) ([]*FileInfo, Paragraph, error)
 
 	l := make([]*FileInfo, 0, len(m))
 	for _, fi := range m {
+		if err := checkPath(fi.path); err != nil {
+			return nil, nil, err
+		}
 		l = append(l, fi)
 	}
 	return l, d, nil
@@ -193,6 +204,9 @@ func getFilesFromPackages(p string, r io.Reader) ([]*FileInfo, Paragraph, error)
 			return nil, nil, errors.New("no Filename in " + p)
 		}
 		fpath := path.Clean(filename[0])
+		if err := checkPath(fpath); err != nil {
+			return nil, nil, err
+		}
 
 		strsize, ok := d["Size"]
 		if !ok {
@@ -310,6 +324,9 @@ func getFilesFromSources(p string, r io.Reader) ([]*FileInfo, Paragraph, error)
 			if len(fi.md5sum) == 0 && len(fi.sha1sum) == 0 && len(fi.sha256sum) == 0 {
 				return nil, nil, errors.New("no checksum in " + fi.path)
 			}
+			if err := checkPath(fi.path); err != nil {
+				return nil, nil, err
+			}
 			l = append(l, fi)
 		}
 	}
-- 
2.43.0


From ddefd0f5274cf092f1cf0f166c79c1ac5bf25d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 04/34] fix: detect corruption after the first paragraph of
 compressed Release files

---
 apt/meta.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apt/meta.go b/apt/meta.go
index 258e7b0..b76dd87 100644
--- a/apt/meta.go
+++ b/apt/meta.go
@@ -7,6 +7,7 @@ import (
 	"compress/gzip"
 	"encoding/hex"
 	"io"
+	"io/ioutil"
 	"path"
 	"strconv"
 	"strings"
@@ -103,6 +104,11 @@ func getFilesFromRelease(p string, r io.Reader) ([]*FileInfo, Paragraph, error)
 		return nil, nil, errors.Wrap(err, "NewParser(r).Read()")
 	}
 
+	// read up to EOF so that truncated or corrupted compressed data is detected.
+	if _, err := io.Copy(ioutil.Discard, r); err != nil {
+		return nil, nil, err
+	}
+
 	md5sums := d["MD5Sum"]
 	sha1sums := d["SHA1"]
 	sha256sums := d["SHA256"]
-- 
2.43.0


From e51abe01c68bc7795c5a8bebc8984cd43a21f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 05/34] fix: detect xz streams truncated or corrupted at a
 block boundary

---
 apt/meta.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apt/meta.go b/apt/meta.go
index b76dd87..4b66d4d 100644
--- a/apt/meta.go
+++ b/apt/meta.go
@@ -3,6 +3,7 @@ package apt
 // This file provides utilities for debian repository indices.
 
 import (
+	"bytes"
 	"compress/bzip2"
 	"compress/gzip"
 	"encoding/hex"
@@ -376,7 +377,10 @@ func ExtractFileInfo(p string, r io.Reader) ([]*FileInfo, Paragraph, error) {
 		r = bzip2.NewReader(r)
 		base = base[:len(base)-4]
 	case ".xz":
-		xzr, err := xz.NewReader(r)
+		// The xz package takes the end of input in place of a block header for
+		// the end of data.  Append stream padding, which is ignored after
+		// a complete stream, so that truncation is always detected.
+		xzr, err := xz.NewReader(io.MultiReader(r, bytes.NewReader(make([]byte, 4096))))
 		if err != nil {
 			return nil, nil, err
 		}
-- 
2.43.0


From 1d03a4e80005ceeea85cd4702830c7dbfabea3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 06/34] fix: do not fail to start when a broken meta data file
 is cached

---
 cacher/cacher.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 82a486c..f12f7da 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -136,7 +136,12 @@ func NewCacher(config *Config) (*Cacher, error) {
 		fil, _, err := apt.ExtractFileInfo(t[1], f)
 		f.Close()
 		if err != nil {
-			return nil, errors.Wrap(err, "ExtractFileInfo("+fi.Path()+")")
+			// broken meta data are accepted as is when downloaded.
+			log.Error("invalid meta data", map[string]interface{}{
+				"path":  fi.Path(),
+				"error": err.Error(),
+			})
+			continue
 		}
 		fil = addPrefix(t[0], fil)
 		for _, fi2 := range fil {
-- 
2.43.0


From a3e42f1b566b5b114db63604b4148660faa0d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 07/34] fix: report an error when downloaded data cannot be
 used instead of downloading forever

---
 cacher/cacher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index f12f7da..2060dcd 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -326,8 +326,8 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	}
 
 	defer closeRespBody(resp)
-	statusCode = resp.StatusCode
-	if statusCode != 200 {
+	if resp.StatusCode != http.StatusOK {
+		statusCode = resp.StatusCode
 		return
 	}
 
@@ -420,6 +420,7 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		}
 	}
 	c.info[p] = fi
+	statusCode = http.StatusOK
 	log.Info("downloaded and cached", map[string]interface{}{
 		"path": p,
 	})
-- 
2.43.0


From 5f29772625ab01b74e31c414beb38cf1f0aba21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 08/34] fix: ignore superseded index files when restoring
 checksums at startup

---
 cacher/cacher.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 2060dcd..0240aeb 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -124,11 +125,20 @@ func NewCacher(config *Config) (*Cacher, error) {
 	}
 
 	metas := meta.ListAll()
+	// Release files first; they tell which of the others are up to date.
+	sort.SliceStable(metas, func(i, j int) bool {
+		return isRelease(metas[i].Path()) && !isRelease(metas[j].Path())
+	})
 	for _, fi := range metas {
 		f, err := meta.Lookup(fi)
 		if err != nil {
 			return nil, errors.Wrap(err, "meta.Lookup")
 		}
+		if current, ok := c.info[fi.Path()]; ok && !current.Same(fi) {
+			// superseded; checksums in it are obsolete.
+			f.Close()
+			continue
+		}
 		t := strings.SplitN(fi.Path(), "/", 2)
 		if len(t) != 2 {
 			panic("there should always be a prefix!")
@@ -161,6 +171,11 @@ func NewCacher(config *Config) (*Cacher, error) {
 	return c, nil
 }
 
+func isRelease(p string) bool {
+	base := path.Base(p)
+	return base == "Release" || base == "InRelease"
+}
+
 func (c *Cacher) acquireSemaphore(host string) {
 	if c.maxConns == 0 {
 		return
-- 
2.43.0


From 7658955b63010d7bf498354a6ed2e83e0df27a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 09/34] fix: remember a download failure for exactly the cache
 period

A timer of an earlier download of the same file could end it early, and
with a zero period waiting clients could miss it and download again.
---
 cacher/cacher.go | 57 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 0240aeb..debabb0 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -37,6 +37,12 @@ func addPrefix(prefix string, fil []*apt.FileInfo) []*apt.FileInfo {
 	return ret
 }
 
+// download represents an ongoing or finished download.
+type download struct {
+	done       chan struct{} // closed when finished
+	statusCode int           // valid after done is closed
+}
+
 // Cacher downloads and caches APT indices and deb files.
 type Cacher struct {
 	meta          *Storage
@@ -51,8 +57,8 @@ type Cacher struct {
 	info   map[string]*apt.FileInfo
 
 	dlLock     sync.RWMutex
-	dlChannels map[string]chan struct{}
-	results    map[string]int
+	dlChannels map[string]*download
+	results    map[string]*download
 
 	hostLock sync.Mutex
 	hostSem  map[string]chan struct{}
@@ -119,8 +125,8 @@ func NewCacher(config *Config) (*Cacher, error) {
 		client:        &http.Client{},
 		maxConns:      config.MaxConns,
 		info:          make(map[string]*apt.FileInfo),
-		dlChannels:    make(map[string]chan struct{}),
-		results:       make(map[string]int),
+		dlChannels:    make(map[string]*download),
+		results:       make(map[string]*download),
 		hostSem:       make(map[string]chan struct{}),
 	}
 
@@ -267,21 +273,26 @@ func (c *Cacher) Download(p string, valid *apt.FileInfo) <-chan struct{} {
 		return nil
 	}
 
+	return c.startDownload(p, u, valid).done
+}
+
+// startDownload starts downloading p unless it is being downloaded already.
+func (c *Cacher) startDownload(p string, u *url.URL, valid *apt.FileInfo) *download {
 	c.dlLock.Lock()
 	defer c.dlLock.Unlock()
 
-	ch, ok := c.dlChannels[p]
+	dl, ok := c.dlChannels[p]
 	if ok {
-		return ch
+		return dl
 	}
 
-	ch = make(chan struct{})
-	c.dlChannels[p] = ch
+	dl = &download{done: make(chan struct{})}
+	c.dlChannels[p] = dl
 	well.Go(func(ctx context.Context) error {
 		c.download(ctx, p, u, valid)
 		return nil
 	})
-	return ch
+	return dl
 }
 
 // download is a goroutine to download an item.
@@ -293,11 +304,12 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	defer func() {
 		c.releaseSemaphore(u.Host)
 		c.dlLock.Lock()
-		ch := c.dlChannels[p]
+		dl := c.dlChannels[p]
+		dl.statusCode = statusCode
 		delete(c.dlChannels, p)
-		c.results[p] = statusCode
+		c.results[p] = dl
 		c.dlLock.Unlock()
-		close(ch)
+		close(dl.done)
 
 		// invalidate result cache after some interval
 		well.Go(func(ctx context.Context) error {
@@ -307,7 +319,10 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 			case <-time.After(c.cachePeriod):
 			}
 			c.dlLock.Lock()
-			delete(c.results, p)
+			if c.results[p] == dl {
+				// not replaced by a later download
+				delete(c.results, p)
+			}
 			c.dlLock.Unlock()
 			return nil
 		})
@@ -483,17 +498,19 @@ RETRY:
 
 	// not found in storage.
 	c.dlLock.RLock()
-	ch, chOk := c.dlChannels[p]
+	dl, dlOk := c.dlChannels[p]
 	result, resultOk := c.results[p]
 	c.dlLock.RUnlock()
 
-	if resultOk && result != http.StatusOK {
-		return result, nil, nil
+	if resultOk && result.statusCode != http.StatusOK {
+		return result.statusCode, nil, nil
+	}
+	if !dlOk {
+		dl = c.startDownload(p, u, fi)
 	}
-	if chOk {
-		<-ch
-	} else {
-		<-c.Download(p, fi)
+	<-dl.done
+	if dl.statusCode != http.StatusOK {
+		return dl.statusCode, nil, nil
 	}
 	goto RETRY
 }
-- 
2.43.0


From caee3362b0e66936f57b7944f260d6db678175c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 10/34] fix: validate downloads against the latest index and
 only against indices

A download started before an index update could bring back obsolete
data, and an evicted item listed in no index could not be downloaded
again after it had changed upstream.
---
 cacher/cacher.go | 56 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index debabb0..0e373e8 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -26,6 +26,10 @@ import (
 const (
 	gib            = 1 << 30
 	requestTimeout = 30 * time.Minute
+
+	// statusSuperseded is the result of a download whose data became
+	// invalid due to an index updated meanwhile.  It should be retried.
+	statusSuperseded = 0
 )
 
 // addPrefix add prefix for each *FileInfo in fil.
@@ -54,7 +58,9 @@ type Cacher struct {
 	maxConns      int
 
 	fiLock sync.RWMutex
-	info   map[string]*apt.FileInfo
+	info   map[string]*apt.FileInfo // as listed in meta files
+	// unlisted keeps what was downloaded for items not in info.
+	unlisted map[string]*apt.FileInfo
 
 	dlLock     sync.RWMutex
 	dlChannels map[string]*download
@@ -125,6 +131,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 		client:        &http.Client{},
 		maxConns:      config.MaxConns,
 		info:          make(map[string]*apt.FileInfo),
+		unlisted:      make(map[string]*apt.FileInfo),
 		dlChannels:    make(map[string]*download),
 		results:       make(map[string]*download),
 		hostSem:       make(map[string]chan struct{}),
@@ -169,7 +176,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 	for _, fi := range metas {
 		p := fi.Path()
 		if _, ok := c.info[p]; !ok {
-			c.info[p] = fi
+			c.unlisted[p] = fi
 			c.maintMeta(p)
 		}
 	}
@@ -307,7 +314,9 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		dl := c.dlChannels[p]
 		dl.statusCode = statusCode
 		delete(c.dlChannels, p)
-		c.results[p] = dl
+		if statusCode != statusSuperseded {
+			c.results[p] = dl
+		}
 		c.dlLock.Unlock()
 		close(dl.done)
 
@@ -395,12 +404,6 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 		})
 		return
 	}
-	if valid != nil && !valid.Same(fi) {
-		log.Warn("downloaded data is not valid", map[string]interface{}{
-			"url": u.String(),
-		})
-		return
-	}
 
 	var fil []*apt.FileInfo
 
@@ -427,6 +430,22 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	c.fiLock.Lock()
 	defer c.fiLock.Unlock()
 
+	// The data must match the checksums in the latest index, which
+	// may have been updated during the download.
+	current := c.info[p]
+	if current == nil {
+		current = valid
+	}
+	if current != nil && !current.Same(fi) {
+		log.Warn("downloaded data is not valid", map[string]interface{}{
+			"url": u.String(),
+		})
+		if valid == nil || !valid.Same(current) {
+			statusCode = statusSuperseded
+		}
+		return
+	}
+
 	// To keep consistency between Cacher and Storage so that
 	// both have the same set of FileInfo, storage.Insert need to be
 	// guarded by c.fiLock.
@@ -442,14 +461,13 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	for _, fi2 := range fil {
 		c.info[fi2.Path()] = fi2
 	}
-	if apt.IsMeta(p) {
-		_, ok := c.info[p]
-		if !ok {
+	if _, ok := c.info[p]; !ok {
+		if _, ok := c.unlisted[p]; !ok && apt.IsMeta(p) {
 			// As this is the first time that downloaded meta file p,
 			c.maintMeta(p)
 		}
+		c.unlisted[p] = fi
 	}
-	c.info[p] = fi
 	statusCode = http.StatusOK
 	log.Info("downloaded and cached", map[string]interface{}{
 		"path": p,
@@ -479,10 +497,14 @@ func (c *Cacher) Get(p string) (statusCode int, f *os.File, err error) {
 
 RETRY:
 	c.fiLock.RLock()
-	fi, ok := c.info[p]
+	valid := c.info[p]
+	fi := valid
+	if fi == nil {
+		fi = c.unlisted[p]
+	}
 	c.fiLock.RUnlock()
 
-	if ok {
+	if fi != nil {
 		f, err := storage.Lookup(fi)
 		switch err {
 		case nil:
@@ -506,10 +528,10 @@ RETRY:
 		return result.statusCode, nil, nil
 	}
 	if !dlOk {
-		dl = c.startDownload(p, u, fi)
+		dl = c.startDownload(p, u, valid)
 	}
 	<-dl.done
-	if dl.statusCode != http.StatusOK {
+	if dl.statusCode != http.StatusOK && dl.statusCode != statusSuperseded {
 		return dl.statusCode, nil, nil
 	}
 	goto RETRY
-- 
2.43.0


From ba58370a003ecb0f65bc8db07d92ab34d56bc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 11/34] fix: do not block forever on cached Release files of
 removed mappings

---
 cacher/cacher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 0e373e8..cd73785 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -234,6 +234,11 @@ func (c *Cacher) maintMeta(p string) {
 }
 
 func (c *Cacher) maintRelease(ctx context.Context, p string, withGPG bool) {
+	if c.um.URL(p) == nil {
+		// the prefix is no longer mapped.
+		return
+	}
+
 	ticker := time.NewTicker(c.checkInterval)
 	defer ticker.Stop()
 
-- 
2.43.0


From ae120c49b610309a2d2ed989cb629225f8f23a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 12/34] fix: answer an error instead of crashing when an item
 cannot be stored

---
 cacher/cacher.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index cd73785..cb390be 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -459,8 +459,7 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 			"path":  p,
 			"error": err.Error(),
 		})
-		// panic because go-apt-cacher cannot continue working
-		panic(err)
+		return
 	}
 
 	for _, fi2 := range fil {
-- 
2.43.0


From e838511eed59777b0d394409bf3e14618c4f39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 13/34] fix: handle request paths that are empty or have extra
 slashes

---
 cacher/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cacher/handler.go b/cacher/handler.go
index 2aaa68d..9126385 100644
--- a/cacher/handler.go
+++ b/cacher/handler.go
@@ -24,7 +24,7 @@ func (c cacheHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	p := path.Clean(r.URL.Path[1:])
+	p := path.Clean("/" + r.URL.Path)[1:]
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("request path", map[string]interface{}{
-- 
2.43.0


From d06344092729177be24dd1466916b3931a6b5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 14/34] fix: keep an item larger than the cache capacity until
 the next one comes

Evicting it at once made go-apt-cacher download it forever.
---
 cacher/storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cacher/storage.go b/cacher/storage.go
index d54033e..dbf5c6c 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -119,7 +119,8 @@ func (cm *Storage) Pop() interface{} {
 // maint removes unused items from cache until used < capacity.
 // cm.mu lock must be acquired beforehand.
 func (cm *Storage) maint() {
-	for cm.capacity > 0 && cm.used > cm.capacity {
+	// the most recently used item is kept even if it alone is too large.
+	for cm.capacity > 0 && cm.used > cm.capacity && cm.Len() > 1 {
 		e := heap.Pop(cm).(*entry)
 		delete(cm.cache, e.Path())
 		cm.used -= e.Size()
-- 
2.43.0


From 5fa4754c67f8df4f81c23c46467543b5c262bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 15/34] fix: refuse negative check_interval and max_conns
 instead of crashing later

---
 cacher/cacher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index cb390be..cf3421d 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -72,7 +72,7 @@ type Cacher struct {
 
 // NewCacher constructs Cacher.
 func NewCacher(config *Config) (*Cacher, error) {
-	if config.CheckInterval == 0 {
+	if config.CheckInterval <= 0 {
 		return nil, errors.New("invaild check_interval")
 	}
 	checkInterval := time.Duration(config.CheckInterval) * time.Second
@@ -97,6 +97,10 @@ func NewCacher(config *Config) (*Cacher, error) {
 	}
 	capacity := uint64(config.CacheCapacity) * gib
 
+	if config.MaxConns < 0 {
+		return nil, errors.New("max_conns must be >= 0")
+	}
+
 	meta := NewStorage(metaDir, 0)
 	cache := NewStorage(cacheDir, capacity)
 
-- 
2.43.0


From edf88c84473f1a0560b14163fe3b6ca635786e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 16/34] fix: refuse cache items and prefixes outside of the
 cache directories

---
 cacher/storage.go | 3 +++
 cacher/urlmap.go  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cacher/storage.go b/cacher/storage.go
index dbf5c6c..0c8e4a4 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/cybozu-go/aptutil/apt"
@@ -217,6 +218,8 @@ func (cm *Storage) Insert(filename string, fi *apt.FileInfo) error {
 		return ErrBadPath
 	case p == ".":
 		return ErrBadPath
+	case p == ".." || strings.HasPrefix(p, "../"):
+		return ErrBadPath
 	}
 
 	destpath := filepath.Join(cm.dir, p+fileSuffix)
diff --git a/cacher/urlmap.go b/cacher/urlmap.go
index 7def75d..7ffc772 100644
--- a/cacher/urlmap.go
+++ b/cacher/urlmap.go
@@ -22,7 +22,7 @@ type URLMap map[string]*url.URL
 
 // Register registeres a prefix for a remote URL.
 func (um *URLMap) Register(prefix string, u *url.URL) error {
-	if !validPrefix.MatchString(prefix) {
+	if !validPrefix.MatchString(prefix) || prefix == "." || prefix == ".." {
 		return ErrInvalidPrefix
 	}
 
-- 
2.43.0


From 5b4eb27baa35d9e910c75e4d39ad4a97d5272642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 17/34] fix: do not leave clients waiting for downloads that
 cannot start during shutdown

---
 cacher/cacher.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index cf3421d..75c37f7 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -68,6 +68,8 @@ type Cacher struct {
 
 	hostLock sync.Mutex
 	hostSem  map[string]chan struct{}
+
+	done chan struct{} // closed when the program is about to stop
 }
 
 // NewCacher constructs Cacher.
@@ -139,7 +141,13 @@ func NewCacher(config *Config) (*Cacher, error) {
 		dlChannels:    make(map[string]*download),
 		results:       make(map[string]*download),
 		hostSem:       make(map[string]chan struct{}),
+		done:          make(chan struct{}),
 	}
+	well.Go(func(ctx context.Context) error {
+		<-ctx.Done()
+		close(c.done)
+		return nil
+	})
 
 	metas := meta.ListAll()
 	// Release files first; they tell which of the others are up to date.
@@ -257,12 +265,17 @@ func (c *Cacher) maintRelease(ctx context.Context, p string, withGPG bool) {
 		case <-ctx.Done():
 			return
 		case <-ticker.C:
-			ch1 := c.Download(p, nil)
+			chs := []<-chan struct{}{c.Download(p, nil)}
 			if withGPG {
-				ch2 := c.Download(p+".gpg", nil)
-				<-ch2
+				chs = append(chs, c.Download(p+".gpg", nil))
+			}
+			for _, ch := range chs {
+				select {
+				case <-ch:
+				case <-ctx.Done():
+					return
+				}
 			}
-			<-ch1
 		}
 	}
 }
@@ -538,7 +551,12 @@ RETRY:
 	if !dlOk {
 		dl = c.startDownload(p, u, valid)
 	}
-	<-dl.done
+	select {
+	case <-dl.done:
+	case <-c.done:
+		// the download may not even be started.
+		return http.StatusServiceUnavailable, nil, nil
+	}
 	if dl.statusCode != http.StatusOK && dl.statusCode != statusSuperseded {
 		return dl.statusCode, nil, nil
 	}
-- 
2.43.0


From 231a26382fc333c19956f600eca03ce06ce4901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 18/34] fix: do not modify records handed out by
 Storage.ListAll

Lookup computed the checksums of a loaded item in place, racing with
users of the records returned by a concurrent ListAll.
---
 cacher/cacher.go  | 15 +++++++++------
 cacher/storage.go |  5 ++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 75c37f7..3373267 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -155,15 +155,18 @@ func NewCacher(config *Config) (*Cacher, error) {
 		return isRelease(metas[i].Path()) && !isRelease(metas[j].Path())
 	})
 	for _, fi := range metas {
-		f, err := meta.Lookup(fi)
-		if err != nil {
-			return nil, errors.Wrap(err, "meta.Lookup")
+		current, ok := c.info[fi.Path()]
+		if !ok {
+			current = fi
 		}
-		if current, ok := c.info[fi.Path()]; ok && !current.Same(fi) {
+		f, err := meta.Lookup(current)
+		if ok && err == ErrNotFound {
 			// superseded; checksums in it are obsolete.
-			f.Close()
 			continue
 		}
+		if err != nil {
+			return nil, errors.Wrap(err, "meta.Lookup")
+		}
 		t := strings.SplitN(fi.Path(), "/", 2)
 		if len(t) != 2 {
 			panic("there should always be a prefix!")
@@ -185,7 +188,7 @@ func NewCacher(config *Config) (*Cacher, error) {
 	}
 
 	// add meta files w/o checksums (Release, Release.gpg, and InRelease).
-	for _, fi := range metas {
+	for _, fi := range meta.ListAll() {
 		p := fi.Path()
 		if _, ok := c.info[p]; !ok {
 			c.unlisted[p] = fi
diff --git a/cacher/storage.go b/cacher/storage.go
index 0c8e4a4..6835c64 100644
--- a/cacher/storage.go
+++ b/cacher/storage.go
@@ -287,7 +287,10 @@ func calcChecksum(dir string, e *entry) error {
 	if err != nil {
 		return err
 	}
-	e.FileInfo.CalcChecksums(data)
+	// records handed out by ListAll must not change.
+	fi := apt.MakeFileInfoNoChecksum(e.Path(), e.Size())
+	fi.CalcChecksums(data)
+	e.FileInfo = fi
 	return nil
 }
 
-- 
2.43.0


From b5519d0cc16fbe6fdf22c6288fac959cddf98912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 19/34] fix: answer 500 for invalid upstream status codes

A status below 100 made the HTTP server panic.
---
 cacher/cacher.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cacher/cacher.go b/cacher/cacher.go
index 3373267..2587da5 100644
--- a/cacher/cacher.go
+++ b/cacher/cacher.go
@@ -29,7 +29,7 @@ const (
 
 	// statusSuperseded is the result of a download whose data became
 	// invalid due to an index updated meanwhile.  It should be retried.
-	statusSuperseded = 0
+	statusSuperseded = -1
 )
 
 // addPrefix add prefix for each *FileInfo in fil.
@@ -390,6 +390,13 @@ func (c *Cacher) download(ctx context.Context, p string, u *url.URL, valid *apt.
 	}
 
 	defer closeRespBody(resp)
+	if resp.StatusCode < 100 {
+		log.Warn("GET failed", map[string]interface{}{
+			"url":   u.String(),
+			"error": "invalid status: " + resp.Status,
+		})
+		return
+	}
 	if resp.StatusCode != http.StatusOK {
 		statusCode = resp.StatusCode
 		return
-- 
2.43.0


From 8211a66ddfa5e11e6024fe78320d5b7c61bf9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 20/34] fix: accept release files that list different kinds of
 checksums

Whether the update failed with "inconsistent checksum" depended on the
order in which Release and InRelease were received.
---
 apt/fileinfo.go  | 13 +++++++++++++
 mirror/mirror.go |  8 ++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/apt/fileinfo.go b/apt/fileinfo.go
index a527a34..7a33cf1 100644
--- a/apt/fileinfo.go
+++ b/apt/fileinfo.go
@@ -45,6 +45,19 @@ func (fi *FileInfo) Same(t *FileInfo) bool {
 	return true
 }
 
+// Consistent returns true if fi and t may describe the same file contents.
+//
+// Unlike Same, a checksum missing in either of them is not compared.
+func (fi *FileInfo) Consistent(t *FileInfo) bool {
+	differ := func(a, b []byte) bool {
+		return a != nil && b != nil && !bytes.Equal(a, b)
+	}
+	return fi.path == t.path && fi.size == t.size &&
+		!differ(fi.md5sum, t.md5sum) &&
+		!differ(fi.sha1sum, t.sha1sum) &&
+		!differ(fi.sha256sum, t.sha256sum)
+}
+
 // Path returns the indentifying path string of the file.
 func (fi *FileInfo) Path() string {
 	return fi.path
diff --git a/mirror/mirror.go b/mirror/mirror.go
index 3baa163..4dd36ff 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -436,8 +436,12 @@ func addFileInfoToList(fi *apt.FileInfo, m map[string][]*apt.FileInfo, byhash bo
 		return nil
 	}
 
-	for _, existing := range fil {
-		if existing.Same(fi) {
+	for i, existing := range fil {
+		if existing.Consistent(fi) {
+			// keep the one with more checksums.
+			if existing.Same(fi) {
+				fil[i] = fi
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 42c90b650b3adc8aa7836d36945cb71b6ff3e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 21/34] fix: match sections of partial mirrors as whole path
 elements

A mirror of section free also took the packages of non-free.
---
 mirror/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mirror/config.go b/mirror/config.go
index 07af65f..1d64f28 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -138,13 +138,13 @@ func (mc *MirrConfig) MatchingIndex(p string) bool {
 	for _, section := range mc.Sections {
 		for _, arch := range archs {
 			t := path.Join(path.Clean(section), "binary-"+arch, "Packages")
-			if strings.HasSuffix(pNoExt, t) {
+			if pNoExt == t || strings.HasSuffix(pNoExt, "/"+t) {
 				return true
 			}
 		}
 		if mc.Source {
 			t := path.Join(path.Clean(section), "source", "Sources")
-			if strings.HasSuffix(pNoExt, t) {
+			if pNoExt == t || strings.HasSuffix(pNoExt, "/"+t) {
 				return true
 			}
 		}
-- 
2.43.0


From 1cd8426b002497a370b2514281d65f301f14c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:01 +0000
Subject: [PATCH 22/34] fix: report a failing sync of info.json

---
 mirror/storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index f4dd9aa..e72fe7a 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -103,7 +103,10 @@ func (s *Storage) Save() error {
 		return err
 	}
 
-	f.Sync()
+	err = f.Sync()
+	if err != nil {
+		return err
+	}
 	err = DirSyncTree(s.dir)
 	if err != nil {
 		return errors.Wrap(err, "DirSyncTree(s.dir)")
-- 
2.43.0


From d374025a910ca74e44badee2dca2adb70b515d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:02 +0000
Subject: [PATCH 23/34] fix: remove temporary links that a failed or killed run
 left behind

gc took them for published links, and kept the abandoned version they
point to.
---
 mirror/control.go | 8 ++++++++
 mirror/mirror.go  | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mirror/control.go b/mirror/control.go
index 5ba5db3..a955343 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -5,6 +5,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/cybozu-go/log"
@@ -14,6 +15,9 @@ import (
 
 const (
 	lockFilename = ".lock"
+
+	// suffix of temporary symlinks; mirror IDs cannot contain dots.
+	tmpLinkSuffix = ".tmp"
 )
 
 func updateMirrors(ctx context.Context, c *Config, mirrors []string) error {
@@ -68,6 +72,10 @@ func gc(ctx context.Context, c *Config) error {
 		if (dentry.Mode() & os.ModeSymlink) == 0 {
 			continue
 		}
+		if strings.HasSuffix(dentry.Name(), tmpLinkSuffix) {
+			// left by a run that could not complete.
+			continue
+		}
 		p, err := filepath.EvalSymlinks(filepath.Join(c.Dir, dentry.Name()))
 		if err != nil {
 			return errors.Wrap(err, "gc")
diff --git a/mirror/mirror.go b/mirror/mirror.go
index 4dd36ff..fd25adc 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -159,7 +159,7 @@ func (m *Mirror) extractItems(indices []*apt.FileInfo, indexMap map[string][]*ap
 }
 
 func (m *Mirror) replaceLink() error {
-	tname := filepath.Join(m.dir, m.id+".tmp")
+	tname := filepath.Join(m.dir, m.id+tmpLinkSuffix)
 	os.Remove(tname)
 	err := os.Symlink(filepath.Join(m.storage.Dir(), m.id), tname)
 	if err != nil {
-- 
2.43.0


From 3947518b614c72583e6305e8f930edf3c90877da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 24/34] fix: close the response of a failed attempt before
 trying again

Every retry held another connection, exceeding max_conns.
---
 mirror/mirror.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index fd25adc..c4ddc3a 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -297,11 +297,15 @@ func (m *Mirror) download(ctx context.Context,
 	p string, fi *apt.FileInfo, byhash bool, ch chan<- *dlResult) {
 
 	var tempfile *os.File
+	var resp *http.Response
 	r := &dlResult{
 		path: p,
 	}
 
 	defer func() {
+		if resp != nil {
+			closeRespBody(resp)
+		}
 		r.tempfile = tempfile
 		ch <- r
 		m.semaphore <- struct{}{}
@@ -320,6 +324,10 @@ RETRY:
 		closeAndRemoveFile(tempfile)
 		tempfile = nil
 	}
+	if resp != nil {
+		closeRespBody(resp)
+		resp = nil
+	}
 
 	// allow interrupts
 	select {
@@ -352,8 +360,10 @@ RETRY:
 		ProtoMinor: 1,
 		Header:     header,
 	}
-	resp, err := m.client.Do(req.WithContext(ctx))
+	var err error
+	resp, err = m.client.Do(req.WithContext(ctx))
 	if err != nil {
+		resp = nil
 		if retries < httpRetries {
 			retries++
 			goto RETRY
@@ -361,7 +371,6 @@ RETRY:
 		r.err = err
 		return
 	}
-	defer closeRespBody(resp)
 
 	if log.Enabled(log.LvDebug) {
 		log.Debug("downloaded", map[string]interface{}{
-- 
2.43.0


From 85d0bfa7b16cc479e4088ff43abf32f3c5d17caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:27 +0000
Subject: [PATCH 25/34] fix: do not block forever with max_conns = 0

Zero is documented to disable the limit.  Negative values are refused.
---
 mirror/mirror.go | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index c4ddc3a..7394a21 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -55,6 +55,9 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 	if err := mc.Check(); err != nil {
 		return nil, errors.Wrap(err, id)
 	}
+	if c.MaxConns < 0 {
+		return nil, errors.New("max_conns must not be negative")
+	}
 
 	var currentStorage *Storage
 	curdir, err := filepath.EvalSymlinks(filepath.Join(dir, id))
@@ -83,9 +86,13 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 		return nil, errors.Wrap(err, id)
 	}
 
-	sem := make(chan struct{}, c.MaxConns)
-	for i := 0; i < c.MaxConns; i++ {
-		sem <- struct{}{}
+	// nil semaphore means unlimited.
+	var sem chan struct{}
+	if c.MaxConns > 0 {
+		sem = make(chan struct{}, c.MaxConns)
+		for i := 0; i < c.MaxConns; i++ {
+			sem <- struct{}{}
+		}
 	}
 
 	transport := clonedTransport(http.DefaultTransport)
@@ -118,6 +125,26 @@ func clonedTransport(rt http.RoundTripper) *http.Transport {
 	return t.Clone()
 }
 
+// acquire waits for the permission to start a download.
+func (m *Mirror) acquire(ctx context.Context) error {
+	if m.semaphore == nil {
+		return ctx.Err()
+	}
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-m.semaphore:
+		return nil
+	}
+}
+
+// release gives back the permission obtained by acquire.
+func (m *Mirror) release() {
+	if m.semaphore != nil {
+		m.semaphore <- struct{}{}
+	}
+}
+
 func (m *Mirror) storeLink(fi *apt.FileInfo, fp string, byhash bool) error {
 	if byhash {
 		return m.storage.StoreLinkWithHash(fi, fp)
@@ -308,7 +335,7 @@ func (m *Mirror) download(ctx context.Context,
 		}
 		r.tempfile = tempfile
 		ch <- r
-		m.semaphore <- struct{}{}
+		m.release()
 	}()
 
 	var retries uint
@@ -504,10 +531,8 @@ func (m *Mirror) downloadRelease(ctx context.Context, suite string) (map[string]
 	results := make(chan *dlResult, len(releases))
 
 	for _, p := range releases {
-		select {
-		case <-ctx.Done():
-			return nil, false, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquire(ctx); err != nil {
+			return nil, false, err
 		}
 
 		go m.download(ctx, p, nil, false, results)
@@ -638,10 +663,8 @@ func (m *Mirror) reuseOrDownload(ctx context.Context, fil []*apt.FileInfo,
 			}
 		}
 
-		select {
-		case <-ctx.Done():
-			return nil, ctx.Err()
-		case <-m.semaphore:
+		if err := m.acquire(ctx); err != nil {
+			return nil, err
 		}
 
 		env.Go(func(ctx context.Context) error {
-- 
2.43.0


From a8266e5b6d934681026de86bc425c84f8ae85f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 26/34] fix: do not take an index with wrong contents for a
 missing one

When the plain location holds other contents and a by-hash location does
not exist, other by-hash locations are tried, and finally an error is
reported.  By-hash locations for absent checksums are not requested.
---
 mirror/mirror.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 7394a21..72baaaa 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -341,10 +341,13 @@ func (m *Mirror) download(ctx context.Context,
 	var retries uint
 	targets := []string{p}
 	if byhash && fi != nil {
-		targets = append(targets, fi.SHA256Path())
-		targets = append(targets, fi.SHA1Path())
-		targets = append(targets, fi.MD5SumPath())
+		for _, t := range []string{fi.SHA256Path(), fi.SHA1Path(), fi.MD5SumPath()} {
+			if len(t) > 0 {
+				targets = append(targets, t)
+			}
+		}
 	}
+	mismatch := false // p has been obtained, but with wrong contents.
 
 RETRY:
 	if tempfile != nil {
@@ -413,6 +416,15 @@ RETRY:
 		goto RETRY
 	}
 
+	if r.status == http.StatusNotFound && mismatch {
+		if len(targets) > 1 {
+			targets = targets[1:]
+			goto RETRY
+		}
+		r.err = errors.New("invalid checksum for " + p)
+		return
+	}
+
 	if r.status != 200 {
 		return
 	}
@@ -443,6 +455,7 @@ RETRY:
 	}
 
 	if fi != nil && !fi.Same(fi2) {
+		mismatch = true
 		if len(targets) > 1 {
 			targets = targets[1:]
 			log.Warn("try by-hash retrieval", map[string]interface{}{
-- 
2.43.0


From c05aa0ba60e52d5baa498ccc94c39bac18669d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 27/34] fix: refuse indices that list different contents for an
 item

When Release and InRelease of a suite with by-hash support belong to
different versions, both versions of an index are downloaded.  Which of
them decided the checksum of an item they disagreed about depended on the
order of downloads, and the mirror was published with an index that does
not match its items.
---
 mirror/mirror.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 72baaaa..6580b74 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -179,7 +179,15 @@ func (m *Mirror) extractItems(indices []*apt.FileInfo, indexMap map[string][]*ap
 				// already included in Release/InRelease
 				continue
 			}
-			itemMap[fipath] = fi
+			existing, ok := itemMap[fipath]
+			if ok && !existing.Consistent(fi) {
+				// e.g. indices of different versions.
+				return errors.New("inconsistent checksum for " + fipath)
+			}
+			if !ok || existing.Same(fi) {
+				// keep the one with more checksums.
+				itemMap[fipath] = fi
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From d1df1d0e71270ca66c84f3eb3ce958d051ace6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:20 +0000
Subject: [PATCH 28/34] fix: do not use an empty path for an absent checksum

StoreLinkWithHash recorded items under an empty path for each kind of
checksum they lack, and Lookup could then report the directory of the
mirror as the location of a file.
---
 mirror/storage.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/mirror/storage.go b/mirror/storage.go
index e72fe7a..b90db50 100644
--- a/mirror/storage.go
+++ b/mirror/storage.go
@@ -143,14 +143,17 @@ func (s *Storage) StoreLink(fi *apt.FileInfo, fullpath string) error {
 // with additional hard links for by-hash retrieval.
 func (s *Storage) StoreLinkWithHash(fi *apt.FileInfo, fullpath string) error {
 	p := fi.Path()
-	md5p := fi.MD5SumPath()
-	sha1p := fi.SHA1Path()
-	sha256p := fi.SHA256Path()
 	fpl := []string{
 		filepath.Join(s.dir, s.prefix, filepath.Clean(p)),
-		filepath.Join(s.dir, s.prefix, filepath.Clean(md5p)),
-		filepath.Join(s.dir, s.prefix, filepath.Clean(sha1p)),
-		filepath.Join(s.dir, s.prefix, filepath.Clean(sha256p)),
+	}
+	var hashPaths []string
+	for _, hp := range []string{fi.MD5SumPath(), fi.SHA1Path(), fi.SHA256Path()} {
+		if len(hp) == 0 {
+			// fi does not have this kind of checksum.
+			continue
+		}
+		hashPaths = append(hashPaths, hp)
+		fpl = append(fpl, filepath.Join(s.dir, s.prefix, filepath.Clean(hp)))
 	}
 
 	s.mu.Lock()
@@ -169,9 +172,9 @@ func (s *Storage) StoreLinkWithHash(fi *apt.FileInfo, fullpath string) error {
 	//
 	// Although we may fix the problem in Storage.Lookup, at this point
 	// we leave it as it is not too bad.
-	s.info[md5p] = fi
-	s.info[sha1p] = fi
-	s.info[sha256p] = fi
+	for _, hp := range hashPaths {
+		s.info[hp] = fi
+	}
 	s.mu.Unlock()
 
 	for _, fp := range fpl {
@@ -204,8 +207,8 @@ func (s *Storage) Lookup(fi *apt.FileInfo, byhash bool) (*apt.FileInfo, string)
 		return fi2, filepath.Join(s.dir, s.prefix, filepath.Clean(p))
 	}
 
-	if byhash {
-		fi2, fullpath := f(fi.SHA256Path())
+	if sha256p := fi.SHA256Path(); byhash && len(sha256p) > 0 {
+		fi2, fullpath := f(sha256p)
 		if fi2 != nil {
 			return fi2, fullpath
 		}
-- 
2.43.0


From ffc0cc9e4259584283a1c60554176c3853601b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 29/34] fix: refuse a mirror without url instead of crashing

---
 mirror/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mirror/config.go b/mirror/config.go
index 1d64f28..4125972 100644
--- a/mirror/config.go
+++ b/mirror/config.go
@@ -56,6 +56,10 @@ func isFlat(suite string) bool {
 
 // Check vaildates the configuration.
 func (mc *MirrConfig) Check() error {
+	if mc.URL.URL == nil {
+		return errors.New("no url")
+	}
+
 	if len(mc.Suites) == 0 {
 		return errors.New("no suites")
 	}
-- 
2.43.0


From 887f9b009968f462671e05e8f655347a7d9e9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 30/34] fix: refuse a relative dir before touching it

---
 mirror/control.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mirror/control.go b/mirror/control.go
index a955343..52c67c2 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -117,6 +117,11 @@ func gc(ctx context.Context, c *Config) error {
 // (or keys in c.Mirrors).  If mirrors is an empty list, all mirrors
 // will be updated.
 func Run(c *Config, mirrors []string) error {
+	// a failed run removes what it does not know from the directory.
+	if !filepath.IsAbs(c.Dir) {
+		return errors.New("dir must be an absolute path: " + c.Dir)
+	}
+
 	lockFile := filepath.Join(c.Dir, lockFilename)
 	f, err := os.Open(lockFile)
 	switch {
-- 
2.43.0


From cf280c6a23fc971ec7bfd17bbe666b2195b7b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 31/34] fix: let a run proceed although its second's version
 directory exists

---
 mirror/mirror.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 6580b74..16166cb 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -76,8 +76,15 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 		}
 	}
 
-	d := filepath.Join(dir, "."+id+"."+t.Format(timestampFormat))
+	name := filepath.Join(dir, "."+id+"."+t.Format(timestampFormat))
+	d := name
 	err = os.Mkdir(d, 0755)
+	for n := 1; os.IsExist(err); n++ {
+		// taken by a run in the same second, which occurs twice
+		// when daylight saving time ends.
+		d = fmt.Sprintf("%s-%d", name, n)
+		err = os.Mkdir(d, 0755)
+	}
 	if err != nil {
 		return nil, errors.Wrap(err, id)
 	}
-- 
2.43.0


From a1903e7eb0d44fd0ce14c8592894660d10a79b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 32/34] Revert "fix: let a run proceed although its second's
 version directory exists"

This reverts commit cf280c6a23fc971ec7bfd17bbe666b2195b7b422.
---
 mirror/mirror.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 16166cb..6580b74 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -76,15 +76,8 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 		}
 	}
 
-	name := filepath.Join(dir, "."+id+"."+t.Format(timestampFormat))
-	d := name
+	d := filepath.Join(dir, "."+id+"."+t.Format(timestampFormat))
 	err = os.Mkdir(d, 0755)
-	for n := 1; os.IsExist(err); n++ {
-		// taken by a run in the same second, which occurs twice
-		// when daylight saving time ends.
-		d = fmt.Sprintf("%s-%d", name, n)
-		err = os.Mkdir(d, 0755)
-	}
 	if err != nil {
 		return nil, errors.Wrap(err, id)
 	}
-- 
2.43.0


From 35c6d8162c7c9db1c1e5f9d971639d99ee99e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 33/34] fix: do not fail because the version directory of the
 same second exists

---
 mirror/control.go | 20 +++++++++++++++++++-
 mirror/mirror.go  |  7 ++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/mirror/control.go b/mirror/control.go
index 52c67c2..3f290e9 100644
--- a/mirror/control.go
+++ b/mirror/control.go
@@ -20,8 +20,26 @@ const (
 	tmpLinkSuffix = ".tmp"
 )
 
-func updateMirrors(ctx context.Context, c *Config, mirrors []string) error {
+// versionTime returns the time to name new version directories after.
+//
+// The current time may be taken by a run in the same second, which
+// occurs twice when daylight saving time ends.
+func versionTime(c *Config, mirrors []string) time.Time {
 	t := time.Now()
+	for i := 0; i < len(mirrors); {
+		_, err := os.Lstat(versionDir(filepath.Clean(c.Dir), mirrors[i], t))
+		if err == nil {
+			t = t.Add(time.Second)
+			i = 0
+			continue
+		}
+		i++
+	}
+	return t
+}
+
+func updateMirrors(ctx context.Context, c *Config, mirrors []string) error {
+	t := versionTime(c, mirrors)
 
 	var ml []*Mirror
 	for _, id := range mirrors {
diff --git a/mirror/mirror.go b/mirror/mirror.go
index 6580b74..976c4f9 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -76,7 +76,7 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 		}
 	}
 
-	d := filepath.Join(dir, "."+id+"."+t.Format(timestampFormat))
+	d := versionDir(dir, id, t)
 	err = os.Mkdir(d, 0755)
 	if err != nil {
 		return nil, errors.Wrap(err, id)
@@ -117,6 +117,11 @@ func NewMirror(t time.Time, id string, c *Config) (*Mirror, error) {
 	return mr, nil
 }
 
+// versionDir returns the directory for the version of a mirror made at t.
+func versionDir(dir, id string, t time.Time) string {
+	return filepath.Join(dir, "."+id+"."+t.Format(timestampFormat))
+}
+
 func clonedTransport(rt http.RoundTripper) *http.Transport {
 	t, ok := rt.(*http.Transport)
 	if !ok {
-- 
2.43.0


From 917ff99faad98df47c450592c6f55c24130f5896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 34/34] fix: end at once when told to stop during the pause
 before a retry

---
 mirror/mirror.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mirror/mirror.go b/mirror/mirror.go
index 976c4f9..60c88aa 100644
--- a/mirror/mirror.go
+++ b/mirror/mirror.go
@@ -385,7 +385,12 @@ RETRY:
 			"repo": m.id,
 			"path": p,
 		})
-		time.Sleep(time.Duration(1<<(retries-1)) * time.Second)
+		select {
+		case <-ctx.Done():
+			r.err = ctx.Err()
+			return
+		case <-time.After(time.Duration(1<<(retries-1)) * time.Second):
+		}
 	}
 
 	// imitation apt-get command
-- 
2.43.0

