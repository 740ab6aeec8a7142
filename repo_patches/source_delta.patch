From 6d9c0df362f39b62ab1b07ef19f5daa8ea34db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 01/37] fix: translate escape errors of osfs.Root ReadFile,
 Readlink and WriteFile

---
 vroot/osfs/root.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/vroot/osfs/root.go b/vroot/osfs/root.go
index b013a28..928559b 100644
--- a/vroot/osfs/root.go
+++ b/vroot/osfs/root.go
@@ -121,8 +121,19 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (*File, error)
 	return &File{f}, nil
 }
 
+// ReadFile shadows [os.Root.ReadFile] so that its errors are translated too.
+func (r *Root) ReadFile(name string) ([]byte, error) {
+	data, err := r.Root.ReadFile(name)
+	return data, translateEscape(err)
+}
+
 func (r *Root) ReadLink(name string) (string, error) {
-	target, err := r.Readlink(name)
+	return r.Readlink(name)
+}
+
+// Readlink shadows [os.Root.Readlink] so that its errors are translated too.
+func (r *Root) Readlink(name string) (string, error) {
+	target, err := r.Root.Readlink(name)
 	return target, translateEscape(err)
 }
 
@@ -147,6 +158,11 @@ func (r *Root) Symlink(oldname string, newname string) error {
 	return translateEscape(r.Root.Symlink(oldname, newname))
 }
 
+// WriteFile shadows [os.Root.WriteFile] so that its errors are translated too.
+func (r *Root) WriteFile(name string, data []byte, perm fs.FileMode) error {
+	return translateEscape(r.Root.WriteFile(name, data, perm))
+}
+
 func (r *Root) OpenRoot(name string) (*Root, error) {
 	rr, err := r.Root.OpenRoot(name)
 	if err != nil {
-- 
2.43.0


From 724d85c3168507807fae0b035467ac7d1411408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 02/37] fix: take synthfs directory entries' metadata under the
 state lock, with live sizes

---
 vroot/synthfs/handle_dir.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index cb8da4a..d118dbd 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -117,9 +117,9 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 }
 
 // readEntries advances the cursor by up to n entries; n<=0 means "until end."
-// Caller holds h.mu; the returned snapshot is a shallow copy safe to use
-// outside the lock.
-func (h *dirHandle) readEntries(n int) ([]node, error) {
+// Caller holds h.mu; the returned stats are taken under the state lock, so they
+// are safe to use outside of it.
+func (h *dirHandle) readEntries(n int) ([]stat, error) {
 	if h.closed {
 		return nil, fsutil.WrapPathErr("readdir", h.name, fs.ErrClosed)
 	}
@@ -136,12 +136,26 @@ func (h *dirHandle) readEntries(n int) ([]node, error) {
 	if n > 0 && h.cursor+n < end {
 		end = h.cursor + n
 	}
-	out := make([]node, end-h.cursor)
-	copy(out, all[h.cursor:end])
+	out := make([]stat, 0, end-h.cursor)
+	for _, nd := range all[h.cursor:end] {
+		out = append(out, entryStat(nd))
+	}
 	h.cursor = end
 	return out, nil
 }
 
+// entryStat is the stat of a listed entry. The size of a file is the view's; a
+// view that cannot report it leaves the size known to the node. Caller must hold
+// state.mu (read).
+func entryStat(nd node) stat {
+	if f, ok := nd.(*file); ok {
+		if s, err := statFromFileView(&f.metadata, f.view); err == nil {
+			return s
+		}
+	}
+	return nd.meta().toStat()
+}
+
 func (h *dirHandle) ReadDir(n int) ([]fs.DirEntry, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
@@ -150,8 +164,8 @@ func (h *dirHandle) ReadDir(n int) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 	out := make([]fs.DirEntry, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, fs.FileInfoToDirEntry(nd.meta().toStat()))
+	for _, s := range entries {
+		out = append(out, fs.FileInfoToDirEntry(s))
 	}
 	return out, nil
 }
@@ -164,8 +178,8 @@ func (h *dirHandle) Readdir(n int) ([]fs.FileInfo, error) {
 		return nil, err
 	}
 	out := make([]fs.FileInfo, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, nd.meta().toStat())
+	for _, s := range entries {
+		out = append(out, s)
 	}
 	return out, nil
 }
@@ -178,8 +192,8 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 		return nil, err
 	}
 	out := make([]string, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, filepath.Base(nd.meta().name))
+	for _, s := range entries {
+		out = append(out, filepath.Base(s.name))
 	}
 	return out, nil
 }
-- 
2.43.0


From 83c9c9a430f8f89e58be0506849d2e8553822943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 03/37] fix: synthfs OpenFile deadlocked when truncating the
 opened view failed

---
 vroot/synthfs/open.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index e9e5b72..dd4a940 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -45,7 +45,11 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 				view: view,
 			}
 			parent.addEntry(base, nf)
-			return r.openFileNode(nf, name, flag)
+			h, err := r.openFileNode(nf, name, flag)
+			if err != nil {
+				return nil, err
+			}
+			return h, nil
 		}
 	}
 
@@ -68,8 +72,10 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 		if flag&os.O_TRUNC != 0 && openflag.Writable(flag) {
 			// Truncate through the open handle so aliased views (e.g. hard
 			// links) see the same shrink. Re-Allocate would desynchronize.
-			if terr := h.Truncate(0); terr != nil {
-				_ = h.Close()
+			// Use the inner handle: h's own methods take state.mu, held here.
+			if terr := h.inner.Truncate(0); terr != nil {
+				nd.refCount--
+				_ = h.inner.Close()
 				return nil, terr
 			}
 		}
@@ -84,7 +90,7 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 
 // openFileNode opens the view and wraps it in a fileHandle, bumping refCount
 // on success. Caller holds state.mu (write).
-func (r *Root) openFileNode(nd *file, userName string, flag int) (vroot.File, error) {
+func (r *Root) openFileNode(nd *file, userName string, flag int) (*fileHandle, error) {
 	inner, err := nd.view.Open(flag)
 	if err != nil {
 		return nil, toPathErr("open", userName, err)
-- 
2.43.0


From f36f409909c7e9faa3831bd876a2bec958b7019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 04/37] fix: synthfs Rename could detach a directory beneath
 itself and closed the view of a name renamed onto itself

---
 vroot/synthfs/rename.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index cfc8774..8bab8c5 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -25,6 +25,18 @@ func (r *Root) Rename(oldname, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, errors.Unwrap(err))
 	}
+	if newParent == oldParent && newBase == oldBase {
+		return nil
+	}
+	// A directory must not become its own descendant: the subtree would be cut
+	// off from the root.
+	if d, ok := target.(*dir); ok {
+		for p := newParent; p != nil; p = p.parent {
+			if p == d {
+				return fsutil.WrapLinkErr("rename", oldname, newname, fs.ErrInvalid)
+			}
+		}
+	}
 	if existing := newParent.lookup(newBase); existing != nil {
 		// POSIX rename replaces; emulate that for files. Refuse to overwrite
 		// a non-empty directory to keep the operation safe under any platform.
-- 
2.43.0


From a24414fa3821f586fd8dbf30ae75b57a302407eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 05/37] fix: concurrent appends to a synthfs memory file could
 overwrite each other

---
 vroot/synthfs/view_mem_buf.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index 1a2866b..df4570c 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -79,13 +79,30 @@ func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
 	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
-	end := int(off) + len(p)
+	return b.writeAtLocked(p, int(off)), nil
+}
+
+// writeAtLocked is the body of writeAt. Caller holds b.mu (write).
+func (b *memBuf) writeAtLocked(p []byte, off int) int {
+	end := off + len(p)
 	if end > len(b.content) {
 		b.grow(end - len(b.content))
 	}
-	n := copy(b.content[int(off):], p)
+	n := copy(b.content[off:], p)
 	b.modTime = b.clock.Now()
-	return n, nil
+	return n
+}
+
+// append writes p at the end of the content and returns the offset past it. The
+// end is found and written under one lock, so concurrent appends do not
+// overwrite each other.
+func (b *memBuf) append(p []byte) (n int, end int64) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	if len(p) > 0 {
+		n = b.writeAtLocked(p, len(b.content))
+	}
+	return n, int64(len(b.content))
 }
 
 func (b *memBuf) truncate(size int64) error {
@@ -197,7 +214,9 @@ func (h *memHandle) Write(p []byte) (int, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	if h.flag&os.O_APPEND != 0 {
-		h.off = int64(h.buf.length())
+		n, end := h.buf.append(p)
+		h.off = end
+		return n, nil
 	}
 	n, err := h.buf.writeAt(p, h.off)
 	h.off += int64(n)
-- 
2.43.0


From 8af9b8edd369d7f3474aaf4f3d871877b316dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 06/37] fix: synthfs handles answered Stat, Chmod, Chown, Seek
 and Sync after Close

---
 vroot/synthfs/handle.go     |  9 +++++++++
 vroot/synthfs/handle_dir.go | 26 +++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/handle.go b/vroot/synthfs/handle.go
index a5a2e68..a12d32a 100644
--- a/vroot/synthfs/handle.go
+++ b/vroot/synthfs/handle.go
@@ -138,6 +138,9 @@ func (h *fileHandle) Sync() error {
 }
 
 func (h *fileHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	s := h.node.toStat()
@@ -150,6 +153,9 @@ func (h *fileHandle) Stat() (fs.FileInfo, error) {
 }
 
 func (h *fileHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -157,6 +163,9 @@ func (h *fileHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *fileHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index d118dbd..0cadb53 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -29,7 +29,19 @@ var _ vroot.File = (*dirHandle)(nil)
 
 func (h *dirHandle) Name() string { return h.name }
 func (h *dirHandle) Fd() uintptr  { return ^uintptr(0) }
-func (h *dirHandle) Sync() error  { return nil }
+
+func (h *dirHandle) Sync() error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("sync", h.name, fs.ErrClosed)
+	}
+	return nil
+}
+
+func (h *dirHandle) isClosed() bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	return h.closed
+}
 
 func (h *dirHandle) Close() error {
 	h.mu.Lock()
@@ -47,6 +59,9 @@ func (h *dirHandle) Close() error {
 }
 
 func (h *dirHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	return h.node.toStat(), nil
@@ -81,6 +96,9 @@ func (h *dirHandle) Truncate(int64) error {
 func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
+	if h.closed {
+		return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrClosed)
+	}
 	switch whence {
 	case io.SeekStart:
 		if offset < 0 {
@@ -199,6 +217,9 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 }
 
 func (h *dirHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -206,6 +227,9 @@ func (h *dirHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *dirHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
-- 
2.43.0


From 737f315f09fd37873eab652b86bf11b0bd33cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 07/37] fix: removing one hard link in synthfs closed the view
 its other links still use

---
 vroot/synthfs/add.go    |  6 +++---
 vroot/synthfs/link.go   |  3 ++-
 vroot/synthfs/node.go   | 26 ++++++++++++++++++++++++++
 vroot/synthfs/remove.go |  4 ++--
 vroot/synthfs/rename.go |  2 +-
 5 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 703f06d..19dbfe7 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -66,7 +66,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 		if existingNode != nil {
 			parent.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlinkView()
 			}
 		}
 		parent.addEntry(base, &file{
@@ -186,7 +186,7 @@ func (r *Root) addFSWalk(
 		if decision == AddDecisionOverride && existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlinkView()
 			}
 		}
 		if decision == AddDecisionKeep && existingNode != nil {
@@ -216,7 +216,7 @@ func (r *Root) addFSWalk(
 		if existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlinkView()
 			}
 		}
 		dst.addEntry(base, &file{
diff --git a/vroot/synthfs/link.go b/vroot/synthfs/link.go
index 482ec9f..c62e1f4 100644
--- a/vroot/synthfs/link.go
+++ b/vroot/synthfs/link.go
@@ -60,7 +60,8 @@ func (r *Root) Link(oldname, newname string) error {
 			uid:     srcFile.uid,
 			gid:     srcFile.gid,
 		},
-		view: srcFile.view,
+		view:  srcFile.view,
+		links: srcFile.linkView(),
 	})
 	return nil
 }
diff --git a/vroot/synthfs/node.go b/vroot/synthfs/node.go
index 94f088e..7469674 100644
--- a/vroot/synthfs/node.go
+++ b/vroot/synthfs/node.go
@@ -57,6 +57,32 @@ type dir struct {
 type file struct {
 	metadata
 	view FileView
+	// links counts the files of the tree that share view. nil means f is the only
+	// one.
+	links *int
+}
+
+// linkView returns the link count to bind to another file sharing f's view.
+// Caller must hold state.mu (write lock).
+func (f *file) linkView() *int {
+	if f.links == nil {
+		n := 1
+		f.links = &n
+	}
+	*f.links++
+	return f.links
+}
+
+// unlinkView closes f's view unless another file of the tree still shares it.
+// Caller must hold state.mu (write lock).
+func (f *file) unlinkView() {
+	if f.links != nil {
+		*f.links--
+		if *f.links > 0 {
+			return
+		}
+	}
+	_ = f.view.Close()
 }
 
 type symlink struct {
diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index 328749f..6e4532a 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -25,7 +25,7 @@ func (r *Root) Remove(name string) error {
 		}
 		parent.removeEntry(base)
 		if f, ok := target.(*file); ok {
-			_ = f.view.Close()
+			f.unlinkView()
 		}
 		return nil
 	})
@@ -77,6 +77,6 @@ func (r *Root) removeSubtree(n node) {
 			delete(nd.index, k)
 		}
 	case *file:
-		_ = nd.view.Close()
+		nd.unlinkView()
 	}
 }
diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index 8bab8c5..ea0e9bd 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -45,7 +45,7 @@ func (r *Root) Rename(oldname, newname string) error {
 		}
 		newParent.removeEntry(newBase)
 		if f, ok := existing.(*file); ok {
-			_ = f.view.Close()
+			f.unlinkView()
 		}
 	}
 
-- 
2.43.0


From db99b6d7781667e327ee52fc79f83eb4f4efbb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 08/37] fix: synthfs AddDecisionKeep replaced an existing leaf
 by a directory, and overriding a directory kept its views open

---
 vroot/synthfs/add.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 19dbfe7..63c1c04 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -65,9 +65,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 	case AddDecisionOverride:
 		if existingNode != nil {
 			parent.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlinkView()
-			}
+			r.removeSubtree(existingNode)
 		}
 		parent.addEntry(base, &file{
 			metadata: metadata{
@@ -161,6 +159,10 @@ func (r *Root) addFSWalk(
 		case AddDecisionSkip:
 			return nil
 		case AddDecisionKeep:
+			if _, ok := existingNode.(*dir); existingNode != nil && !ok {
+				// The existing leaf is kept and the incoming subtree dropped.
+				return nil
+			}
 			// Reuse or create + descend.
 			d := r.materializeDir(dst, base, info, existingNode, false)
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
@@ -185,9 +187,7 @@ func (r *Root) addFSWalk(
 		}
 		if decision == AddDecisionOverride && existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlinkView()
-			}
+			r.removeSubtree(existingNode)
 		}
 		if decision == AddDecisionKeep && existingNode != nil {
 			return nil
@@ -215,9 +215,7 @@ func (r *Root) addFSWalk(
 		}
 		if existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlinkView()
-			}
+			r.removeSubtree(existingNode)
 		}
 		dst.addEntry(base, &file{
 			metadata: metadata{
-- 
2.43.0


From c3441647ad74bcf44b471e756748a6d618e3be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 09/37] fix: WalkDir skipped the remaining siblings of an entry
 that could not be lstat'd

---
 vroot/walk.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index b58b7ce..b996b39 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -181,12 +181,9 @@ func walkDir_[F File, Fsys Fs[F]](
 		info, err := fsys.Lstat(childPath)
 		if err != nil {
 			err = fn(childPath, childRealPath, nil, err)
-			if err == SkipDir && info != nil && info.IsDir() {
-				err = nil
-			}
-			return err
+		} else {
+			err = walkDir_(fsys, childPath, childRealPath, info, state, opt, fn)
 		}
-		err = walkDir_(fsys, childPath, childRealPath, info, state, opt, fn)
 		if err != nil {
 			if err == SkipDir {
 				break
-- 
2.43.0


From 6490fb91a5f9e99313a6fcfa635f4511408f884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 10/37] fix: Remove of "." deleted an empty root directory in
 osfs.Fs, PathPrefixFs and SftpFs

---
 vroot-adapter/sftpfs/sftpfs.go | 4 ++++
 vroot/osfs/fs.go               | 4 ++++
 vroot/pathprefix.go            | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index aab4ee8..67fad16 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -227,6 +227,10 @@ func (s *SftpFs) Remove(name string) error {
 	if err != nil {
 		return fsutil.WrapPathErr("remove", name, err)
 	}
+	if abs == s.base {
+		// Consistency with *os.Root.Remove.
+		return fsutil.WrapPathErr("remove", name, syscall.EINVAL)
+	}
 	return s.client.Remove(abs)
 }
 
diff --git a/vroot/osfs/fs.go b/vroot/osfs/fs.go
index 768f467..2623710 100644
--- a/vroot/osfs/fs.go
+++ b/vroot/osfs/fs.go
@@ -223,6 +223,10 @@ func (u *Fs) Remove(name string) error {
 	if err != nil {
 		return fsutil.WrapPathErr("", name, err)
 	}
+	if path == u.root {
+		// consistency to *os.Root.Remove
+		return fsutil.WrapPathErr("remove", name, syscall.EINVAL)
+	}
 	return os.Remove(path)
 }
 
diff --git a/vroot/pathprefix.go b/vroot/pathprefix.go
index 83a8b6a..4a620a1 100644
--- a/vroot/pathprefix.go
+++ b/vroot/pathprefix.go
@@ -166,6 +166,10 @@ func (w *PathPrefixFs[F]) ReadLink(name string) (string, error) {
 }
 
 func (w *PathPrefixFs[F]) Remove(name string) error {
+	// Refused as in RemoveAll below.
+	if filepath.Clean(name) == "." {
+		return fsutil.WrapPathErr("remove", name, syscall.EINVAL)
+	}
 	p, err := w.resolvePath(name)
 	if err != nil {
 		return fsutil.WrapPathErr("remove", name, err)
-- 
2.43.0


From f00dd9c5de79d54da51471ca53d16d76ae39bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 11/37] fix: tarfs panicked on implicit directories and on
 duplicate or absolute entry names

Directories needed only to hold an entry had no header, so Lstat, Stat and
ReadDir on them panicked. A directory entry replaced by one of another type
was listed twice, or went missing, and ReadDir could index past its entries.
---
 tarfs/entdir.go | 54 ++++++++++++++++++++++++++++++++-----------------
 tarfs/fs.go     |  7 +++----
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 10bff9f..6af8ceb 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"slices"
 	"strings"
 	"sync"
 	"syscall"
@@ -51,20 +52,13 @@ func (d *dir) addChild(name string, hdr *Section) {
 
 		if !isLastComponent {
 			// Intermediate component - ensure directory exists
-			child, ok := currentDir.files[component]
+			child, ok := currentDir.files[component].(*dir)
 			if !ok {
-				child = &dir{parent: currentDir}
-				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
+				// TODO: warn if this replaces a non-directory?
+				child = newImplicitDir(component, currentDir)
+				currentDir.setChild(component, child)
 			}
-			_, ok = child.(*dir)
-			if !ok {
-				// TODO: warn about this?
-				child = &dir{parent: currentDir}
-				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
-			}
-			currentDir = child.(*dir)
+			currentDir = child
 			// Ensure the child directory has an initialized files map and parent link
 			if currentDir.files == nil {
 				currentDir.files = make(map[string]direntry)
@@ -81,8 +75,8 @@ func (d *dir) addChild(name string, hdr *Section) {
 					dirHandle, ok := existing.(*dir)
 					if !ok {
 						// TODO: warn about this?
-						dirHandle = &dir{parent: currentDir}
-						currentDir.files[component] = dirHandle
+						dirHandle = &dir{h: hdr, parent: currentDir}
+						currentDir.setChild(component, dirHandle)
 					}
 					dirHandle.h = hdr
 					if dirHandle.parent == nil {
@@ -99,13 +93,37 @@ func (d *dir) addChild(name string, hdr *Section) {
 				ent = &file{h: hdr}
 			}
 			if ent != nil {
-				currentDir.files[component] = ent
-				currentDir.ordered = append(currentDir.ordered, ent)
+				currentDir.setChild(component, ent)
 			}
 		}
 	}
 }
 
+// newImplicitDir returns a directory which is not listed in the archive
+// but is needed to hold an entry beneath it.
+func newImplicitDir(name string, parent *dir) *dir {
+	return &dir{
+		h: &Section{
+			h: &tar.Header{
+				Typeflag: tar.TypeDir,
+				Name:     name + "/",
+				Mode:     0o755,
+			},
+		},
+		parent: parent,
+	}
+}
+
+// setChild registers ent under name, taking over the place of an existing entry if any.
+func (d *dir) setChild(name string, ent direntry) {
+	if existing, ok := d.files[name]; ok {
+		d.ordered[slices.Index(d.ordered, existing)] = ent
+	} else {
+		d.ordered = append(d.ordered, ent)
+	}
+	d.files[name] = ent
+}
+
 func (d *dir) openChild(name string, skipLastComponent bool, fsys *Fs) (direntry, error) {
 	if name == "." {
 		return d, nil
@@ -298,7 +316,7 @@ func (d *openDir) ReadDir(n int) ([]fs.DirEntry, error) {
 		return nil, pathErr("readdir", d.path, fs.ErrClosed)
 	}
 
-	if d.cursor >= len(d.dir.files) {
+	if d.cursor >= len(d.dir.ordered) {
 		if n <= 0 {
 			return nil, nil
 		}
@@ -309,7 +327,7 @@ func (d *openDir) ReadDir(n int) ([]fs.DirEntry, error) {
 		n = len(d.dir.ordered) - d.cursor
 	}
 
-	out := make([]fs.DirEntry, min(n, len(d.dir.files)-d.cursor))
+	out := make([]fs.DirEntry, min(n, len(d.dir.ordered)-d.cursor))
 	for i := range out {
 		out[i] = fs.FileInfoToDirEntry(d.dir.ordered[d.cursor].header().h.FileInfo())
 		d.cursor++
diff --git a/tarfs/fs.go b/tarfs/fs.go
index cb84efa..d322c94 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -7,7 +7,6 @@ import (
 	"maps"
 	"path"
 	"slices"
-	"strings"
 	"time"
 )
 
@@ -68,9 +67,9 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	delete(headers, ".")
 
 	for _, key := range slices.Sorted(maps.Keys(headers)) {
-		if strings.HasPrefix(key, "..") {
-			// reject paths traversing upward even when tarinsecurepath = 1.
-			// Anyway fs.ValidPath check will reject this.
+		if !fs.ValidPath(key) {
+			// reject absolute paths and paths traversing upward even when tarinsecurepath = 1.
+			// These can never be looked up.
 			continue
 		}
 		switch headers[key].h.Typeflag {
-- 
2.43.0


From 9f15303476ab52c9519bb46b2384a4c9ea02f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 12/37] fix: an archive's links could crash or hang tarfs
 lookups

A symlink resolving to its parent or to itself returned the stale entry whose
open panics, a hardlink to a hardlink panicked at open, and a hardlink whose
target runs through itself recursed without bound.
---
 tarfs/entdir.go      | 22 ++++++++++++----------
 tarfs/enthardlink.go |  5 +++++
 tarfs/fs.go          | 19 ++++++++++++++++---
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 6af8ceb..bdc0bdc 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -148,7 +148,8 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 
 		switch component {
 		case ".":
-			return currentDir, nil
+			currentDirent = currentDir
+			continue
 		case "..":
 			if fsys.isRooted && (currentDir == fsys.root || currentDir == fsys.subRoot) {
 				return nil, pathErr("open", name, fsutil.ErrPathEscapes)
@@ -157,6 +158,7 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 				return nil, pathErr("open", name, fs.ErrNotExist)
 			}
 			currentDir = currentDir.parent
+			currentDirent = currentDir
 			continue
 		}
 
@@ -193,16 +195,16 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 				currentDir = x
 				continue
 			case *hardlink:
-				// This is almost impossible but handle anyway
-				target, err := fsys.resolveHardlink(x)
-				if err != nil {
-					return nil, err
-				}
-				if dirTarget, ok := target.(*dir); ok {
-					currentDir = dirTarget
-					continue
+				// This is almost impossible but handle anyway.
+				// The target may again run through hardlinks, even x itself.
+				if currentResolved >= maxSymlinkResolution {
+					return nil, pathErr("open", name, errdef.ELOOP)
 				}
-				return nil, pathErr("open", name, syscall.ENOTDIR)
+				currentResolved++
+
+				currentDir = fsys.root
+				rest = x.target() + "/" + rest
+				continue
 			default:
 				return nil, pathErr("open", name, syscall.ENOTDIR)
 			}
diff --git a/tarfs/enthardlink.go b/tarfs/enthardlink.go
index bb17e3f..f73950d 100644
--- a/tarfs/enthardlink.go
+++ b/tarfs/enthardlink.go
@@ -3,6 +3,7 @@ package tarfs
 import (
 	"fmt"
 	"io"
+	"path"
 	"syscall"
 )
 
@@ -14,6 +15,10 @@ func (h *hardlink) header() *Section {
 	return h.h
 }
 
+func (h *hardlink) target() string {
+	return path.Clean(h.h.h.Linkname)
+}
+
 func (h *hardlink) open(r io.ReaderAt, path string) openDirentry {
 	// Hard links should not be opened directly - they should be resolved first
 	panic("hardlink.open() should not be called - hardlinks should be resolved before opening")
diff --git a/tarfs/fs.go b/tarfs/fs.go
index d322c94..e0bd599 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -5,9 +5,10 @@ import (
 	"io"
 	"io/fs"
 	"maps"
-	"path"
 	"slices"
 	"time"
+
+	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
 
 var _ fs.FS = (*Fs)(nil)
@@ -98,8 +99,20 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 }
 
 func (fsys *Fs) resolveHardlink(hl *hardlink) (direntry, error) {
-	target := path.Clean(hl.header().Header().Linkname)
-	return fsys.root.openChild(target, false, fsys)
+	// Links are stored with the name of an earlier entry, which may be a hardlink too.
+	const maxHardlinkResolution = 40
+	for range maxHardlinkResolution {
+		target, err := fsys.root.openChild(hl.target(), false, fsys)
+		if err != nil {
+			return nil, err
+		}
+		next, ok := target.(*hardlink)
+		if !ok {
+			return target, nil
+		}
+		hl = next
+	}
+	return nil, pathErr("open", hl.target(), errdef.ELOOP)
 }
 
 func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
-- 
2.43.0


From 59c0c8a30bbff2d55a30d0bfdeeaabec28f42751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 13/37] fix: tarfs lost track of the archive after a contiguous
 file's body

The body of a TypeCont entry was not counted, so the next entry's raw header
was read from archive content: a negative size there looped forever, and an
unvalidated sparse map gave wrong contents.
---
 tarfs/copied_go_std.go | 26 ++++++++++++++++++++++++++
 tarfs/headers.go       | 11 ++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/tarfs/copied_go_std.go b/tarfs/copied_go_std.go
index 6a40fd5..a7fe78e 100644
--- a/tarfs/copied_go_std.go
+++ b/tarfs/copied_go_std.go
@@ -8,6 +8,7 @@ import (
 	"archive/tar"
 	"bytes"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -69,6 +70,31 @@ type (
 	sparseHoles []sparseEntry
 )
 
+// validateSparseEntries reports whether sp is a valid sparse map.
+// It does not matter whether sp represents data fragments or hole fragments.
+func validateSparseEntries(sp []sparseEntry, size int64) bool {
+	// Validate all sparse entries. These are the same checks as performed by
+	// the BSD tar utility.
+	if size < 0 {
+		return false
+	}
+	var pre sparseEntry
+	for _, cur := range sp {
+		switch {
+		case cur.Offset < 0 || cur.Length < 0:
+			return false // Negative values are never okay
+		case cur.Offset > math.MaxInt64-cur.Length:
+			return false // Integer overflow with large length
+		case cur.endOffset() > size:
+			return false // Region extends beyond the actual size
+		case pre.endOffset() > cur.Offset:
+			return false // Regions cannot overlap and must be in order
+		}
+		pre = cur
+	}
+	return true
+}
+
 func invertSparseEntries(src []sparseEntry, size int64) []sparseEntry {
 	dst := src[:0]
 	var pre sparseEntry
diff --git a/tarfs/headers.go b/tarfs/headers.go
index 23a74a3..f76fba1 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -84,7 +84,7 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-				tar.TypeCont, tar.TypeXHeader, tar.TypeXGlobalHeader,
+				tar.TypeXHeader, tar.TypeXGlobalHeader,
 				tar.TypeGNULongName, tar.TypeGNULongLink:
 				// They have size for name.
 				hh.bodyEnd = hh.headerEnd
@@ -152,11 +152,17 @@ func reconstructSparse(r io.ReaderAt, hdr *Section, blk *block) (sparseHoles, er
 		switch flag := blk.toV7().typeFlag()[0]; flag {
 		case tar.TypeXHeader, tar.TypeXGlobalHeader:
 			size := p.parseNumeric(blk.toV7().size())
+			if size < 0 {
+				return nil, tar.ErrHeader
+			}
 			size += (-size) & (blockSize - 1)
 			_, _ = sr.Seek(size, io.SeekCurrent) // read ahead, align to block size
 			continue
 		case tar.TypeGNULongName, tar.TypeGNULongLink:
 			size := p.parseNumeric(blk.toV7().size())
+			if size < 0 {
+				return nil, tar.ErrHeader
+			}
 			size += (-size) & (blockSize - 1)
 			_, _ = sr.Seek(size, io.SeekCurrent)
 			continue
@@ -176,6 +182,9 @@ func handleSparseFile(sr io.Reader, hdr *Section, rawHdr *block) (sparseHoles, e
 	}
 
 	if err == nil && spd != nil {
+		if !validateSparseEntries(spd, hdr.h.Size) {
+			return nil, tar.ErrHeader
+		}
 		return invertSparseEntries(spd, hdr.h.Size), nil
 	}
 
-- 
2.43.0


From 1febe9c64c03f07a28def0072f09af2e7fbfc5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 14/37] fix: WalkDir followed links below an absolute symlink
 without spending its budget

The real path is lost below an absolute link, and where files have no
identity either a link back to an ancestor was followed over and over.
---
 vroot/walk.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index b996b39..b88722d 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
+	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
 
 var (
@@ -127,13 +128,20 @@ func walkDir_[F File, Fsys Fs[F]](
 			realPath_ string
 		)
 		info, err = fsys.Stat(path)
-		if err == nil && realPath != "" {
-			var numResolved int
-			realPath_, numResolved, err = fsutil.ResolveSymlink(
-				fsys,
-				realPath,
-				state.symlinkResolveRemaining,
-			)
+		if err == nil {
+			// The real path is lost below an absolute link; the link still counts,
+			// since without the real path a loop may not be detectable.
+			numResolved := 1
+			switch {
+			case realPath != "":
+				realPath_, numResolved, err = fsutil.ResolveSymlink(
+					fsys,
+					realPath,
+					state.symlinkResolveRemaining,
+				)
+			case state.symlinkResolveRemaining <= 0:
+				err = fsutil.WrapPathErr("walk", path, errdef.ELOOP)
+			}
 			state.symlinkResolveRemaining -= numResolved
 			defer func() {
 				state.symlinkResolveRemaining += numResolved
-- 
2.43.0


From 45ccd547e04bd1b57927d881ab12c2ffb72e9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 15/37] fix: overlayfs directory handles answered Stat, Seek
 and Sync after Close

---
 vroot-adapter/overlayfs/file.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/file.go b/vroot-adapter/overlayfs/file.go
index f794fe0..f81ee91 100644
--- a/vroot-adapter/overlayfs/file.go
+++ b/vroot-adapter/overlayfs/file.go
@@ -140,12 +140,22 @@ func (d *mergedDir) Fd() uintptr {
 func (d *mergedDir) Stat() (fs.FileInfo, error) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
+	if d.closed {
+		return nil, fsutil.WrapPathErr("stat", d.name, fs.ErrClosed)
+	}
 	return d.inner.Stat()
 }
 
 // Sync reports success without reaching the layer, as synthfs does: a directory
 // handle here is a listing and a cursor, and there is nothing of it to flush.
-func (d *mergedDir) Sync() error { return nil }
+func (d *mergedDir) Sync() error {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	if d.closed {
+		return fsutil.WrapPathErr("sync", d.name, fs.ErrClosed)
+	}
+	return nil
+}
 
 func (d *mergedDir) Close() error {
 	d.mu.Lock()
@@ -249,6 +259,9 @@ func (d *mergedDir) Readdirnames(n int) ([]string, error) {
 func (d *mergedDir) Seek(offset int64, whence int) (int64, error) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
+	if d.closed {
+		return 0, fsutil.WrapPathErr("seek", d.name, fs.ErrClosed)
+	}
 	switch whence {
 	case io.SeekStart:
 		if offset != 0 {
-- 
2.43.0


From 8bffb7c64896364aa5d7991abac6eebb56674aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 16/37] fix: a short last reader of MultiReadAtSeekCloser ended
 in a clean EOF

---
 stream/multi_read_at_closer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/multi_read_at_closer.go b/stream/multi_read_at_closer.go
index af3e5ca..957a3fd 100644
--- a/stream/multi_read_at_closer.go
+++ b/stream/multi_read_at_closer.go
@@ -163,7 +163,8 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > r.idx:
+	case err == io.EOF && (int64(n) < rem || len(r.r)-1 > r.idx):
+		// not the end yet, or a short reader which the next call reports as such.
 		err = nil
 	}
 
@@ -248,7 +249,8 @@ func (r *multiReadAtSeekCloser) readAt(p []byte, off int64) (n int, err error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > i:
+	case err == io.EOF && (int64(n) < rem || len(r.r)-1 > i):
+		// not the end yet, or a short reader which the next call reports as such.
 		err = nil
 	}
 	return n, err
-- 
2.43.0


From 9de3c8ee11956a621782e4746a72292ac5b96330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 17/37] fix: ReadDir with a huge count panicked once the
 directory cursor had moved

---
 vroot-adapter/overlayfs/file.go | 2 +-
 vroot/synthfs/handle_dir.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/overlayfs/file.go b/vroot-adapter/overlayfs/file.go
index f81ee91..0bc393b 100644
--- a/vroot-adapter/overlayfs/file.go
+++ b/vroot-adapter/overlayfs/file.go
@@ -206,7 +206,7 @@ func (d *mergedDir) readEntries(n int) ([]fs.DirEntry, error) {
 		return nil, io.EOF
 	}
 	end := len(d.entries)
-	if n > 0 && d.cursor+n < end {
+	if n > 0 && n < end-d.cursor {
 		end = d.cursor + n
 	}
 	out := slices.Clone(d.entries[d.cursor:end])
diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index 0cadb53..803d2bc 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -151,7 +151,7 @@ func (h *dirHandle) readEntries(n int) ([]stat, error) {
 		return nil, io.EOF
 	}
 	end := len(all)
-	if n > 0 && h.cursor+n < end {
+	if n > 0 && n < end-h.cursor {
 		end = h.cursor + n
 	}
 	out := make([]stat, 0, end-h.cursor)
-- 
2.43.0


From feae90d1b1281fbabba68302cce25dcba931a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 18/37] fix: httprange printed credentials of a URL missing its
 slashes

---
 stream/httprange/redact.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 207ea62..cbe2116 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -14,6 +14,9 @@ const redactedURLPlaceholder = "[redacted url]"
 // query and fragment.
 func redactURL(u *url.URL) string {
 	redacted := *u
+	// An opaque part is whatever followed a scheme with no slashes after it,
+	// which holds the userinfo and query of a URL that merely lost its slashes.
+	redacted.Opaque = ""
 	redacted.User = nil
 	redacted.RawQuery = ""
 	redacted.ForceQuery = false
-- 
2.43.0


From 3f11785c9370ce941e5e2f5758c5aba8f119ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 19/37] fix: fileserver errors printed a URL that does not
 parse in full

---
 stream/fileserver/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 6c90fc5..9355137 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -126,9 +126,11 @@ func redactURLError(err error) error {
 	if !errors.As(err, &ue) {
 		return err
 	}
-	// Parse and redact the URL embedded in the *url.Error.
-	redacted := ue.URL
+	// Parse and redact the URL embedded in the *url.Error. A URL that does not
+	// parse can still carry a credential, so nothing of it is echoed back.
+	redacted := "[redacted url]"
 	if u, parseErr := url.Parse(ue.URL); parseErr == nil {
+		u.Opaque = ""
 		u.User = nil
 		u.RawQuery = ""
 		u.Fragment = ""
-- 
2.43.0


From f29685d583be2c23b477aefbb00bd039a3ad86df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 20/37] fix: fileserver took a partial response starting at
 another offset for the content asked for

---
 stream/fileserver/client.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 9355137..8b5e445 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -194,7 +194,12 @@ func (c *HTTPClient) Get(
 
 	case http.StatusPartialContent: // 206
 		// Total size is in Content-Range: bytes <from>-<to>/<total>.
-		total, err := parseTotalFromContentRange(resp.Header.Get("Content-Range"))
+		// A range starting anywhere but at offset is not the content asked for.
+		contentRange := resp.Header.Get("Content-Range")
+		total, err := parseTotalFromContentRange(contentRange)
+		if err == nil && !startsAt(contentRange, offset) {
+			err = fmt.Errorf("%q does not start at offset %d", contentRange, offset)
+		}
 		if err != nil {
 			_, _ = io.Copy(io.Discard, resp.Body)
 			_ = resp.Body.Close()
@@ -291,6 +296,14 @@ func (c *HTTPClient) Put(
 	return nil
 }
 
+// startsAt reports whether the range of a Content-Range header value starts at
+// offset.
+func startsAt(contentRange string, offset int64) bool {
+	first, _, _ := strings.Cut(strings.TrimPrefix(contentRange, "bytes "), "-")
+	start, err := strconv.ParseInt(strings.TrimSpace(first), 10, 64)
+	return err == nil && start == offset
+}
+
 // parseTotalFromContentRange parses the total size from a Content-Range
 // header value of the form "bytes <from>-<to>/<total>".
 func parseTotalFromContentRange(s string) (int64, error) {
-- 
2.43.0


From 5bf6c0a465fb5756d8a8749e4fccc0005d6428e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 21/37] fix: ChunkedSink.Append reported success after a reader
 that ended inside the last chunk

---
 stream/fileserver/chunk.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stream/fileserver/chunk.go b/stream/fileserver/chunk.go
index ab7d168..116e21d 100644
--- a/stream/fileserver/chunk.go
+++ b/stream/fileserver/chunk.go
@@ -270,10 +270,9 @@ func (s *ChunkedSink) Append(
 				"ChunkedSink Append chunk %d: spool: %w", i, err,
 			)
 		}
-		// For the last chunk a short read (written < expected) is valid only
-		// if the source is exhausted. If this is not the last chunk and we
-		// got fewer bytes, the reader was truncated.
-		if written < expected && i < nChunks-1 {
+		// expected is the remainder for the last chunk, so fewer bytes than
+		// that mean a truncated reader whichever chunk this is.
+		if written < expected {
 			cleanup()
 			return fmt.Errorf(
 				"ChunkedSink Append chunk %d: short read: got %d, want %d",
-- 
2.43.0


From 41066e2c3e880ddc6b19e26b8c35c863db4a813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 22/37] fix: CopyFsOption dropped the error of closing a copied
 file

---
 fsutil/copy_fs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 748b875..90c78c6 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -213,7 +213,6 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		if err != nil {
 			return err
 		}
-		defer dstFile.Close()
 
 		// Copy content using io.CopyBuffer
 		bufP := bufpool.GetBytes()
@@ -221,9 +220,14 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 
 		buf := *bufP
 		_, err = io.CopyBuffer(dstFile, srcFile, buf)
+		// Close may report a write that only failed once flushed.
+		cerr := dstFile.Close()
 		if err != nil {
 			return err
 		}
+		if cerr != nil {
+			return cerr
+		}
 
 	case info.Mode()&fs.ModeSymlink != 0:
 		// Handle symlink if src supports ReadLink and dst supports Symlink
-- 
2.43.0


From fdc25cb88becff18c5cc05ea62cf81c68fd133a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 23/37] fix: MkdirRandom left its directory behind when opening
 it failed

---
 fsutil/open_random.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fsutil/open_random.go b/fsutil/open_random.go
index 28e6363..64258cf 100644
--- a/fsutil/open_random.go
+++ b/fsutil/open_random.go
@@ -67,7 +67,15 @@ func MkdirRandom[FS interface {
 			if err != nil {
 				return *new(File), err
 			}
-			return fsys.OpenFile(name, os.O_RDONLY, 0)
+			f, err := fsys.OpenFile(name, os.O_RDONLY, 0)
+			if err != nil {
+				// The caller never learns the name: do not leave the directory behind.
+				if r, ok := any(fsys).(RemoveFs); ok {
+					_ = r.Remove(name)
+				}
+				return *new(File), err
+			}
+			return f, nil
 		},
 	)
 }
-- 
2.43.0


From ea94bab7789c0dce1667965a018be2e12066034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 24/37] fix: Pull did not check the ETag of a source opened
 again from the start

---
 fsutil/resumable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 7dfa772..d7ef2ff 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -351,6 +351,10 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 			if err != nil {
 				return WrapPathErr("open-source", name, err)
 			}
+			if expected.ETag != "" && srcInfo.ETag != "" && srcInfo.ETag != expected.ETag {
+				_ = r.Close()
+				return WrapPathErr("pull", name, ErrContentChanged)
+			}
 			startAt = 0
 		}
 	}
-- 
2.43.0


From fa8a4c4c44011ea0daf827a321c69ac32047f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 25/37] fix: a fresh transfer of unknown identity kept a stale
 ETag sidecar

---
 fsutil/resumable.go    | 7 +++++++
 fsutil/resumable_fs.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index d7ef2ff..ccaafa7 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -398,6 +398,13 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 			_ = partFile.Close()
 			return WrapPathErr("write-sidecar", sidecarPath, serr)
 		}
+	} else if effectiveETag == "" && startAt == 0 {
+		// Content of unknown identity must not inherit that of an earlier attempt.
+		serr := fsys.Remove(sidecarPath)
+		if serr != nil && !errors.Is(serr, fs.ErrNotExist) {
+			_ = partFile.Close()
+			return WrapPathErr("remove-sidecar", sidecarPath, serr)
+		}
 	}
 
 	if startAt > 0 {
diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index 37164c4..c497524 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -261,6 +261,13 @@ func (s *FsSink[Fsys, File]) Append(
 			_ = f.Close()
 			return WrapPathErr("write-sidecar", s.sidecarPath(), werr)
 		}
+	} else if offset == 0 {
+		// Content of unknown identity must not inherit that of an earlier attempt.
+		rerr := s.fsys.Remove(s.sidecarPath())
+		if rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
+			_ = f.Close()
+			return WrapPathErr("remove-sidecar", s.sidecarPath(), rerr)
+		}
 	}
 
 	_, copyErr := io.Copy(f, r)
-- 
2.43.0


From cc3f0ba0b94c54b6083fe178538f9d498a0d162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:12 +0000
Subject: [PATCH 26/37] fix: Push committed truncated content when the file
 shrank while it was sent

---
 fsutil/resumable.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index ccaafa7..cfbb07b 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -523,11 +523,15 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 		}
 	}
 
-	lr := io.LimitReader(f, actualSize-offset)
+	lr := &io.LimitedReader{R: f, N: actualSize - offset}
 	ctxR := &ctxReader{ctx: ctx, r: lr}
 	if aerr := sink.Append(ctx, info, offset, ctxR); aerr != nil {
 		return WrapPathErr("push-append", name, aerr)
 	}
+	if lr.N > 0 {
+		// The file shrank under us: committing would publish truncated content.
+		return WrapPathErr("push-append", name, io.ErrUnexpectedEOF)
+	}
 
 	// Step 6: commit.
 	return sink.Commit(ctx)
-- 
2.43.0


From 4a2a7e117fffbd3b6ccf82e560bf35bce9e48c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 27/37] fix: overlay rename records its masking before lower
 content can resurface

---
 vroot-adapter/overlayfs/rename.go | 45 ++++++++++++++++++++++--------
 vroot-adapter/overlayfs/state.go  | 46 ++++++++-----------------------
 2 files changed, 45 insertions(+), 46 deletions(-)

diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 2e37518..46d0d55 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -77,6 +77,18 @@ func (f *Fs) rename(oldname string, newname string) error {
 		return err
 	}
 
+	whiteouts, opaques := f.state.maskedUnder(oldFull)
+
+	// The whiteout is recorded before the top gives the old name up, as [Fs.unlink]
+	// does: the other order leaves a window, when the store write fails, in which
+	// the lower copy has resurfaced next to the moved one. Until the move it hides
+	// nothing the caller could see, since the top holds the name itself.
+	if maskOld {
+		if err := f.state.setWhiteout(oldFull); err != nil {
+			return err
+		}
+	}
+
 	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
 		return err
 	}
@@ -84,13 +96,19 @@ func (f *Fs) rename(oldname string, newname string) error {
 	// Whatever stood at the new name is gone, and the marks describing it go with
 	// it — the whiteout a removal there left included, which is what lets a name
 	// be renamed onto one that was deleted.
-	if err := f.state.clearSubtree(newFull); err != nil {
-		return err
-	}
-	if err := f.state.renameSubtree(oldFull, newFull); err != nil {
-		return err
-	}
-	if oldRes.info.IsDir() {
+	if !oldRes.info.IsDir() {
+		if err := f.state.clearSubtree(newFull); err != nil {
+			return err
+		}
+	} else {
+		// Pruned by a whiteout on the new name rather than mark by mark: it keeps
+		// what the layers below hold there hidden until the opaque mark stands.
+		if err := f.state.setWhiteout(newFull); err != nil {
+			return err
+		}
+		if err := f.state.renameSubtree(oldFull, newFull, whiteouts, opaques); err != nil {
+			return err
+		}
 		// The reference's create_missing_whiteouts, in the store's own terms: it
 		// walks the layers below at the destination and drops a whiteout file
 		// inside the moved directory for every entry they show that the moved
@@ -103,13 +121,16 @@ func (f *Fs) rename(oldname string, newname string) error {
 		if err := f.state.setOpaque(newFull); err != nil {
 			return err
 		}
+		if err := f.state.clearWhiteout(newFull); err != nil {
+			return err
+		}
 	}
 	if maskOld {
-		// setWhiteout drops the old name's own opaque mark and everything recorded
-		// under it, which renameSubtree has already moved out of the way. A
-		// whiteout at the new name is not needed however the layers below stand:
-		// the top now holds content there, and content in the top shadows them.
-		return f.state.setWhiteout(oldFull)
+		// Recorded before the move, which also dropped the old name's own opaque
+		// mark and everything recorded under it. A whiteout at the new name is not
+		// needed however the layers below stand: the top now holds content there,
+		// and content in the top shadows them.
+		return nil
 	}
 	return f.state.clearSubtree(oldFull)
 }
diff --git a/vroot-adapter/overlayfs/state.go b/vroot-adapter/overlayfs/state.go
index badecbd..d525728 100644
--- a/vroot-adapter/overlayfs/state.go
+++ b/vroot-adapter/overlayfs/state.go
@@ -211,36 +211,24 @@ func (s *overlayState) clearSubtree(name string) error {
 	return nil
 }
 
-// renameSubtree moves what the top records strictly under oldDir to the matching
-// names under newDir. The marks on oldDir itself are left alone: a rename decides
-// those from what the layers below still show at either end, which this cannot
-// see.
+// renameSubtree records at the names under newDir the marks a rename found under
+// oldDir. The marks on and under oldDir are left alone: a rename decides those
+// from what the layers below still show there, which this cannot see.
 //
 // The reference gets this for free — its whiteouts are files inside the directory
 // being renamed, so one renameat carries them along (C main.c:4864 @ 4759abd).
 // Rows keyed by full path (D19) do not move with the tree, so they are moved
-// here, composed from the four single-name mutators the store contract offers.
+// here, composed from the single-name mutators the store contract offers.
 //
-// The new marks go on before the old ones come off. A store failure part-way
-// then leaves the subtree masked at both ends rather than at neither: masking a
-// name twice hides content that is there, masking it nowhere shows content that
-// was meant to be gone, and only the second is a wrong answer the caller cannot
-// tell from a right one.
-//
-// Within the set pass, whiteouts are replayed before opaques and each kind
-// shallowest first, so a whiteout landing on an ancestor of a mark still to come
-// prunes only what the store contract says it should — nothing is recorded
-// strictly under a whiteout to begin with, [MetadataStore.SetWhiteout] dropping
-// that subtree. The clear pass that follows takes none of the set pass back, and
-// neither does that same subtree drop, the two trees being disjoint: [Fs.rename]
-// refuses a destination equal to the source or inside it, and
-// [Fs.renameTargetCheck] refuses one the merged view still shows any entry in.
-func (s *overlayState) renameSubtree(oldDir string, newDir string) error {
+// Whiteouts are replayed before opaques and each kind shallowest first, so a
+// whiteout landing on an ancestor of a mark still to come prunes only what the
+// store contract says it should — nothing is recorded strictly under a whiteout
+// to begin with, [MetadataStore.SetWhiteout] dropping that subtree.
+func (s *overlayState) renameSubtree(
+	oldDir string, newDir string,
+	whiteouts []string, opaques []string,
+) error {
 	oldDir, newDir = cleanName(oldDir), cleanName(newDir)
-	whiteouts, opaques := s.maskedUnder(oldDir)
-	if len(whiteouts) == 0 && len(opaques) == 0 {
-		return nil
-	}
 	rebase := func(n string) string {
 		return childName(newDir, strings.TrimPrefix(strings.TrimPrefix(n, oldDir), "/"))
 	}
@@ -254,16 +242,6 @@ func (s *overlayState) renameSubtree(oldDir string, newDir string) error {
 			return err
 		}
 	}
-	for _, n := range whiteouts {
-		if err := s.clearWhiteout(n); err != nil {
-			return err
-		}
-	}
-	for _, n := range opaques {
-		if err := s.clearOpaque(n); err != nil {
-			return err
-		}
-	}
 	return nil
 }
 
-- 
2.43.0


From 7fc8e5bbc22c1003284634578e9cc49605cc5773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:31 +0000
Subject: [PATCH 28/37] fix: tarfs read a sparse file as if it had no holes
 when its map could not be read

---
 tarfs/headers.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index f76fba1..6089e51 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -80,7 +80,12 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 				hh.headerStart = prev.bodyEnd + (-prev.bodyEnd)&(blockSize-1)
 			}
 
-			hh.holes, _ = reconstructSparse(r, hh, &blk)
+			hh.holes, err = reconstructSparse(r, hh, &blk)
+			if err != nil {
+				// Without the map a sparse file can not be told from one having no holes.
+				yield(nil, fmt.Errorf("read tar archive: %w", err))
+				return
+			}
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-- 
2.43.0


From f41ac1a9fe1df1e67e5a25289d83dbe871b74d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 29/37] fix: tarfs took any entry named "." for its root
 directory

---
 tarfs/fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index e0bd599..fc969c0 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -50,7 +50,7 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 		isRooted: opt.IsRooted,
 	}
 
-	if rootHeader, ok := headers["."]; ok {
+	if rootHeader, ok := headers["."]; ok && rootHeader.h.Typeflag == tar.TypeDir {
 		fsys.subRoot = &dir{h: rootHeader}
 	} else {
 		// Is it even possible?
-- 
2.43.0


From 94f3adab7f811fecc8a42d21f7ca0e3b6c0377a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 30/37] fix: synthfs AddFS took an unknown AddDecision for an
 override, dropping links unreleased

---
 vroot/synthfs/add.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 63c1c04..c5ae111 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -152,6 +152,11 @@ func (r *Root) addFSWalk(
 	if cbErr != nil {
 		return cbErr
 	}
+	switch decision {
+	case AddDecisionSkip, AddDecisionKeep, AddDecisionOverride:
+	default:
+		return fsutil.WrapPathErr("AddFS", mountSlash, errors.New("synthfs: unknown AddDecision"))
+	}
 
 	switch {
 	case info.IsDir():
-- 
2.43.0


From dda177e077046f4f8a8cc23af053cb431807e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 31/37] fix: synthfs AddFS added a leaf the callback said to
 keep out

---
 vroot/synthfs/add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index c5ae111..b9d9c69 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -194,7 +194,7 @@ func (r *Root) addFSWalk(
 			dst.removeEntry(base)
 			r.removeSubtree(existingNode)
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
+		if decision == AddDecisionKeep {
 			return nil
 		}
 		dst.addEntry(base, &symlink{
@@ -214,7 +214,7 @@ func (r *Root) addFSWalk(
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
+		if decision == AddDecisionKeep {
 			_ = view.Close()
 			return nil
 		}
-- 
2.43.0


From d57835f943b0dcd8c21f61fa93f21b09f0b27d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 32/37] fix: synthfs AddFile and AddFS replaced a dangling
 symlink on the way by a directory

---
 vroot/synthfs/add.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index b9d9c69..a951c52 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -321,6 +321,10 @@ func (r *Root) ensureParents(name, op string) (*dir, string, error) {
 			if perr != nil {
 				return nil, "", perr
 			}
+			if pParent.lookup(pBase) != nil {
+				// a symlink to what does not exist
+				return nil, "", err
+			}
 			d := newDir(pBase, scaffoldDirMode&^r.st.opt.umask, r.st.opt.clock.Now(), pParent)
 			pParent.addEntry(pBase, d)
 			parent = d
-- 
2.43.0


From d3d6fff986294fa0ea162c936d358cb760fc4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 33/37] fix: synthfs Rename replaced a file by a directory and
 a directory by a file

---
 vroot/synthfs/rename.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index ea0e9bd..e144a23 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -3,6 +3,7 @@ package synthfs
 import (
 	"errors"
 	"io/fs"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
@@ -40,7 +41,14 @@ func (r *Root) Rename(oldname, newname string) error {
 	if existing := newParent.lookup(newBase); existing != nil {
 		// POSIX rename replaces; emulate that for files. Refuse to overwrite
 		// a non-empty directory to keep the operation safe under any platform.
-		if d, ok := existing.(*dir); ok && d.ordered.Len() > 0 {
+		d, ok := existing.(*dir)
+		if _, isDir := target.(*dir); isDir != ok {
+			if ok {
+				return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EISDIR)
+			}
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.ENOTDIR)
+		}
+		if ok && d.ordered.Len() > 0 {
 			return fsutil.WrapLinkErr("rename", oldname, newname, errdef.ENOTEMPTY)
 		}
 		newParent.removeEntry(newBase)
-- 
2.43.0


From f23e29d98919416ce32eeb6a08d6f39a04a51004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 34/37] fix: synthfs directory handles page through a snapshot
 of the entries

---
 vroot/synthfs/handle_dir.go | 46 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index 803d2bc..5fa8cab 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -20,9 +20,10 @@ type dirHandle struct {
 	node *dir
 	name string // user-facing, OS-form path
 
-	mu     sync.Mutex
-	closed bool
-	cursor int
+	mu      sync.Mutex
+	closed  bool
+	cursor  int
+	entries []stat // snapshot cursor points into, nil until first needed
 }
 
 var _ vroot.File = (*dirHandle)(nil)
@@ -109,6 +110,7 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 			)
 		}
 		h.cursor = 0
+		h.entries = nil
 	case io.SeekCurrent:
 		if offset != 0 {
 			return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrInvalid)
@@ -121,9 +123,8 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 				fmt.Errorf("positive offset %d: %w", offset, fs.ErrInvalid),
 			)
 		}
-		h.st.mu.RLock()
-		h.cursor = h.node.ordered.Len()
-		h.st.mu.RUnlock()
+		h.load()
+		h.cursor = len(h.entries)
 	default:
 		return 0, fsutil.WrapPathErr(
 			"seek",
@@ -134,30 +135,41 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	return 0, nil
 }
 
+// load takes the snapshot of the entries, once per rewind, so that entries added
+// or removed between two reads do not shift the ones not read yet. The stats are
+// taken under the state lock, so they are safe to use outside of it. Caller holds
+// h.mu.
+func (h *dirHandle) load() {
+	if h.entries != nil {
+		return
+	}
+	h.st.mu.RLock()
+	defer h.st.mu.RUnlock()
+	all := h.node.entriesSnapshot()
+	h.entries = make([]stat, 0, len(all))
+	for _, nd := range all {
+		h.entries = append(h.entries, entryStat(nd))
+	}
+}
+
 // readEntries advances the cursor by up to n entries; n<=0 means "until end."
-// Caller holds h.mu; the returned stats are taken under the state lock, so they
-// are safe to use outside of it.
+// Caller holds h.mu.
 func (h *dirHandle) readEntries(n int) ([]stat, error) {
 	if h.closed {
 		return nil, fsutil.WrapPathErr("readdir", h.name, fs.ErrClosed)
 	}
-	h.st.mu.RLock()
-	defer h.st.mu.RUnlock()
-	all := h.node.entriesSnapshot()
-	if h.cursor >= len(all) {
+	h.load()
+	if h.cursor >= len(h.entries) {
 		if n <= 0 {
 			return nil, nil
 		}
 		return nil, io.EOF
 	}
-	end := len(all)
+	end := len(h.entries)
 	if n > 0 && n < end-h.cursor {
 		end = h.cursor + n
 	}
-	out := make([]stat, 0, end-h.cursor)
-	for _, nd := range all[h.cursor:end] {
-		out = append(out, entryStat(nd))
-	}
+	out := h.entries[h.cursor:end]
 	h.cursor = end
 	return out, nil
 }
-- 
2.43.0


From 12a50a4460861a7e080a42524a1e43b84df0b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 35/37] fix: leave vanished entries out of expandedFile.Readdir
 instead of returning nil infos

---
 vroot/iofs_from.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vroot/iofs_from.go b/vroot/iofs_from.go
index 97bd22b..a9f77bb 100644
--- a/vroot/iofs_from.go
+++ b/vroot/iofs_from.go
@@ -216,16 +216,19 @@ func (f *expandedFile) Readdir(n int) ([]fs.FileInfo, error) {
 		return nil, err
 	}
 
-	infos := make([]fs.FileInfo, len(entries))
-	for i, entry := range entries {
+	infos := make([]fs.FileInfo, 0, len(entries))
+	for _, entry := range entries {
 		info, err := entry.Info()
-		if err != nil && !errors.Is(err, fs.ErrNotExist) {
-			// Info ≈ Lstat; a concurrent removal between ReadDir and Info is
-			// tolerated by suppressing fs.ErrNotExist, mirroring how
-			// os.(*File).Readdir behaves with disappearing entries.
+		if err != nil {
+			if errors.Is(err, fs.ErrNotExist) {
+				// Info ≈ Lstat; a concurrent removal between ReadDir and Info is
+				// tolerated by leaving the entry out, mirroring how
+				// os.(*File).Readdir behaves with disappearing entries.
+				continue
+			}
 			return nil, err
 		}
-		infos[i] = info
+		infos = append(infos, info)
 	}
 	return infos, nil
 }
-- 
2.43.0


From 8898a96d9f9b16870b4d22401939459e1da9d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:54 +0000
Subject: [PATCH 36/37] fix: aferofs/synth: appends by several handles do not
 overwrite each other

The end of the file was looked up under one lock and written at under another.
---
 aferofs/synth/impl_inmem_file.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/aferofs/synth/impl_inmem_file.go b/aferofs/synth/impl_inmem_file.go
index cc5b79a..a1f21b9 100644
--- a/aferofs/synth/impl_inmem_file.go
+++ b/aferofs/synth/impl_inmem_file.go
@@ -120,7 +120,8 @@ func (f *memFileHandle) Write(p []byte) (n int, err error) {
 	defer f.mu.Unlock()
 
 	if f.flag&os.O_APPEND != 0 {
-		f.off = int64(f.file.Len())
+		n, f.off = f.file.append(p)
+		return n, nil
 	}
 	n, err = f.file.WriteAt(p, f.off)
 	err = wrapErr("write", f.path, err)
@@ -246,6 +247,21 @@ func (f *memFile) WriteAt(p []byte, off int64) (n int, err error) {
 	return
 }
 
+// append writes p at the end of the content as it is found under the lock the
+// write is made under, and reports where the content ends then: handles
+// appending at the same time do not overwrite each other.
+func (f *memFile) append(p []byte) (n int, end int64) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	if len(p) == 0 {
+		// no-op
+		return 0, int64(len(f.content))
+	}
+	f.content = append(f.content, p...)
+	f.modTime = f.clock.Now()
+	return len(p), int64(len(f.content))
+}
+
 func (f *memFile) grow(growth int) {
 	if cap(f.content)-len(f.content) >= growth {
 		f.content = f.content[:len(f.content)+growth]
-- 
2.43.0


From 34752e4742050ef4ea94c4b2ffe3c14034d4b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:54 +0000
Subject: [PATCH 37/37] fix: aferofs/synth: a refused Seek of a directory moves
 nothing

and a seek to the end goes there instead of rewinding, one by zero from the
current position leaves it alone.
---
 aferofs/synth/dir_handle.go | 45 ++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/aferofs/synth/dir_handle.go b/aferofs/synth/dir_handle.go
index f8e08a8..e97c1d2 100644
--- a/aferofs/synth/dir_handle.go
+++ b/aferofs/synth/dir_handle.go
@@ -39,20 +39,29 @@ func (d *dirHandle) ReadAt(p []byte, off int64) (n int, err error) {
 	return 0, errdef.ReadAtIsDir(d.name)
 }
 
+// load takes the snapshot pages are read from. It is called with mu held.
+func (d *dirHandle) load() error {
+	if d.snapshot != nil {
+		return nil
+	}
+	// mimicking Go's behavior of readdir.
+	// On unix, it uses getdents64. It reads dents using 8KiB buffer.
+	// I'm not sure about details, but it does not notice new dir entries are added or removed.
+	// Taking snapshot then keeping it until Seek is called somewhat sounds reasonable to me.
+	snapshot, err := d.dir.ListFileInfo()
+	if err != nil {
+		return err
+	}
+	d.snapshot = snapshot
+	return nil
+}
+
 func (d *dirHandle) Readdir(count int) ([]fs.FileInfo, error) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
-	if d.snapshot == nil {
-		// mimicking Go's behavior of readdir.
-		// On unix, it uses getdents64. It reads dents using 8KiB buffer.
-		// I'm not sure about details, but it does not notice new dir entries are added or removed.
-		// Taking snapshot then keeping it until Seek is called somewhat sounds reasonable to me.
-		snapshot, err := d.dir.ListFileInfo()
-		if err != nil {
-			return []fs.FileInfo{}, err
-		}
-		d.snapshot = snapshot
+	if err := d.load(); err != nil {
+		return []fs.FileInfo{}, err
 	}
 	if count <= 0 || count >= len(d.snapshot[d.off:]) {
 		var err error
@@ -84,10 +93,6 @@ func (d *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
-	// reset anyway
-	d.snapshot = nil
-	d.off = 0
-
 	switch whence {
 	default:
 		return 0, errdef.SeekInval(d.name, fmt.Sprintf("unknown whence: %d", whence))
@@ -95,10 +100,20 @@ func (d *dirHandle) Seek(offset int64, whence int) (int64, error) {
 		if offset < 0 {
 			return 0, errdef.SeekInval(d.name, "negative offset")
 		}
-	case io.SeekCurrent, io.SeekEnd:
+		d.snapshot = nil
+		d.off = 0
+	case io.SeekCurrent:
+		if offset != 0 {
+			return 0, errdef.SeekInval(d.name, "non-zero offset")
+		}
+	case io.SeekEnd:
 		if offset > 0 {
 			return 0, errdef.SeekInval(d.name, "positive offset")
 		}
+		if err := d.load(); err != nil {
+			return 0, err
+		}
+		d.off = int64(len(d.snapshot))
 	}
 	return 0, nil
 }
-- 
2.43.0

