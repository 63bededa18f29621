From 364c5d0aeb091ba221d7a6fb79792edd4535a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 01/63] fix: removing a missing extended attribute must not
 unreference its name

removexattr() decreased the reference count of the name (and possibly removed
the name) before checking if the inode has that attribute. A failing
removexattr() thus made unrelated directory entries and attributes with the
same name disappear.
---
 src/s3ql/fs.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 8e15a4d..c546979 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -363,17 +363,16 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_].locked:
             raise FUSEError(errno.EPERM)
 
-        try:
-            name_id = self._del_name(name)
-        except NoSuchRowError:
-            raise FUSEError(pyfuse3.ENOATTR)
-
         changes = self.db.execute(
-            'DELETE FROM ext_attributes WHERE inode=? AND name_id=?', (id_, name_id)
+            'DELETE FROM ext_attributes WHERE inode=? '
+            'AND name_id=(SELECT id FROM names WHERE name=?)',
+            (id_, name),
         )
         if changes == 0:
             raise FUSEError(pyfuse3.ENOATTR)
 
+        # Only drop the reference to the name if there actually was one
+        self._del_name(name)
         self.inodes[id_].ctime_ns = time_ns()
 
     async def lock_tree(self, id0: InodeT) -> None:
-- 
2.43.0


From 82a34e911627c5f5be714c59f52aabae64466608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 02/63] fix: do not count a name twice when an extended
 attribute is overwritten

---
 src/s3ql/fs.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index c546979..ee09112 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -351,10 +351,16 @@ class Operations(pyfuse3.Operations):
             if self.failsafe or self.inodes[id_].locked:
                 raise FUSEError(errno.EPERM)
 
-            self.db.execute(
-                'INSERT OR REPLACE INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
-                (id_, self._add_name(name), value),
+            changes = self.db.execute(
+                'UPDATE ext_attributes SET value=? WHERE inode=? '
+                'AND name_id=(SELECT id FROM names WHERE name=?)',
+                (value, id_, name),
             )
+            if changes == 0:
+                self.db.execute(
+                    'INSERT INTO ext_attributes (inode, name_id, value) VALUES(?, ?, ?)',
+                    (id_, self._add_name(name), value),
+                )
             self.inodes[id_].ctime_ns = time_ns()
 
     async def removexattr(self, id_: InodeT, name: bytes, ctx: RequestContext) -> None:
-- 
2.43.0


From b86c53a161209923651f0c557431bc60d7771f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 03/63] fix: do not leak a lookup when a removal or rename
 fails

unlink(), rmdir(), rename() and remove_tree() look up the affected inodes, but
did not forget them again when the operation failed (e.g. rmdir() of a
directory that is not empty). When such an inode was removed later, it was
never purged while the file system stayed mounted.
---
 src/s3ql/fs.py | 71 +++++++++++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index ee09112..40c275d 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -439,8 +439,15 @@ class Operations(pyfuse3.Operations):
         if self.inodes[id_p0].locked:
             raise FUSEError(errno.EPERM)
 
-        conn = self.db
         id0 = self._lookup(id_p0, name0, ctx=None).id
+        try:
+            await self._remove_tree(id_p0, name0, id0)
+        finally:
+            await self.forget([(id0, 1)])
+        log.debug('finished')
+
+    async def _remove_tree(self, id_p0: InodeT, name0: bytes, id0: InodeT) -> None:
+        conn = self.db
         queue = [id0]  # Directories that we still need to delete
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
@@ -503,9 +510,6 @@ class Operations(pyfuse3.Operations):
             pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
         await self._remove(id_p0, name0, id0, force=True)
 
-        await self.forget([(id0, 1)])
-        log.debug('finished')
-
     async def copy_tree(self, src_id: InodeT, target_id: InodeT) -> None:
         '''Efficiently copy directory tree'''
 
@@ -648,13 +652,15 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        id_ = inode.id
 
-        if stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.EISDIR)
-
-        await self._remove(id_p, name, inode.id)
+        try:
+            if stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.EISDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, id_)
+        finally:
+            await self.forget([(id_, 1)])
 
     async def rmdir(self, id_p: InodeT, name: bytes, ctx: RequestContext) -> None:
         log.debug('started with %d, %r', id_p, name)
@@ -662,16 +668,18 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.EPERM)
 
         inode = self._lookup(id_p, name, ctx)
+        id_ = inode.id
 
-        if self.inodes[id_p].locked:
-            raise FUSEError(errno.EPERM)
-
-        if not stat.S_ISDIR(inode.mode):
-            raise FUSEError(errno.ENOTDIR)
+        try:
+            if self.inodes[id_p].locked:
+                raise FUSEError(errno.EPERM)
 
-        await self._remove(id_p, name, inode.id)
+            if not stat.S_ISDIR(inode.mode):
+                raise FUSEError(errno.ENOTDIR)
 
-        await self.forget([(inode.id, 1)])
+            await self._remove(id_p, name, id_)
+        finally:
+            await self.forget([(id_, 1)])
 
     async def _purge_inode(self, id_: InodeT, size: int) -> None:
         '''Remove an inode that has no more references.
@@ -789,24 +797,27 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_p_old].locked or self.inodes[id_p_new].locked:
             raise FUSEError(errno.EPERM)
 
-        inode_old = self._lookup(id_p_old, name_old, ctx)
+        id_old = self._lookup(id_p_old, name_old, ctx).id
+        looked_up = [(id_old, 1)]
 
         try:
-            inode_new = self._lookup(id_p_new, name_new, ctx)
-        except FUSEError as exc:
-            if exc.errno != errno.ENOENT:
-                raise
+            try:
+                id_new = self._lookup(id_p_new, name_new, ctx).id
+            except FUSEError as exc:
+                if exc.errno != errno.ENOENT:
+                    raise
+                else:
+                    target_exists = False
             else:
-                target_exists = False
-        else:
-            target_exists = True
+                target_exists = True
+                looked_up.append((id_new, 1))
 
-        if target_exists:
-            await self._replace(id_p_old, name_old, id_p_new, name_new, inode_old.id, inode_new.id)
-            await self.forget([(inode_old.id, 1), (inode_new.id, 1)])
-        else:
-            self._rename(id_p_old, name_old, id_p_new, name_new)
-            await self.forget([(inode_old.id, 1)])
+            if target_exists:
+                await self._replace(id_p_old, name_old, id_p_new, name_new, id_old, id_new)
+            else:
+                self._rename(id_p_old, name_old, id_p_new, name_new)
+        finally:
+            await self.forget(looked_up)
 
     def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
-- 
2.43.0


From 7dca80718235999f7039f6467eb9cb5a923c02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 04/63] fix: never run two batched transactions, or a metadata
 upload and a transaction, at once

copy_tree(), remove_tree() and lock_tree() keep a transaction open while waiting for other
tasks. A second such command then failed with 'cannot start a transaction within a transaction'
and took the whole mount process down, and a metadata upload could neither checkpoint the
database nor open its second connection.
---
 src/s3ql/database.py | 72 +++++++++++++++++++++++++++++---------------
 src/s3ql/mount.py    |  2 +-
 2 files changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index d392a2d..d0e7e1a 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -193,6 +193,10 @@ class Connection:
         # Set to a trio.Event while inhibit_writes is active, None otherwise.
         self._inhibit_writes_event: trio.Event | None = None
 
+        # Held while a batched transaction is open. Checkpoints and inhibit_writes() need to wait
+        # for the end of the transaction, and there can be only one at a time.
+        self._batch_lock = trio.Lock()
+
         cur = self.conn.cursor()
 
         # We initialize in NORMAL locking mode before entering WAL mode, then switch to
@@ -303,12 +307,18 @@ class Connection:
     async def checkpoint(self) -> None:
         '''Checkpoint the WAL.
 
-        If inhibit_writes() is active, waits until it completes before checkpointing.
+        If inhibit_writes() is active, waits until it completes before checkpointing. Likewise, waits
+        for the end of any batched transaction.
         '''
-        if self._inhibit_writes_event is not None:
-            log.debug('checkpoint: waiting for inhibit_writes to complete')
-            await self._inhibit_writes_event.wait()
-        self._do_checkpoint()
+        while True:
+            if self._inhibit_writes_event is not None:
+                log.debug('checkpoint: waiting for inhibit_writes to complete')
+                await self._inhibit_writes_event.wait()
+            async with self._batch_lock:
+                if self._inhibit_writes_event is not None:
+                    continue
+                self._do_checkpoint()
+                return
 
     def sync_checkpoint(self) -> None:
         '''Checkpoint the WAL synchronously.
@@ -335,21 +345,25 @@ class Connection:
             raise RuntimeError('inhibit_writes is already active')
 
         log.debug('inhibit_writes: starting')
-        self._inhibit_writes_event = trio.Event()
-        sqlite3ext.set_writes_inhibited(True)
-
-        # Switch to NORMAL locking mode temporarily so we can open a second connection.
-        # We need to do a read after changing the mode to actually release the exclusive lock.
-        self.conn.cursor().execute('PRAGMA locking_mode = NORMAL')
-        self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
-
-        # Open a second connection and start a read transaction.
-        # This establishes a WAL "end mark" that prevents checkpointing past this point,
-        # ensuring the main database file stays consistent while we read it.
-        second_conn = apsw.Connection(self.file)
-        second_cur = second_conn.cursor()
-        second_cur.execute('BEGIN DEFERRED')
-        second_cur.execute('SELECT 1 FROM sqlite_master LIMIT 1')
+
+        # The exclusive lock cannot be given up while there is an open transaction. (It is fine if a
+        # new transaction is started afterwards).
+        async with self._batch_lock:
+            self._inhibit_writes_event = trio.Event()
+            sqlite3ext.set_writes_inhibited(True)
+
+            # Switch to NORMAL locking mode temporarily so we can open a second connection.
+            # We need to do a read after changing the mode to actually release the exclusive lock.
+            self.conn.cursor().execute('PRAGMA locking_mode = NORMAL')
+            self.conn.cursor().execute('SELECT 1 FROM sqlite_master LIMIT 1')
+
+            # Open a second connection and start a read transaction.
+            # This establishes a WAL "end mark" that prevents checkpointing past this point,
+            # ensuring the main database file stays consistent while we read it.
+            second_conn = apsw.Connection(self.file)
+            second_cur = second_conn.cursor()
+            second_cur.execute('BEGIN DEFERRED')
+            second_cur.execute('SELECT 1 FROM sqlite_master LIMIT 1')
 
         log.debug('inhibit_writes: active, writes to main DB file will be rejected')
 
@@ -622,12 +636,23 @@ class BatchedTransactionManager:
         traceback: TracebackType | None,
     ) -> None:
         if self.in_tx:
+            self._commit()
+
+    def _commit(self) -> None:
+        try:
             self.conn.execute('COMMIT')
+        finally:
             self.in_tx = False
+            self.conn._batch_lock.release()
 
     async def start_batch(self) -> None:
-        self.stamp = time.time()
-        self.conn.execute('BEGIN TRANSACTION')
+        await self.conn._batch_lock.acquire()
+        try:
+            self.stamp = time.time()
+            self.conn.execute('BEGIN TRANSACTION')
+        except BaseException:
+            self.conn._batch_lock.release()
+            raise
         self.in_tx = True
 
     async def finish_batch(self, processed: int) -> None:
@@ -636,8 +661,7 @@ class BatchedTransactionManager:
         if not self.in_tx:
             raise RuntimeError('No active batch')
 
-        self.conn.execute('COMMIT')
-        self.in_tx = False
+        self._commit()
         await self.conn.checkpoint()
         dt = time.time() - self.stamp
         self.batch_size = max(
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 2b23796..97d5d7c 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -739,7 +739,7 @@ class MetadataUploadTask:
 
             # Upload twice without blocking writes, to reduce the amount of data left for
             # the final upload (which is needed for a consistent snapshot).
-            self.db.sync_checkpoint()
+            await self.db.checkpoint()
             for _ in range(2):
                 await upload_metadata(
                     self.backend,
-- 
2.43.0


From a74dd5894f02f7a9b32c754977fee19092ee5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 05/63] fix: do not keep a directory query open while
 copy_tree() waits for uploads

Other tasks may remove entries meanwhile; copying an inode or name that is already gone
crashed the mount process or left references to missing names.
---
 src/s3ql/fs.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 40c275d..36a8dbb 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -542,6 +542,8 @@ class Operations(pyfuse3.Operations):
 
         queue: list[tuple[InodeT, InodeT, int]] = [(src_id, tmp.id, -1)]
         id_cache: dict[InodeT, InodeT] = dict()
+        flush_id: InodeT | None = None  # inode that needs to be flushed before it can be copied
+        flushed_id: InodeT | None = None  # inode that was just flushed
 
         # Batching updates makes things much faster when using WAL. We don't want to rollback on
         # error, because in that case the database gets out of sync with the inode cache (which
@@ -560,9 +562,13 @@ class Operations(pyfuse3.Operations):
                     for row in res:
                         name_id = cast(int, row[0])
                         id_ = cast(InodeT, row[1])
-                        # Make sure that all blocks are in the database
-                        if id_ in self.open_inodes:
-                            await self.cache.start_flush(id_)
+                        # Make sure that all blocks are in the database. Other tasks may change the
+                        # directory in the meantime, so we can't wait during the active DB query.
+                        if id_ in self.open_inodes and id_ != flushed_id:
+                            flush_id = id_
+                            queue.append((src_id, target_id, name_id - 1))
+                            break
+                        flushed_id = None
 
                         if id_ not in id_cache:
                             inode = self.inodes[id_]
@@ -632,6 +638,11 @@ class Operations(pyfuse3.Operations):
                             queue.append((src_id, target_id, name_id))
                             break
 
+                if flush_id is not None:
+                    await self.cache.start_flush(flush_id)
+                    flushed_id = flush_id
+                    flush_id = None
+
                 if processed >= batch_mgr.batch_size:
                     await batch_mgr.finish_batch(processed)
                     processed = 0
-- 
2.43.0


From 403f13686694d00ea41acb90db15f09c8efb7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 06/63] fix: copy_tree() must also flush dirty blocks of files
 that the kernel has forgotten

Otherwise the copy of a file that was written and closed just before lacked (or had old
contents for) every block that was not uploaded yet.
---
 src/s3ql/block_cache.py | 12 ++++++++++++
 src/s3ql/fs.py          |  5 ++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index 1f0d588..c842ceb 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -850,6 +850,18 @@ class BlockCache:
 
         el.flush()
 
+    def has_dirty_blocks(self, inode: InodeT, end_no: int) -> bool:
+        '''Return True if any block of *inode* before *end_no* needs to be uploaded'''
+
+        if end_no > len(self.cache):
+            return any(el.dirty for el in self.cache.values() if el.inode == inode)
+
+        for blockno in range(end_no):
+            el = self.cache.get((inode, blockno), None)
+            if el is not None and el.dirty:
+                return True
+        return False
+
     async def start_flush(self, inode: InodeT | None = None) -> None:
         """Initiate upload of all dirty blocks
 
diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 36a8dbb..930048e 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -564,7 +564,10 @@ class Operations(pyfuse3.Operations):
                         id_ = cast(InodeT, row[1])
                         # Make sure that all blocks are in the database. Other tasks may change the
                         # directory in the meantime, so we can't wait during the active DB query.
-                        if id_ in self.open_inodes and id_ != flushed_id:
+                        # Dirty blocks may also belong to inodes that the kernel has forgotten already.
+                        if id_ != flushed_id and self.cache.has_dirty_blocks(
+                            id_, int(math.ceil(self.inodes[id_].size / self.max_obj_size))
+                        ):
                             flush_id = id_
                             queue.append((src_id, target_id, name_id - 1))
                             break
-- 
2.43.0


From 8e91e5546b297d01bb9dbf51d6fd3282d870f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 07/63] fix: copy_tree() must not create files with blocks
 beyond their size

When a file is copied while it is being truncated or extended, the blocks in the database
may not match its recorded size (yet). The copy kept that mismatch for good.
---
 src/s3ql/fs.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 930048e..c736326 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -589,6 +589,18 @@ class Operations(pyfuse3.Operations):
 
                             id_new = inode_new.id
 
+                            # If the file is just being written or truncated, there may already (or
+                            # still) be blocks beyond the current file size.
+                            inode_new.size = max(
+                                inode.size,
+                                db.get_int_val_or_none(
+                                    'SELECT MAX(blockno * ? + length) FROM inode_blocks '
+                                    'JOIN objects ON obj_id = id WHERE inode = ?',
+                                    (self.max_obj_size, id_),
+                                )
+                                or 0,
+                            )
+
                             if inode.refcount != 1:
                                 id_cache[id_] = id_new
 
-- 
2.43.0


From 93b85a8626a11676d4964d6569620f4ca1d60b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 08/63] fix: remove_tree() must not remove entries that are
 already gone

While it waits (for uploads or for a checkpoint), other tasks may remove or replace the
entries that it has already read; removing them again corrupted reference counts.
---
 src/s3ql/fs.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index c736326..1af283d 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -472,6 +472,14 @@ class Operations(pyfuse3.Operations):
                 for row in query_chunk:
                     name = cast(bytes, row[0])
                     id_ = cast(InodeT, row[2])
+
+                    # Other tasks may have removed or replaced the entry in the meantime
+                    if not conn.has_val(
+                        'SELECT 1 FROM contents WHERE parent_inode=? AND name_id=? AND inode=?',
+                        (id_p, row[1], id_),
+                    ):
+                        continue
+
                     if conn.has_val('SELECT 1 FROM contents WHERE parent_inode=?', (id_,)):
                         # First delete subdirectories
                         if not reinserted:
@@ -508,6 +516,12 @@ class Operations(pyfuse3.Operations):
             # window in which the file could be looked up again and would also impose a performance
             # penalty for something that is exceedingly rare. Tracked in https://github.com/s3ql/s3ql/issues/319.
             pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
+
+        if not conn.has_val(
+            'SELECT 1 FROM contents_v WHERE parent_inode=? AND name=? AND inode=?',
+            (id_p0, name0, id0),
+        ):
+            raise FUSEError(errno.ENOENT)
         await self._remove(id_p0, name0, id0, force=True)
 
     async def copy_tree(self, src_id: InodeT, target_id: InodeT) -> None:
-- 
2.43.0


From 1630cd7976146d685272d80a0b939a752858d79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 09/63] fix: copy_tree() must cope with a target that is
 removed or filled meanwhile

This crashed the mount process (unique constraint) or left the copy without a parent.
---
 src/s3ql/fs.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 1af283d..fb082c1 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -446,7 +446,9 @@ class Operations(pyfuse3.Operations):
             await self.forget([(id0, 1)])
         log.debug('finished')
 
-    async def _remove_tree(self, id_p0: InodeT, name0: bytes, id0: InodeT) -> None:
+    async def _remove_contents(self, id0: InodeT) -> None:
+        '''Remove everything in directory *id0*'''
+
         conn = self.db
         queue = [id0]  # Directories that we still need to delete
 
@@ -506,6 +508,9 @@ class Operations(pyfuse3.Operations):
                     processed = 0
                     await batch_mgr.start_batch()
 
+    async def _remove_tree(self, id_p0: InodeT, name0: bytes, id0: InodeT) -> None:
+        await self._remove_contents(id0)
+
         if id_p0 in self.open_inodes:
             log.debug('invalidate_entry(%d, %r)', id_p0, name0)
             # This may fail with ENOTEMPTY if the control file has been looked up underneath this
@@ -517,7 +522,7 @@ class Operations(pyfuse3.Operations):
             # penalty for something that is exceedingly rare. Tracked in https://github.com/s3ql/s3ql/issues/319.
             pyfuse3.invalidate_entry_async(id_p0, name0, deleted=id0, ignore_enoent=True)
 
-        if not conn.has_val(
+        if not self.db.has_val(
             'SELECT 1 FROM contents_v WHERE parent_inode=? AND name=? AND inode=?',
             (id_p0, name0, id0),
         ):
@@ -677,6 +682,18 @@ class Operations(pyfuse3.Operations):
                     processed = 0
                     await batch_mgr.start_batch()
 
+        # The target may have been removed or filled in the meantime
+        try:
+            target_exists = self.inodes[target_inode.id].refcount > 0
+        except KeyError:
+            target_exists = False
+        if not target_exists or self.db.has_val(
+            'SELECT 1 FROM contents WHERE parent_inode=?', (target_inode.id,)
+        ):
+            await self._remove_contents(tmp.id)
+            del self.inodes[tmp.id]
+            raise FUSEError(errno.ENOTEMPTY if target_exists else errno.ENOENT)
+
         # Make replication visible
         self.db.execute(
             'UPDATE contents SET parent_inode=? WHERE parent_inode=?', (target_inode.id, tmp.id)
-- 
2.43.0


From 0b30cbb16755795c01132ff540682c33fc26a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 10/63] fix: copy_tree() must copy the extended attributes of
 the source directory itself

---
 src/s3ql/fs.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index fb082c1..58392b5 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -551,6 +551,18 @@ class Operations(pyfuse3.Operations):
             raise FUSEError(errno.ENOENT)
         for attr in ('atime_ns', 'ctime_ns', 'mtime_ns', 'mode', 'uid', 'gid'):
             setattr(target_inode, attr, getattr(src_inode, attr))
+        name_ids = db.get_list(
+            'SELECT name_id FROM ext_attributes WHERE inode=? AND name_id NOT IN '
+            '(SELECT name_id FROM ext_attributes WHERE inode=?)',
+            (src_inode.id, target_inode.id),
+        )
+        for (name_id,) in name_ids:
+            db.execute(
+                'INSERT INTO ext_attributes (inode, name_id, value) '
+                'SELECT ?, name_id, value FROM ext_attributes WHERE inode=? AND name_id=?',
+                (target_inode.id, src_inode.id, name_id),
+            )
+            db.execute('UPDATE names SET refcount=refcount+1 WHERE id=?', (name_id,))
 
         # We first replicate into a dummy inode, so that we
         # need to invalidate only once.
-- 
2.43.0


From 04b600f25506ad8d2f6ac1e1c66d3cf861d68e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 11/63] fix: start_flush() must wait for uploads that other
 tasks are about to register

---
 src/s3ql/block_cache.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index c842ceb..d92199e 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -194,6 +194,8 @@ class BlockCache:
     :block_lock: MultiLock keyed by (inode, blockno) — synchronizes access to cache entries
     :in_flight_uploads: maps obj_id to a `trio.Event` set when the upload of that object
         completes (successfully or not). An entry exists iff an upload is in flight.
+    :_registering: maps the key of a cache entry to a `trio.Event` while the entry is in transit
+        but its object is not registered in the database yet
     :_in_transit_count: number of cache entries whose `in_transit` flag is set
     :_upload_send: channel to distribute upload work to worker tasks
     :_remove_send: channel to distribute removal work to worker tasks
@@ -209,6 +211,7 @@ class BlockCache:
     cache: CacheDict
     block_lock: MultiLock[tuple[InodeT, int]]
     in_flight_uploads: dict[int, trio.Event]
+    _registering: dict[tuple[InodeT, int], trio.Event]
     _in_transit_count: int
     transfer_completed: trio.Condition
     _upload_send: UploadChannelSend
@@ -235,6 +238,7 @@ class BlockCache:
         self.cache = CacheDict(max_size, max_entries)
         self.block_lock = MultiLock()
         self.in_flight_uploads = {}
+        self._registering = {}
         self._in_transit_count = 0
         self.transfer_completed = trio.Condition()
         self._upload_send = upload_send
@@ -450,11 +454,13 @@ class BlockCache:
             log.debug('uploading %s..', el)
             self._mark_in_transit(el)
             set_in_transit = True
+            self._registering[el.key] = trio.Event()
             el.seek(0)
             sha = await trio.to_thread.run_sync(sha256_fh, el)
             hash_ = sha.digest()
         except:
             if set_in_transit:
+                self._registering.pop(el.key).set()
                 self._unmark_in_transit(el)
             await self.block_lock.release(el.key)
             raise
@@ -494,6 +500,7 @@ class BlockCache:
                 # obj_id via the database will also find the event.
                 self.in_flight_uploads[obj_id] = trio.Event()
                 upload_registered = True
+                self._registering.pop(el.key).set()
                 await self._upload_send.send((el, obj_id))
 
             # There is a block with the same hash
@@ -508,6 +515,7 @@ class BlockCache:
                     )
 
                 el.dirty = False
+                self._registering.pop(el.key).set()
                 self._unmark_in_transit(el)
                 set_in_transit = False
                 await self.block_lock.release(el.key)
@@ -517,6 +525,8 @@ class BlockCache:
                     return False
 
         except:
+            if (event := self._registering.pop(el.key, None)) is not None:
+                event.set()
             if set_in_transit:
                 self._unmark_in_transit(el)
             await self.block_lock.release(el.key, noerror=True)
@@ -874,6 +884,10 @@ class BlockCache:
             if inode is not None and el.inode != inode:
                 continue
             await self.upload_if_dirty(el)
+            # Another task may have started the upload, but not have gotten to the database yet.
+            while (event := self._registering.get(el.key)) is not None:
+                await event.wait()
+                await self.upload_if_dirty(el)
 
     async def flush(self) -> None:
         """Upload all dirty blocks."""
-- 
2.43.0


From 72507232aca744667da6600ccc543d0acf3f473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 12/63] fix: fsck must complete interrupted uploads instead of
 taking the block for stored

If the process died during an upload, the objects table has a row (with the
right hash) for an object that does not exist in the backend. fsck took the
cached block for clean because of it, removed it from the cache, and later
deleted the row - so the data was lost.
---
 src/s3ql/fsck.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 097b095..d32c73e 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -287,6 +287,7 @@ class Fsck:
                 if hash_is is None:
                     log.debug('Object %d has NULL hash, treating cached block as dirty', obj_id)
                 elif hash_should == hash_is:
+                    await self.complete_upload(obj_id, filename)
                     if not keep_cache:
                         os.unlink(os.path.join(self.cachedir, filename))
                     continue
@@ -311,6 +312,7 @@ class Fsck:
 
                 self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
             else:
+                await self.complete_upload(obj_id, filename)
                 self.conn.execute('UPDATE objects SET refcount=refcount+1 WHERE id=?', (obj_id,))
 
             try:
@@ -339,6 +341,25 @@ class Fsck:
             if not keep_cache:
                 os.unlink(os.path.join(self.cachedir, filename))
 
+    async def complete_upload(self, obj_id: int, filename: str) -> None:
+        """Upload cache file *filename* as object *obj_id* if this is still needed
+
+        If the file system was not unmounted cleanly, there may be objects whose upload had been
+        started but not completed.
+        """
+
+        if self.conn.get_int_val('SELECT phys_size FROM objects WHERE id=?', (obj_id,)) != -1:
+            return
+        if await self.backend.contains('s3ql_data_%d' % obj_id):
+            return
+
+        self.found_errors = True
+        self.log_error("Completing upload of object %d from cache", obj_id)
+        with open(os.path.join(self.cachedir, filename), "rb") as fh:
+            size = os.fstat(fh.fileno()).st_size
+            obj_size = await self.backend.write_fh('s3ql_data_%d' % obj_id, fh, size)
+        self.conn.execute('UPDATE objects SET phys_size=? WHERE id=?', (obj_size, obj_id))
+
     def check_lof(self) -> None:
         """Ensure that there is a lost+found directory"""
 
-- 
2.43.0


From ceef29daff7b8e7de450d793cabbd91f2b711093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 13/63] fix: fsck must remove names that nothing refers to

The row was kept with a reference count of zero, and never removed later.
---
 src/s3ql/fsck.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index d32c73e..2e40f09 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -892,16 +892,16 @@ class Fsck:
                SELECT names.id, refcounts.refcount, names.refcount
                  FROM names LEFT JOIN refcounts ON %(dbf)snames.id = %(dbf)srefcounts.id
                 WHERE names.refcount != refcounts.refcount
-                   OR %(dbf)srefcounts.refcount IS NULL'''
+                   OR %(dbf)srefcounts.refcount = 0'''
                 % self.conn.fixes
             )
 
             for row in self.conn.query('SELECT * FROM wrong_refcounts'):
                 id_ = cast(int, row[0])
-                cnt = cast(int | None, row[1])
+                cnt = cast(int, row[1])
                 cnt_old = cast(int, row[2])
                 self.found_errors = True
-                if cnt is None:
+                if cnt == 0:
                     self.log_error(
                         "Name %d not referenced, removing (old refcount: %d)", id_, cnt_old
                     )
-- 
2.43.0


From 27e4b0053bd97f56d3016970278976fbe596ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 14/63] fix: fsck must repair symlinks without target and
 extended attributes without name

A symlink without target was reported, but never repaired. Renaming extended
attributes modified the tables that were being queried, so that the loop could
visit the renamed attributes forever.
---
 src/s3ql/fsck.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index 2e40f09..c9f90fb 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -515,13 +515,17 @@ class Fsck:
 
         log.info('Checking extended attributes (names)...')
 
-        for rowid, orig_name_id, inode in self.conn.query_typed(
-            (int, int, InodeT),
-            'SELECT ext_attributes.rowid, name_id, inode '
-            'FROM ext_attributes LEFT JOIN names '
-            'ON %(dbf)sname_id = %(dbf)snames.id '
-            'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
-        ):
+        # Get complete list, because the loop modifies the tables that are queried
+        bad_rows = list(
+            self.conn.query_typed(
+                (int, int, InodeT),
+                'SELECT ext_attributes.rowid, name_id, inode '
+                'FROM ext_attributes LEFT JOIN names '
+                'ON %(dbf)sname_id = %(dbf)snames.id '
+                'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
+            )
+        )
+        for rowid, orig_name_id, inode in bad_rows:
             self.found_errors = True
             for name, id_p in self.conn.query_typed(
                 (bytes, InodeT), 'SELECT name, parent_inode FROM contents_v WHERE inode=?', (inode,)
@@ -534,17 +538,20 @@ class Fsck:
                     orig_name_id,
                 )
 
+            suffix = rowid
             while True:
-                new_name_id = self._add_name('lost+found_%d' % rowid)
+                new_name_id = self._add_name(b'lost+found_%d' % suffix)
+                # The new name may get the id that was missing
                 if not self.conn.has_val(
-                    "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=?", (new_name_id, inode)
+                    "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=? AND rowid!=?",
+                    (new_name_id, inode, rowid),
                 ):
                     self.conn.execute(
                         'UPDATE ext_attributes SET name_id=? WHERE rowid=?', (new_name_id, rowid)
                     )
                     break
                 self._del_name(new_name_id)
-                rowid += 1
+                suffix += 1
 
     def check_ext_attributes_inode(self) -> None:
         """Check ext_attributes.inode"""
@@ -971,11 +978,16 @@ class Fsck:
             if stat.S_ISLNK(mode) and target is None:
                 self.found_errors = True
                 self.log_error(
-                    'Inode %d (%s): symlink does not have target. '
-                    'This is probably going to confuse your system!',
+                    'Inode %d (%s): symlink does not have target, setting empty target.',
                     inode,
                     to_str(get_path(inode, self.conn)),
                 )
+                target = b''
+                size = 0
+                self.conn.execute(
+                    'INSERT INTO symlink_targets (inode, target) VALUES(?,?)', (inode, target)
+                )
+                self.conn.execute('UPDATE inodes SET size=? WHERE id=?', (size, inode))
 
             if stat.S_ISLNK(mode) and target is not None and size != len(target):
                 self.found_errors = True
-- 
2.43.0


From aa63ad52d34d8dac4324caf15cb37ba7ec090739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:43 +0000
Subject: [PATCH 15/63] fix: an unmount interrupted before uploading the
 parameters must be detected

The cached parameters then say that the file system is clean while the backend
says that it is mounted (with the same sequence number). fsck.s3ql took it for
clean, and mount.s3ql failed with an assertion.
---
 src/s3ql/fsck.py  | 3 ++-
 src/s3ql/mount.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index c9f90fb..ef6d7c4 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -1350,12 +1350,13 @@ async def fsck(
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
         log.info('Using cached metadata.')
+        remote_param = param
         param = local_param
         db = Connection(cachepath + '.db', param.metadata_block_size)
         if param.is_mounted:
             log.info('File system was not unmounted cleanly')
             param.needs_fsck = True
-        if local_param.seq_no > param.seq_no:
+        elif local_param != remote_param:
             log.info('Remote metadata is outdated.')
             param.needs_fsck = True
 
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 97d5d7c..b279e82 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -583,10 +583,11 @@ async def get_metadata(
     param = await read_remote_params(backend)
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
     if local_param is not None:
-        if local_param.seq_no > param.seq_no:
+        # If the sequence numbers are equal, the parameters differ if the last unmount was
+        # interrupted before it could upload them.
+        if local_param != param:
             raise QuietError("File system not unmounted cleanly, run fsck!", exitcode=30)
         log.info('Using cached metadata.')
-        assert local_param == param
         db = Connection(cachepath + '.db', param.metadata_block_size)
 
     if param.is_mounted:
-- 
2.43.0


From 511875dcac9b1e454849d1523d487023f9a05a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 16/63] fix: fsck must not give the id of a missing name to a
 new name

Other entries that refer to the missing name then refer to the new name,
without being counted. With this, the loops over missing names see stable rows,
too.
---
 src/s3ql/fsck.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index ef6d7c4..b681d52 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -427,12 +427,16 @@ class Fsck:
 
         log.info('Checking contents (names)...')
 
-        for rowid, name_id, inode_p, inode in self.conn.query_typed(
-            (int, int, InodeT, InodeT),
-            'SELECT contents.rowid, name_id, parent_inode, inode '
-            'FROM contents LEFT JOIN names ON %(dbf)sname_id = %(dbf)snames.id '
-            'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
-        ):
+        # Get complete list, because the loop modifies the tables that are queried
+        bad_rows = list(
+            self.conn.query_typed(
+                (int, int, InodeT, InodeT),
+                'SELECT contents.rowid, name_id, parent_inode, inode '
+                'FROM contents LEFT JOIN names ON %(dbf)sname_id = %(dbf)snames.id '
+                'WHERE %(dbf)snames.id IS NULL' % self.conn.fixes,
+            )
+        )
+        for rowid, name_id, inode_p, inode in bad_rows:
             self.found_errors = True
             try:
                 path = get_path(inode_p, self.conn)[1:]
@@ -541,10 +545,8 @@ class Fsck:
             suffix = rowid
             while True:
                 new_name_id = self._add_name(b'lost+found_%d' % suffix)
-                # The new name may get the id that was missing
                 if not self.conn.has_val(
-                    "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=? AND rowid!=?",
-                    (new_name_id, inode, rowid),
+                    "SELECT 1 FROM ext_attributes WHERE name_id=? AND inode=?", (new_name_id, inode)
                 ):
                     self.conn.execute(
                         'UPDATE ext_attributes SET name_id=? WHERE rowid=?', (new_name_id, rowid)
@@ -1254,7 +1256,7 @@ class Fsck:
 
         return (inode_p, newname)
 
-    def _add_name(self, name: bytes | str) -> int:
+    def _add_name(self, name: bytes) -> int:
         '''Get id for *name* and increase refcount
 
         Name is inserted in table if it does not yet exist.
@@ -1263,7 +1265,14 @@ class Fsck:
         try:
             name_id = self.conn.get_int_val('SELECT id FROM names WHERE name=?', (name,))
         except NoSuchRowError:
-            name_id = self.conn.rowid('INSERT INTO names (name, refcount) VALUES(?,?)', (name, 1))
+            # Don't re-use the id of a missing name that other entries may still refer to
+            name_id = self.conn.rowid(
+                'INSERT INTO names (id, name, refcount) SELECT 1 + max('
+                'ifnull((SELECT max(id) FROM names), 0), '
+                'ifnull((SELECT max(name_id) FROM contents), 0), '
+                'ifnull((SELECT max(name_id) FROM ext_attributes), 0)), ?, ?',
+                (name, 1),
+            )
         else:
             self.conn.execute('UPDATE names SET refcount=refcount+1 WHERE id=?', (name_id,))
         return name_id
-- 
2.43.0


From c3ecacc89ca31ee4819fd47e337ac887e9952fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 17/63] fix: periodic metadata backups must include cached
 inode attributes

---
 src/s3ql/mount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index b279e82..824bc11 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -740,6 +740,8 @@ class MetadataUploadTask:
 
             # Upload twice without blocking writes, to reduce the amount of data left for
             # the final upload (which is needed for a consistent snapshot).
+            if self.fs is not None:
+                self.fs.inodes.flush()
             await self.db.checkpoint()
             for _ in range(2):
                 await upload_metadata(
-- 
2.43.0


From e2a0726f1fe17afcb5031db07cc318e67bb2cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:34 +0000
Subject: [PATCH 18/63] fix: remove stale write-ahead log when downloading
 metadata

If the process crashed, and the file system was then used from another machine,
SQLite applied the stale write-ahead log to the newly downloaded database.
---
 src/s3ql/database.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index d0e7e1a..f1089a5 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -952,6 +952,11 @@ class DownloadMetadata(ParallelPipeline[_BlockJob]):
     )
 
     async def discover_blocks(self) -> dict[int, list[int]]:
+        # SQLite would apply a write-ahead log left behind by a crash to the new database.
+        for suffix in ('-wal', '-shm'):
+            with contextlib.suppress(FileNotFoundError):
+                os.unlink(self.db_file + suffix)
+
         # Workers seek into this file independently, so it must exist before
         # they run.
         with open(self.db_file, 'w+b', buffering=0):
-- 
2.43.0


From 3d721a6cfb2d3a60b187ce61c439a5194fbd22a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 19/63] fix: backup expiration must remove parameters before
 the blocks they refer to

---
 src/s3ql/database.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index f1089a5..6d54c88 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -1103,7 +1103,8 @@ async def expire_objects(backend: AsyncBackend, versions_to_keep: int = 32) -> N
     metadata_objs = await get_available_seq_nos(backend)
     metadata_objs.sort()
     seq_to_keep = metadata_objs[-versions_to_keep:]
-    to_remove = ['s3ql_params_%010x' % x for x in metadata_objs[:-versions_to_keep]]
+    params_to_remove = ['s3ql_params_%010x' % x for x in metadata_objs[:-versions_to_keep]]
+    to_remove = []
 
     # Determine which objects we still need
     to_keep = collections.defaultdict(set)
@@ -1130,6 +1131,12 @@ async def expire_objects(backend: AsyncBackend, versions_to_keep: int = 32) -> N
                 continue
             to_remove.append(METADATA_OBJ_NAME % (blockno, seq_no))
 
+    # Backends may remove objects in any order, so to make sure that (if we are interrupted) we
+    # never leave behind parameters that refer to missing blocks these have to go first.
+    if params_to_remove:
+        log.info('Removing %d obsolete parameter objects', len(params_to_remove))
+        await backend.delete_multi(params_to_remove)
+
     log.info('Removing %d obsolete metadata blocks', len(to_remove))
     await backend.delete_multi(to_remove, log_progress=True)
 
-- 
2.43.0


From 55771007dea9eceba0cc4ae65b43c26a46958166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 20/63] fix: do not lose the exception of a failing pipeline
 worker

---
 src/s3ql/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 4d2180c..72f1352 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -480,5 +480,8 @@ class ParallelPipeline(Generic[T]):
         self.finalize()
 
     async def _drive_consumer(self, recv_chan: trio.MemoryReceiveChannel[T]) -> None:
-        async with recv_chan:
+        # Not using "async with": this would introduce a checkpoint after closing the channel. With
+        # the last worker gone, the producer then fails with BrokenResourceError and cancels this
+        # task, which replaces the exception that made *consume* fail.
+        with recv_chan:
             await self.consume(recv_chan)
-- 
2.43.0


From b7985e648adebe9fd0695213b0c3fe1db1b234d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 21/63] fix: fsck must recreate lost+found if its inode is
 missing

---
 src/s3ql/fsck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index b681d52..fe76b18 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -401,7 +401,10 @@ class Fsck:
                     (self._add_name(b"lost+found"), inode_l, ROOT_INODE),
                 )
 
-        mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        try:
+            mode = self.conn.get_int_val('SELECT mode FROM inodes WHERE id=?', (inode_l,))
+        except NoSuchRowError:
+            mode = 0
         if not stat.S_ISDIR(mode):
             self.found_errors = True
             self.log_error(
-- 
2.43.0


From 47e51d73bc20e98061cfa2efa7c274ad6ea5d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 22/63] fix: fsck must not leave unreferenced objects when
 removing blocks of missing inodes

---
 src/s3ql/fsck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index fe76b18..d0beca5 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -152,6 +152,9 @@ class Fsck:
             self.check_contents_inode()
             self.check_contents_parent_inode()
 
+            # Before checking the objects, because this affects their reference counts
+            self.check_inode_blocks_inode()
+
             self.check_objects_temp()
             self.check_objects_hash()
             await self.check_objects_refcount()
@@ -160,7 +163,6 @@ class Fsck:
             # TODO: Are there any checks we could do on objects.length?
 
             self.check_inode_blocks_obj_id()
-            self.check_inode_blocks_inode()
 
             self.check_inodes_refcount()
             self.check_inodes_size()
-- 
2.43.0


From 564d9974b894f5344d9dfa411b31988696f0399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 23/63] fix: fsck must not fail on deeply nested directories

---
 src/s3ql/fsck.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index d0beca5..c377f10 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -604,11 +604,16 @@ class Fsck:
         self.conn.execute('INSERT INTO loopcheck2 (inode) SELECT inode FROM loopcheck')
 
         def delete_tree(inode_p: InodeT) -> None:
-            for (inode,) in self.conn.query_typed(
-                (InodeT,), "SELECT inode FROM loopcheck WHERE parent_inode=?", (inode_p,)
-            ):
-                delete_tree(inode)
-            self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
+            todo = [inode_p]
+            while todo:
+                inode_p = todo.pop()
+                todo.extend(
+                    inode
+                    for (inode,) in self.conn.query_typed(
+                        (InodeT,), "SELECT inode FROM loopcheck WHERE parent_inode=?", (inode_p,)
+                    )
+                )
+                self.conn.execute('DELETE FROM loopcheck2 WHERE inode=?', (inode_p,))
 
         root: InodeT = ROOT_INODE
         while True:
-- 
2.43.0


From e21ffd077f1d05ad0783862d2862a1115d5446b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 24/63] fix: fsck must be able to handle files in unreachable
 directories

---
 src/s3ql/fsck.py | 74 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index c377f10..d0db4b1 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -36,7 +36,6 @@ from .backends.common import NoSuchObject
 from .backends.comprenc import AsyncComprencBackend
 from .backends.local import AsyncBackend as LocalAsyncBackend
 from .common import (
-    get_path,
     inode_for_path,
     is_mounted,
     sha256_fh,
@@ -443,12 +442,7 @@ class Fsck:
         )
         for rowid, name_id, inode_p, inode in bad_rows:
             self.found_errors = True
-            try:
-                path = get_path(inode_p, self.conn)[1:]
-            except NoSuchRowError:
-                newname = ('-%d' % inode).encode()
-            else:
-                newname = escape(path) + ('-%d' % inode).encode()
+            newname = escape(get_path(inode_p, self.conn)[1:]) + b'-%d' % inode
             (id_p_new, newname) = self.resolve_free(b"/lost+found", newname)
 
             self.log_error(
@@ -469,18 +463,20 @@ class Fsck:
 
         log.info('Checking contents (parent inodes)...')
 
-        for rowid, inode_p, name_id in self.conn.query_typed(
-            (int, InodeT, int),
-            'SELECT contents.rowid, parent_inode, name_id '
-            'FROM contents LEFT JOIN inodes '
-            'ON %(dbf)sparent_inode = %(dbf)sinodes.id '
-            'WHERE %(dbf)sinodes.id IS NULL' % self.conn.fixes,
-        ):
+        # Get complete list, because the loop modifies the tables that are queried
+        bad_rows = list(
+            self.conn.query_typed(
+                (int, InodeT, int),
+                'SELECT contents.rowid, parent_inode, name_id '
+                'FROM contents LEFT JOIN inodes '
+                'ON %(dbf)sparent_inode = %(dbf)sinodes.id '
+                'WHERE %(dbf)sinodes.id IS NULL' % self.conn.fixes,
+            )
+        )
+        for rowid, inode_p, name_id in bad_rows:
             self.found_errors = True
             name = self.conn.get_bytes_val('SELECT name FROM names WHERE id = ?', (name_id,))
-            (id_p_new, newname) = self.resolve_free(
-                b"/lost+found", ('[%d]-%s' % (inode_p, to_str(name))).encode()
-            )
+            (id_p_new, newname) = self.resolve_free(b"/lost+found", b'[%d]-%s' % (inode_p, name))
 
             self.log_error(
                 'Parent inode %d for "%s" vanished, moving to /lost+found', inode_p, to_str(name)
@@ -505,14 +501,9 @@ class Fsck:
             'WHERE %(dbf)sinodes.id IS NULL' % self.conn.fixes,
         ):
             self.found_errors = True
-            try:
-                path: bytes | str = get_path(inode, self.conn)[1:]
-            except NoSuchRowError:
-                path = '[inode %d, parent %d]' % (inode, inode_p)
-
-            self.log_error(
-                'Inode for %s vanished, deleting', to_str(path) if isinstance(path, bytes) else path
-            )
+            name = self.conn.get_bytes_val('SELECT name FROM names WHERE id = ?', (name_id,))
+            path = get_path(inode_p, self.conn, name)
+            self.log_error('Inode %d for %s vanished, deleting', inode, to_str(path))
             self._del_name(name_id)
             to_delete.append(rowid)
 
@@ -1561,6 +1552,39 @@ def escape(path: bytes) -> bytes:
     return path[1:].replace(b'_', b'__').replace(b'/', b'_')
 
 
+def get_path(id_: InodeT, conn: Connection, name: bytes | None = None) -> bytes:
+    """Return a full path for inode `id_`.
+
+    If `name` is specified, it is appended at the very end of the path.
+
+    In contrast to `common.get_path`, this also works for inodes that can not be reached from the
+    root directory. In that case, the path starts with the id of the last known inode.
+    """
+
+    path: list[bytes] = [] if name is None else [name]
+    seen: set[int] = set()
+    while id_ != ROOT_INODE:
+        try:
+            if id_ in seen:
+                raise NoSuchRowError()
+            (name2, parent) = conn.get_row_typed(
+                (bytes, InodeT),
+                "SELECT name, parent_inode FROM contents_v WHERE inode=? LIMIT 1",
+                (id_,),
+            )
+        except NoSuchRowError:
+            path.append(b'[inode %d]' % id_)
+            break
+        seen.add(id_)
+        path.append(name2)
+        id_ = parent
+
+    path.append(b'')
+    path.reverse()
+
+    return b'/'.join(path)
+
+
 def to_str(name: bytes) -> str:
     '''Decode path name for printing'''
 
-- 
2.43.0


From f19c06ac71170509381694216878d7e8ad635ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:40 +0000
Subject: [PATCH 25/63] fix: refuse to copy into an immutable directory

---
 src/s3ql/fs.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 58392b5..9baa24c 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -549,6 +549,8 @@ class Operations(pyfuse3.Operations):
             target_inode = self.inodes[target_id]
         except KeyError:
             raise FUSEError(errno.ENOENT)
+        if target_inode.locked:
+            raise FUSEError(errno.EPERM)
         for attr in ('atime_ns', 'ctime_ns', 'mtime_ns', 'mode', 'uid', 'gid'):
             setattr(target_inode, attr, getattr(src_inode, attr))
         name_ids = db.get_list(
@@ -694,17 +696,25 @@ class Operations(pyfuse3.Operations):
                     processed = 0
                     await batch_mgr.start_batch()
 
-        # The target may have been removed or filled in the meantime
+        # The target may have been removed, locked or filled in the meantime
+        error: int | None = None
         try:
-            target_exists = self.inodes[target_inode.id].refcount > 0
+            target_inode = self.inodes[target_inode.id]
         except KeyError:
-            target_exists = False
-        if not target_exists or self.db.has_val(
-            'SELECT 1 FROM contents WHERE parent_inode=?', (target_inode.id,)
-        ):
+            error = errno.ENOENT
+        else:
+            if target_inode.refcount == 0:
+                error = errno.ENOENT
+            elif target_inode.locked:
+                error = errno.EPERM
+            elif self.db.has_val(
+                'SELECT 1 FROM contents WHERE parent_inode=?', (target_inode.id,)
+            ):
+                error = errno.ENOTEMPTY
+        if error is not None:
             await self._remove_contents(tmp.id)
             del self.inodes[tmp.id]
-            raise FUSEError(errno.ENOTEMPTY if target_exists else errno.ENOENT)
+            raise FUSEError(error)
 
         # Make replication visible
         self.db.execute(
-- 
2.43.0


From d93a1d13a75a91ee052ecc6874a5e044cb9beb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:40 +0000
Subject: [PATCH 26/63] fix: refuse to move entries into a removed directory

---
 src/s3ql/fs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 9baa24c..cff3ede 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -876,6 +876,12 @@ class Operations(pyfuse3.Operations):
         if self.failsafe or self.inodes[id_p_old].locked or self.inodes[id_p_new].locked:
             raise FUSEError(errno.EPERM)
 
+        if self.inodes[id_p_new].refcount == 0:
+            log.warning(
+                'Attempted to move entry %s to unlinked parent %d', name_new, id_p_new
+            )
+            raise FUSEError(errno.EINVAL)
+
         id_old = self._lookup(id_p_old, name_old, ctx).id
         looked_up = [(id_old, 1)]
 
-- 
2.43.0


From f92e6aed3be1f84fc44a9983f19185740c8b0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 27/63] fix: report mapping data of unexpected types as
 corrupted

---
 src/s3ql/common.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 72f1352..135e743 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -341,11 +341,19 @@ def thaw_basic_mapping(buf: bytes | bytearray) -> BasicMappingT:
 
     try:
         d = literal_eval(buf.decode('utf-8'))
-    except (UnicodeDecodeError, SyntaxError, ValueError):
+    except (UnicodeDecodeError, SyntaxError, ValueError, TypeError, MemoryError, RecursionError):
+        raise ThawError()
+
+    if not isinstance(d, dict):
         raise ThawError()
 
-    # Decode bytes values
     for k, v in d.items():
+        if not isinstance(k, str):
+            raise ThawError()
+        if not isinstance(v, (str, bytes, int, float, complex, bool)) and v is not None:
+            raise ThawError()
+
+        # Decode bytes values
         if not isinstance(v, bytes):
             continue
         try:
-- 
2.43.0


From c88fa29a82a259234f7a69d36ae9dc14add48727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 28/63] fix: report unusable object headers and streams as
 corrupted objects

---
 src/s3ql/backends/comprenc.py | 38 ++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 1c93410..37d4723 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -212,7 +212,7 @@ class AsyncComprencBackend(AsyncBackend):
 
         format_version = metadata.get('format_version', 0)
         if format_version != 2:
-            raise CorruptedObjectError('format_version %r unsupported' % format_version)
+            raise CorruptedObjectError('format_version %r unsupported' % (format_version,))
 
         for mkey in ('encryption', 'compression', 'data'):
             if mkey not in metadata:
@@ -253,7 +253,10 @@ class AsyncComprencBackend(AsyncBackend):
             raise CorruptedObjectError('signature should be bytes')
         assert self.passphrase is not None
         meta_key = sha256(self.passphrase + nonce + b'meta')
-        meta_sig = checksum_basic_mapping(metadata, meta_key)
+        try:
+            meta_sig = checksum_basic_mapping(metadata, meta_key)
+        except ValueError:
+            raise CorruptedObjectError('Invalid metadata')
         if not hmac.compare_digest(signature, meta_sig):
             raise CorruptedObjectError('HMAC mismatch')
 
@@ -294,15 +297,12 @@ class AsyncComprencBackend(AsyncBackend):
         else:
             data_key = None
         compr_token = meta_raw['compression']
-        assert isinstance(compr_token, str)
         encr_alg = meta_raw['encryption']
-        assert isinstance(encr_alg, str)
         if encr_alg != 'AES_v2' and encr_alg != 'None':
-            raise RuntimeError('Unsupported encryption: %r' % encr_alg)
-        try:
-            compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
-        except KeyError:
-            raise RuntimeError('Unsupported compression: %r' % compr_token)
+            raise CorruptedObjectError('Unsupported encryption: %r' % (encr_alg,))
+        if not isinstance(compr_token, str) or compr_token not in _ALGORITHM_BY_TOKEN:
+            raise CorruptedObjectError('Unsupported compression: %r' % (compr_token,))
+        compr_alg = _ALGORITHM_BY_TOKEN[compr_token]
 
         # The `payload_offset` key only exists if the storage object was created with on old S3QL
         # version. In order to avoid having to download and re-upload the entire object during the
@@ -310,7 +310,8 @@ class AsyncComprencBackend(AsyncBackend):
         # of the object we have to skip to get to the payload.
         if 'payload_offset' in meta_raw:
             off = meta_raw['payload_offset']
-            assert isinstance(off, int)
+            if not isinstance(off, int) or not 0 <= off <= fh_size(buf):
+                raise CorruptedObjectError('Invalid payload offset: %r' % (off,))
             buf.seek(off)
         else:
             buf.seek(0)
@@ -318,7 +319,8 @@ class AsyncComprencBackend(AsyncBackend):
         # __size was introduced without bumping the filesystem revision, so some objects
         # may not have it. If it's available, use that instead of the size_hint.
         if v := meta.pop('__size', None):
-            assert isinstance(v, int)
+            if not isinstance(v, int):
+                raise CorruptedObjectError('Invalid object size: %r' % (v,))
             size_hint = v
 
         # In contrast to write_fh, we potentially use sync decompression/decryption here even
@@ -626,20 +628,14 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
 
     try:
         return decomp.decompress(buf)
+    except EOFError:
+        raise CorruptedObjectError('Data after end of compressed stream')
     except OSError as exc:
         if exc.args[0].lower().startswith('invalid data stream'):
             raise CorruptedObjectError('Invalid compressed stream')
         raise
-    except lzma.LZMAError as exc:
-        if exc.args[0].lower().startswith('corrupt input data') or exc.args[0].startswith(
-            'Input format not supported'
-        ):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
-    except zlib.error as exc:
-        if exc.args[0].lower().startswith('error -3 while decompressing'):
-            raise CorruptedObjectError('Invalid compressed stream')
-        raise
+    except (lzma.LZMAError, zlib.error):
+        raise CorruptedObjectError('Invalid compressed stream')
 
 
 class ObjectNotEncrypted(Exception):
-- 
2.43.0


From 9c725e0b337910c557c403af908dd4d42fd1170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 29/63] fix: treat an unencrypted object in an encrypted file
 system as corrupted

---
 src/s3ql/backends/comprenc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 37d4723..348653c 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -225,7 +225,7 @@ class AsyncComprencBackend(AsyncBackend):
             raise CorruptedObjectError('Encrypted object and no passphrase supplied')
 
         elif not encrypted and self.passphrase is not None:
-            raise ObjectNotEncrypted()
+            raise ObjectNotEncrypted('Object is not encrypted')
 
         meta_buf = metadata['data']
         if not isinstance(meta_buf, bytes):
@@ -638,7 +638,7 @@ def decompress_buf(decomp: DecompressorProtocol, buf: bytes) -> bytes:
         raise CorruptedObjectError('Invalid compressed stream')
 
 
-class ObjectNotEncrypted(Exception):
+class ObjectNotEncrypted(CorruptedObjectError):
     '''
     Raised by the backend if an object was requested from an encrypted
     backend, but the object was stored without encryption.
-- 
2.43.0


From 76b649788217551242ff7c112ef9efdcb04d9918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 30/63] fix: do not fail to expire metadata if an old object is
 missing

---
 src/s3ql/database.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index 6d54c88..b5b52f4 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -1122,7 +1122,10 @@ async def expire_objects(backend: AsyncBackend, versions_to_keep: int = 32) -> N
             log.debug('block %d has candidates %s', blockno, candidates)
             if blockno > max_blockno:
                 continue
-            to_keep[blockno].add(first_le_than(candidates, seq_no))
+            try:
+                to_keep[blockno].add(first_le_than(candidates, seq_no))
+            except ValueError:
+                log.warning('Metadata block %d of backup %010x is missing', blockno, seq_no)
 
     # Remove what's no longer needed
     for blockno, candidates in block_list.items():
-- 
2.43.0


From 962d50eaf8cbeabf2cb2663adc8c84a977350c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 31/63] fix: do not rely on the clock for unique nonces

---
 src/s3ql/backends/comprenc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/comprenc.py b/src/s3ql/backends/comprenc.py
index 348653c..15fe43f 100644
--- a/src/s3ql/backends/comprenc.py
+++ b/src/s3ql/backends/comprenc.py
@@ -481,7 +481,9 @@ class AsyncComprencBackend(AsyncBackend):
             meta_raw['encryption'] = 'None'
             meta_raw['data'] = meta_buf
         else:
-            nonce = struct.pack('<d', time.time()) + key.encode('utf-8')
+            # The clock may be stepped back or have a coarse resolution, so it is not enough to make
+            # the nonce unique.
+            nonce = struct.pack('<d', time.time()) + os.urandom(16) + key.encode('utf-8')
             meta_key = sha256(self.passphrase + nonce + b'meta')
             encryptor = aes_encryptor(meta_key)
             meta_raw['encryption'] = 'AES_v2'
-- 
2.43.0


From 7ad05319d56cb86f87c6d5784f6eeeb03a48c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 32/63] fix: use unique temporary files for concurrent stores
 of an object

---
 src/s3ql/backends/local.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index ceff60c..3dac1dd 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 import _thread
 import builtins
+import itertools
 import logging
 import os
 import struct
@@ -34,6 +35,9 @@ from .common import (
 
 log = logging.getLogger(__name__)
 
+# To make the names of temporary files unique if several tasks store the same object
+_tmp_counter = itertools.count()
+
 
 class AsyncBackend(AsyncBackendBase):
     '''
@@ -169,7 +173,12 @@ class AsyncBackend(AsyncBackendBase):
 
             # By renaming, we make sure that there are no
             # conflicts between parallel reads, the last one wins
-            tmpname = '%s#%d-%d.tmp' % (path, os.getpid(), _thread.get_ident())
+            tmpname = '%s#%d-%d-%d.tmp' % (
+                path,
+                os.getpid(),
+                _thread.get_ident(),
+                next(_tmp_counter),
+            )
 
             fh.seek(0)
             with ExitStack() as es:
-- 
2.43.0


From e1c37ae72d6b83193a39cb5c9f604be40a441e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 33/63] fix: do not store truncated objects if the disk is full

---
 src/s3ql/backends/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 3dac1dd..c83c6b9 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -183,14 +183,14 @@ class AsyncBackend(AsyncBackendBase):
             fh.seek(0)
             with ExitStack() as es:
                 try:
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                    dest = es.enter_context(open(tmpname, 'wb'))
                 except FileNotFoundError:
                     try:  # noqa: SIM105 # auto-added, needs manual check!
                         os.makedirs(os.path.dirname(path))
                     except FileExistsError:
                         # Another thread may have created the directory already
                         pass
-                    dest = es.enter_context(open(tmpname, 'wb', buffering=0))
+                    dest = es.enter_context(open(tmpname, 'wb'))
 
                 dest.write(b's3ql_1\n')
                 dest.write(struct.pack('<H', len(buf)))
-- 
2.43.0


From a9646dc5357c285cc0498ab125b5dde6171fd0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 34/63] fix: raise NoSuchObject from get_size of local backend

---
 src/s3ql/backends/local.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index c83c6b9..8fe2303 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -120,7 +120,10 @@ class AsyncBackend(AsyncBackendBase):
             raise NoSuchObject(key)
 
     async def get_size(self, key: str) -> int:
-        return os.path.getsize(self._key_to_path(key))
+        try:
+            return os.path.getsize(self._key_to_path(key))
+        except FileNotFoundError:
+            raise NoSuchObject(key)
 
     async def readinto_fh(self, key: str, ofh: BinaryOutput) -> BasicMappingT:
         '''Transfer data stored under *key* into *fh*, return metadata.
-- 
2.43.0


From 9fe077fcd094c70e25e609f9591975914533ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 35/63] fix: list all objects of the local backend, or fail

---
 src/s3ql/backends/local.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/backends/local.py b/src/s3ql/backends/local.py
index 8fe2303..afca42e 100644
--- a/src/s3ql/backends/local.py
+++ b/src/s3ql/backends/local.py
@@ -232,21 +232,27 @@ class AsyncBackend(AsyncBackendBase):
                 os.unlink(path)
 
     async def list(self, prefix: str = '') -> AsyncIterator[str]:
+        escaped = escape(prefix)
         if prefix:
             base = os.path.dirname(self._key_to_path(prefix))
         else:
             base = self.prefix
 
-        for path, dirnames, filenames in os.walk(base, topdown=True):
-            # Do not look in wrong directories
+        def onerror(exc: OSError) -> None:
+            # A missing directory has no objects, but otherwise the result would be incomplete
+            if not isinstance(exc, FileNotFoundError):
+                raise exc
+
+        for path, dirnames, filenames in os.walk(base, topdown=True, onerror=onerror):
+            # Do not look in wrong directories. Below s3ql_data_, the names of directories
+            # accumulate (see _key_to_path), so the name alone gives the start of the keys.
             if prefix:
-                rpath = path[len(self.prefix) :]  # path relative to base
-                prefix_l = ''.join(rpath.split('/'))
+                prefix_l = '' if path == self.prefix else 's3ql_data_'
 
                 dirs_to_walk = list()
                 for name in dirnames:
-                    prefix_ll = unescape(prefix_l + name)
-                    if prefix_ll.startswith(prefix[: len(prefix_ll)]):
+                    prefix_ll = prefix_l + name
+                    if prefix_ll.startswith(escaped[: len(prefix_ll)]):
                         dirs_to_walk.append(name)
                 dirnames[:] = dirs_to_walk
 
-- 
2.43.0


From 77d325f5943a756c2597dee73675dbbc1978be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 36/63] fix: handle loss of a block that is being truncated

---
 src/s3ql/fs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index cff3ede..29a2bec 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1100,7 +1100,9 @@ class Operations(pyfuse3.Operations):
                     log.warning(
                         'Backend lost block %d of inode %d (id %s)!', last_block, id_, exc.key
                     )
-                    raise
+                    self.failsafe = True
+                    self.broken_blocks[id_].add(last_block)
+                    raise FUSEError(errno.EIO)
 
                 except CorruptedObjectError as exc:
                     log.warning(
-- 
2.43.0


From d39cc749dcb7bb28baa46905e8eaf1366a8297a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:36 +0000
Subject: [PATCH 37/63] fix: release block locks also when the holder is
 cancelled

---
 src/s3ql/multi_lock.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/multi_lock.py b/src/s3ql/multi_lock.py
index b9a2b83..e96ceb1 100644
--- a/src/s3ql/multi_lock.py
+++ b/src/s3ql/multi_lock.py
@@ -84,9 +84,12 @@ class MultiLock(Generic[K]):
         not locked.
         """
 
-        async with self.cond:
-            if noerror:
-                self.locked_keys.discard(key)
-            else:
-                self.locked_keys.remove(key)
-            self.cond.notify_all()
+        # A task that is cancelled while it holds the lock must still be able to release it. This
+        # does not delay the cancellation, because *cond* is never held for long.
+        with trio.CancelScope(shield=True):
+            async with self.cond:
+                if noerror:
+                    self.locked_keys.discard(key)
+                else:
+                    self.locked_keys.remove(key)
+                self.cond.notify_all()
-- 
2.43.0


From a997da90ad58c559de7cd44a17f431170321baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:36 +0000
Subject: [PATCH 38/63] fix: make expire_backups --use-s3qlrm work

---
 contrib/expire_backups.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index dafcfbf..5b42dc1 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -27,7 +27,6 @@ from s3ql.parse_args import (
     LogDest,
     QuietFlag,
     run_app,
-    trio_command,
 )
 from s3ql.remove import main as s3qlrm
 
@@ -45,8 +44,7 @@ app = typer.Typer(
 
 
 @app.command()
-@trio_command
-async def expire_backups(
+def expire_backups(
     cycles: Annotated[
         list[int],
         typer.Argument(metavar='<age>', help='Age range boundaries in terms of backup cycles'),
-- 
2.43.0


From bd7bfa90541f31511b792b45cb802d5d9a3bdca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:36 +0000
Subject: [PATCH 39/63] fix: count cycles from the newest backup when
 reconstructing expire_backups state

---
 contrib/expire_backups.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contrib/expire_backups.py b/contrib/expire_backups.py
index 5b42dc1..33c1f75 100755
--- a/contrib/expire_backups.py
+++ b/contrib/expire_backups.py
@@ -142,10 +142,12 @@ def main(args: Sequence[str] | None = None) -> None:
 def upgrade_to_state(backup_list):
     log.info('Several existing backups detected, trying to convert absolute ages to cycles')
 
-    now = datetime.now()
+    # Cycles are counted from the most recent backup
+    dates = {x: datetime.strptime(x, '%Y-%m-%d_%H:%M:%S') for x in backup_list}
+    newest = max(dates.values())
     age = dict()
     for x in sorted(backup_list):
-        age[x] = now - datetime.strptime(x, '%Y-%m-%d_%H:%M:%S')
+        age[x] = newest - dates[x]
         log.info('Backup %s is %s hours old', x, age[x])
 
     deltas = [abs(x - y) for x in age.values() for y in age.values() if x != y]
-- 
2.43.0


From d2ae4d332e3c8ae4ba2df246424bc1cabc355a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:36 +0000
Subject: [PATCH 40/63] fix: keep the block limit when the cache is dropped
 concurrently

---
 src/s3ql/block_cache.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/block_cache.py b/src/s3ql/block_cache.py
index d92199e..68d3db6 100644
--- a/src/s3ql/block_cache.py
+++ b/src/s3ql/block_cache.py
@@ -749,17 +749,23 @@ class BlockCache:
 
         return el
 
-    async def evict(self) -> None:
-        """Evict cache entries until size and entry count are within limits."""
+    async def evict(self, max_entries: int | None = None) -> None:
+        """Evict cache entries until size and entry count are within limits.
+
+        If *max_entries* is given, it replaces the limit for the number of entries.
+        """
 
         # Note that we have to make sure that the cache entry is written into
         # the database before we remove it from the cache!
 
         log.debug('started')
 
+        if max_entries is None:
+            max_entries = self.cache.max_entries
+
         while True:
             need_size = self.cache.size - self.cache.max_size
-            need_entries = len(self.cache) - self.cache.max_entries
+            need_entries = len(self.cache) - max_entries
             if need_size <= 0 and need_entries <= 0:
                 break
 
@@ -913,10 +919,9 @@ class BlockCache:
         """Drop cache."""
 
         log.debug('started')
-        bak = self.cache.max_entries
-        self.cache.max_entries = 0
-        await self.evict()
-        self.cache.max_entries = bak
+        # Don't modify self.cache.max_entries temporarily: several drops may be active at once,
+        # and eviction may fail.
+        await self.evict(max_entries=0)
         log.debug('finished')
 
     def get_usage(self) -> tuple[int, int, int, int, int]:
-- 
2.43.0


From 1a49556a186ea67dbe8896c60d92ebdebcb4ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 41/63] fix: skip unsolicited 100 Continue responses

---
 src/s3ql/http.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index d70dfc0..c3996f1 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -510,7 +510,7 @@ class HTTPConnection:
             return await self._read_response()
 
         if expect100:
-            resp = await self._read_response()
+            resp = await self._read_response(expect100=True)
             if resp.status != 100:
                 # Server rejected the body before it was sent. Once the
                 # caller has consumed the response body, `_finish_cycle`
@@ -594,8 +594,11 @@ class HTTPConnection:
         if data is not None:
             await self._raw_write(data)
 
-    async def _read_response(self) -> HTTPResponse:
-        '''Read the response status line and headers and return an `HTTPResponse`.'''
+    async def _read_response(self, expect100: bool = False) -> HTTPResponse:
+        '''Read the response status line and headers and return an `HTTPResponse`.
+
+        Interim (1xx) responses are skipped, except for a ``100 Continue`` when *expect100* is set.
+        '''
 
         log.debug('start')
 
@@ -612,7 +615,7 @@ class HTTPConnection:
                 raise InvalidResponse(str(exc))
 
             if isinstance(event, h11.InformationalResponse):
-                if event.status_code == 100:
+                if event.status_code == 100 and expect100:
                     return HTTPResponse(
                         method=method,
                         path=path,
@@ -621,7 +624,7 @@ class HTTPConnection:
                         headers=email.message.Message(policy=email.policy.compat32),
                         length=0,
                     )
-                # Other 1xx (incl. 101 Upgrade) - skip per RFC 7231 §6.2.
+                # Other 1xx (incl. 101 Upgrade), or unsolicited 100 - skip per RFC 7231 §6.2.
                 log.debug('skipping 1xx response %d', event.status_code)
                 continue
 
-- 
2.43.0


From fb48dfb75b454ab766f07c35a57edbc4a1515e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 42/63] fix: do not take unrequested data for the response to
 the next request

---
 src/s3ql/http.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index c3996f1..002e4f9 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -450,7 +450,8 @@ class HTTPConnection:
         if expect100 and not body:
             raise ValueError('expect100 requires a body')
 
-        if self._stream is None:
+        is_new = self._stream is None
+        if is_new:
             await self.connect()
         assert self._h11 is not None
 
@@ -465,6 +466,8 @@ class HTTPConnection:
             raise StateError('previous response has not been read')
         if self._h11.our_state is not h11.IDLE:
             raise StateError('previous request not finished sending')
+        if not is_new and self._has_unexpected_input():
+            raise ConnectionClosed('server sent data without request, or closed connection')
 
         if headers is None:
             req_headers = CaseInsensitiveDict()
@@ -816,10 +819,13 @@ class HTTPConnection:
         self._pending_path = None
 
         assert self._h11 is not None
-        if self._h11.our_state is h11.SEND_BODY:
+        if self._h11.our_state is h11.SEND_BODY and self._h11.their_state is h11.DONE:
             # 100-continue rejection left our_state stuck in SEND_BODY; the
             # wire is still keep-alive-clean since neither side sent a body.
+            trailing_data = self._h11.trailing_data[0]
             self._h11 = h11.Connection(our_role=h11.CLIENT)
+            if trailing_data:
+                self._h11.receive_data(trailing_data)
             return
         if self._h11.our_state is h11.DONE and self._h11.their_state is h11.DONE:
             self._h11.start_next_cycle()
@@ -866,6 +872,29 @@ class HTTPConnection:
             trio.lowlevel.spawn_system_task(_aclose_stream, self._stream)
             self._stream = None
 
+    def _has_unexpected_input(self) -> bool:
+        '''Return True if the server has sent something (or EOF) on the idle connection.
+
+        Such data (e.g. a ``408 Request Timeout``) would otherwise be taken for the response to
+        the next request.
+        '''
+        assert self._stream is not None and self._h11 is not None
+
+        if self._h11.trailing_data[0] or self._stream.get_extra_info('is_readable'):
+            return True
+
+        # With TLS, data may already have been taken from the socket.
+        ssl_object = self._stream.get_extra_info('ssl_object')
+        if ssl_object is None:
+            return False
+        try:
+            ssl_object.read(1)
+        except ssl.SSLWantReadError:
+            return False
+        except ssl.SSLError:
+            pass
+        return True
+
     @property
     def is_idle(self) -> bool:
         '''True if the connection is connected and in a keep-alive-clean state.'''
@@ -874,6 +903,7 @@ class HTTPConnection:
             and self._h11 is not None
             and self._h11.our_state is h11.IDLE
             and self._h11.their_state is h11.IDLE
+            and not self._has_unexpected_input()
         )
 
     async def __aenter__(self) -> HTTPConnection:
-- 
2.43.0


From 5813e66908965bcd8fbc768d236ff4589d254d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 43/63] fix: ignore Content-Length of chunked responses

---
 src/s3ql/http.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/s3ql/http.py b/src/s3ql/http.py
index 002e4f9..8c4e09c 100644
--- a/src/s3ql/http.py
+++ b/src/s3ql/http.py
@@ -660,6 +660,9 @@ class HTTPConnection:
         body_length: int | None
         if status in (204, 304) or 100 <= status < 200 or method == 'HEAD':
             body_length = 0
+        elif 'Transfer-Encoding' in msg:
+            # Takes precedence over any Content-Length (RFC 7230 §3.3.3).
+            body_length = None
         else:
             body_length_str = msg.get('Content-Length')
             if body_length_str is None:
-- 
2.43.0


From 3067d8bbaafdf83ab25f464eb436e2d8ba7c4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:24 +0000
Subject: [PATCH 44/63] fix: sign the Host header which is sent when not using
 TLS

---
 src/s3ql/backends/s3c4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 16c9af4..c29926f 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -170,7 +170,7 @@ class AsyncBackend(s3c.AsyncBackend):
         ymdhms = time.strftime('%Y%m%dT%H%M%SZ', now)
 
         # add non-standard port to host header, needed for correct signature
-        if self.port != 443:
+        if self.port != (443 if self.ssl_context else 80):
             headers['host'] = '%s:%s' % (self.hostname, self.port)
 
         headers['x-amz-date'] = ymdhms
-- 
2.43.0


From d644b29c431a50774615769447b200329f599e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:24 +0000
Subject: [PATCH 45/63] fix: start over at the original offset when retrying a
 gs download

---
 src/s3ql/backends/gs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index d47c740..682dd64 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -446,6 +446,7 @@ class AsyncBackend(AsyncBackendBase):
         try:
             async with self._pool.get() as conn:
                 await self._do_request(conn, 'GET', path, query_string={'alt': 'media'})
+                fh.seek(off)
                 await conn.readinto_fh(fh)
         except RequestError as exc:
             mapped_exc = _map_request_error(exc, key)
-- 
2.43.0


From ebd6d0357d0626ca85980ebe633b2df6618d3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:24 +0000
Subject: [PATCH 46/63] fix: continue after an empty page when listing objects
 in gs

---
 src/s3ql/backends/gs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index 682dd64..fe4c316 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -393,8 +393,7 @@ class AsyncBackend(AsyncBackendBase):
         next_token: str | None = str(next_token_obj) if next_token_obj is not None else None
 
         if 'items' not in json_resp:
-            assert next_token is None
-            return ([], None)
+            return ([], next_token)
 
         items = json_resp['items']
         assert isinstance(items, list)
-- 
2.43.0


From b3f9f8ea5dbe4e0f6146c2aed8c7c873f5789dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:24 +0000
Subject: [PATCH 47/63] fix: retry gs requests refused by throttling or a
 failing token server

---
 src/s3ql/backends/gs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/gs.py b/src/s3ql/backends/gs.py
index fe4c316..832ee14 100644
--- a/src/s3ql/backends/gs.py
+++ b/src/s3ql/backends/gs.py
@@ -321,7 +321,9 @@ class AsyncBackend(AsyncBackendBase):
             # The pool drops the affected connection automatically.
             return True
 
-        elif isinstance(exc, RequestError) and (500 <= exc.code <= 599 or exc.code == 408):
+        elif isinstance(exc, RequestError) and (
+            500 <= exc.code <= 599 or exc.code in (408, 429)
+        ):
             return True
 
         elif isinstance(exc, AccessTokenExpired):
@@ -608,6 +610,9 @@ class AsyncBackend(AsyncBackendBase):
             resp = await conn.send_request(
                 'POST', '/o/oauth2/token', headers=headers, body=[body.encode('utf-8')]
             )
+            if resp.status in (408, 429) or 500 <= resp.status <= 599:
+                await conn.discard()
+                raise RequestError(code=resp.status, reason=resp.reason)
             json_resp = _parse_json_response(resp, await conn.readall())
 
         if 'error' in json_resp:
-- 
2.43.0


From 65550987357cb685230712f78dfa3cdd8388233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 48/63] fix: quote spaces in metadata headers

---
 src/s3ql/backends/s3c.py   | 2 +-
 src/s3ql/backends/swift.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index 579fd12..a9f7d25 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -457,7 +457,7 @@ class AsyncBackend(AsyncBackendBase):
                 val = b64encode(val)
 
             buf = '%s: %s,' % (repr(key), repr(val))
-            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\| `.,;:~')
+            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\|`.,;:~')
             if len(buf) < chunksize:
                 headers['%smeta-%03d' % (self.hdr_prefix, hdr_count)] = buf
                 hdr_count += 1
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 3b9396a..1b3da9b 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -129,7 +129,7 @@ class AsyncBackend(AsyncBackendBase):
                 val = b64encode(val)
 
             buf = '%s: %s,' % (repr(key), repr(val))
-            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\| `.,;:~')
+            buf = quote(buf, safe='!@#$^*()=+/?-_\'"><\\|`.,;:~')
             if len(buf) < chunksize:
                 headers['%smeta-%03d' % (self.hdr_prefix, hdr_count)] = buf
                 hdr_count += 1
-- 
2.43.0


From c7ce75c5a0941973c49927de972abba5b2df6a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:21 +0000
Subject: [PATCH 49/63] fix: retry on S3 errors with unknown code but temporary
 HTTP status

---
 src/s3ql/backends/s3c.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index a9f7d25..5d05809 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -554,7 +554,14 @@ class AsyncBackend(AsyncBackendBase):
 
         if tree is None:
             raise RuntimeError('XML document has no root element')
-        raise get_S3Error(tree.findtext('Code'), tree.findtext('Message'), resp.headers)
+        exc = get_S3Error(tree.findtext('Code'), tree.findtext('Message'), resp.headers)
+        if type(exc) is S3Error:
+            # Not a code that we know. If the HTTP status says that the problem is temporary,
+            # make sure that it is treated as such.
+            http_exc = HTTPError(resp.status, str(exc), resp.headers)
+            if self.is_temp_failure(http_exc):
+                raise http_exc
+        raise exc
 
     async def _parse_xml_response(
         self, conn: HTTPConnection, resp: HTTPResponse, body: bytes | None = None
-- 
2.43.0


From bd29905f40357d9e99d547f539e7da73f34da5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:20 +0000
Subject: [PATCH 50/63] fix: report exactly the remaining keys after a failed
 S3 bulk deletion

---
 src/s3ql/backends/s3c4.py | 49 ++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index c29926f..22c14e8 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -88,15 +88,16 @@ class AsyncBackend(s3c.AsyncBackend):
     async def delete_multi(self, keys: list[str], *, log_progress: bool = False) -> None:
         log.debug('started with %s', keys)
         total = len(keys)
-        failures: list[str] = []
-        processed = 0
         for batch in chunked(list(keys), MAX_KEYS):
-            await self._delete_multi(batch)
-            failures.extend(batch)
-            processed += len(batch)
+            requested = set(batch)
+            try:
+                await self._delete_multi(batch)
+            finally:
+                # *batch* now holds the keys that have not been deleted
+                deleted = requested.difference(batch)
+                keys[:] = [key for key in keys if key not in deleted]
             if log_progress:
-                log_delete_progress(processed - len(failures), total)
-        keys[:] = failures
+                log_delete_progress(total - len(keys), total)
 
     @retry
     async def _delete_multi(self, keys: list[str]) -> None:
@@ -134,23 +135,23 @@ class AsyncBackend(s3c.AsyncBackend):
                     assert fullkey is not None and fullkey.startswith(self.prefix)
                     keys.remove(fullkey[offset:])
 
-                if log.isEnabledFor(logging.DEBUG):
-                    for errtag in error_tags:
-                        errkey_text = errtag.findtext(ns_p + 'Key')
-                        log.debug(
-                            'Delete %s failed with %s',
-                            errkey_text[offset:] if errkey_text else None,
-                            errtag.findtext(ns_p + 'Code'),
-                        )
-
-                errcode = error_tags[0].findtext(ns_p + 'Code')
-                errmsg = error_tags[0].findtext(ns_p + 'Message')
-                errkey_text = error_tags[0].findtext(ns_p + 'Key')
-                errkey = errkey_text[offset:] if errkey_text else '<unknown>'
-
-                if errcode == 'NoSuchKey':
-                    pass
-                else:
+                failed_tags = []
+                for errtag in error_tags:
+                    errcode = errtag.findtext(ns_p + 'Code')
+                    errkey_text = errtag.findtext(ns_p + 'Key')
+                    errkey = errkey_text[offset:] if errkey_text else '<unknown>'
+                    log.debug('Delete %s failed with %s', errkey, errcode)
+                    if errcode != 'NoSuchKey':
+                        failed_tags.append(errtag)
+                    elif errkey in keys:
+                        # Same as if the object had been deleted
+                        keys.remove(errkey)
+
+                if failed_tags:
+                    errcode = failed_tags[0].findtext(ns_p + 'Code')
+                    errmsg = failed_tags[0].findtext(ns_p + 'Message')
+                    errkey_text = failed_tags[0].findtext(ns_p + 'Key')
+                    errkey = errkey_text[offset:] if errkey_text else '<unknown>'
                     raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
 
             except:
-- 
2.43.0


From 64488cafa15aa6ac2a116d10f14d068e14efe3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:05 +0000
Subject: [PATCH 51/63] fix: retry on temporary failures when looking up the
 region of a bucket

---
 src/s3ql/backends/b2ng.py | 3 ++-
 src/s3ql/backends/s3.py   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/backends/b2ng.py b/src/s3ql/backends/b2ng.py
index 26e8951..ab3fa5e 100644
--- a/src/s3ql/backends/b2ng.py
+++ b/src/s3ql/backends/b2ng.py
@@ -20,7 +20,7 @@ from s3ql.types import BasicMappingT
 
 from ..logging import QuietError
 from . import s3c4
-from .common import AuthenticationError, AuthorizationError
+from .common import AuthenticationError, AuthorizationError, retry
 from .s3c import HTTPError
 
 log = logging.getLogger(__name__)
@@ -102,6 +102,7 @@ class AsyncBackend(s3c4.AsyncBackend):
         port = 443 if ssl_context else 80
         return (hostname, port, bucket_name, prefix)
 
+    @retry
     async def _discover_region(self) -> None:
         '''Resolve the bucket's region via Backblaze's native authorize endpoint.
 
diff --git a/src/s3ql/backends/s3.py b/src/s3ql/backends/s3.py
index 4adb44d..c2d012d 100644
--- a/src/s3ql/backends/s3.py
+++ b/src/s3ql/backends/s3.py
@@ -17,6 +17,7 @@ from s3ql.http import CaseInsensitiveDict, HTTPConnection
 
 from ..logging import QuietError
 from . import s3c4
+from .common import retry
 
 log = logging.getLogger(__name__)
 
@@ -89,6 +90,7 @@ class AsyncBackend(s3c4.AsyncBackend):
 
         return self
 
+    @retry
     async def _discover_region(self) -> None:
         '''Probe the configured endpoint; retarget if redirected, error on wrong region.
 
-- 
2.43.0


From 92a8bf5ce72bcc9fdde4912f85b3872459ac02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:05 +0000
Subject: [PATCH 52/63] fix: detect data corrupted on the way from and to swift
 servers, and transfer it again

---
 src/s3ql/backends/swift.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index 1b3da9b..dffd217 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -277,7 +277,7 @@ class AsyncBackend(AsyncBackendBase):
             raise
 
     def is_temp_failure(self, exc):  # IGNORE:W0613
-        if isinstance(exc, AuthenticationExpired):  # noqa: SIM114
+        if isinstance(exc, (AuthenticationExpired, BadDigestError)):  # noqa: SIM114
             return True
 
         # In doubt, we retry on 5xx (Server error). However, there are some
@@ -457,6 +457,12 @@ class AsyncBackend(AsyncBackendBase):
 
         # Success
         if 200 <= resp.status <= 299:
+            etag = resp.headers['ETag']
+            if md5_hex is not None and etag is not None and etag.strip('"').lower() != md5_hex:
+                await conn.discard()
+                raise BadDigestError(
+                    'BadDigest', f'MD5 mismatch when uploading (received: {etag}, sent: {md5_hex})'
+                )
             return resp
 
         # Expired auth token
@@ -570,14 +576,12 @@ class AsyncBackend(AsyncBackendBase):
 
         headers['Content-Type'] = 'application/octet-stream'
 
-        if self.ssl_context:
-            md5_hex: str | None = None
-        else:
-            md5_hex = await hash_fh(fh, 'md5')
-            headers['Content-MD5'] = b64encode(bytes.fromhex(md5_hex)).decode('ascii')
-
+        md5_hex: str | None = None
         try:
             async with self._borrow_conn() as conn:
+                if conn.ssl_context is None:
+                    md5_hex = await hash_fh(fh, 'md5')
+                    headers['Content-MD5'] = b64encode(bytes.fromhex(md5_hex)).decode('ascii')
                 resp = await self._do_request(
                     conn,
                     'PUT',
-- 
2.43.0


From 210882c9b5841fde3a5d3b5489da940fd892f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:05 +0000
Subject: [PATCH 53/63] fix: do not consider objects as deleted if swift aborts
 a bulk deletion

---
 src/s3ql/backends/swift.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index dffd217..cf58730 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -735,9 +735,15 @@ class AsyncBackend(AsyncBackendBase):
             key = urllib.parse.unquote(fullkey[offset:])
             failed_keys.append(key)
             log.debug('Delete %s failed with %s', key, error[1])
-        for key in keys[:]:
-            if key not in failed_keys:
-                keys.remove(key)
+        if (
+            resp_dict['Number Deleted'] + resp_dict['Number Not Found'] + len(failed_keys)
+            == len(keys)
+        ):
+            for key in keys[:]:
+                if key not in failed_keys:
+                    keys.remove(key)
+        # Otherwise the server has stopped in the middle. We do not know which keys it has processed,
+        # so all of them have to be considered as not deleted.
 
         # At this point it is clear that the server has sent some kind of error response.
         # Swift is not very consistent in returning errors.
-- 
2.43.0


From abf182dcd3d45835b2198033c4fb81a2f544d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:19 +0000
Subject: [PATCH 54/63] fix: do not let a broken connection mask temporary
 errors of S3 bulk deletions

---
 src/s3ql/backends/s3c4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/backends/s3c4.py b/src/s3ql/backends/s3c4.py
index 22c14e8..2ba6282 100644
--- a/src/s3ql/backends/s3c4.py
+++ b/src/s3ql/backends/s3c4.py
@@ -155,7 +155,7 @@ class AsyncBackend(s3c.AsyncBackend):
                     raise get_S3Error(errcode, 'Error deleting %s: %s' % (errkey, errmsg))
 
             except:
-                await conn.discard()
+                await conn.aclose()
                 raise
 
     def _authorize_request(self, method, path, headers, subres, query_string):
-- 
2.43.0


From 835367d5bd1cfdd91ec67d70cbecbe2655209a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:34 +0000
Subject: [PATCH 55/63] fix: treat unparseable metadata headers like any other
 corruption in transit

---
 src/s3ql/backends/s3c.py   | 15 ++++++++++++---
 src/s3ql/backends/swift.py | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/s3ql/backends/s3c.py b/src/s3ql/backends/s3c.py
index 5d05809..6b1db44 100644
--- a/src/s3ql/backends/s3c.py
+++ b/src/s3ql/backends/s3c.py
@@ -714,7 +714,13 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
+        try:
+            meta = literal_eval('{ %s }' % buf)
+        except (SyntaxError, ValueError):
+            meta = None
+        if not isinstance(meta, dict) or not all(isinstance(k, str) for k in meta):
+            # This should trigger a MD5 mismatch below
+            meta = {}
 
         # Decode bytes values
         for k, v in meta.items():
@@ -733,8 +739,11 @@ class AsyncBackend(AsyncBackendBase):
         # sent over the wire. However, it seems more likely for the data to get
         # accidentally corrupted in transit than to get accidentally corrupted
         # on the server (which hopefully checksums its storage devices).
-        md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
-        if md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
+        try:
+            md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
+        except (TypeError, ValueError):
+            md5 = None  # Corrupted values can have any type
+        if md5 is None or md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
             log.warning('MD5 mismatch in metadata for %s', obj_key)
 
             # When trying to read file system revision 23 or earlier, we will
diff --git a/src/s3ql/backends/swift.py b/src/s3ql/backends/swift.py
index cf58730..2343e0b 100644
--- a/src/s3ql/backends/swift.py
+++ b/src/s3ql/backends/swift.py
@@ -168,7 +168,13 @@ class AsyncBackend(AsyncBackendBase):
                 break
             parts.append(part)
         buf = unquote(''.join(parts))
-        meta = literal_eval('{ %s }' % buf)
+        try:
+            meta = literal_eval('{ %s }' % buf)
+        except (SyntaxError, ValueError):
+            meta = None
+        if not isinstance(meta, dict) or not all(isinstance(k, str) for k in meta):
+            # This should trigger a MD5 mismatch below
+            meta = {}
 
         # Decode bytes values
         for k, v in meta.items():
@@ -187,8 +193,11 @@ class AsyncBackend(AsyncBackendBase):
         # sent over the wire. However, it seems more likely for the data to get
         # accidentally corrupted in transit than to get accidentally corrupted
         # on the server (which hopefully checksums its storage devices).
-        md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
-        if md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
+        try:
+            md5 = b64encode(checksum_basic_mapping(meta)).decode('ascii')
+        except (TypeError, ValueError):
+            md5 = None  # Corrupted values can have any type
+        if md5 is None or md5 != resp.headers.get('%smeta-md5' % self.hdr_prefix, None):
             log.warning('MD5 mismatch in metadata for %s', obj_key)
 
             # When trying to read file system revision 23 or earlier, we will
-- 
2.43.0


From 79e3aa9cafc0c31473ae5c436e21bfcf67a0738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 56/63] fix: an interrupted restore-metadata must not leave
 valid parameters with another database

---
 src/s3ql/adm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index 01871b3..c6b3a65 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -560,6 +560,11 @@ async def restore_metadata(
 
     params = await read_remote_params(backend, seq_no=seq_no)
 
+    # Until the download is complete, the local parameters must not vouch for the contents of the
+    # database file.
+    if os.path.exists(cachepath + '.params'):
+        os.unlink(cachepath + '.params')
+
     log.info('Downloading metadata...')
     conn = await download_metadata(
         backend,
-- 
2.43.0


From 050aa30f3f431aa9491e38598b8e28adecddb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 57/63] fix: an interrupted clear must not leave parameters
 without a database

---
 src/s3ql/adm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index c6b3a65..c31a6fe 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -265,7 +265,8 @@ async def clear(ctx: typer.Context, storage_url: StorageUrl, *, stack: AsyncExit
         raise QuietError()
 
     log.info('Deleting in batches...')
-    for suffix in ('.db', '.params'):
+    # The parameters must not exist without the database that they describe.
+    for suffix in ('.params', '.db'):
         name = cachepath + suffix
         if os.path.exists(name):
             os.unlink(name)
-- 
2.43.0


From 925f54662aa9a12aa91ebcf98a0c6d1d5395d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 58/63] fix: an interrupted upgrade can be resumed, and
 repeated on an upgraded file system

---
 src/s3ql/adm.py | 70 +++++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/s3ql/adm.py b/src/s3ql/adm.py
index c31a6fe..a7256da 100644
--- a/src/s3ql/adm.py
+++ b/src/s3ql/adm.py
@@ -352,6 +352,30 @@ async def shrink_db(ctx: typer.Context, storage_url: StorageUrl, *, stack: Async
     await expire_objects(backend)
 
 
+async def disable_old_metadata(backend: AsyncComprencBackend) -> None:
+    '''Re-upload the old metadata object with a new revision
+
+    This makes sure that we don't accidentally re-mount the filesystem with an older S3QL version.
+    '''
+
+    try:
+        params = await backend.lookup('s3ql_metadata')
+    except NoSuchObject:
+        return
+    assert isinstance(params['revision'], int) and isinstance(params['seq_no'], int)
+    if params['revision'] >= CURRENT_FS_REV:
+        return
+
+    log.info('Backing up old metadata...')
+    params['revision'] = CURRENT_FS_REV
+    params['seq_no'] += 1
+    with tempfile.TemporaryFile() as tmpfh:
+        await backend.readinto_fh('s3ql_metadata', tmpfh)
+        len_ = tmpfh.tell()
+        tmpfh.seek(0)
+        await backend.write_fh("s3ql_metadata", tmpfh, len_, metadata=params, dont_compress=True)
+
+
 @app.command()
 @trio_command
 async def upgrade(
@@ -393,22 +417,33 @@ async def upgrade(
 
     with open(params_path, 'rb') as fh:
         local_params: BasicMappingT = thaw_basic_mapping(fh.read())
+    local_revision = local_params['revision']
+    assert isinstance(local_revision, int)
+
+    # An upgrade may have been interrupted after updating the local parameters
+    if local_revision >= CURRENT_FS_REV and await backend.contains('s3ql_params'):
+        await disable_old_metadata(backend)
+        print('File system already at most-recent revision')
+        return
+
+    # If the filesystem was upgraded from elsewhere, this object has been updated as well
     try:
         remote_params = await backend.lookup('s3ql_metadata')
-
-    # Filesystem may have been updated already
     except NoSuchObject:
-        remote_params_typed = await read_remote_params(backend)
-        remote_params = {
-            'seq_no': remote_params_typed.seq_no,
-            'revision': remote_params_typed.revision,
-        }
+        raise QuietError('No S3QL file system of a previous revision found.', exitcode=18)
+
+    if local_revision >= CURRENT_FS_REV:
+        if local_params['seq_no'] == cast(int, remote_params['seq_no']) + 1:
+            log.info('Resuming interrupted upgrade...')
+            await upload_params(backend, FsAttributes(**local_params))  # type: ignore[arg-type]
+            await disable_old_metadata(backend)
+            print('File system upgrade complete.')
+            return
+        raise QuietError('Local metadata does not match file system.', exitcode=30)
 
     local_seq_no = local_params['seq_no']
     remote_seq_no = remote_params['seq_no']
-    local_revision = local_params['revision']
     assert isinstance(local_seq_no, int) and isinstance(remote_seq_no, int)
-    assert isinstance(local_revision, int)
 
     if local_seq_no < remote_seq_no:
         print(
@@ -441,10 +476,6 @@ async def upgrade(
         print(get_old_rev_msg(local_revision + 1, 's3qladm'))
         raise QuietError()
 
-    elif local_revision >= CURRENT_FS_REV:
-        print('File system already at most-recent revision')
-        return
-
     print(
         textwrap.dedent(
             f'''
@@ -491,18 +522,7 @@ async def upgrade(
     write_params(cachepath, params)
     await upload_params(backend, params)
 
-    # Re-upload the old metadata object to make sure that we don't accidentally
-    # re-mount the filesystem with an older S3QL version.
-    log.info('Backing up old metadata...')
-    local_params['revision'] = CURRENT_FS_REV
-    local_params['seq_no'] = local_seq_no + 1
-    with tempfile.TemporaryFile() as tmpfh:
-        await backend.readinto_fh('s3ql_metadata', tmpfh)
-        len_ = tmpfh.tell()
-        tmpfh.seek(0)
-        await backend.write_fh(
-            "s3ql_metadata", tmpfh, len_, metadata=local_params, dont_compress=True
-        )
+    await disable_old_metadata(backend)
 
     print('File system upgrade complete.')
 
-- 
2.43.0


From c33fd4a92aa9fb67592b1a6e2489a7396da2a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 59/63] fix: local parameters of a failed mount must not
 supersede a later session elsewhere

---
 src/s3ql/database.py | 16 ++++++++++++++++
 src/s3ql/fsck.py     |  4 ++++
 src/s3ql/mount.py    |  4 ++++
 3 files changed, 24 insertions(+)

diff --git a/src/s3ql/database.py b/src/s3ql/database.py
index b5b52f4..e82c462 100644
--- a/src/s3ql/database.py
+++ b/src/s3ql/database.py
@@ -1351,6 +1351,22 @@ def read_cached_params(cachepath: str, min_seq: int | None = None) -> FsAttribut
     return params
 
 
+def superseded(local_params: FsAttributes, remote_params: FsAttributes) -> bool:
+    '''Return True if the filesystem was used elsewhere with the sequence number in *local_params*
+
+    Sessions (of mount.s3ql, fsck.s3ql etc.) always store their parameters locally before uploading
+    them. If the local parameters say that the session is still running but the remote parameters
+    say that it is over, then the local session failed before it could upload its parameters and
+    modify anything, and a different computer used the same sequence number afterwards.
+    '''
+
+    return (
+        local_params.seq_no == remote_params.seq_no
+        and local_params.is_mounted
+        and not remote_params.is_mounted
+    )
+
+
 async def read_remote_params(backend: AsyncBackend, seq_no: int | None = None) -> FsAttributes:
     if seq_no is None:
         try:
diff --git a/src/s3ql/fsck.py b/src/s3ql/fsck.py
index d0db4b1..72a5d90 100644
--- a/src/s3ql/fsck.py
+++ b/src/s3ql/fsck.py
@@ -51,6 +51,7 @@ from .database import (
     get_available_seq_nos,
     read_cached_params,
     read_remote_params,
+    superseded,
     upload_metadata,
     upload_params,
     write_params,
@@ -1358,6 +1359,9 @@ async def fsck(
 
     param = await read_remote_params(backend)
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
+    if local_param is not None and superseded(local_param, param):
+        log.info('Ignoring locally cached metadata (outdated).')
+        local_param = None
     if local_param is not None:
         log.info('Using cached metadata.')
         remote_param = param
diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index 824bc11..c5585d9 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -46,6 +46,7 @@ from .database import (
     expire_objects,
     read_cached_params,
     read_remote_params,
+    superseded,
     upload_metadata,
     upload_params,
     write_params,
@@ -582,6 +583,9 @@ async def get_metadata(
     db = None
     param = await read_remote_params(backend)
     local_param = read_cached_params(cachepath, min_seq=param.seq_no)
+    if local_param is not None and superseded(local_param, param):
+        log.info('Ignoring locally cached metadata (outdated).')
+        local_param = None
     if local_param is not None:
         # If the sequence numbers are equal, the parameters differ if the last unmount was
         # interrupted before it could upload them.
-- 
2.43.0


From 9b6b0a2ed73282ed3f3d89627ad87b7fa016bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:22 +0000
Subject: [PATCH 60/63] fix: recently written blocks must not delay the upload
 of long unmodified ones

The cache is ordered by last access, so a block that was just written could precede one
that has not been modified for longer than the upload delay. As long as that was the
case, no block was uploaded.
---
 src/s3ql/mount.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/s3ql/mount.py b/src/s3ql/mount.py
index c5585d9..5a4bf6a 100644
--- a/src/s3ql/mount.py
+++ b/src/s3ql/mount.py
@@ -851,11 +851,13 @@ class CommitTask:
             did_sth = False
             stamp = time.time()
             for el in self.block_cache.cache.mutable_values():
-                if (
-                    self.stop_event.is_set()
-                    or stamp - el.last_write < self.dirty_block_upload_delay
-                ):
+                if self.stop_event.is_set():
                     break
+                # The cache is ordered by last access (including reads), so recently
+                # written blocks may precede blocks that have not been written for a
+                # long time.
+                if stamp - el.last_write < self.dirty_block_upload_delay:
+                    continue
                 if el.dirty and not el.in_transit:
                     await self.block_cache.upload_if_dirty(el)
                     did_sth = True
-- 
2.43.0


From a57787c7ccef906a1c913e0049b866ae5a3adb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:22 +0000
Subject: [PATCH 61/63] fix: s3qlrm must not follow a symbolic link to find the
 directory of an entry

'link/..' is the parent of the directory that the link points to, so that an entry of the
same name was removed from the wrong directory.
---
 src/s3ql/remove.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/remove.py b/src/s3ql/remove.py
index 5f53872..a70a32f 100644
--- a/src/s3ql/remove.py
+++ b/src/s3ql/remove.py
@@ -55,12 +55,16 @@ async def remove(
         if os.path.ismount(name):
             raise QuietError('%s is a mount point.' % name)
 
-        parent = os.path.join(name, '..')
+        if not os.path.lexists(name):
+            raise QuietError('%s does not exist' % name)
+
+        # Do not use `name/..`, which follows symbolic links
+        parent = os.path.dirname(name) or '.'
         ctrlfile = assert_fs_owner(parent)
         fstat_p = os.stat(parent)
 
         # Make sure that write cache is flushed
-        pyfuse3.syncfs(name)
+        pyfuse3.syncfs(parent)
 
         cmd = ('(%d, %r)' % (fstat_p.st_ino, path2bytes(os.path.basename(name)))).encode()
         try:
-- 
2.43.0


From 9056f65e29c9a513c06fa563ecfbd3e3d87842a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:38 +0000
Subject: [PATCH 62/63] fix: s3qlctrl log warn sets the requested level

---
 src/s3ql/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s3ql/fs.py b/src/s3ql/fs.py
index 29a2bec..7ca3c06 100644
--- a/src/s3ql/fs.py
+++ b/src/s3ql/fs.py
@@ -1514,7 +1514,7 @@ class Operations(pyfuse3.Operations):
 
 def update_logging(level: int, modules: list[str] | None) -> None:
     root_logger = logging.getLogger()
-    root_logger.setLevel(logging.INFO)
+    root_logger.setLevel(logging.INFO if level == logging.DEBUG else level)
     if level == logging.DEBUG:
         logging.disable(logging.NOTSET)
         if modules is not None and 'all' in modules:
-- 
2.43.0


From 07ea53646ea06229c7c8c9d425db2618e6b62a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:15 +0000
Subject: [PATCH 63/63] fix: detect mounted file systems whose URL is escaped
 in /proc/mounts

The kernel escapes blanks, tabs, backslashes and others, so that commands did
not notice that the file system is mounted. A mount entry that is not valid
UTF-8 made every command fail.
---
 src/s3ql/common.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/s3ql/common.py b/src/s3ql/common.py
index 135e743..14aa0bc 100644
--- a/src/s3ql/common.py
+++ b/src/s3ql/common.py
@@ -14,6 +14,7 @@ import hashlib
 import logging
 import os
 import posixpath
+import re
 import subprocess
 import sys
 import time
@@ -65,8 +66,14 @@ def is_mounted(storage_url: str) -> bool:
 
     match = storage_url + ' '
     if os.path.exists('/proc/mounts'):
-        with open('/proc/mounts') as fh:
-            return any(line.startswith(match) for line in fh)
+        # The kernel replaces blanks and backslashes (among others) by octal escapes, and
+        # other mount points need not be valid UTF-8.
+        with open('/proc/mounts', errors='surrogateescape') as fh:
+            return any(
+                re.sub(r'\\([0-7]{3})', lambda m: chr(int(m.group(1), 8)), line.split(' ', 1)[0])
+                == storage_url
+                for line in fh
+            )
 
     try:
         for line in subprocess.check_output(
-- 
2.43.0

