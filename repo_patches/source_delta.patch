From 64d767fb45f49adaa71437be29fc9456ea15ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 01/26] fix: sync RBD backup data before marking the revision
 complete

---
 src/backy/rbd/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index 86d6a7b..fa25a6f 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -158,6 +158,11 @@ class RBDSource(Source[RBDRestoreArgs]):
             self.repository.distrust(
                 self.repository.find_revisions("local"), skip_lock=True
             )
+        # Switched from a fine-grained syncing mechanism to "everything
+        # once" when we're done. This is as safe but much faster. It has to
+        # happen before the revision is marked as complete: otherwise a crash
+        # could leave a seemingly clean revision behind that lacks its data.
+        os.sync()
         if not verified:
             self.log.error(
                 "verification-failed",
@@ -169,9 +174,6 @@ class RBDSource(Source[RBDRestoreArgs]):
             revision.stats["duration"] = time.time() - start
             revision.write_info()
             revision.readonly()
-        # Switched from a fine-grained syncing mechanism to "everything
-        # once" when we're done. This is as safe but much faster.
-        os.sync()
 
         # If there are distrusted revisions, then perform at least one
         # verification after a backup - for good measure and to keep things
-- 
2.43.0


From e67bf16717f78298a7a6613f92e3635261451ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 02/26] fix: sync file backup data before marking the revision
 complete

---
 src/backy/file/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 768c0cb..4b793b8 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -1,3 +1,4 @@
+import os
 import shutil
 import sys
 import time
@@ -63,6 +64,8 @@ class FileSource(Source[FileRestoreArgs]):
         assert not backup.exists()
         start = time.time()
         shutil.copy(self.filename, backup)
+        # The data has to be durable before the revision is marked complete.
+        os.sync()
         revision.stats["duration"] = time.time() - start
         revision.write_info()
         revision.readonly()
-- 
2.43.0


From ad83022801b06a35c7a495f08eb3ef812490d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 03/26] fix: detect distrusted revisions so that backups
 rewrite their chunks

contains_distrusted compared the revision itself with the trust state and
was therefore always false.
---
 src/backy/repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2513762..b282a9b 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -254,7 +254,7 @@ class Repository(object):
     def contains_distrusted(self) -> bool:
         return any(
             (
-                r == Trust.DISTRUSTED
+                r.trust == Trust.DISTRUSTED
                 for r in self.get_history(clean=True, local=True)
             )
         )
-- 
2.43.0


From 0f85dc311b708c26e8ad79d9ed5a29db877c8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 04/26] fix: make reports_delete build a valid report file name

---
 src/backy/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index 48c1d72..f2f3408 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -343,7 +343,7 @@ class Command(object):
         else:
             ids = reports.split(",")
         for id in ids:
-            path = repo.report_path.joinpath(id).with_suffix("report")
+            path = repo.report_path.joinpath(id).with_suffix(".report")
             path.unlink()
             log.info("report-deleted", id=id)
 
-- 
2.43.0


From 7258ff8db73171d1ea118f1970c8fe638bbc3cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 05/26] fix: hold the repository lock while a locked coroutine
 runs

The lock was released as soon as the coroutine object was created, before
any of its code ran.
---
 src/backy/repository.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index b282a9b..af293f1 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -1,6 +1,7 @@
 import contextlib
 import datetime
 import fcntl
+import inspect
 import re
 from math import ceil, floor
 from pathlib import Path
@@ -144,6 +145,21 @@ class Repository(object):
         repo_attr: Optional[str] = None,
     ):
         def wrap(f):
+            if inspect.iscoroutinefunction(f):
+
+                async def locked_function(self, *args, skip_lock=False, **kw):
+                    if skip_lock:
+                        return await f(self, *args, **kw)
+                    repo = getattr(self, repo_attr) if repo_attr else self
+                    # Hold the lock until the coroutine has finished.
+                    with repo.lock(target, mode, f.__name__):
+                        return await f(self, *args, **kw)
+
+                locked_function.__name__ = "locked({}, {})".format(
+                    f.__qualname__, target
+                )
+                return locked_function
+
             def locked_function(self, *args, skip_lock=False, **kw):
                 if skip_lock:
                     return f(self, *args, **kw)
-- 
2.43.0


From cd63467733cc5fe6e3d4657db691af361e9647d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 06/26] fix: decide which revisions are incomplete while
 holding the lock

---
 src/backy/repository.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index af293f1..2c0c651 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -311,6 +311,9 @@ class Repository(object):
     @locked(target=".backup", mode="exclusive")
     def _clean(self) -> None:
         """Clean-up incomplete revisions."""
+        # The history may have been loaded before we got the lock: a revision
+        # that was still incomplete then may have been completed since.
+        self.scan()
         for revision in self.local_history:
             if "duration" not in revision.stats:
                 self.log.warning(
-- 
2.43.0


From 26e282318db10674ed4f1e2fa22c2feab1262ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 07/26] fix: collect the chunks in use while holding the purge
 lock

---
 src/backy/rbd/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index fa25a6f..ec17b41 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -257,6 +257,9 @@ class RBDSource(Source[RBDRestoreArgs]):
     @locked(target=".purge", mode="exclusive")
     def gc(self) -> None:
         self.log.debug("purge")
+        # Another process may have added revisions before we got the lock:
+        # their chunks must not be considered unused.
+        self.repository.scan()
         used_chunks: Set[Hash] = set()
         # TODO: also remove mapping file
         # TODO: purge quarantine store
-- 
2.43.0


From 9f4b472ab30d749bfd7cb44fff7d1e3f2f822dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 08/26] fix: do not purge chunks without the exclusive purge
 lock

verify() called gc() while only holding the shared purge lock. A backup
running in parallel holds the same lock and lost chunks that no revision
file references yet.
---
 src/backy/rbd/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index ec17b41..ec5508c 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -248,8 +248,10 @@ class RBDSource(Source[RBDRestoreArgs]):
         yield
 
         # Purge to ensure that we don't leave unused, potentially untrusted
-        # stuff around, especially if this was the last revision.
-        self.gc(skip_lock=True)
+        # stuff around, especially if this was the last revision. This can't be
+        # done here: we only have a shared lock, so a backup running at the
+        # same time would lose the chunks it has already written.
+        self.repository.set_purge_pending()
 
         yield END
         yield None
-- 
2.43.0


From 89b404505e29b6d094b79f1c9252e87127e9b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 09/26] fix: skip garbage snapshot requests after removing them

---
 src/backy/rbd/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/rbd/__init__.py b/src/backy/rbd/__init__.py
index ec5508c..fa66a2f 100644
--- a/src/backy/rbd/__init__.py
+++ b/src/backy/rbd/__init__.py
@@ -477,6 +477,7 @@ class CephRBD:
                         snapshot_key=key,
                     )
                     del consul.kv[key]
+                    continue
                 if s["vm"] != self.vm:
                     continue
                 # The knowledge about the `backy-` prefix  isn't properly
-- 
2.43.0


From ce53f3a698c688f1c57ae97abaf996073ad2c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 10/26] fix: unmap the RBD image if its device cannot be opened
 or closed

---
 src/backy/rbd/rbd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index f53cee1..33f56c2 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -153,11 +153,13 @@ class RBDClient(object):
     @contextlib.contextmanager
     def image_reader(self, image: str) -> Iterator[BinaryIO]:
         mapped = self.map(image, readonly=True)
-        source = open(mapped["device"], "rb", buffering=CHUNK_SIZE)
         try:
-            yield source
+            source = open(mapped["device"], "rb", buffering=CHUNK_SIZE)
+            try:
+                yield source
+            finally:
+                source.close()
         finally:
-            source.close()
             self.unmap(mapped["device"])
 
     @contextlib.contextmanager
-- 
2.43.0


From 2d148c437e90fc2651dcee962821f0a00dd68b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 11/26] fix: accept dates that select the oldest revision

The index 0.0 was treated like 'not a date'. Also don't print debugging
output to stdout, where users parse the output of rev-parse.
---
 src/backy/repository.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/repository.py b/src/backy/repository.py
index 2c0c651..eb33bfa 100644
--- a/src/backy/repository.py
+++ b/src/backy/repository.py
@@ -473,9 +473,10 @@ class Repository(object):
             spec, list
         ), "can only index a single revision specifier"
         if isinstance(spec, str):
-            return self.index_by_date(spec) or self.history.index(
-                self.find(spec)
-            )
+            index = self.index_by_date(spec)
+            if index is not None:
+                return index
+            return self.history.index(self.find(spec))
         else:
             return self.history.index(spec)
 
@@ -497,7 +498,6 @@ class Repository(object):
                 0,
                 len(self.history),
             )
-            print(spec, L, r)
             assert 0 <= r - L <= 1, (
                 "can not index with date if multiple revision have the same "
                 "timestamp"
-- 
2.43.0


From af7d569d2b9981371b0be0736f9537190e97955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 12/26] fix: report failed gc and verify runs in the exit code

The return code of gc was dropped and negative return codes (of processes
ended by a signal) were ignored.
---
 src/backy/cli/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index f2f3408..d144f14 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -99,7 +99,7 @@ class Command(object):
                         r = await r
                     if not isinstance(r, int):
                         r = 0
-                    ret = max(ret, r)
+                    ret = max(ret, abs(r))
             elif (
                 "repos" in params
                 and params["repos"].annotation == List[Repository]
@@ -280,7 +280,7 @@ class Command(object):
         # TODO support multiple repos
         ret = 0
         for r in self.source.repository.find_revisions(revision):
-            ret = max(ret, self.source.verify(r))
+            ret = max(ret, abs(self.source.verify(r)))
         return ret
 
     def rm(self, repo: Repository, revision: str) -> None:
@@ -311,7 +311,7 @@ class Command(object):
         )
         return int(not success)
 
-    def gc(self, repo: Repository, expire: bool, local: bool) -> None:
+    def gc(self, repo: Repository, expire: bool, local: bool) -> int:
         if expire and not local:
             assert False  # request pull from daemon
             # XXX needs to update from remote API peers first (pull)
@@ -320,7 +320,7 @@ class Command(object):
             repo.expire()
         if expire and not local:
             assert False  # request push from daemon
-        self.source.gc()
+        return self.source.gc()
 
     def reports_list(self, repo: Repository):
         for id in repo.report_ids:
-- 
2.43.0


From 5b22c114db18bf361793576362ec090cf24156ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 13/26] fix: do not lose reloads that happen while the API is
 reconfigured

---
 src/backy/daemon/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 34ba879..0bfde85 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -247,10 +247,12 @@ class BackyDaemon(object):
             await api.start()
             while True:
                 self.log.info("api-reconfigure")
+                # Clear this first: a reload that happens while we reconfigure
+                # must not get lost.
+                self.reload_api.clear()
                 await api.reconfigure(
                     self.api_tokens, self.api_addrs, self.api_port
                 )
-                self.reload_api.clear()
                 await self.reload_api.wait()
         except Exception:
             self.log.exception("api_server_loop")
-- 
2.43.0


From a9b954767ce18a89ecce64dadb0bda05cf7eb411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 14/26] fix: load the source of inactive jobs before purging
 them

The job was never configured so run_gc always failed with an
AttributeError.
---
 src/backy/daemon/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index 0bfde85..c493176 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -21,6 +21,7 @@ from backy import logging
 from backy.repository import Repository, StatusDict
 from backy.revision import filter_manual_tags
 from backy.schedule import Schedule
+from backy.source import AsyncCmdLineSource
 from backy.utils import has_recent_changes, is_dir_no_symlink
 
 from .api import BackyAPI
@@ -324,7 +325,9 @@ class BackyDaemon(object):
                     ):
                         continue
                     self.log.info("purging-pending", job=candidate.name)
-                    await Job(self, candidate.name, self.log).run_gc()
+                    job = Job(self, candidate.name, self.log)
+                    job.source = AsyncCmdLineSource.load(job.path, job.log)
+                    await job.run_gc()
                 self.log.info("purge-pending-finished")
             except Exception:
                 self.log.exception("purge-pending")
-- 
2.43.0


From ba31213b4be80a5ef6302fb3d0a17743f960544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 15/26] fix: do not delete the metadata of all revisions in
 FileSource.gc

The metadata files were compared with the names of the data files, so none
of them was expected.
---
 src/backy/file/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index 4b793b8..ae4c6e3 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -75,10 +75,14 @@ class FileSource(Source[FileRestoreArgs]):
         shutil.copy(self._path_for_revision(revision), args.target)
 
     def gc(self):
-        files = set(self.repository.path.glob("*.rev"))
+        self.repository.scan()
+        files = set(
+            f
+            for f in self.repository.path.glob("*.rev")
+            if not f.is_symlink()
+        )
         expected_files = set(
-            (self.repository.path / r.uuid)
-            for r in self.repository.get_history()
+            r.info_filename for r in self.repository.get_history()
         )
         for file in files - expected_files:
             file.unlink()
-- 
2.43.0


From 9a84e8934f66f52f0dc9764cc17ad57abd9f466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 16/26] fix: lock the repository in FileSource

---
 src/backy/file/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index ae4c6e3..dba2d77 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -5,7 +5,7 @@ import time
 from argparse import _ActionsContainer
 from dataclasses import dataclass
 from pathlib import Path
-from typing import Any, Iterable
+from typing import Any, Iterable, Literal
 
 from structlog.stdlib import BoundLogger
 
@@ -15,6 +15,10 @@ from backy.source import RestoreArgs, Source
 from ..repository import Repository
 
 
+def locked(target: str, mode: Literal["shared", "exclusive"]):
+    return Repository.locked(target, mode, repo_attr="repository")
+
+
 @dataclass(frozen=True)
 class FileRestoreArgs(RestoreArgs):
     target: Path
@@ -59,6 +63,8 @@ class FileSource(Source[FileRestoreArgs]):
     def _path_for_revision(self, revision: Revision) -> Path:
         return self.repository.path / revision.uuid
 
+    @locked(target=".backup", mode="exclusive")
+    @locked(target=".purge", mode="shared")
     def backup(self, revision: Revision):
         backup = self._path_for_revision(revision)
         assert not backup.exists()
@@ -71,9 +77,11 @@ class FileSource(Source[FileRestoreArgs]):
         revision.readonly()
         return True
 
+    @locked(target=".purge", mode="shared")
     def restore(self, revision: Revision, args: FileRestoreArgs):
         shutil.copy(self._path_for_revision(revision), args.target)
 
+    @locked(target=".purge", mode="exclusive")
     def gc(self):
         self.repository.scan()
         files = set(
-- 
2.43.0


From e11a9506fbd3b350f47e1cf4ab2ac00f7e67affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 17/26] fix: mark pending purges as done in FileSource.gc

---
 src/backy/file/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backy/file/__init__.py b/src/backy/file/__init__.py
index dba2d77..b3240df 100644
--- a/src/backy/file/__init__.py
+++ b/src/backy/file/__init__.py
@@ -94,6 +94,7 @@ class FileSource(Source[FileRestoreArgs]):
         )
         for file in files - expected_files:
             file.unlink()
+        self.repository.clear_purge_pending()
 
     def verify(self, revision: Revision):
         assert self._path_for_revision(revision).exists()
-- 
2.43.0


From 76e560328aa6b4f3f7b68a92d896e7e4fff6d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 18/26] fix: keep the known remote revisions if a peer fails to
 list them

Any error response made us forget all revisions of the peer, including tag
changes that were not pushed yet.
---
 src/backy/daemon/scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 9fea1d6..b515eef 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -464,16 +464,16 @@ class Job(object):
             ]:
                 log.debug("pull-not-found")
             else:
+                # We don't know which revisions exist: keep the known ones.
                 log.warning("pull-client-error", exc_style="short")
-                error = True
+                return True
             remote_revs = []
         except ClientConnectionError:
             log.warning("pull-connection-error", exc_style="short")
             return True
         except ClientError:
             log.exception("pull-error")
-            error = True
-            remote_revs = []
+            return True
 
         local_uuids = {
             r.uuid
-- 
2.43.0


From 432d8093a96e085d27960f9e97a3fb97f19f00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 19/26] fix: never overwrite local revisions with those pulled
 from a peer

---
 src/backy/daemon/scheduler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index b515eef..f15fd9b 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -485,7 +485,17 @@ class Job(object):
             log.warning("pull-removing-unknown-rev", rev_uuid=uuid)
             self.repository.find_by_uuid(uuid).remove(force=True)
 
+        other_uuids = {
+            r.uuid
+            for r in self.repository.history
+            if r.server != api.server_name
+        }
         for r in remote_revs:
+            if r.uuid in other_uuids:
+                # Never replace our own revisions (or those of other peers).
+                log.warning("pull-conflicting-rev", rev_uuid=r.uuid)
+                error = True
+                continue
             if r.uuid in local_uuids:
                 if (
                     r.to_dict()
-- 
2.43.0


From b649c01bdd1620e440a1c5fb329643a660ca24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 20/26] fix: keep the backup loop of a job alive if its
 repository is unreadable

An exception while loading the history ended the loop: the job made no
further backups until the daemon was restarted.
---
 src/backy/daemon/scheduler.py | 43 ++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index f15fd9b..152949c 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -205,11 +205,20 @@ class Job(object):
             self.repository.log = self.repository.log.bind(
                 job_name=self.name, sub_taskid=self.taskid
             )
-            self.repository.connect()
+            try:
+                self.repository.connect()
 
-            next_time, next_tags = self.schedule.next(
-                backy.utils.now(), self.spread, self.repository
-            )
+                next_time, next_tags = self.schedule.next(
+                    backy.utils.now(), self.spread, self.repository
+                )
+            except Exception:
+                self.log.exception("exception")
+                self._increase_backoff()
+                if await backy.utils.delay_or_event(
+                    self.backoff, self.run_immediately
+                ):
+                    self.run_immediately.clear()
+                continue
 
             if self.errors:
                 # We're retrying - do not pay attention to the schedule but
@@ -268,23 +277,25 @@ class Job(object):
                 raise
             except Exception:
                 self.log.exception("exception")
-
-                self.update_status("failed")
-                # Something went wrong. Use bounded expontial backoff to avoid
-                # hogging the workers. We sometimes can't make backups because
-                # of external reasons (i.e. the VM is shut down and properly
-                # making a snapshot fails
-                self.errors += 1
-                # Our retry series (in minutes). We converge on waiting
-                # 6 hours maximum for retries.
-                # 2, 4, 8, 16, 32, 65, ..., 6*60, 6*60, ...
-                self.backoff = min([2**self.errors, 6 * 60]) * 60
-                self.log.warning("backoff", backoff=self.backoff)
+                self._increase_backoff()
             else:
                 self.errors = 0
                 self.backoff = 0
                 self.update_status("finished")
 
+    def _increase_backoff(self) -> None:
+        self.update_status("failed")
+        # Something went wrong. Use bounded expontial backoff to avoid
+        # hogging the workers. We sometimes can't make backups because
+        # of external reasons (i.e. the VM is shut down and properly
+        # making a snapshot fails
+        self.errors += 1
+        # Our retry series (in minutes). We converge on waiting
+        # 6 hours maximum for retries.
+        # 2, 4, 8, 16, 32, 65, ..., 6*60, 6*60, ...
+        self.backoff = min([2**self.errors, 6 * 60]) * 60
+        self.log.warning("backoff", backoff=self.backoff)
+
     async def run_backup(self, tags: Set[str]) -> None:
         self.log.info("backup-started", tags=", ".join(tags))
 
-- 
2.43.0


From 0084ae4ea2c932420168f6ae3ecb84ec9ab48b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 21/26] fix: treat a peer that does not answer in time like an
 unreachable one

---
 src/backy/daemon/scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 152949c..f230be3 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -414,7 +414,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -429,7 +429,7 @@ class Job(object):
             except ClientResponseError:
                 log.warning("push-purge-client-error", exc_style="short")
                 error = True
-            except ClientConnectionError:
+            except (ClientConnectionError, asyncio.TimeoutError):
                 log.warning("push-purge-connection-error", exc_style="short")
                 error = True
             except ClientError:
@@ -479,7 +479,7 @@ class Job(object):
                 log.warning("pull-client-error", exc_style="short")
                 return True
             remote_revs = []
-        except ClientConnectionError:
+        except (ClientConnectionError, asyncio.TimeoutError):
             log.warning("pull-connection-error", exc_style="short")
             return True
         except ClientError:
-- 
2.43.0


From 82337be68be042572de7bd7d395767d842193b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 22/26] fix: show-jobs without a job filter failed

None is not a valid query parameter value.
---
 src/backy/cli/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backy/cli/__init__.py b/src/backy/cli/__init__.py
index d144f14..9a9dd03 100644
--- a/src/backy/cli/__init__.py
+++ b/src/backy/cli/__init__.py
@@ -397,7 +397,7 @@ class Command(object):
             "Next Tags",
         )
 
-        jobs = await self.api.fetch_status(self.jobs)
+        jobs = await self.api.fetch_status(self.jobs or "")
         jobs.sort(key=lambda j: j["job"])
         for job in jobs:
             if job["job"] not in repo_names:
-- 
2.43.0


From dfd799e1878bd54b0a1d88b66f084d00e2761fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 23/26] fix: ask other servers for exactly the job's name

The name was used as regular expression: another job could be taken for the
own one (or the own one not found).
---
 src/backy/daemon/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index f230be3..1508135 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -2,6 +2,7 @@ import asyncio
 import datetime
 import hashlib
 import random
+import re
 import subprocess
 from collections import defaultdict
 from datetime import timedelta
@@ -109,7 +110,7 @@ class Job(object):
         try:
             api = ClientManager(self.daemon.peers, self.taskid, self.log)
             statuses = await asyncio.gather(
-                *[api[server].fetch_status(f"^{self.name}$") for server in api],
+                *[api[server].fetch_status(f"^{re.escape(self.name)}$") for server in api],
                 return_exceptions=True,
             )
             leader = None
@@ -164,7 +165,7 @@ class Job(object):
                     log.info("run-immediately-triggered")
                     return False
                 try:
-                    res = (await api[leader].fetch_status(f"^{self.name}$"))[0]
+                    res = (await api[leader].fetch_status(f"^{re.escape(self.name)}$"))[0]
                 except ClientError:
                     log.warning("leader-failed", exc_style="short")
                     return False
-- 
2.43.0


From 048d9276c57efa6ab0ff6cad4e40b43dfbc2fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:17 +0000
Subject: [PATCH 24/26] fix: a server that does not know a job does not keep
 others from following the leader

---
 src/backy/daemon/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backy/daemon/scheduler.py b/src/backy/daemon/scheduler.py
index 1508135..4283008 100644
--- a/src/backy/daemon/scheduler.py
+++ b/src/backy/daemon/scheduler.py
@@ -128,6 +128,9 @@ class Job(object):
                         exc_style="short",
                     )
                     continue
+                if not status:
+                    log.info("unknown-job")
+                    continue
                 num_remote_revs = status[0]["local_revs"]
                 log.info("duplicate-job", remote_revs=num_remote_revs)
                 if num_remote_revs > leader_revs:
-- 
2.43.0


From 9daf53074ddef2e943b9a5489a010ceb071ed462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:30 +0000
Subject: [PATCH 25/26] fix: unmap an RBD image whose device cannot be
 determined

If 'rbd showmapped' failed or did not list the image that was just mapped,
map() raised without telling the device, and the image stayed mapped: the
snapshot could not be removed any more.
---
 src/backy/rbd/rbd.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/backy/rbd/rbd.py b/src/backy/rbd/rbd.py
index 33f56c2..39c85ff 100644
--- a/src/backy/rbd/rbd.py
+++ b/src/backy/rbd/rbd.py
@@ -87,17 +87,6 @@ class RBDClient(object):
 
         self._rbd(["map", image, "--read-only" if readonly else ""])
 
-        mappings_raw = self._rbd(["showmapped"], format="json")
-
-        if "nautilus" in versionstring:
-            mapping = parse_mappings_since_nautilus(mappings_raw)
-        elif "luminous" in versionstring:
-            mapping = parse_mappings_pre_nautilus(mappings_raw)
-        else:
-            # our jewel build provides no version info
-            # this will break with releases newer than nautilus
-            mapping = parse_mappings_pre_nautilus(mappings_raw)
-
         def scrub_mapping(mapping):
             SPEC = {"pool", "name", "snap", "device"}
             # Ensure all specced keys exist
@@ -112,7 +101,27 @@ class RBDClient(object):
                     del mapping[key]
             return mapping
 
-        return scrub_mapping(mapping)
+        try:
+            mappings_raw = self._rbd(["showmapped"], format="json")
+
+            if "nautilus" in versionstring:
+                mapping = parse_mappings_since_nautilus(mappings_raw)
+            elif "luminous" in versionstring:
+                mapping = parse_mappings_pre_nautilus(mappings_raw)
+            else:
+                # our jewel build provides no version info
+                # this will break with releases newer than nautilus
+                mapping = parse_mappings_pre_nautilus(mappings_raw)
+
+            return scrub_mapping(mapping)
+        except BaseException:
+            # The caller does not get to know the device, so nobody else would
+            # unmap it.
+            try:
+                self.unmap(image)
+            except Exception:
+                self.log.exception("unmap-failed", image=image)
+            raise
 
     def unmap(self, device):
         self._rbd(["unmap", device])
-- 
2.43.0


From 7744d8eee2528072f6e50e1e521c6f57ddaafe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:35 +0000
Subject: [PATCH 26/26] fix: put IPv6 addresses in brackets in the default API
 URL

The default of api.addrs starts with ::1, for which the command line's
client got the invalid URL http://::1:6023.
---
 src/backy/daemon/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backy/daemon/__init__.py b/src/backy/daemon/__init__.py
index c493176..10b4d93 100644
--- a/src/backy/daemon/__init__.py
+++ b/src/backy/daemon/__init__.py
@@ -97,9 +97,11 @@ class BackyDaemon(object):
             and self.api_port
             and "url" not in self.api_cli_default
         ):
-            self.api_cli_default[
-                "url"
-            ] = f"http://{self.api_addrs[0]}:{self.api_port}"
+            host = self.api_addrs[0]
+            if ":" in host:
+                # IPv6 addresses need brackets in a URL
+                host = f"[{host}]"
+            self.api_cli_default["url"] = f"http://{host}:{self.api_port}"
 
         new = {}
         for name, config in self.config["schedules"].items():
-- 
2.43.0

