From dd77cbc6320ea6935ebaafc6eb60f0335b263ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 01/27] fix: do not replicate statements of a rolled back
 transaction

---
 src/_zkapauthorizer/replicate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 94383f7..eb424e3 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -445,6 +445,10 @@ class _ReplicationCapableConnection:
         exc_tb: Optional[Any],
     ) -> bool:
         propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        if exc_type is not None:
+            # The transaction was rolled back so nothing recorded during it
+            # happened.  Don't let it be delivered with a later transaction.
+            self._mutations = list()
         if exc_type is None:
             # There was no exception, signal observers that a change has been
             # committed.
-- 
2.43.0


From bce021da88ee490c711988dd5138a8e53bff2d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 02/27] fix: do not prune the first event if it is recorded
 during a snapshot upload

---
 src/_zkapauthorizer/replicate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index eb424e3..8cdaa97 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -943,7 +943,10 @@ class _ReplicationService(Service):
         from the replica that are no longer relevant.
         """
         # extract sequence-number and snapshot data
-        seqnum = 1
+        #
+        # If no event has ever been recorded then no event is covered by the
+        # snapshot.  Sequence numbers start at 1.
+        seqnum = 0
         rows = (
             self._connection.cursor()
             .execute(
-- 
2.43.0


From 22bcc8a098a7b2a9c422c30b46ca43741071ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 03/27] fix: do not replay changes which the recovered snapshot
 already includes

---
 src/_zkapauthorizer/recover.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 3081636..919f0fc 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -224,8 +224,40 @@ def recover(
     streams against the given cursor.
     """
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
+    snapshot_sequence = recovered_sequence_number(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
-        recover_event_stream(event_stream, cursor)
+        recover_event_stream(
+            EventStream(
+                changes=[
+                    change
+                    for change in event_stream.changes
+                    if change.sequence > snapshot_sequence
+                ]
+            ),
+            cursor,
+        )
+
+
+def recovered_sequence_number(cursor: Cursor) -> int:
+    """
+    Get the sequence number of the last change which is already included in
+    the snapshot which has been recovered using the given cursor.
+
+    The effects of changes up to and including this one are part of the
+    snapshot and such changes must not be replayed on top of it.
+    """
+    cursor.execute(
+        "SELECT [name] FROM [sqlite_master] WHERE [name] = 'sqlite_sequence'", ()
+    )
+    if len(cursor.fetchall()) == 0:
+        return 0
+    cursor.execute(
+        "SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ()
+    )
+    rows = cursor.fetchall()
+    if len(rows) == 0:
+        return 0
+    return int(rows[0][0])
 
 
 def sorted_event_streams(event_streams: Iterable[EventStream]) -> list[EventStream]:
-- 
2.43.0


From 72208c316f8654dece16ad8d165515730647fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 04/27] fix: resume redemption from the persisted counter after
 an unpaid or error result

---
 src/_zkapauthorizer/controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index aa728e2..b559dcf 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -928,7 +928,9 @@ class PaymentController(object):
             real_num_tokens = voucher_obj.expected_tokens
             # Determine the starting point from the state.
             if voucher_obj.state.should_start_redemption():
-                counter_start = voucher_obj.state.start_at_counter()
+                # The transient states (unpaid, error) don't know how far
+                # redemption has progressed.  The persistent state does.
+                counter_start = self.store.get(voucher).state.start_at_counter()
             else:
                 self._log.info(
                     "Cannot redeem voucher in state {state}.",
-- 
2.43.0


From bdd3bd44c0ff7fd8bbae2b98096a23813eea4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 05/27] fix: make schema upgrades transactional

---
 src/_zkapauthorizer/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 47fa3a1..8c2c9cf 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -160,6 +160,12 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
         # schema.
         cursor.execute("PRAGMA foreign_keys = ON", ())
 
+        # The sqlite3 module does not implicitly begin a transaction for DDL
+        # statements.  Begin one explicitly so an interrupted upgrade is
+        # completely undone.  Note the pragma above has no effect inside a
+        # transaction.
+        cursor.execute("BEGIN IMMEDIATE TRANSACTION", ())
+
         # Upgrade the database to the most recent version of the schema.  That
         # is the only schema the Python code will actually work against.
         actual_version = get_schema_version(cursor)
-- 
2.43.0


From 97f67d401d2d10aa1f9d5d98087c702befea0cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 06/27] fix: close the right websocket when a different
 recovery is ongoing

---
 src/_zkapauthorizer/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 5a1b892..20fbcb9 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -396,7 +396,7 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             self.recovering_d.addCallbacks(happy, err)
 
         elif self.recovering_cap != cap:
-            self.sendClose(
+            client.sendClose(
                 code=4000, reason="Ongoing recovery with different capability"
             )
 
-- 
2.43.0


From 3dd29cf4ddb8c18cb65c7d19537ee14e678403e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 07/27] fix: report the real read-cap when replication is
 already configured

---
 src/_zkapauthorizer/_plugin.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index 667045c..e793aaf 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -38,7 +38,10 @@ from challenge_bypass_ristretto import PublicKey, SigningKey
 from eliot import start_action
 from foolscap.ipb import IRemoteReference
 from prometheus_client import CollectorRegistry, write_to_textfile
-from tahoe_capabilities import DirectoryReadCapability
+from tahoe_capabilities import (
+    DirectoryReadCapability,
+    danger_real_capability_string,
+)
 from twisted.application.service import IService, MultiService
 from twisted.internet import task
 from twisted.internet.defer import Deferred, succeed
@@ -62,6 +65,7 @@ from .model import VoucherStore, aware_now
 from .model import open_database as _open_database
 from .recover import get_tahoe_lafs_downloader
 from .replicate import (
+    ReplicationAlreadySetup,
     _ReplicationCapableConnection,
     get_replica_rwcap,
     get_tahoe_lafs_direntry_replica,
@@ -326,7 +330,16 @@ class ZKAPAuthorizer(object):
 
         async def setup_replication() -> DirectoryReadCapability:
             # Setup replication
-            replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            try:
+                replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            except ReplicationAlreadySetup:
+                # Report the real read-only capability of the existing
+                # replica to the user who asked.
+                raise ReplicationAlreadySetup(
+                    danger_real_capability_string(
+                        get_replica_rwcap(node_config).reader,
+                    ),
+                )
             # And then turn replication on for the database connection already
             # in use.
             self._add_replication_service(store._connection, node_config)
-- 
2.43.0


From fcf2d90284af8df6ee27470e6eda3aeee4827881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 08/27] fix: restore the stack limit when redemption fails

---
 src/_zkapauthorizer/_stack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/_stack.py b/src/_zkapauthorizer/_stack.py
index e918553..41438f8 100644
--- a/src/_zkapauthorizer/_stack.py
+++ b/src/_zkapauthorizer/_stack.py
@@ -44,5 +44,7 @@ def less_limited_stack() -> Generator[None, None, None]:
         # Well, not on macOS: https://bugs.python.org/issue34602
         yield
     else:
-        yield
-        setrlimit(RLIMIT_STACK, (soft, hard))
+        try:
+            yield
+        finally:
+            setrlimit(RLIMIT_STACK, (soft, hard))
-- 
2.43.0


From 4affdc616090f5dc8b21b0a6c477732480e29d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 09/27] fix: allow the lease maintenance service to stop during
 a run

---
 src/_zkapauthorizer/lease_maintenance.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 0746a33..df54af2 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -370,13 +370,19 @@ class _FuzzyTimerService(Service, Generic[_C]):
         Run the operation once and then schedule it to run again.
         """
 
+        # The delayed call that got us here has been called and can no longer
+        # be cancelled.
+        self._call = None
+
         async def go() -> None:
             try:
                 await self.operation()
             except:
                 f = Failure()  # type: ignore[no-untyped-call]
                 err(f, f"Fuzzy timer service ({self.name})")  # type: ignore[no-untyped-call]
-            self._schedule()
+            # The service may have been stopped while the operation ran.
+            if self.running:
+                self._schedule()
 
         Deferred.fromCoroutine(go())
 
-- 
2.43.0


From 472f15b019b438a056210d339778f0f6e2f46fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:46 +0000
Subject: [PATCH 10/27] fix: return tokens to the store when making passes from
 them fails

---
 src/_zkapauthorizer/spending.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/_zkapauthorizer/spending.py b/src/_zkapauthorizer/spending.py
index 0ee7453..e77f50a 100644
--- a/src/_zkapauthorizer/spending.py
+++ b/src/_zkapauthorizer/spending.py
@@ -208,12 +208,18 @@ class SpendingController(object):
 
     def get(self, message: bytes, num_passes: int) -> PassGroup:
         unblinded_tokens = self.get_unblinded_tokens(num_passes)
-        passes = self.tokens_to_passes(message, unblinded_tokens)
-        GET_PASSES.log(
-            message=message.decode("utf-8"),
-            count=num_passes,
-        )
-        return PassGroup(message, self, list(zip(unblinded_tokens, passes)))
+        try:
+            passes = self.tokens_to_passes(message, unblinded_tokens)
+            GET_PASSES.log(
+                message=message.decode("utf-8"),
+                count=num_passes,
+            )
+            return PassGroup(message, self, list(zip(unblinded_tokens, passes)))
+        except:
+            # The caller won't receive anything with which it could return
+            # these tokens to the store.
+            self.reset(unblinded_tokens)
+            raise
 
     def mark_spent(self, unblinded_tokens: list[UnblindedToken]) -> None:
         SPENT_PASSES.log(
-- 
2.43.0


From 074f287ae43d92dde1f4f40e3ec6ee598ce270e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 11/27] fix: visit only real storage indexes and list each
 directory once

---
 src/_zkapauthorizer/lease_maintenance.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index df54af2..5e0b0a6 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -95,10 +95,18 @@ async def visit_storage_indexes(
             )
 
     stack = root_nodes[:]
+    # The storage indexes of directories which have already been listed.  The
+    # graph is not necessarily acyclic.
+    listed = set()
     while stack:
         elem = stack.pop()
-        visit(elem.get_storage_index())
-        if IDirectoryNode.providedBy(elem):
+        storage_index = elem.get_storage_index()
+        if storage_index is not None:
+            # Literal and unknown nodes have no storage index (nor leases).
+            visit(storage_index)
+        if IDirectoryNode.providedBy(elem) and storage_index not in listed:
+            if storage_index is not None:
+                listed.add(storage_index)
             children = await elem.list()
             # Produce consistent results by forcing some consistent ordering
             # here.  This will sort by name.
-- 
2.43.0


From dee6e6f44f8a8ad5efe84c8f6addeb847b495d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 12/27] fix: record replicated changes in the transaction which
 makes them

---
 src/_zkapauthorizer/replicate.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 8cdaa97..9edda33 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -444,21 +444,28 @@ class _ReplicationCapableConnection:
         exc_value: Optional[BaseException],
         exc_tb: Optional[Any],
     ) -> bool:
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
-        if exc_type is not None:
-            # The transaction was rolled back so nothing recorded during it
-            # happened.  Don't let it be delivered with a later transaction.
-            self._mutations = list()
+        post_txn_fns: list[Callable[[], None]] = []
         if exc_type is None:
-            # There was no exception, signal observers that a change has been
-            # committed.
-            post_txn_fns: list[Callable[[], None]] = []
-            with self._conn:
+            # There was no exception, signal observers that a change is being
+            # committed.  Do it inside of the same transaction so that what
+            # they record about the changes is committed if and only if the
+            # changes are.
+            try:
                 curse = self._conn.cursor()
-                curse.execute("BEGIN IMMEDIATE TRANSACTION")
+                if not self._conn.in_transaction:
+                    curse.execute("BEGIN IMMEDIATE TRANSACTION")
                 post_txn_fns.extend(self._maybe_signal_observers(curse))
-            for f in post_txn_fns:
-                f()
+            except:
+                self._conn.rollback()
+                raise
+        else:
+            # The transaction will be rolled back so nothing recorded during
+            # it happened.  Don't let it be delivered with a later
+            # transaction.
+            self._mutations = list()
+        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        for f in post_txn_fns:
+            f()
         # Respect the underlying propagation decision.
         return propagate
 
-- 
2.43.0


From 5ea9f7925588574da865f70c23f3e5be78f5bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 13/27] fix: keep replicating after a replication job fails

---
 src/_zkapauthorizer/replicate.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 9edda33..33b2aa8 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -918,16 +918,24 @@ class _ReplicationService(Service):
         """
         while True:
             job = await self._jobs.get()
-            if job == ReplicationJob.event_stream:
-                await self._do_one_event_upload()
-            elif job == ReplicationJob.snapshot:
-                await self._do_one_snapshot_upload()
-            elif job == ReplicationJob.consider_snapshot:
-                await self._do_consider_snapshot()
-            elif job == ReplicationJob.startup:
-                await self._do_startup()
-            else:
-                raise Exception("internal error")  # pragma: nocover
+            try:
+                if job == ReplicationJob.event_stream:
+                    await self._do_one_event_upload()
+                elif job == ReplicationJob.snapshot:
+                    await self._do_one_snapshot_upload()
+                elif job == ReplicationJob.consider_snapshot:
+                    await self._do_consider_snapshot()
+                elif job == ReplicationJob.startup:
+                    await self._do_startup()
+                else:
+                    raise Exception("internal error")  # pragma: nocover
+            except CancelledError:
+                raise
+            except Exception:
+                # Nothing has been discarded locally so what this job would
+                # have uploaded will be included in a later upload.  Keep
+                # processing jobs.
+                self._logger.failure("replication job failed")
 
     async def _do_startup(self) -> None:
         """
-- 
2.43.0


From 4f178929edd7748a9b51448c215bfbd693d2fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 14/27] fix: show the most recent outcome of a failed
 redemption

---
 src/_zkapauthorizer/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index b559dcf..811a58a 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -1062,6 +1062,8 @@ class PaymentController(object):
                 reason=reason.value,
                 voucher=voucher,
             )
+            # Only the most recent outcome is interesting.
+            self._unpaid.pop(voucher, None)
             self._error[voucher] = model_Error(
                 finished=self.store.now(),
                 details=reason.getErrorMessage(),
-- 
2.43.0


From b2007f7072dfeb5ba01fef75176327c58ab4d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 15/27] fix: Roll back a transaction which could not be
 committed

If committing the transaction fails (for example, because another
process holds a lock on the database) the caller is told that the
operation failed but the transaction stays open.  The next use of the
connection which commits, such as reading the event log for
replication, then commits the changes of the failed operation.
---
 src/_zkapauthorizer/replicate.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 33b2aa8..2c779cf 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -463,7 +463,15 @@ class _ReplicationCapableConnection:
             # it happened.  Don't let it be delivered with a later
             # transaction.
             self._mutations = list()
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        try:
+            propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        except:
+            # If the commit fails (for example, because the database is
+            # locked) then the transaction may still be open.  The caller is
+            # told that the operation failed so don't let the changes be
+            # committed along with whatever happens to come next.
+            self._conn.rollback()
+            raise
         for f in post_txn_fns:
             f()
         # Respect the underlying propagation decision.
-- 
2.43.0


From 30bed3cbc21db1775e291f15abb01ba40161aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 16/27] fix: replay each change at most once when event streams
 overlap

---
 src/_zkapauthorizer/recover.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 919f0fc..0109d79 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -224,18 +224,23 @@ def recover(
     streams against the given cursor.
     """
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
-    snapshot_sequence = recovered_sequence_number(cursor)
+    applied_sequence = recovered_sequence_number(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
         recover_event_stream(
             EventStream(
                 changes=[
                     change
                     for change in event_stream.changes
-                    if change.sequence > snapshot_sequence
+                    if change.sequence > applied_sequence
                 ]
             ),
             cursor,
         )
+        # An event stream repeats the changes of an earlier one if those were
+        # not discarded locally after the earlier one was uploaded.
+        highest_sequence = event_stream.highest_sequence()
+        assert highest_sequence is not None
+        applied_sequence = max(applied_sequence, highest_sequence)
 
 
 def recovered_sequence_number(cursor: Cursor) -> int:
-- 
2.43.0


From 2f31256a2a0839ce1b65f921a85cf2c02781b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 17/27] fix: clients being closed do not interfere with the
 running recovery

---
 src/_zkapauthorizer/resource.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 20fbcb9..4dedd71 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -27,6 +27,7 @@ from json import dumps
 from typing import Callable, Optional, Union, cast
 
 from attr import Factory, define, field
+from autobahn.exception import Disconnected
 from autobahn.twisted.resource import WebSocketResource
 from autobahn.twisted.websocket import WebSocketServerFactory, WebSocketServerProtocol
 from autobahn.websocket.interfaces import IWebSocketClientAgent
@@ -351,7 +352,12 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
         update_msg = dumps(state.marshal()).encode("utf8")
         self.sent_updates.append(update_msg)
         for client in self.clients:
-            client.sendMessage(update_msg, False)
+            try:
+                client.sendMessage(update_msg, False)
+            except Disconnected:
+                # The connection is being closed, nothing more can be sent on
+                # it.  This is no problem for recovery or the other clients.
+                pass
 
     def initiate_recovery(
         self, cap: DirectoryReadCapability, client: WebSocketServerProtocol
@@ -367,8 +373,8 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
 
         Otherwise, error.
         """
-        self.clients.append(client)
         if self.recovering_d is None:
+            self.clients.append(client)
             self.recovering_cap = cap
             self.recovering_d = Deferred.fromCoroutine(self._recover(self.store, cap))
 
@@ -405,6 +411,7 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             # capability, so be idempotent by acting the same as if this
             # was the first client. That means sending this client all the
             # status updates we've sent so far.
+            self.clients.append(client)
             for update in self.sent_updates:
                 client.sendMessage(update)
 
-- 
2.43.0


From 8ed96daf5eab9727cc55928545b9755f17ef2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 18/27] fix: close clients which ask for a recovery that has
 already ended

---
 src/_zkapauthorizer/resource.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 4dedd71..457ffc2 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -414,6 +414,9 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             self.clients.append(client)
             for update in self.sent_updates:
                 client.sendMessage(update)
+            if self.recovering_d.called:
+                # Recovery has ended already, there is nothing to wait for.
+                client.sendClose()
 
     def buildProtocol(self, addr: object) -> RecoverProtocol:
         """
-- 
2.43.0


From 3fb291b47111254e02e2c72632933fc71c67e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:34 +0000
Subject: [PATCH 19/27] fix: stopping replication ends it however the
 cancellation is reported

Cancelling a request which is already in flight is reported by Twisted's
HTTP client as a ResponseNeverReceived.  The upload loop treated that as a
failed upload and went on, so stopService never finished.
---
 src/_zkapauthorizer/replicate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 2c779cf..8f1707d 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -944,6 +944,10 @@ class _ReplicationService(Service):
                 # have uploaded will be included in a later upload.  Keep
                 # processing jobs.
                 self._logger.failure("replication job failed")
+                if not self.running:
+                    # The service was stopped.  Not every operation reports
+                    # that it was cancelled with a CancelledError.
+                    raise
 
     async def _do_startup(self) -> None:
         """
-- 
2.43.0


From 11d3e3cb6cb35c34acf65a5e3fe69b0f41fea439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 20/27] fix: refuse voucher names which are not UTF-8 as a bad
 request

---
 src/_zkapauthorizer/resource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 457ffc2..1c62d8f 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -722,7 +722,10 @@ class _VoucherCollection(Resource):
         )
 
     def getChild(self, segment: bytes, request: IRequest) -> IResource:
-        voucher_str = segment.decode("utf-8")
+        try:
+            voucher_str = segment.decode("utf-8")
+        except UnicodeDecodeError:
+            return bad_request()
         if not is_syntactic_voucher(voucher_str):
             return bad_request()
         try:
-- 
2.43.0


From a3a65db5e52c0788b8cb9cbbd4cdf6a540646c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 21/27] fix: refuse too deeply nested price queries as a bad
 request

---
 src/_zkapauthorizer/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 1c62d8f..0bb3291 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -531,7 +531,7 @@ class _CalculatePrice(Resource):
         payload = request.content.read()
         try:
             body_object = loads(payload)
-        except ValueError:
+        except (ValueError, RecursionError):
             set_response_code(request, BAD_REQUEST)
             return dumps_utf8(
                 {
-- 
2.43.0


From 70abd3afbcc68682f6ab03b7ce53925ba3bf0ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 22/27] fix: refuse price queries with booleans for file sizes

---
 src/_zkapauthorizer/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 0bb3291..66e113d 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -566,7 +566,8 @@ class _CalculatePrice(Resource):
             )
 
         if not isinstance(sizes, list) or not all(
-            isinstance(size, int) and size >= 0 for size in sizes
+            isinstance(size, int) and not isinstance(size, bool) and size >= 0
+            for size in sizes
         ):
             set_response_code(request, BAD_REQUEST)
             return dumps_utf8(
-- 
2.43.0


From bf8f20a0ff4952747389923fc6e6721e8ead0ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:35 +0000
Subject: [PATCH 23/27] fix: keep capabilities out of the text of Tahoe API
 errors

Without a string form of its own, the error was shown as its unscrubbed
arguments, for example in a traceback in the logs.
---
 src/_zkapauthorizer/tahoe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/tahoe.py b/src/_zkapauthorizer/tahoe.py
index b5c4a88..dffacc1 100644
--- a/src/_zkapauthorizer/tahoe.py
+++ b/src/_zkapauthorizer/tahoe.py
@@ -165,7 +165,7 @@ def _scrub_caps_from_url(url: DecodedURL) -> DecodedURL:
     return url
 
 
-@define(auto_exc=False)
+@define(auto_exc=False, str=True)
 class TahoeAPIError(Exception):
     """
     Some error was reported from a Tahoe-LAFS HTTP API.
-- 
2.43.0


From e2a6a8e158f3a3b462d5c8eb4d383b940610a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 24/27] fix: do not log the content of malformed recovery
 requests

---
 src/_zkapauthorizer/resource.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 66e113d..6826473 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -305,8 +305,15 @@ class RecoverProtocol(WebSocketServerProtocol):  # type: ignore[misc]
                     f"Recovery capability must be a string, got {type(cap_str)!r} instead."
                 )
             recovery_capability = readonly_directory_from_string(cap_str)
-        except Exception:
-            self._log.failure("Failed to initiate recovery")
+        except Exception as e:
+            # The message of the exception may include the request, and so the
+            # capability.
+            self._log.failure(
+                "Failed to initiate recovery",
+                Failure(  # type: ignore[no-untyped-call]
+                    ValueError(f"Bad recovery request ({type(e).__name__})")
+                ),
+            )
             self.sendClose(
                 code=4000,
                 reason="Failed to parse recovery request",
-- 
2.43.0


From e70faf3ad14f8208cb068edad77a388aa74cc9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 25/27] fix: never sample a negative lease maintenance interval

With a crawl interval range more than twice the mean (the default range is
four days, so for any configured mean below two days) the sampled interval
may be negative.  The reactor refuses to schedule such a call, so that the
node failed to start or lease maintenance stopped for good.
---
 src/_zkapauthorizer/lease_maintenance.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 5e0b0a6..4099ab1 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -437,10 +437,15 @@ def lease_maintenance_service(
     halfrange = interval_range // 2
 
     def sample_interval_distribution() -> timedelta:
-        return timedelta(
-            seconds=random.uniform(
-                (interval_mean - halfrange).total_seconds(),
-                (interval_mean + halfrange).total_seconds(),
+        # A range which is wide compared to the mean reaches below zero but
+        # nothing can be scheduled in the past.
+        return max(
+            timedelta(0),
+            timedelta(
+                seconds=random.uniform(
+                    (interval_mean - halfrange).total_seconds(),
+                    (interval_mean + halfrange).total_seconds(),
+                ),
             ),
         )
 
-- 
2.43.0


From 468a873eade0f809ec1dbce4fcbbec9c311467a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:54 +0000
Subject: [PATCH 26/27] fix: check that tokens, passes and vouchers are base64

base64_bytes only built a validator, which is always true, and never applied it
to the value.
---
 src/_zkapauthorizer/validators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/validators.py b/src/_zkapauthorizer/validators.py
index 5546c35..db3cda4 100644
--- a/src/_zkapauthorizer/validators.py
+++ b/src/_zkapauthorizer/validators.py
@@ -156,7 +156,11 @@ def base64_bytes(length: int) -> ValidatorType[bytes]:
             raise ValueError(
                 f"{attr.name} must be bytes, instead it was {type(value)}",
             )
-        if not is_base64_encoded(urlsafe_b64decode):
+        try:
+            # Either base64 alphabet is acceptable.  Vouchers are written with
+            # the url-safe one and tokens with the standard one.
+            urlsafe_b64decode(value.replace(b"+", b"-").replace(b"/", b"_"))
+        except ValueError:
             raise ValueError(
                 f"{attr.name} must be base64 encoded data",
             )
-- 
2.43.0


From 631b6cb6acce58d0105d69c8264b97ea027c0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 27/27] fix: charge the full size of a share whose lease is
 renewed by a write

A write to a part of a mutable share without an unexpired lease renewed the
lease on the whole share for the price of the part.  Client and server now
count the current size of such a share, too.
---
 src/_zkapauthorizer/_storage_client.py | 29 ++++++++++++-----------
 src/_zkapauthorizer/_storage_server.py | 32 +++++++++++++-------------
 2 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 19c8ee2..2fc40a1 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -622,22 +622,25 @@ class ZKAPAuthorizerStorageClient(object):
             # of the current size of all of the specified shares (keys of
             # tw_vectors).
             [stats] = await stat_shares(rref, [storage_index])
-            # Filter down to only the shares that have an active lease.  If
-            # we're going to write to any other shares we will have to pay to
-            # renew their leases.
-            now = self._clock.seconds()
-            current_sizes = {
-                sharenum: stat.size
+            # The size of any share we're not writing to doesn't matter.
+            written = {
+                sharenum: stat
                 for (sharenum, stat) in stats.items()
-                if stat.lease_expiration > now
-                # Also, the size of any share we're not writing to doesn't
-                # matter.
-                and sharenum in write_sharenums
+                if sharenum in write_sharenums
             }
-            # Determine the cost of the new storage for the operation.
-            num_passes = get_required_new_passes_for_mutable_write(
+            # If we're going to write to any shares without an active lease we
+            # will have to pay to renew their leases.
+            now = self._clock.seconds()
+            unleased_sizes = [
+                stat.size for stat in written.values() if stat.lease_expiration <= now
+            ]
+            # Determine the cost of the operation, including the new storage.
+            num_passes = required_passes(
+                self._pass_value,
+                unleased_sizes,
+            ) + get_required_new_passes_for_mutable_write(
                 self._pass_value,
-                current_sizes,
+                {sharenum: stat.size for (sharenum, stat) in written.items()},
                 old_tw_vectors,
             )
 
diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index e60b193..f0dc030 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -1050,25 +1050,25 @@ def get_writev_price(
         ),
     )
 
-    # Zero out the size of any share without an unexpired lease.  We will
-    # renew the lease on this share along with the write but the client
-    # must supply the necessary passes to do so.
-    current_sizes.update(
-        {
-            sharenum: 0
-            for sharenum in current_sizes
-            if not share_has_active_leases(
-                storage_server,
-                storage_index,
-                sharenum,
-                now,
-            )
-        }
-    )
+    # We will renew the lease on any share without an unexpired lease along
+    # with the write but the client must supply the necessary passes to do so.
+    unleased_sizes = [
+        size
+        for (sharenum, size) in current_sizes.items()
+        if not share_has_active_leases(
+            storage_server,
+            storage_index,
+            sharenum,
+            now,
+        )
+    ]
 
     # Compute the number of passes required to execute the given writev
     # against these existing shares.
-    return get_required_new_passes_for_mutable_write(
+    return required_passes(
+        pass_value,
+        unleased_sizes,
+    ) + get_required_new_passes_for_mutable_write(
         pass_value,
         current_sizes,
         tw_vectors,
-- 
2.43.0

