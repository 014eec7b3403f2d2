From f853c826ca929fff341df9cc3782f90d00ed3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 1/7] fix: refuse to bootstrap a node whose storage is not
 empty

---
 src/rawnode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index fb8941a..7d5b4c2 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -61,6 +61,10 @@ Status RawNode::Bootstrap(std::vector<Peer> peers) {
     return s;
   }
 
+  if (last_index != 0) {
+    return Status::Error("can't bootstrap a nonempty Storage");
+  }
+
 	// We've faked out initial entries above, but nothing has been
 	// persisted. Start with an empty HardState (thus the first Ready will
 	// emit a HardState update for the app to persist).
-- 
2.43.0


From 32273b45fea9ecaa53dad91cfcbc273f981534dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 2/7] fix: do not modify snapshots that were already handed out

---
 src/storage.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/storage.cc b/src/storage.cc
index 0e97e42..04d2a26 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -150,13 +150,17 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
               LastIndexUnSafe());
   }
 
-  snapshot_->mutable_metadata()->set_index(i);
-  snapshot_->mutable_metadata()->set_term(ents_[i - offset]->term());
+  // The current snapshot may have been handed out already, so it must not be
+  // modified in place.
+  auto snapshot = std::make_shared<raftpb::Snapshot>(*snapshot_);
+  snapshot->mutable_metadata()->set_index(i);
+  snapshot->mutable_metadata()->set_term(ents_[i - offset]->term());
   if (cs != nullptr) {
-    *(snapshot_->mutable_metadata()->mutable_conf_state()) = *cs;
+    *(snapshot->mutable_metadata()->mutable_conf_state()) = *cs;
   }
 
-  *(snapshot_->mutable_data()) = data;
+  *(snapshot->mutable_data()) = data;
+  snapshot_ = snapshot;
   return std::make_tuple(snapshot_, Status::OK());
 }
 
-- 
2.43.0


From 5c833246c4df6c5bb33ea526a56ed0a498697ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 3/7] fix: a leader outside the configuration must not answer
 reads on its own

---
 src/raft.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 03cae5f..0f24ad1 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1039,7 +1039,8 @@ Status Raft::StepLeader(MsgPtr m) {
     }
     case raftpb::MessageType::MsgReadIndex: {
       // only one voting member (the leader) in the cluster
-      if (trk_.IsSingleton()) {
+      if (trk_.IsSingleton() &&
+          trk_.GetConfig().voters.Incoming().IDs().count(id_) > 0) {
         auto resp = ResponseToReadIndexReq(m, raft_log_->Committed());
         if (resp->to() != kNone) {
           Send(resp);
-- 
2.43.0


From 78b8307f812aab75c450d54af071690045080d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:39 +0000
Subject: [PATCH 4/7] fix: print the snapshot of a Ready that has one

---
 src/raft.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 0f24ad1..ebde4db 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -123,7 +123,7 @@ std::string Ready::String() const {
     ss << "]" << std::endl;
   };
 
-  if (!snapshot) {
+  if (!IsEmptySnap(snapshot)) {
     ss << "snapshot index=" << snapshot->metadata().index() << " term=" << snapshot->metadata().term() << std::endl;
     print_vec(snapshot->metadata().conf_state().voters(), "voters");
     print_vec(snapshot->metadata().conf_state().learners(), "learners");
-- 
2.43.0


From 33590d6efcf2f5a9420b116d8c161c9f9bf3a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 5/7] fix: a stale rejection must not move a follower's next
 index back to its match index

---
 src/tracker/progress.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/progress.cc b/src/tracker/progress.cc
index 7bb53cf..9cfcb4f 100644
--- a/src/tracker/progress.cc
+++ b/src/tracker/progress.cc
@@ -107,7 +107,7 @@ bool Progress::MaybeDecrTo(uint64_t rejected, uint64_t match_hint) {
     return false;
   }
 
-  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1), 1);
+  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1), match_ + 1);
   probe_sent_ = false;
   return true;
 }
-- 
2.43.0


From 4580ae3812cbcb46dfb14eabad35b6e38ea4084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:13 +0000
Subject: [PATCH 6/7] fix: do not step outside the log when reading entries at
 large indexes

---
 src/storage.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index 04d2a26..35ec5fa 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -75,7 +75,7 @@ MemoryStorage::Entries(uint64_t lo, uint64_t hi, uint64_t max_size) {
 
   // copy entries[lo, hi)
   EntryPtrs ents;
-  ents.assign(ents_.begin() + lo - offset, ents_.begin() + hi - offset);
+  ents.assign(ents_.begin() + (lo - offset), ents_.begin() + (hi - offset));
   return std::make_tuple(Util::LimitSize(std::move(ents), max_size), Status::OK());
 }
 
-- 
2.43.0


From 22dc569bc3a911acc98db6734fd760c088e6bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:46 +0000
Subject: [PATCH 7/7] fix: flush the message of a fatal log call before
 aborting

ConsoleLogger prints with printf, which buffers when stdout is a file or a
pipe, and abort() does not flush: the node stopped without saying why.
---
 src/logger.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logger.cc b/src/logger.cc
index a5233c7..8cee228 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -44,6 +44,7 @@ void ConsoleLogger::Logv(LogLevel level, const char* format, va_list ap) {
   printf(ANSI_COLOR_RESET);
 
   if (level == LogLevel::kFatal) {
+    fflush(stdout);  // abort does not flush: the reason would be lost when stdout is not a terminal
     abort();
   }
 }
-- 
2.43.0

