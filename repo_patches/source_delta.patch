From 995514fffd79e72dfc7a7f940e0bbed1f3471db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 01/28] fix: do not repeat must_abort transition when certify()
 fails after BF abort

If the provider returned an error from certify() and the transaction was
BF aborted before the client state lock was reacquired, certify_commit()
attempted an illegal must_abort -> must_abort state transition.
---
 src/transaction.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6647cfc..c3f508f 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1879,11 +1879,17 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_warning:
         assert(ordered() == false);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_transaction_missing:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         // The execution should never reach this point if the
         // transaction has not generated any keys or data.
         wsrep::log_warning() << "Transaction was missing in provider";
@@ -1906,7 +1912,10 @@ int wsrep::transaction::certify_commit(
         client_state_.override_error(wsrep::e_deadlock_error);
         break;
     case wsrep::provider::error_size_exceeded:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     case wsrep::provider::error_connection_failed:
@@ -1945,19 +1954,28 @@ int wsrep::transaction::certify_commit(
         break;
     case wsrep::provider::error_fatal:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_service_.emergency_shutdown();
         break;
     case wsrep::provider::error_not_implemented:
     case wsrep::provider::error_not_allowed:
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         wsrep::log_warning() << "Certification operation was not allowed: "
                              << "id: " << id().get()
                              << " flags: " << std::hex << flags() << std::dec;
         break;
     default:
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit, cert_ret);
         break;
     }
-- 
2.43.0


From 666a7ca27f0b7b828b1dc7821aeb73a22bedd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:09 +0000
Subject: [PATCH 02/28] fix: do not repeat streaming rollback after waiting for
 a concurrent one

A BF abort which arrived while the victim was executing streaming rollback
in voluntary rollback waited for the victim to finish and then found the
transaction cleaned up: the streaming client was converted again and a
rollback was replicated for undefined transaction.
---
 src/transaction.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index c3f508f..6d9054c 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1074,7 +1074,14 @@ bool wsrep::transaction::bf_abort(
         if (client_state_.mode() == wsrep::client_state::m_local &&
             is_streaming() && state_at_enter == s_executing)
         {
+            const wsrep::transaction_id id(id_);
             streaming_rollback(lock);
+            if (id_ != id)
+            {
+                // The victim was already rolling back and the rollback
+                // was completed while the lock was released.
+                return ret;
+            }
         }
 
         if ((client_state_.state() == wsrep::client_state::s_idle &&
@@ -2022,8 +2029,18 @@ void wsrep::transaction::streaming_rollback(
     // while the original client manages to complete its rollback
     // and therefore change the state of the transaction, causing
     // assertions to fire.
-    while (streaming_rollback_in_progress_)
-        client_state_.cond_.wait(lock);
+    if (streaming_rollback_in_progress_)
+    {
+        // The other thread will complete the streaming rollback. After
+        // waiting there is nothing left to do: The streaming context
+        // has been marked rolled back, or the other thread has even
+        // completed the rollback and cleaned up the transaction.
+        const wsrep::transaction_id id(id_);
+        while (streaming_rollback_in_progress_ && id_ == id)
+            client_state_.cond_.wait(lock);
+        debug_log_state("streaming_rollback leave");
+        return;
+    }
     streaming_rollback_in_progress_ = true;
 
     if (streaming_context_.rolled_back() == false)
-- 
2.43.0


From bf290ac60646446b3f6ebca3223d90d25a6bd9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:24 +0000
Subject: [PATCH 03/28] fix: handle BF abort arriving while a fragment is being
 prepared

Failure to prepare or append fragment data, or an empty fragment, must not
overwrite or repeat the must_abort state set by a concurrent BF abort.
---
 src/transaction.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6d9054c..53016e1 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1537,7 +1537,11 @@ int wsrep::transaction::certify_fragment(
     if (client_service_.prepare_fragment_for_replication(data, log_position))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        // The transaction may have been BF aborted while unlocked.
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
@@ -1547,6 +1551,12 @@ int wsrep::transaction::certify_fragment(
     {
         wsrep::log_warning() << "Attempt to replicate empty data buffer";
         lock.lock();
+        if (state() == s_must_abort)
+        {
+            // BF aborted while unlocked
+            client_state_.override_error(wsrep::e_deadlock_error);
+            return 1;
+        }
         state(lock, s_executing);
         return 0;
     }
@@ -1555,7 +1565,11 @@ int wsrep::transaction::certify_fragment(
                                wsrep::const_buffer(data.data(), data.size())))
     {
         lock.lock();
-        state(lock, s_must_abort);
+        // The transaction may have been BF aborted while unlocked.
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
         client_state_.override_error(wsrep::e_error_during_commit);
         return 1;
     }
-- 
2.43.0


From 4a2ea2c99311526969203d1af1069b3c25644087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:20 +0000
Subject: [PATCH 04/28] fix: do not roll back an already aborted transaction
 again on close

If the transaction had been rolled back by the background rollbacker or
after the previous result, client_state::close() called bf_rollback() in
aborted state.
---
 src/client_state.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index a5995cd..6934d04 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -70,7 +70,12 @@ void wsrep::client_state::close()
     if (transaction_.active() &&
         (mode_ != m_local || !client_service_.is_prepared_xa()))
     {
-        client_service_.bf_rollback();
+        // The transaction may have been rolled back already, for example
+        // by background rollbacker.
+        if (transaction_.state() != wsrep::transaction::s_aborted)
+        {
+            client_service_.bf_rollback();
+        }
         transaction_.after_statement();
     }
     if (mode_ == m_local)
-- 
2.43.0


From 7b196e3fef9fe887d433a2fb53f9ea4a408b6279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:35 +0000
Subject: [PATCH 05/28] fix: report an error when pending rollback events can
 not be sent

Set client error when the transaction is aborted because of failure to send
pending rollback events, and tolerate concurrent BF abort.
---
 src/transaction.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 53016e1..4d113f3 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1528,7 +1528,11 @@ int wsrep::transaction::certify_fragment(
             << status << " ("
             << wsrep::provider::to_string(status) << ")";
         lock.lock();
-        state(lock, s_must_abort);
+        if (state() != s_must_abort)
+        {
+            state(lock, s_must_abort);
+        }
+        client_state_.override_error(wsrep::e_deadlock_error, status);
         return 1;
     }
 
@@ -1817,7 +1821,11 @@ int wsrep::transaction::certify_commit(
         if (!is_xa())
         {
             lock.lock();
-            state(lock, s_must_abort);
+            if (state() != s_must_abort)
+            {
+                state(lock, s_must_abort);
+            }
+            client_state_.override_error(wsrep::e_deadlock_error, status);
             return 1;
         }
     }
-- 
2.43.0


From 60ed6adb301d04be4b9a72e7c041e6218bf0024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 06/28] fix: wake up waiting pause() when pausing the provider
 fails

---
 src/server_state.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index c727dba..d41059b 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -576,6 +576,8 @@ wsrep::seqno wsrep::server_state::pause()
     if (pause_seqno_.is_undefined())
     {
         --pause_count_;
+        // Let a concurrent pause() proceed.
+        cond_.notify_all();
     }
     return pause_seqno_;
 }
-- 
2.43.0


From d8701ade676d21adb5d041a4378a68a7cefb996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 07/28] fix: do not resync after failed pause if desync failed

---
 src/server_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index d41059b..6cb501d 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -623,7 +623,10 @@ wsrep::seqno wsrep::server_state::desync_and_pause()
     if (ret.is_undefined())
     {
         wsrep::log_warning() << "Failed to pause provider";
-        resync();
+        if (desync_successful)
+        {
+            resync();
+        }
         return wsrep::seqno::undefined();
     }
     else
-- 
2.43.0


From b61b14382a98d25b1148c1bab689ce28ac9c5697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 08/28] fix: do not assert in sst_received() if disconnect
 started during SST

---
 src/server_state.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 6cb501d..e63971c 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -714,7 +714,9 @@ try
     wsrep::log_info() << "SST received";
     wsrep::gtid gtid(wsrep::gtid::undefined());
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
-    assert(state_ == s_joiner || state_ == s_initialized);
+    // The server may have started disconnecting during the SST.
+    assert(state_ == s_joiner || state_ == s_initialized ||
+           state_ == s_disconnecting);
 
     // Run initialization only if the SST was successful.
     // In case of SST failure the system is in undefined state
-- 
2.43.0


From a571463bd2f6d2c890d00e016b2f2f6935d5b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 09/28] fix: do not change to joined if SST position is bogus

---
 src/server_state.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index e63971c..9672858 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -747,15 +747,6 @@ try
         gtid = server_service_.get_position(cs);
         wsrep::log_info() << "Recovered position from storage: " << gtid;
 
-        lock.lock();
-        if (gtid.seqno() >= connected_gtid().seqno())
-        {
-            /* Now the node has all the data the cluster has: part in
-             * storage, part in replication event queue. */
-            state(lock, s_joined);
-        }
-        lock.unlock();
-
         wsrep::view const v(server_service_.get_view(cs, id_));
         wsrep::log_info() << "Recovered view from SST:\n" << v;
 
@@ -782,7 +773,19 @@ try
                     << ". Preceding view GTID: " << v.state_id();
                 throw wsrep::runtime_error(msg.str());
             }
+        }
 
+        lock.lock();
+        if (gtid.seqno() >= connected_gtid().seqno())
+        {
+            /* Now the node has all the data the cluster has: part in
+             * storage, part in replication event queue. */
+            state(lock, s_joined);
+        }
+        lock.unlock();
+
+        if (v.state_id().id().is_undefined() == false)
+        {
             if (current_view_.status() == wsrep::view::primary)
             {
                 previous_primary_view_ = current_view_;
-- 
2.43.0


From 470dca992879bfd111481079cc85ebdca544d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 10/28] fix: do not change state in initialized() after
 disconnect

---
 src/server_state.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 9672858..cda56c8 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -833,7 +833,11 @@ void wsrep::server_state::initialized()
     init_initialized_ = true;
     if (server_service_.sst_before_init())
     {
-        state(lock, s_initialized);
+        // The server may have been disconnected while it was initializing.
+        if (state_ != s_disconnected)
+        {
+            state(lock, s_initialized);
+        }
     }
     else
     {
-- 
2.43.0


From 0bbed3166849401b5b3990cdb639c0ec1d587129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 11/28] fix: do not miss or make up interrupts in
 wait_until_state()

---
 src/server_state.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index cda56c8..775f996 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1409,18 +1409,25 @@ void wsrep::server_state::wait_until_state(
     enum wsrep::server_state::state state) const
 {
     ++state_waiters_[state];
+    // Used to find out if the state has been changed during the wait. The
+    // wait may be started in disconnected state before connecting.
+    const size_t changes_before_wait(state_hist_.size());
     while (state_ != state)
     {
-        cond_.wait(lock);
         // If the waiter waits for any other state than disconnecting
         // or disconnected and the state has been changed to disconnecting,
-        // this usually means that some error was encountered 
+        // this usually means that some error was encountered. This must
+        // be checked before waiting, nobody may signal the waiter if the
+        // disconnect started before the wait.
         if (state != s_disconnecting && state != s_disconnected
-            && (state_ == s_disconnecting || state_ == s_disconnected))
+            && (state_ == s_disconnecting ||
+                (state_ == s_disconnected &&
+                 state_hist_.size() != changes_before_wait)))
         {
           --state_waiters_[state];
             throw wsrep::runtime_error("State wait was interrupted");
         }
+        cond_.wait(lock);
     }
     --state_waiters_[state];
     cond_.notify_all();
-- 
2.43.0


From 0c6967ac5769331f981755818df9e82ddaf0b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 12/28] fix: signal waiting view handler when streaming client
 becomes applier

The view handler waits in close_orphaned_sr_transactions() until an
aborted streaming client has been removed. The client may be removed
also by converting it into streaming applier if it was already rolling
back, in which case the view handler was never woken up.
---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 775f996..f93377f 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1196,6 +1196,7 @@ void wsrep::server_state::convert_streaming_client_to_applier(
     else
     {
         streaming_clients_.erase(i);
+        cond_.notify_all();
     }
 
     // Convert to applier only if the state is not disconnected. In
-- 
2.43.0


From 3a166e79017dea2b518d6d7491dcf94c233d8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:20 +0000
Subject: [PATCH 13/28] fix: restore globals if adopting a streaming
 transaction fails

Releasing the streaming applier may change the thread context. Restore
the context of the client also if the transaction could not be adopted,
as it is done in disconnected state.
---
 src/server_state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index f93377f..4d24992 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -1210,6 +1210,7 @@ void wsrep::server_state::convert_streaming_client_to_applier(
             log_adopt_error(client_state->transaction());
             streaming_applier->after_apply();
             server_service_.release_high_priority_service(streaming_applier);
+            client_state->client_service().store_globals();
             return;
         }
         if (streaming_appliers_.insert(
-- 
2.43.0


From 1ff97d52da72fd370756ff2a9579aef000f90064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:20 +0000
Subject: [PATCH 14/28] fix: pass commit order for rollback fragment if
 adopting fails

If the transaction could not be adopted for fragment removal, neither
the commit order was passed for the rollback write set nor the
transaction left behind by adopt_transaction() was cleaned up. All
subsequent write sets waited for ever.
---
 src/server_state.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/server_state.cpp b/src/server_state.cpp
index 4d24992..1a87077 100644
--- a/src/server_state.cpp
+++ b/src/server_state.cpp
@@ -268,6 +268,18 @@ static int rollback_fragment(wsrep::server_state& server_state,
                 }
             }
         }
+        else
+        {
+            // Clean up the transaction which could not be adopted. The
+            // commit order must be passed even if fragments remain.
+            high_priority_service.after_apply();
+            if (ws_meta.ordered())
+            {
+                wsrep::mutable_buffer no_error;
+                ret = high_priority_service.log_dummy_write_set(
+                    ws_handle, ws_meta, no_error);
+            }
+        }
     }
     return ret;
 }
-- 
2.43.0


From 77993d922fced2431a948df66f90e031e17a3f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:46 +0000
Subject: [PATCH 15/28] fix: do not pop from empty queue if no messages are to
 be kept in report

---
 src/reporter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index 3b21a19..fa184c8 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -338,11 +338,11 @@ void
 wsrep::reporter::report_event(const std::string& json)
 {
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
-    if (events_.size() == max_msg_)
+    events_.push_back({timestamp(), json});
+    if (events_.size() > max_msg_)
     {
         events_.pop_front();
     }
-    events_.push_back({timestamp(), json});
     write_file(timestamp());
 }
 
@@ -357,14 +357,13 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 
     if (deque.empty() || msg != deque.back().msg)
     {
-        if (deque.size() == max_msg_) deque.pop_front();
-
         if (tstamp <= undefined) tstamp = timestamp();
 
         /* Log messages are not expected to be json formatted, so we escape
            the message strings here to keep the report file well formatted. */
         log_msg_t entry({tstamp, escape_json(msg)});
         deque.push_back(entry);
+        if (deque.size() > max_msg_) deque.pop_front();
         write_file(tstamp);
     }
 }
-- 
2.43.0


From 37e0da07930b770a5907bed3b077d05ff26809ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:46 +0000
Subject: [PATCH 16/28] fix: compare escaped texts to find repeated log
 messages

---
 src/reporter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index fa184c8..dafa431 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -353,15 +353,17 @@ wsrep::reporter::report_log_msg(log_level const    lvl,
 {
     std::deque<log_msg_t>& deque(lvl == error ? err_msg_ : warn_msg_);
 
+    /* Log messages are not expected to be json formatted, so we escape
+       the message strings here to keep the report file well formatted. */
+    std::string const escaped_msg(escape_json(msg));
+
     wsrep::unique_lock<wsrep::mutex> lock(mutex_);
 
-    if (deque.empty() || msg != deque.back().msg)
+    if (deque.empty() || escaped_msg != deque.back().msg)
     {
         if (tstamp <= undefined) tstamp = timestamp();
 
-        /* Log messages are not expected to be json formatted, so we escape
-           the message strings here to keep the report file well formatted. */
-        log_msg_t entry({tstamp, escape_json(msg)});
+        log_msg_t entry({tstamp, escaped_msg});
         deque.push_back(entry);
         if (deque.size() > max_msg_) deque.pop_front();
         write_file(tstamp);
-- 
2.43.0


From ece366106708cba1f8f6b1aaa54ee9479f9a6efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:46 +0000
Subject: [PATCH 17/28] fix: do not replace report with a truncated one or
 leave temporary files

---
 src/reporter.cpp | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/reporter.cpp b/src/reporter.cpp
index dafa431..622d3e7 100644
--- a/src/reporter.cpp
+++ b/src/reporter.cpp
@@ -212,6 +212,33 @@ wsrep::reporter::write_array(std::ostream&              os,
     os << "\t],\n";
 }
 
+// write the whole string to file and close it, return 0 or errno
+static int
+write_and_close(int const fd, const std::string& str)
+{
+    int err(0);
+    size_t written(0);
+    while (written < str.length())
+    {
+        ssize_t const ret(write(fd, str.c_str() + written,
+                                str.length() - written));
+        if (ret > 0)
+        {
+            written += static_cast<size_t>(ret);
+        }
+        else if (ret == 0 || errno != EINTR)
+        {
+            err = (ret == 0 ? EIO : errno);
+            break;
+        }
+    }
+    if (close(fd) && err == 0)
+    {
+        err = errno;
+    }
+    return err;
+}
+
 // write data to temporary file and then rename it to target file for atomicity
 void
 wsrep::reporter::write_file(double const tstamp)
@@ -284,18 +311,24 @@ wsrep::reporter::write_file(double const tstamp)
                   << "': " << strerror(errno) << " (" << errno << ")\n";
         return;
     }
-    ssize_t err(write(fd, str.c_str(), str.length()));
-    close(fd);
-    if (err < 0)
+    int const err(write_and_close(fd, str));
+    if (err)
     {
         std::cerr << "Could not write " << str.length()
                   << " bytes to temporary file '"
-                  << template_ << "': " << strerror(errno)
-                  << " (" << errno << ")\n";
+                  << template_ << "': " << strerror(err)
+                  << " (" << err << ")\n";
+        unlink(template_);
         return;
     }
 
-    rename(template_, file_name_.c_str());
+    if (rename(template_, file_name_.c_str()))
+    {
+        std::cerr << "Could not rename temporary file '" << template_
+                  << "' to '" << file_name_ << "': " << strerror(errno)
+                  << " (" << errno << ")\n";
+        unlink(template_);
+    }
 }
 
 void
-- 
2.43.0


From d6eb68c88afddb4e8f1ad2b4357f0b55967eadcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:02 +0000
Subject: [PATCH 18/28] fix: report an error if provider option is declared
 twice

---
 src/provider_options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/provider_options.cpp b/src/provider_options.cpp
index fcd7a95..5ba36b3 100644
--- a/src/provider_options.cpp
+++ b/src/provider_options.cpp
@@ -148,9 +148,9 @@ enum wsrep::provider::status wsrep::provider_options::set_default(
     std::unique_ptr<wsrep::provider_options::option_value> default_value,
     int flags)
 {
-    auto found(options_.find(name));
     auto opt(std::unique_ptr<provider_options::option>(
         new option{ name, std::move(value), std::move(default_value), flags }));
+    auto found(options_.find(opt->name()));
     if (found != options_.end())
     {
         assert(0);
-- 
2.43.0


From 0bbb60b8246f16d5e2bac87a64d3c99b4a06bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:07 +0000
Subject: [PATCH 19/28] fix: reject UUID text with misplaced dashes

---
 src/uuid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uuid.cpp b/src/uuid.cpp
index 9fe4177..84654e2 100644
--- a/src/uuid.cpp
+++ b/src/uuid.cpp
@@ -36,8 +36,9 @@ int wsrep::uuid_scan (const char* str, size_t str_len, wsrep::uuid_t* uuid)
          * which in turn means
          *     (uuid_offt >> 1) - 2 <= 3
          * since it is always >= 0, because uuid_offt is unsigned */
-        if (((uuid_offt >> 1) - 2) <= 3 && str[uuid_len] == '-') {
-            // skip dashes after 4th, 6th, 8th and 10th positions
+        if (((uuid_offt >> 1) - 2) <= 3 && (uuid_offt & 1) == 0 &&
+            str[uuid_len] == '-' && str[uuid_len - 1] != '-') {
+            // skip one dash after each of 4th, 6th, 8th and 10th positions
             uuid_len += 1;
             continue;
         }
-- 
2.43.0


From 025c8bf14953be8b1d73b619d0e8fb2d02f706f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 20/28] fix: do not leak error of failed command into next
 command of prepared XA

---
 src/client_state.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index 6934d04..1c46a8e 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -219,10 +219,18 @@ void wsrep::client_state::after_command_after_result()
     if (transaction_.active() &&
         transaction_.state() == wsrep::transaction::s_must_abort)
     {
+        if (not keep_command_error_)
+        {
+            // The error of this command was sent to the client already.
+            current_error_ = wsrep::e_success;
+            current_error_status_ = wsrep::provider::success;
+        }
         transaction_.after_command_must_abort(lock);
         assert(transaction_.state() == wsrep::transaction::s_aborted);
     }
-    else if (transaction_.active() == false && not keep_command_error_)
+    else if ((transaction_.active() == false ||
+              transaction_.state() != wsrep::transaction::s_aborted) &&
+             not keep_command_error_)
     {
         current_error_ = wsrep::e_success;
         current_error_status_ = wsrep::provider::success;
-- 
2.43.0


From dc032a4f48b34c61e7e044103145c476acff65e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 21/28] fix: replay BF aborted XA only if it was prepared

---
 include/wsrep/transaction.hpp | 8 ++++++++
 src/transaction.cpp           | 8 ++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/wsrep/transaction.hpp b/include/wsrep/transaction.hpp
index 201c3b5..fd915d5 100644
--- a/include/wsrep/transaction.hpp
+++ b/include/wsrep/transaction.hpp
@@ -213,6 +213,14 @@ namespace wsrep
             return (bf_abort_client_state_ != 0);
         }
 
+        /* Return true if the transaction was BF aborted in prepared
+         * state. Such a transaction must be replayed instead of being
+         * rolled back. */
+        bool xa_prepared_bf_aborted() const
+        {
+            return (is_xa() && bf_aborted() && bf_abort_state_ == s_prepared);
+        }
+
         bool bf_aborted_in_total_order() const
         {
             return bf_aborted_in_total_order_;
diff --git a/src/transaction.cpp b/src/transaction.cpp
index 4d113f3..bdf31f3 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -484,8 +484,7 @@ int wsrep::transaction::before_commit(const wsrep::provider::seq_cb* seq_cb)
         else if (state() != s_committing && state() != s_prepared)
         {
             assert(state() == s_must_abort);
-            if (certified() ||
-                (is_xa() && is_streaming()))
+            if (certified() || xa_prepared_bf_aborted())
             {
                 state(lock, s_must_replay);
             }
@@ -946,7 +945,8 @@ void wsrep::transaction::after_command_must_abort(
     assert(active());
     assert(state_ == s_must_abort);
 
-    if (is_xa() && is_streaming())
+    const bool replay_prepared(xa_prepared_bf_aborted());
+    if (replay_prepared)
     {
         state(lock, s_must_replay);
     }
@@ -955,7 +955,7 @@ void wsrep::transaction::after_command_must_abort(
     client_service_.bf_rollback();
     lock.lock();
 
-    if (is_xa() && is_streaming())
+    if (replay_prepared)
     {
         xa_replay(lock);
     }
-- 
2.43.0


From 67717ec03f26de2eca0bddfac7ea0b63451c8df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 22/28] fix: do not remove fragments of XA which is going to be
 replayed

---
 src/transaction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index bdf31f3..a69a66b 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -763,7 +763,10 @@ int wsrep::transaction::after_rollback()
     // We assume that the application does not let the TOI
     // to proceed until this method returns, e.g. by holding
     // MDL locks. It is not clear how to enforce that though.
-    if (is_streaming() && bf_aborted_in_total_order_)
+    // A prepared XA transaction is going to be replayed from the
+    // fragments, they must not be removed.
+    if (is_streaming() && bf_aborted_in_total_order_ &&
+        !(is_xa() && state() == s_must_replay))
     {
         remove_fragments_in_storage_service_scope(lock);
     }
-- 
2.43.0


From 01407a22094adf5d973fcc35aaa00069ae5667c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 23/28] fix: replay prepared XA BF aborted during a statement

---
 src/transaction.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index a69a66b..6529df6 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -869,6 +869,15 @@ int wsrep::transaction::after_statement(wsrep::unique_lock<wsrep::mutex>& lock)
         assert(is_streaming() == false);
         break;
     case s_must_abort:
+        if (xa_prepared_bf_aborted())
+        {
+            // Prepared transaction must not be rolled back, replay.
+            after_command_must_abort(lock);
+            fragments_certified_for_statement_ = 0;
+            debug_log_state("after_statement_leave");
+            return ret;
+        }
+        WSREP_FALLTHROUGH;
     case s_cert_failed:
         // Error may be set already. For example, if fragment size
         // exceeded the maximum size in certify_fragment(), then
-- 
2.43.0


From ff236aeab7161652b0d2823efbd1b604bd969ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 24/28] fix: do not let BF abort interfere with XA detach

---
 src/transaction.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 6529df6..53fd4e6 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1258,16 +1258,29 @@ int wsrep::transaction::commit_or_rollback_by_xid(const wsrep::xid& xid,
 void wsrep::transaction::xa_detach()
 {
     debug_log_state("xa_detach enter");
-    assert(state() == s_prepared ||
+    wsrep::unique_lock<wsrep::mutex> lock(client_state_.mutex_);
+    assert(state() == s_prepared || xa_prepared_bf_aborted() ||
            client_state_.state() == wsrep::client_state::s_quitting);
+    if (state() == s_must_abort && xa_prepared_bf_aborted())
+    {
+        // BF aborted before detach, replay converts the transaction
+        // into applier.
+        after_command_must_abort(lock);
+        debug_log_state("xa_detach leave");
+        return;
+    }
     if (state() == s_prepared)
     {
+        // Do not allow BF aborts during conversion, the applier takes
+        // over the transaction in prepared state.
+        is_bf_immutable_ = true;
+        lock.unlock();
         wsrep::server_state& server_state(client_state_.server_state());
         server_state.convert_streaming_client_to_applier(&client_state_);
         client_service_.store_globals();
         client_service_.cleanup_transaction();
+        lock.lock();
     }
-    wsrep::unique_lock<wsrep::mutex> lock(client_state_.mutex_);
     streaming_context_.cleanup();
     state(lock, s_aborting);
     state(lock, s_aborted);
-- 
2.43.0


From 33fc9d98bb7bb9858b193c6d3e6754bb8b0ee0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 25/28] fix: replay prepared XA BF aborted while committing

---
 src/transaction.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 53fd4e6..04dede6 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -1817,6 +1817,9 @@ int wsrep::transaction::certify_commit(
     {
         if (is_xa() && state() == s_must_abort)
         {
+            // Prepared transaction is replayed and committed, the
+            // client should not see an error.
+            client_state_.reset_error();
             state(lock, s_must_replay);
         }
         return 1;
@@ -1962,6 +1965,13 @@ int wsrep::transaction::certify_commit(
         state(lock, s_must_replay);
         break;
     case wsrep::provider::error_certification_failed:
+        if (is_xa() && !ordered() && state() == s_must_abort)
+        {
+            // BF aborted before the commit fragment was replicated.
+            // A prepared transaction must not be rolled back, replay.
+            state(lock, s_must_replay);
+            break;
+        }
         state(lock, s_cert_failed);
         client_state_.override_error(wsrep::e_deadlock_error);
         break;
@@ -1981,9 +1991,14 @@ int wsrep::transaction::certify_commit(
         {
             if (is_xa())
             {
+                // Prepared transaction is replayed and committed,
+                // the client should not see an error.
                 state(lock, s_must_replay);
             }
-            client_state_.override_error(wsrep::e_deadlock_error);
+            else
+            {
+                client_state_.override_error(wsrep::e_deadlock_error);
+            }
         }
         else
         {
-- 
2.43.0


From 2270ac4cdde8f210165074f81309c2d612b3b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 26/28] fix: do not hide BF abort behind an earlier error of
 the same command

---
 src/transaction.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 04dede6..2ac4baa 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -881,8 +881,10 @@ int wsrep::transaction::after_statement(wsrep::unique_lock<wsrep::mutex>& lock)
     case s_cert_failed:
         // Error may be set already. For example, if fragment size
         // exceeded the maximum size in certify_fragment(), then
-        // we already have wsrep::e_error_during_commit
-        if (client_state_.current_error() == wsrep::e_success)
+        // we already have wsrep::e_error_during_commit. An error of
+        // an operation which does not abort the transaction (e.g.
+        // sync wait) must not hide the BF abort.
+        if (client_state_.current_error() == wsrep::e_success || bf_aborted())
         {
             client_state_.override_error(wsrep::e_deadlock_error);
         }
@@ -910,8 +912,7 @@ int wsrep::transaction::after_statement(wsrep::unique_lock<wsrep::mutex>& lock)
     case s_aborted:
         // Raise a deadlock error if the transaction was BF aborted and
         // rolled back by client outside of transaction hooks.
-        if (bf_aborted() && client_state_.current_error() == wsrep::e_success &&
-            !client_service_.is_xa_rollback())
+        if (bf_aborted() && !client_service_.is_xa_rollback())
         {
             client_state_.override_error(wsrep::e_deadlock_error);
         }
-- 
2.43.0


From df6d422ef7b8c8b2c2067b086ebd70311d4e8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 27/28] fix: abort the transaction when its last statement is
 not allowed for streaming

before_prepare() returned an error but left the transaction executing, which
is not a valid outcome of failed prepare and hit an assertion.
---
 src/transaction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transaction.cpp b/src/transaction.cpp
index 2ac4baa..cd12b62 100644
--- a/src/transaction.cpp
+++ b/src/transaction.cpp
@@ -336,6 +336,11 @@ int wsrep::transaction::before_prepare(wsrep::unique_lock<wsrep::mutex>& lock,
                 client_state_.override_error(wsrep::e_deadlock_error);
                 ret = 1;
             }
+            else if (ret && state() == s_executing)
+            {
+                // Statement not allowed, the error has been set above.
+                state(lock, s_must_abort);
+            }
         }
 
         if (ret == 0)
-- 
2.43.0


From c43c795e431bd1bb67ec6a78643d1060af0261cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:32 +0000
Subject: [PATCH 28/28] fix: reset the error of the previous session when
 opening a client state

---
 src/client_state.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client_state.cpp b/src/client_state.cpp
index 1c46a8e..1fdf4bb 100644
--- a/src/client_state.cpp
+++ b/src/client_state.cpp
@@ -49,6 +49,10 @@ void wsrep::client_state::open(wsrep::client_id id)
     rollbacker_active_ = false;
     sync_wait_gtid_ = wsrep::gtid::undefined();
     last_written_gtid_ = wsrep::gtid::undefined();
+    // The previous session may have been closed before the error
+    // was reported.
+    current_error_ = wsrep::e_success;
+    current_error_status_ = wsrep::provider::success;
     state(lock, s_idle);
     id_ = id;
     debug_log_state("open: leave");
-- 
2.43.0

