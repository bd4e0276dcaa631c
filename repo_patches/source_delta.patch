From fbb137f3dd6a481b4f46da866602d7f2ed3ab970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:03 +0000
Subject: [PATCH 01/32] fix: drop the socket of a failed connection attempt so
 that the next request reconnects

---
 src/asio_service.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index a8cebf1..2649389 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -485,6 +485,7 @@ private:
             ptr<resp_msg> rsp;
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
+            socket_.close();
             when_done(rsp, except);
         }
     }
-- 
2.43.0


From f7089cd8c8ae81a8e3e0c2e6c3de1ce3fd01790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:41 +0000
Subject: [PATCH 02/32] fix: do not let requests on one connection take each
 other's response

Responses carry no request id and reads of concurrent requests complete in
any order, so a response could be handed to the handler of another request
(a prevote response to the vote handler, which stops the server).
---
 src/asio_service.cxx | 53 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 2649389..daa236c 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -385,7 +385,7 @@ class asio_rpc_client : public rpc_client, public std::enable_shared_from_this<a
 {
 public:
     asio_rpc_client(asio::io_service& io_svc, std::string& host, std::string& port)
-        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port)
+        : resolver_(io_svc), socket_(io_svc), host_(host), port_(port), requests_(), requests_lock_()
     {
     }
     virtual ~asio_rpc_client()
@@ -398,6 +398,22 @@ public:
 
 public:
     virtual void send(ptr<req_msg>& req, rpc_handler& when_done) __override__
+    {
+        {
+            auto_lock(requests_lock_);
+            requests_.emplace(req, when_done);
+            if (requests_.size() > 1)
+            {
+                // responses carry no request id, the connection can only serve one request at a time
+                return;
+            }
+        }
+
+        start_request(req, when_done);
+    }
+
+private:
+    void start_request(ptr<req_msg>& req, rpc_handler& when_done)
     {
         ptr<asio_rpc_client> self(this->shared_from_this());
         if (!socket_.is_open())
@@ -420,7 +436,7 @@ public:
                         ptr<resp_msg> rsp;
                         ptr<rpc_exception> except(cs_new<rpc_exception>(
                             lstrfmt("failed to resolve host %s due to error %d").fmt(host_.c_str(), err.value()), req));
-                        when_done(rsp, except);
+                        this->complete_request(when_done, rsp, except);
                     }
                 });
         }
@@ -469,7 +485,26 @@ public:
         }
     }
 
-private:
+    void complete_request(rpc_handler& when_done, ptr<resp_msg>& rsp, ptr<rpc_exception>& except)
+    {
+        std::pair<ptr<req_msg>, rpc_handler> next;
+        {
+            auto_lock(requests_lock_);
+            requests_.pop();
+            if (!requests_.empty())
+            {
+                next = requests_.front();
+            }
+        }
+
+        if (next.first)
+        {
+            start_request(next.first, next.second);
+        }
+
+        when_done(rsp, except);
+    }
+
     void connected(
         ptr<req_msg>& req,
         rpc_handler& when_done,
@@ -478,7 +513,7 @@ private:
     {
         if (!err)
         {
-            this->send(req, when_done);
+            this->start_request(req, when_done);
         }
         else
         {
@@ -486,7 +521,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to connect to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete_request(when_done, rsp, except);
         }
     }
 
@@ -516,7 +551,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to send request to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete_request(when_done, rsp, except);
         }
     }
 
@@ -537,7 +572,7 @@ private:
             byte accepted_val = resp_buf->get_byte();
             ptr<resp_msg> rsp(cs_new<resp_msg>(term, (msg_type)msg_type_val, src, dst, nxt_idx, accepted_val == 1));
             ptr<rpc_exception> except;
-            when_done(rsp, except);
+            complete_request(when_done, rsp, except);
         }
         else
         {
@@ -545,7 +580,7 @@ private:
             ptr<rpc_exception> except(
                 cs_new<rpc_exception>(sstrfmt("failed to read response to remote socket %d").fmt(err.value()), req));
             socket_.close();
-            when_done(rsp, except);
+            complete_request(when_done, rsp, except);
         }
     }
 
@@ -554,6 +589,8 @@ private:
     asio::ip::tcp::socket socket_;
     std::string host_;
     std::string port_;
+    std::queue<std::pair<ptr<req_msg>, rpc_handler>> requests_;
+    std::mutex requests_lock_;
 };
 } // namespace cornerstone
 
-- 
2.43.0


From 945000f753cfa9d852a038bf45a16258b78e2034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:50 +0000
Subject: [PATCH 03/32] fix: judge candidates by the snapshot term when the log
 is fully compacted

last_entry() is the dummy entry (term 0) when every entry was compacted, so
any candidate with a non-zero last term was considered up to date.
---
 src/raft_server_req_handlers.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 41d9891..a3242f4 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -193,8 +193,9 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
 ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::vote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term &&
                      log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() == state_->get_term() && log_okay &&
                  (state_->get_voted_for() == req.get_src() || state_->get_voted_for() == -1);
@@ -211,8 +212,9 @@ ptr<resp_msg> raft_server::handle_vote_req(req_msg& req)
 ptr<resp_msg> raft_server::handle_prevote_req(req_msg& req)
 {
     ptr<resp_msg> resp(cs_new<resp_msg>(state_->get_term(), msg_type::prevote_response, id_, req.get_src()));
-    bool log_okay = req.get_last_log_term() > log_store_->last_entry()->get_term() ||
-                    (req.get_last_log_term() == log_store_->last_entry()->get_term() &&
+    ulong last_log_term = term_for_log(log_store_->next_slot() - 1);
+    bool log_okay = req.get_last_log_term() > last_log_term ||
+                    (req.get_last_log_term() == last_log_term &&
                      log_store_->next_slot() - 1 <= req.get_last_log_idx());
     bool grant = req.get_term() >= state_->get_term() && log_okay;
     if (ctx_->params_->defensive_prevote_)
-- 
2.43.0


From dc65d370585a5604299712ef4aca122a4cbdda5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:50 +0000
Subject: [PATCH 04/32] fix: ignore peer responses that carry an older term

A late append or snapshot acceptance from an earlier leadership updated the
matched index of the peer and could move the commit point.
---
 src/raft_server_resp_handlers.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index c1a4ab9..2181dfc 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -61,6 +61,13 @@ void raft_server::handle_peer_resp(ptr<resp_msg>& resp, const ptr<rpc_exception>
         }
 
         // ignore the response that with lower term for safety
+        if (resp->get_term() < state_->get_term())
+        {
+            l_->info(sstrfmt("Received an outdated response at term %llu v.s. current term %llu")
+                         .fmt(resp->get_term(), state_->get_term()));
+            return;
+        }
+
         switch (resp->get_type())
         {
             case msg_type::vote_response:
-- 
2.43.0


From e81aa9045572ece4fb59e9f9c063bbcdf5f5245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:50 +0000
Subject: [PATCH 05/32] fix: forget matched indexes of an earlier leadership
 when becoming leader

---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 2cd053b..bfec783 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -439,6 +439,7 @@ void raft_server::become_leader()
         for (peer_itor it = peers_.begin(); it != peers_.end(); ++it)
         {
             it->second->set_next_log_idx(log_store_->next_slot());
+            it->second->set_matched_idx(0);
             it->second->set_snapshot_in_sync(nil_snp);
             it->second->set_free();
             enable_hb_for_peer(*(it->second));
-- 
2.43.0


From ae5ad1e219792a64801446a3d095fa47426ff142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:50 +0000
Subject: [PATCH 06/32] fix: a follower commits only up to the last entry the
 request verified

---
 src/raft_server_req_handlers.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index a3242f4..5a0b429 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -185,7 +185,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
     }
 
     leader_ = req.get_src();
-    commit(req.get_commit_idx());
+    // logs after the ones verified by this request may still conflict with the leader's
+    commit(std::min(req.get_commit_idx(), (ulong)(req.get_last_log_idx() + req.log_entries().size())));
     resp->accept(req.get_last_log_idx() + req.log_entries().size() + 1);
     return resp;
 }
-- 
2.43.0


From c9ede9c351ea7ed8d89e676351474c0d9b7e852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:50 +0000
Subject: [PATCH 07/32] fix: roll back every entry dropped by an overwrite, not
 only the first

log_store::write_at drops the entries after the overwritten one, so entries
behind the first conflicting one were neither rolled back nor, when they were
configurations, did they clear config_changing_.
---
 src/raft_server_req_handlers.cxx | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 5a0b429..2456d83 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -137,20 +137,26 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
             }
         }
 
-        // dealing with overwrites
-        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        // dealing with overwrites, the first overwrite drops all logs after it from log store as well
+        if (log_idx < req.log_entries().size())
         {
-            ptr<log_entry> old_entry(log_store_->entry_at(idx));
-            if (old_entry->get_val_type() == log_val_type::app_log)
-            {
-                state_machine_->rollback(idx, old_entry->get_buf(), old_entry->get_cookie());
-            }
-            else if (old_entry->get_val_type() == log_val_type::conf)
+            for (ulong old_idx = log_store_->next_slot() - 1; old_idx >= idx; --old_idx)
             {
-                l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
-                config_changing_ = false;
+                ptr<log_entry> old_entry(log_store_->entry_at(old_idx));
+                if (old_entry->get_val_type() == log_val_type::app_log)
+                {
+                    state_machine_->rollback(old_idx, old_entry->get_buf(), old_entry->get_cookie());
+                }
+                else if (old_entry->get_val_type() == log_val_type::conf)
+                {
+                    l_->info(sstrfmt("revert from a prev config change to config at %llu").fmt(config_->get_log_idx()));
+                    config_changing_ = false;
+                }
             }
+        }
 
+        while (idx < log_store_->next_slot() && log_idx < req.log_entries().size())
+        {
             ptr<log_entry> entry = req.log_entries().at(log_idx);
             log_store_->write_at(idx, entry);
             if (entry->get_val_type() == log_val_type::app_log)
-- 
2.43.0


From c6b8caee7fbfb44c7bb05014b46ba9786f34a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:24 +0000
Subject: [PATCH 08/32] fix: replicate_log reports acceptance and appends under
 the server lock

It returned false even when the entry was accepted, could append after the
server lost its leadership, and never announced the entry with pre_commit.
---
 src/raft_server.cxx | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index bfec783..7e52645 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1080,6 +1080,7 @@ bool raft_server::is_leader() const
 
 bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cookie_tag)
 {
+    recur_lock(lock_);
     if (!is_leader())
     {
         return false;
@@ -1091,11 +1092,8 @@ bool raft_server::replicate_log(bufptr& log, const ptr<void>& cookie, uint cooki
         entry->set_cookie(cookie_tag, cookie);
     }
 
-    log_store_->append(entry);
-    {
-        recur_lock(lock_);
-        request_append_entries();
-    }
-
-    return false;
+    ulong log_idx = log_store_->append(entry);
+    state_machine_->pre_commit(log_idx, entry->get_buf(), entry->get_cookie());
+    request_append_entries();
+    return true;
 }
-- 
2.43.0


From 32b835aeacfd17bf1d964a9730263d05fa417d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:24 +0000
Subject: [PATCH 09/32] fix: is_leader checks the last quorum response on every
 call

The elapsed time was kept in a static shared by all servers and, once small,
was never computed again, so an isolated leader accepted entries for ever; it
was also truncated to 32 bits.
---
 src/raft_server.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 7e52645..450d0f6 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -1053,10 +1053,8 @@ ptr<async_result<bool>> raft_server::send_msg_to_leader(ptr<req_msg>& req)
 
 bool raft_server::is_leader() const
 {
-    static volatile int32 time_elasped_since_quorum_resp(std::numeric_limits<int32>::max());
     read_lock(peers_lock_);
-    if (role_ == srv_role::leader && peers_.size() > 0 &&
-        time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
+    if (role_ == srv_role::leader && peers_.size() > 0)
     {
         std::vector<time_point> peer_resp_times;
         for (auto& peer : peers_)
@@ -1065,10 +1063,9 @@ bool raft_server::is_leader() const
         }
 
         std::sort(peer_resp_times.begin(), peer_resp_times.end());
-        time_elasped_since_quorum_resp =
-            static_cast<int32>(std::chrono::duration_cast<std::chrono::milliseconds>(
-                                   system_clock::now() - peer_resp_times[peers_.size() / 2])
-                                   .count());
+        int64_t time_elasped_since_quorum_resp = std::chrono::duration_cast<std::chrono::milliseconds>(
+                                                     system_clock::now() - peer_resp_times[peers_.size() / 2])
+                                                     .count();
         if (time_elasped_since_quorum_resp > ctx_->params_->election_timeout_upper_bound_ * 2)
         {
             return false;
-- 
2.43.0


From ba8902d8db667a34238d7c8a0ec31b15d38d9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:25 +0000
Subject: [PATCH 10/32] fix: keep the election timer running while prevoting

Once a prevote round was started no timer was scheduled any more, so a server
whose prevote messages were lost never tried again.
---
 src/raft_server.cxx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 450d0f6..e3ed02a 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -220,12 +220,17 @@ void raft_server::handle_election_timeout()
     {
         if (prevote_state_ && !prevote_state_->empty())
         {
-            l_->debug("Election timeout, but there is already a prevote ongoing, ignore this event");
+            l_->debug("Election timeout, but there is already a prevote ongoing, start a new round");
+            prevote_state_->reset();
         }
-        else
+
+        l_->debug("Election timeout, start prevoting");
+        request_prevote();
+
+        // keep the timer running, prevote requests or responses may get lost
+        if (role_ == srv_role::follower)
         {
-            l_->debug("Election timeout, start prevoting");
-            request_prevote();
+            restart_election_timer();
         }
     }
     else
-- 
2.43.0


From 423a4141063fed9a98f1cdd7e1e1b15471c3ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:25 +0000
Subject: [PATCH 11/32] fix: abandon a prevote when the leader is heard, count
 members only

prevote_state_ survived messages of a live leader, so late prevote responses
started an election and defensive mode kept granting prevotes.
---
 src/raft_server_req_handlers.cxx  | 4 ++++
 src/raft_server_resp_handlers.cxx | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 2456d83..f9a2906 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -101,6 +101,8 @@ ptr<resp_msg> raft_server::handle_append_entries(req_msg& req)
         }
         else
         {
+            // leader is alive, abandon the prevote if there is one
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
@@ -320,6 +322,8 @@ ptr<resp_msg> raft_server::handle_install_snapshot_req(req_msg& req)
         }
         else
         {
+            // leader is alive, abandon the prevote if there is one
+            prevote_state_.reset();
             restart_election_timer();
         }
     }
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 2181dfc..78e0632 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -256,6 +256,12 @@ void raft_server::handle_prevote_resp(resp_msg& resp)
 
     {
         read_lock(peers_lock_);
+        if (peers_.find(resp.get_src()) == peers_.end())
+        {
+            l_->info(sstrfmt("Peer %d not found, ignore the prevote response").fmt(resp.get_src()));
+            return;
+        }
+
         bool vote_added = prevote_state_->add_voted_server(resp.get_src());
         if (!vote_added)
         {
-- 
2.43.0


From 88b0601cccffd4fa9a6ab5c7f980555fc2cfd81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:25 +0000
Subject: [PATCH 12/32] fix: start a configuration change only as leader and
 with none pending

Responses and rpc errors of join and leave requests that arrive late appended
a configuration although the server was no longer leader or another
configuration was still uncommitted; giving up on a joining server cleared the
mark of a pending configuration.
---
 src/raft_server_req_handlers.cxx  | 13 +++++++++++++
 src/raft_server_resp_handlers.cxx |  3 +--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index f9a2906..9ec48cc 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -552,6 +552,13 @@ void raft_server::sync_log_to_new_srv(ulong start_idx)
     int32 gap = (int32)(quick_commit_idx_ - start_idx);
     if (gap < ctx_->params_->log_sync_stop_gap_)
     {
+        if (role_ != srv_role::leader || config_changing_)
+        {
+            l_->info(sstrfmt("not a leader or previous config has not committed yet, cannot add server %d")
+                         .fmt(srv_to_join_->get_id()));
+            return;
+        }
+
         l_->info(lstrfmt("LogSync is done for server %d with log gap %d, now put the server into cluster")
                      .fmt(srv_to_join_->get_id(), gap));
         ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
@@ -647,6 +654,12 @@ ptr<resp_msg> raft_server::handle_leave_cluster_req(req_msg& req)
 
 void raft_server::rm_srv_from_cluster(int32 srv_id)
 {
+    if (role_ != srv_role::leader || config_changing_)
+    {
+        l_->info(sstrfmt("not a leader or previous config has not committed yet, cannot remove server %d").fmt(srv_id));
+        return;
+    }
+
     ptr<cluster_config> new_conf = cs_new<cluster_config>(log_store_->next_slot(), config_->get_log_idx());
     for (cluster_config::const_srv_itor it = config_->get_servers().begin(); it != config_->get_servers().end(); ++it)
     {
diff --git a/src/raft_server_resp_handlers.cxx b/src/raft_server_resp_handlers.cxx
index 78e0632..cac9dda 100644
--- a/src/raft_server_resp_handlers.cxx
+++ b/src/raft_server_resp_handlers.cxx
@@ -439,7 +439,7 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                      */
                     {
                         write_lock(peers_lock_);
-                        if (peers_.size() == 1)
+                        if (peers_.size() == 1 && role_ == srv_role::leader && !config_changing_)
                         {
                             peer_itor pit = peers_.find(p->get_id());
                             if (pit != peers_.end())
@@ -461,7 +461,6 @@ void raft_server::handle_ext_resp_err(rpc_exception& err)
                 {
                     l_->info(lstrfmt("rpc failed again for the new coming server (%d), will stop retry for this server")
                                  .fmt(p->get_id()));
-                    config_changing_ = false;
                     srv_to_join_.reset();
                 }
             }
-- 
2.43.0


From 183e5f31d3aeafa5ecf0dc84a92eedffc26f9755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:06 +0000
Subject: [PATCH 13/32] fix: buffer::get(bufptr&) refuses to read past the end
 of the buffer

---
 src/buffer.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 50678e6..68de92e 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -245,6 +245,11 @@ void buffer::put(const std::string& str)
 void buffer::get(bufptr& dst)
 {
     size_t sz = dst->size() - dst->pos();
+    if (size() - pos() < sz)
+    {
+        throw std::overflow_error("insufficient buffer available to fill the other buffer");
+    }
+
     ::memcpy(dst->data(), data(), sz);
     __mv_fw_block(this, sz);
 }
-- 
2.43.0


From 12f760080765ac559d640cabb233c7c09bbef84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:06 +0000
Subject: [PATCH 14/32] fix: decode empty strings and refuse unterminated ones

get_str returned a null pointer for an empty string without consuming it, and
srv_config::deserialize passed a null pointer on to std::string.
---
 src/buffer.cxx     | 2 +-
 src/srv_config.cxx | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/buffer.cxx b/src/buffer.cxx
index 68de92e..c8a2331 100644
--- a/src/buffer.cxx
+++ b/src/buffer.cxx
@@ -172,7 +172,7 @@ const char* buffer::get_str()
     byte* d = data();
     while ((p + i) < s && *(d + i))
         ++i;
-    if (p + i >= s || i == 0)
+    if (p + i >= s)
     {
         return nilptr;
     }
diff --git a/src/srv_config.cxx b/src/srv_config.cxx
index 267c4a7..52ae2b5 100644
--- a/src/srv_config.cxx
+++ b/src/srv_config.cxx
@@ -22,6 +22,11 @@ ptr<srv_config> srv_config::deserialize(buffer& buf)
 {
     int32 id = buf.get_int();
     const char* endpoint = buf.get_str();
+    if (endpoint == nilptr)
+    {
+        throw std::overflow_error("insufficient buffer available for the endpoint of a server");
+    }
+
     return cs_new<srv_config>(id, endpoint);
 }
 
-- 
2.43.0


From 6c2634ef7651a9325ca6ffac3655ebfce3ea9f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:06 +0000
Subject: [PATCH 15/32] fix: validate message types and entry sizes received
 from the network

A message type outside the enumeration was used as an index into a table of
names, and an entry size larger than the received data was allocated.
---
 src/asio_service.cxx | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index daa236c..7673105 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -232,6 +232,13 @@ private:
         {
             header_->pos(0);
             msg_type t = (msg_type)header_->get_byte();
+            if (t < msg_type::vote_request || t > msg_type::prevote_response)
+            {
+                l_->warn(sstrfmt("unknown message type %d, stop this session").fmt((int)t));
+                this->stop();
+                return;
+            }
+
             int32 src = header_->get_int();
             int32 dst = header_->get_int();
             ulong term = header_->get_ulong();
@@ -247,6 +254,13 @@ private:
                     ulong term = log_data_->get_ulong();
                     log_val_type val_type = (log_val_type)log_data_->get_byte();
                     int32 val_size = log_data_->get_int();
+                    if (val_size < 0 || (size_t)val_size > log_data_->size() - log_data_->pos())
+                    {
+                        l_->warn(sstrfmt("bad log entry size %d, stop this session").fmt(val_size));
+                        this->stop();
+                        return;
+                    }
+
                     bufptr buf(buffer::alloc((size_t)val_size));
                     log_data_->get(buf);
                     ptr<log_entry> entry(cs_new<log_entry>(term, std::move(buf), val_type));
@@ -570,6 +584,16 @@ private:
             ulong term = resp_buf->get_ulong();
             ulong nxt_idx = resp_buf->get_ulong();
             byte accepted_val = resp_buf->get_byte();
+            if (msg_type_val < msg_type::vote_request || msg_type_val > msg_type::prevote_response)
+            {
+                ptr<resp_msg> no_rsp;
+                ptr<rpc_exception> bad_rsp(
+                    cs_new<rpc_exception>(sstrfmt("unknown response message type %d").fmt((int)msg_type_val), req));
+                socket_.close();
+                complete_request(when_done, no_rsp, bad_rsp);
+                return;
+            }
+
             ptr<resp_msg> rsp(cs_new<resp_msg>(term, (msg_type)msg_type_val, src, dst, nxt_idx, accepted_val == 1));
             ptr<rpc_exception> except;
             complete_request(when_done, rsp, except);
-- 
2.43.0


From fa41e1373774e7f5659bb773575ad839f0a6eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:06 +0000
Subject: [PATCH 16/32] fix: async_result waits for the result and runs its
 handler once

get() returned after a spurious wakeup, or at once when the object was built
with a handler, and a handler attached while the result was being set ran twice.
---
 include/async.hxx | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/async.hxx b/include/async.hxx
index e03b0a2..05d9f95 100644
--- a/include/async.hxx
+++ b/include/async.hxx
@@ -36,7 +36,7 @@ public:
     explicit async_result(T& result) : result_(result), err_(), has_result_(true), lock_(), cv_()
     {
     }
-    explicit async_result(handler_type& handler) : err_(), has_result_(true), handler_(handler), lock_(), cv_()
+    explicit async_result(handler_type& handler) : err_(), has_result_(false), handler_(handler), lock_(), cv_()
     {
     }
 
@@ -50,12 +50,14 @@ public:
     template <typename _THandler>
     void when_ready(_THandler&& handler)
     {
+        bool ready(false);
         {
             std::lock_guard<std::mutex> guard(lock_);
             handler_ = std::forward<_THandler>(handler);
+            ready = has_result_;
         }
 
-        if (has_result_)
+        if (ready)
         {
             handler_(result_, err_);
         }
@@ -87,17 +89,11 @@ public:
     T& get()
     {
         std::unique_lock<std::mutex> lock(lock_);
-        if (has_result_)
+        while (!has_result_)
         {
-            if (err_ == nullptr)
-            {
-                return result_;
-            }
-
-            throw err_;
+            cv_.wait(lock);
         }
 
-        cv_.wait(lock);
         if (err_ == nullptr)
         {
             return result_;
-- 
2.43.0


From 0e69764a6185c1a7393f0a7de85fbf594ee60540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:06 +0000
Subject: [PATCH 17/32] fix: do not lose wakeups of the background committing
 thread and its end

The thread checked for work without the lock the notifier must hold, so a
commit signalled in between was not applied until the next one, and the
destructor waited, holding the server lock, for a notification that might
have happened already or needed that lock.
---
 include/raft_server.hxx |  1 +
 src/raft_server.cxx     | 29 +++++++++++++++++++++--------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index d9044fc..c91296b 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -123,6 +123,7 @@ private:
     bool config_changing_;
     bool catching_up_;
     bool stopping_;
+    bool commit_stopped_;
     int32 steps_to_down_;
     std::atomic_bool snp_in_progress_;
     std::unique_ptr<context> ctx_;
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index e3ed02a..7345860 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -56,6 +56,7 @@ raft_server::raft_server(context* ctx)
       config_changing_(false),
       catching_up_(false),
       stopping_(false),
+      commit_stopped_(false),
       steps_to_down_(0),
       snp_in_progress_(),
       ctx_(ctx),
@@ -146,14 +147,19 @@ raft_server::raft_server(context* ctx)
 
 raft_server::~raft_server()
 {
+    {
+        auto_lock(commit_lock_);
+        stopping_ = true;
+        commit_cv_.notify_all();
+    }
+
+    {
+        // the background thread may need the server lock to finish what it is doing
+        std::unique_lock<std::mutex> lock(stopping_lock_);
+        ready_to_stop_cv_.wait(lock, [this]() { return commit_stopped_; });
+    }
+
     recur_lock(lock_);
-    stopping_ = true;
-    std::unique_lock<std::mutex> commit_lock(commit_lock_);
-    commit_cv_.notify_all();
-    std::unique_lock<std::mutex> lock(stopping_lock_);
-    commit_lock.unlock();
-    commit_lock.release();
-    ready_to_stop_cv_.wait(lock);
     if (election_task_)
     {
         scheduler_->cancel(election_task_);
@@ -539,6 +545,7 @@ void raft_server::commit(ulong target_idx)
 
     if (log_store_->next_slot() - 1 > sm_commit_index_ && quick_commit_idx_ > sm_commit_index_)
     {
+        auto_lock(commit_lock_);
         commit_cv_.notify_one();
     }
 }
@@ -900,13 +907,19 @@ void raft_server::commit_in_bg()
                 }
 
                 std::unique_lock<std::mutex> lock(commit_lock_);
-                commit_cv_.wait(lock);
+                commit_cv_.wait(
+                    lock,
+                    [this]() {
+                        return stopping_ || (quick_commit_idx_ > sm_commit_index_ &&
+                                             sm_commit_index_ < log_store_->next_slot() - 1);
+                    });
                 if (stopping_)
                 {
                     lock.unlock();
                     lock.release();
                     {
                         auto_lock(stopping_lock_);
+                        commit_stopped_ = true;
                         ready_to_stop_cv_.notify_all();
                     }
 
-- 
2.43.0


From a292b4d2a8a60b6cc45f25007a89be996ecca1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:06 +0000
Subject: [PATCH 18/32] fix: read a previous configuration from the start of
 its entry

The entry may be shared with readers that consumed it, making the snapshot fail.
---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 7345860..dc912cb 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -575,6 +575,7 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
             while (conf->get_log_idx() > committed_idx && conf->get_prev_log_idx() >= log_store_->start_index())
             {
                 ptr<log_entry> conf_log(log_store_->entry_at(conf->get_prev_log_idx()));
+                conf_log->get_buf().pos(0);
                 conf = cluster_config::deserialize(conf_log->get_buf());
             }
 
-- 
2.43.0


From 856b2c6899daa6769bd5fdddb5004c0226d72a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:06 +0000
Subject: [PATCH 19/32] fix: a failed compaction must not prevent all further
 snapshots

Compacting below the start of the log made the store throw, and the exception
left snp_in_progress_ set for ever.
---
 src/raft_server.cxx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index dc912cb..4b32a22 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -621,31 +621,33 @@ void raft_server::snapshot_and_compact(ulong committed_idx)
 
 void raft_server::on_snapshot_completed(ptr<snapshot>& s, bool result, const ptr<std::exception>& err)
 {
-    do
+    try
     {
         if (err != nilptr)
         {
             l_->err(lstrfmt("failed to create a snapshot due to %s").fmt(err->what()));
-            break;
         }
-
-        if (!result)
+        else if (!result)
         {
             l_->info("the state machine rejects to create the snapshot");
-            break;
         }
-
+        else
         {
             recur_lock(lock_);
             l_->debug("snapshot created, compact the log store");
 
             last_snapshot_ = s;
-            if (s->get_last_log_idx() > (ulong)ctx_->params_->reserved_log_items_)
+            if (s->get_last_log_idx() >= log_store_->start_index() + (ulong)ctx_->params_->reserved_log_items_)
             {
                 log_store_->compact(s->get_last_log_idx() - (ulong)ctx_->params_->reserved_log_items_);
             }
         }
-    } while (false);
+    }
+    catch (...)
+    {
+        l_->err("failed to compact the log store after a snapshot is created");
+    }
+
     snp_in_progress_.store(false);
 }
 
-- 
2.43.0


From 8adf2aeddb89191451e89dbda44a24659ada1f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:06 +0000
Subject: [PATCH 20/32] fix: start the election timer when a joined server
 becomes a member

---
 src/raft_server.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 4b32a22..5715e3e 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -955,6 +955,7 @@ void raft_server::commit_in_bg()
                     {
                         l_->info("this server is committed as one of cluster members");
                         catching_up_ = false;
+                        restart_election_timer();
                     }
                 }
 
-- 
2.43.0


From 38d5dcc6080f3a4fc414dbc5958a938d526187d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:06 +0000
Subject: [PATCH 21/32] fix: stopping the service waits for a flush that
 started after the request

The flush handler could notify before stop() waited, or arm the timer again
after stop() cancelled it, and stop() never returned.
---
 src/asio_service.cxx | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/asio_service.cxx b/src/asio_service.cxx
index 7673105..854b4aa 100644
--- a/src/asio_service.cxx
+++ b/src/asio_service.cxx
@@ -120,6 +120,7 @@ private:
     std::mutex logger_list_lock_;
     std::list<ptr<impls::fs_based_logger>> loggers_;
     bool stopping_;
+    bool flushed_;
     std::mutex stopping_lock_;
     std::condition_variable stopping_cv_;
     friend asio_service;
@@ -642,6 +643,7 @@ asio_service_impl::asio_service_impl()
       logger_list_lock_(),
       loggers_(),
       stopping_(false),
+      flushed_(false),
       stopping_lock_(),
       stopping_cv_()
 {
@@ -685,11 +687,16 @@ void asio_service_impl::worker_entry()
 
 void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
 {
-    if (continue_.load() == 1)
+    bool stopping(false);
     {
-        log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
-        log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
-                                 { self->flush_all_loggers(err); });
+        auto_lock(stopping_lock_);
+        stopping = stopping_;
+        if (!stopping)
+        {
+            log_flush_tm_.expires_after(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::hours(1000)));
+            log_flush_tm_.async_wait([self = shared_from_this()](asio::error_code err) mutable
+                                     { self->flush_all_loggers(err); });
+        }
     }
 
     {
@@ -700,8 +707,10 @@ void asio_service_impl::flush_all_loggers(asio::error_code /* err */)
         }
     }
 
-    if (stopping_)
+    if (stopping)
     {
+        auto_lock(stopping_lock_);
+        flushed_ = true;
         stopping_cv_.notify_all();
     }
 }
@@ -714,7 +723,7 @@ void asio_service_impl::stop()
         std::unique_lock<std::mutex> lock(stopping_lock_);
         stopping_ = true;
         log_flush_tm_.cancel();
-        stopping_cv_.wait(lock);
+        stopping_cv_.wait(lock, [this]() { return flushed_; });
         lock.unlock();
         lock.release();
     }
-- 
2.43.0


From a70f036905e28b48ad33d68ec94c6ed9011ef86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 22/32] fix: drop buffered entries when the log is cut before
 the buffer

An overwrite of an entry that is no longer buffered left the entries after it
in the buffer, so reads returned entries that had been replaced.
---
 src/fs_log_store.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a19b2fb..a4c988a 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -128,6 +128,9 @@ void log_store_buffer::trim(ulong start)
     write_lock(lock_);
     if (start < start_idx_)
     {
+        // everything in the buffer is after start, what comes next is the entry at start
+        buf_.clear();
+        start_idx_ = start;
         return;
     }
 
-- 
2.43.0


From 7e4fa2479c6c81c36c6d887b4fd908b8ada59416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 23/32] fix: cut the data file when the last entry is replaced
 by a shorter one

The end of the last entry is the end of the data file, so the bytes left over
became part of the entry when the store was opened again or packed.
---
 src/fs_log_store.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index a4c988a..4f4dbe3 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -336,8 +336,9 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
     ulong ndata_len = data_file_.tellp();
     ulong nidx_len = idx_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
-    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len)
-    { // new index length is less than current file size, truncate it
+    data_file_.seekp(0, std::fstream::end);
+    if (static_cast<ulong>(idx_file_.tellp()) > nidx_len || static_cast<ulong>(data_file_.tellp()) > ndata_len)
+    { // new index or data length is less than current file size, truncate it
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
         idx_file_.close();
@@ -614,7 +615,7 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     ulong data_pos = data_file_.tellp();
     idx_file_.seekp(0, std::fstream::end);
     data_file_.seekp(0, std::fstream::end);
-    if (idx_pos < static_cast<ulong>(idx_file_.tellp()))
+    if (idx_pos < static_cast<ulong>(idx_file_.tellp()) || data_pos < static_cast<ulong>(data_file_.tellp()))
     {
         std::string idx_path = log_folder_ + LOG_INDEX_FILE;
         std::string data_path = log_folder_ + LOG_DATA_FILE;
-- 
2.43.0


From 0630e87e6712914fbcbf88602a6c3187142d7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 24/32] fix: validate a log pack before applying it

The lengths in a pack come from the network and were used to read beyond the
end of the pack; an index outside the store left its streams unusable.
---
 src/fs_log_store.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 4f4dbe3..e4439b5 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -573,6 +573,17 @@ void fs_log_store::apply_pack(ulong index, buffer& pack)
     recur_lock(store_lock_);
     int32 idx_len = pack.get_int();
     int32 data_len = pack.get_int();
+    if (index < start_idx_ || index > start_idx_ + entries_in_store_)
+    {
+        throw std::range_error("index out of range");
+    }
+
+    if (idx_len < (int32)sz_ulong || idx_len % sz_ulong != 0 || data_len < 0 ||
+        pack.size() - pack.pos() != (size_t)idx_len + (size_t)data_len)
+    {
+        throw std::overflow_error("bad log pack");
+    }
+
     ulong local_idx = index - start_idx_;
     if (local_idx == entries_in_store_)
     {
-- 
2.43.0


From 767dcbe30f90df3d5735c8af96204e7e27cccf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 25/32] fix: log_entries returns nothing after the requested
 range

A range that ends before the buffered entries was extended up to them.
---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index e4439b5..ec753c1 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -412,7 +412,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
             throw std::runtime_error("IO fails, data cannot be saved");
         }
 
-        lend = buffer_first_idx - start_idx_;
+        lend = std::min(lend, buffer_first_idx - start_idx_);
         idx_file_.seekg(lstart * sz_ulong);
         bufptr d_start_idx_buf(buffer::alloc(sz_ulong));
         idx_file_ >> *d_start_idx_buf;
-- 
2.43.0


From 3bbc96b2272d97362614a0dfbe256e9138256423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 26/32] fix: log store reads hold the store lock while they
 consult the buffer

Between two looks at the buffer an overwrite or compaction could shrink it, so
that a read went past its end or returned a term of zero.
---
 src/fs_log_store.cxx | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index ec753c1..0350952 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -373,24 +373,22 @@ void fs_log_store::write_at(ulong index, ptr<log_entry>& entry)
 ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong end)
 {
     ulong lstart(0), lend(0), good_end(0);
+    recur_lock(store_lock_);
+    if (start < start_idx_)
     {
-        recur_lock(store_lock_);
-        if (start < start_idx_)
-        {
-            throw std::range_error("index out of range");
-        }
-
-        if (start >= end || start >= (start_idx_ + entries_in_store_))
-        {
-            return ptr<std::vector<ptr<log_entry>>>();
-        }
+        throw std::range_error("index out of range");
+    }
 
-        lstart = start - start_idx_;
-        lend = end - start_idx_;
-        lend = lend > entries_in_store_ ? entries_in_store_ : lend;
-        good_end = lend + start_idx_;
+    if (start >= end || start >= (start_idx_ + entries_in_store_))
+    {
+        return ptr<std::vector<ptr<log_entry>>>();
     }
 
+    lstart = start - start_idx_;
+    lend = end - start_idx_;
+    lend = lend > entries_in_store_ ? entries_in_store_ : lend;
+    good_end = lend + start_idx_;
+
     if (lstart >= lend)
     {
         return ptr<std::vector<ptr<log_entry>>>();
@@ -406,7 +404,6 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
     if (start < buffer_first_idx)
     {
         // in this case, we need to read from store file
-        recur_lock(store_lock_);
         if (!data_file_ || !idx_file_)
         {
             throw std::runtime_error("IO fails, data cannot be saved");
@@ -444,6 +441,7 @@ ptr<std::vector<ptr<log_entry>>> fs_log_store::log_entries(ulong start, ulong en
 
 ptr<log_entry> fs_log_store::entry_at(ulong index)
 {
+    recur_lock(store_lock_);
     ptr<log_entry> entry = (*buf_)[index];
     if (entry)
     {
@@ -453,7 +451,6 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
     {
         // since we don't hit the buffer, so this must not be the last entry
         // (according to Assumption: buffer.last_index() == entries_in_store_ + start_idx_)
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -486,13 +483,13 @@ ptr<log_entry> fs_log_store::entry_at(ulong index)
 
 ulong fs_log_store::term_at(ulong index)
 {
+    recur_lock(store_lock_);
     if (index >= buf_->first_idx() && index < buf_->last_idx())
     {
         return buf_->get_term(index);
     }
 
     {
-        recur_lock(store_lock_);
         if (index < start_idx_)
         {
             throw std::range_error("index out of range");
@@ -866,6 +863,7 @@ bool fs_log_store::compact(ulong last_log_index)
 
 void fs_log_store::close()
 {
+    recur_lock(store_lock_);
     idx_file_.close();
     data_file_.close();
     start_idx_file_.close();
-- 
2.43.0


From a72c7df4461d080c3d6b8a1117e7d2bcda8e5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 27/32] fix: always buffer the last entry of the log store

Reading the last entry relies on it, with a buffer size of zero it failed.
---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 0350952..8b1775c 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -180,7 +180,7 @@ fs_log_store::fs_log_store(const std::string& log_folder, int buf_size)
       log_folder_(log_folder),
       store_lock_(),
       buf_(nilptr),
-      buf_size_(buf_size < 0 ? std::numeric_limits<int>::max() : buf_size)
+      buf_size_(buf_size < 0 ? std::numeric_limits<int>::max() : std::max(buf_size, 1))
 {
     if (log_folder_.length() > 0 && log_folder_[log_folder_.length() - 1] != PATH_SEPARATOR)
     {
-- 
2.43.0


From 7611cb35eff304c351fba82e862b53b782ec2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 28/32] fix: a failed compaction must not truncate the backup
 it restores from

---
 src/fs_log_store.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fs_log_store.cxx b/src/fs_log_store.cxx
index 8b1775c..52eeb1d 100644
--- a/src/fs_log_store.cxx
+++ b/src/fs_log_store.cxx
@@ -832,7 +832,7 @@ bool fs_log_store::compact(ulong last_log_index)
     idx_bak_file.seekg(0);
     data_bak_file.seekg(0);
     start_idx_bak_file.seekg(0);
-    data_file_.open(data_bak_path, std::fstream::out);
+    data_file_.open(data_file_path, std::fstream::out);
     data_file_.close();
     data_file_.open(data_file_path, std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::ate);
     idx_file_.open(idx_file_path, std::fstream::out);
-- 
2.43.0


From 738331870ecd08050f03aae948f670fb590accd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:42 +0000
Subject: [PATCH 29/32] fix: snapshots larger than 2 GB could not be sent

The amount of snapshot data left was computed in 32 bits, so that a
snapshot of 2 GB or more gave a negative block size and an exception
while the request was built.
---
 src/raft_server.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 5715e3e..7cbbaab 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -844,8 +844,8 @@ ptr<req_msg> raft_server::create_sync_snapshot_req(peer& p, ulong last_log_idx,
     }
 
     ulong offset = p.get_snapshot_sync_ctx()->get_offset();
-    int32 sz_left = (int32)(snp->size() - offset);
-    int32 blk_sz = get_snapshot_sync_block_size();
+    ulong sz_left = snp->size() - offset;
+    ulong blk_sz = (ulong)get_snapshot_sync_block_size();
     bufptr data = buffer::alloc((size_t)(std::min(blk_sz, sz_left)));
     int32 sz_rd = state_machine_->read_snapshot_data(*snp, offset, *data);
     if ((size_t)sz_rd < data->size())
-- 
2.43.0


From a8591cc3804c8129736a45bf0eb4b6c95900a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:46 +0000
Subject: [PATCH 30/32] fix: keep a peer alive while one of its requests is
 outstanding

A request's completion used the peer it was sent to through a raw pointer, although the peer may be removed from
the cluster, and destroyed, before the response or error arrives.
---
 include/peer.hxx | 2 +-
 src/peer.cxx     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/peer.hxx b/include/peer.hxx
index 9418c0e..f43c7a8 100644
--- a/include/peer.hxx
+++ b/include/peer.hxx
@@ -23,7 +23,7 @@
 
 namespace cornerstone
 {
-class peer
+class peer : public std::enable_shared_from_this<peer>
 {
 public:
     peer(ptr<srv_config>& config, const context& ctx, timer_task<peer&>::executor& hb_exec)
diff --git a/src/peer.cxx b/src/peer.cxx
index c87f893..e5dadf5 100644
--- a/src/peer.cxx
+++ b/src/peer.cxx
@@ -21,8 +21,10 @@ using namespace cornerstone;
 void peer::send_req(ptr<req_msg>& req, rpc_handler& handler)
 {
     ptr<rpc_result> pending = cs_new<rpc_result>(handler);
-    rpc_handler h = [this, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
-    { this->handle_rpc_result(req, pending, resp, ex); };
+    // the peer may be removed from the cluster before the response arrives, keep it alive until then
+    ptr<peer> self(shared_from_this());
+    rpc_handler h = [self, req, pending](ptr<resp_msg>& resp, const ptr<rpc_exception>& ex) mutable
+    { self->handle_rpc_result(req, pending, resp, ex); };
     rpc_->send(req, h);
 }
 
-- 
2.43.0


From 898082878c7614ecef03e92b1fe44d47dc52a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:28 +0000
Subject: [PATCH 31/32] fix: a heartbeat timer that fires while its peer is
 being removed

The handler of the heartbeat timer may already be waiting for the server lock when the step holding the lock removes and
destroys the peer. Look the peer up by its id under the lock instead of using a reference to it.
---
 include/raft_server.hxx          |  2 +-
 src/raft_server.cxx              | 37 +++++++++++++++++++++++---------
 src/raft_server_req_handlers.cxx |  3 ++-
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/raft_server.hxx b/include/raft_server.hxx
index c91296b..184503d 100644
--- a/include/raft_server.hxx
+++ b/include/raft_server.hxx
@@ -100,7 +100,7 @@ private:
     void enable_hb_for_peer(peer& p);
     void restart_election_timer();
     void stop_election_timer();
-    void handle_hb_timeout(peer& peer);
+    void handle_hb_timeout(int32 srv_id);
     void handle_election_timeout();
     void sync_log_to_new_srv(ulong start_idx);
     void invite_srv_to_join_cluster();
diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index 7cbbaab..f0b94b2 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -132,7 +132,8 @@ raft_server::raft_server(context* ctx)
         if ((*it)->get_id() != id_)
         {
             write_lock(peers_lock_);
-            timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+            int32 srv_id = (*it)->get_id();
+            timer_task<peer&>::executor exec = [this, srv_id](peer&) { this->handle_hb_timeout(srv_id); };
             peers_.insert(std::make_pair(
                 (*it)->get_id(),
                 cs_new<peer>(*it, *ctx_, exec)));
@@ -381,29 +382,44 @@ bool raft_server::request_append_entries(peer& p)
     return false;
 }
 
-void raft_server::handle_hb_timeout(peer& p)
+void raft_server::handle_hb_timeout(int32 srv_id)
 {
     recur_lock(lock_);
-    l_->debug(sstrfmt("Heartbeat timeout for %d").fmt(p.get_id()));
+    l_->debug(sstrfmt("Heartbeat timeout for %d").fmt(srv_id));
+
+    // the peer may have been removed (and destroyed) since the timer fired
+    ptr<peer> p;
+    {
+        read_lock(peers_lock_);
+        peer_itor it = peers_.find(srv_id);
+        if (it == peers_.end())
+        {
+            l_->info(sstrfmt("Receive a heartbeat event for %d which is no longer a peer").fmt(srv_id));
+            return;
+        }
+
+        p = it->second;
+    }
+
     if (role_ == srv_role::leader)
     {
-        request_append_entries(p);
+        request_append_entries(*p);
         {
-            std::lock_guard<std::mutex> guard(p.get_lock());
-            if (p.is_hb_enabled())
+            std::lock_guard<std::mutex> guard(p->get_lock());
+            if (p->is_hb_enabled())
             {
                 // Schedule another heartbeat if heartbeat is still enabled
-                scheduler_->schedule(p.get_hb_task(), p.get_current_hb_interval());
+                scheduler_->schedule(p->get_hb_task(), p->get_current_hb_interval());
             }
             else
             {
-                l_->debug(sstrfmt("heartbeat is disabled for peer %d").fmt(p.get_id()));
+                l_->debug(sstrfmt("heartbeat is disabled for peer %d").fmt(srv_id));
             }
         }
     }
     else
     {
-        l_->info(sstrfmt("Receive a heartbeat event for %d while no longer as a leader").fmt(p.get_id()));
+        l_->info(sstrfmt("Receive a heartbeat event for %d while no longer as a leader").fmt(srv_id));
     }
 }
 
@@ -748,7 +764,8 @@ void raft_server::reconfigure(const ptr<cluster_config>& new_config)
     for (std::vector<ptr<srv_config>>::const_iterator it = srvs_added.begin(); it != srvs_added.end(); ++it)
     {
         ptr<srv_config> srv_added(*it);
-        timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+        int32 srv_id = srv_added->get_id();
+        timer_task<peer&>::executor exec = [this, srv_id](peer&) { this->handle_hb_timeout(srv_id); };
         ptr<peer> p = cs_new<peer>(srv_added, *ctx_, exec);
         p->set_next_log_idx(log_store_->next_slot());
 
diff --git a/src/raft_server_req_handlers.cxx b/src/raft_server_req_handlers.cxx
index 9ec48cc..6fc80a0 100644
--- a/src/raft_server_req_handlers.cxx
+++ b/src/raft_server_req_handlers.cxx
@@ -517,7 +517,8 @@ ptr<resp_msg> raft_server::handle_add_srv_req(req_msg& req)
     }
 
     conf_to_add_ = std::move(srv_conf);
-    timer_task<peer&>::executor exec = [this](peer& p) { this->handle_hb_timeout(p); };
+    int32 srv_id = conf_to_add_->get_id();
+    timer_task<peer&>::executor exec = [this, srv_id](peer&) { this->handle_hb_timeout(srv_id); };
     srv_to_join_ = cs_new<peer>(conf_to_add_, *ctx_, exec);
     invite_srv_to_join_cluster();
     resp->accept(log_store_->next_slot());
-- 
2.43.0


From f10baf69da49d69940f485bd8013fd61be5d6030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:01 +0000
Subject: [PATCH 32/32] fix: a missing snapshot is dereferenced while reporting
 that it is missing

---
 src/raft_server.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raft_server.cxx b/src/raft_server.cxx
index f0b94b2..5d0ffed 100644
--- a/src/raft_server.cxx
+++ b/src/raft_server.cxx
@@ -842,7 +842,10 @@ ptr<req_msg> raft_server::create_sync_snapshot_req(peer& p, ulong last_log_idx,
         {
             l_->err(lstrfmt("system is running into fatal errors, failed to find a snapshot for peer %d(snapshot null: "
                             "%d, snapshot doesn't contais lastLogIndex: %d")
-                        .fmt(p.get_id(), snp == nilptr ? 1 : 0, last_log_idx > snp->get_last_log_idx() ? 1 : 0));
+                        .fmt(
+                            p.get_id(),
+                            snp == nilptr ? 1 : 0,
+                            snp != nilptr && last_log_idx > snp->get_last_log_idx() ? 1 : 0));
             ctx_->state_mgr_->system_exit(-1);
             return ptr<req_msg>();
         }
-- 
2.43.0

