From 9c366c14ee020ecaaeff5cfb46028a3e6123844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 01/95] fix: make progress when the scheduler queue is empty
 and progress is count/time limited

---
 src/vt/scheduler/scheduler.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vt/scheduler/scheduler.cc b/src/vt/scheduler/scheduler.cc
index d2c6ba1..90ebca4 100644
--- a/src/vt/scheduler/scheduler.cc
+++ b/src/vt/scheduler/scheduler.cc
@@ -249,9 +249,18 @@ void Scheduler::runProgress(bool msg_only, TimeType current_time) {
 
 void Scheduler::runSchedulerOnceImpl(bool msg_only) {
   if (special_progress_) {
+    // The cached time is only refreshed by progress itself, so it can not be used
+    // to decide that enough time has passed since progress was last called
+    if (progress_time_enabled_) {
+      setRecentTimeToStale();
+    }
     auto current_time = getRecentTime();
     auto time_since_last_progress = current_time - last_progress_time_;
-    if (shouldCallProgress(processed_after_last_progress_, time_since_last_progress)) {
+    // Without any work to execute, no more handlers can run until progress is made
+    if (
+      work_queue_.empty() or
+      shouldCallProgress(processed_after_last_progress_, time_since_last_progress)
+    ) {
       runProgress(msg_only, current_time);
     }
   } else if (work_queue_.empty()) {
-- 
2.43.0


From f645e24e4a0b1ec3a25742de4a896a2d6ba072f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 02/95] fix: receive all chunks of a payload larger than the
 maximum MPI send size

---
 src/vt/messaging/active.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 8ed080b..7e8a788 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -1105,8 +1105,12 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
       envelopeSetPutPtrOnly(msg->env, put_ptr);
       put_finished = true;
     } else {
-      /*bool const put_delivered = */recvDataMsg(
-        1, put_tag, sender,
+      // The payload is sent in multiple chunks when it exceeds the limit
+      auto const put_size = envelopeGetPutSize(msg->env);
+      auto const max_per_send = theConfig()->vt_max_mpi_send_size;
+      auto const nchunks = (put_size + max_per_send - 1) / max_per_send;
+      recvDataDirect(
+        static_cast<int>(nchunks), put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
           processActiveMsg(base, sender, true, deleter);
-- 
2.43.0


From 42de689dc2f65a6b04d7b5f65926f17c0f65586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 03/95] fix: keep the payload of a broadcast message alive
 until it has been forwarded

---
 src/vt/messaging/active.cc | 22 +++++++++++++++++++++-
 src/vt/messaging/active.h  |  1 +
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 7e8a788..d19b6da 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -272,6 +272,9 @@ EventType ActiveMessenger::sendMsgBytesWithPut(
       if (ret_tag != env_tag) {
         envelopeSetPutTag(msg->env, ret_tag);
       }
+      if (put_forward_events_ != nullptr) {
+        put_forward_events_->push_back(ret.getEvent());
+      }
     }
   }
 
@@ -904,9 +907,23 @@ void ActiveMessenger::processActiveMsg(
 
   auto msg = base.to<ShortMessage>().get();
 
-  // Call group handler
+  // Call group handler, which may forward the message and its payload
   bool deliver = false;
+  std::vector<EventType> put_events;
+  auto const prev_put_events = put_forward_events_;
+  put_forward_events_ = &put_events;
   GroupActiveAttorney::groupHandler(base, from, false, &deliver);
+  put_forward_events_ = prev_put_events;
+
+  if (cont != nullptr and not put_events.empty()) {
+    // The payload can only be released after these sends have completed
+    auto const release = cont;
+    auto const parent = theEvent()->createParentEvent(this_node_);
+    for (auto&& event : put_events) {
+      theEvent()->getEventHolder(parent).get_event()->addEventToList(event);
+    }
+    cont = [release, parent]{ theEvent()->attachAction(parent, release); };
+  }
 
   auto const is_term = envelopeIsTerm(msg->env);
 
@@ -1113,6 +1130,9 @@ void ActiveMessenger::finishPendingActiveMsgAsyncRecv(InProgressIRecv* irecv) {
         static_cast<int>(nchunks), put_tag, sender, put_size,
         [=](PtrLenPairType ptr, ActionType deleter){
           envelopeSetPutPtr(base->env, std::get<0>(ptr), std::get<1>(ptr));
+          // The tag belongs to the sender: if this message is forwarded, this
+          // node must use one of its own
+          envelopeSetPutTag(base->env, no_tag);
           processActiveMsg(base, sender, true, deleter);
         }
      );
diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index 544dbb0..afa1133 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -1745,6 +1745,7 @@ private:
 # endif
 
   ContainerPendingType pending_recvs_                     = {};
+  std::vector<EventType>* put_forward_events_             = nullptr;
   TagType cur_direct_buffer_tag_                          = starting_direct_buffer_tag;
   RequestHolder<InProgressIRecv> in_progress_active_msg_irecv;
   RequestHolder<InProgressDataIRecv> in_progress_data_irecv;
-- 
2.43.0


From 2d53ee78c6d9b5fd2298e73eaf771033b97a77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 04/95] fix: IntegralSet::clear leaves the element count of the
 cleared set

---
 src/vt/termination/interval/integral_set.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index ff76a61..227a73c 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -229,6 +229,7 @@ struct IntegralSetBase {
   void clear() {
     set_.clear();
     lb_ = ub_ = 0;
+    elms_ = 0;
     hint_ = set_.end();
   }
 
-- 
2.43.0


From 9a5715dae0261e4becb5f9aac1068b2a73016d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 05/95] fix: copying an IntegralSet keeps an iterator into the
 original set as hint

---
 src/vt/termination/interval/integral_set.h | 32 ++++++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index 227a73c..b799fee 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -79,9 +79,35 @@ struct IntegralSetBase {
   using PositionType        = typename IntervalType::PositionEnum;
 
   IntegralSetBase() : hint_(set_.end()) { }
-  IntegralSetBase(IntegralSetBase const&) = default;
-  IntegralSetBase(IntegralSetBase&&) = default;
-  IntegralSetBase& operator=(IntegralSetBase const&) = default;
+
+  // The hint refers to a node of the set it was obtained from, thus it must not
+  // be carried over to another set
+  IntegralSetBase(IntegralSetBase const& other)
+    : lb_(other.lb_),
+      ub_(other.ub_),
+      set_(other.set_),
+      hint_(set_.end()),
+      elms_(other.elms_)
+  { }
+  IntegralSetBase(IntegralSetBase&& other)
+    : lb_(other.lb_),
+      ub_(other.ub_),
+      set_(std::move(other.set_)),
+      hint_(set_.end()),
+      elms_(other.elms_)
+  {
+    other.clear();
+  }
+  IntegralSetBase& operator=(IntegralSetBase const& other) {
+    if (this != &other) {
+      lb_ = other.lb_;
+      ub_ = other.ub_;
+      set_ = other.set_;
+      hint_ = set_.end();
+      elms_ = other.elms_;
+    }
+    return *this;
+  }
 
   explicit IntegralSetBase(DomainT base)
     : lb_(base),
-- 
2.43.0


From 71bbaf30624b2baae5c5cc0c6872e247077707c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 06/95] fix: allocating an epoch never ends when the next one
 in line is active

---
 src/vt/epoch/epoch_window.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_window.cc b/src/vt/epoch/epoch_window.cc
index cefa98a..5ca1d31 100644
--- a/src/vt/epoch/epoch_window.cc
+++ b/src/vt/epoch/epoch_window.cc
@@ -110,9 +110,9 @@ EpochType EpochWindow::allocateNewEpoch() {
   // be allocated
   do {
     EpochType next = EpochType{*next_epoch_};
-    if (terminated_epochs_.contains(next)) {
-      (*next_epoch_)++;
+    (*next_epoch_)++;
 
+    if (terminated_epochs_.contains(next)) {
       // Tell the system the epoch is now active
       activateEpoch(next);
       return next;
-- 
2.43.0


From ae8bb4bf271aaf1d65f60a2db93345dd164a5147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 07/95] fix: size, membership and halves of a strided range of
 ranks

---
 src/vt/group/region/group_range.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index e237868..177fc18 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -63,7 +63,7 @@ Range::Range(
 }
 
 /*virtual*/ Range::SizeType Range::getSize() const {
-  return (hi_ - lo_) / stride_;
+  return hi_ > lo_ ? (hi_ - lo_ + stride_ - 1) / stride_ : 0;
 }
 
 /*virtual*/ void Range::sort() {
@@ -76,7 +76,7 @@ Range::Range(
     // List must be sorted
     return std::binary_search(list_.begin(), list_.end(), node);
   } else {
-    return node >= lo_ && node < hi_ && node % stride_ == 0;
+    return node >= lo_ && node < hi_ && (node - lo_) % stride_ == 0;
   }
 }
 
@@ -114,7 +114,7 @@ Range::Range(Range const& in_other, BoundType in_remove_extent)
 
 /*virtual*/ Range::SplitRegionType Range::split() const {
   auto const& size = getSize();
-  auto const& span = (hi_ - lo_) / 2;
+  auto const span = static_cast<BoundType>(size / 2 * stride_);
   vtAssert(
     size >= 2, "Size must be at least 2 to split"
   );
-- 
2.43.0


From 7699a5a1890b5a01a66df5e65c810d2569dc17ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 08/95] fix: the copy of a shallow rank list claims to be
 sorted

---
 src/vt/group/region/group_shallow_list.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/group/region/group_shallow_list.cc b/src/vt/group/region/group_shallow_list.cc
index a68b4a6..0e5f566 100644
--- a/src/vt/group/region/group_shallow_list.cc
+++ b/src/vt/group/region/group_shallow_list.cc
@@ -113,7 +113,7 @@ ShallowList::ShallowList(ListType const& in_list)
 }
 
 /*virtual*/ ShallowList::RegionUPtrType ShallowList::copy() const {
-  return std::make_unique<List>(bound_, size_, true);
+  return std::make_unique<List>(bound_, size_, false);
 }
 
 /*virtual*/ void ShallowList::splitN(int nsplits, ApplyFnType apply) const {
-- 
2.43.0


From 9d3dec534ee5b1a5a006daceee3f396ea2ed1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 09/95] fix: bytes requested on top of an allocation are handed
 out again when it grows

---
 src/vt/collective/scatter/scatter.impl.h | 5 +++--
 src/vt/pool/pool.cc                      | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vt/collective/scatter/scatter.impl.h b/src/vt/collective/scatter/scatter.impl.h
index ec2db7d..4e04056 100644
--- a/src/vt/collective/scatter/scatter.impl.h
+++ b/src/vt/collective/scatter/scatter.impl.h
@@ -67,8 +67,9 @@ void Scatter::scatter(
   vtAssert(total_size == combined_size, "Sizes must be consistent");
   auto ptr = reinterpret_cast<std::byte*>(scatter_msg.get()) + sizeof(ScatterMsg);
 #if vt_check_enabled(memory_pool)
-  auto remaining_size =
-    thePool()->remainingSize(reinterpret_cast<std::byte*>(scatter_msg.get()));
+  auto remaining_size = thePool()->allocatedSize(
+    reinterpret_cast<std::byte*>(scatter_msg.get())
+  ) - sizeof(ScatterMsg);
   vtAssertInfo(
     remaining_size >= combined_size, "Remaining size must be sufficient",
     total_size, combined_size, remaining_size, elm_size
diff --git a/src/vt/pool/pool.cc b/src/vt/pool/pool.cc
index 97b45b3..84d20d3 100644
--- a/src/vt/pool/pool.cc
+++ b/src/vt/pool/pool.cc
@@ -206,12 +206,13 @@ Pool::SizeType Pool::remainingSize(
 
     ePoolSize const pool_type = getPoolType(actual_alloc_size, oversize);
 
+    // The oversize bytes were requested, thus they are not free to be used
     if (pool_type == ePoolSize::Small) {
-      return small_msg->getNumBytes() - actual_alloc_size;
+      return small_msg->getNumBytes() - actual_alloc_size - oversize;
     } else if (pool_type == ePoolSize::Medium) {
-      return medium_msg->getNumBytes() - actual_alloc_size;
+      return medium_msg->getNumBytes() - actual_alloc_size - oversize;
     } else {
-      return oversize;
+      return 0;
     }
   #else
     return 0;
-- 
2.43.0


From 8b9b7da02a68155871047d01615d8ad1e9c6e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 10/95] fix: the default map of unbounded collections sends
 negative indices to a negative rank

---
 src/vt/topos/mapping/dense/unbounded_default.impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/topos/mapping/dense/unbounded_default.impl.h b/src/vt/topos/mapping/dense/unbounded_default.impl.h
index ce9423e..efb6d38 100644
--- a/src/vt/topos/mapping/dense/unbounded_default.impl.h
+++ b/src/vt/topos/mapping/dense/unbounded_default.impl.h
@@ -54,7 +54,9 @@ NodeType UnboundedDefaultMap<IdxT>::map(IdxT* idx, int ndim, NodeType num_nodes)
   for (int i = 0; i < ndim; i++) {
     val ^= idx->get(i);
   }
-  return val % num_nodes;
+  // the remainder is negative for a negative index
+  auto const node = static_cast<NodeType>(val % num_nodes);
+  return node < 0 ? node + num_nodes : node;
 }
 
 template <typename IdxT>
-- 
2.43.0


From 8dd0a62033f3d21413fb04abe4de85989b22eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 11/95] fix: the last byte of compressed JSON is lost when it
 starts a chunk

---
 src/vt/utils/json/decompression_input_container.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vt/utils/json/decompression_input_container.cc b/src/vt/utils/json/decompression_input_container.cc
index 152c090..de871fc 100644
--- a/src/vt/utils/json/decompression_input_container.cc
+++ b/src/vt/utils/json/decompression_input_container.cc
@@ -62,11 +62,7 @@ bool DecompressionInputContainer::advance() const {
   if (cur_ + 1 == len_) {
     len_ = d_->read(output_buf_.get(), chunk_size_);
     cur_ = 0;
-    if (cur_ + 1 < len_) {
-      return true;
-    } else {
-      return false;
-    }
+    return len_ > 0;
   }
   if (cur_ + 1 < len_) {
     cur_++;
-- 
2.43.0


From 491a894eb3f6f2934a255ddb6dbb67558e8c4eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 12/95] fix: LB data of a phase without objects cannot be read
 back

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index e6cba20..f944b7e 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -437,7 +437,8 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
   if (phases.is_array()) {
     for (auto const& phase : phases) {
       auto id = phase["id"];
-      auto tasks = phase["tasks"];
+      // a phase in which the rank had no objects is written without tasks
+      auto tasks = phase.value("tasks", nlohmann::json{});
 
       this->node_data_[id];
       this->node_comm_[id];
-- 
2.43.0


From 485ee49e87b8c77e7f7189e76a3f26aa6c825d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 13/95] fix: reading LB data with user-defined values of a
 phase uses the phase's JSON as its number

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index f944b7e..9ce93af 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -622,8 +622,8 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
 
       if (phase.find("user_defined") != phase.end()) {
         auto userDefined = phase["user_defined"];
-        user_per_phase_json_[phase] = std::make_shared<nlohmann::json>();
-        *(user_per_phase_json_[phase]) = userDefined;
+        user_per_phase_json_[id] = std::make_shared<nlohmann::json>();
+        *(user_per_phase_json_[id]) = userDefined;
       }
     }
   }
-- 
2.43.0


From 3de11df553e2e1042f38141a7a8aad7784fdfb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 14/95] fix: sub-phase loads read in another order than
 ascending are lost

---
 src/vt/vrt/collection/balance/lb_data_holder.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_holder.cc b/src/vt/vrt/collection/balance/lb_data_holder.cc
index 9ce93af..e56929b 100644
--- a/src/vt/vrt/collection/balance/lb_data_holder.cc
+++ b/src/vt/vrt/collection/balance/lb_data_holder.cc
@@ -489,9 +489,13 @@ LBDataHolder::LBDataHolder(nlohmann::json const& j)
                   vtAssertExpr(sid.is_number());
                   vtAssertExpr(stime.is_number());
 
-                  this->node_data_[id][elm].subphase_loads.resize(
-                    static_cast<std::size_t>(sid) + 1);
-                  this->node_data_[id][elm].subphase_loads[sid] = stime;
+                  auto& subphase_loads =
+                    this->node_data_[id][elm].subphase_loads;
+                  auto const subphase = static_cast<std::size_t>(sid);
+                  if (subphase_loads.size() <= subphase) {
+                    subphase_loads.resize(subphase + 1);
+                  }
+                  subphase_loads[subphase] = stime;
                 }
               }
             }
-- 
2.43.0


From 14dc77b948f7ac9c670cb193b17792d53961f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 15/95] fix: no load in sub-phases an object recorded nothing
 for

---
 src/vt/vrt/collection/balance/lb_common.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/lb_common.h b/src/vt/vrt/collection/balance/lb_common.h
index e9e403b..0019361 100644
--- a/src/vt/vrt/collection/balance/lb_common.h
+++ b/src/vt/vrt/collection/balance/lb_common.h
@@ -92,8 +92,12 @@ struct LoadSummary {
   {
     if (when.subphase == PhaseOffset::WHOLE_PHASE)
       return whole_phase_load;
+    else if (when.subphase < subphase_loads.size())
+      return subphase_loads[when.subphase];
     else
-      return subphase_loads.at(when.subphase);
+      // Not every object runs in every subphase, so having recorded fewer
+      // subphases than other objects did means no load in the remaining ones
+      return 0.0;
   }
 
   void operator += (const LoadSummary& rhs) {
-- 
2.43.0


From d00e220383be840726a6aeed5cc2ef1a284cd293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 16/95] fix: naive persistence maps future communication to the
 last phase like loads

---
 src/vt/vrt/collection/balance/model/naive_persistence.cc | 9 +++++++++
 src/vt/vrt/collection/balance/model/naive_persistence.h  | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/naive_persistence.cc b/src/vt/vrt/collection/balance/model/naive_persistence.cc
index cc37990..049b0cf 100644
--- a/src/vt/vrt/collection/balance/model/naive_persistence.cc
+++ b/src/vt/vrt/collection/balance/model/naive_persistence.cc
@@ -58,6 +58,15 @@ NaivePersistence::getModeledLoad(ElementIDStruct object, PhaseOffset offset) con
   return ComposedModel::getModeledLoad(object, offset);
 }
 
+LoadType
+NaivePersistence::getModeledComm(ElementIDStruct object, PhaseOffset offset) const
+{
+  if (offset.phases >= 0)
+    offset.phases = -1;
+
+  return ComposedModel::getModeledComm(object, offset);
+}
+
 LoadType NaivePersistence::getRawLoad(ElementIDStruct object, PhaseOffset offset) const
 {
   if (offset.phases >= 0)
diff --git a/src/vt/vrt/collection/balance/model/naive_persistence.h b/src/vt/vrt/collection/balance/model/naive_persistence.h
index 9c6991a..b13af87 100644
--- a/src/vt/vrt/collection/balance/model/naive_persistence.h
+++ b/src/vt/vrt/collection/balance/model/naive_persistence.h
@@ -61,6 +61,7 @@ struct NaivePersistence : public ComposedModel {
    */
   explicit NaivePersistence(std::shared_ptr<balance::LoadModel> base);
   LoadType getModeledLoad(ElementIDStruct object, PhaseOffset when) const override;
+  LoadType getModeledComm(ElementIDStruct object, PhaseOffset when) const override;
   LoadType getRawLoad(ElementIDStruct object, PhaseOffset offset) const override;
   ElmUserDataType getUserData(ElementIDStruct object, PhaseOffset when) const override;
   unsigned int getNumPastPhasesNeeded(unsigned int look_back) const override;
-- 
2.43.0


From e50001eaf23db5eccf453da89dbeeb37008a7aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 17/95] fix: keep MPI tracing configured in YAML, forget it
 between initializations

---
 src/vt/configs/arguments/args.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 39b31d4..017de49 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -234,8 +234,11 @@ void postParseTransform(AppConfig& appConfig) {
     return std::find(v.begin(), v.end(), str) not_eq v.end();
   };
 
-  appConfig.vt_trace_mpi = contains(arg_trace_mpi, "internal");
-  appConfig.vt_trace_pmpi = contains(arg_trace_mpi, "external");
+  // Without the option, keep what a YAML file or the application configured
+  if (not arg_trace_mpi.empty()) {
+    appConfig.vt_trace_mpi = contains(arg_trace_mpi, "internal");
+    appConfig.vt_trace_pmpi = contains(arg_trace_mpi, "external");
+  }
 
   using config::ModeEnum;
 
@@ -261,6 +264,9 @@ std::tuple<int, std::string> parseArguments(
 
   std::vector<char*> vt_args;
 
+  // Do not inherit values from an earlier initialization of the runtime
+  arg_trace_mpi.clear();
+
   // Load up vectors
   // Has the ability to read interleaved arguments for vt, MPI, and others passed through to other libraries or the application.
   std::vector<char*>* rargs = nullptr;
-- 
2.43.0


From 4f09e74c87d6e835968aa7dc9222432aaf2a97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 18/95] fix: empty runtime argument reads past an empty vector

---
 src/vt/configs/arguments/args.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 017de49..202a70b 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -294,7 +294,8 @@ std::tuple<int, std::string> parseArguments(
   // Build string-vector and reverse order to parse (CLI quirk)
   std::vector<std::string> args_to_parse, yaml_input_arg;
   for (auto it = vt_args.crbegin(); it != vt_args.crend(); ++it) {
-    if (util::demangle::DemanglerUtils::splitString(*it,'=')[0] == "--vt_input_config_yaml") {
+    auto const arg_name = std::string{*it}.substr(0, std::string{*it}.find('='));
+    if (arg_name == "--vt_input_config_yaml") {
       yaml_input_arg.push_back(*it);
     } else {
       args_to_parse.push_back(*it);
-- 
2.43.0


From 756aac84b824529966f0a8e0afab997890091f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 19/95] fix: no color setting is inverted in the written YAML
 configuration

---
 src/vt/configs/arguments/args.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 202a70b..9d44390 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1191,7 +1191,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
   std::vector<std::tuple<std::string, std::string, variantArg_t>> cli_to_yaml_args = {
       // Output Control
       {"Output Control", vt_color_label, static_cast<variantArg_t>(appConfig.vt_color)},
-      {"Output Control", vt_no_color_label, static_cast<variantArg_t>(not appConfig.vt_no_color)},
+      {"Output Control", vt_no_color_label, static_cast<variantArg_t>(appConfig.vt_no_color)},
       {"Output Control", vt_quiet_label, static_cast<variantArg_t>(appConfig.vt_quiet)},
 
       // Signal Handling
-- 
2.43.0


From dfa6b8966746dbcb48df02bf8b7d7684edc23327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 20/95] fix: write MPI tracing to YAML in the form that is read

---
 src/vt/configs/arguments/args.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 9d44390..fbf1443 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -94,7 +94,6 @@ static const std::string vt_stack_mod_label = "Output Rank Mod";
 // Tracing Configuration
 static const std::string vt_trace_label = "Enabled";
 static const std::string vt_trace_mpi_label = "MPI Type Events";
-static const std::string vt_trace_pmpi_label = "MPI Type Events";
 static const std::string vt_trace_file_label = "File";
 static const std::string vt_trace_dir_label = "Directory";
 static const std::string vt_trace_mod_label = "Output Rank Mod";
@@ -329,6 +328,8 @@ std::tuple<int, std::string> parseArguments(
     return std::make_tuple(result, message_stream.str());
   }
 
+  postParseTransform(appConfig);
+
   // If the user specified to output the full configuration, save it in a string
   // so node 0 can output in the runtime once MPI is init'ed
   if (appConfig.vt_output_config) {
@@ -346,8 +347,6 @@ std::tuple<int, std::string> parseArguments(
   appConfig.prog_name = clean_prog_name;
   appConfig.argv_prog_name = argv[0];
 
-  postParseTransform(appConfig);
-
   // Rebuild passthru into ref-returned argc/argv
 
   // It should be possible to modify the original argv as the outgoing
@@ -485,7 +484,7 @@ void parseYaml(AppConfig& appConfig, std::string const& inputFile) {
   update_config(appConfig.vt_trace, vt_trace_label, tracing_configuration);
 
   appConfig.vt_trace_mpi = tracing_configuration[vt_trace_mpi_label].as<std::string>("").find("internal") != std::string::npos;
-  appConfig.vt_trace_pmpi = tracing_configuration[vt_trace_pmpi_label].as<std::string>("").find("external") != std::string::npos;
+  appConfig.vt_trace_pmpi = tracing_configuration[vt_trace_mpi_label].as<std::string>("").find("external") != std::string::npos;
 
   update_config(appConfig.vt_trace_file, vt_trace_file_label, tracing_configuration);
   update_config(appConfig.vt_trace_dir, vt_trace_dir_label, tracing_configuration);
@@ -1187,6 +1186,12 @@ void addVariantToNode(YAML::Node& node, std::string& key, variantArg_t& variant_
 }
 
 std::string convertConfigToYamlString(AppConfig& appConfig) {
+  // Both settings share one entry, which lists the enabled types of events
+  std::string trace_mpi_events = appConfig.vt_trace_mpi ? "internal" : "";
+  if (appConfig.vt_trace_pmpi) {
+    trace_mpi_events += trace_mpi_events.empty() ? "external" : " external";
+  }
+
   // First, create a converter vector of tuples {Node(s), Key, Value}
   std::vector<std::tuple<std::string, std::string, variantArg_t>> cli_to_yaml_args = {
       // Output Control
@@ -1220,8 +1225,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
 
       // Tracing Configuration
       {"Tracing Configuration", vt_trace_label, static_cast<variantArg_t>(appConfig.vt_trace)},
-      {"Tracing Configuration", vt_trace_mpi_label, static_cast<variantArg_t>(appConfig.vt_trace_mpi)},
-      {"Tracing Configuration", vt_trace_pmpi_label, static_cast<variantArg_t>(appConfig.vt_trace_pmpi)},
+      {"Tracing Configuration", vt_trace_mpi_label, static_cast<variantArg_t>(trace_mpi_events)},
       {"Tracing Configuration", vt_trace_file_label, static_cast<variantArg_t>(appConfig.vt_trace_file)},
       {"Tracing Configuration", vt_trace_dir_label, static_cast<variantArg_t>(appConfig.vt_trace_dir)},
       {"Tracing Configuration", vt_trace_mod_label, static_cast<variantArg_t>(appConfig.vt_trace_mod)},
-- 
2.43.0


From a7ccbaa3a9b98c90e407a52271583ca4ff3e538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 21/95] fix: written YAML configuration enables the memory
 threshold

---
 src/vt/configs/arguments/args.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index fbf1443..8a9217d 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -78,6 +78,7 @@ static const std::string vt_memory_reporters_label = "Memory Reporters";
 static const std::string vt_print_memory_each_phase_label = "Print Memory Each Phase";
 static const std::string vt_print_memory_node_label = "Print Memory On Node";
 static const std::string vt_allow_memory_report_with_ps_label = "Allow Memory Report With ps";
+static const std::string vt_print_memory_at_threshold_label = "Print Memory At Threshold";
 static const std::string vt_print_memory_threshold_label = "Print Memory Threshold";
 static const std::string vt_print_memory_sched_poll_label = "Print Memory Scheduler Poll";
 static const std::string vt_print_memory_footprint_label = "Print Memory Footprint";
@@ -466,6 +467,8 @@ void parseYaml(AppConfig& appConfig, std::string const& inputFile) {
   } else {
     appConfig.vt_print_memory_at_threshold = false;
   }
+  // Naming a threshold enables it unless stated otherwise
+  update_config(appConfig.vt_print_memory_at_threshold, vt_print_memory_at_threshold_label, memory_usage_reporting);
   update_config(appConfig.vt_print_memory_sched_poll, vt_print_memory_sched_poll_label, memory_usage_reporting);
   update_config(appConfig.vt_print_memory_footprint, vt_print_memory_footprint_label, memory_usage_reporting);
 
@@ -1210,6 +1213,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
       {"Memory Usage Reporting", vt_print_memory_each_phase_label, static_cast<variantArg_t>(appConfig.vt_print_memory_each_phase)},
       {"Memory Usage Reporting", vt_print_memory_node_label, static_cast<variantArg_t>(appConfig.vt_print_memory_node)},
       {"Memory Usage Reporting", vt_allow_memory_report_with_ps_label, static_cast<variantArg_t>(appConfig.vt_allow_memory_report_with_ps)},
+      {"Memory Usage Reporting", vt_print_memory_at_threshold_label, static_cast<variantArg_t>(appConfig.vt_print_memory_at_threshold)},
       {"Memory Usage Reporting", vt_print_memory_threshold_label, static_cast<variantArg_t>(appConfig.vt_print_memory_threshold)},
       {"Memory Usage Reporting", vt_print_memory_sched_poll_label, static_cast<variantArg_t>(appConfig.vt_print_memory_sched_poll)},
       {"Memory Usage Reporting", vt_print_memory_footprint_label, static_cast<variantArg_t>(appConfig.vt_print_memory_footprint)},
-- 
2.43.0


From 7c7414c103c2bd226f381fe2e34fa7b16521f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 22/95] fix: written YAML configuration loses or shifts user
 options

---
 src/vt/configs/arguments/args.cc | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 8a9217d..7bb49e9 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -212,15 +212,15 @@ static const std::string vt_tv_label = "Enabled";
 static const std::string vt_tv_config_file_label = "Configuration File";
 
 std::unordered_map<std::string, std::string> user_args_labels = {
-  {"vt_user_1", "unused_user_param"},
-  {"vt_user_2", "unused_user_param"},
-  {"vt_user_3", "unused_user_param"},
-  {"vt_user_int_1", "unused_user_param"},
-  {"vt_user_int_2", "unused_user_param"},
-  {"vt_user_int_3", "unused_user_param"},
-  {"vt_user_str_1", "unused_user_param"},
-  {"vt_user_str_2", "unused_user_param"},
-  {"vt_user_str_3", "unused_user_param"}
+  {"vt_user_1", "vt_user_1"},
+  {"vt_user_2", "vt_user_2"},
+  {"vt_user_3", "vt_user_3"},
+  {"vt_user_int_1", "vt_user_int_1"},
+  {"vt_user_int_2", "vt_user_int_2"},
+  {"vt_user_int_3", "vt_user_int_3"},
+  {"vt_user_str_1", "vt_user_str_1"},
+  {"vt_user_str_2", "vt_user_str_2"},
+  {"vt_user_str_3", "vt_user_str_3"}
 };
 
 std::vector<std::string> arg_trace_mpi;
@@ -1372,11 +1372,6 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
         output_config_yaml["Debug Print Configuration"]["Enable"].push_back(yaml_key);
       }
     }
-    // Then handle the User Defined parameters
-    else if (yaml_node == "User Options" and yaml_key != "unused_user_param") {
-      auto current_node = output_config_yaml["User Options"];
-      addVariantToNode(current_node, yaml_key, yaml_val);
-    }
     // Then handle any nested nodes (with "/" in them)
     else if (yaml_node.find("/") != yaml_node.npos) {
       auto nodes = util::demangle::DemanglerUtils::splitString(yaml_node, '/');
-- 
2.43.0


From 28b149e7d73ccd067b1e9ff4dffd36f74b996402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 23/95] fix: name of the configuration file to write may be
 short

---
 src/vt/configs/arguments/args.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 7bb49e9..0d8ba85 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1391,8 +1391,11 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
 
 void convertConfigToString(CLI::App& app, AppConfig& appConfig) {
   auto output_file = appConfig.vt_output_config_file;
-  auto config_file_ending = output_file.substr(output_file.size()-4);
-  if (config_file_ending == ".yml" || config_file_ending == "yaml") {
+  auto ends_with = [&output_file](std::string const& ending) {
+    return output_file.size() >= ending.size() and
+      output_file.substr(output_file.size() - ending.size()) == ending;
+  };
+  if (ends_with(".yml") || ends_with("yaml")) {
     appConfig.vt_output_config_str = convertConfigToYamlString(appConfig);
   } else {
     appConfig.vt_output_config_str = app.config_to_str(true, true);
-- 
2.43.0


From 75bedc3417610ea2ec288de43ef2edaba7e8c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 24/95] fix: short names of compressed data files

---
 src/vt/configs/arguments/args.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 0d8ba85..1ad9636 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1541,11 +1541,15 @@ static std::string buildFile(
   return dir + "/" + name;
 }
 
+static bool hasBrExtension(std::string const& name) {
+  return name.length() >= 3 and name.substr(name.length()-3, 3) == ".br";
+}
+
 static std::string buildFileWithBrExtension(
   std::string const& file, std::string const& dir
 ) {
   auto name = buildRankFile(file);
-  if (name.substr(name.length()-3, 3) != ".br") {
+  if (not hasBrExtension(name)) {
     name = name + ".br";
   }
   return dir + "/" + name;
@@ -1578,7 +1582,7 @@ std::string AppConfig::getLBStatisticsFile() const {
     ss << std::put_time(&tm, "%Y-%m-%d-%H-%M-%S");
     name.replace(timestamp, 2, ss.str());
   }
-  if (vt_lb_statistics_compress and name.substr(name.length()-3, 3) != ".br") {
+  if (vt_lb_statistics_compress and not hasBrExtension(name)) {
     name = name + ".br";
   }
   return name;
-- 
2.43.0


From 2b0ac8667aa6d56c8df7bca7893e4b20ae2d6253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 25/95] fix: YAML configuration covers running the LB in the
 first phase and user-level threads

---
 src/vt/configs/arguments/args.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 1ad9636..2155af3 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -173,6 +173,7 @@ static const std::string vt_lb_statistics_freq_label = "Frequency";
 static const std::string vt_lb_self_migration_label = "Enable Self Migration";
 static const std::string vt_lb_spec_label = "Enable Specification";
 static const std::string vt_lb_spec_file_label = "Specification File";
+static const std::string vt_lb_run_lb_first_phase_label = "Run LB First Phase";
 
 // Diagnostics
 static const std::string vt_diag_enable_label = "Enabled";
@@ -211,6 +212,12 @@ static const std::string vt_throw_on_abort_label = "Throw on Abort";
 static const std::string vt_tv_label = "Enabled";
 static const std::string vt_tv_config_file_label = "Configuration File";
 
+#if (vt_feature_fcontext != 0)
+// Threads
+static const std::string vt_ult_disable_label = "Disable User-level Threads";
+static const std::string vt_ult_stack_size_label = "Stack Size";
+#endif
+
 std::unordered_map<std::string, std::string> user_args_labels = {
   {"vt_user_1", "vt_user_1"},
   {"vt_user_2", "vt_user_2"},
@@ -569,6 +576,7 @@ void parseYaml(AppConfig& appConfig, std::string const& inputFile) {
   update_config(appConfig.vt_lb_self_migration, vt_lb_self_migration_label, load_balancing);
   update_config(appConfig.vt_lb_spec, vt_lb_spec_label, load_balancing);
   update_config(appConfig.vt_lb_spec_file, vt_lb_spec_file_label, load_balancing);
+  update_config(appConfig.vt_lb_run_lb_first_phase, vt_lb_run_lb_first_phase_label, load_balancing);
 
 
   YAML::Node lb_output = load_balancing["LB Data Output"];
@@ -635,6 +643,13 @@ void parseYaml(AppConfig& appConfig, std::string const& inputFile) {
   YAML::Node viz = yaml_input["Visualization"];
   update_config(appConfig.vt_tv, vt_tv_label, viz);
   update_config(appConfig.vt_tv_config_file, vt_tv_config_file_label, viz);
+
+#if (vt_feature_fcontext != 0)
+  // Threads
+  YAML::Node threads = yaml_input["Threads"];
+  update_config(appConfig.vt_ult_disable, vt_ult_disable_label, threads);
+  update_config(appConfig.vt_ult_stack_size, vt_ult_stack_size_label, threads);
+#endif
 }
 
 void addColorArgs(CLI::App& app, AppConfig& appConfig) {
@@ -1307,6 +1322,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
       {"Load Balancing", vt_lb_self_migration_label, static_cast<variantArg_t>(appConfig.vt_lb_self_migration)},
       {"Load Balancing", vt_lb_spec_label, static_cast<variantArg_t>(appConfig.vt_lb_spec)},
       {"Load Balancing", vt_lb_spec_file_label, static_cast<variantArg_t>(appConfig.vt_lb_spec_file)},
+      {"Load Balancing", vt_lb_run_lb_first_phase_label, static_cast<variantArg_t>(appConfig.vt_lb_run_lb_first_phase)},
 
       // Diagnostics
       {"Diagnostics", vt_diag_enable_label, static_cast<variantArg_t>(appConfig.vt_diag_enable)},
@@ -1354,7 +1370,13 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
 
       // Visualization
       {"Visualization", vt_tv_label, static_cast<variantArg_t>(appConfig.vt_tv)},
-      {"Visualization", vt_tv_config_file_label, static_cast<variantArg_t>(appConfig.vt_tv_config_file)}
+      {"Visualization", vt_tv_config_file_label, static_cast<variantArg_t>(appConfig.vt_tv_config_file)},
+#if (vt_feature_fcontext != 0)
+
+      // Threads
+      {"Threads", vt_ult_disable_label, static_cast<variantArg_t>(appConfig.vt_ult_disable)},
+      {"Threads", vt_ult_stack_size_label, static_cast<variantArg_t>(appConfig.vt_ult_stack_size)},
+#endif
   };
 
   // Create an empty node that we will populate
-- 
2.43.0


From 5d7a176e452e939ac0e5b21a7e3fcc2d3faa3473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 26/95] fix: forget names of user options between
 initializations

---
 src/vt/configs/arguments/args.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 2155af3..4d2fc1d 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -273,6 +273,9 @@ std::tuple<int, std::string> parseArguments(
 
   // Do not inherit values from an earlier initialization of the runtime
   arg_trace_mpi.clear();
+  for (auto& elm : user_args_labels) {
+    elm.second = elm.first;
+  }
 
   // Load up vectors
   // Has the ability to read interleaved arguments for vt, MPI, and others passed through to other libraries or the application.
-- 
2.43.0


From f705124520ad3e7f5a409dbaf2700f1869bddb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 27/95] fix: write the debug replay setting to YAML

---
 src/vt/configs/arguments/args.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vt/configs/arguments/args.cc b/src/vt/configs/arguments/args.cc
index 4d2fc1d..59d9513 100644
--- a/src/vt/configs/arguments/args.cc
+++ b/src/vt/configs/arguments/args.cc
@@ -1269,6 +1269,7 @@ std::string convertConfigToYamlString(AppConfig& appConfig) {
       {"Debug Print Configuration", vt_debug_all_label, static_cast<variantArg_t>(appConfig.vt_debug_all)},
       {"Debug Print Configuration", vt_debug_none_label, static_cast<variantArg_t>(appConfig.vt_debug_none)},
       {"Debug Print Configuration", vt_debug_print_flush_label, static_cast<variantArg_t>(appConfig.vt_debug_print_flush)},
+      {"Debug Print Configuration", vt_debug_replay_label, static_cast<variantArg_t>(appConfig.vt_debug_replay)},
       {"Debug Print Configuration/Enable", vt_debug_gen_label, static_cast<variantArg_t>(appConfig.vt_debug_gen)},
       {"Debug Print Configuration/Enable", vt_debug_runtime_label, static_cast<variantArg_t>(appConfig.vt_debug_runtime)},
       {"Debug Print Configuration/Enable", vt_debug_active_label, static_cast<variantArg_t>(appConfig.vt_debug_active)},
-- 
2.43.0


From 4284345e46730e8f77d4ddd580489cad110134bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:31 +0000
Subject: [PATCH 28/95] fix: initialise AppConfig::colorize_output

A configuration on which parse() has not run, or has failed, leaves the
flag indeterminate, and copying such a configuration (as
ArgConfig::parse does with the one the user passes) reads it.
---
 src/vt/configs/arguments/app_config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/configs/arguments/app_config.h b/src/vt/configs/arguments/app_config.h
index e165cf6..d5cf1de 100644
--- a/src/vt/configs/arguments/app_config.h
+++ b/src/vt/configs/arguments/app_config.h
@@ -88,7 +88,7 @@ struct AppConfig {
   bool vt_auto_color = false;
   bool vt_quiet      = false;
   // Derived from vt_*_color arguments after parsing.
-  bool colorize_output;
+  bool colorize_output = false;
 
   int32_t vt_sched_num_progress = 2;
   int32_t vt_sched_progress_han = 0;
-- 
2.43.0


From 76e301ca3acdc2b1186898bf7e1783bfdad9d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 29/95] fix: LB config lines with parameters may end in blanks

After the last parameter of a line that ends in a blank, the reader took
the first word of the next line as one more parameter.
---
 src/vt/vrt/collection/balance/read_lb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/read_lb.cc b/src/vt/vrt/collection/balance/read_lb.cc
index efbf17d..abf0ffa 100644
--- a/src/vt/vrt/collection/balance/read_lb.cc
+++ b/src/vt/vrt/collection/balance/read_lb.cc
@@ -183,10 +183,10 @@ int eatWhitespace(std::ifstream& file) {
       std::string param;
       file >> param;
       params.push_back(param);
+      // Blanks may end the line: do not look for another parameter beyond it
+      eatWhitespace(file);
     }
 
-    eatWhitespace(file);
-
     while (file.peek() == '\n') {
       file.get();
     }
-- 
2.43.0


From a5a394fa21528391c6caf751faf9eeca24d73c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 30/95] fix: show that an exact LB config line excludes the
 phase of a mod line

With lines for both %5 and 5, the exact line has precedence on phase 5,
but phase 5 was not listed among those the %5 line is excluded from.
---
 src/vt/vrt/collection/balance/read_lb.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/read_lb.cc b/src/vt/vrt/collection/balance/read_lb.cc
index abf0ffa..6304926 100644
--- a/src/vt/vrt/collection/balance/read_lb.cc
+++ b/src/vt/vrt/collection/balance/read_lb.cc
@@ -325,7 +325,8 @@ auto excluded_str = [](ConfigIndex idx) -> std::string {
 
   for (auto k = 1; k*idx <= max_idx; k++) {
     auto next_entry = ReadLBConfig::entry(k*idx);
-    if (next_entry != nullptr and next_entry->getIdx() != idx) {
+    auto const is_exact = exact_entries.find(k*idx) != exact_entries.end();
+    if (next_entry != nullptr and (is_exact or next_entry->getIdx() != idx)) {
       ss << fmt::format("{}, ", debug::emph(std::to_string(k*idx)));
     }
   }
-- 
2.43.0


From 156c08601abb6c5b72bae8bb9dd8dc1b4a4ad967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 31/95] fix: moments of load statistics overflow for a few
 hundred objects

LoadData's operator+ multiplied the counts of both sides in 32-bit
integers; the term for the fourth moment needs N^4 and overflowed once
both sides had 216 values, the one for the second at 46341.
---
 src/vt/vrt/collection/balance/stats_msg.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vt/vrt/collection/balance/stats_msg.h b/src/vt/vrt/collection/balance/stats_msg.h
index da5e777..94564df 100644
--- a/src/vt/vrt/collection/balance/stats_msg.h
+++ b/src/vt/vrt/collection/balance/stats_msg.h
@@ -87,11 +87,12 @@ struct LoadData {
     auto delta     = a2.avg_ - a1.avg_;
     auto delta_sur_N   = delta / static_cast<double>(N);
     auto delta2_sur_N2 = delta_sur_N * delta_sur_N;
-    int32_t n2           = a1.N_ * a1.N_;
-    int32_t n_c2         = a2.N_ * a2.N_;
-    int32_t prod_n       = a1.N_ * a2.N_;
-    int32_t n_c          = a2.N_;
-    int32_t n            = a1.N_;
+    // the products of counts below exceed 32 bits for a few hundred values
+    double const n_c     = a2.N_;
+    double const n       = a1.N_;
+    double const n2      = n * n;
+    double const n_c2    = n_c * n_c;
+    double const prod_n  = n * n_c;
     auto M2            = a1.M2_;
     auto M2_c          = a2.M2_;
     auto M3            = a1.M3_;
-- 
2.43.0


From f2e4da5a147868c47a9bb49a81ac06581134b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 32/95] fix: moments of diagnostic values overflow for large
 counts

The counts are numbers of updates for averaged values, so their products
do not fit in 32 bits.
---
 src/vt/runtime/component/diagnostic_value.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index 5d6ec4c..b6b8d85 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -129,15 +129,15 @@ struct DiagnosticValueWrapper {
   friend DiagnosticValueWrapper<T> operator+(
     DiagnosticValueWrapper<T> d1, DiagnosticValueWrapper<T> const& d2
   ) {
-    int32_t N            = d1.N_ + d2.N_;
+    std::size_t N        = d1.N_ + d2.N_;
     double delta         = d2.avg_ - d1.avg_;
     double delta_sur_N   = delta / static_cast<double>(N);
     double delta2_sur_N2 = delta_sur_N * delta_sur_N;
-    int32_t n2           = d1.N_ * d1.N_;
-    int32_t n_c2         = d2.N_ * d2.N_;
-    int32_t prod_n       = d1.N_ * d2.N_;
-    int32_t n_c          = d2.N_;
-    int32_t n            = d1.N_;
+    double n_c           = d2.N_;
+    double n             = d1.N_;
+    double n2            = n * n;
+    double n_c2          = n_c * n_c;
+    double prod_n        = n * n_c;
     double M2            = d1.M2_;
     double M2_c          = d2.M2_;
     double M3            = d1.M3_;
-- 
2.43.0


From 3a0ff4e7a0e0ff7e95a76c9561dfcdce9a029215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 33/95] fix: mean of a diagnostic that two combined ranks did
 not update

Combining two values with no updates divided zero by zero; the NaN then
stayed in the mean and deviation of all ranks.
---
 src/vt/runtime/component/diagnostic_value.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index b6b8d85..c2988a3 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -131,7 +131,8 @@ struct DiagnosticValueWrapper {
   ) {
     std::size_t N        = d1.N_ + d2.N_;
     double delta         = d2.avg_ - d1.avg_;
-    double delta_sur_N   = delta / static_cast<double>(N);
+    // neither side may have a value, if the diagnostic was not updated there
+    double delta_sur_N   = N == 0 ? 0. : delta / static_cast<double>(N);
     double delta2_sur_N2 = delta_sur_N * delta_sur_N;
     double n_c           = d2.N_;
     double n             = d1.N_;
-- 
2.43.0


From 0e9687ea611b06add402a98b96f73a58881945e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 34/95] fix: average of a negative integer diagnostic

The signed sum was divided by the unsigned count.
---
 src/vt/runtime/component/diagnostic_value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index c2988a3..0407e3c 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -238,7 +238,7 @@ struct DiagnosticValueWrapper {
    */
   T getComputedValue() const {
     if (N_ > 0) {
-      return value_ / N_;
+      return value_ / static_cast<T>(N_);
     } else {
       return value_;
     }
-- 
2.43.0


From 4dfae473bc688b1a878390b9f5abbfa5c0e6454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 35/95] fix: keep the extrema when an approximate histogram is
 merged in

Only the centroids of the other histogram were added, whose values lie
inside the range of what was inserted once any of them were merged.
---
 src/vt/utils/adt/histogram_approx.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 2e801ce..dde4d6a 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -407,6 +407,10 @@ struct HistogramApprox {
       add(c.getValue(), c.getCount());
     }
 
+    // The extrema may no longer be among the centroids of the input histogram
+    min_ = std::min(min_, in_hist.getMin());
+    max_ = std::max(max_, in_hist.getMax());
+
     // Pare the histogram down to the allowed size
     pareToNewMaxCentroids(cur_max_centroids);
   }
-- 
2.43.0


From 7755ccdc8be9215b5538a26fed25b185a802e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 36/95] fix: last bucket of a histogram may miss the maximum

min + (max-min)/n*n can round to less than max, which left the values
equal to max out of the buckets.
---
 src/vt/utils/adt/histogram_approx.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index dde4d6a..6c4fb79 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -435,7 +435,8 @@ struct HistogramApprox {
 
     std::vector<double> buckets;
     for (auto i = 0; i < n_buckets; i++) {
-      auto q = getMin() + bucket_size*(i+1);
+      // the last bucket ends at the maximum, despite rounding
+      auto q = i == n_buckets - 1 ? getMax() : getMin() + bucket_size*(i+1);
       // get the number of values that fall less than this value
       auto n_vals = estimateNumValues(q);
       buckets.push_back(n_vals);
-- 
2.43.0


From 72402301c966b2513a19d06eead1796f4feeb0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 37/95] fix: estimating beyond the last centroid of a histogram
 reads past it

For a value between the last centroid and the maximum the search returns
the end of the centroids, which was then dereferenced.
---
 src/vt/utils/adt/histogram_approx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 6c4fb79..46acf66 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -338,7 +338,7 @@ struct HistogramApprox {
     std::size_t k = it - cs_.begin();
 
     // \c std::lower_bound doesn't quite do what we need (when p == p_k)
-    if (cs_[k].getValue() == p) {
+    if (k < cs_.size() and cs_[k].getValue() == p) {
       k++;
     }
 
-- 
2.43.0


From bcbc6406c49039e7232b674486c41003f8ad764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 38/95] fix: count the direct children in
 Tree::getNumDescendants()

---
 src/vt/collective/tree/tree.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/collective/tree/tree.cc b/src/vt/collective/tree/tree.cc
index 2f86909..5b66598 100644
--- a/src/vt/collective/tree/tree.cc
+++ b/src/vt/collective/tree/tree.cc
@@ -104,9 +104,9 @@ std::size_t Tree::getNumDescendants(NodeType child) const {
 }
 
 std::size_t Tree::getNumDescendants() const {
-  auto total_size = 0;
+  std::size_t total_size = 0;
   foreachChild([this,&total_size](NodeType child){
-    total_size += getNumDescendants(child);
+    total_size += getNumDescendants(child) + 1;
   });
   return total_size;
 }
-- 
2.43.0


From 163fa87fcf41dbeecb74cc6b82881db54b20a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:24 +0000
Subject: [PATCH 39/95] fix: a location update is not forwarded to the node the
 entity lives on

---
 src/vt/topos/location/location.impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index c9b0b10..1e558bc 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -426,7 +426,10 @@ void EntityLocationCoord<EntityID>::handleEagerUpdate(
   auto ask_iter = loc_asks_.find(id);
   if (ask_iter != loc_asks_.end()) {
     for (auto&& ask_node : ask_iter->second) {
-      sendEagerUpdate(id, ask_node, home_node, deliver_node);
+      // The entity might have migrated to a node that asked for it
+      if (ask_node != deliver_node) {
+        sendEagerUpdate(id, ask_node, home_node, deliver_node);
+      }
     }
     loc_asks_.erase(ask_iter);
   }
-- 
2.43.0


From aad42f504fbadcee47526f56a40e5fc145677405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 40/95] fix: a location answer naming this node may precede the
 entity's arrival

---
 src/vt/topos/location/location.impl.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index 1e558bc..31307ac 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -722,12 +722,23 @@ void EntityLocationCoord<EntityID>::updatePendingRequest(
     node
   );
 
-  recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, node});
+  auto resolved = node;
+
+  if (node != theContext()->getNode()) {
+    recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, node});
+  } else {
+    // The answer might arrive before the entity itself does, in which case its
+    // registration resolves what is pending, or after it has moved on
+    if (not recs_.exists(id) or not recs_.get(id).isRemote()) {
+      return;
+    }
+    resolved = recs_.get(id).getRemoteNode();
+  }
 
   // trigger any pending actions upon registration
   if (auto lookups = pending_lookups_.extract(id); lookups) {
     for (auto&& action : lookups.mapped()) {
-      action(node);
+      action(resolved);
     }
   }
 }
-- 
2.43.0


From 64bf360906dd0d3b7812764ae11a43188d05e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 41/95] fix: tell the home when an element is destroyed
 elsewhere

---
 src/vt/topos/location/location.h      | 16 ++++++++++++
 src/vt/topos/location/location.impl.h | 35 +++++++++++++++++++++++++--
 src/vt/vrt/collection/manager.impl.h  |  9 +++++--
 3 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/vt/topos/location/location.h b/src/vt/topos/location/location.h
index e0a82a8..445dc5c 100644
--- a/src/vt/topos/location/location.h
+++ b/src/vt/topos/location/location.h
@@ -155,6 +155,14 @@ struct EntityLocationCoord : LocationCoord {
    */
   void unregisterEntity(EntityID const& id);
 
+  /**
+   * \brief Unregister an entity and remove the record of it on its home node
+   *
+   * \param[in] id the entity ID
+   * \param[in] home the home node for the entity
+   */
+  void unregisterEntity(EntityID const& id, NodeType const& home);
+
   /**
    * \brief Tell coordinator that the entity has migrated to another node
    *
@@ -388,6 +396,14 @@ private:
    */
   void updateLocation(EntityID const& id, NodeType answer, NodeType home_node);
 
+  /**
+   * \internal \brief Remove the record of an unregistered entity on its home
+   *
+   * \param[in] id the entity ID
+   * \param[in] last_node the node where the entity was unregistered
+   */
+  void removeLocation(EntityID const& id, NodeType last_node);
+
   /**
    * \internal \brief Route a message to destination with eager protocol
    *
diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index 31307ac..dbc9cb5 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -192,6 +192,32 @@ void EntityLocationCoord<EntityID>::unregisterEntity(EntityID const& id) {
   }
 }
 
+template <typename EntityID>
+void EntityLocationCoord<EntityID>::unregisterEntity(
+  EntityID const& id, NodeType const& home
+) {
+  unregisterEntity(id);
+
+  auto const this_node = theContext()->getNode();
+  if (home != this_node) {
+    proxy_[home].template send<&ThisType::removeLocation>(
+      MsgProps().asLocationMsg(), id, this_node
+    );
+  }
+}
+
+template <typename EntityID>
+void EntityLocationCoord<EntityID>::removeLocation(
+  EntityID const& id, NodeType last_node
+) {
+  if (recs_.exists(id)) {
+    auto const& rec = recs_.get(id);
+    if (rec.isRemote() and rec.getRemoteNode() == last_node) {
+      recs_.remove(id);
+    }
+  }
+}
+
 template <typename EntityID>
 void EntityLocationCoord<EntityID>::entityEmigrated(
   EntityID const& id, NodeType const& new_node
@@ -420,8 +446,13 @@ void EntityLocationCoord<EntityID>::handleEagerUpdate(
     id, home_node, deliver_node
   );
 
-  // Insert a new entry in the cache for the updated location
-  recs_.insert(id, home_node, LocRecType{id, eLocState::Remote, deliver_node});
+  // Insert a new entry in the cache for the updated location; the home is always
+  // told about (un)registrations directly and this update might be out of date
+  if (this_node != home_node) {
+    recs_.insert(
+      id, home_node, LocRecType{id, eLocState::Remote, deliver_node}
+    );
+  }
 
   auto ask_iter = loc_asks_.find(id);
   if (ask_iter != loc_asks_.end()) {
diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index aead7c8..c37f13e 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1748,14 +1748,19 @@ void CollectionManager::destroyElm(
   if (elm_holder->exists(idx)) {
     // Delay this so we can finish processing this work unit first (which might
     // be this collection element running)
-    theSched()->enqueue([idx,untyped_proxy]{
+    auto const home = getMappedNode<ColT>(proxy, idx);
+    theTerm()->produce(modify_epoch);
+    theSched()->enqueue([idx,untyped_proxy,home,modify_epoch]{
+      theMsg()->pushEpoch(modify_epoch);
       auto elm = theCollection()->findElmHolder<IndexType>(untyped_proxy);
       if (elm->exists(idx)) {
         elm->remove(idx);
         theLocMan()
           ->getCollectionLM<IndexType>(untyped_proxy)
-          ->unregisterEntity(idx);
+          ->unregisterEntity(idx, home);
       }
+      theMsg()->popEpoch(modify_epoch);
+      theTerm()->consume(modify_epoch);
     });
   } else {
     // Otherwise, we send a destroy message that will be routed (eventually
-- 
2.43.0


From 161b07282fbdd2a75d47f1400d3354da29f6672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 42/95] fix: do not move an element that queued work still
 points to

---
 src/vt/context/runnable_context/collection.cc |  4 +++
 src/vt/context/runnable_context/collection.h  |  1 +
 .../runnable_context/collection.impl.h        |  6 ++++
 src/vt/vrt/collection/manager.h               | 15 ++++++++++
 src/vt/vrt/collection/manager.impl.h          | 30 +++++++++++++++----
 src/vt/vrt/collection/types/untyped.h         | 20 +++++++++++++
 6 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/src/vt/context/runnable_context/collection.cc b/src/vt/context/runnable_context/collection.cc
index b2ae3f3..e7578f7 100644
--- a/src/vt/context/runnable_context/collection.cc
+++ b/src/vt/context/runnable_context/collection.cc
@@ -46,6 +46,10 @@
 namespace vt { namespace ctx {
 
 void Collection::start() {
+  if (started_) {
+    started_(elm_);
+    started_ = nullptr;
+  }
   set_(elm_);
 }
 
diff --git a/src/vt/context/runnable_context/collection.h b/src/vt/context/runnable_context/collection.h
index 3328939..7234c7a 100644
--- a/src/vt/context/runnable_context/collection.h
+++ b/src/vt/context/runnable_context/collection.h
@@ -89,6 +89,7 @@ struct Collection {
 private:
   std::function<void(std::byte* in_elm)> set_;   /**< Set context function */
   std::function<void()> clear_;             /**< Clear context function */
+  std::function<void(std::byte* in_elm)> started_; /**< First start function */
   std::byte* elm_ = nullptr;                     /**< The element (untyped) */
 };
 
diff --git a/src/vt/context/runnable_context/collection.impl.h b/src/vt/context/runnable_context/collection.impl.h
index 6a756cc..b90b25d 100644
--- a/src/vt/context/runnable_context/collection.impl.h
+++ b/src/vt/context/runnable_context/collection.impl.h
@@ -61,6 +61,12 @@ template <typename IndexT>
     auto proxy_ = e->getProxy();
     vrt::collection::CollectionContextHolder<IndexT>::set(&idx_, proxy_);
   };
+  elm->addPendingWork();
+  started_ = [](std::byte* in_elm){
+    reinterpret_cast<vrt::collection::Indexable<IndexT>*>(
+      in_elm
+    )->removePendingWork();
+  };
   clear_ = []{
     vrt::collection::CollectionContextHolder<IndexT>::clear();
   };
diff --git a/src/vt/vrt/collection/manager.h b/src/vt/vrt/collection/manager.h
index e194da3..b089478 100644
--- a/src/vt/vrt/collection/manager.h
+++ b/src/vt/vrt/collection/manager.h
@@ -1480,6 +1480,21 @@ private:
   template <typename ColT>
   friend struct param::ConstructParams;
 
+  /**
+   * \internal \brief Migrate an element out of this node once all the work that
+   * is already bound to it on this node has started
+   *
+   * \param[in] proxy the collection proxy bits
+   * \param[in] idx the index
+   * \param[in] dest the destination node
+   * \param[in] epoch the epoch of the migration, produced by the caller
+   */
+  template <typename ColT, typename IndexT>
+  void migrateOutWhenIdle(
+    VirtualProxyType const& proxy, IndexT const& idx, NodeType const& dest,
+    EpochType const& epoch
+  );
+
   /**
    * \internal \brief Migrate an element out of this node
    *
diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index c37f13e..5438e16 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -1797,16 +1797,34 @@ MigrateStatus CollectionManager::migrate(
 
   auto const epoch = theMsg()->getEpoch();
   theTerm()->produce(epoch);
-  schedule([=]{
-    theMsg()->pushEpoch(epoch);
-    migrateOut<ColT,IndexT>(col_proxy, idx, dest);
-    theMsg()->popEpoch(epoch);
-    theTerm()->consume(epoch);
-  });
+  schedule([=]{ migrateOutWhenIdle<ColT,IndexT>(col_proxy, idx, dest, epoch); });
 
   return MigrateStatus::PendingLocalAction;
 }
 
+template <typename ColT, typename IndexT>
+void CollectionManager::migrateOutWhenIdle(
+  VirtualProxyType const& col_proxy, IndexT const& idx, NodeType const& dest,
+  EpochType const& epoch
+) {
+  // Work that is already bound to the element must run before it can leave
+  auto elm_holder = findElmHolder<IndexT>(col_proxy);
+  if (
+    elm_holder != nullptr and elm_holder->exists(idx) and
+    elm_holder->lookup(idx).getRawPtr()->hasPendingWork()
+  ) {
+    theSched()->enqueue(sys_min_priority, [=]{
+      migrateOutWhenIdle<ColT,IndexT>(col_proxy, idx, dest, epoch);
+    });
+    return;
+  }
+
+  theMsg()->pushEpoch(epoch);
+  migrateOut<ColT,IndexT>(col_proxy, idx, dest);
+  theMsg()->popEpoch(epoch);
+  theTerm()->consume(epoch);
+}
+
 template <typename ColT, typename IndexT>
 MigrateStatus CollectionManager::migrateOut(
   VirtualProxyType const& col_proxy, IndexT const& idx, NodeType const& dest
diff --git a/src/vt/vrt/collection/types/untyped.h b/src/vt/vrt/collection/types/untyped.h
index 121168b..5c616e5 100644
--- a/src/vt/vrt/collection/types/untyped.h
+++ b/src/vt/vrt/collection/types/untyped.h
@@ -57,11 +57,31 @@ namespace vt { namespace vrt { namespace collection {
 struct UntypedCollection : VrtBase, HasMigrate {
   UntypedCollection() = default;
 
+  /**
+   * \internal \brief Record that work was created for this element that has not
+   * started to run yet
+   */
+  void addPendingWork() { ++num_pending_work_; }
+
+  /**
+   * \internal \brief Record that work created for this element has started
+   */
+  void removePendingWork() { --num_pending_work_; }
+
+  /**
+   * \internal \brief Check if there is work that is bound to this element but
+   * has not started to run; the element must not move until it has
+   */
+  bool hasPendingWork() const { return num_pending_work_ != 0; }
+
 protected:
   template <typename Serializer>
   void serialize(Serializer& s) {
     VrtBase::serialize(s);
   }
+
+private:
+  int num_pending_work_ = 0; /**< Work bound to this element, not yet running */
 };
 
 }}} /* end namespace vt::vrt::collection */
-- 
2.43.0


From 2ba6d563842775070a60ad08368a3ace4b4003ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 43/95] fix: groups: keep messages waiting for other groups
 when one group is set up

---
 src/vt/group/group_manager.impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/group/group_manager.impl.h b/src/vt/group/group_manager.impl.h
index c78e560..accdada 100644
--- a/src/vt/group/group_manager.impl.h
+++ b/src/vt/group/group_manager.impl.h
@@ -119,7 +119,7 @@ template <typename T>
           action(elm);
         }
       }
-      waiting_cont_.clear();
+      waiting_cont_.erase(iter);
     }
   }
 }
-- 
2.43.0


From fc05231be2bb4183726d4ed4be6b7792b065713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 44/95] fix: messaging: count a forwarded but not delivered
 message as received

---
 src/vt/messaging/active.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index d19b6da..7a85a6d 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -940,6 +940,15 @@ void ActiveMessenger::processActiveMsg(
   } else {
     amForwardCounterGauge.incrementUpdate(base.size(), 1);
 
+    // The forwarded copies have been counted as sent, so count this one as
+    // received, which otherwise happens when the message is delivered
+    if (not is_term) {
+      auto const epoch = envelopeIsEpochType(msg->env) ?
+        envelopeGetEpoch(msg->env) : term::any_epoch_sentinel;
+      theTerm()->consume(epoch,1,from);
+      theTerm()->hangDetectRecv();
+    }
+
     if (cont != nullptr) {
       cont();
     }
-- 
2.43.0


From 6b0a045ab1d94a573981e23a971055dabe9959b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 45/95] fix: object groups: keep a multicast to a region alive
 until its group is set up

---
 src/vt/objgroup/proxy/proxy_objgroup.impl.h | 41 ++++++++++++++-------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/vt/objgroup/proxy/proxy_objgroup.impl.h b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
index 337f9fc..0fc0ab3 100644
--- a/src/vt/objgroup/proxy/proxy_objgroup.impl.h
+++ b/src/vt/objgroup/proxy/proxy_objgroup.impl.h
@@ -151,22 +151,37 @@ typename Proxy<ObjT>::PendingSendType Proxy<ObjT>::multicast(
 
   auto groupID = theGroup()->GetTempGroupForRange(range);
   if (!groupID.has_value()) {
+    auto region = std::make_shared<group::region::Region::RegionUPtrType>(
+      std::move(nodes)
+    );
+
     return typename Proxy<ObjT>::PendingSendType{
       theTerm()->getCurrentEpoch(),
-      [&, this,
+      [proxy = *this, region,
        args = std::make_tuple(std::forward<Params>(params)...)] {
-        std::apply(
-          [&, this](auto&&... unpackedArgs) {
-            // Explicit copy, we move 'nodes' in group creation
-            auto range_copy = nodes->makeList();
-            auto id =
-              theGroup()->newGroup(std::move(nodes), [&, this](GroupType type) {
-                multicast<f>(
-                  type, std::forward<decltype(unpackedArgs)>(unpackedArgs)...);
-              });
-            theGroup()->AddNewTempGroup(range_copy, id);
-          },
-          std::move(args));
+        // Explicit copy, we move 'region' in group creation
+        auto range_copy = (*region)->makeList();
+
+        // The group is set up asynchronously: keep what the action needs alive,
+        // and the current epoch from ending until it has run
+        auto const epoch = theTerm()->getCurrentEpoch();
+        theTerm()->produce(epoch);
+
+        theGroup()->newGroup(
+          std::move(*region),
+          [proxy, range_copy, args, epoch](GroupType type) {
+            theGroup()->AddNewTempGroup(range_copy, type);
+            theMsg()->pushEpoch(epoch);
+            std::apply(
+              [&](auto const&... unpackedArgs) {
+                proxy.template multicast<f>(type, unpackedArgs...);
+              },
+              args
+            );
+            theMsg()->popEpoch(epoch);
+            theTerm()->consume(epoch);
+          }
+        );
       }};
   } else {
     return multicast<f>(groupID.value(), std::forward<Params>(params)...);
-- 
2.43.0


From 7f9c86f3a223f90c44077ce28deb6f8d27bc1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 46/95] fix: groups: send to a rooted group from any rank,
 whoever made it

---
 src/vt/group/group_manager.cc | 119 +++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 60 deletions(-)

diff --git a/src/vt/group/group_manager.cc b/src/vt/group/group_manager.cc
index 647a056..6481272 100644
--- a/src/vt/group/group_manager.cc
+++ b/src/vt/group/group_manager.cc
@@ -442,8 +442,6 @@ EventType GroupManager::sendGroup(
   auto const& msg = base.get();
   auto const& group = envelopeGetGroup(msg->env);
   auto const& dest = envelopeGetDest(msg->env);
-  auto const& this_node_dest = dest == this_node;
-  auto const& first_send = from == uninitialized_destination;
 
   vt_debug_print(
     terse, group,
@@ -466,75 +464,76 @@ EventType GroupManager::sendGroup(
     return theMsg()->sendMsgBytesWithPut(node, base, send_tag);
   };
 
-  EventType ret_event = no_event;
+  /*
+   *  A message goes to the creator of the group, then to the root of the spanning
+   *  tree, and then down the tree. The creator may itself be a member, and has to
+   *  tell a message it has to pass to the root from one that reaches it through
+   *  the tree: the deliver bit is off once a message is on the tree.
+   */
+  auto set_on_tree = [&](bool on_tree) {
+    envelopeUnlockForForwarding(msg->env);
+    setBroadcastType(msg->env, not on_tree);
+    envelopeSetIsLocked(msg->env, true);
+  };
 
   if (is_root && group_node != this_node) {
     *deliver = false;
+    set_on_tree(false);
     return send_to_node(group_node);
-  } else {
-    auto iter = local_group_info_.find(group);
-    bool is_at_root = iter != local_group_info_.end();
-    if (is_at_root && iter->second->forward_node_ != this_node) {
-      if (iter->second->forward_node_ != this_node) {
-        auto& info = *iter->second;
-        vtAssert(info.is_forward_, "Must be a forward");
-        auto const& node = info.forward_node_;
-        *deliver = false;
-        return send_to_node(node);
-      } else {
-        *deliver = true;
-        return no_event;
-      }
-    } else {
-      auto remote_iter = remote_group_info_.find(group);
+  }
 
-      vt_debug_print(
-        normal, broadcast,
-        "GroupManager::sendGroup: *send* remote size={}, from={}, found={}, "
-        "dest={}, group={:x}, is_root={} \n",
-        base.size(), from, remote_iter != remote_group_info_.end(), dest, group,
-        is_root
-      );
+  auto iter = local_group_info_.find(group);
+  bool const is_creator = iter != local_group_info_.end();
+  bool const on_tree = not is_root and not envelopeGetDeliverBcast(msg->env);
 
-      if (remote_iter != remote_group_info_.end() && (!this_node_dest || first_send)) {
-        auto& info = *remote_iter->second;
-        vtAssert(!info.is_forward_, "Must not be a forward");
-        vtAssert(
-          info.default_spanning_tree_ != nullptr, "Must have spanning tree"
-        );
+  if (
+    is_creator and not on_tree and iter->second->forward_node_ != this_node
+  ) {
+    auto& info = *iter->second;
+    vtAssert(info.is_forward_, "Must be a forward");
+    *deliver = false;
+    set_on_tree(true);
+    return send_to_node(info.forward_node_);
+  }
 
-        auto const& send_tag = static_cast<messaging::MPI_TagType>(
-          messaging::MPITag::ActiveMsgTag
-        );
-        auto const& num_children = info.default_spanning_tree_->getNumChildren();
-
-        // Send to child nodes in the group's spanning tree
-        if (num_children > 0) {
-          info.default_spanning_tree_->foreachChild([&](NodeType child) {
-            vt_debug_print(
-              verbose, broadcast,
-              "GroupManager::sendGroup: *send* size={}, from={}, child={}\n",
-              base.size(), from, child
-            );
-
-            if (child != this_node) {
-              theMsg()->sendMsgBytesWithPut(child, base, send_tag);
-            }
-          });
-        }
+  if (not on_tree) {
+    set_on_tree(true);
+  }
 
-        if (is_root && from == uninitialized_destination) {
-          *deliver = true;
-        } else if (!is_root && dest == this_node) {
-          *deliver = false;
-        } else {
-          *deliver = true;
-        }
+  auto remote_iter = remote_group_info_.find(group);
+
+  vt_debug_print(
+    normal, broadcast,
+    "GroupManager::sendGroup: *send* remote size={}, from={}, found={}, "
+    "dest={}, group={:x}, is_root={} \n",
+    base.size(), from, remote_iter != remote_group_info_.end(), dest, group,
+    is_root
+  );
+
+  if (remote_iter != remote_group_info_.end()) {
+    auto& info = *remote_iter->second;
+    vtAssert(!info.is_forward_, "Must not be a forward");
+    vtAssert(
+      info.default_spanning_tree_ != nullptr, "Must have spanning tree"
+    );
+
+    // Send to child nodes in the group's spanning tree
+    info.default_spanning_tree_->foreachChild([&](NodeType child) {
+      vt_debug_print(
+        verbose, broadcast,
+        "GroupManager::sendGroup: *send* size={}, from={}, child={}\n",
+        base.size(), from, child
+      );
+
+      if (child != this_node) {
+        send_to_node(child);
       }
-    }
+    });
   }
 
-  return ret_event;
+  // Only members get here
+  *deliver = true;
+  return no_event;
 }
 
 GroupManager::GroupManager()
-- 
2.43.0


From 3757878a4b8b3aab4140c19af0363cb61dc6e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 47/95] fix: groups: know the new root even if its own message
 arrives late

---
 src/vt/group/collective/group_info_collective.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vt/group/collective/group_info_collective.cc b/src/vt/group/collective/group_info_collective.cc
index 4aa6b7d..9e13bc8 100644
--- a/src/vt/group/collective/group_info_collective.cc
+++ b/src/vt/group/collective/group_info_collective.cc
@@ -762,6 +762,8 @@ void InfoColl::finalizeTree(GroupOnlyMsg* msg) {
   in_phase_two_     = true;
   known_root_node_  = new_root;
   has_root_         = true;
+  // The message for newRoot() may arrive after this one
+  is_new_root_      = new_root == theContext()->getNode();
   is_default_group_ = msg->isDefault();
   finalize();
 }
-- 
2.43.0


From 183012e54ca7258836dcbc3b6e45559be8a1e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 48/95] fix: groups: send what any rank sent to a group before
 it was ready

---
 src/vt/group/collective/group_info_collective.cc |  5 +++++
 src/vt/group/collective/group_info_collective.h  |  1 +
 src/vt/group/group_manager.cc                    | 16 ++++++++++++----
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/vt/group/collective/group_info_collective.cc b/src/vt/group/collective/group_info_collective.cc
index 9e13bc8..487a9a7 100644
--- a/src/vt/group/collective/group_info_collective.cc
+++ b/src/vt/group/collective/group_info_collective.cc
@@ -669,6 +669,10 @@ void InfoColl::newTree(NodeType const& parent) {
   if (action) {
     action();
   }
+  runReadyActions();
+}
+
+void InfoColl::runReadyActions() {
   auto cur_actions = pending_ready_actions_;
   pending_ready_actions_.clear();
   for (auto&& act : cur_actions) {
@@ -736,6 +740,7 @@ void InfoColl::finalize() {
       if (action) {
         action();
       }
+      runReadyActions();
     }
 
     auto const& root = 0;
diff --git a/src/vt/group/collective/group_info_collective.h b/src/vt/group/collective/group_info_collective.h
index c456dfd..1792f70 100644
--- a/src/vt/group/collective/group_info_collective.h
+++ b/src/vt/group/collective/group_info_collective.h
@@ -99,6 +99,7 @@ public:
   bool isEmptyGroup() const;
 
 protected:
+  void runReadyActions();
   void setupCollective();
   void setupCollectiveSingular();
 
diff --git a/src/vt/group/group_manager.cc b/src/vt/group/group_manager.cc
index 6481272..397ae09 100644
--- a/src/vt/group/group_manager.cc
+++ b/src/vt/group/group_manager.cc
@@ -398,15 +398,23 @@ EventType GroupManager::sendGroupCollective(
       *deliver = true;
       return no_event;
     }
-  } else if (in_group && !group_ready) {
-    local_collective_group_info_.find(group)->second->readyAction(
-      [base,from,is_root]{
+  } else if (!group_ready) {
+    // The epoch of the message must not end before it is sent on
+    auto const epoch = envelopeGetEpoch(msg->env);
+    if (epoch != no_epoch) {
+      theTerm()->produce(epoch);
+    }
+    iter->second->readyAction(
+      [base,from,is_root,epoch]{
         // Do not capture deliver, it's a pointer to stack memory
         bool dummy;
         theGroup()->sendGroupCollective(base,from,is_root,&dummy);
+        if (epoch != no_epoch) {
+          theTerm()->consume(epoch);
+        }
       }
     );
-    *deliver = true;
+    *deliver = in_group;
     return no_event;
   } else {
     auto const& root_node = info.getRoot();
-- 
2.43.0


From 6650f8e8b9fe86030e75815c4cddc62fdd41a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 49/95] fix: groups: leave out the sender of a broadcast to a
 collective group if asked to

---
 src/vt/group/group_manager.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vt/group/group_manager.cc b/src/vt/group/group_manager.cc
index 397ae09..7141335 100644
--- a/src/vt/group/group_manager.cc
+++ b/src/vt/group/group_manager.cc
@@ -390,12 +390,12 @@ EventType GroupManager::sendGroupCollective(
       if (!first_send && this_node_dest) {
         *deliver = false;
       } else {
-        *deliver = true;
+        *deliver = not is_root or envelopeGetDeliverBcast(msg->env);
       }
 
       return event;
     } else {
-      *deliver = true;
+      *deliver = not is_root or envelopeGetDeliverBcast(msg->env);
       return no_event;
     }
   } else if (!group_ready) {
@@ -414,7 +414,7 @@ EventType GroupManager::sendGroupCollective(
         }
       }
     );
-    *deliver = in_group;
+    *deliver = in_group and (not is_root or envelopeGetDeliverBcast(msg->env));
     return no_event;
   } else {
     auto const& root_node = info.getRoot();
-- 
2.43.0


From d6eaeed9deafb7dfd9f353393a02b26ece652d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 50/95] fix: groups: run the setup action of an empty group
 once

---
 src/vt/group/collective/group_info_collective.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/group/collective/group_info_collective.cc b/src/vt/group/collective/group_info_collective.cc
index 487a9a7..331699f 100644
--- a/src/vt/group/collective/group_info_collective.cc
+++ b/src/vt/group/collective/group_info_collective.cc
@@ -665,8 +665,9 @@ void InfoColl::newTree(NodeType const& parent) {
   theCollective()->makeReducerGroup(group_, collective_->span_.get());
   collective_->reduce_ = theCollective()->getReducerGroup(group_);
 
+  // For a node outside of the group (an empty group's), finalize() has run it
   auto const& action = getAction();
-  if (action) {
+  if (action and is_in_group) {
     action();
   }
   runReadyActions();
-- 
2.43.0


From c4683394c8531effd609e12325b2d3c6d6849c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:18 +0000
Subject: [PATCH 51/95] fix: keep the reductions of user and system collective
 scopes apart

---
 src/vt/collective/collective_scope.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/collective/collective_scope.cc b/src/vt/collective/collective_scope.cc
index 16b6116..e07b06f 100644
--- a/src/vt/collective/collective_scope.cc
+++ b/src/vt/collective/collective_scope.cc
@@ -86,13 +86,15 @@ TagType CollectiveScope::mpiCollectiveAsync(ActionType action) {
   auto cb = theCB()->makeBcast<&CollectiveAlg::runCollective>();
   auto msg = makeMessage<CollectiveMsg>(is_user_tag_, scope_, tag, collective_root);
 
-  // The tag for the reduce is a combination of the scope and seq tag.
+  // The tag for the reduce is a combination of the scope and seq tag. User and
+  // system scopes are numbered independently, so the sign of the seq tag
+  // distinguishes the reductions of a user scope from those of a system scope.
   auto r = theCollective()->reducer();
 
   using collective::reduce::makeStamp;
   using collective::reduce::TagPair;
 
-  auto stamp = makeStamp<TagPair>(scope_, tag);
+  auto stamp = makeStamp<TagPair>(scope_, is_user_tag_ ? -tag : tag);
   r->reduce<collective::None>(collective_root, msg.get(), cb, stamp);
 
   return tag;
-- 
2.43.0


From 9b679d7780a0c2dc6981f35be9e6b3c9490d1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:18 +0000
Subject: [PATCH 52/95] fix: run the reduction of a collective scope outside
 the caller's epoch

---
 src/vt/collective/collective_scope.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vt/collective/collective_scope.cc b/src/vt/collective/collective_scope.cc
index e07b06f..50d6d20 100644
--- a/src/vt/collective/collective_scope.cc
+++ b/src/vt/collective/collective_scope.cc
@@ -95,7 +95,13 @@ TagType CollectiveScope::mpiCollectiveAsync(ActionType action) {
   using collective::reduce::TagPair;
 
   auto stamp = makeStamp<TagPair>(scope_, is_user_tag_ ? -tag : tag);
+
+  // The epoch is held open above until the operation runs on this node. Each
+  // node may have a different epoch active, so the messages that trigger the
+  // operation must not belong to any one of them.
+  theMsg()->pushEpoch(term::any_epoch_sentinel);
   r->reduce<collective::None>(collective_root, msg.get(), cb, stamp);
+  theMsg()->popEpoch(term::any_epoch_sentinel);
 
   return tag;
 }
-- 
2.43.0


From cfc7b209b75e0659b5572b4fc809aa336428d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:45 +0000
Subject: [PATCH 53/95] fix: time triggers: a zero period must not make a
 trigger due again at once

---
 src/vt/timetrigger/trigger.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/timetrigger/trigger.h b/src/vt/timetrigger/trigger.h
index bbb8882..bb4070c 100644
--- a/src/vt/timetrigger/trigger.h
+++ b/src/vt/timetrigger/trigger.h
@@ -85,8 +85,7 @@ struct Trigger {
    * \return the next time this should be triggered
    */
   TimeType nextTriggerTime() const {
-    return TimeType{
-      (last_trigger_time_.milliseconds() + period_.count()) / 1000.0};
+    return TimeType{last_trigger_time_.seconds() + period_.count() / 1000.0};
   }
 
   /**
-- 
2.43.0


From ef33001fdc48f045394989ed57ba3b46af85c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:30 +0000
Subject: [PATCH 54/95] fix: callbacks to a collection element can be sent more
 than once

---
 src/vt/pipe/callback/proxy_send/callback_proxy_send.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/pipe/callback/proxy_send/callback_proxy_send.h b/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
index cfb681a..a4fef18 100644
--- a/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
+++ b/src/vt/pipe/callback/proxy_send/callback_proxy_send.h
@@ -68,14 +68,16 @@ struct CallbackProxySend : CallbackBase<signal::Signal<MsgT>> {
 
   CallbackProxySend(
     HandlerType const in_handler, IndexedProxyType const& in_proxy
-  ) : proxy_(in_proxy.getCollectionProxy()),
+  ) : CallbackBase<signal::Signal<MsgT>>(CallbackPersistTag),
+      proxy_(in_proxy.getCollectionProxy()),
       idx_(in_proxy.getElementProxy().getIndex()), handler_(in_handler)
   { }
 
   CallbackProxySend(
     HandlerType const in_handler, ProxyType const& in_proxy,
     IndexType const& in_idx
-  ) : proxy_(in_proxy), idx_(in_idx), handler_(in_handler)
+  ) : CallbackBase<signal::Signal<MsgT>>(CallbackPersistTag),
+      proxy_(in_proxy), idx_(in_idx), handler_(in_handler)
   { }
 
   template <typename SerializerT>
-- 
2.43.0


From add5ba55a57aaa8fa6dddf1808c66be47ae44501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:01 +0000
Subject: [PATCH 55/95] fix: run locally routed messages in the epoch they were
 sent in

---
 src/vt/topos/location/location.impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index dbc9cb5..bc9d836 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -545,7 +545,7 @@ void EntityLocationCoord<EntityID>::routeMsgNode(
         );
 
         runnable::makeRunnable(msg, true, handler, from)
-          .withTDEpochFromMsg()
+          .withTDEpoch(epoch)
           .run();
       } else {
         auto reg_han_iter = local_registered_msg_han_.find(hid);
@@ -683,8 +683,9 @@ template <typename MessageT>
 void EntityLocationCoord<EntityID>::routeMsgHandlerLocal(
   MsgSharedPtr<MessageT> const& msg
 ) {
+  // The message might not carry its epoch yet, when it was not sent before
   runnable::makeRunnable(msg, true, msg->getHandler(), theContext()->getNode())
-    .withTDEpochFromMsg()
+    .withTDEpoch(theMsg()->getEpochContextMsg(msg))
     .run();
 }
 
-- 
2.43.0


From 5f7236fbce9a866d6bd0b6fc8b2da02bacd21bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:59 +0000
Subject: [PATCH 56/95] fix: ask the home again when it names this node for an
 entity that has left

---
 src/vt/topos/location/location.h      |  8 ++++++++
 src/vt/topos/location/location.impl.h | 21 +++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/vt/topos/location/location.h b/src/vt/topos/location/location.h
index 445dc5c..65d68fc 100644
--- a/src/vt/topos/location/location.h
+++ b/src/vt/topos/location/location.h
@@ -387,6 +387,14 @@ private:
     EntityID id, NodeType home_node, Callback<EntityID, NodeType, NodeType> cb
   );
 
+  /**
+   * \internal \brief Ask the home node for the location of an entity
+   *
+   * \param[in] id the entity ID
+   * \param[in] home_node home node for entity
+   */
+  void requestLocation(EntityID const& id, NodeType home_node);
+
   /**
    * \internal \brief Update the location on this node
    *
diff --git a/src/vt/topos/location/location.impl.h b/src/vt/topos/location/location.impl.h
index bc9d836..fab5a8c 100644
--- a/src/vt/topos/location/location.impl.h
+++ b/src/vt/topos/location/location.impl.h
@@ -371,6 +371,17 @@ void EntityLocationCoord<EntityID>::getLocationRequest(
   });
 }
 
+template <typename EntityID>
+void EntityLocationCoord<EntityID>::requestLocation(
+  EntityID const& id, NodeType home_node
+) {
+  auto const this_node = theContext()->getNode();
+  auto cb = theCB()->makeSend<&ThisType::updateLocation>(proxy_[this_node]);
+  proxy_[home_node].template send<&ThisType::getLocationRequest>(
+    MsgProps().asLocationMsg(), id, home_node, cb
+  );
+}
+
 template <typename EntityID>
 void EntityLocationCoord<EntityID>::updateLocation(
   EntityID const& id, NodeType answer, NodeType home_node
@@ -406,10 +417,7 @@ void EntityLocationCoord<EntityID>::getLocation(
 
     if (not rec_exists) {
       if (home_node != this_node) {
-        auto cb = theCB()->makeSend<&ThisType::updateLocation>(proxy_[this_node]);
-        proxy_[home_node].template send<&ThisType::getLocationRequest>(
-          MsgProps().asLocationMsg(), id, home_node, cb
-        );
+        requestLocation(id, home_node);
       }
 
       pending_lookups_[id].push_back(action);
@@ -762,6 +770,11 @@ void EntityLocationCoord<EntityID>::updatePendingRequest(
     // The answer might arrive before the entity itself does, in which case its
     // registration resolves what is pending, or after it has moved on
     if (not recs_.exists(id) or not recs_.get(id).isRemote()) {
+      // If it has moved on and its record was evicted from the cache, only the
+      // home will know where to, so ask again
+      if (pending_lookups_.find(id) != pending_lookups_.end()) {
+        requestLocation(id, home_node);
+      }
       return;
     }
     resolved = recs_.get(id).getRemoteNode();
-- 
2.43.0


From 4994f78f9559d9cc2837f60d75951d225aa153c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:19 +0000
Subject: [PATCH 57/95] fix: TemperedLB: accept knowledge=Complete or a fanout
 on a single rank

---
 src/vt/vrt/collection/balance/temperedlb/temperedlb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc b/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
index e6344dc..627c643 100644
--- a/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
+++ b/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
@@ -380,7 +380,7 @@ void TemperedLB::inputParams(balance::ConfigEntry* config) {
       // set the rounds based on the chosen fanout: k=log_f(p)
       f_ = config->getOrDefault<int32_t>("fanout", f_);
       k_max_ = static_cast<uint8_t>(
-        std::ceil(std::log(num_nodes)/std::log(f_))
+        std::max(1.0, std::ceil(std::log(num_nodes)/std::log(f_)))
       );
     } else if (specified_rounds) {
       // set the fanout based on the chosen rounds: f=p^(1/k)
@@ -394,7 +394,7 @@ void TemperedLB::inputParams(balance::ConfigEntry* config) {
       f_ = static_cast<uint16_t>(std::ceil(std::pow(num_nodes, 1.0/k_max_)));
     }
   } else if (knowledge_ == KnowledgeEnum::Complete) {
-    f_ = num_nodes - 1;
+    f_ = std::max(1, num_nodes - 1);
     k_max_ = 1;
   } else { // knowledge_ == KnowledgeEnum::UserDefined
     // if either of these was omitted, a default will be used, which probably
-- 
2.43.0


From b341199e5e27e125bcb62e34d645bb2ba75112d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:50 +0000
Subject: [PATCH 58/95] fix: give the bare handler its element id before
 handlers can run

---
 src/vt/messaging/active.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/active.cc b/src/vt/messaging/active.cc
index 7a85a6d..40c7890 100644
--- a/src/vt/messaging/active.cc
+++ b/src/vt/messaging/active.cc
@@ -148,12 +148,13 @@ ActiveMessenger::ActiveMessenger()
 
 void ActiveMessenger::initialize() {
   comm_ = theContext()->getComm();
-}
 
-void ActiveMessenger::startup() {
+  // Handlers may run (and send) before startup
   bare_handler_dummy_elm_id_for_lb_data_ =
     elm::ElmIDBits::createBareHandler(this_node_);
+}
 
+void ActiveMessenger::startup() {
 #if vt_check_enabled(lblite)
   // Hook to collect LB data about objgroups
   thePhase()->registerHookCollective(phase::PhaseHook::DataCollection, [this]{
-- 
2.43.0


From ff4dbe75a391ea11f646a9ff15b3c05a3b928168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 59/95] fix: LinearModel: predict from a single completed phase

---
 src/vt/vrt/collection/balance/model/linear_model.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/linear_model.cc b/src/vt/vrt/collection/balance/model/linear_model.cc
index 3ba99e6..3d617d2 100644
--- a/src/vt/vrt/collection/balance/model/linear_model.cc
+++ b/src/vt/vrt/collection/balance/model/linear_model.cc
@@ -68,6 +68,11 @@ LoadType LinearModel::getModeledLoad(ElementIDStruct object, PhaseOffset when) c
     y.emplace_back(ComposedModel::getModeledLoad(object, past_phase));
   }
 
+  // A single completed phase does not determine a line, only a level
+  if (phases == 1) {
+    return y.front();
+  }
+
   // should we re-create this every time?
   LinearRegression regression{x, y};
   return regression.predict(when.phases);
-- 
2.43.0


From 7fc29e62777f67837fce2ba77078696b29e51eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:06 +0000
Subject: [PATCH 60/95] fix: HierarchicalLB: give every rank an existing bottom
 parent when the number of ranks is odd

---
 src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
index a89ab18..d10358c 100644
--- a/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
+++ b/src/vt/vrt/collection/balance/hierarchicallb/hierlb.cc
@@ -196,10 +196,7 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
 
   if (children.size() == 0) {
     for (NodeType node = 0; node < hierlb_nary; node++) {
-      NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-      if (factor < num_nodes) {
-        factor += hierlb_nary;
-      }
+      NodeType const factor = num_nodes / hierlb_nary * hierlb_nary;
       NodeType const child = (this_node * hierlb_nary + node + 1) - factor - 1;
       if (child < num_nodes && child >= 0) {
         children.emplace(
@@ -220,10 +217,7 @@ void HierarchicalLB::setupTree(TimeType const threshold) {
 
   parent = (this_node - 1) / hierlb_nary;
 
-  NodeType factor = num_nodes / hierlb_nary * hierlb_nary;
-  if (factor < num_nodes) {
-    factor += hierlb_nary;
-  }
+  NodeType const factor = num_nodes / hierlb_nary * hierlb_nary;
 
   bottom_parent = ((this_node + 1 + factor) - 1) / hierlb_nary;
 
-- 
2.43.0


From 560d17ab15c9b4d74f94f792d76dea07b040f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:44 +0000
Subject: [PATCH 61/95] fix: RandomLB: do nothing on a rank without migratable
 objects

---
 src/vt/vrt/collection/balance/randomlb/randomlb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/vrt/collection/balance/randomlb/randomlb.cc b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
index 42032a7..672d9f4 100644
--- a/src/vt/vrt/collection/balance/randomlb/randomlb.cc
+++ b/src/vt/vrt/collection/balance/randomlb/randomlb.cc
@@ -126,6 +126,10 @@ void RandomLB::runLB(LoadType) {
     }
   }
 
+  if (objs.empty()) {
+    return;
+  }
+
   // we skip the first object to be certain we never end up with zero objects
   for (auto it = ++objs.begin(); it != objs.end(); ++it) {
     auto const to_node = dist(gen);
-- 
2.43.0


From 0e612190e81cce99034342d4cb6bf6fb427cdc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:55 +0000
Subject: [PATCH 62/95] fix: TemperedLB: choose among underloaded ranks without
 capacity left

---
 src/vt/vrt/collection/balance/temperedlb/temperedlb.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc b/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
index 627c643..c5fe6f9 100644
--- a/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
+++ b/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
@@ -52,6 +52,7 @@
 #include "vt/vrt/collection/balance/lb_args_enum_converter.h"
 #include "vt/context/context.h"
 
+#include <cmath>
 #include <cstdint>
 #include <random>
 #include <algorithm>
@@ -1797,6 +1798,14 @@ std::vector<double> TemperedLB::createCMF(NodeSetType const& under) {
     cmf.push_back(sum_p);
   }
 
+  if (sum_p == 0.0 or not std::isfinite(sum_p)) {
+    // none of them has any capacity left to weigh it by; treat them equally
+    for (std::size_t i = 0; i < cmf.size(); i++) {
+      cmf[i] = static_cast<double>(i + 1);
+    }
+    sum_p = static_cast<double>(cmf.size());
+  }
+
   // Normalize the CMF
   for (auto& elm : cmf) {
     elm /= sum_p;
-- 
2.43.0


From 815e965c9e9e513a72e47fb66687c16c6071ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:47 +0000
Subject: [PATCH 63/95] fix: TemperedLB: ordering=SmallObjects on a rank
 without migratable objects

---
 src/vt/vrt/collection/balance/temperedlb/temperedlb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc b/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
index c5fe6f9..168086f 100644
--- a/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
+++ b/src/vt/vrt/collection/balance/temperedlb/temperedlb.cc
@@ -1901,6 +1901,10 @@ std::vector<TemperedLB::ObjIDType> TemperedLB::orderObjects(
   // define the iteration order
   std::vector<ObjIDType> ordered_obj_ids(cur_objs.size());
 
+  if (cur_objs.empty()) {
+    return ordered_obj_ids;
+  }
+
   int i = 0;
   for (auto &obj : cur_objs) {
     ordered_obj_ids[i++] = obj.first;
-- 
2.43.0


From 051bc9b207348d01acb535aa243944a4feb14a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 64/95] fix: OfflineLB: a rank may have no migratable objects
 in a recorded phase

---
 src/vt/vrt/collection/balance/lb_data_restart_reader.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
index be21ad3..5572633 100644
--- a/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
+++ b/src/vt/vrt/collection/balance/lb_data_restart_reader.cc
@@ -103,11 +103,10 @@ void LBDataRestartReader::readHistory(LBDataHolder const& lbdh) {
     auto iter = lbdh.node_data_.find(phase);
     if (iter != lbdh.node_data_.end()) {
       last_found_phase = phase;
+      // This rank might not have any migratable objects in this phase
+      history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
       for (auto const& obj : iter->second) {
         if (obj.first.isMigratable()) {
-          if (history_[phase] == nullptr) {
-            history_[phase] = std::make_shared<std::set<ElementIDStruct>>();
-          }
           history_[phase]->insert(obj.first);
         }
       }
-- 
2.43.0


From 49cb9345bbeb228b7b2a9d2c070c61334c336e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:36 +0000
Subject: [PATCH 65/95] fix: going back to an earlier subphase drops the
 recorded later ones

---
 src/vt/elm/elm_lb_data.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/vt/elm/elm_lb_data.cc b/src/vt/elm/elm_lb_data.cc
index 4489e6b..14280f5 100644
--- a/src/vt/elm/elm_lb_data.cc
+++ b/src/vt/elm/elm_lb_data.cc
@@ -104,16 +104,22 @@ void ElementLBData::addReadOnlySharedID(
 
 void ElementLBData::sendComm(elm::CommKey key, double bytes) {
   phase_comm_[cur_phase_][key].sendMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].sendMsg(bytes);
+  auto& subphase_comm = subphase_comm_[cur_phase_];
+  if (subphase_comm.size() <= cur_subphase_) {
+    subphase_comm.resize(cur_subphase_ + 1);
+  }
+  subphase_comm.at(cur_subphase_)[key].sendMsg(bytes);
 }
 
 void ElementLBData::recvComm(
   elm::CommKey key, double bytes
 ) {
   phase_comm_[cur_phase_][key].receiveMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_comm_[cur_phase_].at(cur_subphase_)[key].receiveMsg(bytes);
+  auto& subphase_comm = subphase_comm_[cur_phase_];
+  if (subphase_comm.size() <= cur_subphase_) {
+    subphase_comm.resize(cur_subphase_ + 1);
+  }
+  subphase_comm.at(cur_subphase_)[key].receiveMsg(bytes);
 }
 
 void ElementLBData::recvObjData(
@@ -143,8 +149,12 @@ void ElementLBData::recvToNode(
 void ElementLBData::addTime(LoadType const timeLoad) {
   phase_timings_[cur_phase_] += timeLoad;
 
-  subphase_timings_[cur_phase_].resize(cur_subphase_ + 1);
-  subphase_timings_[cur_phase_].at(cur_subphase_) += timeLoad;
+  // A task may return to an earlier subphase: keep what is already recorded
+  auto& subphase_timings = subphase_timings_[cur_phase_];
+  if (subphase_timings.size() <= cur_subphase_) {
+    subphase_timings.resize(cur_subphase_ + 1);
+  }
+  subphase_timings.at(cur_subphase_) += timeLoad;
 
   vt_debug_print(
     verbose,lb,
-- 
2.43.0


From 6fec8cd5b36829bea32f11c77b62be4bbfbe43d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:22 +0000
Subject: [PATCH 66/95] fix: record messages with parameters sent to an object
 group for it, not for a bare handler

---
 src/vt/objgroup/manager.impl.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/vt/objgroup/manager.impl.h b/src/vt/objgroup/manager.impl.h
index 52f6fa6..6d8bcc3 100644
--- a/src/vt/objgroup/manager.impl.h
+++ b/src/vt/objgroup/manager.impl.h
@@ -172,16 +172,6 @@ ObjGroupManager::PendingSendType ObjGroupManager::send(ProxyElmType<ObjT> proxy,
   auto const ctrl = proxy::ObjGroupProxy::getID(proxy_bits);
   auto const han = auto_registry::makeAutoHandlerObjGroup<ObjT,MsgT,fn>(ctrl);
 
-  // set bit so it isn't recorded as it routes through bare
-  // handlers
-  envelopeSetCommLBDataRecordedAboveBareHandler(msg->env, true);
-
-  if (theContext()->getTask() != nullptr) {
-    auto dest_elm_id = elm::ElmIDBits::createObjGroup(proxy_bits, dest_node);
-    auto const num_bytes = serialization::MsgSizer<MsgT>::get(msg.get());
-    theContext()->getTask()->send(dest_elm_id, num_bytes);
-  }
-
   vt_debug_print(
     terse, objgroup,
     "ObjGroupManager::send: proxy={:x}, node={}, ctrl={:x}, han={:x}\n",
@@ -262,6 +252,18 @@ template <typename MsgT>
 ObjGroupManager::PendingSendType ObjGroupManager::send(
   MsgSharedPtr<MsgT> msg, HandlerType han, NodeType dest_node
 ) {
+  // set bit so it isn't recorded as it routes through bare
+  // handlers
+  envelopeSetCommLBDataRecordedAboveBareHandler(msg->env, true);
+
+  if (theContext()->getTask() != nullptr) {
+    auto const ctrl = HandlerManager::getHandlerControl(han);
+    auto const dest_proxy = proxy::ObjGroupProxy::create(ctrl, 0, true);
+    auto dest_elm_id = elm::ElmIDBits::createObjGroup(dest_proxy, dest_node);
+    auto const num_bytes = serialization::MsgSizer<MsgT>::get(msg.get());
+    theContext()->getTask()->send(dest_elm_id, num_bytes);
+  }
+
   return objgroup::send(msg,han,dest_node);
 }
 
-- 
2.43.0


From ee4fd3b270835b4be72e76b60e0c2a5cb8ec8792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 67/95] fix: work done outside of the scheduler is counted as
 load of the next task

---
 src/vt/scheduler/scheduler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/scheduler/scheduler.cc b/src/vt/scheduler/scheduler.cc
index 90ebca4..245c058 100644
--- a/src/vt/scheduler/scheduler.cc
+++ b/src/vt/scheduler/scheduler.cc
@@ -332,6 +332,10 @@ void Scheduler::runSchedulerWhile(std::function<bool()> cond) {
 
   SchedulerLoopGuard loopGuard{this};
 
+  // The time spent outside of the scheduler since the last task must not be
+  // counted as part of the next one
+  setRecentTimeToStale();
+
   // Ensure to immediately enter an idle state if such applies.
   // The scheduler call ends idle as picking up work.
   if (not is_idle and work_queue_.empty()) {
-- 
2.43.0


From c2efeff2ca9b1de18ba2727e79ce142a4107c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 68/95] fix: the identifier of a remote object group element
 names the wrong rank

---
 src/vt/elm/elm_id_bits.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vt/elm/elm_id_bits.cc b/src/vt/elm/elm_id_bits.cc
index 904c0a5..98a6ad0 100644
--- a/src/vt/elm/elm_id_bits.cc
+++ b/src/vt/elm/elm_id_bits.cc
@@ -70,8 +70,7 @@ namespace vt { namespace elm {
 ) {
   ElementIDType ret = 0;
   setObjGroup(ret, proxy, node);
-  auto const this_node = theContext()->getNode();
-  return ElementIDStruct{ret, this_node};
+  return ElementIDStruct{ret, node};
 }
 
 /*static*/ ElementIDStruct ElmIDBits::createBareHandler(NodeType node) {
-- 
2.43.0


From e4d1565a2c1cc98a16eecf54119959187f3da292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 69/95] fix: large serialized messages are recorded without
 their data, their handlers not at all

---
 src/vt/messaging/active.h                        |  4 ++--
 .../messaging/serialized_messenger.impl.h        | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index afa1133..f1957da 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -1710,8 +1710,9 @@ private:
    */
   void finishPendingDataMsgAsyncRecv(InProgressDataIRecv* irecv);
 
+public:
   /**
-   * @brief Record LB's data for sending a message
+   * \internal \brief Record LB's data for sending a message
    *
    * \param[in] dest the destination of the message
    * \param[in] base the message base pointer
@@ -1722,7 +1723,6 @@ private:
     MsgSizeType const msg_size
   );
 
-public:
   /**
    * \brief Get the rank-based LB data along with element ID for rank-based work
    *
diff --git a/src/vt/serialization/messaging/serialized_messenger.impl.h b/src/vt/serialization/messaging/serialized_messenger.impl.h
index 063d4af..f45571d 100644
--- a/src/vt/serialization/messaging/serialized_messenger.impl.h
+++ b/src/vt/serialization/messaging/serialized_messenger.impl.h
@@ -95,8 +95,10 @@ template <typename UserMsgT>
       user_msg.template to<BaseMsgType>(), handler, sys_msg->from_node, nullptr
     );
   } else {
+    auto const [elm_id, lb_data] = theMsg()->getRankLBData();
     runnable::makeRunnable(user_msg, true, handler, sys_msg->from_node)
       .withTDEpochFromMsg()
+      .withLBData(lb_data, *elm_id)
       .enqueue();
   }
 }
@@ -146,9 +148,11 @@ template <typename UserMsgT>
           msg.template to<BaseMsgType>(), handler, node, action
         );
       } else {
+        auto const [elm_id, lb_data] = theMsg()->getRankLBData();
         runnable::makeRunnable(msg, true, handler, node)
           .withTDEpoch(epoch, not is_valid_epoch)
           .withContinuation(action)
+          .withLBData(lb_data, *elm_id)
           .enqueue();
       }
 
@@ -195,8 +199,10 @@ template <typename UserMsgT, typename BaseEagerMsgT>
       user_msg.template to<BaseMsgType>(), handler, sys_msg->from_node, nullptr
     );
   } else {
+    auto const [elm_id, lb_data] = theMsg()->getRankLBData();
     runnable::makeRunnable(user_msg, true, handler, sys_msg->from_node)
       .withTDEpochFromMsg()
+      .withLBData(lb_data, *elm_id)
       .enqueue();
   }
 }
@@ -389,6 +395,13 @@ template <typename MsgT, typename BaseT>
 
     auto send_data = [=](NodeType dest) -> messaging::PendingSend {
       auto const& node = theContext()->getNode();
+
+      // The wrapper only has the metadata: record the message with its data,
+      // which is not sent at all to the current node
+      theMsg()->recordLBDataCommForSend(
+        dest, msg.template to<BaseMsgType>(), ptr_size
+      );
+
       if (node != dest) {
         auto sys_msg = makeMessage<SerialWrapperMsgType<MsgT>>();
         auto send_serialized = [=](Active::SendFnType send){
@@ -406,6 +419,7 @@ template <typename MsgT, typename BaseT>
         sys_msg->from_node = theContext()->getNode();
         // setup envelope
         envelopeInitCopy(sys_msg->env, msg->env);
+        envelopeSetCommLBDataRecordedAboveBareHandler(sys_msg->env, true);
 
         vt_debug_print(
           verbose, serial_msg,
@@ -440,8 +454,10 @@ template <typename MsgT, typename BaseT>
               user_msg.template to<BaseMsgType>(), typed_handler, node, nullptr
             );
           } else {
+            auto const [elm_id, lb_data] = theMsg()->getRankLBData();
             runnable::makeRunnable(user_msg, true, typed_handler, node)
               .withTDEpochFromMsg()
+              .withLBData(lb_data, *elm_id)
               .enqueue();
           }
         });
-- 
2.43.0


From b11551f64d0f80b7d480b9adf96edb6b0f2a903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:26 +0000
Subject: [PATCH 70/95] fix: the LB data of an object group made after the
 first phase is recorded in earlier phases

---
 src/vt/objgroup/manager.cc     | 3 ++-
 src/vt/objgroup/manager.h      | 2 ++
 src/vt/objgroup/manager.impl.h | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vt/objgroup/manager.cc b/src/vt/objgroup/manager.cc
index b8fce6f..fb908f3 100644
--- a/src/vt/objgroup/manager.cc
+++ b/src/vt/objgroup/manager.cc
@@ -59,7 +59,7 @@ namespace vt { namespace objgroup {
 void ObjGroupManager::startup() {
 #if vt_check_enabled(lblite)
   // Hook to collect LB data about objgroups
-  thePhase()->registerHookCollective(phase::PhaseHook::DataCollection, []{
+  thePhase()->registerHookCollective(phase::PhaseHook::DataCollection, [this]{
     auto& objs = theObjGroup()->objs_;
     for (auto&& obj : objs) {
       auto holder = obj.second.get();
@@ -71,6 +71,7 @@ void ObjGroupManager::startup() {
         theNodeLBData()->addNodeLBData(elm_id, &holder->getLBData(), nullptr);
       }
     }
+    cur_lb_phase_++;
   });
 #endif
 }
diff --git a/src/vt/objgroup/manager.h b/src/vt/objgroup/manager.h
index 447cf2b..d6a66df 100644
--- a/src/vt/objgroup/manager.h
+++ b/src/vt/objgroup/manager.h
@@ -493,6 +493,8 @@ private:
 private:
   /// The current obj ID, sequential on each node for collective construction
   ObjGroupIDType cur_obj_id_ = fst_obj_group_id;
+  /// The phase that LB data is being recorded for
+  PhaseType cur_lb_phase_ = fst_lb_phase;
   /// Type-erased pointers to the objects held on this node
   std::unordered_map<ObjGroupProxyType, HolderBasePtrType> objs_;
   /// Reverse lookup map from an object pointer to the proxy
diff --git a/src/vt/objgroup/manager.impl.h b/src/vt/objgroup/manager.impl.h
index 6d8bcc3..47bf07d 100644
--- a/src/vt/objgroup/manager.impl.h
+++ b/src/vt/objgroup/manager.impl.h
@@ -109,6 +109,7 @@ ObjGroupManager::makeCollectiveObj(std::string const& label, ObjT* obj, HolderBa
   vtAssert(iter != objs_.end(), "Obj must exist on this node");
   HolderBaseType* h = iter->second.get();
   h->setElmID(getNextElm(proxy));
+  h->getLBData().setPhase(cur_lb_phase_);
   vt_debug_print(
     terse, objgroup,
     "makeCollectiveObj: proxy={:x}\n",
-- 
2.43.0


From 0dda485e09a015bd6e32e03c3bdc685ca332c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:49 +0000
Subject: [PATCH 71/95] fix: elements restored from a file take the element ids
 and LB data of those that were saved

---
 src/vt/elm/elm_lb_data.h             | 2 ++
 src/vt/vrt/collection/manager.impl.h | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vt/elm/elm_lb_data.h b/src/vt/elm/elm_lb_data.h
index 5767532..2c33cc1 100644
--- a/src/vt/elm/elm_lb_data.h
+++ b/src/vt/elm/elm_lb_data.h
@@ -60,6 +60,8 @@ struct ElementLBData {
   ElementLBData() = default;
   ElementLBData(ElementLBData const&) = default;
   ElementLBData(ElementLBData&&) = default;
+  ElementLBData& operator=(ElementLBData const&) = default;
+  ElementLBData& operator=(ElementLBData&&) = default;
 
   void start(TimeType time);
   void stop(TimeType time);
diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 5438e16..3175487 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -67,6 +67,7 @@
 #include "vt/vrt/collection/holders/collection_context_holder.h"
 #include "vt/vrt/collection/collection_directory.h"
 #include "vt/vrt/collection/balance/node_lb_data.h"
+#include "vt/elm/elm_id_bits.h"
 #include "vt/vrt/proxy/collection_proxy.h"
 #include "vt/registry/auto/map/auto_registry_map.h"
 #include "vt/registry/auto/collection/auto_registry_collection.h"
@@ -2348,7 +2349,13 @@ CollectionManager::restoreFromFile(
     // @todo: error check the file read with bytes in directory
 
     auto col_ptr = checkpoint::deserializeFromFile<ColT>(file_name);
-    col_ptr->lb_data_.resetPhase();
+
+    // This is a new element: the one that was saved, or another one made in this
+    // run, may exist with the saved ID
+    col_ptr->elm_id_ = elm::ElmIDBits::createCollection(
+      col_ptr->elm_id_.isMigratable(), theContext()->getNode()
+    );
+    col_ptr->lb_data_ = balance::CollectionLBData{};
     elms.emplace_back(std::make_tuple(idx, std::move(col_ptr)));
   }
 
-- 
2.43.0


From 3dac4f158f3ee273d5da006159bb90ca359d4e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:49 +0000
Subject: [PATCH 72/95] fix: tell the home of an element where it is inserted
 by listInsertHere or restored

---
 src/vt/vrt/collection/collection_builder.impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/collection_builder.impl.h b/src/vt/vrt/collection/collection_builder.impl.h
index 3b2a10d..4a2d14b 100644
--- a/src/vt/vrt/collection/collection_builder.impl.h
+++ b/src/vt/vrt/collection/collection_builder.impl.h
@@ -212,7 +212,10 @@ void CollectionManager::makeCollectionImpl(param::ConstructParams<ColT>& po) {
   for (auto&& elm : po.list_insert_here_) {
     auto const idx = std::get<0>(elm);
     detail::ContainableElementFn<ColT> c{std::move(std::get<1>(elm))};
-    makeCollectionElement<ColT>(proxy, idx, this_node, std::move(c));
+    // The element may be inserted somewhere else than at its home, which must be
+    // told where to find it
+    auto const home_node = getElementMapping(map_han, map_object, idx, bounds);
+    makeCollectionElement<ColT>(proxy, idx, home_node, std::move(c));
   }
 
   if (not has_dynamic_membership) {
-- 
2.43.0


From 5df791a0c9693a7257e5f76ee5c4ba304729f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:35 +0000
Subject: [PATCH 73/95] fix: elements restored in place take the collection,
 element ids and phase of those that were saved

---
 src/vt/vrt/collection/manager.impl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/manager.impl.h b/src/vt/vrt/collection/manager.impl.h
index 3175487..f16be55 100644
--- a/src/vt/vrt/collection/manager.impl.h
+++ b/src/vt/vrt/collection/manager.impl.h
@@ -2305,8 +2305,15 @@ void CollectionManager::restoreFromFileInPlace(
     vtAssertExpr(elm_exists);
 
     auto ptr = elm_holder->lookup(idx).getRawPtr();
+
+    // The element keeps its identity and what was recorded for it in this run:
+    // it does not become part of the collection or phase in which it was saved
+    auto const elm_id = ptr->elm_id_;
+    auto lb_data = std::move(ptr->lb_data_);
     checkpoint::deserializeInPlaceFromFile<ColT>(file_name, static_cast<ColT*>(ptr));
-    ptr->lb_data_.resetPhase();
+    CollectionTypeAttorney::setup(ptr, idx, proxy_bits);
+    ptr->elm_id_ = elm_id;
+    ptr->lb_data_ = std::move(lb_data);
   }
 }
 
-- 
2.43.0


From b8d6cfb1ded3486ac36238a98e0b8874b236221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:30 +0000
Subject: [PATCH 74/95] fix: apply the lock of a get into the buffer of an RDMA
 handle

---
 src/vt/rdmahandle/handle.index.impl.h | 5 ++---
 src/vt/rdmahandle/handle.node.impl.h  | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vt/rdmahandle/handle.index.impl.h b/src/vt/rdmahandle/handle.index.impl.h
index 88d7ed8..dbda28d 100644
--- a/src/vt/rdmahandle/handle.index.impl.h
+++ b/src/vt/rdmahandle/handle.index.impl.h
@@ -141,10 +141,9 @@ template <typename T, HandleEnum E, typename I>
 void Handle<
   T,E,I,typename std::enable_if_t<not std::is_same<I,vt::NodeType>::value>
 >::get(
-  I const& index, std::size_t len, int offset, [[maybe_unused]] Lock l
+  I const& index, std::size_t len, int offset, Lock l
 ) {
-  auto proxy = vt::objgroup::proxy::Proxy<SubHandle<T,E,I>>(proxy_);
-  proxy.get()->rget(index, len, offset);
+  rget(index, len, offset, l);
 }
 
 template <typename T, HandleEnum E, typename I>
diff --git a/src/vt/rdmahandle/handle.node.impl.h b/src/vt/rdmahandle/handle.node.impl.h
index df5c380..7a74bc6 100644
--- a/src/vt/rdmahandle/handle.node.impl.h
+++ b/src/vt/rdmahandle/handle.node.impl.h
@@ -80,9 +80,9 @@ template <typename T, HandleEnum E, typename I>
 void Handle<
   T,E,I,typename std::enable_if_t<std::is_same<I,vt::NodeType>::value>
 >::get(
-  vt::NodeType node, std::size_t len, int offset, [[maybe_unused]] Lock l
+  vt::NodeType node, std::size_t len, int offset, Lock l
 ) {
-  rget(node, len, offset);
+  rget(node, len, offset, l);
 }
 
 template <typename T, HandleEnum E, typename I>
-- 
2.43.0


From 626420ff198df0cb3a5af0ebc00bc508fb228ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:59 +0000
Subject: [PATCH 75/95] fix: set the count of an RDMA handle before other nodes
 can read it

---
 src/vt/rdmahandle/holder.impl.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/vt/rdmahandle/holder.impl.h b/src/vt/rdmahandle/holder.impl.h
index 0df0b02..4377062 100644
--- a/src/vt/rdmahandle/holder.impl.h
+++ b/src/vt/rdmahandle/holder.impl.h
@@ -79,21 +79,17 @@ void Holder<T,E>::allocateDataWindow(std::size_t const in_len) {
   if (not uniform_size_) {
     // Allocate control window
     MPI_Alloc_mem(sizeof(uint64_t), MPI_INFO_NULL, &control_base_);
+    // Set the count before any other node can access the window
+    *control_base_ = count_;
+    vt_debug_print(
+      verbose, rdma,
+      "setting allocate size: size={}, window={}\n",
+      count_, print_ptr(&control_window_)
+    );
     MPI_Win_create(
       control_base_, sizeof(uint64_t), sizeof(uint64_t), MPI_INFO_NULL, comm,
       &control_window_
     );
-    {
-      auto this_node = theContext()->getNode();
-      LockMPI _scope_lock(Lock::Exclusive, this_node, control_window_, false);
-      auto mpi_type = TypeMPI<uint64_t>::getType();
-      MPI_Put(&count_, 1, mpi_type, this_node, 0, 1, mpi_type, control_window_);
-      vt_debug_print(
-        verbose, rdma,
-        "setting allocate size: size={}, window={}\n",
-        count_, print_ptr(&control_window_)
-      );
-    }
   }
   ready_ = true;
 }
-- 
2.43.0


From 5f79fb81b3b81c01e85198993f4df94a17c75fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:59 +0000
Subject: [PATCH 76/95] fix: complete fetchOp under a held lock before it
 returns the value

---
 src/vt/rdmahandle/holder.impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/rdmahandle/holder.impl.h b/src/vt/rdmahandle/holder.impl.h
index 4377062..4d35fb1 100644
--- a/src/vt/rdmahandle/holder.impl.h
+++ b/src/vt/rdmahandle/holder.impl.h
@@ -228,6 +228,10 @@ T Holder<T,E>::fetchOp(vt::NodeType node, Lock l, T in, int offset, MPI_Op op) {
     );
     VT_ALLOW_MPI_CALLS;
     MPI_Fetch_and_op(&in, &out, mpi_type, node, offset, op, data_window_);
+    if (l == Lock::None) {
+      // The lock is held by the caller: complete the operation before returning
+      MPI_Win_flush_local(node, data_window_);
+    }
   }
   return out;
 }
-- 
2.43.0


From 22a97d656264c87b7b2c92e352a07401a0158fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:31 +0000
Subject: [PATCH 77/95] fix: return an RDMA handle set only once its locations
 are known on all nodes

---
 src/vt/rdmahandle/manager.impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vt/rdmahandle/manager.impl.h b/src/vt/rdmahandle/manager.impl.h
index c52d83e..2b291d4 100644
--- a/src/vt/rdmahandle/manager.impl.h
+++ b/src/vt/rdmahandle/manager.impl.h
@@ -170,6 +170,8 @@ HandleSet<T> Manager::makeHandleSetCollectiveObjGroup(
     set.addHandle(idx, proxy.get()->addLocalIndex(idx, elm.second));
   }
   proxy.get()->makeSubHandles();
+  // The locations must be known on every node before any node looks them up
+  theCollective()->barrier();
   set.finishedInserts();
   return set;
 }
-- 
2.43.0


From 8436f3ee10bc0310ce905647ae604d13244a9a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:31 +0000
Subject: [PATCH 78/95] fix: local access through an RDMA handle of an index
 covers the data of that index only

---
 src/vt/rdmahandle/sub_handle.impl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index 057174e..d4cc6f1 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -416,7 +416,11 @@ void SubHandle<T,E,IndexT>::access(
   auto iter = sub_handles_.find(idx);
   vtAssert(iter != sub_handles_.end(), "Index must be local here");
   auto local_offset  = iter->second.offset_;
-  data_handle_.access(l, fn, offset + local_offset);
+  auto local_count = iter->second.count_ - offset;
+  // The index only has its own part of the data of this node
+  data_handle_.access(
+    l, [&](T* t, std::size_t) { fn(t, local_count); }, offset + local_offset
+  );
 }
 
 template <typename T, HandleEnum E, typename IndexT>
-- 
2.43.0


From 9cc1739e9e5dba118c36a620841ce23aadd1d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:04 +0000
Subject: [PATCH 79/95] fix: destroyed RDMA handles of collections no longer
 follow phases and migrations

---
 src/vt/rdmahandle/manager.collection.impl.h | 18 ++++++++++++++----
 src/vt/rdmahandle/sub_handle.h              |  4 ++++
 src/vt/rdmahandle/sub_handle.impl.h         | 11 +++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/vt/rdmahandle/manager.collection.impl.h b/src/vt/rdmahandle/manager.collection.impl.h
index 22d78da..8a033f9 100644
--- a/src/vt/rdmahandle/manager.collection.impl.h
+++ b/src/vt/rdmahandle/manager.collection.impl.h
@@ -113,7 +113,8 @@ Handle<T, E, IndexT> Manager::makeCollectionHandles(
         sub_proxy.get()->migratedInIndex(lidx);
       }
     };
-    theCollection()->template registerElementListener<ColT>(proxy_bits, fn);
+    auto const listener =
+      theCollection()->template registerElementListener<ColT>(proxy_bits, fn);
 
     // Count the number of local handles that should exist here. We can't use the
     // cached value in the collection manager since this might be invoked in the
@@ -137,11 +138,20 @@ Handle<T, E, IndexT> Manager::makeCollectionHandles(
       verbose, rdma,
       "CollectionHandle: registering LB listener\n"
     );
-    thePhase()->registerHookCollective(phase::PhaseHook::EndPostMigration, [=]{
-      sub_proxy.get()->afterLB();
-    });
+    auto const hook = thePhase()->registerHookCollective(
+      phase::PhaseHook::EndPostMigration, [=]{ sub_proxy.get()->afterLB(); }
+    );
 #   endif
 
+    sub_proxy.get()->setStopTracking([=]{
+#     if vt_check_enabled(lblite)
+      thePhase()->unregisterHook(hook);
+#     endif
+      theCollection()->template unregisterElementListener<ColT>(
+        proxy_bits, listener
+      );
+    });
+
     // Set the number of expected handles for next time we run through this code
     sub_proxy.get()->setCollectionExpected(local_count);
 
diff --git a/src/vt/rdmahandle/sub_handle.h b/src/vt/rdmahandle/sub_handle.h
index 2e7d2f4..aced6be 100644
--- a/src/vt/rdmahandle/sub_handle.h
+++ b/src/vt/rdmahandle/sub_handle.h
@@ -51,6 +51,7 @@
 #include "vt/topos/mapping/mapping_headers.h"
 #include "vt/topos/mapping/dense/dense.h"
 
+#include <functional>
 #include <unordered_map>
 
 namespace vt { namespace rdma {
@@ -158,6 +159,8 @@ public:
 
   void setCollectionExpected(std::size_t count);
 
+  void setStopTracking(std::function<void()> in_stop_tracking);
+
   void destroy();
 
   static void destroyCollective(ProxyType proxy);
@@ -198,6 +201,7 @@ protected:
   std::unordered_map<IndexT, int> ordered_local_offset_;
   bool dense_start_with_zero_ = true;
   std::size_t deleted_count_ = 0;
+  std::function<void()> stop_tracking_ = nullptr;
 };
 
 }} /* end namespace vt::rdma */
diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index d4cc6f1..f95b3ca 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -522,8 +522,19 @@ void SubHandle<T,E,IndexT>::waitForHandleReady(Handle<U,E> const& h) {
   theSched()->runSchedulerWhile([&h] { return not h.ready(); });
 }
 
+template <typename T, HandleEnum E, typename IndexT>
+void SubHandle<T,E,IndexT>::setStopTracking(
+  std::function<void()> in_stop_tracking
+) {
+  stop_tracking_ = in_stop_tracking;
+}
+
 template <typename T, HandleEnum E, typename IndexT>
 void SubHandle<T,E,IndexT>::destroy() {
+  // Migrations and phases no longer concern this handle
+  if (stop_tracking_ != nullptr) {
+    stop_tracking_();
+  }
   proxy_.destroyHandleRDMA(data_handle_);
   proxy_.destroyHandleRDMA(loc_handle_);
 }
-- 
2.43.0


From b4dfaa1648eb542d7c5ea0aa8f7d5edf858ebf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:12 +0000
Subject: [PATCH 80/95] fix: an RDMA handle stays with an element that migrates
 away and back between phases

---
 src/vt/rdmahandle/sub_handle.impl.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index f95b3ca..8ebf417 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -626,11 +626,12 @@ void SubHandle<T,E,IndexT>::checkChanged(impl::ReduceLBMsg* msg) {
     );
 
     std::vector<IndexT> all_handles;
-    // Union current with migrated in
-    std::set_union(
-      cur_handles.begin(), cur_handles.end(),
-      migrate_in_.begin(), migrate_in_.end(),
-      std::back_inserter(all_handles)
+    // Add migrated in to current: an index that came back (or that passes
+    // through) occurs as often as it was here, and is removed below as often as
+    // it migrated out
+    all_handles = cur_handles;
+    all_handles.insert(
+      all_handles.end(), migrate_in_.begin(), migrate_in_.end()
     );
 
     vt_debug_print(
-- 
2.43.0


From df768badb7c22fc9836941d42af76fe4ce9fc186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:57 +0000
Subject: [PATCH 81/95] fix: destroy RDMA handles of a collection on nodes
 without elements too

---
 src/vt/rdmahandle/manager.h         | 18 ++++++++++++++++++
 src/vt/rdmahandle/manager.impl.h    | 26 +++++++++++++++++++++-----
 src/vt/rdmahandle/sub_handle.h      |  3 +++
 src/vt/rdmahandle/sub_handle.impl.h |  6 ++++++
 4 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/vt/rdmahandle/manager.h b/src/vt/rdmahandle/manager.h
index 8feba1d..282e097 100644
--- a/src/vt/rdmahandle/manager.h
+++ b/src/vt/rdmahandle/manager.h
@@ -122,6 +122,24 @@ private:
     impl::InformRDMAMsg<ProxyT, typename ColT::IndexType>* msg
   );
 
+  /**
+   * \internal \brief Inform the root that all handles of a collection mapped to
+   * some node are deleted
+   *
+   * \param[in] sub_proxy the proxy of the sub-handle managers
+   * \param[in] num the number of handles that were mapped to the node
+   */
+  template <typename T, HandleEnum E, typename IndexT>
+  void deletedHandles(ObjGroupProxyType sub_proxy, std::size_t num);
+
+  /**
+   * \internal \brief Destroy the sub-handle managers on all nodes
+   *
+   * \param[in] sub_proxy the proxy of the sub-handle managers
+   */
+  template <typename T, HandleEnum E, typename IndexT>
+  void destroyHandles(ObjGroupProxyType sub_proxy);
+
 public:
   /**
    * \brief Construct a new, distributed RDMA handle for an objgroup
diff --git a/src/vt/rdmahandle/manager.impl.h b/src/vt/rdmahandle/manager.impl.h
index 2b291d4..7bfa88a 100644
--- a/src/vt/rdmahandle/manager.impl.h
+++ b/src/vt/rdmahandle/manager.impl.h
@@ -209,18 +209,34 @@ void Manager::deleteHandleCollection(Handle<T,E,IndexT>& han) {
     proxy.get()->getNumDeletedHandles(),
     proxy.get()->getNumActiveHandles()
   );
-  // If all of the handles mapped here are deleted, destroy the sub-handle
-  // manager
+  // If all of the handles mapped here are deleted, tell the root. Not all nodes
+  // might have a handle mapped to them but destruction is collective
   if (proxy.get()->getNumDeletedHandles() == proxy.get()->getNumActiveHandles()) {
+    proxy_[0].template send<&Manager::deletedHandles<T,E,IndexT>>(
+      han.proxy_, proxy.get()->getNumDeletedHandles()
+    );
+  }
+}
+
+template <typename T, HandleEnum E, typename IndexT>
+void Manager::deletedHandles(ObjGroupProxyType sub_proxy, std::size_t num) {
+  auto proxy = objgroup::proxy::Proxy<SubHandle<T,E,IndexT>>{sub_proxy};
+  // When all of the handles are deleted, destroy the sub-handle managers
+  if (proxy.get()->deletedHandles(num)) {
     vt_debug_print(
       normal, rdma,
-      "deleteHandleCollection: deleting handle collection: num={}\n",
-      proxy.get()->getNumDeletedHandles()
+      "deletedHandles: deleting handle collection: proxy={:x}\n", sub_proxy
     );
-    SubType::destroyCollective(proxy);
+    proxy_.template broadcast<&Manager::destroyHandles<T,E,IndexT>>(sub_proxy);
   }
 }
 
+template <typename T, HandleEnum E, typename IndexT>
+void Manager::destroyHandles(ObjGroupProxyType sub_proxy) {
+  using SubType = SubHandle<T,E,IndexT>;
+  SubType::destroyCollective(objgroup::proxy::Proxy<SubType>{sub_proxy});
+}
+
 // For now, this is static. Really it should be part of the objgroup and the
 // proxy should be available through the VT component
 template <typename T, HandleEnum E>
diff --git a/src/vt/rdmahandle/sub_handle.h b/src/vt/rdmahandle/sub_handle.h
index aced6be..f1a907f 100644
--- a/src/vt/rdmahandle/sub_handle.h
+++ b/src/vt/rdmahandle/sub_handle.h
@@ -155,6 +155,8 @@ public:
 
   std::size_t getNumDeletedHandles() const;
 
+  bool deletedHandles(std::size_t num);
+
   std::size_t getCollectionExpected() const;
 
   void setCollectionExpected(std::size_t count);
@@ -201,6 +203,7 @@ protected:
   std::unordered_map<IndexT, int> ordered_local_offset_;
   bool dense_start_with_zero_ = true;
   std::size_t deleted_count_ = 0;
+  std::size_t global_deleted_count_ = 0;
   std::function<void()> stop_tracking_ = nullptr;
 };
 
diff --git a/src/vt/rdmahandle/sub_handle.impl.h b/src/vt/rdmahandle/sub_handle.impl.h
index 8ebf417..54519fc 100644
--- a/src/vt/rdmahandle/sub_handle.impl.h
+++ b/src/vt/rdmahandle/sub_handle.impl.h
@@ -491,6 +491,12 @@ std::size_t SubHandle<T,E,IndexT>::getNumDeletedHandles() const {
   return deleted_count_;
 }
 
+template <typename T, HandleEnum E, typename IndexT>
+bool SubHandle<T,E,IndexT>::deletedHandles(std::size_t num) {
+  global_deleted_count_ += num;
+  return global_deleted_count_ == static_cast<std::size_t>(range_.getSize());
+}
+
 template <typename T, HandleEnum E, typename IndexT>
 template <mapping::ActiveMapTypedFnType<IndexT> map_fn>
 /*static*/ typename SubHandle<T,E,IndexT>::ProxyType
-- 
2.43.0


From 256733aaabf0547e0bacc185895d3901826e8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:30 +0000
Subject: [PATCH 82/95] fix: ProposedReassignment loses subphase loads of
 arriving objects

The number of subphases came from the base model, which only knows objects
recorded on this node. An object arriving on a node without subphases of its
own and departing from there again (as when replayed workloads are relocated
through their home) lost its subphase loads.
---
 .../balance/model/proposed_reassignment.cc        | 15 +++++++++++++++
 .../balance/model/proposed_reassignment.h         |  1 +
 2 files changed, 16 insertions(+)

diff --git a/src/vt/vrt/collection/balance/model/proposed_reassignment.cc b/src/vt/vrt/collection/balance/model/proposed_reassignment.cc
index 4122899..1cc622b 100644
--- a/src/vt/vrt/collection/balance/model/proposed_reassignment.cc
+++ b/src/vt/vrt/collection/balance/model/proposed_reassignment.cc
@@ -42,6 +42,8 @@
 */
 
 #include "vt/vrt/collection/balance/model/proposed_reassignment.h"
+
+#include <algorithm>
 #include "vt/context/context.h"
 
 namespace vt { namespace vrt { namespace collection { namespace balance {
@@ -93,6 +95,19 @@ int ProposedReassignment::getNumObjects() const
   return base - departing + arriving;
 }
 
+int ProposedReassignment::getNumSubphases() const
+{
+  // The base model only knows the objects recorded on this node; the ones
+  // arriving bring their own subphases
+  std::size_t subphases = ComposedModel::getNumSubphases();
+  for (auto&& arriving : reassignment_->arrive_) {
+    subphases = std::max(
+      subphases, std::get<0>(arriving.second).subphase_loads.size()
+    );
+  }
+  return static_cast<int>(subphases);
+}
+
 LoadType
 ProposedReassignment::getModeledLoad(ElementIDStruct object, PhaseOffset when) const {
   auto a = reassignment_->arrive_.find(object);
diff --git a/src/vt/vrt/collection/balance/model/proposed_reassignment.h b/src/vt/vrt/collection/balance/model/proposed_reassignment.h
index 99a3d23..3baef31 100644
--- a/src/vt/vrt/collection/balance/model/proposed_reassignment.h
+++ b/src/vt/vrt/collection/balance/model/proposed_reassignment.h
@@ -57,6 +57,7 @@ struct ProposedReassignment : public ComposedModel {
 
   ObjectIterator begin() const override;
   int getNumObjects() const override;
+  int getNumSubphases() const override;
   LoadType getModeledLoad(ElementIDStruct object, PhaseOffset when) const override;
   LoadType getRawLoad(ElementIDStruct object, PhaseOffset when) const override;
   ElmUserDataType getUserData(ElementIDStruct object, PhaseOffset when) const override;
-- 
2.43.0


From 9920d0ae95e438be9c6f7c5525e3bdca66af26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:30 +0000
Subject: [PATCH 83/95] fix: workload replay takes the initial placement from
 the wrong phase

With phase_mod, the first phase is simulated with the inputs of phase
initial_phase % phase_mod, but the objects were taken to be where they were
recorded in initial_phase, which need not be recorded at all.
---
 src/vt/vrt/collection/balance/workload_replay.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/collection/balance/workload_replay.cc b/src/vt/vrt/collection/balance/workload_replay.cc
index 975e3ae..959e617 100644
--- a/src/vt/vrt/collection/balance/workload_replay.cc
+++ b/src/vt/vrt/collection/balance/workload_replay.cc
@@ -87,8 +87,10 @@ void replayWorkloads(
     &(workloads->user_defined_lb_info_)
   );
   // point the load model at the workloads for the relevant phase
+  PhaseType const initial_input_phase =
+    phase_mod == 0 ? initial_phase : initial_phase % phase_mod;
   runInEpochCollective("WorkloadReplayDriver -> updateLoads", [=] {
-    base_load_model->updateLoads(initial_phase);
+    base_load_model->updateLoads(initial_input_phase);
   });
 
   // allow remembering what objects are here after the load balancer migrates
-- 
2.43.0


From 8c028d1c9f50aa8716d1467968647277de3f17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:28 +0000
Subject: [PATCH 84/95] fix: RawData fails on a node without objects in the
 phase

getNumObjects() and begin() allow for a phase without records on this node,
getNumSubphases() threw, as when objects recorded elsewhere are relocated.
---
 src/vt/vrt/collection/balance/model/raw_data.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vt/vrt/collection/balance/model/raw_data.cc b/src/vt/vrt/collection/balance/model/raw_data.cc
index d66eb94..0957be5 100644
--- a/src/vt/vrt/collection/balance/model/raw_data.cc
+++ b/src/vt/vrt/collection/balance/model/raw_data.cc
@@ -83,12 +83,16 @@ unsigned int RawData::getNumCompletedPhases() const {
 }
 
 int RawData::getNumSubphases() const {
-  const auto& last_phase = proc_load_->at(last_completed_phase_);
+  auto const iter = proc_load_->find(last_completed_phase_);
+  if (iter == proc_load_->end()) {
+    // No object was recorded here in that phase
+    return 0;
+  }
 
   // @todo: this workaround is O(#objects) and should be removed when we finish
   // the new subphase API
   int subphases = 0;
-  for (auto &obj : last_phase) {
+  for (auto &obj : iter->second) {
     if (obj.second.subphase_loads.size() > static_cast<size_t>(subphases)) {
       subphases = obj.second.subphase_loads.size();
     }
-- 
2.43.0


From 87d963a19f2b891990e3ce494aae66f8202e45c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:24 +0000
Subject: [PATCH 85/95] fix: messages to virtual contexts carry their epoch

The envelope of a message sent with sendMsg or sendSerialMsg to a virtual
context did not name the current epoch, so a handler that runs locally, or one
that gets a serialized message, ran outside of it. A large serialized message
waiting for its context to be constructed did not keep the epoch alive.
---
 src/vt/vrt/context/context_vrtmanager.impl.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vt/vrt/context/context_vrtmanager.impl.h b/src/vt/vrt/context/context_vrtmanager.impl.h
index 07bff6c..467a71c 100644
--- a/src/vt/vrt/context/context_vrtmanager.impl.h
+++ b/src/vt/vrt/context/context_vrtmanager.impl.h
@@ -145,6 +145,9 @@ messaging::PendingSend VirtualContextManager::sendSerialMsg(
   msg->setVrtHandler(han);
   msg->setProxy(toProxy);
 
+  // the message is serialized below, with the epoch its handler runs in
+  auto const cur_epoch = theMsg()->setupEpochMsg(msg);
+
   vt_debug_print(
     normal, vrt,
     "sending serialized msg to VC: msg={}, han={}, home_node={}, toProxy={}\n",
@@ -172,7 +175,14 @@ messaging::PendingSend VirtualContextManager::sendSerialMsg(
         },
         // custom data transfer lambda if above the eager threshold
         [=](ActionNodeSendType action) -> messaging::PendingSend {
-          auto captured_action = [=](NodeType node){ action(node); };
+          // the location might not be known before the epoch would end
+          theTerm()->produce(cur_epoch);
+          auto captured_action = [=](NodeType node){
+            theMsg()->pushEpoch(cur_epoch);
+            action(node);
+            theMsg()->popEpoch(cur_epoch);
+            theTerm()->consume(cur_epoch);
+          };
           theLocMan()->vrtContextLoc->routeNonEagerAction(
             toProxy, home_node, captured_action
           );
@@ -268,6 +278,9 @@ messaging::PendingSend VirtualContextManager::sendMsg(
   msg->setVrtHandler(han);
   msg->setProxy(toProxy);
 
+  // the handler runs in the epoch of the message, wherever that is
+  theMsg()->setupEpochMsg(msg);
+
   vt_debug_print(
     normal, vrt,
     "sending msg to VC: msg={}, han={}, home_node={}\n",
-- 
2.43.0


From 14dcde3d81b548a4e45fc22831fbc99a62378684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:24 +0000
Subject: [PATCH 86/95] fix: look for the id of a remotely made context among
 remote ones

---
 src/vt/vrt/context/context_vrtmanager.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vt/vrt/context/context_vrtmanager.cc b/src/vt/vrt/context/context_vrtmanager.cc
index e852c0b..0d66745 100644
--- a/src/vt/vrt/context/context_vrtmanager.cc
+++ b/src/vt/vrt/context/context_vrtmanager.cc
@@ -64,8 +64,9 @@ void VirtualContextManager::insertVirtualContext(
   auto const& is_remote = VirtualProxyBuilder::isRemote(proxy);
   auto const& id = VirtualProxyBuilder::getVirtualID(proxy);
 
-  auto holder_iter = holder_.find(id);
-  vtAssert(holder_iter == holder_.end(), "Holder must not contain id");
+  // contexts made remotely have ids of their own
+  auto& holder = is_remote ? remote_holder_ : holder_;
+  vtAssert(holder.find(id) == holder.end(), "Holder must not contain id");
 
   bool const is_constructed = new_vc != nullptr;
 
@@ -81,8 +82,6 @@ void VirtualContextManager::insertVirtualContext(
     is_constructed ? print_ptr(new_vc.get()) : nullptr
   );
 
-  auto& holder = is_remote ? remote_holder_ : holder_;
-
   auto info = std::make_unique<VirtualInfoType>(
     is_constructed ? std::move(new_vc) : nullptr, proxy, !is_constructed
   );
-- 
2.43.0


From df0d525cf5f5df95521e6964ada813bc056a97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:22 +0000
Subject: [PATCH 87/95] fix: do not use a freed message when a remotely awaited
 event finishes

---
 src/vt/event/event.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vt/event/event.cc b/src/vt/event/event.cc
index f7d32c3..fb81cc9 100644
--- a/src/vt/event/event.cc
+++ b/src/vt/event/event.cc
@@ -150,18 +150,21 @@ EventType AsyncEvent::attachAction(EventType const& event, ActionType callable)
 }
 
 /*static*/ void AsyncEvent::checkEventFinished(EventCheckFinishedMsg* msg) {
-  auto const& event = msg->event_;
+  auto const event = msg->event_;
+  auto const event_back = msg->event_back_;
+  auto const sent_from_node = msg->sent_from_node_;
   auto const& node = theEvent()->getOwningNode(event);
 
   vtAssert(
     node == theContext()->getNode(), "Node must be identical"
   );
 
-  auto send_back_fun = [=]{
-    auto send_back = theEvent()->getOwningNode(msg->event_back_);
-    vtAssertExpr(send_back == msg->sent_from_node_);
+  // be careful here not to use "msg", it might no longer be valid when this runs
+  auto send_back_fun = [event, event_back, sent_from_node]{
+    auto send_back = theEvent()->getOwningNode(event_back);
+    vtAssertExpr(send_back == sent_from_node);
 
-    auto msg_send = makeMessage<EventFinishedMsg>(event, msg->event_back_);
+    auto msg_send = makeMessage<EventFinishedMsg>(event, event_back);
     theMsg()->sendMsg<eventFinished>(
       send_back, msg_send
     );
@@ -174,7 +177,7 @@ EventType AsyncEvent::attachAction(EventType const& event, ActionType callable)
     "checkEventFinishedHan:: event={}, node={}, "
     "this_node={}, complete={}, sent_from_node={}\n",
     event, node, theContext()->getNode(), static_cast<int>(is_complete),
-    msg->sent_from_node_
+    sent_from_node
   );
 
   if (is_complete == AsyncEvent::EventStateType::EventReady) {
-- 
2.43.0


From 93a8e3f585c35d38bd5f0f7e39c33e90cfde5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:22 +0000
Subject: [PATCH 88/95] fix: take a completed request out of its holder before
 acting on it

The action might register another request, which moves the holder's elements,
or run the scheduler, which would act on the same request again.
---
 src/vt/messaging/request_holder.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vt/messaging/request_holder.h b/src/vt/messaging/request_holder.h
index 1948bbe..7afa874 100644
--- a/src/vt/messaging/request_holder.h
+++ b/src/vt/messaging/request_holder.h
@@ -117,15 +117,18 @@ struct RequestHolder {
         continue;
       }
 
-      c(&e);
-      progress_made = true;
-      e.valid = false;
+      // Take it out first: the callable might insert elements or test again
+      T finished = std::move(e);
 
       if (i < holder_.size() - 1) {
         holder_[i] = std::move(holder_.back());
       }
 
       holder_.pop_back();
+
+      c(&finished);
+      progress_made = true;
+      finished.valid = false;
     }
 
 #   if vt_check_enabled(trace_enabled)
-- 
2.43.0


From b8295f178871a28a05a8e45b83b19899ab80289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:41 +0000
Subject: [PATCH 89/95] fix: run the actions of an event after it is taken out
 of its container

An action that ran the scheduler had the same event tested and its actions run
again, and one that attached to its own event changed the list being run.
---
 src/vt/event/event.cc        | 13 +++++++++----
 src/vt/event/event_holder.cc |  9 ++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/vt/event/event.cc b/src/vt/event/event.cc
index fb81cc9..6b92510 100644
--- a/src/vt/event/event.cc
+++ b/src/vt/event/event.cc
@@ -320,9 +320,10 @@ void AsyncEvent::testEventsTrigger(int const& num_events) {
     eventSizeGauge.update(cont.size());
   }
 
+  TypedEventContainerType finished;
+
   for (auto iter = cont.begin(); iter != cont.end(); ) {
-    auto& holder = *iter;
-    auto event = holder.get_event();
+    auto event = iter->get_event();
     auto id = event->getEventID();
 
     eventPollCount.increment(1);
@@ -335,9 +336,9 @@ void AsyncEvent::testEventsTrigger(int const& num_events) {
       );
 #     endif
 
-      holder.executeActions();
-      iter = polling_event_container_.erase(iter);
+      // Its actions run below: they might create events or test them again
       lookup_container_.erase(id);
+      finished.splice(finished.end(), cont, iter++);
 
 #     if vt_check_enabled(trace_enabled)
       if (theConfig()->vt_trace_event_polling) {
@@ -355,6 +356,10 @@ void AsyncEvent::testEventsTrigger(int const& num_events) {
     }
   }
 
+  for (auto& holder : finished) {
+    holder.executeActions();
+  }
+
 # if vt_check_enabled(trace_enabled)
   if (theConfig()->vt_trace_event_polling) {
     if (num_completed > 0) {
diff --git a/src/vt/event/event_holder.cc b/src/vt/event/event_holder.cc
index dfcf980..5a57099 100644
--- a/src/vt/event/event_holder.cc
+++ b/src/vt/event/event_holder.cc
@@ -58,8 +58,15 @@ void EventHolder::attachAction(ActionType action) {
 void EventHolder::makeReadyTrigger() {
   //fmt::print("make_ready_trigger\n");
   event_->setReady();
-  executeActions();
+
+  // Removing the event destroys this holder. The actions run after that, as
+  // they might look at the event or attach to it.
+  auto actions = std::move(actions_);
   theEvent()->removeEventID(event_->getEventID());
+
+  for (auto&& action : actions) {
+    action();
+  }
 }
 
 void EventHolder::executeActions() {
-- 
2.43.0


From 6161d27de13d34167a53013a9ea12ec61fa8a0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:57 +0000
Subject: [PATCH 90/95] fix: an active get or put without an offset is at the
 start of the buffer

---
 src/vt/rdma/state/rdma_state.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vt/rdma/state/rdma_state.cc b/src/vt/rdma/state/rdma_state.cc
index dc025ef..fc60616 100644
--- a/src/vt/rdma/state/rdma_state.cc
+++ b/src/vt/rdma/state/rdma_state.cc
@@ -194,7 +194,7 @@ bool State::testReadyPutData(TagType const& tag) {
   );
 
   return RDMA_GetType{
-    state.ptr + req_offset,
+    req_offset == no_byte ? state.ptr : state.ptr + req_offset,
     req_num_bytes == no_byte ? state.num_bytes : req_num_bytes
   };
 }
@@ -216,7 +216,8 @@ bool State::testReadyPutData(TagType const& tag) {
     "To use default handler ptr, bytes must be set"
   );
 
-  std::memcpy(state.ptr + req_offset, in_ptr, req_num_bytes);
+  auto const offset = req_offset == no_byte ? 0 : req_offset;
+  std::memcpy(state.ptr + offset, in_ptr, req_num_bytes);
 }
 
 void State::getData(
-- 
2.43.0


From 9742efd79856127347dff1a530f8b921f24da437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:57 +0000
Subject: [PATCH 91/95] fix: a large active put without an action is not
 acknowledged

---
 src/vt/rdma/rdma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/rdma/rdma.cc b/src/vt/rdma/rdma.cc
index 1bdafa2..46da92c 100644
--- a/src/vt/rdma/rdma.cc
+++ b/src/vt/rdma/rdma.cc
@@ -251,7 +251,7 @@ RDMAManager::RDMAManager()
             "putData: recv_data_msg_buffer DIRECT: offset={}\n",
             offset
           );
-          if (send_back) {
+          if (send_back != uninitialized_destination) {
             auto new_msg = makeMessage<PutBackMessage>(op_id);
             theMsg()->sendMsg<putBackMsg>(
               send_back, new_msg
-- 
2.43.0


From 58b49e3fd4e470754d9e4d49474d7aa47e919cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:57 +0000
Subject: [PATCH 92/95] fix: a put function for any tag takes tagged puts

---
 src/vt/rdma/state/rdma_state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/rdma/state/rdma_state.cc b/src/vt/rdma/state/rdma_state.cc
index fc60616..ce142e9 100644
--- a/src/vt/rdma/state/rdma_state.cc
+++ b/src/vt/rdma/state/rdma_state.cc
@@ -169,7 +169,7 @@ bool State::testReadyPutData(TagType const& tag) {
   bool const not_ready = (
     ((tag == no_tag or put_any_tag) and rdma_put_fn == nullptr) or (
       tag != no_tag and
-      not get_any_tag and
+      not put_any_tag and
       put_tag_holder.find(tag) == put_tag_holder.end()
     )
   );
-- 
2.43.0


From 4c02279aea4fd2c217b797c7a3321d2c34ea2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:15 +0000
Subject: [PATCH 93/95] fix: typed active gets and puts count elements, not
 pointers

---
 src/vt/rdma/rdma.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/vt/rdma/rdma.h b/src/vt/rdma/rdma.h
index aaeb535..3920346 100644
--- a/src/vt/rdma/rdma.h
+++ b/src/vt/rdma/rdma.h
@@ -69,6 +69,7 @@
 
 #include "vt/collective/collective_scope.h"
 
+#include <type_traits>
 #include <unordered_map>
 #include <cassert>
 
@@ -139,11 +140,11 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
     ByteType const& num_elems, ByteType const& offset, TagType const& tag,
     ActionType action_after_put = no_action
   ) {
-    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(T)*num_elems;
-    ByteType const byte_offset = offset == no_byte ? 0 : sizeof(T)*offset;
+    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(std::remove_pointer_t<T>)*num_elems;
+    ByteType const byte_offset = offset == no_byte ? 0 : sizeof(std::remove_pointer_t<T>)*offset;
     return putData(
       rdma_handle, reinterpret_cast<RDMA_PtrType>(ptr), num_bytes, byte_offset, tag,
-      sizeof(T), action_after_put
+      sizeof(std::remove_pointer_t<T>), action_after_put
     );
   }
 
@@ -302,7 +303,7 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
   ) {
     RDMA_RegionType new_region{region};
     if (not new_region.hasElmSize()) {
-      new_region.setElmSize(sizeof(T));
+      new_region.setElmSize(sizeof(std::remove_pointer_t<T>));
     }
     return getRegionTypeless(rdma_handle, ptr, new_region, next_action);
   }
@@ -323,12 +324,12 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
     ByteType const& elm_offset = no_byte, TagType const& tag = no_tag,
     ActionType next_action = no_action
   ) {
-    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(T)*num_elems;
-    ByteType const byte_offset = elm_offset == no_byte ? 0 : sizeof(T)*elm_offset;
+    ByteType const num_bytes = num_elems == no_byte ? no_byte : sizeof(std::remove_pointer_t<T>)*num_elems;
+    ByteType const byte_offset = elm_offset == no_byte ? 0 : sizeof(std::remove_pointer_t<T>)*elm_offset;
 
     return getDataIntoBuf(
       rdma_handle, reinterpret_cast<RDMA_PtrType>(ptr), num_bytes, byte_offset, tag,
-      next_action, sizeof(T)
+      next_action, sizeof(std::remove_pointer_t<T>)
     );
   }
 
@@ -384,7 +385,7 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
    */
   template <typename T>
   RDMA_HandleType registerNewTypedRdmaHandler(T ptr, ByteType const& num_elems) {
-    ByteType const num_bytes = sizeof(T)*num_elems;
+    ByteType const num_bytes = sizeof(std::remove_pointer_t<T>)*num_elems;
     vt_debug_print(
       verbose, rdma,
       "registerNewTypedRdmaHandler ptr={}, bytes={}\n",
@@ -440,10 +441,10 @@ struct RDMAManager : runtime::component::Component<RDMAManager> {
     T ptr, ByteType const& num_total_elems, ByteType const& num_elems,
     RDMA_MapType const& map = default_map
   ) {
-    ByteType const num_bytes = sizeof(T)*num_elems;
-    ByteType const num_total_bytes = sizeof(T)*num_total_elems;
+    ByteType const num_bytes = sizeof(std::remove_pointer_t<T>)*num_elems;
+    ByteType const num_total_bytes = sizeof(std::remove_pointer_t<T>)*num_total_elems;
     return registerNewCollective(
-      true, ptr, num_bytes, num_total_bytes, sizeof(T), map
+      true, ptr, num_bytes, num_total_bytes, sizeof(std::remove_pointer_t<T>), map
     );
   }
 
-- 
2.43.0


From 33158d9c39a72303b2c371fcf4fc48c6916560b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:16 +0000
Subject: [PATCH 94/95] fix: withdraw the put function of a handler, not of its
 get

---
 src/vt/rdma/state/rdma_state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/rdma/state/rdma_state.cc b/src/vt/rdma/state/rdma_state.cc
index ce142e9..20e62fd 100644
--- a/src/vt/rdma/state/rdma_state.cc
+++ b/src/vt/rdma/state/rdma_state.cc
@@ -137,7 +137,7 @@ void State::unregisterRdmaHandler(
 
     auto p_put_iter = put_tag_holder.find(tag);
     if (p_put_iter != put_tag_holder.end() and
-        std::get<1>(p_get_iter->second) == handler) {
+        std::get<1>(p_put_iter->second) == handler) {
       put_tag_holder.erase(p_put_iter);
     }
   }
-- 
2.43.0


From 449bd333de3665a8742d69e2860b8ba12ac8c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:40 +0000
Subject: [PATCH 95/95] fix: payloads with the same tag from several ranks can
 be awaited at once

---
 src/vt/messaging/active.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/messaging/active.h b/src/vt/messaging/active.h
index f1957da..f27824d 100644
--- a/src/vt/messaging/active.h
+++ b/src/vt/messaging/active.h
@@ -326,7 +326,7 @@ struct ActiveMessenger : runtime::component::PollableComponent<ActiveMessenger>
   using EventRecordType      = event::AsyncEvent::EventRecordType;
   using SendFnType           = std::function<SendInfo(PtrLenPairType,NodeType,TagType)>;
   using UserSendFnType       = std::function<void(SendFnType)>;
-  using ContainerPendingType = std::unordered_map<TagType,PendingRecvType>;
+  using ContainerPendingType = std::unordered_multimap<TagType,PendingRecvType>;
   using ReadyHanTagType      = std::tuple<HandlerType, TagType>;
   using HandlerManagerType   = HandlerManager;
   using PendingSendType      = PendingSend;
-- 
2.43.0

